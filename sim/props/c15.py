"""C15: line-search steps end at the minimum along the direction they rotate about."""
from .common import *
from .c06 import identify, near_max, attempt, next_circuit


def stationary(sim, p):
    """a circuit whose state is (nearly) an eigenstate of the cost: a maximum, saddle or minimum on every line"""
    v = np.linalg.eigh(sum(p.mats))[1]
    k = sim.choose(v.shape[1])
    v = v[:, [v.shape[1] - 1 - k] + [i for i in range(v.shape[1]) if i != v.shape[1] - 1 - k]].astype(complex)
    if sim.chance(1, 2):
        w, q = gen.gen_observable(sim, p.n)
        v = model.rot(w, q, p.n, sim.pick([1e-3, 1e-5, 1e-8])) @ v
    sim.probe('stationary')
    return v


def run(sim):
    from oranssi import opt_tools as ot
    kind = sim.pick(['squared', 'squared', 'su8', 'su8', 'zassenhaus'])
    lo = 1 if kind == 'squared' else 3
    p = gen.gen_problem(sim, lo, 3, generic=not sim.chance(1, 4), big=12)
    n = p.n
    if sim.chance(1, 5):            # observables for which no direction is flat at the top
        gen.extend_obs(p, [(c, (q,)) for q in range(n) for c in 'XYZ'])
    w = World(sim)
    ratio = (1 + sim.choose(4), 1)
    a2, a4 = not sim.chance(1, 3), not sim.chance(1, 3)
    sim.summary = dict(gen.describe(p), layer=kind)
    with activate(w):
        if kind == 'squared':
            alg = model.algebra(n, (1, 2) if n > 1 else (1,))
            layer = sut('building', lambda: ot.SquaredLieAlgebraLayer(p.device, p.obs))
        elif kind == 'su8':
            alg = model.algebra(n, ([1] if a2 else []) + ([2] if a4 else []) + [3])
            layer = sut('building', lambda: ot.SU8_AlgebraLayer(p.device, p.obs, add_su2=a2, add_su4=a4))
        else:
            alg = model.algebra(n, (2,))
            layer = sut('building', lambda: ot.ZassenhausLayer(p.device, p.obs, ratio=ratio))
        u = p.U0
        done = 0
        for s in range(2 + sim.choose(5)):
            u = stationary(sim, p) if sim.chance(1, 6) else next_circuit(sim, p, u)
            failed, r = attempt(sim, w, lambda: layer(u))
            if failed:
                sim.event('failed', s)
                continue
            out = model.arr(r)
            if kind == 'zassenhaus':
                done += 1
                if done > ratio[0]:
                    done = 0        # second phase: not a line search
                    u = out
                    continue
            c0 = model.cost(u[:, 0], p.mats)
            c1 = model.cost(out[:, 0], p.mats)
            need(c1 <= c0 + 1e-6, 'cost-increased', '%s step %d raises the cost from %.9g to %.9g', kind, s, c0, c1)
            ks = identify(out @ u.conj().T, alg)
            if ks is None:
                # no move: right only if a direction the layer may take (one may be excluded) has nothing to offer
                g = model.gradients(u[:, 0], p.mats, alg)
                second = sorted(g.values())[-2] if kind == 'squared' else max(g.values())
                need(any(g[k] >= second - 1e-6 and model.line_min(u, alg[k], p.mats)[0] >= c0 - 1e-6 for k in alg),
                     'not-minimum', '%s step %d did not move although the cost %.9g can be lowered along every steepest '
                     'direction', kind, s, c0)
                sim.event('identity', s)
            else:
                need(ks, 'not-one-direction', '%s step %d is not a rotation about one Pauli direction', kind, s)
                gap = min(c1 - model.line_min(u, alg[k], p.mats)[0] for k in ks)
                need(abs(gap) < 1e-6, 'not-minimum',
                     '%s step %d along %s ends %.6g above the minimum on that line (%.9g -> %.9g)', kind, s, ks[0], gap,
                     c0, c1)
                sim.event('min', s, len(ks[0][0]))
                sim.probe('locality-%d' % len(ks[0][0]))
                sim.nontrivial = True
            u = out
    sim.state_keys.add((kind, n, len(p.obs), len(sim.log)))
