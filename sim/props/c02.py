"""C02: with the unitary error check on, numerical drift of the matrix exponential is repaired.

The expm seam returns matrices that are off the unitary group by a simulator-chosen amount (what an inaccurate
exponential would do). With `unitary_error_check=True` the result of every step must still be unitary and must
stay within a drift-sized neighbourhood of the undisturbed step; with no drift the check must change nothing."""
from .common import *


def run(sim):
    p = gen.gen_problem(sim, 1, 3, generic=True, big=16)
    kinds = ['local1', 'local2', 'custom', 'stochastic']
    spec = gen.gen_layer(sim, p, kinds, unitary_error_check=True)
    alg = model.algebra(p.n, (1, 2) if p.n > 1 else (1,))
    seed_rngs(sim.choose(1 << 20))

    def prescribed(u, out):
        if spec.kind != 'stochastic':
            return spec.step(u)
        best = None         # the direction is a random draw: the prescribed step along the one that fits best
        for P in alg.values():
            x = u
            for o in spec.mats:
                x = model.exp_herm(model.omega(u[:, 0], P, o).imag * P, spec.desc[1] / 2 ** p.n) @ x
            if best is None or model.dist(x, out) < model.dist(best, out):
                best = x
        sim.probe('stochastic')
        return best

    w = World(sim)
    eps = sim.pick([0.0, 1e-7, 1e-5, 1e-3, 3e-2])
    den = sim.pick([1, 2, 5])
    fired = [0]

    def drift(m):
        if eps == 0.0 or not sim.chance(1, den):
            return m
        fired[0] += 1
        sim.fired('expm-drift')
        m = np.array(m, dtype=complex)
        mode = sim.choose(3)
        d = m.shape[0]
        if mode == 0:
            return m * (1 + eps)
        if mode == 1:
            m[:, sim.choose(d)] *= (1 - eps)
            return m
        m[sim.choose(d), sim.choose(d)] += eps * (1 + 0.5j)
        return m

    sim.summary = dict(gen.describe(p), layer=str(spec.desc), eps=eps, one_in=den)
    u = p.U0
    with activate(w):
        layer = sut('building the layer', spec.build)
        steps = 1 + sim.choose(4)
        for s in range(steps):
            w.drift = drift
            fired[0] = 0
            n0 = sim.steps
            out = sut('layer step', lambda: layer(u))
            w.drift = None
            nexp = sim.steps - n0
            out = model.arr(out)
            err = model.unitary_error(out)
            # repair triggers at 1e-8 per exponential; below that nothing needs to happen
            need(err <= 3e-8 * max(1, fired[0]) + 1e-10, 'drift-not-repaired',
                 'step %d: %d exponentials were off by %g; result has unitary error %.3g', s, fired[0], eps, err)
            ref = prescribed(u, out)
            lim = 1e-8 + 8 * eps * max(1, fired[0]) * 2 ** p.n if fired[0] else 1e-8
            need(model.dist(out, ref) <= lim, 'repair-distorts',
                 'step %d: result is %.3g away from the prescribed step (%d drifted exponentials of size %g)',
                 s, model.dist(out, ref), fired[0], eps)
            if fired[0]:
                sim.probe('repaired-step')
                sim.nontrivial = True
            u = model.nearest_unitary(out)
            sim.event('step', s, fired[0], nexp)
    sim.state_keys.add((spec.kind, p.n, eps, den, str(spec.desc[2:3])))
