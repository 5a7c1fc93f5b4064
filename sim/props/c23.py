"""C23: optimisation makes progress: small steps descend, a stuck run stops without kicks and gets free with them."""
from .common import *

LONG = 200          # the bound on the number of steps until a kicked run has to be free


def stuck_problem(sim):
    """one or two Pauli words on disjoint qubits and a product eigenstate of all of them that is not the minimum"""
    n = sim.between(1, 3)
    p = gen.gen_problem(sim, n, n, max_obs=1, fixed=True)
    order = sim.sample(range(n), n)
    words = []
    k = 1 + sim.choose(min(2, n))
    q = tuple(order[:k])
    words.append((''.join(sim.pick('XZ' if n == 1 else 'XZY') for _ in q), q))
    if n - k > 0 and sim.chance(1, 2):
        words.append((sim.pick('XZ'), (order[k],)))
    gen.set_obs(p, words)
    up = [True] + [sim.chance(2, 3) for _ in words[1:]]
    if sim.chance(1, 2):
        up = up[::-1]
    gates = []
    for (w, q), high in zip(words, up):
        flip = [not high] + [False] * (len(q) - 1)
        if len(q) > 1 and sim.chance(1, 3):
            flip = [not f for f in flip]        # an even number of extra flips leaves the eigenvalue alone
        for l, k, f in zip(w, q, flip):
            if f:
                gates.append(('RY', np.pi, k))
            if l == 'X':
                gates.append(('H', k))
            elif l == 'Y':
                gates.append(('RX', -np.pi / 2, k))
    busy = [k for _, q in words for k in q]
    for k in range(n):
        if k not in busy and sim.chance(2, 3):      # what the other qubits do makes no difference
            gates.append((sim.pick(['RY', 'RX']), sim.angle(), k))
    p.gates = gates or [('RX', 0.0, 0)]
    p.U0 = model.circuit_unitary(p.gates, n)
    want = sum(1 if h else -1 for h in up)
    if abs(model.cost(p.U0[:, 0], p.mats) - want) > 1e-9:
        raise HarnessError('not the eigenstate %s %s' % (words, up))
    gates = p.gates

    def circuit(params, **kwargs):
        gen.apply_gates(gates)
        return qml.state()
    p.circuit = circuit
    p.x0 = []
    return p, want


def run_stuck(sim, w):
    p, want = stuck_problem(sim)
    lowest = -len(p.words)
    kick = not sim.chance(1, 4)
    exact = sim.chance(1, 2)
    tol = sim.pick([1e-3, 1e-2, 1e-4] + ([20.0] if kick and exact else [1e-6]))
    seed = sim.choose(1 << 30)
    eta = sim.pick([0.5, 0.8]) if not exact else sim.pick([0.5, 0.3, 1.0])
    kw = dict(tol=tol, eta=eta)
    kw['perturbation' if exact else 'perturb'] = kick
    if exact:
        fkind, flags, specs = 'exact', ['return_unitary'], []
        first = 4
    else:
        def local(loc, trot, e):
            return lambda: gen.ot().LocalLieAlgebraLayer(p.device, p.obs, loc, eta=e, trotterize=trot)
        specs = [local(sim.pick([1, 2]) if p.n == 2 else 1, sim.chance(1, 3), sim.pick([0.5, 0.8]))
                 for _ in range(1 + sim.choose(2))]
        fkind, flags = 'approx', ['return_unitary', 'return_perturbations']
        first = 9
    sim.summary = dict(gen.describe(p), optimiser=fkind, start=want, layers=len(specs), seed=seed, **kw)
    layers = sut('building layers', lambda: [b() for b in specs])

    def go(nsteps):
        seed_rngs(seed)
        return optimise(fkind, p, flags, layers, nsteps=nsteps, **kw)
    # attempts that fail; afterwards faults stop
    for _ in range(sim.choose(3)):
        w.scope = Scope(sim, ('device', 'linalg'), at=sim.choose(200), fault=sim.pick(['device-error', 'alloc-failure']))
        try:
            sut('failing attempt', lambda: go(12))
        except Exception as e:
            if isinstance(e, (Violation, HarnessError)) or injected_in(e) is None:
                raise
            sim.probe('failed-attempt')
        w.scope = None
    if not kick:
        r = sut('optimiser', lambda: go(first + 8))
        c = r['cost']
        need(len(c) == first + 2, 'keeps-running',
             'nothing changes at a stationary start, so the run should stop at step %d; it recorded %d costs', first, len(c))
        need(all(abs(x - want) < 1e-9 for x in c), 'moved', 'the cost moved from a stationary start without kicks: %s',
             [round(x, 6) for x in c])
        sim.probe('stopped-at-once')
    else:
        r = sut('optimiser', lambda: go(40))
        reached = min(r['cost'])
        # kicks entangle, and layers of local rotations cannot undo that: they have to get free, not to the bottom
        near = lowest + 0.1 if exact else (lowest + 0.4 if len(p.words) == 1 else want - 0.3)
        if reached > near:
            r = sut('optimiser', lambda: go(LONG))
            reached = min(r['cost'])
            sim.probe('long-run')
        need(len(r['cost']) in (41, LONG + 1), 'stopped', 'a run with kicks stopped after %d costs', len(r['cost']))
        need(reached <= near, 'still-stuck',
             'with kicks the lowest cost in %d steps is %.4f (start %.4f, minimum %d), expected %.1f', len(r['cost']) - 1, reached, want, lowest,
             near)
        sim.probe('escaped')
    sim.nontrivial = True
    sim.event('stuck', fkind, kick, len(r['cost']), round(min(r['cost']), 4))
    sim.state_keys.add(('stuck', fkind, kick, tuple(x for x, _ in p.words), want, tol, len(specs)))


def run_descent(sim, w):
    """small steps from a generic start never raise the cost, and move it when there is a slope"""
    p = gen.gen_problem(sim, 1, 3, generic=True, max_obs=2)
    exact = sim.chance(1, 3)
    n = p.n
    if exact:
        gen.set_obs(p, p.words[:1])
        eta = sim.pick([0.5, 1.0, 0.1, 0.3])
        sim.summary = dict(gen.describe(p), optimiser='exact', eta=eta)
        nsteps = sim.between(3, 10)
        r = sut('optimiser', lambda: optimise('exact', p, ['return_unitary'], nsteps=nsteps, eta=eta, tol=1e-9))
        c = r['cost']
        if eta >= 0.3 and nsteps >= 8 and len(c) > 8 and abs(c[0]) < 0.8:
            need(c[-1] < c[0] - 0.1, 'no-progress', 'exact flow: %.5f -> %.5f in %d steps of size %g', c[0], c[-1], len(c) - 1,
                 eta)
            sim.probe('exact-progress')
    else:
        eta = sim.pick([0.02, 0.03, 0.05])
        loc = sim.pick(['local1', 'local2', 'custom']) if n != 3 else sim.pick(['local1', 'custom'])
        if n == 1:
            loc = 'local1'
        trot = sim.chance(1, 3)
        sim.summary = dict(gen.describe(p), layer=loc, eta=eta, trotterize=trot)
        o = gen.ot()
        layer = sut('building', lambda: o.CustomDirectionLieAlgebraLayer(p.device, p.obs, None, eta=eta, trotterize=trot)
                    if loc == 'custom' else o.LocalLieAlgebraLayer(p.device, p.obs, 1 if loc == 'local1' else 2, eta=eta,
                                                                   trotterize=trot))
        r = sut('optimiser', lambda: optimise('approx', p, ['return_unitary'], [layer], nsteps=sim.between(2, 8), tol=None))
        c = r['cost']
        alg = model.algebra(n, {'local1': (1,), 'local2': (2,), 'custom': (1, 2) if n > 1 else (1,)}[loc])
        us = [model.arr(u) for u in r['return_unitary']]
        for s in range(len(c) - 1):
            slope = eta / 2 ** n * sum(g * g for g in model.gradients(us[s][:, 0], p.mats, alg).values())
            need(c[s + 1] <= c[s] - 0.3 * slope + 1e-9, 'no-progress',
                 '%s step %d: cost %.9g -> %.9g although the slope promises a gain of %.3g', loc, s, c[s], c[s + 1], slope)
        sim.probe('layer-progress')
    for s in range(len(c) - 1):
        need(c[s + 1] <= c[s] + 1e-9, 'ascends', 'step %d of size %g raises the cost from %.9g to %.9g', s, eta, c[s], c[s + 1])
    sim.nontrivial = True
    sim.event('descent', [round(x, 5) for x in c])
    sim.state_keys.add(('descent', n, len(p.words), exact, eta, len(c)))


def run(sim):
    w = World(sim)
    seed_rngs(sim.choose(1 << 20))
    with activate(w):
        (run_descent if sim.chance(1, 3) else run_stuck)(sim, w)
