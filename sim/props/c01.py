"""C01: the circuit stays on the unitary manifold along every history.

Workload: a random problem, any mixture of layers (stateless, greedy, Zassenhaus, stochastic) or the exact
optimiser, with kicks, shot noise, device faults and restarts from the last good unitary.
Oracle: every matrix the device ever receives, every matrix a layer is given or returns and every recorded
unitary satisfies |UU^+ - 1| < 1e-9, every recorded state has norm 1 and every analytic cost lies in the
spectrum bound."""
from .common import *


def check_u(u, what, *a):
    e = model.unitary_error(u)
    need(e < 1e-9, 'not-unitary', what + ': unitary error %.3g', *(a + (e,)))


def run(sim):
    shots = sim.pick([None, None, None, 20, 200])
    adapt = shots is None and sim.chance(1, 24)
    p = gen.gen_problem(sim, 2 if adapt else 1, 2 if adapt else 3, shots=shots, big=0 if adapt else 40, fixed=adapt)
    kind = 'approx' if adapt else sim.pick(['approx', 'approx', 'exact'])
    w = World(sim)
    seen = []
    unitaries_seen(w, seen)
    seed_rngs(sim.choose(1 << 20))
    tol = sim.pick([1e-3, 0.05, 0.5, 20.0])
    eta = sim.pick([0.1, 0.5, 1.0, 0.03])
    kick = not sim.chance(1, 3)
    fault = sim.chance(1, 3)
    desc = gen.describe(p)
    desc.update(optimiser=kind, shots=shots, tol=tol, eta=eta, kicks=kick)
    calls = []
    layers = specs = None
    if kind == 'approx':
        kinds = ['local1', 'local2', 'custom', 'squared', 'stochastic', 'su8', 'zassenhaus']
        specs = [gen.gen_layer(sim, p, kinds) for _ in range(1 + sim.choose(3) if not sim.chance(1, 12) else 4 + sim.choose(2))] if not adapt else \
            [gen.gen_layer(sim, p, ['adapt'])]
        desc['layers'] = [str(s.desc) for s in specs]
        with activate(w):
            layers = sut('building layers', lambda: [gen.spy(s.build(), calls) for s in specs])
        kw = dict(nsteps=sim.between(2, 4) if adapt else sim.between(6, 13) if p.n > 1 or not sim.chance(1, 6) else 40, tol=tol, eta=eta, perturb=kick)
        flags = ['return_state', 'return_unitary', 'return_perturbations']
    else:
        kw = dict(nsteps=sim.between(5, 14), tol=tol, eta=eta, perturbation=kick)
        flags = ['return_state', 'return_unitary'] + (['return_perturbations'] if kick else [])
    sim.summary = desc

    if fault:
        # crash somewhere inside a first attempt; the same layer objects are then used again
        at = sim.choose(120)
        f = sim.pick(['device-error', 'device-timeout', 'device-result-lost', 'alloc-failure', 'linalg-failure'])
        w.scope = Scope(sim, ('device', 'linalg'), at=at, fault=f)
        with activate(w):
            try:
                sut('optimiser (faulty attempt)', lambda: optimise(kind, p, flags, layers, **kw))
            except BaseException as e:
                if isinstance(e, Violation) or injected_in(e) is None:
                    raise
                sim.probe('crashed-attempt')
        w.scope = None
        reset = calls[:]
        for c in reset:
            if c['out'] is not None:
                check_u(c['out'], 'layer output in the crashed attempt')
        del calls[:]
        if adapt:       # its ansatz belongs to the parameters of the lost attempt: start over
            with activate(w):
                layers = sut('building layers', lambda: [gen.spy(s.build(), calls) for s in specs])

    with activate(w):
        rec = sut('optimiser', lambda: optimise(kind, p, flags, layers, **kw))
    for i, u in enumerate(seen):
        check_u(u, 'matrix %d sent to the device', i)
    for i, c in enumerate(calls):
        check_u(c['in'], 'layer call %d input', i)
        check_u(c['out'], 'layer call %d output', i)
    us = rec['return_unitary'] if kind == 'approx' else [rec['return_unitary']]
    for i, u in enumerate(us):
        check_u(u, 'recorded unitary %d', i)
        need(model.arr(u).shape == (2 ** p.n, 2 ** p.n), 'not-unitary', 'recorded unitary %d has shape %s', i,
             model.arr(u).shape)
    for i, s in enumerate(rec['return_state']):
        nrm = float(np.sum(np.abs(model.arr(s)) ** 2))
        need(abs(nrm - 1) < 1e-9, 'not-normalised', 'recorded state %d has squared norm %.12g', i, nrm)
    for i, c in enumerate(rec['cost']):
        need(np.isfinite(c) and abs(c) <= p.bound + 1e-6, 'cost-out-of-range',
             'cost %d is %r with %d Pauli observables', i, c, len(p.obs))
    if kick and len(rec.get('return_perturbations', [])):
        sim.probe('kicked')
        sim.fired('perturbation-kick')
    if shots:
        sim.fired('shot-noise')
    sim.nontrivial = len(rec['cost']) > 3
    sim.event('end', len(rec['cost']), len(seen), [round(c, 4) for c in rec['cost']])
    sim.state_keys.add((kind, p.n, shots is None, kick, tuple(s.kind for s in specs) if specs else ()))
