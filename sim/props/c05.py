"""C05: every step is exactly one prescribed gradient step, independent of history."""
from .common import *


def near(a, b, cls, msg, *args):
    d = model.dist(a, b)
    need(d < TOL, cls, msg + ' (distance %.3g)', *(args + (d,)))


def run_layers(sim, w, p):
    calls = []
    specs = [gen.gen_layer(sim, p, ['local1', 'local2', 'custom'], unitary_error_check=sim.chance(1, 4))
             for _ in range(1 + sim.choose(3) if not sim.chance(1, 8) else 4 + sim.choose(3))]
    etas = [s.desc[1] for s in specs]
    same = sim.choose(len(specs)) if len(specs) > 1 and sim.chance(1, 6) else None
    sim.summary = dict(gen.describe(p), optimiser='layered', layers=[str(s.desc) for s in specs])
    layers = sut('building layers', lambda: [s.build() for s in specs])
    if same:        # one layer object listed twice
        layers[same], specs[same], etas[same] = layers[0], specs[0], etas[0]
        sim.summary['listed_twice'] = same
    hist = []
    # previous life of the layer objects
    for _ in range(sim.choose(6)):
        i = sim.choose(len(layers))
        op = sim.choose(4)
        u = gen.random_unitary(sim, p.n)
        if op == 0:
            e = gen.gen_eta(sim) if not sim.chance(1, 6) else 0.0
            if sim.chance(1, 3):        # handed over in an array which the caller then uses for something else
                buf = np.array(e)
                layers[i].set_eta(buf)
                buf[...] = gen.gen_eta(sim)
                sim.probe('eta-buffer')
            else:
                layers[i].set_eta(e)
            for k, l in enumerate(layers):
                if l is layers[i]:
                    etas[k] = e
            hist.append('set_eta')
        elif op == 1:
            out = sut('direct step', lambda: layers[i](u))
            near(out, specs[i].step(u, etas[i]), 'wrong-step', 'direct step of layer %d after %s', i, hist)
            hist.append('used')
        else:
            sc = w.scope = Scope(sim, ('device', 'linalg'), at=sim.choose(14),
                                 fault=sim.pick(['device-error', 'device-result-lost', 'alloc-failure']))
            try:
                sut('failing step', lambda: layers[i](u))
            except Exception as e:
                if isinstance(e, Violation) or injected_in(e) is None:
                    raise
                sim.probe('failed-step')
            w.scope = None
            hist.append('failed')
    done = []
    for l in layers:
        if not any(l is d for d in done):
            gen.spy(l, calls)
            done.append(l)
    if sim.chance(1, 5):        # an earlier optimisation, possibly of another circuit, with the same layer objects
        q = gen.gen_problem(sim, p.n, p.n)
        sut('earlier optimisation', lambda: optimise('approx', q, [], layers, nsteps=sim.between(1, 4)))
        del calls[:]
        hist.append('optimised')
    kick = sim.chance(1, 3)
    nsteps = sim.between(2, 12)
    if p.n == 1 and sim.chance(1, 6):
        nsteps = sim.between(13, 40)
    tol = sim.pick([1e-3, 20.0, None])
    kw = dict(nsteps=nsteps, tol=tol, eta=sim.pick([0.1, 0.7]), perturb=kick)
    sim.summary.update(kw, history=hist)
    rec = sut('optimiser', lambda: optimise('approx', p, ['return_perturbations'], layers, **kw))
    pert = list(rec['return_perturbations'])
    if calls:
        near(calls[0]['in'], p.U0, 'wrong-start', 'the first step does not start from the circuit')
    for s, c in enumerate(calls):
        i = s % len(layers)
        need(c['layer'] is layers[i], 'not-round-robin', 'step %d used layer %s instead of %d', s,
             [j for j, l in enumerate(layers) if l is c['layer']], i)
        near(c['out'], specs[i].step(c['in'], etas[i]), 'wrong-step', 'step %d, layer %d %s after %s', s, i,
             specs[i].desc, hist)
        if s and (s - 1) not in pert:
            near(c['in'], calls[s - 1]['out'], 'wrong-start', 'step %d does not start where step %d ended', s, s - 1)
    sim.nontrivial = len(calls) >= 2
    sim.event('layers', len(calls), pert, [round(x, 4) for x in rec['cost']])
    sim.state_keys.add(('layers', p.n, tuple(s.kind for s in specs), tuple(hist), bool(pert)))


def run_exact(sim, w, p):
    eta = sim.pick([0.1, 0.5, 1.0, 0.02]) if not sim.chance(1, 12) else 0.0
    kw = dict(nsteps=sim.between(1, 9) if p.n == 3 or not sim.chance(1, 8) else 25, tol=sim.pick([1e-3, 1e-9]), eta=eta)
    sim.summary = dict(gen.describe(p), optimiser='exact', **kw)
    rec = sut('optimiser', lambda: optimise('exact', p, ['return_state', 'return_unitary'], **kw))
    st = [model.arr(x) for x in rec['return_state']]
    near(st[0], p.U0[:, 0], 'wrong-start', 'exact optimiser does not start from the circuit')
    u = p.U0
    for s in range(len(st) - 1):
        near(st[s + 1], model.exact_step(st[s], p.mats, eta), 'wrong-step', 'exact step %d', s)
        u = model.exact_step_unitary(u, p.mats, eta)
    near(rec['return_unitary'], u, 'wrong-step', 'final unitary after %d exact steps', len(st) - 1)
    sim.nontrivial = len(st) > 2
    sim.event('exact', len(st), [round(x, 4) for x in rec['cost']])
    sim.state_keys.add(('exact', p.n, len(p.obs), eta, len(st)))


def run_ps(sim, w, p):
    m = 1 + sim.choose(3) if not sim.chance(1, 5) else 4 + sim.choose(3)
    circuit, state, cost, grad = gen_param_circuit(sim, p, m)
    x0 = [sim.angle() for _ in range(m)]
    eta = sim.pick([0.1, 0.5, 0.02])
    kw = dict(nsteps=sim.between(1, 5) if not sim.chance(1, 10) else 12, tol=1e-9, eta=eta)
    sim.summary = dict(gen.describe(p), optimiser='parameter-shift', params=x0, **kw)
    rec = sut('optimiser', lambda: optimise('ps', p, ['return_params'], params=circuit.shaped(x0), circuit=circuit, **kw))
    ps = [np.array(x, dtype=float).ravel() for x in rec['return_params']]
    near(ps[0], x0, 'wrong-start', 'parameter-shift optimiser does not start from the given parameters')
    for s in range(len(ps) - 1):
        near(ps[s + 1], ps[s] - eta * grad(ps[s]), 'wrong-step', 'parameter-shift step %d', s)
    sim.nontrivial = len(ps) > 1
    sim.event('ps', len(ps), [round(x, 4) for x in rec['cost']])
    sim.state_keys.add(('ps', p.n, m, eta, len(ps)))


def run(sim):
    kind = sim.pick(['layers', 'layers', 'layers', 'exact', 'ps'])
    p = gen.gen_problem(sim, 1, 3, big=16)
    w = World(sim)
    seed_rngs(sim.choose(1 << 20))
    with activate(w):
        {'layers': run_layers, 'exact': run_exact, 'ps': run_ps}[kind](sim, w, p)
