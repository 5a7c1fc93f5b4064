"""C08: optimisations running side by side do not influence each other."""
from .common import *


def make(sim, p, heavy):
    kind = sim.pick(['approx', 'approx', 'exact', 'ps', 'step'])
    if kind == 'approx':
        kinds = ['local1', 'local2', 'custom', 'squared', 'su8', 'zassenhaus', 'stochastic']
        specs = [gen.gen_layer(sim, p, kinds) for _ in range(1 + sim.choose(2))]
        flags = [f for f in APPROX_FLAGS if sim.chance(1, 2)]
        kick = sim.chance(1, 3)
        kw = dict(nsteps=sim.between(10, 11) if kick else sim.between(1, 5), tol=20.0 if kick else 1e-3, eta=0.2,
                  perturb=kick)
        desc = dict(optimiser=kind, layers=[str(s.desc) for s in specs], n=p.n, **kw)
        return desc, lambda params: optimise('approx', p, flags, [s.build() for s in specs], params=params, **kw)
    if kind == 'exact':
        kick = sim.chance(1, 2)
        flags = [f for f in EXACT_FLAGS if sim.chance(1, 2) and (kick or f != 'return_perturbations')]
        kw = dict(nsteps=sim.between(1, 7), tol=20.0 if kick else 1e-3, eta=0.2, perturbation=kick)
        return dict(optimiser=kind, n=p.n, **kw), lambda params: optimise('exact', p, flags, params=params, **kw)
    if kind == 'ps':
        m = 1 + sim.choose(2)
        circuit, state, cost, grad = gen_param_circuit(sim, p, m)
        x0 = [sim.angle() for _ in range(m)]
        kw = dict(nsteps=sim.between(1, 3), eta=0.2)
        return dict(optimiser=kind, n=p.n, **kw), \
            lambda params: optimise('ps', p, ['return_params', 'return_state'], params=circuit.shaped(x0), circuit=circuit, **kw)
    spec = gen.gen_layer(sim, p, ['local1', 'custom', 'squared', 'su8', 'zassenhaus', 'stochastic'])
    k = 1 + sim.choose(4)

    def steps(params):
        layer = spec.build()
        u = p.U0
        out = []
        for _ in range(k):
            u = layer(u)
            out.append(model.arr(u))
        return out
    return dict(steps_of=str(spec.desc), n=p.n, k=k), steps


def same(a, b):
    if isinstance(a, Record):
        return same_record(a, b)
    d = max_dist(a, b)
    return None if d < 1e-9 else 'matrices differ by %.3g' % d


def make_twin(sim, p, kind):
    """a few steps of a layer of the given kind (all tasks of the run use this kind and size)"""
    spec = gen.gen_layer(sim, p, [kind])
    k = 1 + sim.choose(3)
    commute = kind == 'squared' and sim.chance(1, 3)

    def steps(params):
        layer = spec.build()
        u = p.U0
        out = []
        for _ in range(k):
            if commute:
                u = layer(u, commute=True, optimizer=_inner)[0]
            else:
                u = layer(u)
            out.append(model.arr(u))
        return out
    return dict(steps_of=str(spec.desc), n=p.n, k=k, commute=commute), steps


def _inner(circuit, params, observables, device=None, **kw):
    """stands in for the inner VQE of a commuting step"""
    seams.stub_device_event()
    return [0.0], [np.array([float(v) + 0.3 for v in params])]


def make_adapt(sim, p):
    k = 1 + sim.choose(3)

    def opt(circuit, ps, observables, device, **kw):
        seams.stub_device_event()
        return [0.0], [np.array([[float(v) + 0.2 + 0.1 * i for i, v in enumerate(row)] for row in ps])]

    def steps(params):
        layer = gen.ot().AdaptVQELayer(p.device, p.obs)
        u, ps, out = p.U0, params, []
        for _ in range(k):
            u, ps = layer(u, optimizer=opt, params=ps)
            out.append(model.arr(u))
        return out
    return dict(steps_of='adapt', n=p.n, k=k), steps


def run_twins(sim):
    kind = sim.pick(['local1', 'local2', 'custom', 'squared', 'su8', 'zassenhaus', 'stochastic', 'adapt'])
    lo, hi = {'local2': (2, 2), 'su8': (3, 3), 'zassenhaus': (3, 3), 'adapt': (2, 3)}.get(kind, (1, 3))
    n = sim.between(lo, hi)
    if kind == 'adapt' and sim.chance(2, 3):
        n = lo
    dev = None
    jobs = []
    sizes = [n, n]
    if sim.chance(1, 4):        # the same kind of layer, but for another number of qubits
        sizes = {'local2': [2, 4], 'su8': [3, 4], 'zassenhaus': [3, 4], 'adapt': [2, 3]}.get(kind, [1 + n % 3, n])
        if sim.chance(1, 2):
            sizes = sizes[::-1]
    for t in range(2):
        p = gen.gen_problem(sim, sizes[t], sizes[t], max_obs=2, generic=True, fixed=True)
        if jobs and sizes[0] == sizes[1] and sim.chance(1, 2):
            gen.set_obs(p, gen.similar_words(sim, jobs[0][2].words, n))
        if dev is not None and sizes[0] == sizes[1] and sim.chance(3, 4):
            p.device = dev
        dev = p.device
        jobs.append((make_adapt(sim, p) if kind == 'adapt' else make_twin(sim, p, kind)) + (p,))
    interleave(sim, jobs, lines=sim.chance(2, 3))


def run(sim):
    if sim.chance(2, 3):
        run_twins(sim)
    else:
        run_mix(sim)


def run_mix(sim):
    nt = 2 + sim.choose(2)
    probs = []
    base = gen.gen_problem(sim, 1, 3, max_obs=2)
    for t in range(nt):
        if t == 0 or sim.chance(1, 3):
            probs.append(base)
        else:
            q = gen.gen_problem(sim, 1, 3, max_obs=2)
            if q.n == base.n and sim.chance(2, 3):
                q.device = base.device
            probs.append(q)
    jobs = [make(sim, probs[t], nt) + (probs[t],) for t in range(nt)]
    interleave(sim, jobs, lines=sim.chance(1, 3))


def interleave(sim, jobs, lines):
    nt = len(jobs)
    seeds = [sim.choose(1 << 20) for _ in range(nt)]
    sim.summary = {'tasks': [j[0] for j in jobs], 'line_preemption': lines}
    shared = {id(j[2]): list(j[2].x0) for j in jobs}       # one list object per problem
    w = World(sim)
    kill = sim.choose(nt) if sim.chance(1, 4) else None

    def guarded(fn, params):
        return lambda: fn(params)

    # alone first or afterwards (the simulator decides): the reference for each task
    def solo():
        out = []
        for t in range(nt):
            seed_rngs(seeds[t])
            seams.fresh()           # a process of its own
            out.append(sut('task %d alone' % t, guarded(jobs[t][1], list(jobs[t][2].x0))))
        return out

    first = sim.chance(1, 2)
    with activate(w):
        alone = solo() if first else None
        sch = seams.Scheduler(sim, 1, sim.pick([2, 4, 12]) if not lines else sim.pick([4, 20, 100, 400]),
                              kinds=('device', 'linalg', 'line') if lines else ('device', 'linalg'))
        w.sched = sch
        seams.fresh()
        for t in range(nt):
            sch.add('t%d' % t, guarded(jobs[t][1], shared[id(jobs[t][2])]), trace_lines=lines, rng_seed=seeds[t])
            task = sch.tasks[-1]
            # the same streams seed_rngs(seed) gives
            task.np_state = np.random.RandomState(seeds[t] & 0x7fffffff).get_state()
        if kill is not None:
            sch.kill_at = (kill, 1 + sim.choose(40))
        with seams.muted():
            sch.run()
        w.sched = None
        if alone is None:
            alone = solo()
    for t in range(nt):
        task = sch.tasks[t]
        if task.exc is not None:
            if isinstance(task.exc, seams.TaskKilled):
                sim.probe('killed')
                sim.event('killed', t)
                continue
            if isinstance(task.exc, (Violation, HarnessError)):
                raise task.exc
            fail('unexpected-exception', 'task %d raised %s: %s [%s]', t, type(task.exc).__name__,
                 str(task.exc)[:200], seams._frames(task.exc))
        d = same(alone[t], task.result)
        need(d is None, 'interference', 'task %d (%s) returns something else when interleaved: %s', t, jobs[t][0], d)
        sim.event('same', t)
    for j in jobs:
        need(shared[id(j[2])] == list(j[2].x0), 'interference', 'the shared parameter list was changed: %s',
             str(shared[id(j[2])])[:100])
    if sch.switches:
        sim.fired('preemption')
        sim.nontrivial = True
    sim.state_keys.add((nt, lines, tuple(str(j[0].get('optimiser', 'step')) for j in jobs), min(sch.switches, 50) // 3))
