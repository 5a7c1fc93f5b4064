"""C03: the returned record tells the truth about the run.

One or two optimisations run as interleaved tasks (shared device and observables), with kicks; every part of the
returned record is recomputed by the reference model from the recorded unitaries / parameters."""
from .common import *


def check_approx(sim, p, rec, flags, calls, layers, label):
    n = len(rec['cost'])
    steps = n - 1
    us = rec.get('return_unitary')
    need(len(calls) == steps, 'record-length', '%s: %d costs but %d layer steps taken', label, n, len(calls))
    # what the circuit was after initialisation and after every step (before a kick)
    truth = [p.U0] + [c['out'] for c in calls]
    for i in range(n):
        phi = truth[i][:, 0]
        e = model.cost(phi, p.mats)
        need(abs(e - rec['cost'][i]) < TOL, 'cost-wrong', '%s: cost[%d]=%.9g but the circuit had energy %.9g', label,
             i, rec['cost'][i], e)
    if 'return_state' in flags:
        st = rec['return_state']
        need(len(st) == n, 'record-length', '%s: %d states for %d costs', label, len(st), n)
        for i in range(n):
            d = model.dist(st[i], truth[i][:, 0])
            need(d < TOL, 'state-wrong', '%s: state[%d] is %.3g away from the circuit state', label, i, d)
    if us is not None:
        need(len(us) == n, 'record-length', '%s: %d unitaries for %d costs', label, len(us), n)
        for i in range(n):
            d = model.dist(us[i], truth[i])
            need(d < TOL, 'unitary-wrong', '%s: unitary[%d] is %.3g away from the circuit', label, i, d)
    if 'return_omegas' in flags:
        om = rec['return_omegas']
        need(len(om) == steps, 'record-length', '%s: %d gradients for %d steps', label, len(om), steps)
        for i in range(steps):
            ref = model.full_directions(truth[i + 1][:, 0], layers[i % len(layers)][1], p.n)
            got = om[i]
            need(set(got) == set(ref), 'omegas-wrong', '%s: gradient[%d] has keys %s', label, i, sorted(got)[:4])
            for k in ref:
                need(abs(got[k] - ref[k]) < TOL, 'omegas-wrong', '%s: gradient[%d][%s]=%.9g, should be %.9g', label,
                     i, k, got[k], ref[k])
    if 'return_zassenhaus' in flags:
        z = list(rec['return_zassenhaus'])
        need(len(z) == steps, 'record-length', '%s: %d phases for %d steps', label, len(z), steps)
        need(z == [c['phase'] for c in calls], 'phase-wrong', '%s: phases %s, observed %s', label, z,
             [c['phase'] for c in calls])
    if 'return_perturbations' in flags:
        pert = list(rec['return_perturbations'])
        need(pert == sorted(set(pert)) and all(0 <= x < steps for x in pert), 'perturbations-wrong',
             '%s: perturbation list %s with %d steps', label, pert, steps)
        for s in range(steps - 1):
            moved = model.dist(calls[s]['out'], calls[s + 1]['in']) > 1e-10
            need(moved == (s in pert), 'perturbations-wrong',
                 '%s: circuit %s between step %d and %d but perturbations=%s', label,
                 'changed' if moved else 'did not change', s, s + 1, pert)


def check_exact(sim, p, rec, flags, label, seen):
    n = len(rec['cost'])
    e0 = model.cost(p.U0[:, 0], p.mats)
    need(abs(rec['cost'][0] - e0) < TOL, 'cost-wrong', '%s: cost[0]=%.9g, start energy %.9g', label, rec['cost'][0], e0)
    if 'return_state' in flags:
        st = rec['return_state']
        need(len(st) == n, 'record-length', '%s: %d states for %d costs', label, len(st), n)
        need(model.dist(st[0], p.U0[:, 0]) < TOL, 'state-wrong', '%s: state[0] is not the initial state', label)
        for i in range(n):
            e = model.cost(model.arr(st[i]), p.mats)
            need(abs(e - rec['cost'][i]) < TOL, 'cost-wrong', '%s: cost[%d]=%.9g, recorded state has energy %.9g',
                 label, i, rec['cost'][i], e)
    if 'return_unitary' in flags:
        u = model.arr(rec['return_unitary'])
        e = model.cost(u[:, 0], p.mats)
        need(abs(e - rec['cost'][-1]) < TOL, 'unitary-wrong',
             '%s: returned unitary has energy %.9g, last recorded cost is %.9g', label, e, rec['cost'][-1])
        if 'return_state' in flags:
            d = model.dist(u[:, 0], rec['return_state'][-1])
            need(d < TOL, 'unitary-wrong', '%s: returned unitary is %.3g away from the last recorded state', label, d)
    if 'return_perturbations' in flags:
        pert = list(rec['return_perturbations'])
        need(pert == sorted(set(pert)) and all(0 <= x < n - 1 for x in pert), 'perturbations-wrong',
             '%s: perturbations %s with %d steps', label, pert, n - 1)


def check_ps(sim, p, rec, flags, label, x0, state, cost):
    n = len(rec['cost'])
    if 'return_params' in flags:
        ps = rec['return_params']
        need(len(ps) == n, 'record-length', '%s: %d parameter vectors for %d costs', label, len(ps), n)
        need(max_dist(np.array(ps[0], dtype=float).ravel(), np.array(x0)) < 1e-12, 'params-wrong',
             '%s: params[0] is not the start', label)
        for i in range(n):
            x = np.array(ps[i], dtype=float).ravel()
            e = cost(x)
            need(abs(e - rec['cost'][i]) < TOL, 'params-wrong',
                 '%s: cost[%d]=%.9g but the recorded parameters have energy %.9g', label, i, rec['cost'][i], e)
            if 'return_state' in flags:
                d = model.dist(rec['return_state'][i], state(x))
                need(d < TOL, 'state-wrong', '%s: state[%d] is %.3g from the circuit at params[%d]', label, i, d, i)
    if 'return_state' in flags:
        st = rec['return_state']
        need(len(st) == n, 'record-length', '%s: %d states for %d costs', label, len(st), n)
        for i in range(n):
            e = model.cost(model.arr(st[i]), p.mats)
            need(abs(e - rec['cost'][i]) < TOL, 'cost-wrong', '%s: cost[%d]=%.9g, state energy %.9g', label, i,
                 rec['cost'][i], e)
    need(abs(rec['cost'][0] - cost(x0)) < TOL, 'cost-wrong', '%s: cost[0]=%.9g, start energy %.9g', label,
         rec['cost'][0], cost(x0))


def make_job(sim, p, label):
    kind = sim.pick(['approx', 'approx', 'exact', 'ps'])
    flags = [f for f in FLAGS[kind] if sim.chance(2, 3)]
    desc = {'optimiser': kind, 'flags': flags}
    if kind == 'approx':
        kinds = ['local1', 'local2', 'custom', 'squared', 'zassenhaus', 'su8', 'scripted']
        calls = []
        specs, layers = [], []
        adapt = p.n > 1 and not p.x0 and sim.chance(1, 12)
        for _ in range(1 if adapt else 1 + sim.choose(2) if not sim.chance(1, 10) else 3 + sim.choose(3)):
            k = 'adapt' if adapt else sim.pick(kinds)
            if k == 'scripted' or (k in ('zassenhaus', 'su8') and p.n < 3) or (k == 'local2' and p.n % 2):
                amp = sim.pick([0.0, 0.3, 1.3])
                angles = [amp * (sim.unit() - 0.5) for _ in range(4)]
                specs.append(('scripted', amp))
                layers.append((lambda a=angles: gen.scripted_layer(p, a), None))
            else:
                s = gen.gen_layer(sim, p, [k])
                specs.append(s.desc)
                layers.append((s.build, s.mats))
        if any(s[0] == 'scripted' for s in specs):
            flags = [f for f in flags if f != 'return_omegas']
        cheap = p.n < 3 and all(s[0] in ('scripted', 'local1') for s in specs)
        kw = dict(nsteps=sim.between(1, 3) if adapt else (sim.between(1, 13) if not (cheap and sim.chance(1, 4)) else sim.between(14, 40)), tol=1e-3 if adapt else sim.pick([1e-3, 0.05, 20.0, None]), eta=sim.pick([0.1, 0.5]),
                  perturb=sim.chance(1, 2))
        desc.update(layers=[str(s) for s in specs], flags=flags, **kw)

        def job():
            ls = []
            for b, _ in layers:
                l = gen.spy(b(), calls)
                ls.append(l)
            rec = optimise('approx', p, flags, ls, **kw)
            return rec

        def check(rec):
            check_approx(sim, p, rec, flags, calls, layers, label)
            sim.state_keys.add(('approx', p.n, len(rec['cost']), tuple(flags), kw['perturb']))
        return desc, job, check
    if kind == 'exact':
        kick = sim.chance(1, 2)
        if not kick:
            flags = [f for f in flags if f != 'return_perturbations']
        kw = dict(nsteps=sim.between(1, 12), tol=sim.pick([1e-3, 0.05, 20.0]), eta=sim.pick([0.1, 0.5]),
                  perturbation=kick)
        desc.update(flags=flags, **kw)

        def job():
            return optimise('exact', p, flags, **kw)

        def check(rec):
            check_exact(sim, p, rec, flags, label, None)
            sim.state_keys.add(('exact', p.n, len(rec['cost']), tuple(flags), kick))
        return desc, job, check
    m = 1 + sim.choose(3) if not sim.chance(1, 6) else 4
    circuit, state, cost, grad = gen_param_circuit(sim, p, m)
    x0 = [round(sim.angle(), 6) for _ in range(m)]
    kw = dict(nsteps=sim.between(1, 6) if not sim.chance(1, 10) else 14, tol=sim.pick([1e-3, 20.0]), eta=sim.pick([0.1, 0.5]))
    desc.update(params=x0, **kw)

    def job():
        return optimise('ps', p, flags, params=circuit.shaped(x0), circuit=circuit, **kw)

    def check(rec):
        check_ps(sim, p, rec, flags, label, x0, state, cost)
        sim.state_keys.add(('ps', p.n, len(rec['cost']), tuple(flags), m))
    return desc, job, check


def run(sim):
    ntasks = 1 + sim.choose(2)
    base = gen.gen_problem(sim, 1, 3, big=40)
    jobs = []
    for t in range(ntasks):
        p = base
        if t and sim.chance(1, 2):
            p = gen.gen_problem(sim, 1, 3)
            if p.n == base.n:
                p.device = base.device
        jobs.append(make_job(sim, p, 'task%d' % t) + (p,))
    sim.summary = {'problem': gen.describe(base), 'tasks': [j[0] for j in jobs]}
    w = World(sim)
    sch = seams.Scheduler(sim, 1, sim.pick([2, 5, 20]))
    w.sched = sch
    for t, (d, job, check, p) in enumerate(jobs):
        sch.add('task%d' % t, job, rng_seed=sim.choose(1 << 20))
    old = seams.sys.stdout
    with activate(w), seams.muted():
        sch.run()
    for t, (d, job, check, p) in enumerate(jobs):
        task = sch.tasks[t]
        if task.exc is not None:
            if isinstance(task.exc, (Violation, HarnessError)):
                raise task.exc
            fail('unexpected-exception', 'task%d raised %s: %s [%s]', t, type(task.exc).__name__,
                 str(task.exc)[:200], seams._frames(task.exc))
        check(task.result)
        sim.event('task', t, len(task.result['cost']), [round(c, 4) for c in task.result['cost']])
        if task.result.get('return_perturbations') is not None and len(task.result['return_perturbations']):
            sim.fired('perturbation-kick')
    if sch.switches:
        sim.fired('preemption')
        sim.probe('interleaved')
    sim.nontrivial = True
