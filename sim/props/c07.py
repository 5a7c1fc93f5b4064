"""C07: failures surface, corrupt nothing, and a retry is as good as new."""
import copy

from .common import *


def snap(x):
    if isinstance(x, (list, tuple)):
        return [snap(v) for v in x]
    if isinstance(x, np.ndarray):
        return ('array', x.dtype.str, x.tolist())
    return x


def obs_snap(obs):
    out = []
    for o in obs:
        parts = o.obs if hasattr(o, 'obs') and isinstance(o.obs, list) else [o]
        out.append((id(o), [(q.name, tuple(q.wires.tolist()), [float(np.real(v)) for v in q.parameters]) for q in parts]))
    return out


class Job(object):
    """fresh() -> (call, inputs): a call on fresh objects plus the caller-owned inputs to watch"""
    lines = False
    retry = True


def job_optimiser(sim, p):
    j = Job()
    kind = sim.pick(['approx', 'approx', 'exact', 'ps'])
    j.lines = sim.chance(1, 3)
    if kind == 'approx':
        specs = [gen.gen_layer(sim, p, ['local1', 'local2', 'custom']) for _ in range(1 + sim.choose(2))]
        flags = [f for f in APPROX_FLAGS if sim.chance(1, 2)]
        long = sim.chance(1, 3)
        kw = dict(nsteps=sim.between(10, 12) if long else sim.between(1, 4), tol=20.0 if long else 1e-3,
                  eta=0.2, perturb=sim.chance(1, 2))
        j.desc = dict(optimiser=kind, layers=[str(s.desc) for s in specs], flags=flags, **kw)

        def fresh():
            layers = [s.build() for s in specs]
            params = list(p.x0)
            opts = dict(kw)
            return (lambda: optimise('approx', p, flags, layers, params=params, **opts)), \
                {'params': params, 'options': opts, 'layers': layers}
    elif kind == 'exact':
        flags = [f for f in EXACT_FLAGS if sim.chance(1, 2)]
        kick = 'return_perturbations' in flags or sim.chance(1, 2)
        kw = dict(nsteps=sim.between(1, 7), tol=sim.pick([1e-3, 20.0]), eta=0.2, perturbation=kick)
        j.desc = dict(optimiser=kind, flags=flags, **kw)

        def fresh():
            params = list(p.x0)
            opts = dict(kw)
            return (lambda: optimise('exact', p, flags, params=params, **opts)), {'params': params, 'options': opts}
    else:
        m = 1 + sim.choose(2)
        circuit, state, cost, grad = gen_param_circuit(sim, p, m)
        x0 = [sim.angle() for _ in range(m)]
        flags = [f for f in PS_FLAGS if sim.chance(1, 2)]
        kw = dict(nsteps=sim.between(1, 3), eta=0.2)
        j.desc = dict(optimiser=kind, flags=flags, params=x0, **kw)

        def fresh():
            params = circuit.shaped(x0)
            opts = dict(kw)
            return (lambda: optimise('ps', p, flags, params=params, circuit=circuit, **opts)), \
                {'params': params, 'options': opts}
    j.fresh = fresh
    return j


def job_step(sim, p):
    """one step of a layer (with or without memory) after a history of steps"""
    j = Job()
    kinds = ['local1', 'custom', 'squared', 'squared']
    if p.n >= 2:
        kinds += ['adapt', 'adapt']
    if p.n >= 3:
        kinds += ['su8', 'zassenhaus', 'zassenhaus']
    kind = sim.pick(kinds)
    j.lines = kind in ('local1', 'custom') and sim.chance(1, 2)
    hist = sim.choose(4)
    j.desc = dict(step_of=kind, after=hist)
    if kind == 'adapt':
        shift = [0.1 + sim.unit() for _ in range(3)]

        def stub(circuit, ps, observables, device, **kw):
            seams.stub_device_event()
            new = [[float(v) + shift[(i + k) % 3] for i, v in enumerate(row)] for k, row in enumerate(ps)]
            return [0.0], [np.array(new)]

        def fresh():
            layer = gen.ot().AdaptVQELayer(p.device, p.obs)
            u, params = p.U0, []
            for _ in range(hist):
                u, params = layer(u, optimizer=stub, params=params)
            u = model.arr(u)
            return (lambda: layer(u, optimizer=stub, params=params)), {'matrix': u, 'params': params}
        j.fresh = fresh
        return j
    spec = gen.gen_layer(sim, p, [kind])
    j.desc['layer'] = str(spec.desc)

    def fresh():
        layer = spec.build()
        u = p.U0
        for _ in range(hist):
            u = layer(u)
        u = model.arr(u)
        return (lambda: layer(u)), {'matrix': u}
    j.fresh = fresh
    return j


def job_adapt_run(sim, p):
    """whole optimisation with the adaptive layer and its real inner VQE (no retry on the same layer object)"""
    j = Job()
    j.retry = False
    j.desc = dict(optimiser='approx', layers=['adapt'], nsteps=2)

    def fresh():
        layer = gen.ot().AdaptVQELayer(p.device, p.obs)
        params = []
        return (lambda: optimise('approx', p, ['return_unitary'], [layer], params=params, nsteps=2)), {'params': params}
    j.fresh = fresh
    return j


def same(a, b):
    if isinstance(a, Record):
        return same_record(a, b)
    if isinstance(a, tuple):
        d = model.dist(a[0], b[0])
        e = max_dist([list(map(float, r)) for r in a[1]], [list(map(float, r)) for r in b[1]])
        return None if max(d, e) < 1e-9 else 'differ by %.3g' % max(d, e)
    d = model.dist(a, b)
    return None if d < 1e-9 else 'differ by %.3g' % d


def run(sim):
    adapt = sim.chance(1, 24)
    p = gen.gen_problem(sim, 2 if adapt else 1, 2 if adapt else 3, max_obs=2, fixed=adapt)
    if adapt:
        j = job_adapt_run(sim, p)
    elif sim.chance(1, 2):
        j = job_step(sim, p)
    else:
        j = job_optimiser(sim, p)
    sim.summary = dict(gen.describe(p), **j.desc)
    w = World(sim)
    rng = sim.choose(1 << 20)
    kinds = sim.pick([('device',), ('linalg',), ('stdout',), ('device', 'linalg', 'stdout')])
    if j.lines:
        kinds = ('line',)

    def traced(call):
        if not j.lines:
            return call()
        with seams.line_tracer():
            return call()

    obs0 = obs_snap(p.obs)
    with activate(w):
        call, _ = sut('setup', j.fresh)
        w.scope = sc = Scope(sim, kinds)
        seed_rngs(rng)
        good = sut('undisturbed call', lambda: traced(call))
        w.scope = None
        total = sc.count
        if total == 0:
            raise Discard()
        seams.fresh()               # the run that is going to fail starts in a process of its own
        call, inputs = sut('setup', j.fresh)
        before = {k: snap(v) for k, v in inputs.items()}
        need(obs_snap(p.obs) == obs0, 'input-changed', 'the list of observables changed in a successful call')
        ids = [id(x) for x in inputs.get('layers', [])]
        sim.summary['failure_points'] = total
        for attempt in range(1 + sim.choose(3)):
            at = sim.choose(total)
            f = sim.pick(['device-error', 'device-timeout', 'device-result-lost', 'alloc-failure', 'linalg-failure',
                          'stdout-enospc', 'stdout-epipe', 'interrupt'])
            w.scope = sc = Scope(sim, kinds, at=at, fault=f)
            seed_rngs(rng)
            surfaced = False
            res = None
            try:
                res = sut('failing call', lambda: traced(call))
            except BaseException as e:
                if isinstance(e, Violation) or injected_in(e) is None:
                    raise
                surfaced = True
                need(injected_in(e) is sc.fired, 'wrong-failure', 'another failure surfaced: %r', e)
            finally:
                w.scope = None
                seams.sys.settrace(None)
            if sc.fired is None:
                # (a failure point that was not reached this time)
                sim.probe('point-not-reached')
                if not surfaced and j.retry:
                    d = same(good, res)
                    need(d is None, 'retry-differs', 'repeating the call on the same objects gives another result: %s', d)
                continue
            need(surfaced, 'swallowed', 'a %s at point %d of %d was swallowed and a result returned',
                 type(sc.fired).__name__, at, total)
            reset_rngs_only()
            for k, v in inputs.items():
                need(snap(v) == before[k], 'input-changed', 'the caller\'s %s changed in a failed call: %s -> %s', k,
                     str(before[k])[:80], str(snap(v))[:80])
            need(obs_snap(p.obs) == obs0, 'input-changed', 'the observables changed in a failed call')
            sim.event('attempt', attempt, at, f)
            if not j.retry:
                sim.nontrivial = True
                return
        seed_rngs(rng)
        again = sut('retry', call)
        d = same(good, again)
        need(d is None, 'retry-differs', 'after the failure the repeated call gives another result: %s', d)
        for k, v in inputs.items():
            need(snap(v) == before[k], 'input-changed', 'the caller\'s %s changed in a successful call', k)
        need([id(x) for x in inputs.get('layers', [])] == ids, 'input-changed', 'the layer list changed')
    sim.nontrivial = bool(sim.faults)
    sim.event('ok', total)
    sim.state_keys.add((str(j.desc.get('optimiser') or j.desc.get('step_of')), kinds, min(total, 200) // 5,
                        tuple(sorted(sim.faults))))


def reset_rngs_only():
    import autograd.tracer as at
    at.trace_stack.top = -1
