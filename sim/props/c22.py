"""C22: an optimisation can be stopped at any step and resumed from what it returned, also after crashes."""
from .common import *

SAME = 1e-6
FREE = ['local1', 'local2', 'custom']
KEEP = ['squared', 'su8', 'zassenhaus', 'stochastic']


def from_unitary(sim, u, n):
    """the circuit a caller resumes from: the stored matrix as one gate, possibly with its wires in another order"""
    u = np.array(u)
    wires = sim.sample(range(n), n) if n > 1 and sim.chance(1, 3) else list(range(n))
    if wires != sorted(wires):
        order = wires + [n + q for q in wires]
        u = u.reshape([2] * (2 * n)).transpose(order).reshape(2 ** n, 2 ** n).copy()
        sim.probe('wires-reordered')

    def circuit(params, **kwargs):
        qml.QubitUnitary(u, wires=wires)
        return qml.state()
    return circuit


def lengths(sim, total, unit, longest):
    """cut `total` steps into segments that are multiples of `unit` and no longer than `longest`"""
    out = []
    while total > 0:
        k = unit * (1 + sim.choose(max(1, min(longest, total) // unit)))
        k = min(k, total)
        out.append(k)
        total -= k
    return out


def flags_for(sim, kind, must):
    pool = [f for f in FLAGS[kind] if f != 'return_perturbations']
    return [f for f in pool if f in must or sim.chance(1, 3)]


def crash(sim, w, fn):
    """the attempt dies at some event; only the checkpoint survives"""
    kinds, fault = sim.pick([(('device', 'linalg'), 'device-error'), (('device', 'linalg'), 'device-result-lost'),
                             (('device', 'linalg'), 'alloc-failure'), (('line',), 'interrupt')])
    sc = w.scope = Scope(sim, kinds, at=sim.choose(40 if fault != 'interrupt' else 400), fault=fault)
    try:
        if fault == 'interrupt':
            with seams.line_tracer():
                sut('attempt', fn)
        else:
            sut('attempt', fn)
    except (Exception, KeyboardInterrupt) as e:
        if isinstance(e, (Violation, HarnessError)) or injected_in(e) is None:
            raise
        sim.probe('crashed-segment')
    finally:
        w.scope = None
    return sc.fired is not None


def judge(sim, whole, costs, finals, wcosts, wfinals, name, stop):
    """costs/finals of the stitched run against the whole run, as far as the whole run went"""
    for i, (a, b) in enumerate(zip(wcosts, costs)):
        if i >= 2 and stop and any(abs(wcosts[j] - wcosts[j - 1]) < 1e-6 for j in range(1, i)):
            return
        need(abs(a - b) < SAME, 'resumed-differs', '%s: cost %d is %.9g in one run and %.9g when stopped and resumed', name,
             i, a, b)
        if wfinals is not None and i in finals:
            d = max_dist(finals[i], wfinals[i])
            need(d < SAME, 'resumed-differs', '%s: the circuit after %d steps differs by %.3g when stopped and resumed',
                 name, i, d)


def run_segments(sim, w, p):
    kind = sim.pick(['layered', 'layered', 'keep', 'keep', 'exact', 'ps'])
    finals = {}
    costs = []
    seed = sim.choose(1 << 20)
    stop = False
    if kind == 'ps':
        m = 1 + sim.choose(3)
        circuit, state, cost, grad = gen_param_circuit(sim, p, m)
        x0 = [sim.angle() for _ in range(m)]
        kw = dict(tol=1e-9, eta=sim.pick([0.1, 0.5, 0.02]))
        total = sim.between(2, 6)
        cuts = lengths(sim, total, 1, 3)
        sim.summary = dict(gen.describe(p), optimiser='parameter-shift', cuts=cuts, **kw)

        def go(params, nsteps, flags):
            return optimise('ps', p, flags, params=params, circuit=circuit, nsteps=nsteps, **kw)
        start = circuit.shaped(x0)
        final = 'return_params'
        fkind = 'ps'
        layered = False
    elif kind == 'exact':
        kw = dict(tol=1e-9, eta=sim.pick([0.1, 0.5, 1.0, 0.02]))
        total = sim.between(2, 9)
        cuts = lengths(sim, total, 1, 4)
        sim.summary = dict(gen.describe(p), optimiser='exact', cuts=cuts, **kw)

        def go(circuit, nsteps, flags):
            return optimise('exact', p, flags, circuit=circuit, params=None if circuit is p.circuit else [], nsteps=nsteps, **kw)
        start = p.circuit
        final = 'return_unitary'
        fkind = 'exact'
        layered = False
    else:
        kinds = FREE if kind == 'layered' else KEEP + ['local1']
        most = 3
        if kind == 'keep' and p.n > 2 and sim.chance(1, 2):
            kinds, most = ['zassenhaus', 'zassenhaus', 'squared'], 2
        specs = [gen.gen_layer(sim, p, kinds) for _ in range(1 + sim.choose(most))]
        stop = any(s.kind in ('squared', 'su8', 'zassenhaus') for s in specs)
        kw = dict(eta=sim.pick([0.1, 0.7]), tol=None)
        nl = len(specs)
        total = nl * sim.between(2, max(2, 9 // nl)) + sim.choose(nl)
        cuts = lengths(sim, total, nl, 8)
        sim.summary = dict(gen.describe(p), optimiser='layered', layers=[str(s.desc) for s in specs], cuts=cuts, **kw)
        box = {}

        def build():
            box['layers'] = sut('building layers', lambda: [s.build() for s in specs])

        def go(circuit, nsteps, flags):
            return optimise('approx', p, flags, box['layers'], circuit=circuit,
                            params=None if circuit is p.circuit else [], nsteps=nsteps, **kw)
        start = p.circuit
        final = 'return_unitary'
        fkind = 'approx'
        layered = True
    order = sim.chance(1, 2)

    def whole():
        seed_rngs(seed)
        if layered:
            build()
        r = sut('whole run', lambda: go(start, total, flags_for(sim, fkind, [final] if fkind != 'exact' else [])))
        return r

    def stitched():
        seed_rngs(seed)
        if layered:
            build()
        at, ck = 0, start
        for k in cuts:
            if kind != 'keep':
                if sim.chance(1, 3):
                    st = np.random.get_state(), random.getstate()
                    crash(sim, w, lambda: go(ck, k, [final]))
                    np.random.set_state(st[0])
                    random.setstate(st[1])
                if sim.chance(1, 3):        # another process carries on
                    seams.fresh()
                    p.device = qml.device('default.qubit', wires=p.n)
                    sim.fired('process-restart')
                    if layered:
                        build()
                    seed_rngs(sim.choose(1000))
                elif layered and sim.chance(1, 3):
                    build()
            r = sut('resumed run', lambda: go(ck, k, flags_for(sim, fkind, [final])))
            c = r['cost']
            if costs:
                need(abs(c[0] - costs[-1]) < TOL, 'resumed-differs',
                     'a run resumed after %d steps starts at cost %.9g, but the checkpoint was recorded at %.9g', at, c[0],
                     costs[-1])
            costs.extend(c if not costs else c[1:])
            full = len(c) == k + 1
            if fkind == 'exact':
                u = model.arr(r[final])
                at += k
                finals[at] = u
                ck = from_unitary(sim, u, p.n)
            elif fkind == 'approx':
                for i, u in enumerate(r[final]):
                    finals[at + i] = model.arr(u)
                at += k
                ck = from_unitary(sim, r[final][-1], p.n)
            else:
                for i, x in enumerate(r[final]):
                    finals[at + i] = np.array(x, dtype=float).ravel()
                at += k
                last = np.array(r[final][-1], dtype=float)
                ck = last.tolist()
            need(full, 'stopped', 'a run of %d steps recorded %d costs although it may not stop that early', k, len(c))

    if order:
        r = whole()
        stitched()
    else:
        stitched()
        r = whole()
    wf = None
    wc = r['cost']
    if final in r:
        if fkind == 'exact':
            wf = {len(wc) - 1: model.arr(r[final])}
        elif fkind == 'approx':
            wf = {i: model.arr(u) for i, u in enumerate(r[final])}
        else:
            wf = {i: np.array(x, dtype=float).ravel() for i, x in enumerate(r[final])}
        finals_ = {i: u for i, u in finals.items() if i in wf}
    else:
        finals_ = {}
    need(len(wc) == total + 1 or not layered, 'stopped', 'a run of %d steps without tolerance recorded %d costs', total, len(wc))
    judge(sim, r, costs, finals_, wc, wf, sim.summary['optimiser'], stop)
    sim.nontrivial = len(cuts) > 1
    if len(cuts) > 1:
        sim.probe('resumed-' + fkind)
    sim.event(kind, cuts, [round(x, 4) for x in costs])
    sim.state_keys.add((kind, p.n, tuple(cuts), tuple(s.kind for s in specs) if layered else ()))


def run_relay(sim, w, p):
    """one optimiser hands its circuit to the next: the hand-over changes neither cost nor circuit"""
    u, c0 = p.U0, model.cost(p.U0[:, 0], p.mats)
    circuit = p.circuit
    desc = []
    sim.summary = dict(gen.describe(p), relay=desc)
    bound = sum(1 for _ in p.mats)
    for leg in range(2 + sim.choose(3)):
        kick = sim.chance(1, 3)
        params = None if circuit is p.circuit else []
        if sim.chance(1, 3):
            kw = dict(nsteps=sim.between(1, 7), eta=sim.pick([0.1, 0.5]), tol=sim.pick([1e-3, 20.0]), perturbation=kick)
            desc.append(['exact', kw])
            r = sut('leg', lambda: optimise('exact', p, flags_for(sim, 'exact', ['return_unitary']), circuit=circuit,
                                            params=params, **kw))
            last = model.arr(r['return_unitary'])
        else:
            specs = [gen.gen_layer(sim, p, FREE + KEEP) for _ in range(1 + sim.choose(2))]
            kw = dict(nsteps=sim.between(1, 12), eta=0.1, tol=sim.pick([1e-3, 20.0, None]), perturb=kick)
            desc.append(['layered', [str(s.desc) for s in specs], kw])
            r = sut('leg', lambda: optimise('approx', p, flags_for(sim, 'approx', ['return_unitary']),
                                            [s.build() for s in specs], circuit=circuit, params=params, **kw))
            need(max_dist(r['return_unitary'][0], u) < TOL, 'handover', 'leg %d starts from another circuit (distance %.3g)',
                 leg, max_dist(r['return_unitary'][0], u))
            last = model.arr(r['return_unitary'][-1])
        need(abs(r['cost'][0] - c0) < TOL, 'handover', 'leg %d starts at cost %.9g, the previous ended at %.9g', leg,
             r['cost'][0], c0)
        u, c0 = last, r['cost'][-1]
        need(model.unitary_error(u) < 1e-6, 'handover', 'leg %d returned a circuit that is not unitary (%.3g)', leg,
             model.unitary_error(u))
        circuit = from_unitary(sim, u, p.n)
        if sim.chance(1, 4):
            seams.fresh()
            sim.fired('process-restart')
    sim.nontrivial = True
    sim.probe('relay')
    sim.event('relay', len(desc), round(c0, 5))
    sim.state_keys.add(('relay', p.n, tuple(d[0] for d in desc)))


def run(sim):
    p = gen.gen_problem(sim, 3 if sim.chance(1, 4) else 1, 3, generic=True)
    w = World(sim)
    seed_rngs(sim.choose(1 << 20))
    with activate(w):
        (run_relay if sim.chance(1, 4) else run_segments)(sim, w, p)
