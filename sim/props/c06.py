"""C06: greedy layers take the steepest allowed direction; failed steps leave their memory alone."""
from .common import *

TIE = 1e-6


def near_max(g, allowed):
    m = max(g[k] for k in allowed)
    return [k for k in allowed if g[k] >= m - TIE]


def identify(delta, alg):
    """directions P with delta = exp(-i t P); all of them if delta is the identity"""
    d = delta.shape[0]
    if model.dist(delta, np.eye(d)) < 1e-7:
        return None
    out = []
    for k, p in alg.items():
        if model.rotation_about(delta, p) is not None:
            out.append(k)
    return out


def attempt(sim, w, fn):
    """maybe inject a fault into fn(); -> (failed?, result)"""
    if not sim.chance(1, 3):
        w.scope = None
        return False, sut('layer step', fn)
    w.scope = Scope(sim, ('device', 'linalg', 'stdout'), at=sim.choose(24),
                    fault=sim.pick(['device-error', 'device-timeout', 'device-result-lost', 'alloc-failure',
                                    'linalg-failure', 'stdout-enospc']))
    try:
        r = sut('layer step', fn)
        return False, r
    except Exception as e:
        if isinstance(e, Violation) or injected_in(e) is None:
            raise
        sim.probe('failed-step')
        return True, None
    finally:
        w.scope = None


class Twin(object):
    """the same layer without any failure: sees the successful steps only and has to do the same"""

    def __init__(self, sim, build):
        self.layer = sut('building', build) if sim.chance(1, 3) else None
        self.sim = sim
        self.failed = 0

    def check(self, u, out, s, **kw):
        if self.layer is None:
            return
        r = sut('undisturbed step', lambda: self.layer(u, **kw))
        r = r[0] if isinstance(r, tuple) else r
        d = model.dist(r, out)
        need(d < 1e-7, 'memory-leak', 'step %d differs by %.3g from that of a layer that went through the %s', s, d,
             'successful steps only' if self.failed else 'same steps')
        if self.failed:
            self.sim.probe('failed-with-twin')


def next_circuit(sim, p, u):
    k = sim.choose(5)
    if k == 4:
        return gen.random_unitary(sim, p.n)          # the caller jumps elsewhere
    if k == 3:
        w, q = gen.gen_observable(sim, p.n)
        return model.rot(w, q, p.n, sim.angle()) @ u
    return u


def run_su8(sim, w, p):
    a2, a4 = not sim.chance(1, 4), not sim.chance(1, 4)
    alg = model.algebra(p.n, ([1] if a2 else []) + ([2] if a4 else []) + [3])
    from oranssi import opt_tools as ot
    build = lambda: ot.SU8_AlgebraLayer(p.device, p.obs, add_su2=a2, add_su4=a4)
    layer = sut('building', build)
    twin = Twin(sim, build)
    u = p.U0
    for s in range(2 + sim.choose(3) if not sim.chance(1, 8) else 8):
        u = next_circuit(sim, p, u)
        failed, r = attempt(sim, w, lambda: layer(u))
        if failed:
            sim.event('failed', s)
            twin.failed += 1
            continue
        out = model.arr(r)
        check_one(sim, p, u, out, alg, [list(alg)], s, 'SU(8)')
        twin.check(u, out, s)
        u = out
    sim.state_keys.add(('su8', p.n, a2, a4))


def check_one(sim, p, u, out, alg, allowed_sets, s, name):
    """-> possible directions taken"""
    g = model.gradients(u[:, 0], p.mats, alg)
    acc = []
    for allowed in allowed_sets:
        for k in near_max(g, allowed):
            if k not in acc:
                acc.append(k)
    ks = identify(out @ u.conj().T, alg)
    if ks is None:
        sim.event(name, s, 'identity')
        return acc
    hit = [k for k in ks if k in acc]
    need(ks, 'not-one-direction', '%s step %d is not a rotation about one allowed Pauli direction', name, s)
    need(hit, 'not-steepest', '%s step %d rotated about %s (gradient %.6g) although %s (gradient %.6g) was allowed',
         name, s, ks[0], g[ks[0]], acc[0], g[acc[0]])
    sim.event(name, s, str(hit[0]) if len(acc) == 1 else 'tie')
    sim.nontrivial = True
    return hit


def run_squared(sim, w, p):
    from oranssi import opt_tools as ot
    alg = model.algebra(p.n, (1, 2) if p.n > 1 else (1,))
    eta = gen.gen_eta(sim)
    build = lambda: ot.SquaredLieAlgebraLayer(p.device, p.obs, eta=eta)
    layer = sut('building', build)
    twin = Twin(sim, build)
    u = p.U0
    prev = [None]
    for s in range(2 + sim.choose(5) if not sim.chance(1, 8) else 16):
        u = next_circuit(sim, p, u)
        failed, r = attempt(sim, w, lambda: layer(u))
        if failed:
            sim.event('failed', s)
            twin.failed += 1
            if prev != [None]:
                sim.probe('failed-with-memory')
            if sim.chance(1, 2):
                continue
            r = sut('retry', lambda: layer(u))
        out = model.arr(r)
        sets = [[k for k in alg if k != pv] for pv in prev]
        prev = check_one(sim, p, u, out, alg, sets, s, 'squared')
        twin.check(u, out, s)
        u = out
    sim.state_keys.add(('squared', p.n, len(prev)))


def run_zassenhaus(sim, w, p):
    from oranssi import opt_tools as ot
    alg = model.algebra(p.n, (2,))
    ratio = (1 + sim.choose(3), 1 + sim.choose(2))
    eta = gen.gen_eta(sim)
    build = lambda: ot.ZassenhausLayer(p.device, p.obs, ratio=ratio, eta=eta)
    layer = sut('building', build)
    twin = Twin(sim, build)
    u = p.U0
    phase, count = 0, 0
    last = None
    for s in range(3 + sim.choose(6) if not sim.chance(1, 8) else 16):
        u = next_circuit(sim, p, u)
        failed, r = attempt(sim, w, lambda: layer(u))
        if failed:
            sim.event('failed', s, phase)
            twin.failed += 1
            continue
        out = model.arr(r)
        if phase == 0:
            last = check_one(sim, p, u, out, alg, [list(alg)], s, 'zassenhaus/1')
        else:
            ks = identify(out @ u.conj().T, alg)
            if ks is not None:
                need(ks, 'not-one-direction',
                     'zassenhaus second-phase step %d is not a rotation about one two-qubit direction', s)
                ok = [k for k in ks if any(len(set(k[1:]) & set(l[1:])) == 1 for l in last)]
                need(ok, 'wrong-partner', 'zassenhaus second-phase step %d rotated about %s after %s', s, ks[0], last)
                last = ok
                sim.probe('zassenhaus-second-phase')
            else:
                # nothing to do from here; the last direction may or may not have been replaced
                last = last + [k for k in alg if k not in last]
        twin.check(u, out, s)
        count += 1
        if count >= ratio[phase]:
            phase, count = 1 - phase, 0
        u = out
    sim.state_keys.add(('zassenhaus', p.n, ratio, phase, count))


def patterns(n):
    out = {}
    for d in model.SINGLES:
        out[(d, 'single')] = [((i,), i) for i in range(n)]
    for d in model.PAIRS:
        out[(d, 'even')] = [((i, i + 1), j) for j, i in enumerate(range(0, n - 1, 2))]
        out[(d, 'odd')] = [((i, i + 1), j) for j, i in enumerate(range(1, n - 1, 2))] + [((0, n - 1), -1)]
    return out


def run_adapt(sim, w, p):
    from oranssi import opt_tools as ot
    n = p.n
    pats = patterns(n)
    eta = gen.gen_eta(sim)
    build = lambda: ot.AdaptVQELayer(p.device, p.obs, eta=eta)
    layer = sut('building', build)
    twin = Twin(sim, build)
    alg = model.algebra(n, (1, 2))
    u = p.U0
    params = []
    hist = []
    H = np.eye(2 ** n, dtype=complex)
    for q in range(n):
        H = model.gate_matrix(('H', q), n) @ H
    def optimizer(circuit, ps, observables, device, **kw):
        """stands in for the inner VQE (seam: the layer's `optimizer` argument); generic new parameters"""
        seams.stub_device_event()
        new = [[float(v) for v in row] for row in ps]
        for row in new:
            for j in range(len(row)):
                row[j] += 0.1 + 0.8 * sim.unit()
        given_out[:] = [[float(v) for v in r] for r in ps], new
        return [0.0], [np.array([[float(v) for v in r] for r in ps]), np.array(new)]

    def same_again(circuit, ps, observables, device, **kw):
        return [0.0], [np.array(given_out[0]), np.array(given_out[1])]

    given_out = []

    def build(hs, ps):
        m = H
        for pat, row in zip(hs, ps):
            for wires, idx in pats[pat]:
                m = model.rot(pat[0], wires, n, row[idx]) @ m
        return m

    for s in range(2 + sim.choose(3) if not sim.chance(1, 8) else 7):
        if sim.chance(1, 4):
            u = next_circuit(sim, p, u)
        given = [list(r) for r in params]
        failed, r = attempt(sim, w, lambda: layer(u, optimizer=optimizer, params=params))
        if failed:
            sim.event('failed', s)
            twin.failed += 1
            need(params == given, 'memory-leak', 'a failed adaptive step changed the caller\'s parameter list')
            if hist:
                sim.probe('failed-with-memory')
            continue
        need(isinstance(r, tuple) and len(r) == 2, 'record-shape', 'adaptive layer returned %s', type(r).__name__)
        out, ps = model.arr(r[0]), r[1]
        need(len(ps) == len(hist) + 1, 'memory-leak', 'adaptive step %d: %d parameter rows after %d successful steps',
             s, len(ps), len(hist))
        g = model.gradients(u[:, 0], p.mats, alg)
        score = {k: sum(g[(k[0],) + wr] for wr, _ in v) for k, v in pats.items()
                 if not hist or k[0] != hist[-1][0]}
        m = max(score.values())
        acc = [k for k in score if score[k] >= m - TIE]
        hit = [k for k in acc if model.dist(build(hist + [k], ps), out) < 1e-7]
        if not hit:
            other = [k for k in pats if model.dist(build(hist + [k], ps), out) < 1e-7]
            if other:
                fail('not-steepest', 'adaptive step %d after %s appended %s (score %s) although %s scores %.6g', s, hist,
                     other[0], score.get(other[0], 'not allowed'), acc[0], m)
            fail('wrong-ansatz', 'adaptive step %d: the circuit is not the layer history %s plus one new layer', s, hist)
        twin.check(u, out, s, optimizer=same_again, params=given)
        hist.append(hit[0])
        params = ps
        u = out
        sim.event('adapt', s, str(hit[0]) if len(acc) == 1 else 'tie')
        sim.nontrivial = True
    sim.state_keys.add(('adapt', n, len(hist)))


def run(sim):
    kind = sim.pick(['squared', 'squared', 'adapt', 'adapt', 'zassenhaus', 'su8'])
    lo = {'squared': 1, 'adapt': 2, 'zassenhaus': 3, 'su8': 3}[kind]
    p = gen.gen_problem(sim, lo, 4 if kind in ('adapt', 'squared') and sim.chance(1, 6) else 3, generic=not sim.chance(1, 4))
    w = World(sim)
    sim.summary = dict(gen.describe(p), layer=kind)
    with activate(w):
        {'squared': run_squared, 'adapt': run_adapt, 'zassenhaus': run_zassenhaus, 'su8': run_su8}[kind](sim, w, p)
    sim.summary['events'] = [list(map(str, e)) for e in sim.log[:8]]
