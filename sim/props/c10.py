"""C10: the commuting set is a valid matching for every random draw."""
from .common import *
from ..seams import py_random, DrawBudget


def check_set(edges, got, label):
    need(isinstance(got, list), 'bad-set', '%s: returned %s', label, type(got).__name__)
    got = [tuple(e) for e in got]
    need(got, 'empty-set', '%s: empty commuting set for %s', label, edges)
    used = []
    for e in got:
        need(e in edges, 'foreign-edge', '%s: %s is not one of the given edges %s', label, e, edges)
        need(got.count(e) == 1, 'overlap', '%s: %s occurs twice', label, e)
        for v in e:
            need(v not in used, 'overlap', '%s: vertex %s is used twice in %s', label, v, got)
            used.append(v)
    flat = [v for e in edges for v in e]
    if len(flat) == len(set(flat)):
        need(got == edges, 'not-unchanged', '%s: %s has no overlap but %s was returned', label, edges, got)


def draws(sim):
    return sim.pick(['prng', 'prng', 'free', 'first', 'last', 'alternate'])


def run_function(sim):
    from oranssi import circuit_tools as ct
    for r in range(3):
        if sim.chance(1, 10):
            n = 1 + sim.choose(5)
            edges = [(v,) for v in sim.sample(range(n + 2), n)]
        else:
            edges = gen.gen_edges(sim, 9, 14) if not sim.chance(1, 12) else gen.gen_edges(sim, 13, 30)
            k = sim.choose(8)
            if k == 1:
                edges = [tuple(v + 7 for v in e) for e in edges]
        given = list(edges)
        mode = draws(sim)
        with py_random(sim, mode, limit=400000) as rnd:
            try:
                got = sut('get_commuting_set', lambda: ct.get_commuting_set(given))
            except DrawBudget:
                fail('no-termination', 'more than %d draws for %s', rnd.limit, edges)
        need(given == edges, 'input-changed', 'the edge list was changed')
        check_set(edges, got, 'draws=%s' % mode)
        deg = {}
        for e in edges:
            for v in e:
                deg[v] = deg.get(v, 0) + 1
        if rnd.draws:
            sim.nontrivial = True
            sim.probe('coloured')
            if max(deg.values()) >= 3:
                sim.probe('degree>=3')
        sim.event('set', len(edges), len(got), rnd.draws)
        sim.summary = {'edges': [list(e) for e in edges], 'draws': mode, 'result': [list(map(str, e)) for e in got]}
        sim.state_keys.add((tuple(sorted(deg.values())), mode, len(got)))


def sym_problem(sim):
    """many equally steep directions, so that the commuting set has something to choose from"""
    p = gen.Problem()
    p.n = sim.between(2, 4)
    a, b = 0.2 + 2.5 * sim.unit(), 0.2 + 2.5 * sim.unit()
    p.gates = []
    for q in range(p.n):
        p.gates += [('RY', a, q), ('RZ', b, q)]
    w = sim.pick(['ZZ', 'XX', 'YY', 'Z'])
    if len(w) == 1:
        p.words = [(w, (q,)) for q in range(p.n)]
    else:
        pairs = [(i, k) for i in range(p.n) for k in range(i + 1, p.n)]
        p.words = [(w, e) for e in pairs if not sim.chance(1, 4)] or [(w, pairs[0])]
    if sim.chance(1, 3):
        q = sim.choose(p.n)
        p.gates.append(('RX', 0.3 + sim.unit(), q))
    p.obs = [gen.make_obs(x, y) for x, y in p.words]
    p.mats = [model.word_matrix(x, y, p.n) for x, y in p.words]
    p.device = qml.device('default.qubit', wires=p.n)
    p.U0 = model.circuit_unitary(p.gates, p.n)
    return p


def run_layer(sim):
    from oranssi import opt_tools as ot, optimizers as opt
    p = sym_problem(sim)
    alg = model.algebra(p.n, (1, 2))
    w = World(sim)
    asked = []
    real = p.n <= 3 and sim.chance(1, 8)

    def stub(circuit, params, observables, device=None, **kw):
        seams.stub_device_event()
        far = sim.pick([0.0, 0.0, 3.0, -4.0, 7.0])          # an inner optimisation may wander off
        out = [float(v) + 0.2 + far + sim.unit() for v in params]
        asked.append(len(out))
        return [0.0], [np.array([float(v) for v in params]), np.array(out)]

    def real_opt(circuit, params, observables, device=None, **kw):
        kw['nsteps'] = 3
        return opt.parameter_shift_optimizer(circuit, params, observables, device, **kw)

    sim.summary = dict(n=p.n, obs=['%s%s' % (a, list(b)) for a, b in p.words], mode='commuting layer')
    with activate(w):
        layer = sut('building', lambda: ot.SquaredLieAlgebraLayer(p.device, p.obs))
        u = p.U0
        prev = [None]
        if sim.chance(1, 3):
            from .c06 import check_one
            out = model.arr(sut('plain step', lambda: layer(u)))
            prev = check_one(sim, p, u, out, alg, [list(alg)], 0, 'squared')
            u = out
        for s in range(1 + sim.choose(3)):
            mode = draws(sim)
            if sim.chance(1, 4):
                w.scope = Scope(sim, ('device', 'linalg', 'stdout'), at=sim.choose(6),
                                fault=sim.pick(['device-error', 'alloc-failure', 'stdout-enospc']))
                with py_random(sim, mode):
                    try:
                        sut('failing commuting step', lambda: layer(u, commute=True, optimizer=stub))
                    except Exception as e:
                        if isinstance(e, Violation) or injected_in(e) is None:
                            raise
                w.scope = None
            with py_random(sim, mode, limit=400000) as rnd:
                try:
                    r = sut('commuting step', lambda: layer(u, commute=True, optimizer=real_opt if real else stub))
                except DrawBudget:
                    fail('no-termination', 'more than %d draws', rnd.limit)
            need(isinstance(r, tuple) and len(r) == 2, 'record-shape', 'commuting step returned %s', type(r).__name__)
            out, gates = model.arr(r[0]), [(tuple(k), float(v)) for k, v in r[1]]
            need(gates, 'empty-set', 'commuting step without gates')
            g = model.gradients(u[:, 0], p.mats, alg)
            top = min(max(v for k, v in g.items() if k != pv) for pv in prev)
            word = gates[0][0][0]
            used = []
            m = u
            for k, ang in gates:
                need(k in alg, 'foreign-edge', 'the reported direction %s does not exist', k)
                need(k[0] == word, 'mixed-words', 'directions of different Pauli words: %s', gates)
                need(g[k] >= top - 2.5e-3, 'not-steepest', 'direction %s has gradient %.6g, the maximum is %.6g', k, g[k],
                     top)
                for v in k[1:]:
                    need(v not in used, 'overlap', 'qubit %s is used twice: %s', v, gates)
                    used.append(v)
                m = model.rot(k[0], k[1:], p.n, ang) @ m
            need(model.dist(m, out) < TOL, 'wrong-angles',
                 'the reported gates %s are not what was applied (distance %.3g)', gates, model.dist(m, out))
            if rnd.draws:
                sim.probe('layer-coloured')
            if len(gates) > 1:
                sim.probe('layer-several-gates')
            sim.event('layer', s, len(gates), rnd.draws)
            sim.nontrivial = True
            sim.state_keys.add(('layer', p.n, len(word), len(gates), mode))
            u = out


def run(sim):
    if sim.chance(1, 2):
        run_layer(sim)
    else:
        run_function(sim)
