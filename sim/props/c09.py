"""C09: results are reproducible from the caller's seeds alone."""
from .common import *


def rng_state():
    s = np.random.get_state()
    return (s[0], s[1].tolist(), s[2], s[3], s[4]), random.getstate()


def make(sim, p):
    """-> desc, fn, needs randomness?"""
    kind = sim.pick(['approx', 'approx', 'exact', 'ps', 'commuting'])
    if kind == 'approx':
        kick = sim.chance(1, 2)
        kinds = ['local1', 'custom', 'squared', 'su8', 'zassenhaus'] + ['stochastic'] * 3
        specs = [gen.gen_layer(sim, p, kinds) for _ in range(1 + sim.choose(2))]
        kw = dict(nsteps=sim.between(10, 12) if kick else sim.between(1, 5), tol=20.0 if kick else None, eta=0.2,
                  perturb=kick)
        flags = ['return_unitary', 'return_perturbations']
        rnd = kick or any(s.kind == 'stochastic' for s in specs)
        return dict(optimiser=kind, layers=[str(s.desc) for s in specs], **kw), \
            lambda: optimise('approx', p, flags, [s.build() for s in specs], **kw), rnd, kick
    if kind == 'exact':
        kick = sim.chance(2, 3)
        kw = dict(nsteps=sim.between(6, 8), tol=20.0 if kick else 1e-9, eta=0.2, perturbation=kick)
        flags = ['return_unitary', 'return_state'] + (['return_perturbations'] if kick else [])
        return dict(optimiser=kind, **kw), lambda: optimise('exact', p, flags, **kw), kick, kick
    if kind == 'ps':
        circuit, state, cost, grad = gen_param_circuit(sim, p, 2)
        x0 = [sim.angle() for _ in range(2)]
        return dict(optimiser=kind), \
            lambda: optimise('ps', p, ['return_params'], params=circuit.shaped(x0), circuit=circuit, nsteps=3), False, False
    edges = gen.gen_edges(sim, 6, 8)

    def commuting():
        from oranssi import circuit_tools as ct
        r = Record()
        r['cost'] = []
        r['return_gates'] = [tuple(e) for e in ct.get_commuting_set(list(edges))]
        return r
    return dict(commuting_set=[list(e) for e in edges]), commuting, True, False


def run(sim):
    shots = sim.pick([None, None, None, 50])
    p = gen.gen_problem(sim, 1, 3, max_obs=2, shots=shots)
    desc, fn, rnd, kick = make(sim, p)
    q = gen.gen_problem(sim, 1, 3, max_obs=2)
    other = [make(sim, q) for _ in range(1 + sim.choose(2))]
    seed = sim.choose(1 << 30)
    sim.summary = dict(gen.describe(p), shots=shots, seed=seed, other=[o[0] for o in other], **desc)
    w = World(sim)
    order = sim.chance(1, 2)

    def history():
        seed_rngs(sim.choose(1 << 30))
        for o in other:
            if sim.chance(1, 3):
                w.scope = Scope(sim, ('device', 'linalg'), at=sim.choose(30), fault='device-error')
                try:
                    sut('history (failing)', o[1])
                except Exception as e:
                    if isinstance(e, Violation) or injected_in(e) is None:
                        raise
                w.scope = None
            else:
                sut('history', o[1])
        for _ in range(sim.choose(5)):
            random.random()
            np.random.rand(3)
        sim.fired('process-history')

    def once(s):
        seed_rngs(s)
        w.entropy = w.now = w.pid = None        # as another process would find them
        if sim.chance(1, 2):
            # a process with other string hashes and addresses
            w.order_salt = 1 + sim.choose(1 << 20)
            sim.fired('hash-seed')
        else:
            w.order_salt = 0
        before = rng_state()
        r = sut('seeded call', fn)
        after = rng_state()
        w.order_salt = 0
        return r, before, after

    with activate(w):
        if order:
            history()
            if sim.chance(1, 2):
                seams.fresh()       # the reference run in a process of its own
        a, b0, a0 = once(seed)
        if not order or sim.chance(1, 2):
            history()
        b, b1, a1 = once(seed)
        d = same_record(a, b)
        need(d is None, 'not-reproducible', 'the same call with the same seeds gives another result after other work: %s', d)
        need(a0 == a1, 'not-reproducible', 'the generators end in another state after the same seeded call')
        if not rnd and shots is None:
            need(a0 == b0, 'generator-touched', 'a run that needs no randomness changed the global generators')
            sim.probe('deterministic-run')
        c, b2, a2 = once(seed + 1)
        if kick and a.get('return_perturbations'):
            need(a0 != b0, 'reseeded', 'a kicked run left the generators where they were, so the next run repeats its kicks')
        if kick:
            u, v = a['return_unitary'], c['return_unitary']
            if p.n > 1 and 'return_perturbations' in a and any(x < len(a['cost']) - 2 for x in a['return_perturbations']):
                need(max_dist(u, v) > 1e-9, 'reseeded', 'two different seeds give exactly the same kicks')
                sim.probe('seeds-differ')
        need(a2[0] != a0[0] or not kick, 'reseeded', 'numpy\'s generator ends in the same state for two different seeds')
        need(a2[1] != a0[1], 'reseeded', 'Python\'s generator ends in the same state for two different seeds')
        need(a2[0] != a0[0], 'reseeded', 'numpy\'s generator ends in the same state for two different seeds')
    sim.nontrivial = True
    sim.event('ok', [round(x, 5) for x in a['cost']], rnd, kick)
    sim.state_keys.add((str(desc.get('optimiser', 'commuting')), shots, rnd, kick, len(a['cost'])))
