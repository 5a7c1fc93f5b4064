"""C14: the stochastic sampler takes fair turns; every stochastic step is the prescribed one."""
import itertools

from .common import *
from ..seams import np_draws


class Turns(object):
    """reference bookkeeping of one sampler; pairs may be known only up to reversal (from a matrix)"""

    def __init__(self, n, name):
        self.n, self.name = n, name
        self.used = set()
        self.pairs, self.singles = [], []
        self.count = 0

    def draw(self, word, qubits, upto_reversal=False):
        n = self.n
        self.count += 1
        what = '%s draw %d (%s on %s)' % (self.name, self.count, word, qubits)
        if len(self.used) == n:
            self.used = set()
        need(not (self.used & set(qubits)), 'unfair-qubits', '%s: qubits %s were already used in this round', what,
             sorted(self.used))
        self.used |= set(qubits)
        if len(word) == 1:
            need(word not in self.singles, 'unfair-directions', '%s repeats within a block %s', what, self.singles)
            self.singles.append(word)
            if len(self.singles) == 3:
                self.singles = []
        else:
            key = min(word, word[::-1]) if upto_reversal else word
            allowed = 2 if upto_reversal and word[0] != word[1] else 1
            need(self.pairs.count(key) < allowed, 'unfair-directions', '%s repeats within a block %s', what, self.pairs)
            self.pairs.append(key)
            if len(self.pairs) == 9:
                self.pairs = []


def run_samplers(sim, mode):
    from oranssi import opt_tools as ot
    ns = [1 + sim.choose(5) if not sim.chance(1, 10) else 6 for _ in range(1 + sim.choose(2))]
    sim.summary = {'what': 'samplers', 'n': ns, 'draws': mode}
    su2 = True
    ss = [sut('building', lambda n=n: ot.AlgebraSU4(n, add_su2=su2)) for n in ns]
    ts = [Turns(n, 'sampler %d' % i) for i, n in enumerate(ns)]
    total = 10 + sim.choose(60)
    if sim.chance(1, 12):
        total += 150
    with np_draws(sim, mode):
        for _ in range(total):
            i = sim.choose(len(ss)) if len(ss) > 1 else 0
            word, qubits = sut('draw', lambda: ss[i].get_random_direction_and_qubits())
            word, qubits = str(word), [int(q) for q in qubits]
            need(len(word) in (1, 2) and all(c in 'XYZ' for c in word), 'bad-direction', 'drew %r', word)
            need(len(qubits) == len(word) == len(set(qubits)) and all(0 <= q < ns[i] for q in qubits), 'bad-qubits',
                 'drew %s on qubits %s of %d', word, qubits, ns[i])
            ts[i].draw(word, qubits)
            sim.event('draw', i, word, qubits)
            sim.probe('draw-%d' % len(word))
    sim.nontrivial = True
    sim.state_keys.add(('samplers', tuple(ns), mode, total // 10))


def spy_draws(layer, drawn):
    """note what the layer's sampler hands out (the sampler is public; a layer without one is judged from its steps only)"""
    draw = getattr(getattr(layer, 'lastate', None), 'get_random_direction_and_qubits', None)
    if draw is None:
        return

    def spied(*a, **k):
        r = draw(*a, **k)
        word, qubits = str(r[0]), [int(q) for q in r[1]]
        if len(qubits) == 2 and qubits[0] > qubits[1]:
            word, qubits = word[::-1], qubits[::-1]
        drawn.append((word,) + tuple(qubits))
        return r
    layer.lastate.get_random_direction_and_qubits = spied


def run_layers(sim, mode, w):
    from oranssi import opt_tools as ot
    k = 1 + sim.choose(2)
    ps = [gen.gen_problem(sim, 1, 3, generic=True, big=40) for _ in range(k)]
    for p in ps:
        if sim.chance(3, 4):        # observables that make every direction visible
            gen.extend_obs(p, [(c, (q,)) for q in range(p.n) for c in sim.sample('XYZ', 2)])
    etas = [gen.gen_eta(sim) for _ in ps]
    sim.summary = {'what': 'layers', 'problems': [gen.describe(p) for p in ps], 'eta': etas, 'draws': mode}
    ls = [sut('building', lambda p=p, e=e: ot.StochasticLieAlgebraLayer(p.device, p.obs, eta=e))
          for p, e in zip(ps, etas)]
    drawn = []
    for l in ls:
        spy_draws(l, drawn)
    algs = [model.algebra(p.n, (1, 2) if p.n > 1 else (1,)) for p in ps]
    ts = [Turns(p.n, 'layer %d' % i) for i, p in enumerate(ps)]
    us = [p.U0 for p in ps]
    known = [True] * k
    with np_draws(sim, mode):
        for s in range(4 + sim.choose(16)):
            i = sim.choose(k)
            p, u = ps[i], us[i]
            if sim.chance(1, 2):
                u = gen.random_unitary(sim, p.n)
            if sim.chance(1, 10):
                etas[i] = gen.gen_eta(sim)
                ls[i].set_eta(etas[i])
            if sim.chance(1, 12):
                w.scope = Scope(sim, ('device', 'linalg'), at=sim.choose(3),
                                fault=sim.pick(['device-error', 'device-result-lost', 'alloc-failure']))
                try:
                    sut('failing step', lambda: ls[i](u))
                except Exception as e:
                    if isinstance(e, Violation) or injected_in(e) is None:
                        raise
                    sim.probe('failed-step')
                w.scope = None
                known[i] = False        # whether the failed step used up a draw is not observable
                continue
            del drawn[:]
            out = model.arr(sut('step', lambda: ls[i](u)))
            phi = u[:, 0]
            cand = []
            for key, P in algs[i].items():
                x = u
                for o in p.mats:
                    x = model.exp_herm(model.omega(phi, P, o).imag * P, etas[i] / 2 ** p.n) @ x
                if model.dist(x, out) < 1e-8:
                    cand.append((key, model.dist(x, u)))
            need(cand, 'wrong-step', 'layer %d step %d is not the prescribed step along any direction', i, s)
            us[i] = out
            if len(drawn) == 1:
                need(drawn[0] in [c[0] for c in cand], 'wrong-step', 'layer %d step %d drew %s but rotated about %s', i, s,
                     drawn[0], [c[0] for c in cand][:4])
                sim.probe('drawn-is-done')
            if len(cand) > 1:
                known[i] = False
                sim.event('ambiguous', i)
                continue
            key = cand[0][0]
            sim.event('step', i, key)
            if known[i]:
                ts[i].draw(key[0], list(key[1:]), upto_reversal=True)
                sim.probe('tracked')
            sim.nontrivial = True
    sim.state_keys.add(('layers', tuple(p.n for p in ps), mode, tuple(known)))


def run(sim):
    mode = sim.pick(['real', 'free', 'free', 'first', 'last'])
    seed_rngs(sim.choose(1 << 20))
    w = World(sim)
    with activate(w):
        if sim.chance(1, 2):
            run_layers(sim, mode, w)
        else:
            run_samplers(sim, mode)
