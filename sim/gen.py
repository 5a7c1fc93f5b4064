"""Workload generation: circuits, observables and layers, each with its model counterpart."""
import copy
import itertools

import numpy as np
import pennylane as qml

from . import model
from .engine import HarnessError

def ot():
    """the current instance of oranssi.opt_tools (seams.fresh() replaces it)"""
    from oranssi import opt_tools
    return opt_tools


QP = {'X': qml.PauliX, 'Y': qml.PauliY, 'Z': qml.PauliZ}


class Problem(object):
    x0 = ()                         # parameters of the circuit


def apply_gates(gates):
    for g in gates:
        if g[0] == 'H':
            qml.Hadamard(wires=g[1])
        elif g[0] in ('RX', 'RY', 'RZ'):
            getattr(qml, g[0])(g[1], wires=g[2])
        elif g[0] == 'CNOT':
            qml.CNOT(wires=list(g[1]))
        elif g[0] == 'PauliRot':
            qml.PauliRot(g[1], g[2], wires=list(g[3]))
        else:
            raise HarnessError(g)


def gen_gates(sim, n, depth):
    gates = []
    for _ in range(depth):
        for q in range(n):
            k = sim.choose(5)
            if k == 0:
                gates.append(('H', q))
            elif k < 4:
                gates.append((('RX', 'RY', 'RZ')[k - 1], sim.angle(), q))
        if n > 1 and sim.chance(2, 3):
            a, b = sim.sample(range(n), 2)
            gates.append(('CNOT', (a, b)))
    if not gates:
        gates.append(('H', 0))
    return gates


def generic_gates(sim, n):
    """A circuit whose state has no symmetry: one rotation about each axis on each qubit + entanglers."""
    gates = []
    for q in range(n):
        gates.append(('RY', 0.2 + 2.5 * sim.unit(), q))
        gates.append(('RZ', 0.2 + 2.5 * sim.unit(), q))
    for q in range(n - 1):
        gates.append(('CNOT', (q, q + 1)))
        gates.append(('RX', 0.2 + 2.5 * sim.unit(), q + 1))
    return gates


def gen_observable(sim, n):
    k = 1 if n == 1 else 1 + sim.choose(2)
    if n > 2 and sim.chance(1, 8):
        k = 3
    wires = tuple(sim.sample(range(n), k))
    word = ''.join(sim.pick('XYZ') for _ in range(k))
    return word, wires


def make_obs(word, wires):
    o = QP[word[0]](wires[0])
    for p, w in zip(word[1:], wires[1:]):
        o = o @ QP[p](w)
    return o


def gen_problem(sim, nmin=1, nmax=3, generic=None, max_obs=3, shots=None, big=0, fixed=False):
    """big: one in `big` problems has four qubits; fixed: the circuit takes no parameters"""
    p = Problem()
    p.n = sim.between(nmin, nmax)
    if big and sim.chance(1, big):
        p.n = 4
    gen = sim.chance(1, 2) if generic is None else generic
    p.gates = generic_gates(sim, p.n) if gen else gen_gates(sim, p.n, 1 + sim.choose(2))
    words = []
    many = 1 + sim.choose(max_obs)
    if max_obs > 2 and sim.chance(1, 12):
        many += sim.choose(4)
    for _ in range(many):
        w = gen_observable(sim, p.n)
        words.append(w)
    p.words = words
    p.obs = [make_obs(w, q) for w, q in words]
    p.mats = [model.word_matrix(w, q, p.n) for w, q in words]
    p.shots = shots
    p.device = qml.device('default.qubit', wires=p.n) if shots is None else \
        qml.device('default.qubit', wires=p.n, shots=shots)
    gates = p.gates
    slots = {}
    if not fixed and sim.chance(1, 2):
        for i, g in enumerate(gates):
            if g[0] in ('RX', 'RY', 'RZ') and sim.chance(1, 2):
                slots[i] = len(slots)
    p.x0 = [gates[i][1] for i in sorted(slots)]

    def filled(params):
        return [(g[0], params[slots[i]]) + tuple(g[2:]) if i in slots else g for i, g in enumerate(gates)]

    def circuit(params, **kwargs):
        apply_gates(filled(params))
        return qml.state()

    def circuit_noret(params, **kwargs):
        apply_gates(filled(params))

    p.circuit = circuit
    p.circuit_noret = circuit_noret
    p.U0 = model.circuit_unitary(gates, p.n)
    p.bound = float(len(p.mats))
    return p


def extend_obs(p, words):
    p.words = p.words + words
    p.obs = [make_obs(w, q) for w, q in p.words]
    p.mats = [model.word_matrix(w, q, p.n) for w, q in p.words]
    p.bound = float(len(p.mats))


def similar_words(sim, words, n):
    """observables that are easily mistaken for the given ones: same letters on other wires, other letters on the same"""
    out = []
    for w, q in words:
        k = sim.choose(5)
        if k == 0:
            w = w[::-1]
        elif k == 1:
            q = q[::-1]
        elif k == 2:
            q = tuple(sim.sample(range(n), len(q)))
        elif k == 3:
            w = ''.join(sim.pick('XYZ') for _ in w)
        out.append((w, tuple(q)))
    return out[::-1] if sim.chance(1, 3) else out


def set_obs(p, words):
    p.words = []
    extend_obs(p, words)


def describe(p):
    return {'n': p.n, 'obs': ['%s%s' % (w, list(q)) for w, q in p.words], 'gates': len(p.gates), 'params': len(p.x0)}


def random_unitary(sim, n):
    """A reachable circuit unitary: product of Pauli rotations (stays a plain function of the decisions)."""
    u = np.eye(2 ** n, dtype=complex)
    for g in generic_gates(sim, n):
        u = model.gate_matrix(g, n) @ u
    return u


# -- layers -------------------------------------------------------------------------------------------------
class LayerSpec(object):
    """How to build a layer of the code under test, and the model's step for it."""

    mats = None                     # the observables this layer descends (it may have its own)

    def __init__(self, kind, build, step=None, desc=None, localities=None):
        self.kind = kind
        self.build = build          # () -> fresh layer object
        self.step = step            # u -> u' (gradient layers)
        self.desc = desc
        self.localities = localities


def gen_eta(sim):
    return sim.pick([0.1, 0.25, 0.5, 1.0, 0.03, 0.8, 0.004])


def own_observables(sim, p):
    """the same device with other observables: a layer is allowed to descend something else than the cost"""
    q = copy.copy(p)
    q.words = [gen_observable(sim, p.n) for _ in range(1 + sim.choose(2))]
    q.obs = [make_obs(w, v) for w, v in q.words]
    q.mats = [model.word_matrix(w, v, q.n) for w, v in q.words]
    return q


def gen_layer(sim, p, kinds=None, **extra):
    """a layer of one of the given kinds, in one of five cases with observables of its own"""
    if sim.chance(1, 5):
        q = own_observables(sim, p)
        spec = _gen_layer(sim, q, kinds, **extra)
        spec.desc = spec.desc + (['%s%s' % (w, list(v)) for w, v in q.words],)
        spec.mats = q.mats
    else:
        spec = _gen_layer(sim, p, kinds, **extra)
        spec.mats = p.mats
    return spec


def _gen_layer(sim, p, kinds=None, **extra):
    """kinds: subset of local1 local2 custom su8 squared zassenhaus stochastic"""
    n = p.n
    ok = []
    for k in (kinds or ['local1', 'local2', 'custom']):
        if k == 'local2' and n % 2:
            continue
        if k in ('su8', 'zassenhaus') and n < 3:
            continue
        ok.append(k)
    kind = sim.pick(ok)
    eta = gen_eta(sim)
    trot = sim.chance(1, 3)
    kw = dict(eta=eta, trotterize=trot)
    kw.update(extra)
    if kind in ('local1', 'local2'):
        loc = 1 if kind == 'local1' else 2
        words = model.SINGLES if loc == 1 else model.PAIRS
        dirs = None
        if sim.chance(1, 3):
            dirs = sim.sample(words, 1 + sim.choose(len(words)))
        return LayerSpec(kind,
                         lambda: ot().LocalLieAlgebraLayer(p.device, p.obs, loc, directions=dirs, **kw),
                         lambda u, e=eta: model.local_step(u, p.mats, e, n, loc, dirs, trot),
                         (kind, eta, trot, dirs))
    if kind == 'custom':
        words = model.SINGLES + (model.PAIRS if n > 1 else [])
        dirs = None
        if not sim.chance(1, 8):
            dirs = sim.sample(words, 1 + sim.choose(min(5, len(words)) if not sim.chance(1, 6) else len(words)))
        return LayerSpec(kind,
                         lambda: ot().CustomDirectionLieAlgebraLayer(p.device, p.obs, dirs, **kw),
                         lambda u, e=eta: model.custom_step(u, p.mats, e, n, dirs, trot),
                         (kind, eta, trot, dirs))
    if kind == 'su8':
        a2, a4 = not sim.chance(1, 4), not sim.chance(1, 4)
        locs = ([1] if a2 else []) + ([2] if a4 else []) + [3]
        return LayerSpec(kind, lambda: ot().SU8_AlgebraLayer(p.device, p.obs, eta=eta, add_su2=a2, add_su4=a4),
                         None, (kind, a2, a4), tuple(locs))
    if kind == 'squared':
        return LayerSpec(kind, lambda: ot().SquaredLieAlgebraLayer(p.device, p.obs, eta=eta),
                         None, (kind,), (1, 2))
    if kind == 'zassenhaus':
        ratio = (1 + sim.choose(3), 1 + sim.choose(2))
        return LayerSpec(kind, lambda: ot().ZassenhausLayer(p.device, p.obs, eta=eta, ratio=ratio),
                         None, (kind, ratio), (2,))
    if kind == 'adapt':
        return LayerSpec(kind, lambda: ot().AdaptVQELayer(p.device, p.obs, eta=eta), None, (kind, eta))
    if kind == 'stochastic':
        kw.pop('trotterize')
        return LayerSpec(kind, lambda: ot().StochasticLieAlgebraLayer(p.device, p.obs, **kw),
                         None, (kind, eta), (1, 2))
    raise HarnessError(kind)


_spy_classes = {}


def spy(layer, calls):
    """Turn a layer object into a recording one (dynamic subclass, so isinstance tests still see its class)."""
    cls = type(layer)
    if cls not in _spy_classes:
        def __call__(self, circuit_unitary, *a, **k):
            rec = {'in': model.arr(circuit_unitary), 'kw': dict(k), 'layer': self, 'out': None,
                   'phase': getattr(self, 'su_state', None)}
            self._spy_calls.append(rec)
            r = cls.__call__(self, circuit_unitary, *a, **k)
            rec['out'] = model.arr(r[0]) if isinstance(r, tuple) else model.arr(r)
            return r
        _spy_classes[cls] = type('Spy' + cls.__name__, (cls,), {'__call__': __call__})
    layer.__class__ = _spy_classes[cls]
    layer._spy_calls = calls
    return layer


def scripted_layer(p, angles):
    """A LieLayer (the library's own extension point) that follows a script: step i rotates by angles[i]
    about a fixed direction that moves the first observable. Lets a run follow any cost pattern cheaply."""
    class Scripted(ot().LieLayer):
        def __init__(self):
            self.i = 0
            self.su_state = 'scripted'
            w, q = p.words[0]
            first = {'X': 'Y', 'Y': 'Z', 'Z': 'X'}[w[0]]
            self.gen = (first, (q[0],))

        def __call__(self, circuit_unitary, *a, **k):
            t = angles[self.i % len(angles)]
            self.i += 1
            return model.rot(self.gen[0], self.gen[1], p.n, t) @ circuit_unitary

        def __repr__(self):
            return '| scripted'

        def get_lie_algebra_directions_strings(self):
            return [self.gen[0]]

    return Scripted()


def gen_edges(sim, nv, ne):
    """distinct undirected edges in caller orientation (no loops, no duplicate or reversed duplicate)"""
    n = 2 + sim.choose(nv - 1)
    pool = [(a, b) for a in range(n) for b in range(a + 1, n)]
    k = 1 + sim.choose(min(ne, len(pool)))
    out = []
    for a, b in sim.sample(pool, k):
        out.append((b, a) if sim.chance(1, 3) else (a, b))
    return out
