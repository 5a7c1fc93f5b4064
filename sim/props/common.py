"""Shared pieces of the property workloads."""
import random

import numpy as np
import pennylane as qml
import autograd.tracer as _at

from .. import model, gen, seams
from ..engine import Violation, Discard, HarnessError
from ..seams import sut, seed_rngs, World, Scope, activate, Injected

TOL = 1e-7          # numerical agreement between implementation and reference model


def fail(cls, msg, *a):
    raise Violation(cls, msg % a if a else msg)


def need(cond, cls, msg, *a):
    if not cond:
        fail(cls, msg, *a)


def reset_process():
    """What a fresh process would start with (run isolation inside a worker)."""
    seed_rngs(20210901)
    _at.trace_stack.top = -1
    if qml.queuing.QueuingContext.recording():
        raise HarnessError('tape still recording')


def real_float(x):
    return float(np.real(np.asarray(x)))


APPROX_FLAGS = ['return_state', 'return_omegas', 'return_unitary', 'return_gates', 'return_perturbations',
                'return_zassenhaus']
EXACT_FLAGS = ['return_state', 'return_perturbations', 'return_unitary']
PS_FLAGS = ['return_state', 'return_params']
FLAGS = {'approx': APPROX_FLAGS, 'exact': EXACT_FLAGS, 'ps': PS_FLAGS}


class Record(dict):
    pass


def optimise(kind, p, flags=(), layers=None, params=None, circuit=None, **kw):
    """Call one of the three optimisers through the public API and unpack what it returns (no sut() here)."""
    from oranssi import optimizers as op
    order = [f for f in FLAGS[kind] if f in flags]
    for f in order:
        kw[f] = True
    params = list(p.x0) if params is None else params
    if kind == 'approx':
        r = op.approximate_lie_optimizer(circuit or p.circuit, params, p.obs, p.device, layers, **kw)
    elif kind == 'exact':
        r = op.exact_lie_optimizer(circuit or p.circuit, params, p.obs, p.device, **kw)
    else:
        r = op.parameter_shift_optimizer(circuit or p.circuit_noret, params, p.obs, p.device, **kw)
    rec = Record()
    if not order:
        need(isinstance(r, list), 'record-shape', '%s: expected the cost list, got %s', kind, type(r).__name__)
        rec['cost'] = [real_float(c) for c in r]
        return rec
    need(isinstance(r, tuple) and len(r) == 1 + len(order), 'record-shape',
         '%s with %s: expected a tuple of %d, got %s of %s', kind, order, 1 + len(order), type(r).__name__,
         len(r) if hasattr(r, '__len__') else '?')
    rec['cost'] = [real_float(c) for c in r[0]]
    for f, v in zip(order, r[1:]):
        rec[f] = v
    return rec


def guard(w, fn):
    """Call into the code under test with a bound on simulated steps (progress)."""
    return fn()


def close_seq(a, b, tol=TOL):
    return len(a) == len(b) and all(abs(x - y) <= tol * (1 + abs(x)) for x, y in zip(a, b))


def same_record(a, b, tol=1e-9):
    """None or a description of the first difference between two records"""
    if set(a) != set(b):
        return 'different parts %s / %s' % (sorted(a), sorted(b))
    for k in sorted(a):
        x, y = a[k], b[k]
        if k == 'cost':
            if len(x) != len(y):
                return 'cost lengths %d / %d' % (len(x), len(y))
            for i, (u, v) in enumerate(zip(x, y)):
                if abs(u - v) > tol:
                    return 'cost[%d]: %.12g / %.12g' % (i, u, v)
        elif k == 'return_omegas':
            if len(x) != len(y):
                return 'omega lengths'
            for i, (u, v) in enumerate(zip(x, y)):
                if set(u) != set(v) or any(abs(u[q] - v[q]) > tol for q in u):
                    return 'omegas[%d] differ' % i
        elif k in ('return_perturbations', 'return_zassenhaus', 'return_gates'):
            if list(x) != list(y):
                return '%s: %s / %s' % (k, list(x), list(y))
        else:
            d = max_dist(x, y)
            if d > tol:
                return '%s differ by %.3g' % (k, d)
    return None


def max_dist(x, y):
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        if len(x) != len(y):
            return float('inf')
        return max([max_dist(u, v) for u, v in zip(x, y)] or [0.0])
    return model.dist(x, y)


def unitaries_seen(w, store, keep=None):
    """Record every matrix handed to the device as a QubitUnitary."""
    def ob(circuit):
        for o in circuit.operations:
            if o.name == 'QubitUnitary':
                store.append(model.arr(o.data[0]))
    w.device_observers.append(ob)


def injected_in(exc):
    """the injected exception this exception is or was caused by"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        if isinstance(exc, Injected):
            return exc
        seen.add(id(exc))
        exc = exc.__cause__ or exc.__context__
    return None


def scipy_unitary_err(u):
    return model.unitary_error(u)


# -- parametrised circuits for the parameter-shift optimiser ---------------------------------------------------
def gen_param_circuit(sim, p, nparams):
    """template: list of ('RX', slot, wire) / ('CNOT', ..) / ('PauliRot', slot, word, wires) / fixed gates"""
    n = p.n
    tmpl = []
    # parameters may be nested (rows, as the adaptive layer uses them) or used by several gates
    cols = sim.pick([0, 0, 0, 2]) if nparams % 2 == 0 else 0
    again = sim.chance(1, 6)
    for g in gen.gen_gates(sim, n, 1):
        tmpl.append(('fixed', g))

    def at(params, i):
        return params[i // cols][i % cols] if cols else params[i]

    def shaped(x):
        x = list(x)
        return [x[i:i + cols] for i in range(0, len(x), cols)] if cols else x

    for i in list(range(nparams)) + ([sim.choose(nparams)] if again else []):
        if n > 1 and sim.chance(1, 3):
            a, b = sim.sample(range(n), 2)
            tmpl.append(('PauliRot', i, sim.pick(model.PAIRS), (a, b)))
        else:
            tmpl.append((sim.pick(['RX', 'RY', 'RZ']), i, sim.choose(n)))
        if n > 1 and sim.chance(1, 2):
            tmpl.append(('fixed', ('CNOT', tuple(sim.sample(range(n), 2)))))

    def circuit(params, **kwargs):
        for t in tmpl:
            if t[0] == 'fixed':
                gen.apply_gates([t[1]])
            elif t[0] == 'PauliRot':
                qml.PauliRot(at(params, t[1]), t[2], wires=list(t[3]))
            else:
                getattr(qml, t[0])(at(params, t[1]), wires=t[2])

    def gates(params, shift=None, by=0.0):
        """the gate list; gate number `shift` gets its angle shifted"""
        params = np.array(params, dtype=float).ravel()
        out = []
        for k, t in enumerate(tmpl):
            d = by if k == shift else 0.0
            if t[0] == 'fixed':
                out.append(t[1])
            elif t[0] == 'PauliRot':
                out.append(('PauliRot', float(params[t[1]]) + d, t[2], t[3]))
            else:
                out.append((t[0], float(params[t[1]]) + d, t[2]))
        return out

    def state(params):
        return model.circuit_unitary(gates(params), n)[:, 0]

    def cost(params):
        return model.cost(state(params), p.mats)

    def grad(params):
        g = np.zeros(nparams)
        for k, t in enumerate(tmpl):
            if t[0] != 'fixed':
                up, down = [model.cost(model.circuit_unitary(gates(params, k, s), n)[:, 0], p.mats)
                            for s in (np.pi / 2, -np.pi / 2)]
                g[t[1]] += (up - down) / 2
        return g

    circuit.shaped = shaped
    return circuit, state, cost, grad
