"""C13: Pauli expressions behave as values.

A pool of live Pauli / PauliMonomial / PauliSum objects with a reference value each. Operations are drawn at random
on shared operands; after every operation every live object must still denote its reference value."""
import sympy as sp

from .common import *
from ..seams import Scheduler, line_tracer

LET = 'IXYZ'
# product table computed from the matrices, not from any identity the code uses
_M = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]
TABLE = {}
for _a in range(4):
    for _b in range(4):
        _m = _M[_a] @ _M[_b]
        for _c in range(4):
            _t = np.trace(_M[_c] @ _m) / 2
            if abs(_t) > 0.5:
                TABLE[_a, _b] = (_c, complex(_t))
COEFFS = [1.0, -1.0, 0.5, 2.0, 1j, -1j, 1 + 1j, 0.25 - 0.5j, -1.5, 0.004, 2e-5 + 3e-5j, 40.0]
XV = {'x': 0.625, 'y': -1.75}
XS = {n: sp.Symbol(n, real=True) for n in XV}


def num(c):
    if isinstance(c, sp.Basic):
        return complex(c.subs([(XS[n], XV[n]) for n in sorted(XV)]))
    return complex(c)


# reference: P ('P', site, gamma, c); M ('M', {site: gamma}, c); S ('S', {letters tuple: c}, sites)
def read(o, kind):
    if kind == 'P':
        return ('P', int(o.alpha), int(o.gamma), num(o.coeff))
    if kind == 'M':
        d = {}
        for i in range(len(o)):
            need(o[i].alpha not in d, 'broken-object', 'site %s twice', o[i].alpha)
            d[int(o[i].alpha)] = int(o[i].gamma)
        word = o.to_oranssi()
        want = (''.join(LET[g] for s, g in sorted(d.items()) if g),) + tuple(s for s, g in sorted(d.items()) if g)
        need(tuple(word) == want, 'broken-object', 'to_oranssi %s, letters %s', word, want)
        return ('M', d, num(o.coeff))
    out = {}
    sites = None
    for i in range(len(o)):
        _, d, c = read(o[i], 'M')
        key = tuple(sorted(d.items()))
        out[key] = out.get(key, 0) + c
    return ('S', out)


def differs(a, b):
    if a[0] == 'P':
        return a[:3] != b[:3] or abs(a[3] - b[3]) > 1e-9 * abs(a[3]) + 1e-13
    if a[0] == 'M':
        if abs(a[2] - b[2]) > 1e-9 * abs(a[2]) + 1e-11:
            return True
        return abs(a[2]) > 1e-12 and a[1] != b[1]
    a, b = canon(a[1]), canon(b[1])
    tol = 2e-8 * max([1.0] + [abs(c) for c in a.values()])       # terms below 1e-8 may be dropped
    return any(abs(a.get(k, 0) - b.get(k, 0)) > tol for k in set(a) | set(b))


def canon(terms):
    """the operator a sum stands for: identities on further sites do not matter"""
    out = {}
    for k, c in terms.items():
        k = tuple(x for x in k if x[1])
        out[k] = out.get(k, 0) + c
    return out


def lengths(ref):
    return set(len(k) for k in ref[1])


def supports(ref):
    return set(tuple(s for s, _ in k) for k in ref[1])


def mmul(a, b):
    d, c = dict(a[1]), a[2] * b[2]
    for s, g in b[1].items():
        if s in d:
            d[s], ph = TABLE[d[s], g]
            c *= ph
        else:
            d[s] = g
    return ('M', d, c)


def smul(a, b):
    out = {}
    for k, c in a[1].items():
        for l, e in b[1].items():
            m = mmul(('M', dict(k), c), ('M', dict(l), e))
            key = tuple(sorted(m[1].items()))
            out[key] = out.get(key, 0) + m[2]
    return ('S', out)


def size(ref):
    if ref[0] == 'P':
        v = [abs(ref[3])]
    elif ref[0] == 'M':
        v = [abs(ref[2])]
    else:
        v = [abs(c) for c in ref[1].values()]
    v = [x for x in v if x > 1e-12]
    return (min(v + [1.0]), max(v + [1.0]))


class Pool(object):
    def __init__(self):
        self.items = []     # [object, kind, ref, symbolic]

    def of(self, kind, nosym=False):
        return [i for i, it in enumerate(self.items) if it[1] == kind and not (nosym and it[3])]

    def add(self, o, kind, ref, sym=False):
        self.items.append([o, kind, ref, sym])

    def check(self, what):
        for i, (o, kind, ref, _) in enumerate(self.items):
            try:
                v = read(o, kind)
            except (Violation, HarnessError):
                raise
            except Exception as e:
                fail('broken-object', 'after %s: object %d cannot be read: %s: %s', what, i, type(e).__name__, e)
            if differs(ref, v):
                fail('value-changed', 'after %s: %s object %d denotes %s, should be %s', what, kind, i, v, ref)


def plan_op(sim, pool, k, inplace_ok=True):
    """-> (description, in place?, thunk, result kind or None, expected ref or bool, symbolic)"""
    from oranssi import pauli as pl
    ops = ['mmul', 'mmul', 'commutator', 'commutator', 'commutes', 'pmul', 'smul', 'sadd', 'ssub', 'ssub', 'mono', 'sum', 'sadd']
    if inplace_ok:
        ops += ['mconj', 'pconj', 'scalar', 'scalar', 'mcoeff', 'mcoeff', 'look']
    op = sim.pick(ops)
    it = pool.items
    if op in ('mmul', 'commutator', 'commutes'):
        c = pool.of('M', nosym=op == 'commutes')
        if not c:
            return None
        i, j = sim.pick(c), sim.pick(c)
        a, b = it[i], it[j]
        ab, ba = mmul(a[2], b[2]), mmul(b[2], a[2])
        sym = a[3] or b[3]
        if abs(ab[2]) > 1e4:
            return None
        if op == 'mmul':
            return ('M%d*M%d' % (i, j), False, lambda: a[0] * b[0], 'M', ab, sym)
        if op == 'commutator':
            return ('[M%d,M%d]' % (i, j), False, lambda: a[0].commutator(b[0]), 'M', ('M', ab[1], ab[2] - ba[2]), sym)
        return ('M%d commutes with M%d' % (i, j), False, lambda: a[0].commutes_with(b[0]), None,
                abs(ab[2] - ba[2]) < 1e-6 * abs(ab[2]) or ab[2] == 0, False)
    if op == 'pmul':
        c = pool.of('P')
        pairs = [(i, j) for i in c for j in c if it[i][2][1] == it[j][2][1]]
        if not pairs:
            return None
        i, j = sim.pick(pairs)
        a, b = it[i], it[j]
        g, ph = TABLE[a[2][2], b[2][2]]
        return ('P%d*P%d' % (i, j), False, lambda: a[0] * b[0], 'P', ('P', a[2][1], g, ph * a[2][3] * b[2][3]),
                a[3] or b[3])
    if op in ('smul', 'sadd', 'ssub'):
        c = pool.of('S')
        if not c:
            return None
        i, j = sim.pick(c), sim.pick(c)
        a, b = it[i], it[j]
        if len(lengths(a[2]) | lengths(b[2])) > 1:
            return None             # documented: sums hold monomials of one length
        if op == 'smul':
            if len(a[2][1]) * len(b[2][1]) > 16 or len(supports(a[2]) | supports(b[2])) > 1:
                return None
            return ('S%d*S%d' % (i, j), False, lambda: a[0] * b[0], 'S', smul(a[2], b[2]), False)
        sg = 1 if op == 'sadd' else -1
        out = dict(a[2][1])
        for q, v in b[2][1].items():
            out[q] = out.get(q, 0) + sg * v
        if op == 'sadd':
            return ('S%d+S%d' % (i, j), False, lambda: a[0] + b[0], 'S', ('S', out), False)
        return ('S%d-S%d' % (i, j), False, lambda: a[0] - b[0], 'S', ('S', out), False)
    if op == 'mono':
        c = pool.of('P')
        sites = {}
        for i in sim.sample(c, min(len(c), 1 + sim.choose(4))) if c else []:
            sites.setdefault(it[i][2][1], i)
        if not sites:
            return None
        idx = list(sites.values())
        coeff = 1
        for i in idx:
            coeff *= it[i][2][3]
        return ('monomial of %s' % idx, False, lambda: pl.PauliMonomial([it[i][0] for i in idx]), 'M',
                ('M', dict((it[i][2][1], it[i][2][2]) for i in idx), coeff), any(it[i][3] for i in idx))
    if op == 'sum':
        c = pool.of('M', nosym=True)
        if not c:
            return None
        full = [i for i in c if len(it[i][2][1]) == k]
        if not full or sim.chance(1, 3):
            n = len(it[sim.pick(c)][2][1])
            c = [i for i in c if len(it[i][2][1]) == n]
        else:
            c = full
        idx = [sim.pick(c) for _ in range(1 + sim.choose(4))]
        out = {}
        for i in idx:
            key = tuple(sorted(it[i][2][1].items()))
            out[key] = out.get(key, 0) + it[i][2][2]
        return ('sum of %s' % idx, False, lambda: pl.PauliSum([it[i][0] for i in idx]), 'S', ('S', out), False)
    if op in ('mconj', 'mcoeff'):
        c = pool.of('M')
        if not c:
            return None
        i = sim.pick(c)
        a = it[i]
        if op == 'mconj':
            return ('conj of M%d' % i, True, lambda: a[0].conj(), (i,), ('M', a[2][1], a[2][2].conjugate()), a[3])
        f = sim.pick(COEFFS)

        def scale():
            a[0].coeff *= f
        return ('M%d.coeff *= %s' % (i, f), True, scale, (i,), ('M', a[2][1], a[2][2] * f), a[3])
    if op == 'look':
        i = sim.choose(len(it))
        a = it[i]

        def look():         # reading an expression changes nothing
            repr(a[0])
            if a[1] != 'S' and not a[3]:
                hash(a[0])
        return ('look at %s%d' % (a[1], i), True, look, (i,), a[2], a[3])
    if op == 'pconj':
        c = pool.of('P')
        i = sim.pick(c)
        a = it[i]
        return ('conj of P%d' % i, True, lambda: a[0].conj(), (i,), a[2][:3] + (a[2][3].conjugate(),), a[3])
    c = pool.of('S')
    if not c:
        return None
    i = sim.pick(c)
    a = it[i]
    f = sim.pick(COEFFS + [2, -1])
    return ('S%d scaled by %s' % (i, f), True, lambda: a[0].scalar_mul(f), (i,),
            ('S', dict((q, v * f) for q, v in a[2][1].items())), False)


def ok_size(ref):
    if not isinstance(ref, tuple):
        return True
    lo, hi = size(ref)
    return lo > 1e-6 and hi < 1e4


def accept(pool, op, r):
    what, inplace, _, kind, ref, sym = op
    if isinstance(kind, tuple):
        pool.items[kind[0]][2] = ref
        pool.check(what)
        return
    if kind is None:
        need(bool(r) == ref, 'wrong-value', '%s gave %r, should be %r', what, r, ref)
    else:
        try:
            v = read(r, kind)
        except (Violation, HarnessError):
            raise
        except Exception as e:
            fail('broken-object', '%s: result cannot be read: %s: %s', what, type(e).__name__, e)
        if differs(ref, v):
            fail('wrong-value', '%s denotes %s, should be %s', what, v, ref)
        pool.add(r, kind, ref, sym)
    pool.check(what)


def run(sim):
    from oranssi import pauli as pl
    w = World(sim)
    w.set_order = True
    k = 1 + sim.choose(3)
    # site labels need not be contiguous
    sites = list(range(k)) if sim.chance(2, 3) else sorted(sim.sample(range(13), k))
    pool = Pool()
    symbolic = sim.chance(1, 5)
    history = []
    sim.summary = {'sites': sites, 'symbolic': symbolic, 'operations': history}
    with activate(w):
        for _ in range(2 + sim.choose(5)):
            s, g = sites[sim.choose(k)], sim.choose(4)
            sym = symbolic and sim.chance(1, 2)
            if sym:
                name = sim.pick(sorted(XV))
                f = sim.pick([1.0, -1j, 2.0])
                c, cv = f * XS[name], f * XV[name]
            else:
                c = cv = sim.pick(COEFFS)
            arg = g if sim.chance(1, 2) else LET[g]
            pool.add(sut('Pauli', lambda: pl.Pauli(s, arg, c)), 'P', ('P', s, g, complex(cv)), sym)
        # full-support monomials so that sums exist
        for _ in range(1 + sim.choose(3)):
            gs = [sim.choose(4) for _ in range(k)]
            c = sim.pick(COEFFS)
            o = sut('PauliMonomial', lambda: pl.PauliMonomial(
                [pl.Pauli(sites[s], gs[s], c if s == 0 else 1.0) for s in sim.sample(range(k), k)]))
            pool.add(o, 'M', ('M', dict(zip(sites, gs)), complex(c)))
        if k > 1:
            # words on part of the sites, so that equal words meet on different sites
            m = 1 + sim.choose(k - 1)
            word = [sim.choose(4) for _ in range(m)]
            for _ in range(sim.choose(4)):
                if sim.chance(1, 3):
                    word = [sim.choose(4) for _ in range(m)]
                on = sorted(sim.sample(sites, m))
                c = sim.pick(COEFFS)
                gs = list(word)
                o = sut('PauliMonomial', lambda: pl.PauliMonomial(
                    [pl.Pauli(on[i], gs[i], c if i == 0 else 1.0) for i in sim.sample(range(m), m)]))
                pool.add(o, 'M', ('M', dict(zip(on, gs)), complex(c)))
        pool.check('building')
        # duplicate sites are refused
        for step in range(4 + sim.choose(14)):
            mode = sim.choose(8)
            if mode == 7:
                # two tasks operate on shared operands, interleaved at arbitrary lines
                plans = []
                for t in range(2):
                    op = plan_op(sim, pool, k, inplace_ok=False)
                    if op is not None and ok_size(op[4]) and len(pool.items) < 14:
                        plans.append(op)
                if len(plans) < 2:
                    continue
                sch = w.sched = Scheduler(sim, 1, 4, kinds=('line',))
                for t, op in enumerate(plans):
                    sch.add('t%d' % t, op[2], trace_lines=True)
                sch.run()
                w.sched = None
                history.append('%s || %s' % (plans[0][0], plans[1][0]))
                for t, op in zip(sch.tasks, plans):
                    if t.exc is not None:
                        if isinstance(t.exc, (Violation, HarnessError)):
                            raise t.exc
                        fail('unexpected-exception', '%s raised %s: %s', op[0], type(t.exc).__name__, t.exc)
                pool.check(history[-1])
                for t, op in zip(sch.tasks, plans):
                    accept(pool, op, t.result)
                if sch.switches:
                    sim.probe('interleaved')
                    sim.nontrivial = True
                sim.event('par', history[-1])
                continue
            op = plan_op(sim, pool, k)
            if op is None or not ok_size(op[4]):
                continue
            if not op[1] and len(pool.items) >= 14:
                continue
            if mode == 6 and not op[1]:
                # interrupted somewhere inside, then repeated
                w.scope = Scope(sim, ('line',), at=sim.choose(40), fault='interrupt')
                try:
                    with line_tracer():
                        sut(op[0], op[2])
                except BaseException as e:
                    if injected_in(e) is None:
                        raise
                    sim.probe('interrupted')
                    history.append(op[0] + ' interrupted')
                w.scope = None
                pool.check(op[0] + ' interrupted')
            history.append(op[0])
            r = sut(op[0], op[2])
            accept(pool, op, r)
            sim.event('op', op[0])
            if op[1]:
                sim.probe('in-place')
            sim.nontrivial = True
    sim.state_keys.add(tuple(sorted((h.split()[0][0] for h in history))))
