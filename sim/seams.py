"""The seams: every source of nondeterminism or failure the code under test meets, owned by the simulator.

 seam        where it is cut                                         what the simulator decides
 ----------  ------------------------------------------------------  -----------------------------------------
 device      pennylane QubitDevice.execute (all qubit devices)       who runs next; execution fails / result lost
 linalg      scipy.linalg.expm, numpy.linalg.eigh/svd, numpy.einsum  who runs next; MemoryError / LinAlgError; drift
 stdout      sys.stdout while code under test runs                   write errors (disk full, closed pipe)
 line        sys.settrace on oranssi frames                          preemption / KeyboardInterrupt at any line
 py random   random._inst._randbelow (global Mersenne Twister)       every choice()/randint() outcome
 np random   numpy global RandomState, re-seeded per task            every perturbation / shot-noise draw
 hash order  the name `set` inside oranssi.pauli / oranssi.opt_tools iteration order of sets of hash-randomised items
 hash seed   the names `hash` and `id` inside oranssi modules        hashes of strings, addresses (as in another process)
 entropy     os.urandom / random._urandom (numpy's and Python's self-seeding) what the operating system hands out
 clock, pid  time.time/monotonic/perf_counter(_ns), os.getpid, when oranssi reads them: a drawn, advancing clock
 os          os.mkdir / os.stat / open ... (simfs.py)                 who runs next; errno; crash
oranssi itself reads no clock, entropy or process id, and there is no timer or network in it; those seams only matter
for a tree in which that changes.
"""
import errno
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import random
import sys
import threading
import time

import numpy as np
import scipy.linalg
import pennylane as qml
import pennylane._qubit_device as _qd
import autograd.tracer as _at

from . import model        # captures the un-instrumented routines first
from .engine import Violation, HarnessError, SplitMix

REPO = os.environ.get('SIM_REPO', '/repo')


# ---------------------------------------------------------------------------------------------------------
class Injected(object):
    """mixin of all exceptions the simulator injects"""


class InjDevice(qml.DeviceError, Injected):
    pass


class InjTimeout(TimeoutError, Injected):
    pass


class InjMemory(MemoryError, Injected):
    pass


class InjLinAlg(np.linalg.LinAlgError, Injected):
    pass


class InjIO(OSError, Injected):
    pass


class InjInterrupt(KeyboardInterrupt, Injected):
    pass


class TaskKilled(BaseException):
    """Simulated process crash: unwinds a task without any of its handlers being allowed to matter."""


def make_fault(kind):
    if kind == 'device-error':
        return InjDevice('injected: circuit execution failed')
    if kind == 'device-timeout':
        return InjTimeout('injected: device timed out')
    if kind == 'device-result-lost':
        return InjDevice('injected: executed, result lost')
    if kind == 'alloc-failure':
        return InjMemory('injected: out of memory')
    if kind == 'linalg-failure':
        return InjLinAlg('injected: did not converge')
    if kind == 'stdout-enospc':
        return InjIO(errno.ENOSPC, 'injected: No space left on device')
    if kind == 'stdout-epipe':
        return InjIO(errno.EPIPE, 'injected: Broken pipe')
    if kind == 'interrupt':
        return InjInterrupt('injected: interrupt')
    raise HarnessError('unknown fault ' + kind)


FAULTS_FOR = {
    'device': ['device-error', 'device-timeout', 'device-result-lost'],
    'linalg': ['alloc-failure', 'linalg-failure'],
    'stdout': ['stdout-enospc', 'stdout-epipe'],
    'line': ['interrupt'],
}


# ---------------------------------------------------------------------------------------------------------
class World(object):
    """What is currently being simulated. One at a time per process."""

    def __init__(self, sim):
        self.sim = sim
        self.scope = None           # current Scope (fault placement + counting)
        self.sched = None           # Scheduler, if several tasks run
        self.device_observers = []  # f(circuit) before execution
        self.drift = None           # f(matrix) -> matrix, applied to expm results
        self.set_order = False      # permute iteration order of hash-ordered sets
        self.order_salt = 0
        self.entropy = None
        self.now = None
        self.pid = None

    def event(self, kind, detail=None):
        sim = self.sim
        sim.steps += 1
        if self.sched is not None:
            self.sched.maybe_yield(kind)
        sc = self.scope
        if sc is not None:
            return sc.on_event(kind)
        return None


class Scope(object):
    """Counts seam events during one call into the code under test and fires at most one planned fault."""

    def __init__(self, sim, kinds, at=None, fault=None):
        self.sim = sim
        self.kinds = kinds
        self.count = 0
        self.by_kind = []
        self.at = at
        self.fault = fault
        self.fired = None       # the exception object injected
        self.after = None

    def on_event(self, kind):
        if kind not in self.kinds:
            return None
        i = self.count
        self.count += 1
        if self.at is None:
            self.by_kind.append(kind)
            return None
        if i == self.at and self.fired is None:
            f = self.fault if self.fault in FAULTS_FOR[kind] else FAULTS_FOR[kind][0]
            self.fired = make_fault(f)
            self.sim.fired(f)
            self.sim.event('fault', f, kind, i)
            if f == 'device-result-lost':
                return self.fired           # raised by the wrapper after executing
            raise self.fired
        return None


WORLD = None


def world():
    return WORLD


class activate(object):
    def __init__(self, w):
        self.w = w

    def __enter__(self):
        global WORLD
        if WORLD is not None:
            raise HarnessError('nested worlds')
        WORLD = self.w
        return self.w

    def __exit__(self, *a):
        global WORLD
        WORLD = None
        return False


# -- stdout ------------------------------------------------------------------------------------------------
class SimStdout(object):
    encoding = 'utf-8'
    errors = 'strict'

    def write(self, s):
        w = WORLD
        if w is not None:
            w.event('stdout')
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError('no fileno')


SIM_STDOUT = SimStdout()


class muted(object):
    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = SIM_STDOUT

    def __exit__(self, *a):
        sys.stdout = self.old
        return False


# -- device ------------------------------------------------------------------------------------------------
_real_execute = _qd.QubitDevice.execute


def _execute(self, circuit, **kwargs):
    w = WORLD
    if w is None:
        return _real_execute(self, circuit, **kwargs)
    for ob in w.device_observers:
        ob(circuit)
    lost = w.event('device')
    res = _real_execute(self, circuit, **kwargs)
    if lost is not None:
        raise lost
    return res


def stub_device_event():
    """for workload stubs that stand for device work"""
    if WORLD is not None:
        lost = WORLD.event('device')
        if lost is not None:
            raise lost


# -- linear algebra ------------------------------------------------------------------------------------------
def _from_oranssi(depth=2):
    try:
        return sys._getframe(depth).f_globals.get('__name__', '').startswith('oranssi')
    except ValueError:
        return False


def _wrap(real, drift=False):
    def wrapper(*a, **k):
        w = WORLD
        if w is None or not _from_oranssi():
            return real(*a, **k)
        w.event('linalg')
        r = real(*a, **k)
        if drift and w.drift is not None:
            r = w.drift(r)
        return r
    wrapper.__name__ = getattr(real, '__name__', 'wrapped')
    wrapper.__wrapped__ = real
    return wrapper


# -- hash order ----------------------------------------------------------------------------------------------
def _hash_ordered(x):
    return not isinstance(x, (int, float, complex, bool))


class _SetLike(type):
    def __instancecheck__(cls, x):
        return isinstance(x, set)

    def __subclasscheck__(cls, c):
        return issubclass(c, set)


class ChaosSet(set, metaclass=_SetLike):
    """A set whose iteration order of hash-randomised elements (strings, objects) is the simulator's decision,
    as it is CPython's under PYTHONHASHSEED. Sets of numbers keep their (deterministic) order."""

    def __iter__(self):
        items = list(set.__iter__(self))
        w = WORLD
        if w is not None and w.set_order and len(items) > 1 and all(_hash_ordered(x) for x in items):
            w.sim.fired('set-order')
            out = []
            pool = items
            while pool:
                out.append(pool.pop(w.sim.choose(len(pool))))
            items = out
        return iter(items)

    __hash__ = None


def _unbound(name):
    method = getattr(set, name)

    def call(self, *args):
        out = method(self, *args)
        return ChaosSet(out) if type(out) is set else out

    call.__name__ = name
    return call


# results stay order-chaotic, and `set.union(plain, ...)` works where the name `set` has been replaced
for _n in ('union', 'intersection', 'difference', 'symmetric_difference', 'copy', '__or__', '__and__', '__sub__', '__xor__',
           'add', 'discard', 'remove', 'update', 'issubset', 'issuperset', 'isdisjoint'):
    setattr(ChaosSet, _n, _unbound(_n))


def _has_str(x):
    if isinstance(x, (str, bytes)):
        return True
    if isinstance(x, (tuple, frozenset)):
        return any(_has_str(y) for y in x)
    return False


def sim_hash(x):
    """hash() as another process would compute it: strings hash with the process' own seed"""
    w = WORLD
    if w is not None and w.order_salt and _has_str(x):
        return hash((x, w.order_salt))
    return hash(x)


def sim_id(x):
    w = WORLD
    if w is not None and w.order_salt:
        return id(x) ^ (w.order_salt << 4)
    return id(x)


# -- entropy, clock, process id --------------------------------------------------------------------------------
_real_urandom = os.urandom


def _urandom(n):
    w = WORLD
    if w is None:
        return _real_urandom(n)
    if w.entropy is None:
        w.entropy = SplitMix(w.sim.choose(1 << 30))
        w.sim.fired('os-entropy')
    return bytes(w.entropy.below(256) for _ in range(n))


def _clock(real, ns):
    def read():
        w = WORLD
        if w is None or not _from_oranssi():
            return real()
        if w.now is None:
            w.now = 10 ** 18 + w.sim.choose(1 << 30) * 10 ** 9
            w.sim.fired('clock-read')
        w.now += 1 + w.sim.choose(1 << 32)
        return w.now if ns else w.now / 1e9
    read.__name__ = real.__name__
    return read


def _getpid():
    w = WORLD
    if w is None or not _from_oranssi():
        return _real_getpid()
    if w.pid is None:
        w.pid = 2 + w.sim.choose(30000)
    return w.pid


_real_getpid = os.getpid
_real_pyseed = random.seed


def _pyseed(a=None, version=2):
    if a is None and WORLD is not None:
        a = int.from_bytes(_urandom(32), 'big')
    return _real_pyseed(a, version)


_real_npseed = np.random.seed


def _npseed(seed=None):
    if seed is None and WORLD is not None:
        seed = int.from_bytes(_urandom(4), 'big')
    return _real_npseed(seed)


# -- loading oranssi from source -------------------------------------------------------------------------------
_code = {}


class _SourceOnly(importlib.machinery.SourceFileLoader):
    """Never trusts or writes bytecode: the working tree is what runs. Compiled once per worker process."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if path not in _code:
            _code[path] = self.source_to_code(self.get_data(path), path)
        return _code[path]


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != 'oranssi' and not fullname.startswith('oranssi.'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(
                fullname, f, loader=_SourceOnly(fullname, f), submodule_search_locations=[base])
        f = base + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=_SourceOnly(fullname, f))
        return None


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    _qd.QubitDevice.execute = _execute
    scipy.linalg.expm = _wrap(scipy.linalg.expm, drift=True)
    np.linalg.eigh = _wrap(np.linalg.eigh)
    np.linalg.svd = _wrap(np.linalg.svd)
    np.einsum = _wrap(np.einsum)
    os.urandom = random._urandom = _urandom
    os.getpid = _getpid
    random.seed = _pyseed
    np.random.seed = _npseed
    for n in ('time', 'monotonic', 'perf_counter', 'process_time'):
        setattr(time, n, _clock(getattr(time, n), False))
        setattr(time, n + '_ns', _clock(getattr(time, n + '_ns'), True))
    from . import simfs
    simfs.install()
    sys.meta_path.insert(0, _Finder())
    fresh()


MODULES = ['oranssi.' + m for m in ('utils', 'edge_coloring', 'circuit_tools', 'pauli', 'opt_tools', 'optimizers')]


def fresh():
    """Load oranssi anew, as a process start would: whatever the package keeps at module or class level is gone.
    Objects built before keep working on the module instances they came from."""
    for n in [n for n in sys.modules if n == 'oranssi' or n.startswith('oranssi.')]:
        del sys.modules[n]
    with muted():
        for n in MODULES:
            importlib.import_module(n)
    for n in ('oranssi.pauli', 'oranssi.opt_tools'):
        sys.modules[n].__dict__['set'] = ChaosSet
    for n in MODULES:
        sys.modules[n].__dict__.setdefault('hash', sim_hash)
        sys.modules[n].__dict__.setdefault('id', sim_id)
    for m in list(sys.modules.values()):
        n = getattr(m, '__name__', '')
        if n.startswith('oranssi.') and not os.path.abspath(m.__file__).startswith(REPO + '/'):
            raise HarnessError('oranssi loaded from ' + m.__file__)


# -- Python's global RNG -----------------------------------------------------------------------------------------
class DrawBudget(Exception):
    """more random draws than any terminating execution needs"""


class py_random(object):
    """Every outcome of the global `random` module's choice/randint/randrange/shuffle is a decision.

    mode: free (each draw a recorded decision), prng (a stream derived from one decision), first, last, alternate
    (adversarial constant draws). `fault_at`: raise an interrupt out of the k-th draw."""

    def __init__(self, sim, mode='free', limit=10 ** 6, fault_at=None):
        self.sim = sim
        self.mode = mode
        self.draws = 0
        self.limit = limit
        self.fault_at = fault_at
        self.stream = SplitMix(sim.choose(1 << 30)) if mode == 'prng' else None

    def _randbelow(self, n):
        if n <= 0:
            raise ValueError('n')
        self.draws += 1
        if self.draws > self.limit:
            raise DrawBudget()
        self.sim.steps += 1
        if self.fault_at is not None and self.draws == self.fault_at:
            self.sim.fired('interrupt-in-draw')
            raise make_fault('interrupt')
        if self.mode == 'free':
            return self.sim.choose(n)
        if self.mode == 'prng':
            return self.stream.below(n)
        if self.mode == 'first':
            return 0
        if self.mode == 'last':
            return n - 1
        return (self.draws // 2) % n

    def __enter__(self):
        random._inst._randbelow = self._randbelow
        return self

    def __exit__(self, *a):
        del random._inst._randbelow
        self.sim.fired('rng-draws-' + self.mode)
        return False


def seed_rngs(s):
    random.seed(s)
    np.random.seed(s & 0x7fffffff)


# -- calls into the code under test ---------------------------------------------------------------------------------
def _frames(e):
    import traceback
    out = []
    for fr in traceback.extract_tb(e.__traceback__):
        if '/sim/' not in fr.filename:
            out.append('%s:%s' % (os.path.basename(fr.filename), fr.name))
    return ' > '.join(out[-4:])


def sut(label, fn):
    """Run code under test; an exception nobody injected is a violation, not a harness error."""
    old = sys.stdout
    sys.stdout = SIM_STDOUT
    try:
        return fn()
    except Violation:
        raise
    except HarnessError:
        raise
    except Exception as e:
        if isinstance(e, Injected):
            raise
        raise Violation('unexpected-exception', '%s raised %s: %s [%s]' % (
            label, type(e).__name__, str(e)[:200], _frames(e)))
    finally:
        sys.stdout = old


class line_tracer(object):
    """While active, every executed line of an oranssi frame is a seam event of kind 'line'."""

    def __init__(self):
        self.prefix = os.path.join(REPO, 'oranssi')

    def _global(self, frame, ev, arg):
        if frame.f_code.co_filename.startswith(self.prefix):
            return self._local
        return None

    def _local(self, frame, ev, arg):
        if ev == 'line':
            w = WORLD
            if w is not None:
                w.event('line')
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


# -- scheduler ---------------------------------------------------------------------------------------------------------
class Task(object):
    def __init__(self, name, fn, sched, trace_lines=False, rng_seed=0):
        self.name = name
        self.fn = fn
        self.sched = sched
        self.go = threading.Semaphore(0)
        self.done = False
        self.result = None
        self.exc = None
        self.trace_lines = trace_lines
        self.killed = False
        self.np_state = np.random.RandomState(rng_seed & 0x7fffffff).get_state()
        self.py_state = random.Random(rng_seed).getstate()
        self.thread = threading.Thread(target=self._main, name=name, daemon=True)
        self.thread.start()

    def _main(self):
        self.go.acquire()
        try:
            if self.killed:
                raise TaskKilled()
            if self.trace_lines:
                with line_tracer():
                    self.result = self.fn()
            else:
                self.result = self.fn()
        except BaseException as e:      # recorded, judged by the property
            self.exc = e
        finally:
            self.done = True
            self.sched.back.release()


class Scheduler(object):
    """Real threads, exactly one of which runs at any time; the simulator decides which, at every yield point.

    A task may be switched out at any seam event unless PennyLane is recording a tape or autograd is tracing:
    those two libraries keep process-global stacks, so a switch there would exercise them, not oranssi."""

    def __init__(self, sim, switch_num=1, switch_den=3, kinds=('device', 'linalg'), can_kill=False):
        self.sim = sim
        self.tasks = []
        self.current = None
        self.back = threading.Semaphore(0)
        self.num, self.den = switch_num, switch_den
        self.kinds = kinds
        self.switches = 0
        self.kill_at = None         # (task index, slice) simulated crash of one task
        self.hot = False            # the running task has just used the device: the next line is a likely switch

    def add(self, name, fn, **kw):
        self.tasks.append(Task(name, fn, self, **kw))

    def maybe_yield(self, kind):
        t = self.current
        if t is None or kind not in self.kinds or threading.current_thread() is not t.thread:
            return
        if kind == 'device':
            self.hot = True
        if qml.queuing.QueuingContext.recording() or _at.trace_stack.top >= 0:
            return
        if sum(1 for x in self.tasks if not x.done) < 2:
            return
        den = self.den
        if self.hot and kind == 'line':
            # what a task has just done to shared things is most fragile right now
            self.hot = False
            den = min(den, 2)
        if not self.sim.chance(self.num, den):
            return
        self.hot = False
        self.back.release()
        t.go.acquire()
        if t.killed:
            raise TaskKilled()

    def run(self, max_slices=100000):
        saved = (np.random.get_state(), random.getstate())
        slices = 0
        try:
            while True:
                live = [t for t in self.tasks if not t.done]
                if not live:
                    break
                slices += 1
                if slices > max_slices:
                    raise HarnessError('slice budget exceeded')
                t = live[self.sim.choose(len(live))]
                if self.kill_at is not None and slices >= self.kill_at[1] and not self.tasks[self.kill_at[0]].done:
                    t = self.tasks[self.kill_at[0]]
                    t.killed = True
                    self.kill_at = None
                    self.sim.fired('task-killed')
                if self.current is not None and self.current is not t:
                    self.switches += 1
                self.current = t
                self.sim.sched.append(t.name)
                np.random.set_state(t.np_state)
                random.setstate(t.py_state)
                t.go.release()
                self.back.acquire()
                t.np_state = np.random.get_state()
                t.py_state = random.getstate()
        finally:
            for t in self.tasks:
                if not t.done:
                    t.killed = True
                    t.go.release()
                    self.back.acquire()
            np.random.set_state(saved[0])
            random.setstate(saved[1])
            self.current = None


class np_draws(object):
    """Every outcome of numpy's global choice / permutation / shuffle / randint is a decision of the simulator.

    mode: real (the seeded global generator), free, first, last"""

    NAMES = ('choice', 'permutation', 'shuffle', 'randint')

    def __init__(self, sim, mode):
        self.sim, self.mode = sim, mode
        self.draws = 0

    def below(self, n):
        self.draws += 1
        self.sim.steps += 1
        if self.mode == 'free':
            return self.sim.choose(n)
        return 0 if self.mode == 'first' else n - 1

    def choice(self, a, size=None, replace=True, p=None):
        seq = list(range(int(a))) if isinstance(a, (int, np.integer)) else list(a)
        idx = [i for i in range(len(seq)) if p is None or p[i] > 0]
        if not idx:
            raise ValueError('a must be non-empty')
        k = 1 if size is None else int(np.prod(size))
        out = []
        for _ in range(k):
            j = self.below(len(idx))
            out.append(seq[idx[j]])
            if not replace:
                idx.pop(j)
        r = np.array(out)
        return r[0] if size is None else r.reshape(size)

    def permutation(self, x):
        pool = list(range(int(x))) if isinstance(x, (int, np.integer)) else list(x)
        out = []
        while pool:
            out.append(pool.pop(self.below(len(pool))))
        return np.array(out)

    def shuffle(self, x):
        x[:] = list(self.permutation(list(x)))

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if size is None:
            return low + self.below(high - low)
        return np.array([low + self.below(high - low) for _ in range(int(np.prod(size)))]).reshape(size)

    def __enter__(self):
        self.saved = {}
        if self.mode != 'real':
            for n in self.NAMES:
                self.saved[n] = getattr(np.random, n)
                setattr(np.random, n, getattr(self, n))
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(np.random, n, f)
        self.sim.fired('np-draws-' + self.mode)
        return False
