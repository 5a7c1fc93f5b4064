"""Deterministic simulation core: decisions, event log, replay, minimisation.

One run is a pure function of (property, integer seed, code under test).  Every choice the run makes --
workload, schedule, fault placement, values handed out by the simulated RNGs -- goes through `Sim.choose`,
which is recorded.  The recorded list of integers (the *decision trace*) is what a replay file stores and what
the minimiser shrinks: replaying a trace never touches the PRNG at all.
"""
import hashlib
import math

MASK = (1 << 64) - 1


class Violation(Exception):
    """The property is broken. `cls` is the violation class that minimisation must preserve."""

    def __init__(self, cls, msg):
        Exception.__init__(self, '%s: %s' % (cls, msg))
        self.cls = cls
        self.msg = msg


class Discard(Exception):
    """The run turned out to be trivial (nothing to check); counted, not reported."""


class HarnessError(Exception):
    """A bug or broken assumption of the harness itself. Never a violation."""


class SplitMix(object):
    """Tiny, interpreter independent PRNG (SplitMix64)."""

    def __init__(self, seed):
        self.s = seed & MASK

    def next(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & MASK
        z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & MASK
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & MASK
        return z ^ (z >> 31)

    def below(self, n):
        return (self.next() * n) >> 64


def derive_seed(*parts):
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


class Sim(object):
    def __init__(self, seed=None, trace=None):
        self.seed = seed
        self.rng = SplitMix(seed) if trace is None else None
        self.replay = list(trace) if trace is not None else None
        self.trace = []
        self.log = []               # event log of this run
        self.faults = {}            # fault kind -> how often it actually fired
        self.probes = {}            # rare condition -> how often it was reached
        self.sched = []             # scheduling decisions (task names), for the interleaving measure
        self.steps = 0              # simulated steps (seam events)
        self.summary = None         # human readable description of the case
        self.nontrivial = False
        self.state_keys = set()     # coarse state keys reached (stated measure)

    # -- decisions ---------------------------------------------------------------------------------
    def choose(self, n):
        """An integer in [0, n). 0 is by convention the simplest alternative."""
        n = int(n)
        if n <= 1:
            return 0
        if self.replay is not None:
            i = len(self.trace)
            v = self.replay[i] if i < len(self.replay) else 0
            v = v if 0 <= v < n else v % n
        else:
            v = self.rng.below(n)
        self.trace.append(v)
        return v

    def chance(self, num, den):
        """True with probability num/den; the simple outcome (0) is False."""
        return self.choose(den) >= den - num

    def pick(self, seq):
        return seq[self.choose(len(seq))]

    def between(self, lo, hi):
        return lo + self.choose(hi - lo + 1)

    def unit(self):
        """float in [0,1) on a 2**-20 grid."""
        return self.choose(1 << 20) / float(1 << 20)

    def angle(self):
        """Mostly generic angles, sometimes the special ones where gradients vanish."""
        if self.chance(5, 6):
            return 2 * math.pi * self.unit()
        return self.choose(8) * math.pi / 4

    def sample(self, seq, k):
        pool = list(seq)
        out = []
        for _ in range(k):
            out.append(pool.pop(self.choose(len(pool))))
        return out

    # -- recording (never draws, never reads a clock) ------------------------------------------------
    def event(self, *what):
        self.log.append(what)

    def fired(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def probe(self, name, k=1):
        self.probes[name] = self.probes.get(name, 0) + k

    def digest(self):
        h = hashlib.sha256()
        for e in self.log:
            h.update(repr(e).encode())
            h.update(b'\n')
        for v in self.trace:
            h.update(b'%d,' % v)
        return h.hexdigest()[:16]


def run_once(run, seed=None, trace=None):
    """-> (sim, Violation or None, discarded?)"""
    sim = Sim(seed=seed, trace=trace)
    try:
        run(sim)
    except Violation as v:
        return sim, v, False
    except Discard:
        return sim, None, True
    return sim, None, False


def minimise(run, trace, cls, deadline, clock):
    """Shrink a decision trace while a violation of the same class persists."""
    best = list(trace)
    tries = 0

    def fails(t):
        try:
            sim, v, _ = run_once(run, trace=t)
        except Exception:       # a harness problem on a mutilated trace: not the same failure
            return None
        if v is not None and v.cls == cls:
            return sim.trace
        return None

    improved = True
    while improved and clock() < deadline:
        improved = False
        # drop chunks
        size = max(1, len(best) // 2)
        while size >= 1 and clock() < deadline:
            i = 0
            while i < len(best) and clock() < deadline:
                cand = best[:i] + best[i + size:]
                tries += 1
                r = fails(cand)
                if r is not None and (len(r), r) < (len(best), best):
                    best = r
                    improved = True
                else:
                    i += size
            size //= 2
        # zero / halve single values
        for i in range(len(best)):
            if clock() >= deadline:
                break
            if i >= len(best):
                break
            for nv in (0, best[i] // 2, best[i] - 1):
                if i < len(best) and 0 <= nv < best[i]:
                    cand = best[:i] + [nv] + best[i + 1:]
                    tries += 1
                    r = fails(cand)
                    if r is not None and (len(r), r) < (len(best), best):
                        best = r
                        improved = True
                        break
    return best, tries
