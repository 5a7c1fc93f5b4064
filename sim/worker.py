"""PyPy side: runs simulated executions of one property and reports one JSON line per run.

  worker.py batch  PROP TIER BASESEED (run numbers on stdin, 8 bytes each)
  worker.py trace  PROP FILE          (FILE: {"trace": [...]})  replay a decision trace
  worker.py seed   PROP SEED          one seed
  worker.py shrink PROP FILE SECONDS  (FILE: {"trace": [...], "cls": ...})
"""
import gc
import hashlib
import importlib
import json
import os
import signal
import struct
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(10000)

from sim import engine                                   # noqa: E402
from sim.engine import Violation, Discard, HarnessError, derive_seed   # noqa: E402

OUT = os.fdopen(os.dup(1), 'w')
RUN_LIMIT = int(os.environ.get('SIM_RUN_LIMIT', '120'))


class Hang(BaseException):
    pass


def _alarm(sig, frame):
    raise Hang()


def emit(**kw):
    OUT.write(json.dumps(kw, sort_keys=True) + '\n')
    OUT.flush()


def load(prop):
    from sim import seams
    seams.install()
    mod = importlib.import_module('sim.props.' + prop.lower())
    from sim import gen
    from sim.props import common

    def run(sim):
        common.reset_process()
        seams.fresh()
        gen._spy_classes.clear()
        seams.WORLD = None
        signal.alarm(RUN_LIMIT)
        try:
            mod.run(sim)
        except (Violation, Discard, HarnessError):
            raise
        except Exception as e:
            # not caught by sut(): still a fact about the code under test if it was raised inside oranssi
            fr = traceback.extract_tb(e.__traceback__)
            if isinstance(e, seams.Injected):
                raise
            if any(f.filename.startswith(os.path.join(seams.REPO, 'oranssi')) for f in fr):
                raise Violation('unexpected-exception', '%s: %s [%s]' % (type(e).__name__, str(e)[:200], seams._frames(e)))
            judge = [f for f in fr if os.sep + 'sim' + os.sep in f.filename]
            if isinstance(e, (TypeError, ValueError, IndexError, KeyError)) and judge and \
                    os.path.basename(judge[-1].filename) not in ('seams.py', 'simfs.py', 'engine.py', 'worker.py'):
                # what the code returned cannot be read as what it is documented to return
                raise Violation('unusable-result', '%s: %s [%s:%s]' % (
                    type(e).__name__, str(e)[:200], os.path.basename(judge[-1].filename), judge[-1].name))
            raise
        except Hang:
            raise Violation('hang', 'no end of the run in %d s of real time (a normal run takes seconds)' % RUN_LIMIT)
        finally:
            signal.alarm(0)
            seams.WORLD = None
            sys.settrace(None)
    return mod, run


def h8(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:12]


def report(sim, v, discarded, **extra):
    d = dict(extra)
    d.update(status='violation' if v else ('discard' if discarded else 'ok'),
             digest=sim.digest(), faults=sim.faults, probes=sim.probes, steps=sim.steps,
             nontrivial=bool(sim.nontrivial), sched=h8(sim.sched) if sim.sched else None,
             nsched=len(sim.sched), keys=sorted(h8(k) for k in sim.state_keys)[:400],
             ndecisions=len(sim.trace), summary=sim.summary)
    if v:
        d.update(cls=v.cls, msg=v.msg, trace=sim.trace, log=[list(map(str, e)) for e in sim.log[-40:]])
    return d


def main(argv):
    mode, prop = argv[0], argv[1].upper()
    signal.signal(signal.SIGALRM, _alarm)
    try:
        mod, run = load(prop)
    except Violation as v:      # pragma: no cover
        emit(status='import-violation', cls=v.cls, msg=v.msg)
        return 0
    except Exception as e:
        # the code under test does not even import: a fact about the tree, reported with its traceback
        emit(status='harness-error', msg='%s: %s' % (type(e).__name__, e), tb=traceback.format_exc()[-3000:])
        return 3
    if mode == 'batch':
        tier, base = argv[2], argv[3]
        emit(status='ready')
        done = failed = 0
        while True:
            done += 1
            if done % 150 == 0:
                gc.collect()        # PyPy does not see the memory behind arrays
            b = os.read(0, 8)
            if len(b) < 8:
                break
            i = struct.unpack('<q', b)[0]
            seed = derive_seed(base, prop, i)
            try:
                sim, v, disc = engine.run_once(run, seed=seed)
            except Exception as e:
                emit(status='harness-error', index=i, seed=seed, msg='%s: %s' % (type(e).__name__, e),
                     tb=traceback.format_exc()[-3000:])
                failed += 1
                if failed > 20:
                    return 3
                continue
            emit(**report(sim, v, disc, index=i, seed=seed))
            if v:
                return 0
        emit(status='done')
        return 0
    if mode == 'seed':
        sim, v, disc = engine.run_once(run, seed=int(argv[2]))
        emit(**report(sim, v, disc, seed=int(argv[2])))
        return 0
    doc = json.load(open(argv[2]))
    if mode == 'trace':
        sim, v, disc = engine.run_once(run, trace=doc['trace'])
        emit(**report(sim, v, disc))
        return 0
    if mode == 'shrink':
        t0 = time.monotonic()
        best, tries = engine.minimise(run, doc['trace'], doc['cls'], t0 + float(argv[3]), time.monotonic)
        sim, v, disc = engine.run_once(run, trace=best)
        emit(**report(sim, v, disc, tries=tries))
        return 0
    raise SystemExit('bad mode')


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except Exception:
        emit(status='harness-error', msg=traceback.format_exc()[-3000:])
        rc = 3
    OUT.flush()
    os._exit(rc)
