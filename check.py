#!/usr/bin/env python3
"""Decide one property by seeded deterministic simulation.

  python3 check.py C01                 tier from $VERIF_TIER (default quick), seed from $VERIF_SEED (default 1)
  python3 check.py C01 --replay FILE   replay a recorded violation; exit 1 if it reproduces exactly
  python3 check.py --selftest [C01..]  determinism: same seeds, different worker counts / hash seeds, equal digests

exit 0: held on everything explored; exit 1 + "VIOLATION property=<id> replay=<path>": broken; exit 2: harness error.
"""
import argparse
import json
import os
import selectors
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import budget            # noqa: E402

PYPY = os.environ.get('SIM_PYTHON', '/opt/venv/bin/python')
REPO = os.environ.get('SIM_REPO', '/repo')
JIT = ['--jit', 'off']


def env(hashseed='0'):
    e = dict(os.environ)
    for k in ('PYTHONPATH', 'PYTHONHOME'):
        e.pop(k, None)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=hashseed, MPLBACKEND='Agg', LANG='C.UTF-8',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', SIM_REPO=REPO,
             MPLCONFIGDIR=os.path.join(tempfile.gettempdir(), 'sim-mpl'))
    return e


def spawn(args, hashseed='0', stdin=subprocess.DEVNULL):
    return subprocess.Popen([PYPY] + JIT + ['-W', 'ignore', os.path.join(HERE, 'sim', 'worker.py')] + [str(a) for a in args],
                            stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=HERE, env=env(hashseed),
                            start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        p.wait(10)
    except Exception:
        pass


def one(args, timeout, hashseed='0'):
    """run a worker to its end, return its last JSON line"""
    p = spawn(args, hashseed)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return {'status': 'timeout'}
    lines = [x for x in out.decode().splitlines() if x.startswith('{')]
    if not lines:
        return {'status': 'harness-error', 'msg': err.decode()[-2000:]}
    return json.loads(lines[-1])


def batch(prop, tier, seed, count, workers, wall, hashseed='0', stop_on_violation=True, skip=()):
    """-> (results by index, violation or None, errors, complete?)"""
    t0 = time.monotonic()
    # the workers take the next run number from one shared pipe: who executes which run does not matter to any run
    rfd, wfd = os.pipe()
    procs = [spawn(['batch', prop, tier, seed], hashseed, rfd) for w in range(min(workers, count))]
    os.close(rfd)

    def feed():
        try:
            for i in range(count):
                if i not in skip:
                    os.write(wfd, struct.pack('<q', i))
        except OSError:
            pass
        finally:
            os.close(wfd)
    threading.Thread(target=feed, daemon=True).start()
    sel = selectors.DefaultSelector()
    bufs = {}
    errtail = {}
    for p in procs:
        sel.register(p.stdout, selectors.EVENT_READ, (p, 'o'))
        sel.register(p.stderr, selectors.EVENT_READ, (p, 'e'))
        bufs[p] = b''
        errtail[p] = b''
    results, errors, violation = {}, [], None
    finished = set()
    open_streams = 2 * len(procs)
    capped = fatal = False
    try:
        while open_streams:
            left = wall - (time.monotonic() - t0)
            if left <= 0:
                capped = True
                break
            for key, _ in sel.select(timeout=min(left, 5)):
                p, kind = key.data
                data = os.read(key.fd, 1 << 16)
                if not data:
                    sel.unregister(key.fileobj)
                    open_streams -= 1
                    continue
                if kind == 'e':
                    errtail[p] = (errtail[p] + data)[-2000:]
                    continue
                bufs[p] += data
                *lines, bufs[p] = bufs[p].split(b'\n')
                for line in lines:
                    if not line.startswith(b'{'):
                        continue
                    d = json.loads(line)
                    st = d['status']
                    if st == 'ready':
                        continue
                    if st == 'done':
                        finished.add(p)
                        continue
                    if st == 'harness-error':
                        errors.append(d)
                        if 'index' not in d or len(errors) > 40:
                            fatal = True
                        continue
                    results[d['index']] = d
                    if st == 'violation':
                        finished.add(p)
                        if violation is None or d['index'] < violation['index']:
                            violation = d
            if (violation is not None and stop_on_violation) or fatal:
                break
    finally:
        for p in procs:
            kill(p)
            p.stdout.close()
            p.stderr.close()
        sel.close()
    if violation is None and not errors and not capped:
        for p in procs:
            if p not in finished:
                errors.append({'msg': 'worker died: ' + errtail[p].decode(errors='replace')})
    complete = len(results) == count
    return results, violation, errors, complete


def findings(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, 'known_findings.txt')):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                out.append(line[len('known: property=%s ' % prop):])
    except FileNotFoundError:
        pass
    return out


def write_replay(prop, doc):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, doc.get('seed', 'x')))
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')
    return path


def report(prop, tier, seed, violation):
    """Minimise, write the replay file and reproduce it in a fresh process. -> the replay document, or None"""
    print('%s: run %d (seed %d) violates: %s: %s' % (prop, violation['index'], violation['seed'],
                                                     violation['cls'], violation['msg']), flush=True)
    v = violation
    tries = 0
    if v['cls'] != 'hang':
        with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
            json.dump({'trace': v['trace'], 'cls': v['cls']}, f)
        try:
            budget_s = 45 if tier == 'quick' else 240
            m = one(['shrink', prop, f.name, budget_s], budget_s + 200)
        finally:
            os.unlink(f.name)
        if m.get('status') == 'violation' and m['cls'] == v['cls']:
            tries = m.get('tries', 0)
            m['seed'], m['index'] = v['seed'], v['index']
            v = m
    loose = None
    # the shrunk trace, or if that one does not replay the original one
    for w in ([v, violation] if v is not violation else [v]):
        doc = {'property': prop, 'base_seed': seed, 'index': w['index'], 'seed': w['seed'], 'class': w['cls'],
               'message': w['msg'], 'trace': w['trace'], 'digest': w['digest'], 'faults': w['faults'],
               'case': w['summary'], 'events': w['log'], 'shrink_tries': tries,
               'replay_cmd': 'python3 check.py %s --replay <this file>' % prop}
        path = write_replay(prop, doc)
        r = one(['trace', prop, path], 400)
        same = r.get('status') == 'violation' and r.get('cls') == doc['class']
        if same and (r.get('digest') == doc['digest'] or doc['class'] == 'hang'):
            break
        if same:
            loose = doc
    else:
        if loose is None:
            return None
        # it fails again, in the same way, but not to the last digit: the code draws on something outside the seams
        doc = loose
        path = write_replay(prop, doc)
        print('note: the replay breaks the property in the same way with a different event log')
    print('minimised to %d decisions: %s' % (len(doc['trace']), doc['message']))
    print('case: %s' % json.dumps(doc['case']))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return doc


def do_check(prop, tier, seed):
    t0 = time.monotonic()
    b = budget.BUDGET[prop]
    count = b[tier]
    scale = float(os.environ.get('SIM_SCALE', '1'))
    count = max(8, int(count * scale))
    workers = int(os.environ.get('SIM_WORKERS', '8'))
    wall = float(os.environ.get('SIM_WALL', str(600 if tier == 'quick' else 7200)))
    results, violation, errors, complete = batch(prop, tier, seed, count, workers, wall)
    explored = time.monotonic() - t0

    for k in findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    rc = 0
    viol_doc = None
    skip = []
    while violation is not None and rc == 0:
        viol_doc = report(prop, tier, seed, violation)
        if viol_doc is not None:
            rc = 1
            break
        # not one the simulator can show again: look for another one
        skip.append(violation['index'])
        left = wall - (time.monotonic() - t0)
        if len(skip) > 3 or left < 30:
            rc = 2
            break
        more, violation, errors, complete = batch(prop, tier, seed, count, workers, left, skip=skip)
        results.update(more)
        if violation is None:
            rc = 2
    if rc == 2:
        print('HARNESS: violation did not replay (runs %s)' % skip)
    elif rc == 1:
        pass
    elif errors:
        rc = 2
        for e in errors[:3]:
            print('HARNESS ERROR: %s\n%s' % (e.get('msg'), e.get('tb', '')))
    elif not complete and len(results) < count * 0.2:
        rc = 2
        print('HARNESS: only %d of %d runs finished in %.0f s' % (len(results), count, wall))
    evidence(prop, tier, seed, b, results, count, explored, time.monotonic() - t0, workers, viol_doc, rc)
    if rc == 0:
        print('%s: held on %d simulated runs (%d planned) in %.1f s' % (prop, len(results), count, explored))
    return rc


def evidence(prop, tier, seed, b, results, count, explored, wall, workers, viol, rc):
    rs = [results[i] for i in sorted(results)]
    faults, probes, keys, scheds = {}, {}, set(), set()
    digests = set()
    steps = dec = disc = 0
    for r in rs:
        for k, v in r['faults'].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r['probes'].items():
            probes[k] = probes.get(k, 0) + v
        keys.update(r['keys'])
        if r['sched']:
            scheds.add(r['sched'])
        steps += r['steps']
        dec += r['ndecisions']
        disc += r['status'] == 'discard'
        if r['nontrivial']:
            digests.add(r['digest'])
    samples = []
    for r in rs:
        if r['nontrivial'] and r['summary'] and len(samples) < 4:
            samples.append({'index': r['index'], 'seed': r['seed'], 'digest': r['digest'], 'case': r['summary'],
                            'faults': r['faults'], 'steps': r['steps']})
    if not samples and rs:
        samples = [{'index': rs[0]['index'], 'seed': rs[0]['seed'], 'case': rs[0]['summary']}]
    silent = [k for k in b.get('probes', []) if not probes.get(k)]
    cov = {
        'evaluations': len(rs),
        'distinct_nontrivial': len(digests),
        'rule': b['rule'],
        'samples': samples,
        'planned_runs': count,
        'discarded_runs': disc,
        'runs_per_hour': round(len(rs) / max(explored, 1e-9) * 3600),
        'seeds': 'index i runs seed sha256("%s/%s/i")[:8]' % (seed, prop),
        'workers': workers,
        'simulated_steps': steps,
        'simulated_time': 'oranssi reads no clock: simulated time is counted in seam events (simulated_steps)',
        'decisions': dec,
        'faults_fired': dict(sorted(faults.items())),
        'probes': dict(sorted(probes.items())),
        'probes_at_zero': silent,
        'distinct_interleavings': len(scheds),
        'interleaving_measure': 'distinct sequences of task choices made by the scheduler, per run',
        'distinct_states': len(keys),
        'state_measure': b.get('state_measure', 'coarse per-property state keys'),
        'real_components': b['real'],
        'stubbed_components': b['stub'],
    }
    doc = {'property': prop, 'tier': tier, 'seed': int(seed), 'level': 'exploration', 'coverage': cov,
           'assumptions': b.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': 1 if rc == 1 else 0}
    if viol:
        doc['coverage']['violation'] = {k: viol[k] for k in ('class', 'message', 'seed', 'index')}
    if rc == 2:
        doc['coverage']['harness_error'] = True
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(tmp, os.path.join(d, prop + '.json'))


def do_replay(prop, path):
    doc = json.load(open(path))
    r = one(['trace', prop, path], 600)
    if r.get('status') == 'violation' and r['cls'] == doc['class']:
        exact = r['digest'] == doc['digest']
        print('%s: %s' % (r['cls'], r['msg']))
        print('replayed %s' % ('exactly (event digest %s)' % r['digest'] if exact else 'with a different event log'))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('does not reproduce: %s' % json.dumps({k: r.get(k) for k in ('status', 'cls', 'msg')}))
    return 0 if r.get('status') in ('ok', 'discard') else 2


def do_selftest(props, count, seed):
    bad = 0
    for prop in props:
        ref = None
        for workers, hs in ((8, '0'), (3, '0'), (8, '4242'), (5, 'random')):
            res, v, errors, complete = batch(prop, 'quick', seed, count, workers, 1200, hs, stop_on_violation=False)
            dig = {i: (r['status'], r['digest']) for i, r in res.items()}
            if errors:
                print(prop, 'ERROR', errors[0].get('msg'), errors[0].get('tb'))
                bad += 1
                break
            if ref is None:
                ref = dig
            elif dig != ref:
                diff = [i for i in ref if dig.get(i) != ref[i]]
                print(prop, 'NOT DETERMINISTIC at', diff[:10], 'workers', workers, 'hashseed', hs)
                bad += 1
        else:
            print(prop, 'deterministic over', len(ref), 'runs x 4 configurations')
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('props', nargs='*')
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--count', type=int, default=64)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if a.selftest:
        return do_selftest(a.props or sorted(budget.BUDGET), a.count, seed)
    if a.replay:
        path = os.path.abspath(a.replay)
        return do_replay(a.props[0] if a.props else json.load(open(path))['property'], path)
    return do_check(a.props[0], tier, seed)


if __name__ == '__main__':
    sys.exit(main())
