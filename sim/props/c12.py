"""C12: result directories are created safely, whatever happens concurrently or fails on the way."""
import os

from .common import *
from .. import simfs
from ..seams import Scheduler, TaskKilled

NAMES = ['a', 'b', 'figures', 'run 1', 'é', '.hidden']
FAULTS = ['ENOSPC', 'EACCES', 'EIO', 'EROFS', 'EDQUOT', 'EMLINK', 'interrupt', 'crash-before', 'crash-after']


def gen_path(sim):
    """(path, experiment_name) as a caller writes them, and the absolute directory they denote"""
    base = sim.pick(['./figures', 'figures', '/simfs/data', './out/', '.', '/simfs/data/x', ''])
    name = '/'.join(sim.pick(NAMES) for _ in range(sim.choose(4) if not sim.chance(1, 8) else 4 + sim.choose(5)))
    if name and sim.chance(1, 6):
        name += '/'
    if base == '' and not name:
        base = './figures'
    if sim.chance(1, 12):
        name = '/simfs/abs/' + name
    return base, name


def absolute(path, name):
    return os.path.normpath(os.path.join(simfs.CWD, path, name))


def populate(sim, fs, want):
    """what is already there: parents, the directory itself with results, a file or a dangling link in the way"""
    state = sim.pick(['nothing', 'nothing', 'parents', 'there', 'file', 'parent-file', 'link-dir', 'dangling'])
    parts = want.split('/')
    top = 3 if want.startswith(simfs.CWD + '/') else 2
    if len(parts) <= top or want == simfs.CWD:
        return 'there'
    if any(q.startswith(want) or want.startswith(q + '/') and fs.nodes[q].kind != 'dir' for q in fs.nodes):
        return 'shared'
    parent = '/'.join(parts[:-1])
    if state == 'nothing':
        pass
    elif state == 'parents':
        fs.put_dirs('/'.join(parts[:top + 1 + sim.choose(len(parts) - top - 1)] if len(parts) > top + 1 else parent.split('/')))
    elif state == 'there':
        fs.put_dirs(want)
        fs.put(want + '/results.npy', 'file', 'precious')
    elif state == 'file':
        fs.put_dirs(parent)
        fs.put(want, 'file', 'not a directory')
    elif state == 'parent-file':
        k = top + sim.choose(len(parts) - top)
        fs.put_dirs('/'.join(parts[:k]))
        q = '/'.join(parts[:k + 1])
        if q not in fs.nodes:
            fs.put(q, 'file', 'not a directory')
    elif state == 'link-dir':
        fs.put_dirs(parent)
        fs.put_dirs('/simfs/scratch/disk')
        fs.put(want, 'link', '/simfs/scratch/disk')
    else:
        fs.put_dirs(parent)
        fs.put(want, 'link', '/simfs/scratch/missing')
    return state


def obstructed(fs, want):
    parts = want.split('/')
    for i in range(2, len(parts) + 1):
        q = fs.walk('/'.join(parts[:i]), parent=True, root=True)
        n = fs.nodes.get(q)
        if n is None:
            return False
        if n.kind == 'file' or n.kind == 'link' and not fs.isdir(q):
            return True
    return False


def run(sim):
    from oranssi import utils
    w = World(sim)
    fs = w.fs = simfs.SimFS(sim)
    fs.put('/simfs/data', 'dir')
    fs.put('/simfs/scratch', 'dir')
    ntasks = 1 + sim.choose(4)
    first = gen_path(sim)
    wants = []
    for i in range(ntasks):
        if i and sim.chance(2, 3):
            base, name = first          # the same directory, or one nested in it / above it
            k = sim.choose(3)
            if k == 1:
                name = os.path.join(name, sim.pick(NAMES))
            elif k == 2 and '/' in name.strip('/'):
                name = name.strip('/').rsplit('/', 1)[0] if not name.startswith('/') else name
            wants.append((base, name))
        else:
            wants.append(first if i == 0 else gen_path(sim))
    states = [populate(sim, fs, absolute(*p)) for p in wants]
    before = fs.snapshot()
    maybe = set()                       # directories a foreign process may have blocked meanwhile
    outcome = {}
    lines = sim.chance(1, 3)
    sched = w.sched = Scheduler(sim, 2, 3, kinds=('fs', 'line') if lines else ('fs',))
    procs = {}

    def usable(path, how):
        want = absolute(*path)
        need(fs.isdir(want), 'no-directory', '%s returned for %s but there is no directory', how, want)

    def body(i, path):
        def f():
            r = utils.save_path_creator(*path)
            need(r == os.path.join(*path), 'wrong-path', 'returned %r for %r', r, path)
            if absolute(*path) not in maybe:
                usable(path, 'process %d' % i)
            fs.sim.event('returned', i)
            # a user now writes results there; from here on they are existing content
            with open(os.path.join(r, 'out%d' % i), 'w') as fh:
                fh.write('data')
            fs.nodes[fs.walk(os.path.join(r, 'out%d' % i))].protected = True
            return r
        return f

    plan = []
    for i, path in enumerate(wants):
        pr = simfs.Proc()
        if sim.chance(1, 3):
            pr.at, pr.fault = sim.choose(8), sim.pick(FAULTS)
        name = 'p%d' % i
        procs[name] = fs.procs[name] = pr
        plan.append(pr.fault and '%s@%d' % (pr.fault, pr.at))
        sched.add(name, body(i, path), trace_lines=lines)
    foreign = sim.choose(4) if sim.chance(1, 2) else 0
    for j in range(foreign and 1):
        want = absolute(*sim.pick(wants))
        isfile = foreign == 3

        def other(want=want, isfile=isfile):
            parts = want.split('/')
            for k in range(3, len(parts) + 1):
                q = '/'.join(parts[:k])
                last = k == len(parts)
                if last and isfile:
                    maybe.add(want)
                    fs.stat('/simfs')
                    if fs.isdir(os.path.dirname(q)):
                        c = fs.walk(q, parent=True, root=True)
                        if c not in fs.nodes:
                            fs.put(c, 'file', 'foreign')
                            sim.fired('foreign-file')
                    return
                try:
                    fs.mkdir(q)
                    fs.nodes[fs.walk(q)].protected = True
                    sim.fired('foreign-mkdir')
                except OSError:
                    pass
        if isfile:
            maybe.add(want)
        sched.add('foreign', other)
    sim.summary = {'paths': [list(p) for p in wants], 'states': states, 'faults': plan, 'foreign': foreign,
                   'lines': lines}
    with activate(w):
        sched.run()
    w.sched = None
    blocked = any(maybe)
    for t in sched.tasks:
        if t.name == 'foreign':
            if t.exc is not None:
                raise HarnessError(repr(t.exc))
            continue
        i = int(t.name[1:])
        pr = procs[t.name]
        want = absolute(*wants[i])
        e = t.exc
        sim.event('end', t.name, type(e).__name__ if e is not None else 'ok', pr.fired)
        if e is None:
            need(pr.fired not in ('crash-before', 'crash-after'), 'swallowed', 'crash swallowed')
            need(pr.fired != 'interrupt', 'swallowed', 'an interrupt during the call was swallowed')
            sim.probe('ok')
            continue
        if isinstance(e, (Violation, HarnessError)):
            raise e
        if isinstance(e, TaskKilled):
            need(pr.fired in ('crash-before', 'crash-after'), 'killed', 'unplanned crash')
            sim.probe('crashed')
            continue
        if pr.fired is not None or any(want == m or want.startswith(m + '/') for m in maybe):
            need(isinstance(e, (OSError, KeyboardInterrupt)), 'wrong-error', 'a file-system error became %s: %s',
                 type(e).__name__, e)
            sim.probe('fault-surfaced')
            continue
        need(isinstance(e, OSError) and obstructed(fs, want), 'spurious-error',
             'creating %s raised %s: %s although nothing failed and nothing is in the way', want, type(e).__name__, e)
        sim.probe('obstructed')
        if sched.switches:
            sim.probe('interleaved')
    # existing content untouched
    for q, v in before.items():
        n = fs.nodes.get(q)
        need(n is not None and (n.kind, n.mode, n.data, n.ino) == v, 'content-touched', 'existing %s changed', q)
    # no stray entries unless somebody crashed
    if not any(pr.fired for pr in procs.values()):
        ok = set()
        for p in wants:
            parts = absolute(*p).split('/')
            for k in range(2, len(parts) + 1):
                try:
                    ok.add(fs.walk('/'.join(parts[:k]), root=True))
                except OSError:
                    break
        for q, n in fs.nodes.items():
            if q in before or q in ok or os.path.basename(q).startswith('out'):
                continue
            fail('stray', 'left %s %s behind', n.kind, q)
    # retry, faults gone; sometimes after the user removed the whole tree again
    for path in wants:
        want = absolute(*path)
        for n in fs.nodes.values():
            n.protected = True
        if sim.chance(1, 4) and want.startswith((simfs.CWD + '/', '/simfs/data/', '/simfs/abs')) and not obstructed(fs, want):
            fs.drop(want)
            sim.probe('removed-in-between')
        snap = fs.snapshot()
        bad = obstructed(fs, want)
        try:
            with activate(w):
                r = utils.save_path_creator(*path)
        except Exception as e:
            if isinstance(e, (Violation, HarnessError)):
                raise
            need(bad and isinstance(e, OSError), 'retry-failed', 'retry for %s raised %s: %s', want,
                 type(e).__name__, e)
            continue
        need(not bad, 'no-directory', 'success reported for %s although something else is in the way', want)
        need(r == os.path.join(*path), 'wrong-path', 'returned %r for %r', r, path)
        usable(path, 'retry')
        q = fs.walk(want)
        need(fs.nodes[q].mode & 0o700 == 0o700, 'unusable', 'directory %s has mode %o', want, fs.nodes[q].mode)
        for q, v in snap.items():
            n = fs.nodes.get(q)
            need(n is not None and (n.kind, n.mode, n.data, n.ino) == v, 'content-touched', 'existing %s changed', q)
    sim.nontrivial = fs.ops > 2
    sim.state_keys.add((tuple(sorted(states)), tuple(sorted(p for p in plan if p)), foreign, sched.switches > 0))
