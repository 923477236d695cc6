"""C14 parallel_map equals map under every schedule.

Oracle: ParallelMap.tla (parent, workers and pipes as a transition system with
faults), its invariants and Terminates over every interleaving in
MCParallelMap.tla.  Every terminal schedule TLC finds (fault per item, order in
which the evaluations end, outcome) is replayed into the real parallel_map with
gated evaluations; random larger runs follow."""

import json
import mmap
import os
import select
import shutil
import signal
import struct
import tempfile
import threading
import time

import numpy as np

import harness
import py2load
import tlc

KINDS = ['raise', 'unsendable', 'die', 'vanish']
HANG = 60.


def config(N, W, kinds, faults, emit):
    return ('SPECIFICATION Spec\nINVARIANTS ReturnsAll AtMostOnce RaisesOnly NeverPartial NoneLeft '
            'OrderSane Stuck\nCHECK_DEADLOCK FALSE\n%s'
            'CONSTANTS N=%d W=%d Kinds={%s} MaxFaults=%d\nCONSTANT Faults<-AllFaults\n' % (
                'ACTION_CONSTRAINT Emit\n' if emit else 'PROPERTY Terminates\n',
                N, W, ','.join('"%s"' % k for k in kinds), faults))


def schedules(c):
    cfgs = [(3, 2, KINDS, 1), (3, 3, KINDS, 1), (4, 2, ['raise'], 1), (2, 3, KINDS, 2), (5, 2, [], 0),
            (4, 4, [], 0), (5, 3, [], 0), (3, 1, KINDS, 1), (0, 2, [], 0)]
    if c.thorough:
        cfgs += [(4, 2, KINDS, 2), (4, 3, KINDS, 1), (5, 4, [], 0), (3, 3, KINDS, 2), (5, 3, ['raise'], 1),
                 (6, 2, ['die'], 1)]
    out = []
    for N, W, kinds, faults in cfgs:
        r = tlc.run('MCParallelMap', config(N, W, kinds, faults, False), workers=8, timeout=800)
        if not r.ok:
            raise tlc.TLCError(r.out[-3000:])
        c.tlc(r)
        work = tempfile.mkdtemp(prefix='pm_')
        try:
            path = os.path.join(work, 'edges')
            r = tlc.run('MCParallelMap', config(N, W, kinds, faults, True), workers=4, timeout=800,
                        env={'EDGES': path})
            if not r.ok:
                raise tlc.TLCError(r.out[-3000:])
            with open(path) as f:
                lines = set(f)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        for ln in sorted(lines):
            s = json.loads(ln)
            s = json.loads(s) if isinstance(s, str) else s
            # A function of the TLA+ domain 1..N is written as an array.
            out.append({'N': N, 'W': W, 'fault': list(s['fault']), 'order': list(s['order']),
                        'outcome': s['outcome']})
    return out


# ---- values that cannot be returned

class Vanish(object):
    def __reduce__(self):
        os._exit(3)


class Poison(object):
    """Can be sent but not received."""
    def __reduce__(self):
        return (_poisoned, ())


def _poisoned():
    raise ValueError('poisoned')


def unsendable(i):
    return [lambda: i, threading.Lock(), open(os.devnull), (x for x in ())][i % 4]


def produce(kind, i, value):
    if kind == 'raise':
        raise [ValueError, KeyError, AssertionError, OSError][i % 4]('item %d' % i)
    if kind == 'unsendable':
        return unsendable(i)
    if kind == 'poison':
        return Poison()
    if kind == 'vanish':
        return Vanish()
    if kind == 'die':
        [lambda: os._exit(0), lambda: os._exit(1), lambda: os.kill(os.getpid(), signal.SIGKILL),
         lambda: os._exit(17)][i % 4]()
    if kind == 'exit':
        raise SystemExit(0)
    return value


# ---- what is left when the call is over

def kids():
    """Live (not zombie) children of this process."""
    out = []
    me = os.getpid()
    for p in os.listdir('/proc'):
        if not p.isdigit():
            continue
        try:
            with open('/proc/%s/stat' % p) as f:
                s = f.read().rsplit(')', 1)[1].split()
        except (IOError, OSError, IndexError):
            continue
        if int(s[1]) == me and s[0] not in 'ZX':
            out.append(int(p))
    return out


def fds():
    out = {}
    for f in os.listdir('/proc/self/fd'):
        try:
            out[int(f)] = os.readlink('/proc/self/fd/' + f)
        except OSError:
            pass
    return out


class Board(object):
    """Shared flags per item: evaluations begun, released, ended."""
    def __init__(self, n):
        self.n = max(n, 1)
        self.m = mmap.mmap(-1, 3 * self.n)

    def get(self, what, i):
        return self.m[what * self.n + i]

    def set(self, what, i, v=1):
        self.m[what * self.n + i] = v


BEGUN, FREE, ENDED = 0, 1, 2


def subject(job, board, w):
    """In a process of its own: call parallel_map and report."""
    import gc
    from cgpm.utils.parallel_map import parallel_map
    N = job['N']
    fault = job['fault']
    log_r, log_w = os.pipe()

    def f(x):
        i = x[0] if isinstance(x, tuple) else x
        i = int(i)
        os.write(log_w, struct.pack('<i', i))
        board.set(BEGUN, i)
        if job['gated']:
            while not board.get(FREE, i):
                time.sleep(.0005)
        elif job['naps']:
            time.sleep(job['naps'][i])
        board.set(ENDED, i)
        return produce(fault[i], i, value(job, i))
    items = job_items(job)
    before = fds()
    res = {}
    try:
        if job['W'] is None:
            got = parallel_map(f, items)
        else:
            got = parallel_map(f, items, parallelism=job['W'])
        res['outcome'] = 'returned'
    except Exception as e:      # pylint: disable=broad-except
        res['outcome'] = 'raised'
        res['error'] = repr(e)[-200:]
        got = None
        res['kids'] = kids()
        e = None
    else:
        res['kids'] = kids()
    gc.collect()
    after = fds()
    res['fds'] = sorted('%s %s' % x for x in after.items() if x[0] not in before)
    res['lost'] = sorted('%s %s' % x for x in before.items() if x[0] not in after)
    want = [value(job, i) for i in range(N)]
    res['same'] = got is not None and type(got) is list and len(got) == len(want) and \
        all(same(a, b) for a, b in zip(got, want))
    if got is not None and not res['same']:
        res['got'] = repr(got)[:300]
    os.close(log_w)
    data = b''
    for p in res['kids']:
        os.kill(p, signal.SIGKILL)
    while select.select([log_r], [], [], .5)[0]:
        chunk = os.read(log_r, 1 << 16)
        if not chunk:
            break
        data += chunk
    log = [x[0] for x in struct.iter_unpack('<i', data)]
    res['counts'] = [log.count(i) for i in range(N)]
    os.write(w, json.dumps(res).encode())


def job_items(job):
    N = job['N']
    form = job.get('form', 'list')
    if form == 'tuple':
        return tuple(range(N))
    if form == 'array':
        return np.arange(N)
    if form == 'pairs':
        return [(i, [i] * 3) for i in range(N)]
    return list(range(N))


def value(job, i):
    kind = job.get('values', 'plain')
    if kind == 'falsy':
        return [None, 0, '', [], False, float('nan'), {}][i % 7]
    if kind == 'big':
        return np.full(40000 + 1000 * i, i, dtype=float)
    if kind == 'mixed':
        return [(i, 'x' * 70000), {'i': i}, ValueError('value %d' % i), [None] * i][i % 4]
    if kind == 'equal':
        return 7
    return i * i + 1


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and bool((a == b).all())
    if isinstance(a, BaseException):
        return a.args == b.args
    if isinstance(a, float) and a != a:
        return b != b
    return a == b


def direct(job, board):
    """Release the evaluations in the order of the schedule."""
    done = [False]

    def loop(alive):
        for i in job['release']:
            t0 = time.time()
            while not board.get(BEGUN, i):
                if not alive() or time.time() - t0 > job['grace']:
                    break
                time.sleep(.0005)
            if not board.get(BEGUN, i):
                break              # another assignment of items to workers
            board.set(FREE, i)
            t0 = time.time()
            while not board.get(ENDED, i) and alive() and time.time() - t0 < 5:
                time.sleep(.0005)
            time.sleep(.002)
        else:
            done[0] = True
        # Evaluations under way when the schedule is over are cut short by a
        # failing call; one that waits for them is free to.
        t0 = time.time()
        while any(job['fault'][i] != 'ok' for i in job['release']) and alive() and time.time() - t0 < .4:
            time.sleep(.002)
        for i in range(job['N']):
            board.set(FREE, i)
        return done[0]
    return loop


def play(job):
    board = Board(job['N'])
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 2)
            os.close(null)
            subject(job, board, w)
        finally:
            os._exit(0)
    os.close(w)

    def alive():
        return not select.select([r], [], [], 0)[0]
    realised = direct(job, board)(alive) if job['gated'] else True
    data = b''
    t0 = time.time()
    while True:
        left = HANG - (time.time() - t0)
        if left <= 0 or not select.select([r], [], [], left)[0]:
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        data += chunk
        try:
            json.loads(data.decode())
            break
        except ValueError:
            pass
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    out = json.loads(data.decode()) if data else {'outcome': 'hung'}
    out['realised'] = realised
    return out


def play_all(jobs):
    res = []
    hung = 0
    for j in jobs:
        if hung >= 2:
            res.append(None)
            continue
        o = play(j)
        hung += o['outcome'] == 'hung'
        res.append(o)
    return res


def judge(c, j, o):
    if o is None:
        return
    faulty = any(k != 'ok' for k in j['fault'])
    what = None
    if o['outcome'] == 'hung':
        what = ('hang', 'the call does not end')
    elif faulty and o['outcome'] == 'returned':
        what = ('swallowed-failure', 'the call returned %r' % (o.get('got'),))
    elif not faulty and o['outcome'] == 'raised':
        what = ('spurious-failure', 'the call raised %s' % (o.get('error'),))
    elif o['outcome'] == 'returned' and not o['same']:
        what = ('wrong-result', 'the call returned %s' % (o.get('got'),))
    elif max(o['counts'] or [0]) > 1 or (o['outcome'] == 'returned' and min(o['counts'] or [1]) < 1):
        what = ('evaluations', 'evaluations per item: %r' % (o['counts'],))
    elif o['kids']:
        what = ('workers-left', '%d workers still run after the call' % len(o['kids']))
    elif o['fds']:
        what = ('pipes-left', 'descriptors left open: %r' % (o['fds'],))
    elif o['lost']:
        what = ('descriptors-lost', 'descriptors closed: %r' % (o['lost'],))
    c.add('comparisons', 5)
    if what:
        c.violation(what[0], '%s (%d items, %s workers, faults %r)' % (
            what[1], j['N'], j['W'], {i: k for i, k in enumerate(j['fault']) if k != 'ok'}), j)


def random_job(rng, i):
    N = int(rng.choice([0, 1, 2, 3, 5, 8, 13, 40, 120]))
    W = [None, 1, 2, 3, 4, 7, 16][rng.randint(7)]
    fault = ['ok'] * N
    if rng.rand() < .4 and N:
        for _ in range(int(rng.choice([1, 1, 2, 3]))):
            fault[rng.randint(N)] = str(rng.choice(['raise', 'unsendable', 'die', 'vanish', 'poison', 'exit']))
    naps = [] if rng.rand() < .4 else [float(x) for x in rng.choice([0, 0, .001, .01, .03], N)]
    return {'N': N, 'W': W, 'fault': fault, 'naps': naps, 'gated': False, 'grace': 0,
            'form': str(rng.choice(['list', 'list', 'tuple', 'array', 'pairs'])), 'release': [],
            'values': str(rng.choice(['plain', 'plain', 'falsy', 'big', 'mixed', 'equal']))}


def arguments(_):
    """Degrees of parallelism that cannot work are refused, not ignored."""
    from cgpm.utils.parallel_map import parallel_map
    out = []
    for w in (0, -1):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                got = parallel_map(lambda x: x + 1, [1, 2], parallelism=w)
                os.write(wr, b'r' if got == [2, 3] else b'w')
            except Exception:       # pylint: disable=broad-except
                os.write(wr, b'e')
            finally:
                os._exit(0)
        os.close(wr)
        ok = select.select([r], [], [], 20)[0]
        out.append(os.read(r, 1).decode() if ok else 'h')
        for k in (os.killpg, os.kill):
            try:
                k(pid, signal.SIGKILL)
            except OSError:
                pass
        os.waitpid(pid, 0)
        os.close(r)
    return out


def run(c):
    py2load.install()
    import cgpm.utils.parallel_map      # noqa: F401  pylint: disable=unused-import
    scheds = schedules(c)
    c.cov['schedules'] = len(scheds)
    rng = np.random.RandomState(14000 + c.seed)
    cap = c.pick(700, 6000)
    if len(scheds) > cap:
        scheds = [scheds[i] for i in sorted(rng.permutation(len(scheds))[:cap])]
    jobs = [{'N': s['N'], 'W': s['W'], 'fault': s['fault'], 'gated': True, 'naps': [],
             'release': [i - 1 for i in s['order']], 'grace': .3, 'outcome': s['outcome']} for s in scheds]
    for s in scheds:
        assert (s['outcome'] == 'returned') == all(k == 'ok' for k in s['fault'])
    jobs += [random_job(rng, i) for i in range(c.pick(250, 3000))]
    order = rng.permutation(len(jobs))
    chunks = [[jobs[i] for i in order[k::16]] for k in range(16)]
    realised = 0
    for js, os_ in zip(chunks, harness.pmap(play_all, chunks)):
        for j, o in zip(js, os_):
            judge(c, j, o)
            if o is not None:
                c.traces()
                realised += bool(o['realised'] and j['gated'])
    c.cov['schedules_realised_exactly'] = realised
    for got in harness.pmap(arguments, [0])[0]:
        if got in 'wh':
            c.violation('degree', 'parallelism below 1: %s' % {'w': 'wrong result', 'h': 'the call does not end'}[got])
    c.cov['distinct_nontrivial'] = len(jobs)
    c.cov['rule'] = 'one schedule or random run replayed per count'
    c.sample({'schedule': scheds[len(scheds) // 2]})
    c.assumptions.append('a worker killed while part of a large message is in the pipe is not injected')
