"""Common frame of all checks: seeds, budgets, verdict lines, evidence."""

import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known_findings.json')
REPLAYS = os.path.join(ROOT, 'replays')


def load_known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return json.load(f)


class Check(object):
    def __init__(self, pid, tier=None, level='model_checking'):
        self.pid = pid
        self.tier = tier or os.environ.get('VERIF_TIER') or 'quick'
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED') or 1)
        self.level = level
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0,
                    'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.violations = []
        self.known = [k for k in load_known()
                      if k['property'] == pid and k['status'] == 'finding']
        self.known_hit = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def elapsed(self):
        return time.time() - self.t0

    # ---- coverage
    def tlc(self, res):
        for r in (res if isinstance(res, (list, tuple)) else [res]):
            self.cov['states'] += r.distinct
            self.cov['transitions'] += r.states

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def traces(self, n=1):
        self.cov['traces_validated_against_impl'] += n

    def sample(self, s, limit=6):
        if len(self.cov['samples']) < limit:
            self.cov['samples'].append(s)

    # ---- verdicts
    def violation(self, key, what, replay=None):
        """`key` names the failing clause and input class, stably."""
        for k in self.known:
            if key in k['keys']:
                self.known_hit.setdefault(k['id'], what)
                return
        n = len(self.violations)
        if n < 25:
            self.violations.append((key, what))
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, '%s_%d.json' % (self.pid, n))
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'key': key, 'what': what,
                           'seed': self.seed, 'tier': self.tier,
                           'replay': replay}, f, indent=1, default=repr)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  [%s] %s' % (key, what))
            sys.stdout.flush()
        else:
            self.violations.append((key, what))

    def finish(self):
        for kid, what in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, kid, what))
        os.makedirs(EVID, exist_ok=True)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': self.level, 'coverage': self.cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        print('%s %s: %d violations, %.1fs' % (
            self.pid, self.tier, len(self.violations), ev['wall_s']))
        sys.stdout.flush()
        return 1 if self.violations else 0


class RepoError(Exception):
    """An exception raised by the code under test where none is allowed."""


def from_repo(exc):
    """Does the traceback pass through the code under test?"""
    import py2load
    if isinstance(exc, RepoError):
        return True
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(py2load.SRC):
            return True
        tb = tb.tb_next
    if exc.__cause__ is not None and from_repo(exc.__cause__):
        return True
    return False


def _child(fn, item, w):
    try:
        r = ('ok', fn(item))
    except BaseException as e:      # pylint: disable=broad-except
        r = ('err', (from_repo(e), '%s: %s' % (type(e).__name__, e),
                     traceback.format_exc()))
    import pickle
    data = pickle.dumps(r)
    with os.fdopen(w, 'wb') as f:
        f.write(data)


def pmap(fn, items, jobs=None, timeout=700):
    """fn over items in forked children, results in order; exceptions of the
    code under test come back as RepoError."""
    import pickle
    import selectors
    items = list(items)
    jobs = jobs or min(8, os.cpu_count() or 1)
    out = [None] * len(items)
    sel = selectors.DefaultSelector()
    live = {}
    nxt = 0
    sys.stdout.flush()
    sys.stderr.flush()
    deadline = time.time() + timeout
    while nxt < len(items) or live:
        while nxt < len(items) and len(live) < jobs:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    for (r2, _p, _b) in live.values():
                        os.close(r2)
                    _child(fn, items[nxt], w)
                except BaseException:
                    code = 1
                finally:
                    sys.stdout.flush()
                    os._exit(code)
            os.close(w)
            live[nxt] = (r, pid, [])
            sel.register(r, selectors.EVENT_READ, nxt)
            nxt += 1
        for key, _m in sel.select(timeout=5):
            i = key.data
            r, pid, buf = live[i]
            chunk = os.read(r, 1 << 20)
            if chunk:
                buf.append(chunk)
                continue
            sel.unregister(r)
            os.close(r)
            os.waitpid(pid, 0)
            del live[i]
            if not buf:
                raise RuntimeError('worker %d died' % i)
            out[i] = pickle.loads(b''.join(buf))
        if time.time() > deadline:
            for (_r, pid, _b) in live.values():
                os.kill(pid, 9)
            raise RuntimeError('pmap timeout')
    res = []
    for o in out:
        if o[0] == 'err':
            repo, msg, tb = o[1]
            if repo:
                raise RepoError(msg + '\n' + tb)
            raise RuntimeError(msg + '\n' + tb)
        res.append(o[1])
    return res


def main(argv):
    sys.path.insert(0, os.path.join(ROOT, 'lib'))
    sys.path.insert(0, os.path.join(ROOT, 'checks'))
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else None
    c = Check(pid, tier)
    os.environ['VERIF_TIER'] = c.tier
    mod = __import__(pid.lower())
    try:
        mod.run(c)
    except Exception as e:      # pylint: disable=broad-except
        traceback.print_exc()
        if from_repo(e):
            c.violation('%s:crash' % pid, 'the code under test raised where '
                        'the specification allows no exception: %s: %s' % (
                            type(e).__name__, str(e)[:300]),
                        traceback.format_exc())
            return c.finish()
        if c.violations:
            return c.finish()
        return 3
    return c.finish()
