"""C21 Results depend only on inputs and seed.

Oracle: Streams.tla (an answer is a function of the key - arguments and seed -
and of the model's own history; requests leave the process-wide generators
alone; no draw is handed out twice).  TLC draws the schedules: three models of
one process, two of them with the same key, interleaved with each other and
with uses of the process-wide generators.  The logs of the real process, and of
a second process that runs the first model alone, are judged by TLC."""

import json
import math
import os
import random
import subprocess
import sys
import tempfile

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [p for p in (HERE, os.path.join(os.path.dirname(HERE), 'lib')) if p not in sys.path]

import c13
import cchist
import cctrace
import comps
import extern
import harness
import py2load
import tlc

DESIGNS = [('shared', 'Same'), ('global', 'Same'), ('global', 'Untouched'), ('from-global', 'Same'),
           ('reseeds', 'Fresh'), ('remembers', 'Fresh'), ('equal-seeds', 'Fresh'), ('resets', 'Untouched')]


def theorems(c):
    def go(design, inv, n):
        return tlc.run('MCStreams', 'SPECIFICATION Spec\nINVARIANT %s\nCONSTANTS Design="%s" L=%d\n'
                       'CHECK_DEADLOCK FALSE\n' % (inv, design, n), workers=4, timeout=800)
    r = go('own', 'Last', c.pick(2, 3))
    if not r.ok:
        raise tlc.TLCError(r.out[-3000:])
    c.tlc(r)
    for design, inv in c.pick([DESIGNS[c.seed % len(DESIGNS)]], DESIGNS):
        r = go(design, inv, 3)
        if r.violated != inv:
            raise tlc.TLCError('%s is not told apart by %s\n%s' % (design, inv, r.out[-3000:]))
        c.tlc(r)
        c.add('designs_told_apart')


def schedules(c, length, num):
    """Orders of the three models' requests and of disturbances (0)."""
    with tempfile.TemporaryDirectory(prefix='streams_') as work:
        path = os.path.join(work, 'edges')
        r = tlc.run('MCStreams', 'SPECIFICATION Spec\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
                    'CONSTANTS Design="own" L=%d\n' % length, workers=1, timeout=600, env={'EDGES': path},
                    extra=['-simulate', 'num=%d' % num, '-seed', str(c.seed), '-depth', str(3 * length + 4)])
        if 'Error' in r.out:
            raise tlc.TLCError(r.out[-3000:])
        out = set()
        with open(path) as f:
            for ln in f:
                h = json.loads(ln)
                out.add(tuple(json.loads(h) if isinstance(h, str) else h))
        return [list(x) for x in sorted(out)]


# ---------------------------------------------------------------- what is said
def canon(x):
    """A text that tells results apart to the last bit."""
    if isinstance(x, dict):
        return '{%s}' % ','.join(sorted('%s:%s' % (canon(k), canon(v)) for k, v in x.items()))
    if isinstance(x, np.ndarray):
        return canon(x.tolist())
    if isinstance(x, (list, tuple)):
        return '[%s]' % ','.join(canon(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return 'set[%s]' % ','.join(sorted(canon(v) for v in x))
    if x is None or isinstance(x, (bool, np.bool_, str, bytes)):
        return repr(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        x = float(x)
        return 'nan' if x != x else x.hex()
    return type(x).__name__


def answer(fn, *a, **k):
    """(text of the result or of the refusal, the result)"""
    try:
        r = cctrace.quiet(fn, *a, **k)
    except Exception as e:      # pylint: disable=broad-except
        if not harness.from_repo(e):
            raise
        return 'refused ' + type(e).__name__, None
    return canon(r), r


def numbers(x):
    """The floats in a result of simulate."""
    if isinstance(x, dict):
        return [float(v) for v in x.values()]
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in numbers(y)]
    return []


def usable(xs):
    """A continuous draw that did not run into the limits of the floats."""
    return [x for x in xs if math.isfinite(x) and 1e-100 < abs(x) < 1e100]


def varied(s, defs):
    """Columns of continuous type whose data varies."""
    out = []
    for d in s.dims():
        xs = [x for x in s.X[d.index] if not math.isnan(x)]
        if d.cctype in ('normal', 'exponential', 'lognormal') and len(set(xs)) > 1:
            out.append(int(d.index))
    return sorted(out)


class Said(cctrace.Recorder):
    """A Recorder that keeps the results; no two loads with equal seeds."""
    def reload_rng(self):
        return np.random.RandomState(self.loads.randint(2 ** 31))

    def do(self, o, fn, *a, **k):
        ok, res = cctrace.Recorder.do(self, o, fn, *a, **k)
        self.said.append('%s %s %s' % (json.dumps(o, sort_keys=True, default=repr), ok, canon(res) if ok else ''))
        return ok, res


# ---------------------------------------------------------------- systems
def loads(spec):
    """The seed of the seeds of loaded models: one per key."""
    return (spec['seed'] * 31 + spec['reseed'] * 7919 + 5) % 2 ** 31


class StateSys(object):
    """A crosscat model and a random history of requests, valid and not."""
    W = {'incorporate': 2, 'unincorporate': 1, 'force_cell': 1, 'incorporate_dim': 1.5, 'unincorporate_dim': .7,
         'update_cctype': .7, 'transition': 4, 'direct': 2, 'query': 6, 'reload': .7, 'invalid': .5}

    def __init__(self, spec):
        self.spec = spec
        self.r = None

    def step(self):
        spec = self.spec
        fresh = []
        if self.r is None:
            rng = np.random.RandomState(spec['seed'])
            cd = ci = None
            m = int(rng.randint(2, 6))
            if spec.get('constrained'):
                cd, ci = cchist.constraints(rng, list(range(m)))
            types = cchist.ALLT if rng.rand() < .5 else comps.COLUMN_TYPES + ['normal'] * 8
            self.r = r = cchist.start(rng, types, n=int(rng.randint(3, 7)), m=m, cd=cd, ci=ci,
                                      given=False if rng.rand() < .6 else None, reseed=spec['reseed'])
            r.__class__ = Said
            r.said = []
            r.loads = np.random.RandomState(loads(spec))
            self.rng = np.random.RandomState(spec['script'])
            self.d = cchist.Driver(r, self.rng, types)
            r.said.append('build')
        else:
            r = self.r
            r.said = []
            if r.s is not None:
                before = len(r.steps)
                self.d.run(1, self.W)
                r.said.append(json.dumps([s['ok'] for s in r.steps[before:]]))
        if r.s is None:
            return 'gone', 'gone', []
        cont = varied(r.s, r.defs)
        if cont and self.rng.rand() < .6:
            c = cont[self.rng.randint(len(cont))]
            text, x = answer(r.s.simulate, -1, [c], None, None, 3)
            r.said.append(text)
            fresh = numbers(x)
            if self.rng.rand() < .5:
                text, x = answer(r.s.simulate_bulk, [-1, -1], [[c], [c]], Ns=[2, 1])
                r.said.append(text)
                fresh = fresh + numbers(x)
        return 'request', canon([r.said, r.s.to_metadata()]), usable(fresh)


class EngineSys(object):
    """An ensemble; the twins' ensembles may differ in how they spread work."""
    def __init__(self, spec):
        self.spec = spec
        self.e = None
        self.hooked = None

    def compose(self, mp):
        """(variable, the column it reads, a value of that column)"""
        from cgpm.regressions.linreg import LinearRegression
        e, rng = self.e, self.rng
        cols = [int(c) for c in e.states[0].outputs if self.defs[c]['type'] == 'normal']
        if not cols:
            return None
        col, out = cols[0], 500
        lr = LinearRegression([out], [col], distargs={'inputs': {'stattypes': ['numerical'], 'statargs': [{}]}},
                              rng=np.random.RandomState(1))
        for r in range(4):
            lr.incorporate(r, {out: float(rng.randint(-9, 9)) / 2}, {col: float(rng.randint(-9, 9)) / 4})
        e.compose_cgpm([lr] * e.num_states(), multiprocess=mp)
        return out, col, float(rng.randint(-9, 9)) / 4

    def step(self):
        from cgpm.crosscat.engine import Engine
        spec = self.spec
        mp = spec['mp']
        if self.e is None:
            rng = np.random.RandomState(spec['seed'])
            n, m = int(rng.randint(3, 6)), int(rng.randint(2, 5))
            self.defs = {i: cchist.newcol(rng, i, cchist.FAST if i else ['normal']) for i in range(m)}
            rows = [list(r) for r in zip(*[cchist.column(self.defs[i], rng, n) for i in range(m)])]
            seed = (int(rng.randint(2 ** 31)) + spec['reseed']) % 2 ** 31
            self.e = cctrace.quiet(
                Engine, np.array(rows), num_states=3, rng=np.random.RandomState(seed), multiprocess=mp,
                cctypes=[self.defs[i]['type'] for i in range(m)],
                distargs=[comps.distargs(self.defs[i]) or None for i in range(m)])
            self.rng = np.random.RandomState(spec['script'])
            self.loads = np.random.RandomState(loads(spec))
            self.maker = c13.Maker(self.defs, self.rng, True)
            return 'build', canon(self.e.to_metadata()), []
        e, rng = self.e, self.rng
        kind = ['query', 'draw', 'draw', 'update', 'update', 'data', 'reload', 'add'][rng.randint(8)]
        if self.hooked is None and rng.rand() < .15:
            kind = 'compose'
        if self.hooked is not None:     # the models that read the ensemble's columns draw too
            kind = ['hooked', 'hooked', 'reload', 'transition'][rng.randint(4)]
        fresh = []
        if kind == 'reload':
            meta = e.to_metadata()
            self.e = e = Engine.from_metadata(meta, rng=np.random.RandomState(self.loads.randint(2 ** 31)),
                                              multiprocess=mp)
            req, text = 'reload', ''
        elif kind == 'compose':
            req = 'compose'
            text, self.hooked = '', self.compose(mp)
        elif kind == 'hooked':
            req = 'hooked'
            out, col, x = self.hooked
            text, r = answer(e.simulate, -1, [out], {col: x}, N=2, multiprocess=mp)
            fresh = numbers(r)
        elif kind == 'transition':
            req = kind
            text, _ = answer(e.transition, N=1, multiprocess=mp)
        elif kind == 'add':
            req = 'add'
            text, _ = answer(e.add_state, multiprocess=mp) if e.num_states() < 5 else ('', None)
        else:
            method, a = getattr(self.maker, kind)(e.states[0], False, *([e.num_states()] if kind == 'data' else []))
            req = '%s %r' % (method, sorted(a)) if method == 'alter' else '%s %s' % (method, canon(a))
            text, _ = answer(getattr(e, method), multiprocess=mp, **c13.copyargs(method, a))
        cont = varied(e.states[0], self.defs)
        if cont and rng.rand() < .7:
            c = cont[rng.randint(len(cont))]
            t, x = answer(e.simulate, -1, [c], N=2, multiprocess=mp)
            text += t
            fresh = fresh + numbers(x)
        return req, canon([text, e.to_metadata()]), usable(fresh)


class ExternSys(object):
    """A model that is not crosscat and a history of requests."""
    def __init__(self, spec):
        self.spec = spec
        self.m = None

    def said(self):
        return answer(self.m.to_metadata)[0]

    def fresh(self):
        g = self.g
        if g['kind'] == 'linreg':
            return True
        if g['kind'] == 'kde':
            return not g['par']['default'] and all(t == 'num' for t in g['types'])
        return False

    def step(self):
        spec = self.spec
        if self.m is None:
            rng = np.random.RandomState(spec['seed'])
            self.g = extern.model(rng, extern.KINDS[rng.randint(len(extern.KINDS))])
            self.ops = extern.history(rng, self.g, 40, reload=True)
            self.m = extern.build(self.g, np.random.RandomState((spec['seed'] + spec['reseed']) % 2 ** 31))
            self.rng = np.random.RandomState(spec['script'])
            self.seen = set()
            self.loads = np.random.RandomState(loads(spec))
            self.held = spec['seed'] % 5
            return 'build ' + self.g['kind'], self.said(), []
        g, k, fresh = self.g, None, []
        text = []
        for _ in range(1 + self.held):
            if not self.ops:
                break
            o = self.ops.pop(0)
            k = o['k']
            d = extern.asdict
            if k == 'inc':
                self.seen.add(o['id'])
                t, _ = answer(self.m.incorporate, o['id'], d(o['x']), d(o['y']) if g['ins'] else None)
            elif k == 'uninc':
                t, _ = answer(self.m.unincorporate, o['id'])
            elif k == 'fit':
                t, _ = answer(self.m.transition)
            elif k in ('score', 'counts'):
                t, _ = answer(self.m.logpdf_score)
            elif k == 'reload':
                t, x = answer(extern.reload, self.m, np.random.RandomState(self.loads.randint(2 ** 31)), False)
                self.m = x[0] if x else self.m
                t = 'reload'
            elif k == 'logpdf':
                t, _ = answer(self.m.logpdf, o['id'], d(o['t']), d(o['c']) or None, d(o['y']) if g['ins'] else None)
            else:
                n = [None, 1, 4][self.rng.randint(3)]
                t, x = answer(self.m.simulate, o['id'], list(o['ts']), d(o['c']) or None,
                              d(o['y']) if g['ins'] else None, n)
                if self.fresh() and not o['c'] and o['id'] not in self.seen:
                    fresh += numbers(x)
            text.append(t)
        return str(k), canon([text, self.said()]), usable(fresh)


class NetSys(object):
    """A crosscat model with conditional columns and composed models."""
    def __init__(self, spec):
        self.spec = spec
        self.s = None

    def build(self):
        from cgpm.crosscat.state import State
        from cgpm.regressions.linreg import LinearRegression
        from cgpm.regressions.forest import RandomForest
        spec = self.spec
        rng = np.random.RandomState(spec['seed'])
        n = 8
        x = rng.randint(-12, 12, n) / 4.
        k = rng.randint(0, 3, n).astype(float)
        k[:3] = 0., 1., 2.
        y = x * 2 + k + rng.randint(-4, 4, n) / 4.
        u = rng.randint(0, 2, n).astype(float)
        self.s = s = State(np.array([x, k, y, u]).T, cctypes=['normal', 'categorical', 'normal', 'bernoulli'],
                           distargs=[None, {'k': 3}, None, None], Zv={0: 0, 1: 0, 2: 0, 3: 0},
                           rng=np.random.RandomState((spec['seed'] + spec['reseed']) % 2 ** 31))
        z = rng.randint(3)
        if z == 0:
            s.update_cctype(2, 'linear_regression')
        elif z == 1:
            s.update_cctype(1, 'random_forest', distargs={'k': 3})
        self.cond = z < 2
        lr = LinearRegression([100], [0, 1], distargs={'inputs': {
            'stattypes': ['numerical', 'categorical'], 'statargs': [{}, {'k': 3}]}}, rng=s.rng)
        rf = RandomForest([101], [100, 3], distargs={'k': 2, 'inputs': {
            'stattypes': ['numerical', 'categorical'], 'statargs': [{}, {'k': 2}]}}, rng=s.rng)
        for i in range(n):
            lr.incorporate(i, {100: float(rng.randint(-9, 9)) / 2}, {0: x[i], 1: k[i]})
            rf.incorporate(i, {101: int(rng.randint(2))}, {100: float(rng.randint(-9, 9)) / 2, 3: int(u[i])})
        rf.transition()
        s.compose_cgpm(lr)
        s.compose_cgpm(rf)
        self.rng = np.random.RandomState(spec['script'])
        self.loads = np.random.RandomState(loads(spec))
        return 'build'

    def step(self):
        if self.s is None:
            text = self.build()
            return 'build', canon([text, said(self.s)]), []
        s, rng = self.s, self.rng
        fresh = []
        kind = rng.randint(11)
        vals = {0: .25, 1: 1., 2: -.5, 3: 1., 100: 1.5, 101: 1}
        vs = [int(v) for v in rng.permutation(sorted(vals))]
        q = int(rng.randint(1, 4))
        t, e = vs[:q], {v: vals[v] for v in vs[q:q + int(rng.randint(0, 3))]}
        if kind == 0:
            text, _ = answer(s.logpdf, -1, {v: vals[v] for v in t}, e or None, accuracy=3)
        elif kind == 1:
            text, _ = answer(s.simulate, -1, t, e or None, N=[None, 2][rng.randint(2)], accuracy=2)
        elif kind == 2:
            t = [0, 100]
            text, x = answer(s.simulate, -1, t, None, N=3, accuracy=1)
            fresh = numbers(x)
        elif kind == 3:
            text, _ = answer(s.logpdf_bulk, [-1, -1], [{v: vals[v] for v in t}] * 2, [e, None])
        elif kind == 4:
            text, _ = answer(s.mutual_information, [vs[0]], [vs[1]], None, 2, 3)
        elif kind == 5:
            text, _ = answer(s.transition_foreign, N=1, progress=False)
        elif kind == 6:
            n = s.n_rows()
            text, _ = answer(s.incorporate, n, {0: float(rng.randint(-9, 9)) / 4, 1: float(rng.randint(3)),
                                                2: float(rng.randint(-9, 9)) / 4})
        elif kind == 7:
            text, _ = answer(s.unincorporate, s.n_rows() - 1)
        elif kind == 8 and self.spec.get('reload', True) and rng.rand() < .5:
            from cgpm.crosscat.state import State
            self.s = s = State.from_metadata(s.to_metadata(), rng=np.random.RandomState(self.loads.randint(2 ** 31)))
            text = 'reload'
        else:
            ks = cchist.subset(rng, [x for x in cchist.KERNELS if x != 'columns'], 1)
            text, _ = answer(s.transition, N=1, kernels=ks, progress=False)
        return 'request %d' % kind, canon([text, said(s)]), usable(fresh)


def said(s):
    """What the model says about itself, fitted forests aside."""
    m = s.to_metadata()
    return [canon({k: v for k, v in m.items() if k != 'hooked_cgpms'}), float(s.logpdf_score()).hex()]


SYSTEMS = {'state': StateSys, 'engine': EngineSys, 'extern': ExternSys, 'net': NetSys}


# ---------------------------------------------------------------- running
def globally():
    a = np.random.get_state()
    return '%s %d %s' % (hash(a[1].tobytes()), a[2], a[3:]) + str(hash(random.getstate()))


def disturb(i):
    if i % 3 == 0:
        np.random.seed(i)
        random.seed(i)
    elif i % 3 == 1:
        np.random.rand(3)
        random.random()
    else:
        np.random.seed()
        random.seed()


class Ids(object):
    def __init__(self):
        self.d = {}

    def __call__(self, x):
        return self.d.setdefault(x, len(self.d) + 1)


def play(job):
    """The log of one process, texts instead of numbers."""
    models = [SYSTEMS[sp['kind']](sp) if sp else None for sp in job['specs']]
    log = []
    for i, m in enumerate(job['order']):
        g0 = globally()
        if m == 0:
            disturb(job['dist'] + i)
            log.append({'op': 0, 'm': 0, 'key': 0, 'req': '', 'ans': '', 'g0': g0, 'g1': globally(), 'fresh': []})
            continue
        req, ans, fresh = models[m - 1].step()
        log.append({'op': 1, 'm': m, 'key': job['keys'][m - 1], 'req': req, 'ans': ans, 'g0': g0, 'g1': globally(),
                    'fresh': [x.hex() for x in fresh]})
    return log


def numbered(logs):
    """One log of numbers from those of several processes."""
    req, ans, fr = Ids(), Ids(), Ids()
    out = []
    for k, log in enumerate(logs):
        gl = Ids()
        for e in log:
            out.append(dict(e, m=e['m'] + 10 * k if e['op'] else 0, req=req(e['req']), ans=ans(e['ans']),
                            g0=gl(e['g0']) + 1000 * k, g1=gl(e['g1']) + 1000 * k, fresh=[fr(x) for x in e['fresh']]))
    return out


def alone(job):
    """The first model's part of a job."""
    n = job['order'].count(1)
    return dict(job, specs=[job['specs'][0]], order=[1] * n)


def elsewhere(jobs):
    """The jobs in another process: other hash seed, other start, other order."""
    with tempfile.TemporaryDirectory(prefix='streams_') as work:
        a, b = os.path.join(work, 'jobs'), os.path.join(work, 'logs')
        with open(a, 'w') as f:
            json.dump(jobs, f)
        env = dict(os.environ, PYTHONHASHSEED='77')
        p = subprocess.run([sys.executable, os.path.abspath(__file__), a, b], env=env, timeout=600,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise RuntimeError('the second process failed:\n' + p.stdout.decode('utf8', 'replace')[-3000:])
        with open(b) as f:
            return json.load(f)


def chunk(jobs):
    return [play(j) for j in jobs]


def spread(jobs, seed=7):
    np.random.seed(seed)
    random.seed(seed)
    parts = [jobs[i::24] for i in range(24)]
    got = harness.pmap(chunk, parts)
    out = [None] * len(jobs)
    for i, g in enumerate(got):
        out[i::24] = g
    return out


def plan(c, rng, orders):
    kinds = [k for k, n in c.pick([('state', 90), ('engine', 24), ('extern', 60), ('net', 16)],
                                  [('state', 900), ('engine', 160), ('extern', 600), ('net', 100)]) for _ in range(n)]
    jobs = []
    for i, kind in enumerate(kinds):
        one = {'kind': kind, 'seed': int(rng.randint(2 ** 30)), 'script': int(rng.randint(2 ** 30)), 'reseed': 0,
               'constrained': i % 4 == 0, 'mp': 0}
        two = dict(one, mp=i % 3 == 0)
        # the third: only the seed differs, or everything
        three = dict(one, reseed=1000 + i) if i % 2 else dict(one, seed=one['seed'] + 1, script=one['script'] + 1)
        if kind == 'extern' and i % 2:
            three = dict(one, reseed=1000 + i)
        jobs.append({'specs': [one, two, three], 'keys': [1, 1, 2], 'order': orders[i % len(orders)], 'dist': i})
    return jobs


def run(c):
    py2load.install()
    theorems(c)
    rng = np.random.RandomState(2100 + c.seed)
    orders = schedules(c, c.pick(7, 12), 150)
    jobs = plan(c, rng, orders)
    logs = spread(jobs)
    again = elsewhere([alone(j) for j in jobs])
    both = [numbered([a, b]) for a, b in zip(logs, again)]
    ans, rs = tlc.batch('StreamsTrace', both, jobs=8, min_chunk=10)
    c.tlc(rs)
    for j, log, num, verdict in zip(jobs, logs, both, ans):
        kind = j['specs'][0]['kind']
        c.traces()
        c.add('events_' + kind, len(num))
        c.add('draws_' + kind, sum(len(e['fresh']) for e in num))
        for i, bad in enumerate(verdict):
            if not bad:
                continue
            e = num[i]
            where = 'model %d%s, step %d of %s (%s)' % (
                e['m'] % 10, ' alone in another process' if e['m'] > 10 else '',
                sum(x['m'] == e['m'] for x in num[:i]), kind, (log[i]['req'] if i < len(log) else 'same request')[:120])
            key = '%s:%s%s' % (kind, '+'.join(sorted(bad)), ':process' if e['m'] > 10 else '')
            c.violation(key, {'same': 'the answer differs between equal models of equal history',
                              'untouched': 'a request moves the process-wide generators',
                              'fresh': 'a draw is handed out twice'}[sorted(bad)[0]] + ': ' + where,
                        {'job': j, 'event': i})
            break
    c.cov['distinct_nontrivial'] = int(sum(len(x) for x in both))
    c.cov['rule'] = 'one judged event per count'
    c.sample({'order': jobs[0]['order'], 'answers': [e['ans'] for e in both[0]]})


if __name__ == '__main__':
    py2load.install()
    with open(sys.argv[1]) as fin:
        todo = json.load(fin)
    with open(sys.argv[2], 'w') as fout:
        json.dump(spread(todo, 99), fout)
