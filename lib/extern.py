"""Histories of the models that are not crosscat: generation, execution on the
real code, comparison with what External.tla answers."""

import copy
import json
import math

import numpy as np
from scipy import stats

import expr
import harness
import vstats

NA = -99999
TOL = 1e-7


class Reference(object):
    """A classifier: frequencies among the fitted rows with equal inputs."""

    def __init__(self):
        self.rows = None

    def fit(self, Y, X):
        self.rows = [(tuple(float(v) for v in y), int(x)) for y, x in zip(Y, X)]
        self.classes_ = np.asarray(sorted(set(x for _y, x in self.rows)))
        return self

    def predict_proba(self, Y):
        out = []
        for y in Y:
            y = tuple(float(v) for v in y)
            rows = [x for z, x in self.rows if z == y] or [x for _z, x in self.rows]
            out.append([rows.count(c) / float(len(rows)) for c in self.classes_])
        return np.asarray(out)

    def predict_log_proba(self, Y):
        with np.errstate(divide='ignore'):
            return np.log(self.predict_proba(Y))


# ---------------------------------------------------------------- generation
def q(n, d=1):
    return ['q', int(n), int(d)]


def pick(rng, xs):
    return xs[rng.randint(len(xs))]


def ids(rng, n):
    return [int(x) for x in rng.choice(np.arange(0, 40), n, replace=False)]


KINDS = ['kde', 'knn', 'linreg', 'ols', 'forest', 'factor', 'twoway', 'fourway',
         'troll', 'piece', 'bare', 'dots', 'corr', 'xcross']
DATA = ('kde', 'knn', 'linreg', 'ols', 'forest', 'factor', 'troll')


def model(rng, kind):
    g = {'kind': kind, 'ins': [], 'itypes': [], 'ik': [], 'par': {'x': 0}}
    if kind in ('kde', 'knn'):
        n = int(rng.randint(1 if kind == 'kde' else 2, 4))
        v = ids(rng, n)
        ty = [pick(rng, ['num', 'num', 'cat']) for _ in v]
        k = [int(rng.randint(2, 5)) if t == 'cat' else 0 for t in ty]
        g.update(outs=v, types=ty, k=k)
        if kind == 'kde':
            dflt = rng.rand() < .4
            bw = [(q(1) if t == 'num' else q(1, 10)) if dflt else
                  (q(int(rng.randint(1, 5)), 2) if t == 'num' else q(int(rng.randint(1, 5)), 10)) for t in ty]
            g['par'] = {'bw': bw, 'default': int(dflt)}
        else:
            K = int(rng.randint(1, 4))
            g['par'] = {'K': K, 'M': pick(rng, [K, 1, 2, 3, 4]), 'default': int(rng.rand() < .4)}
            if g['par']['default']:
                g['par']['M'] = K
    elif kind in ('linreg', 'ols', 'forest'):
        n = int(rng.randint(1, 3))
        v = ids(rng, n + 1)
        ity = ['num' if kind == 'forest' else pick(rng, ['num', 'num', 'cat']) for _ in range(n)]
        ik = [int(rng.randint(2, 4)) if t == 'cat' else 0 for t in ity]
        while kind == 'linreg' and 1 + sum(x or 1 for x in ik) > 5:
            ik = [min(x, 2) for x in ik]
            ity = ity if 1 + sum(x or 1 for x in ik) <= 5 else ['num'] * n
            ik = [x if t == 'cat' else 0 for x, t in zip(ik, ity)]
        g.update(outs=v[:1], ins=v[1:], types=['num'], k=[0], itypes=ity, ik=ik)
        if kind == 'linreg':
            p = 1 + sum(x or 1 for x in ik)
            plain = rng.rand() < .5
            V = np.diag(rng.randint(1, 4, p))
            if p > 1 and rng.rand() < .5:
                V[0, 1] = V[1, 0] = 1
                V[0, 0], V[1, 1] = 2, 2
            g['par'] = {'a': q(1), 'b': q(1), 'mu': [0] * p, 'Vinv': np.eye(p, dtype=int).tolist(), 'plain': 1}
            if not plain:
                g['par'] = {'a': q(int(rng.randint(1, 8)), 2), 'b': q(int(rng.randint(1, 8)), 2),
                            'mu': [int(x) for x in rng.randint(-2, 3, p)], 'Vinv': V.tolist(), 'plain': 0}
        elif kind == 'forest':
            g.update(types=['cat'], k=[int(rng.randint(2, 5))])
            g['par'] = {'tree': int(rng.rand() < .2), 'alpha': q(int(rng.randint(1, 9)), 10),
                        'default': int(rng.rand() < .4)}
    elif kind == 'factor':
        D = int(rng.randint(2, 4))
        L = 1 if D == 3 else int(rng.randint(1, 3))
        v = ids(rng, D + L)
        g.update(outs=v, types=['num'] * (D + L), k=[0] * (D + L))
        dflt = rng.rand() < .2
        W = np.zeros((D, L), dtype=int) if dflt else rng.randint(-2, 3, (D, L))
        P = np.eye(D, dtype=int) if dflt else np.diag(rng.randint(1, 4, D))
        mux = [0] * D if dflt else [int(x) for x in rng.randint(-2, 3, D)]
        g['par'] = {'D': D, 'L': L, 'W': W.tolist(), 'Psi': P.tolist(), 'mux': mux, 'default': int(dflt)}
    else:
        shape = {'twoway': (1, 1), 'fourway': (1, 2), 'troll': (1, 2), 'piece': (2, 1), 'bare': (2, 1),
                 'dots': (2, 0), 'corr': (2, 0), 'xcross': (2, 0)}[kind]
        v = ids(rng, sum(shape))
        g.update(outs=v[:shape[0]], ins=v[shape[0]:], types=['num'] * shape[0], k=[0] * shape[0],
                 itypes=['num'] * shape[1], ik=[0] * shape[1])
        if kind == 'twoway':
            g.update(types=['cat'], k=[2], itypes=['cat'], ik=[2])
        if kind == 'fourway':
            g.update(types=['cat'], k=[4])
        if kind == 'piece':
            g.update(types=['num', 'cat'], k=[0, 2])
            g['par'] = {'sigma': q(int(rng.randint(1, 5)), 2), 'flip': q(int(rng.randint(1, 10)), 10)}
        if kind in ('dots', 'corr', 'xcross'):
            g['par'] = {'noise': q(int(rng.randint(1, 10)), 10)}
    return g


def value(rng, t, k, wide=3):
    return int(rng.randint(k)) if t == 'cat' else int(rng.randint(-wide, wide + 1))


def pairs(d):
    return [[v, x] for v, x in d]


def inputs(rng, g, bad=0.):
    y = []
    for v, t, k in zip(g['ins'], g['itypes'], g['ik']):
        x = value(rng, t, k + (1 if g['kind'] == 'linreg' and rng.rand() < .1 else 0),
                  2 if g['kind'] in ('linreg', 'ols') else 3)
        y.append([v, x])
    if y and rng.rand() < bad:
        z = rng.rand()
        if z < .35:
            y.pop(rng.randint(len(y)))
        elif z < .6 and g['kind'] in ('ols', 'forest'):
            y[rng.randint(len(y))][1] = NA
        elif z < .8:
            y.append([pick(rng, [97, g['outs'][0]]), 1])
        else:
            cats = [i for i, t in enumerate(g['itypes']) if t == 'cat']
            if cats:
                y[cats[0]][1] = g['ik'][cats[0]] + 1
    return [y[i] for i in rng.permutation(len(y))]


def observation(rng, g, bad=0.):
    kind = g['kind']
    outs = g['outs'][:len(g['outs']) - g['par'].get('L', 0)] if kind == 'factor' else g['outs']
    x = []
    for v in outs:
        i = g['outs'].index(v)
        if kind in ('kde', 'knn', 'factor') and rng.rand() < .12:
            if rng.rand() < .5:
                x.append([v, NA])
            continue
        wide = {'linreg': 3, 'ols': 3, 'knn': 9}.get(kind, 3)
        x.append([v, value(rng, g['types'][i], g['k'][i], wide)])
    if not x:
        x.append([outs[0], value(rng, g['types'][0], g['k'][0])])
    if rng.rand() < bad:
        z = rng.rand()
        if kind == 'forest' and z < .4:
            x[0][1] = pick(rng, [-1, g['k'][0], g['k'][0] + 2, NA])
        elif kind in ('linreg', 'ols') and z < .5:
            x[0][1] = NA
        elif kind == 'factor' and z < .4:
            x.append([g['outs'][-1], 1])
        elif z < .7:
            x = []
        elif kind in ('kde', 'knn', 'factor'):
            x.append([98, 1])
    return x


def split(rng, vs, nt, nc):
    p = [vs[i] for i in rng.permutation(len(vs))]
    return p[:nt], p[nt:nt + nc]


def probe(rng, g, live, bad=.12):
    """A density or sampling question."""
    kind = g['kind']
    val = lambda v: value(rng, g['types'][g['outs'].index(v)], g['k'][g['outs'].index(v)])
    n = len(g['outs'])
    nt = int(rng.randint(1, n + 1))
    nc = int(rng.randint(0, n - nt + 1))
    if kind in ('linreg', 'ols', 'forest', 'twoway', 'fourway', 'troll'):
        nt, nc = 1, 0
    if kind == 'xcross':
        nt, nc = 2, 0
    if kind == 'bare':
        nc = 0
    if kind == 'knn' and rng.rand() < .5:
        nt, nc = 1, int(rng.randint(1, n))
    ts, cs = split(rng, list(g['outs']), nt, nc)
    t = pairs((v, val(v)) for v in ts)
    c = pairs((v, val(v)) for v in cs)
    known = live and rng.rand() < .3
    o = {'k': 'logpdf', 'id': pick(rng, sorted(live)) if known else pick(rng, [-1, 77]),
         't': t, 'c': c, 'y': inputs(rng, g, bad), 'ts': ts}
    if rng.rand() < .5:
        o['k'] = 'simulate'
        o['many'] = 1
    if kind == 'xcross' and o['k'] == 'simulate':
        o['ts'] = split(rng, list(g['outs']), int(rng.randint(1, 3)), 0)[0]
    if rng.rand() < bad and kind in DATA and kind != 'troll':
        z = rng.rand()
        if z < .25 and kind in ('kde', 'knn', 'factor'):
            o['y'] = [[97, 1]]
        elif z < .5:
            o['c'] = o['c'] + [[o['ts'][0], 1]]
        elif z < .75:
            o['t'], o['ts'] = [[98, 1]], [98]
        elif kind in ('kde', 'knn', 'linreg', 'ols'):
            o['t'][0][1] = NA
            o['k'] = 'logpdf'
        elif kind == 'forest':
            o['t'][0][1] = pick(rng, [-1, g['k'][0]])
    if kind in ('twoway', 'fourway', 'troll', 'piece', 'bare'):
        o['y'] = inputs(rng, g, 0.)
    return o


def history(rng, g, n, reload=False, fit=True):
    live, ops, fitted = set(), [], False
    kind = g['kind']
    if kind not in DATA or kind == 'troll':
        for _ in range(n // 2):
            ops.append(probe(rng, g, set()))
            if kind == 'troll':
                r = int(rng.randint(0, 4))
                k = pick(rng, ['inc', 'inc', 'uninc'])
                ops.append({'k': k, 'id': r, 'x': [], 'y': []})
            if reload and rng.rand() < .4:
                ops.append({'k': 'reload'})
        return ops
    first = int(rng.randint(3, 8))
    i = 0
    while i < n:
        i += 1
        z = rng.rand()
        if len(ops) < first or z < .22:
            r = int(rng.randint(0, 12))
            if rng.rand() < .85:
                free = [x for x in range(12) if x not in live]
                r = pick(rng, free) if free else r
            o = {'k': 'inc', 'id': r, 'x': observation(rng, g, .1),
                 'y': inputs(rng, g, .1) if g['ins'] else ([[97, 1]] if rng.rand() < .05 else [])}
            live.add(r)
        elif z < .36:
            r = pick(rng, sorted(live)) if live and rng.rand() < .8 else int(rng.randint(0, 14))
            o = {'k': 'uninc', 'id': r}
            live.discard(r)
        elif z < .42 and kind in ('ols', 'forest', 'factor') and fit:
            o = {'k': 'fit'}
        elif z < .48:
            o = {'k': pick(rng, ['score', 'counts'] if kind == 'forest' else ['score'])}
        elif z < .58 and reload:
            o = {'k': 'reload'}
        else:
            o = probe(rng, g, live)
        ops.append(o)
        if kind == 'ols' and len(ops) == first:
            ops.append({'k': 'fit'})
        if kind == 'factor' and len(ops) == first + 4 and rng.rand() < .4 and fit:
            ops.append({'k': 'fit'})
    if reload:
        ops += [{'k': 'reload'}] + [probe(rng, g, live, 0.) for _ in range(4)] + [{'k': 'score'}]
    return ops


def tla_ops(ops):
    out = []
    for o in ops:
        d = {'k': o['k'], 'id': o.get('id', -1), 'x': o.get('x', []), 'y': o.get('y', []),
             't': o.get('t', []), 'c': o.get('c', []), 'ts': o.get('ts', [])}
        out.append(d)
    return out


def query(g, ops):
    return {'k': 'history', 'g': g, 'ops': tla_ops(ops)}


# ---------------------------------------------------------------- the real model
def num(e):
    return e[1] / float(e[2])


def build(g, rng):
    kind, par = g['kind'], g['par']
    st = ['numerical' if t == 'num' else ['categorical', 'nominal'][i % 2] for i, t in enumerate(g['types'])]
    sa = [{} if t == 'num' else {'k': k} for t, k in zip(g['types'], g['k'])]
    outs, ins = list(g['outs']), list(g['ins'])
    if kind == 'kde':
        from cgpm.kde.mvkde import MultivariateKde
        return MultivariateKde(outs, ins, distargs={'outputs': {'stattypes': st, 'statargs': sa}},
                               params=None if par['default'] else {'bw': [num(b) for b in par['bw']]}, rng=rng)
    if kind == 'knn':
        from cgpm.knn.mvknn import MultivariateKnn
        return MultivariateKnn(outs, ins, K=par['K'], M=None if par['default'] else par['M'],
                               distargs={'outputs': {'stattypes': st, 'statargs': sa}}, rng=rng)
    if kind == 'factor':
        from cgpm.factor.factor import FactorAnalysis
        return FactorAnalysis(outs, ins, L=par['L'], params=None if par['default'] else {
            'W': np.array(par['W'], dtype=float), 'Psi': np.array(par['Psi'], dtype=float),
            'mux': np.array(par['mux'], dtype=float)}, rng=rng)
    dist = {'inputs': {'stattypes': ['numerical' if t == 'num' else 'categorical' for t in g['itypes']],
                       'statargs': [{} if t == 'num' else {'k': k} for t, k in zip(g['itypes'], g['ik'])]}}
    if kind == 'linreg':
        from cgpm.regressions.linreg import LinearRegression
        hyp = None if par['plain'] else {'a': num(par['a']), 'b': num(par['b']),
                                         'mu': np.array(par['mu'], dtype=float),
                                         'V': np.linalg.inv(np.array(par['Vinv'], dtype=float))}
        return LinearRegression(outs, ins, hypers=hyp, distargs=dist, rng=rng)
    if kind == 'ols':
        from cgpm.regressions.ols import OrdinaryLeastSquares
        return OrdinaryLeastSquares(outs, ins, distargs=dist, rng=rng)
    if kind == 'forest':
        from cgpm.regressions.forest import RandomForest
        dist['k'] = g['k'][0]
        params = {} if par['default'] else {'alpha': num(par['alpha'])}
        if not par['tree']:
            params['forest'] = Reference()
        return RandomForest(outs, ins, distargs=dist, params=params, rng=rng)
    if kind == 'twoway':
        from cgpm.dummy.twoway import TwoWay as C
    elif kind == 'fourway':
        from cgpm.dummy.fourway import FourWay as C
    elif kind == 'troll':
        from cgpm.dummy.trollnormal import TrollNormal as C
    elif kind == 'bare':
        from cgpm.dummy.barebones import BareBonesCGpm as C
    elif kind == 'piece':
        from cgpm.dummy.piecewise import PieceWise
        return PieceWise(outs, ins, sigma=num(par['sigma']), flip=num(par['flip']), rng=rng)
    else:
        from cgpm.uncorrelated.dots import Dots
        from cgpm.uncorrelated.linear import Linear
        from cgpm.uncorrelated.xcross import XCross
        return {'dots': Dots, 'corr': Linear, 'xcross': XCross}[kind](
            outputs=outs, noise=num(par['noise']), rng=rng)
    return C(outs, ins, rng=rng)


def asdict(ps):
    return {v: (float('nan') if x == NA else x) for v, x in ps}


def reload(m, rng, via_json):
    """(loaded model, saved metadata, what it said when saved)."""
    md = m.to_metadata()
    told = json.dumps(md, sort_keys=True)
    use = json.loads(told) if via_json else copy.deepcopy(md) if rng.rand() < .5 else md
    mod, name = use['factory']
    cls = getattr(__import__(mod, fromlist=[name]), name)
    return cls.from_metadata(use, rng=rng), md, told


def params_of(m, g):
    """What the specification refers to by name."""
    env = {}
    if g['kind'] == 'forest':
        env['alpha'] = float(m.get_params()['alpha'])
    if g['kind'] == 'factor':
        p = m.to_metadata()['params']
        for i, r in enumerate(p['W']):
            for j, x in enumerate(r):
                env['W', i + 1, j + 1] = x
        for i, r in enumerate(p['Psi']):
            for j, x in enumerate(r):
                env['Psi', i + 1, j + 1] = x
        for i, x in enumerate(p['mux']):
            env['mux', i + 1, 0] = x
    return env


def refusal(e):
    return harness.from_repo(e)


def execute(job):
    """[[outcome]] of every operation on the real model."""
    g, ops, reps = job['g'], job['ops'], job['reps']
    rng = np.random.RandomState(job['seed'])
    own = np.random.RandomState(job['seed'] ^ 55)
    m = build(g, rng)
    out, saved = [], []
    for o in ops:
        k = o['k']
        try:
            if k == 'inc':
                m.incorporate(o['id'], asdict(o['x']), asdict(o['y']) if o['y'] or own.rand() < .5 and not g['ins']
                              else asdict(o['y']) if g['ins'] else None)
                r = ['ok']
            elif k == 'uninc':
                m.unincorporate(o['id'])
                r = ['ok']
            elif k == 'fit':
                r = ['ok', None, None]
                if g['kind'] == 'factor':
                    if job['nofit'].get(len(out)):
                        r = ['skip']
                        out.append(r)
                        break
                    m.transition()
                    p = m.to_metadata()['params']
                    r = ['ok', p['mux'], np.array(p['Psi']).tolist()]
                elif g['kind'] == 'forest' and not g['par']['tree'] and job.get('alphas'):
                    al = []
                    for _ in range(job['alphas']):
                        c = copy.deepcopy(m)
                        c.rng = np.random.RandomState(own.randint(2 ** 31))
                        c.transition()
                        al.append(float(c.get_params()['alpha']))
                    m.transition(N=1)
                    r = ['ok', al, None]
                else:
                    m.transition()
            elif k == 'score':
                r = ['v', m.logpdf_score()]
                r[1] = None if r[1] is None else float(r[1])
            elif k == 'counts':
                r = ['c', [int(x) for x in m.to_metadata()['counts']]]
            elif k == 'reload':
                loaded, md, told = reload(m, rng, own.rand() < .4)
                saved.append((md, told))
                m = loaded if own.rand() < .7 else m
                r = ['ok']
            elif k == 'logpdf':
                t, c, y = asdict(o['t']), asdict(o['c']), asdict(o['y'])
                c0, y0, t0 = dict(c), dict(y), dict(t)
                r = ['v', float(m.logpdf(o['id'], t, c or None, y or (y if g['ins'] else None)))]
                if repr((t, c, y)) != repr((t0, c0, y0)):
                    r = ['changed', repr((t, c, y))]
                if g['kind'] == 'forest' and g['par']['tree']:
                    job_rf(m, g, o, r)
            elif k == 'simulate':
                rows = []
                r = ['s', rows]
                left = reps if o.get('many') else 2
                while left > 0:
                    c, y = asdict(o['c']), asdict(o['y'])
                    ts = list(o['ts'])
                    n = None if own.rand() < .3 else int(own.randint(1, 40))
                    if g['kind'] == 'knn':      # one call shares its neighbours
                        n = pick(own, [None, 1])
                    s = m.simulate(o['id'], ts, c or None, y or (y if g['ins'] else None), n)
                    if n is not None and (not isinstance(s, list) or len(s) != n):
                        r = ['bad', '%r rows asked for, got %r' % (n, type(s).__name__ if not isinstance(s, list) else len(s))]
                        break
                    s = [s] if n is None else s
                    bad = [x for x in s if not isinstance(x, dict) or sorted(x) != sorted(o['ts'])]
                    if bad:
                        r = ['bad', 'asked for %r, got %r' % (o['ts'], bad[0])]
                        break
                    if ts != o['ts'] or repr((c, y)) != repr((asdict(o['c']), asdict(o['y']))):
                        r = ['changed', repr((ts, c, y))]
                        break
                    rows += [[float(x[v]) for v in o['ts']] for x in s]
                    left -= len(s)
                if g['kind'] == 'forest' and g['par']['tree']:
                    job_rf(m, g, o, r)
        except Exception as e:      # pylint: disable=broad-except
            if not refusal(e):
                raise
            r = ['refused', '%s: %s' % (type(e).__name__, str(e)[:120])]
        for md, told in saved:
            if json.dumps(md, sort_keys=True, default=repr) != told:
                r = ['changed', 'metadata saved earlier now says %s, it said %s' % (
                    json.dumps(md, sort_keys=True, default=repr)[:300], told[:300])]
        out.append([r, params_of(m, g)])
    return out


def job_rf(m, g, o, r):
    """The classifier's own probabilities, for a real forest."""
    f = m.get_params()['forest']
    d = asdict(o['y'])
    if hasattr(f, 'classes_') and all(v in d for v in g['ins']):
        p = f.predict_proba([[d[v] for v in sorted(g['ins'])]])[0]
        r.append({int(c): float(x) for c, x in zip(f.classes_, p)})


# ---------------------------------------------------------------- comparison
def mass(c, a, b, env):
    """Probability of [a, b) under a univariate component."""
    v = lambda e: expr.num(expr.ev(e, env))
    if c['d'] == 'normal':
        m, s = v(c['m']), v(c['s'])
        return float(stats.norm.cdf(b, m, s) - stats.norm.cdf(a, m, s))
    if c['d'] == 't':
        m, s, n = v(c['m']), math.sqrt(v(c['v'])), v(c['n'])
        return float(stats.t.cdf(b, n, m, s) - stats.t.cdf(a, n, m, s))
    if c['d'] == 'unif':
        lo, hi = v(c['a']), v(c['b'])
        return float(stats.uniform.cdf(b, lo, hi - lo) - stats.uniform.cdf(a, lo, hi - lo))
    raise KeyError(c['d'])


def cut(xs, n):
    e = np.unique(np.quantile(xs, np.linspace(0, 1, n + 1)[1:-1]))
    return [-np.inf] + [float(x) for x in e] + [np.inf]


def mix_test(rows, law, env):
    """p-value of rows against a mixture of products; None: an impossible row."""
    w = np.array([expr.num(expr.ev(m['w'], env)) for m in law])
    w = w / w.sum()
    T = len(rows[0])
    rows = np.asarray(rows)
    train, test = rows[:40], rows[40:] if len(rows) > 100 else rows
    nb = {1: 8, 2: 4}.get(T, 3)
    cells, probs = [], None
    for j in range(T):
        cs = [m['comps'][j] for m in law]
        if cs[0]['d'] == 'atom':
            vals = sorted(set(round(expr.num(expr.ev(c['m'], env)), 7) for c in cs))
            idx = []
            for x in test[:, j]:
                near = [i for i, v in enumerate(vals) if abs(v - x) < 1e-6 * max(1, abs(v))]
                if not near:
                    return None
                idx.append(near[0])
            pj = np.array([[1. * (round(expr.num(expr.ev(c['m'], env)), 7) == v) for v in vals] for c in cs])
        elif cs[0]['d'] == 'cat':
            k = max(len(c['p']) for c in cs)
            idx = test[:, j]
            if any(x != int(x) or not 0 <= x < k for x in idx):
                return None
            pj = np.array([[expr.num(expr.ev(p, env)) for p in c['p']] for c in cs])
        else:
            e = cut(train[:, j], nb)
            idx = np.searchsorted(e[1:-1], test[:, j], side='right')
            pj = np.array([[mass(c, a, b, env) for a, b in zip(e[:-1], e[1:])] for c in cs])
        cells.append([int(i) for i in idx])
        probs = pj[:, :, None].reshape(len(law), -1) if probs is None else (
            probs[:, :, None] * pj[:, None, :]).reshape(len(law), -1)
        width = pj.shape[1]
        cells_now = cells[-1]
        key = cells_now if j == 0 else [a * width + b for a, b in zip(key, cells_now)]
    p = w.dot(probs)
    counts = {}
    for x in key:
        counts[x] = counts.get(x, 0) + 1
    return vstats.gtest(counts, {i: float(x) for i, x in enumerate(p)})


def mvn_test(rows, law, env):
    rows = np.asarray(rows)
    w = np.array([expr.num(expr.ev(m['w'], env)) for m in law])
    w = w / w.sum()
    ms = [np.array([expr.num(expr.ev(x, env)) for x in m['m']]) for m in law]
    ss = [np.array([[expr.num(expr.ev(x, env)) for x in r] for r in m['s']]) for m in law]
    T = rows.shape[1]
    dirs = [np.eye(T)[i] for i in range(T)]
    dirs += [np.eye(T)[i] + z * np.eye(T)[j] for i in range(T) for j in range(i) for z in (1, -1)]
    worst = 1.
    for d in dirs:
        x = rows.dot(d)
        train, test = x[:40], x[40:] if len(x) > 100 else x
        e = cut(train, 8)
        idx = np.searchsorted(e[1:-1], test, side='right')
        p = np.zeros(len(e) - 1)
        for wi, m, s in zip(w, ms, ss):
            sd = math.sqrt(max(d.dot(s).dot(d), 0.))
            mu = d.dot(m)
            if sd < 1e-9:
                c = (np.array(e) > mu - 1e-7).astype(float)
            else:
                c = stats.norm.cdf(e, mu, sd)
            p += wi * np.diff(c)
        counts = {}
        for i in idx:
            counts[int(i)] = counts.get(int(i), 0) + 1
        worst = min(worst, vstats.gtest(counts, {i: float(v) for i, v in enumerate(p)}))
    return worst


def environment(params, r):
    env = dict((k if isinstance(k, tuple) else (k,), v) for k, v in params.items())
    if isinstance(r[-1], dict):
        for x, p in r[-1].items():
            env['rf', x] = p
    return env


def close(a, b):
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= TOL * max(1., abs(b)) * 10


def compare(c, job, got, ans, prefix=''):
    """Report where the real answers differ from the specified ones."""
    g, ops = job['g'], job['ops']
    kind = g['kind']
    for i, (o, a) in enumerate(zip(ops, ans)):
        if i >= len(got) or got[i] == ['skip']:
            break
        r, params = got[i]
        env = environment(params, r)
        c.add('operations')
        what = '%s: %s (operation %d of a history)' % (kind, json.dumps({k: v for k, v in o.items() if k != 'many'}), i)
        rep = {'model': g, 'ops': ops[:i + 1], 'seed': job['seed']}
        key = '%s%s:%s' % (prefix, kind, o['k'])
        if a['ok'] == 2:
            continue
        if r[0] in ('bad', 'changed'):
            c.violation(key + ':shape', '%s: %s' % (what, r[1]), rep)
            return
        if a['ok'] == 0:
            if r[0] != 'refused':
                c.violation(key + ':accepted', '%s: accepted, must be refused' % what, rep)
                return
            c.add('refused')
            continue
        if r[0] == 'refused':
            c.violation(key + ':refused', '%s: refused with %s' % (what, r[1]), rep)
            return
        if o['k'] in ('logpdf', 'score'):
            if r[1] is None:
                continue
            vals = [expr.log(expr.ev(p, env)) for p in a['p']]
            if not any(close(r[1], v) for v in vals):
                c.violation(key, '%s: %r, specified %r' % (what, r[1], vals[:4]), rep)
                return
            c.add('densities')
        elif o['k'] == 'counts':
            if r[1] != a['c']:
                c.violation(key, '%s: %r, specified %r' % (what, r[1], a['c']), rep)
                return
        elif o['k'] == 'simulate':
            if not o.get('many') or len(r[1]) < 20:
                continue
            p = (mix_test if a['form'] == 'mix' else mvn_test)(r[1], a['law'], env)
            c.add('laws')
            c.add('draws', len(r[1]))
            if p is None or p < vstats.ALPHA:
                c.violation(key + ':law', '%s: rows such as %r do not follow the specified law (p=%r)' % (
                    what, r[1][:3], p), rep)
                return
        elif o['k'] == 'fit' and kind == 'forest' and r[1]:
            ws = [expr.log(expr.ev(x, env)) for x in a['alpha']]
            z = np.logaddexp.reduce(ws)
            grid = np.linspace(.01, .99, 30)
            cnt = {}
            for x in r[1]:
                j = int(np.argmin(abs(grid - x)))
                if abs(grid[j] - x) > 1e-9:
                    c.violation(key + ':alpha', '%s: outlier share %r is not on the grid' % (what, x), rep)
                    return
                cnt[j] = cnt.get(j, 0) + 1
            p = vstats.gtest(cnt, {j: math.exp(x - z) for j, x in enumerate(ws)})
            c.add('laws')
            if p < vstats.ALPHA:
                c.violation(key + ':alpha', '%s: outlier shares %r do not follow the specified law (p=%.2g)' % (
                    what, cnt, p), rep)
                return
        elif o['k'] == 'fit' and kind == 'factor':
            want = [expr.num(expr.ev(x, env)) for x in a['mean']]
            if not all(close(x, y) for x, y in zip(r[1], want)):
                c.violation(key, '%s: means %r, specified %r' % (what, r[1], want), rep)
                return
    c.traces()


def fit_possible(g, ops, ans):
    """Positions of the fits of a factor model that are not asked for."""
    out = {}
    if g['kind'] != 'factor':
        return out
    live = {}
    outs = g['outs'][:g['par']['D']]
    for i, (o, a) in enumerate(zip(ops, ans)):
        if o['k'] == 'inc' and a['ok'] == 1:
            live[o['id']] = o['x']
        elif o['k'] == 'uninc' and a['ok'] == 1:
            del live[o['id']]
        elif o['k'] == 'fit':
            X = [[dict(map(tuple, x)).get(v, NA) for v in outs] for x in live.values()]
            X = np.array([r for r in X if NA not in r], dtype=float)
            if len(X) < g['par']['D'] + 2 or np.linalg.matrix_rank(X - X.mean(0)) < g['par']['D']:
                out[i] = True
    return out
