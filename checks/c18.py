"""C18 Entropy and mutual information estimates meet their definitions.

Oracle: Information.tla: every estimate as a sum over the values of its
variables of weight * log ratio (one continuous variable is integrated);
theorems in MCInformation.tla: weights are distributions, symmetry, chain
rule, never negative, nothing across components.  The real estimate is the
mean of independent draws of the log ratio, so the spec's terms also bound how
far it may stray (Chernoff)."""

import math
import os

import numpy as np

import c16
import comps
import cpt
import expr
import gen
import harness
import py2load
import tlc

T = math.log(2 / 1e-10)        # how unlikely a stray estimate must be to be reported
U = np.arange(-70., 70., .02)   # nodes of the integrals


def theorems(c):
    inv = 'Sums Symmetric ChainRule NonNegative Apart Irrelevant'
    for sh, a, b in c.pick([('{2,5}', 'Two2', 'Four1'), ('{9}', 'Two1', 'Four1')],
                           [('{2,3,5}', 'Two3', 'Four2'), ('{4,6,7,9}', 'Two2', 'Four1')]):
        r = tlc.run('MCInformation', 'SPECIFICATION Spec\nINVARIANTS %s\nCONSTANTS Shapes=%s\nCONSTANT Pairs2<-%s\n'
                    'CONSTANT Pairs3<-%s\nCHECK_DEADLOCK FALSE\n' % (inv, sh, a, b), workers=8, timeout=850)
        if not r.ok:
            raise tlc.TLCError(r.out[-3000:])
        c.tlc(r)


# ------------------------------------------------------------------- plans
def system(rng, i):
    """A table of mostly discrete columns, composed members, their ranges."""
    cont = rng.rand() < .4
    cfg = gen.config(rng, n=int(rng.randint(2, 7)), m=int(rng.randint(2, 5)), missing=.3,
                     types=['bernoulli', 'categorical'], max_views=3)
    for j, col in enumerate(cfg['cols']):
        if cont and j == 0:
            new = comps.col(['normal', 'exponential'][rng.randint(2)], rng, col['id'])
            new['x'] = [comps.NAN if x == comps.NAN else comps.code(new, rng) for x in col['x']]
            cfg['cols'][j] = new
            h = comps.hypers(new['type'], rng)
            cfg['hy'][col['id']] = {k: v if k in ('m',) else min(max(v, .6), 3.) for k, v in h.items()}
        else:
            col['k'] = 2 if col['type'] == 'bernoulli' else min(col['k'], 3)
            col['x'] = [x if x == comps.NAN else x % col['k'] for x in col['x']]
    # few rows in informative clusters: the columns of a view depend on each other
    if rng.rand() < .4:
        cfg = gen.evolved(rng, cfg)
        m, env = gen.model(gen.build(cfg), {x['id']: x for x in cfg['cols']})
    else:
        m, env = gen.model_of_config(cfg)
    if any(x is None for col in m['cols'] for x in col['x']):
        return None
    ranges = {x['id']: x['k'] for x in cfg['cols'] if x['type'] in ('bernoulli', 'categorical')}
    views = [{'outs': V['cols'], 'ins': [], 'kind': 'view', 'v': V['id'], 'tab': []} for V in m['views']]
    net = []
    if i % 2:
        produced = sorted(ranges)
        for j in range(int(rng.randint(1, 3))):
            outs = [100 + 10 * j + u for u in range(int(rng.choice([1, 1, 2])))]
            ins = [int(x) for x in rng.choice(produced, min(int(rng.randint(1, 3)), len(produced)), replace=False)]
            for v in outs:
                ranges[v] = int(rng.choice([2, 2, 3]))
            net.append({'outs': outs, 'ins': ins, 'kind': 'cpt', 'v': 0,
                        'tab': c16.table(rng, outs, ins, ranges, .1)})
            produced = produced + outs
    if i % 3 == 0:
        outs, ins = [150, 151, 152, 153], [int(rng.choice(sorted(v for v in ranges if v < 100)))]
        ranges.update((v, 2) for v in outs)
        net.append({'outs': outs, 'ins': ins, 'kind': 'cpt', 'v': 0, 'tab': contrast(rng, outs, ins, ranges)})
    return cfg, m, env, ranges, views, net


def contrast(rng, outs, ins, ranges):
    """A member whose first two variables agree or not depending on the third,
    which depends on the fourth and on the member's input; each alone
    depends on one of them."""
    del rng
    rows = []
    for x in range(2):
        for y in range(2):
            for w in range(2):
                for e in range(2):
                    agree = 8 if x == y else 1
                    u = agree if w == 1 else 9 - agree if e == 0 else 4
                    # either variable alone tells of e, or of w
                    rows.append((x, y, w, e, u * (5 if y == e else 1) * (3 if x == w else 1)))
    return [[[a], [[[x, y, w, e], u * (9 if w == (e + a) % 2 else 2)] for x, y, w, e, u in rows]]
            for a in range(ranges[ins[0]])]


def contrasted(rng, net, ranges):
    """Two more requests about the last member, built by contrast."""
    x, y, w, e = net[-1]['outs']
    a = net[-1]['ins'][0]
    given = {e: int(rng.choice([0, 0, 1])), a: int(rng.randint(ranges[a]))}
    out = []
    for _ in range(2):
        ws = [[w], [w], [w, e], []][rng.randint(4)]
        given = {v: i for v, i in given.items() if v not in ws}
        xs, ys = ([x], [y]) if rng.rand() < .7 else ([x, y], [y, x])
        out.append({'x': xs, 'y': ys, 'e': dict(given), 'w': ws})
    return out


def ask(rng, cfg, ranges, net):
    """Roles X, Y, E (fixed), W (averaged) of the variables, closed so that
    every parent of a member in use is in use with it."""
    cols = [x['id'] for x in cfg['cols']]
    every = cols + [v for x in net for v in x['outs']]
    role = {v: 'XYEW----'[rng.randint(8)] for v in every}
    roles = rng.permutation(every)
    role[int(roles[0])] = 'X'
    if len(every) > 1:
        role[int(roles[1])] = 'Y'
    if rng.rand() < .3:
        role = {v: '-' if r == 'Y' else r for v, r in role.items()}
    if rng.rand() < .45:
        role = {v: '-' if r == 'W' else r for v, r in role.items()}
    for _ in range(8):
        for x in net:
            for v in x['outs']:
                for i in x['ins']:
                    if role[v] in 'EW' and role[i] in '-XYW' and i in role:
                        role[i] = role[v] if role[i] != 'W' or role[v] == 'E' else 'W'
                    elif role[v] in 'XY' and (role[i] == '-' or role[i] in 'XY'):
                        role[i] = role[v]
    q = {r: [v for v in every if role[v] == r] for r in 'XYEW'}
    for r in q:
        q[r] = [int(v) for v in rng.permutation(q[r])]
    entropy = not q['Y']
    if entropy:
        q['Y'] = [int(v) for v in rng.permutation(q['X'])]
    if not q['X']:
        return None
    finite = 1
    for v in set(q['X'] + q['Y'] + q['W']):
        finite *= ranges.get(v, 1)
    if finite > 81 or len([v for v in q['X'] + q['Y'] + q['W'] if v not in ranges]) > (2 if entropy else 1):
        return None
    defs = {x['id']: x for x in cfg['cols']}
    e = {v: comps.code(defs[v], rng) if v in defs else int(rng.randint(ranges[v])) for v in q['E']}
    out = {'x': q['X'], 'y': q['Y'], 'e': e, 'w': q['W']}
    z = rng.rand()
    if z < .05 and q['E']:
        out['x'] = q['X'] + [q['E'][0]]
    elif z < .1 and q['W']:
        out['y'] = q['Y'] + [q['W'][0]]
    elif z < .15 and not entropy:
        out['y'] = q['Y'] + [q['X'][0]]
    elif z < .2 and entropy and len(q['X']) > 1:
        out['y'] = q['X'][1:]
    elif z < .25:
        out[['x', 'y'][rng.randint(2)]] = q['X'] + [991]
    elif z < .28:
        out['e'] = dict(e, **{}) if rng.rand() < .5 else dict(e)
        out['e'][992] = 1
    elif z < .3:
        out['w'] = q['W'] + [993]
    return out


def plan(rng, c, i):
    s = None
    while s is None:
        s = system(rng, i)
    cfg, m, env, ranges, views, net = s
    asks = contrasted(rng, net, ranges) if i % 3 == 0 else []
    while len(asks) < 4:
        a = ask(rng, cfg, ranges, net)
        if a is None:
            continue
        asks.append(a)
    return {'cfg': cfg, 'm': m, 'env': env, 'net': net, 'full': views + net, 'asks': asks,
            'seed': int(rng.randint(2 ** 31)), 'n': c.pick(1400, 6000)}


# ------------------------------------------------------------------ real code
def perform(job):
    rng = np.random.RandomState(job['seed'])
    state = gen.build(job['cfg'], rng=rng)
    Cpt = cpt.make()
    for x in job['net']:
        tab = {tuple(a): [(tuple(o), w) for o, w in rows] for a, rows in x['tab']}
        state.compose_cgpm(Cpt(x['outs'], x['ins'], tab, rng))
    defs = {x['id']: x for x in job['cfg']['cols']}
    out = []
    for a in job['asks']:
        cons = {v: comps.value(defs[v], x) if v in defs else x for v, x in a['e'].items()}
        cons.update({v: None for v in a['w']})
        n = job['n']
        outer, inner = (a['ans'][k] if a['ans']['ok'] == 1 else len(a['w']) for k in ('outer', 'inner'))
        if not outer:
            kw = {'N': n} if rng.rand() < .85 else {'N': None}
            used = kw['N'] or 100
            kw['T'] = [None, 3][rng.randint(2)]
        elif inner:     # some parts are averaged, some are not
            kw = {'N': 40, 'T': 50}
            used = 40
        else:
            z = rng.rand()
            kw = {'N': 1, 'T': n} if z < .6 else {'N': 3, 'T': n // 2} if z < .85 else {'N': 1, 'T': None}
            used = kw['T'] or 100
        x, y = list(a['x']), list(a['y'])
        given = dict(cons)
        before = table(state)
        try:
            r = float(state.mutual_information(x, y, cons, **kw))
        except Exception as e:      # pylint: disable=broad-except
            if not harness.from_repo(e) and not isinstance(e, KeyError):
                raise
            r = ['refused', type(e).__name__]
        if (x, y, cons) != (a['x'], a['y'], given):
            r = ['arguments changed']
        if before != table(state):
            r = ['model changed']
        out.append((used, kw, r))
    return out


def table(state):
    return repr((sorted((c, list(x)) for c, x in state.X.items()), sorted(state.Zv().items()),
                 sorted((v, sorted(V.Zr().items()), V.alpha()) for v, V in state.views.items()),
                 [sorted(d.hypers.items()) for d in state.dims()], sorted(state.hooked_cgpms)))


# ------------------------------------------------------------------ the values
def measure(terms, env, cont):
    """(probabilities, log ratios) over the points; None where an integral
    is not resolved."""
    if cont is None:
        W, V = [], []
        for t in terms:
            w = expr.num(expr.ev(t['w'], env))
            if w > 0:
                W.append(w)
                V.append(expr.logev(t['num'], env) - expr.logev(t['den'], env))
        return np.array(W), np.array(V)
    if cont['type'] == 'exponential':
        y, dy = np.exp(U), np.exp(U)
    else:
        y, dy = np.sinh(U), np.cosh(U)
    e = dict(env)
    e[('y', cont['id'])] = y
    W, V = [], []
    for t in terms:
        s, l = expr.evn(t['w'], e)
        if np.all(s <= 0):
            continue
        w = np.exp(l) * (dy if t['v'] else 1.) * (U[1] - U[0])
        (_s, a), (_s, b) = expr.evn(t['num'], e), expr.evn(t['den'], e)
        W.append(np.broadcast_to(w, U.shape))
        V.append(np.broadcast_to(a - b, U.shape))
    W, V = np.array(W), np.array(V)
    return W, np.where(W > 0, V, 0.)


def bound(W, V, n):
    """(value, how far below and above it the mean of n draws stays)"""
    mu = float(np.sum(W * V))
    D = V - mu
    out = []
    for sgn in (-1, 1):
        best = math.inf
        for lam in np.exp(np.linspace(math.log(1e-3), math.log(30.), 120)):
            x = lam * sgn * D
            k = x.max()
            m = np.log(np.sum(W * np.exp(x - k))) + k
            best = min(best, (T / n + max(m, 0.)) / lam)
        out.append(best)
    return mu, out[0], out[1]


def heavy(W, V, n):
    """The same for an unbounded log ratio: only where moments are resolved."""
    mu = float(np.sum(W * V))
    D = V - mu
    out = []
    for sgn in (-1, 1):
        best = math.inf
        for lam in np.exp(np.linspace(math.log(1e-3), math.log(.25), 60)):
            f = W * np.exp(np.minimum(lam * sgn * D, 600.))
            tot = f.sum()
            if f[:, [0, -1]].max() > 1e-9 * tot:
                continue
            best = min(best, (T / n + max(np.log(tot), 0.)) / lam)
        out.append(best)
    return mu, out[0], out[1]


def empirical(c, rng):
    """Discrete entropy estimators: information of the empirical law."""
    from cgpm.utils import entropy_estimators as ee
    qs, real = [], []
    for _ in range(c.pick(60, 400)):
        n = int(rng.randint(1, 14))
        ks = rng.randint(1, 4, 3)
        s = [[int(rng.randint(k)) for k in ks] for _ in range(n)]
        base = [2, math.e, 10][rng.randint(3)]
        x, y, z = [[r[j] for r in s] for j in range(3)]
        kind = rng.randint(3)
        try:
            if kind == 0:
                qs.append({'k': 'entropy', 's': s})
                v = ee.entropyd([tuple(r) for r in s], base=base)
            elif kind == 1:
                qs.append({'k': 'cmi', 's': [[a, b, 0] for a, b, _ in s]})
                v = ee.midd(x, y, base=base)
            else:
                qs.append({'k': 'cmi', 's': s})
                v = ee.cmidd(x, y, z, base=base)
            real.append((float(v), base))
        except Exception as e:      # pylint: disable=broad-except
            if not harness.from_repo(e):
                raise
            real.append((float('nan'), base))
    ans, rs = tlc.batch('OracleInformation', qs, jobs=8)
    c.tlc(rs)
    for q, a, (v, base) in zip(qs, ans, real):
        want = sum(expr.num(expr.ev(t['w'], {})) * (expr.logev(t['num'], {}) - expr.logev(t['den'], {}))
                   for t in a['terms']) / math.log(base)
        c.add('estimators')
        if not abs(v - want) < 1e-9:
            c.violation('estimator', '%s of %r in base %.3g: %r, specified %r' % (q['k'], q['s'], base, v, want), q)


def run(c):
    py2load.install()
    os.environ.pop('GPMCCDEBUG', None)
    theorems(c)
    rng = np.random.RandomState(18000 + c.seed)
    empirical(c, rng)
    jobs = [plan(rng, c, i) for i in range(c.pick(42, 300))]
    qs = [(j, a) for j in jobs for a in j['asks']]
    ans, rs = tlc.batch('OracleInformation', [
        {'k': 'information', 'net': j['full'], 'm': j['m'], 'x': a['x'], 'y': a['y'], 'e': gen.pairs(a['e']),
         'w': a['w']} for j, a in qs], jobs=8)
    c.tlc(rs)
    for (j, a), x in zip(qs, ans):
        a['ans'] = x
    for j in jobs:
        defs = {x['id']: x for x in j['cfg']['cols']}
        for a in j['asks']:
            if a['ans']['ok'] == 1 and expr.num(expr.ev(a['ans']['e'], j['env'])) <= 0:
                a['ans']['ok'] = 2
            a['cont'] = [defs[v] for v in a['x'] + a['y'] + a['w']
                         if v in defs and defs[v]['type'] in ('normal', 'exponential')][:1]
        j['asks'] = [a for a in j['asks'] if a['ans']['ok'] != 2]
    results = harness.pmap(perform, jobs)
    for j, res in zip(jobs, results):
        c.traces()
        for a, (n, kw, got) in zip(j['asks'], res):
            what = '%s given %r averaged over %r with %r' % (
                'entropy of %r' % a['x'] if set(a['x']) == set(a['y']) else
                'information of %r and %r' % (a['x'], a['y']), a['e'], a['w'], kw)
            rep = {'job': {k: j[k] for k in ('cfg', 'net', 'seed')}, 'ask': {k: a[k] for k in 'xyew'}, 'got': got}
            c.add('queries')
            if a['ans']['ok'] == 0:
                c.add('refused')
                if not isinstance(got, list):
                    c.violation('accepted', '%s: accepted, %r' % (what, got), rep)
                elif got[0] != 'refused':
                    c.violation('changed', '%s: %s' % (what, got[0]), rep)
                continue
            if isinstance(got, list):
                c.violation('refused' if got[0] == 'refused' else 'changed', '%s: %r' % (what, got), rep)
                continue
            if a['ans']['zero']:
                c.add('unrelated')
                if not abs(got) < 1e-9:
                    c.violation('unrelated', '%s: %r between unrelated variables' % (what, got), rep)
                continue
            cont = a['cont'][0] if a['cont'] else None
            W, V = measure(a['ans']['terms'], j['env'], cont)
            if abs(W.sum() - 1) > 1e-7:
                if cont is None:
                    raise RuntimeError('weights sum to %r' % W.sum())
                c.add('unresolved')
                continue
            W = W / W.sum()
            mu, lo, hi = (bound if cont is None else heavy)(W, V, n)
            if math.isinf(lo) or math.isinf(hi):
                c.add('unresolved')
                continue
            c.add('constant' if lo < 1e-6 else 'estimates')
            if cont is not None:
                c.add('continuous')
            slack = 1e-9 if cont is None else 1e-5
            if not mu - lo - slack <= got <= mu + hi + slack:
                c.violation('value', '%s: %.5f, specified %.5f (%+.4f, %+.4f)' % (what, got, mu, -lo, hi), rep)
    c.cov['distinct_nontrivial'] = int(c.cov['queries'])
    c.cov['rule'] = 'one request of one model per count'
    c.sample({'asks': [{k: a[k] for k in 'xyew'} for a in jobs[1]['asks']], 'net': jobs[1]['net']})
