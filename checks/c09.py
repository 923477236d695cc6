"""C09 Simulated rows are independent draws from the queried density.

Oracle: Mixture.tla RowLaw / ObservedLaw / ViewLaw (theorem LawIsDensity: the
law's density is RowDensity).  Samples of the real code are cut into cells of
the joint target space and compared with the exact cell probabilities; adjacent
samples are tested for independence.
"""

import itertools
import math

import numpy as np
from scipy import integrate

import comps
import design
import expr
import gen
import harness
import py2load
import tlc
import vstats

SYM = -77777


def span(col):
    t = col['type']
    if t == 'exponential':
        return 0., math.inf     # lognormal columns: the logarithm is compared
    if t == 'vonmises':
        return 0., 2 * math.pi
    if t == 'beta':
        return 0., 1.
    if t == 'normal_trunc':
        return col['lo'] / col['den'], col['hi'] / col['den']
    return -math.inf, math.inf


def codes_for(col):
    if col['type'] == 'bernoulli':
        return [0, 1]
    if col['type'] == 'categorical':
        return list(range(col['k']))
    return list(range(0, 5))


def entries(cfg, targets):
    defs = {x['id']: x for x in cfg['cols']}
    out = []
    for t in targets:
        if defs[t]['type'] in comps.DISCRETE:
            out += [[t, k] for k in codes_for(defs[t])]
        else:
            out.append([t, SYM])
    return out


def hypothetical(rng, n):
    return [None, -1, n, n + 7][rng.randint(4)]


def plan(rng, i, reps):
    kw = [{'n': int(rng.randint(2, 7)), 'm': int(rng.randint(2, 6))},
          {'n': 5, 'm': 4, 'types': ['bernoulli', 'categorical', 'normal']},
          {'n': 6, 'm': 3, 'max_views': 1}, {'n': 3, 'm': 1}][i % 4]
    kind = ['row', 'row', 'obs', 'view', 'view_z', 'view_gz', 'network', 'row'][i % 8]
    if kind == 'obs' and i % 16 == 2:
        kw['types'] = comps.COLUMN_TYPES + comps.UNCOLLAPSED
    # cluster structure that matters: values vary strongly between clusters
    cfg = gen.config(rng, **kw)
    defs = {x['id']: x for x in cfg['cols']}
    for x in cfg['cols']:
        if x['type'] == 'lognormal':
            h = cfg['hy'][x['id']]
            h['nu'], h['s'] = max(h['nu'], 4.), min(h['s'], 10.)
    if i % 3 == 2 and not any(x['type'] == 'lognormal' for x in cfg['cols']):
        cfg = gen.evolved(rng, cfg)
        defs = {x['id']: x for x in cfg['cols']}
    n = cfg['n']
    job = {'cfg': cfg, 'kind': kind, 'seed': int(rng.randint(2 ** 31)), 'reps': reps}
    only = None
    if kind in ('view', 'view_z', 'view_gz'):
        v = sorted(cfg['zrv'])[rng.randint(len(cfg['zrv']))]
        job['v'] = v
        only = [o for o in cfg['outs'] if cfg['zv'][o] == v]
    t, k = gen.query(rng, cfg, only=only)
    t = dict(list(t.items())[:3])
    job['t'], job['c'] = list(t), k
    job['rowid'] = hypothetical(rng, n)
    if kind == 'obs':
        r = int(rng.randint(n))
        job['rowid'] = r
        # constraints may only name missing cells, or restate observed ones
        job['c'] = {x: y for x, y in k.items() if defs[x]['x'][r] in (comps.NAN, y)}
    if kind == 'view_gz':
        job['z'] = int(rng.choice(sorted(set(cfg['zrv'][job['v']])) + [-1]))
    if kind == 'network':
        job['reps'] = reps // 3
    return job


def query(job, m):
    T, C = entries(job['cfg'], job['t']), gen.pairs(job['c'])
    if job['kind'] in ('row', 'network'):
        return {'k': 'law', 'm': m, 't': T, 'c': C}
    if job['kind'] == 'obs':
        return {'k': 'law_obs', 'm': m, 'r': job['rowid'] + 1, 't': T}
    if job['kind'] == 'view_gz':
        return {'k': 'law_view_gz', 'm': m, 'v': job['v'], 't': T, 'z': job['z']}
    return {'k': 'law_view', 'm': m, 'v': job['v'], 't': T, 'c': C}


def sample(job):
    cfg = job['cfg']
    defs = {x['id']: x for x in cfg['cols']}
    st = gen.build(cfg, job['seed'])
    cons = gen.values(job['c'], defs)
    bad = []
    t = list(job['t'])
    expect = set(t)
    rid = job['rowid']
    zid = None
    if job['kind'] in ('row', 'obs'):
        call = lambda N: st.simulate(rid, list(t), dict(cons) or None, None, N)
    elif job['kind'] == 'network':
        net = st.build_network(accuracy=1)
        call = lambda N: net.simulate(rid, list(t), dict(cons), None, N)
    else:
        V = st.views[job['v']]
        zid = V.outputs[0]
        if job['kind'] == 'view':
            call = lambda N: V.simulate(rid, list(t), dict(cons) or None, None, N)
        elif job['kind'] == 'view_z':
            expect.add(zid)
            call = lambda N: V.simulate(rid, [zid] + list(t), dict(cons), None, N)
        else:
            z = job['z'] if job['z'] >= 0 else max(V.Zr().values()) + 1
            c2 = dict(cons)
            c2[zid] = z
            call = lambda N: V.simulate(rid, list(t), dict(c2), None, N)
    one = call(None)
    if not isinstance(one, dict) or set(one) != expect:
        bad.append(('shape', 'N=None gave %r' % (one,)))
    for N in (1, 2, 7):
        s = list(call(N))
        if len(s) != N or any(set(d) != expect for d in s):
            bad.append(('shape', 'N=%d gave %d rows with keys %r' % (
                N, len(s), set(map(tuple, map(sorted, s))))))
    if job['kind'] == 'row':
        b = st.simulate_bulk([rid, rid], [list(t), list(t)], [dict(cons), dict(cons)], None, [3, 2])
        if [len(list(x)) for x in b] != [3, 2]:
            bad.append(('shape', 'simulate_bulk sizes'))
        half = job['reps'] // 2
        rows = list(call(half))
        for x in st.simulate_bulk([rid] * 5, [list(t)] * 5, [dict(cons)] * 5, None,
                                  [(job['reps'] - half) // 5] * 5):
            rows += list(x)
    else:
        rows = list(call(job['reps']))
    # many short requests are draws of the same law
    for _ in range(job['reps'] // 10):
        rows.append(call(None))
    zmax = None
    if zid is not None:
        zmax = sorted(set(V.Zr().values()))
    return {'rows': [[float(d[x]) for x in t] + ([float(d[zid])] if job['kind'] == 'view_z' else [])
                     for d in rows], 'bad': bad, 'zs': zmax,
            'env': gen.model(st, defs)[1]}


def judge(job, o, law, want_env):
    """-> list of (key, what)"""
    cfg = job['cfg']
    defs = {x['id']: x for x in cfg['cols']}
    out = list(o['bad'])
    env = dict(want_env)
    t = job['t']
    rows = np.array(o['rows'], dtype=float)
    if len(rows) == 0:
        return out
    train, test = rows[:150], rows[150:]
    # cells per target
    cuts = {}
    for i, c in enumerate(t):
        col = defs[c]
        if np.isnan(rows[:, i]).any():
            out.append(('nan', 'NaN simulated for column %d' % c))
            return out
        if col['type'] in comps.DISCRETE:
            vals = rows[:, i]
            if (vals != np.round(vals)).any() or (vals < 0).any() or (
                    col['type'] in ('bernoulli', 'categorical') and
                    (vals >= len(codes_for(col))).any()):
                out.append(('support:' + col['type'], 'column %d simulated %r' % (c, sorted(set(vals))[:9])))
                return out
        else:
            lo, hi = span(col)
            if (rows[:, i] < lo).any() or (rows[:, i] > hi).any():
                out.append(('support:' + col['type'], 'column %d simulated outside [%r, %r]' % (c, lo, hi)))
                return out
            if len(np.unique(rows[:, i])) < .98 * len(rows) and col['type'] != 'beta':
                out.append(('copies:' + col['type'], 'column %d repeats continuous values' % c))
                return out
            nb = {1: 6, 2: 4, 3: 3}[len(t)]
            q = np.unique(np.quantile(train[:, i], np.linspace(0, 1, nb + 1)[1:-1]))
            cuts[c] = [x for x in q if lo < x < hi]

    def cell(row):
        k = []
        for i, c in enumerate(t):
            if c in cuts:
                k.append(int(np.searchsorted(cuts[c], row[i], side='right')))
            else:
                x = int(row[i])
                k.append(x if x in codes_for(defs[c]) else -1)
        if job['kind'] == 'view_z':
            z = int(row[-1])
            k.append(z if z in o['zs'] else -1)
        return tuple(k)
    # exact probabilities: product over views of the mixture over clusters
    tables = []
    order = []
    for view in law:
        ents = None
        mix = []
        for p, k, dens in view:
            w = expr.numev(p, env)
            if w < 1e-14:
                continue
            # densities come in the order of the entries of this view
            ents = [e for e in entries(cfg, t) if len(law) == 1 or _inview(cfg, e[0], view, law, t)]
            per = {}
            for e, d in zip(ents, dens):
                if e[1] == SYM:
                    lo, hi = span(defs[e[0]])
                    per[e[0]] = bins(d, env, e[0], cuts[e[0]], lo, hi)
                else:
                    per.setdefault(e[0], {})[e[1]] = expr.numev(d, env)
            for c in per:
                rest = 1. - sum(per[c].values())
                if c not in cuts and defs[c]['type'] in ('poisson', 'geometric'):
                    per[c][-1] = max(rest, 0.)
                elif abs(rest) > 2e-4:
                    raise RuntimeError('mass of column %d is %r' % (c, 1 - rest))
            mix.append((w, k, per))
        cols = [c for c in t if any(c in m[2] for m in mix)]
        tab = {}
        for w, k, per in mix:
            for key in itertools.product(*[sorted(per[c]) for c in cols]):
                p = w
                for c, x in zip(cols, key):
                    p *= per[c][x]
                kk = key + ((k if k in (o['zs'] or []) else -1,) if job['kind'] == 'view_z' else ())
                tab[kk] = tab.get(kk, 0) + p
        tables.append(tab)
        order.append(cols)
    probs = {}
    for combo in itertools.product(*[tab.items() for tab in tables]):
        d, p = {}, 1.
        z = ()
        for cols, (key, q) in zip(order, combo):
            d.update(zip(cols, key))
            p *= q
            z = tuple(key[len(cols):])
        probs[tuple(d[c] for c in t) + z] = p
    cells = [cell(r) for r in test]
    cnt = {}
    for x in cells:
        cnt[x] = cnt.get(x, 0) + 1
    p = vstats.gtest(cnt, probs)
    kind = job['kind']
    if p < vstats.ALPHA:
        n = float(len(cells))
        big = sorted(probs, key=lambda k: -abs(cnt.get(k, 0) / n - probs[k]))[:6]
        out.append(('law:' + kind, 'samples contradict the density (p=%g); cell: seen, expected: %r' % (
            p, [(k, round(cnt.get(k, 0) / n, 3), round(probs[k], 3)) for k in big])))
    ip = vstats.independent(zip(cells[:-1], cells[1:]))
    if ip < vstats.ALPHA:
        out.append(('independent:' + kind, 'adjacent samples are dependent (p=%g)' % ip))
    ip = vstats.independent([(i * 12 // len(cells), x) for i, x in enumerate(cells)])
    if ip < vstats.ALPHA:
        out.append(('order:' + kind, 'the law drifts with the position in the result (p=%g)' % ip))
    return out


def _inview(cfg, c, view, law, t):
    touched = [v for v in sorted(set(cfg['zv'].values())) if any(cfg['zv'][x] == v for x in t)]
    return cfg['zv'][c] == touched[[id(x) for x in law].index(id(view))]


def bins(pdf, env, c, cuts, lo, hi):
    env = dict(env)

    def f(y):
        env[('y', c)] = y
        try:
            return expr.numev(pdf, env)
        except OverflowError:
            return 0.
    e = [lo] + list(cuts) + [hi]
    return {i: integrate.quad(f, a, b, limit=100)[0] for i, (a, b) in enumerate(zip(e[:-1], e[1:]))}


def judge_job(arg):
    job, o, law, env = arg
    return judge(job, o, law, env)


def run(c):
    py2load.install()
    design.mixture(c, ['LawIsDensity', 'SumsToOne'])
    rng = np.random.RandomState(9000 + c.seed)
    jobs = [plan(rng, i, c.pick(1500, 6000)) for i in range(c.pick(80, 480))]
    outs = harness.pmap(sample, jobs)
    qs = [query(j, gen.model_of_config(j['cfg'])[0]) for j in jobs]
    ans, rs = tlc.batch('Oracle', qs, jobs=8)
    c.tlc(rs)
    # lognormal columns are compared in the log domain
    for j, o in zip(jobs, outs):
        defs = {x['id']: x for x in j['cfg']['cols']}
        for i, t in enumerate(j['t']):
            if defs[t]['type'] == 'lognormal':
                for r in o['rows']:
                    r[i] = math.log(r[i]) if r[i] > 0 else -745.
    verd = harness.pmap(judge_job, [(j, o, a['law'], o['env']) for j, o, a in zip(jobs, outs, ans)])
    for j, o, v in zip(jobs, outs, verd):
        c.traces()
        c.add('draws', len(o['rows']))
        for key, what in v:
            c.violation(key, what, j)
    c.sample({'config': jobs[0]['cfg'], 'targets': jobs[0]['t'], 'constraints': jobs[0]['c']})
    c.cov['distinct_nontrivial'] = len(jobs)
    c.cov['rule'] = 'one (state, query, path) per count'
    c.assumptions.append('laws compared by likelihood-ratio tests at 1e-10')
