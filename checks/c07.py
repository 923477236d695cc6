"""C07 Model score and hyperparameter inference are exact.

Oracle: Mixture.tla ModelScore and its parts; a hyperparameter's conditional on
its grid is the model score with that value, normalised.
"""

import copy
import math

import numpy as np

import comps
import design
import expr
import gen
import harness
import py2load
import tlc
import vstats


def scores(job):
    """All scores the real code reports."""
    cfg = job['cfg']
    st = gen.build(cfg, job['seed'], Cd=copy.deepcopy(job['cd']))
    out = {'score': st.logpdf_score(), 'lik': st.logpdf_likelihood(),
           'crp': st.logpdf_score_crp()}
    for v in st.views:
        V = st.views[v]
        out['view', int(v)] = V.logpdf_score()
        out['view-crp', int(v)] = V.logpdf_prior()
        out['view-lik', int(v)] = V.logpdf_likelihood()
    for c in st.outputs:
        out['dim', c] = st.dim_for(c).logpdf_score()
    return {k: float(x) for k, x in out.items()}


def frame(st):
    n = st.n_rows()
    return (dict(st.Zv()), {v: [st.views[v].Zr()[r] for r in range(n)] for v in st.views},
            repr(list(st.X.items())),
            {c: repr(sorted((k, sorted(s.get_suffstats().items(), key=repr))
                            for k, s in st.dim_for(c).clusters.items())) for c in st.outputs})


def hyper(job):
    """Draws of one hyperparameter, every other grid held to one point."""
    cfg, what = job['cfg'], job['target']
    st = gen.build(cfg, job['seed'], Cd=copy.deepcopy(job['cd']))
    bad = []
    base = frame(st)
    if what[0] == 'crp':
        dim = st.crp
        name = 'alpha'
        step = [st.transition_crp_alpha,
                lambda: st.transition(N=1, kernels=['alpha'], progress=False)][job['path'] % 2]
    elif what[0] == 'view':
        V = st.views[what[1]]
        dim = V.crp
        name = 'alpha'
        step = [lambda: st.transition_view_alphas(views=[what[1]]), V.transition_crp_alpha,
                lambda: st.transition_view_alphas(cols=[list(V.dims)[0]])][job['path'] % 3]
    else:
        dim = st.dim_for(what[1])
        name = what[2]
        step = [lambda: st.transition_dim_hypers(cols=[what[1]]), dim.transition_hypers,
                lambda: st.transition(N=1, kernels=['column_hypers'], cols=[what[1]],
                                      progress=False)][job['path'] % 3]
    grid = [float(x) for x in dim.hyper_grids[name]]
    if job['sub'] and len(grid) > job['sub']:
        grid = [grid[i] for i in np.linspace(0, len(grid) - 1, job['sub']).astype(int)]
    dim.hyper_grids[name] = list(grid)
    fixed = {}
    for h in list(dim.hyper_grids):
        if h != name:
            dim.hyper_grids[h] = [dim.hypers[h]]
            fixed[h] = float(dim.hypers[h])
    others = {}
    for c in st.outputs:
        if what != ('dim', c, name) and not (what[0] == 'dim' and what[1] == c):
            others[c] = repr(sorted(st.dim_for(c).hypers.items()))
    outs = []
    probe = []
    for i in range(job['reps']):
        step()
        x = float(dim.hypers[name])
        outs.append(x)
        if i % 25 == 0:
            if frame(st) != base:
                bad.append('data, statistics or partitions changed')
            if any(repr(sorted(st.dim_for(c).hypers.items())) != o for c, o in others.items()):
                bad.append('another column changed its hyperparameters')
            if any(float(dim.hypers[h]) != y for h, y in fixed.items()):
                bad.append('another hyperparameter left its one-point grid')
            for k, s in dim.clusters.items():
                g = {h: float(y) for h, y in s.get_hypers().items()}
                if any(abs(g[h] - float(dim.hypers[h])) > 1e-12 for h in g):
                    bad.append('cluster %r has hypers %r, its column %r' % (k, g, dict(dim.hypers)))
            if what[0] == 'crp' and float(st.alpha()) != x or \
                    what[0] == 'view' and float(st.views[what[1]].alpha()) != x:
                bad.append('alpha() is not the drawn value')
            if what[0] == 'dim' and len(probe) < 6:
                # the fresh cluster predicts with the drawn value
                v = st.Zv(what[1])
                V = st.views[v]
                k = max(V.Zr().values()) + 1
                col = [q for q in cfg['cols'] if q['id'] == what[1]][0]
                y = job['probe']
                lp = dim.logpdf(None, {what[1]: comps.value(col, y)}, None, {V.outputs[0]: k})
                probe.append(({h: float(z) for h, z in dim.hypers.items()}, float(lp)))
    return {'outs': outs, 'grid': grid, 'fixed': fixed, 'bad': sorted(set(bad))[:4], 'probe': probe}


def joint(job):
    """All hyperparameters of a column together: exact start, one transition."""
    cfg, c = job['cfg'], job['c']
    rng = np.random.RandomState(job['seed'])
    st = gen.build(cfg, job['seed'])
    dim = st.dim_for(c)
    for h, g in job['grids'].items():
        dim.hyper_grids[h] = list(g)
    outs = []
    for _ in range(job['reps']):
        s = job['points'][rng.choice(len(job['points']), p=job['probs'])]
        dim.hypers.update(s)
        dim.set_hypers(dim.hypers)
        st.transition_dim_hypers(cols=[c])
        outs.append(tuple(float(dim.hypers[h]) for h in sorted(job['grids'])))
    return {'outs': outs, 'bad': []}


def run(c):
    py2load.install()
    design.mixture(c, ['Predictive', 'RowGibbs', 'ColGibbs'])
    rng = np.random.RandomState(7000 + c.seed)
    # ---- scores
    sj, sq, senv = [], [], []
    for i in range(c.pick(60, 400)):
        kw = [{}, {'n': int(rng.randint(8, 30)), 'm': 3}, {'m': 6}, {'n': 1}][i % 4]
        cd = []
        if i % 3 == 2:
            cfg = gen.config(rng, zero_based=True, m=int(rng.randint(3, 8)), n=3,
                             types=comps.COLUMN_TYPES)
            by = {}
            for o in cfg['outs']:
                by.setdefault(cfg['zv'][o], []).append(o)
            for v, os in sorted(by.items()):
                rng.shuffle(os)
                if len(os) >= 2 and rng.rand() < .8:
                    k = int(rng.randint(2, len(os) + 1))
                    cd.append([int(x) for x in os[:k]])
                    if len(os) - k >= 2:
                        cd.append([int(x) for x in os[k:]])
        else:
            types = comps.COLUMN_TYPES + (comps.UNCOLLAPSED if i % 3 == 1 else [])
            cfg = gen.config(rng, types=types, **kw)
            if i % 2:
                cfg = gen.evolved(rng, cfg)
        sj.append({'cfg': cfg, 'cd': cd, 'seed': int(rng.randint(2 ** 31)), 'full': i})
    res = harness.pmap(scored, sj)
    for j, o in zip(sj, res):
        sq.append({'k': 'score', 'm': o['m'], 'cd': j['cd']})
        senv.append(o['env'])
    # ---- single hyperparameters
    hj = []
    for i in range(c.pick(54, 300)):
        t = comps.COLUMN_TYPES[i % len(comps.COLUMN_TYPES)]
        cfg = gen.config(rng, n=int(rng.randint(2, 10)), m=int(rng.randint(1, 4)),
                         types=[t], max_views=2)
        cd = []
        if i % 9 == 8:
            target = ('view', sorted(cfg['zrv'])[0])
        elif i % 9 == 7 or i % 9 == 3:
            cfg = gen.config(rng, n=2, m=int(rng.randint(3, 7)), zero_based=True, max_views=3)
            if i % 2:
                by = {}
                for o in cfg['outs']:
                    by.setdefault(cfg['zv'][o], []).append(o)
                cd = [os for os in by.values() if len(os) >= 2]
            target = ('crp',)
        else:
            o = cfg['outs'][rng.randint(len(cfg['outs']))]
            hs = comps.HYPERS[t]
            target = ('dim', o, hs[(i // len(comps.COLUMN_TYPES)) % len(hs)])
        hj.append({'cfg': cfg, 'cd': cd, 'target': target, 'path': i, 'sub': [None, 5][i % 2],
                   'reps': c.pick(500, 2500), 'seed': int(rng.randint(2 ** 31)),
                   'probe': comps.code([x for x in cfg['cols'] if len(target) < 2 or
                                        target[0] == 'view' or x['id'] == target[1]][0], rng)})
    hres = harness.pmap(hyper, hj)
    # ---- joint transitions
    jj = []
    for i in range(c.pick(8, 40)):
        t = ['bernoulli', 'geometric', 'exponential', 'poisson', 'normal', 'vonmises'][i % 6]
        cfg = gen.config(rng, n=4, m=2, types=[t], max_views=1)
        o = cfg['outs'][0]
        hs = sorted(comps.HYPERS[t])[:2]
        grids = {}
        for h in comps.HYPERS[t]:
            x = cfg['hy'][o][h]
            grids[h] = [x]
            if h in hs:
                lim = 2 * math.pi if h == 'b' and t == 'vonmises' else 1e9
                f = [1., 3., .3]
                grids[h] = sorted(set(min(max(round(x * g), 1.) if (t, h) == ('poisson', 'a')
                                          else x * g, lim) for g in f))
        jj.append({'cfg': cfg, 'c': o, 'grids': grids, 'reps': c.pick(900, 4000),
                   'seed': int(rng.randint(2 ** 31))})
    # ---- the specification
    qs = list(sq)
    hq = []
    for j in hj:
        m, env = gen.model_of_config(j['cfg'])
        hq.append((len(qs), env))
        qs.append({'k': 'score', 'm': m, 'cd': j['cd']})
        if j['target'][0] == 'dim':
            col = [x for x in j['cfg']['cols'] if x['id'] == j['target'][1]][0]
            qs.append({'k': 'component', 'col': col, 'xs': [], 'at': [j['probe']]})
    jq = []
    for j in jj:
        m, env = gen.model_of_config(j['cfg'])
        jq.append((len(qs), env))
        qs.append({'k': 'colscore', 'm': m, 'c': j['c']})
    ans, rs = tlc.batch('Oracle', qs, jobs=8)
    c.tlc(rs)
    for j, o, a, env in zip(sj, res, ans, senv):
        c.traces()
        want = {'score': a['score'], 'lik': a['lik'], 'crp': a['crp']}
        for v, s, p, l in a['views']:
            want['view', v], want['view-crp', v], want['view-lik', v] = s, p, l
        for d, s in a['dims']:
            want['dim', d] = s
        got = o['got']
        if set(got) != set(want):
            raise RuntimeError('score parts differ')
        for k in want:
            w = expr.logev(want[k], env)
            c.add('comparisons')
            if not comps.close(got[k], w, 1e-8):
                c.violation('score:%s' % (k if isinstance(k, str) else k[0]),
                            '%r: the code says %r, the specification %r' % (k, got[k], w),
                            {'config': j['cfg'], 'cd': j['cd']})
    for j, o, (at, env) in zip(hj, hres, hq):
        c.traces()
        rep = dict(j, outs=None)
        for b in o['bad']:
            c.violation('hyper-frame:' + j['target'][0], b, rep)
        tg = j['target']
        key = ('crp',) if tg[0] == 'crp' else ('view', tg[1]) if tg[0] == 'view' else (tg[1], tg[2])
        lp = []
        for x in o['grid']:
            e = dict(env)
            e[key] = x
            lp.append(expr.logev(ans[at]['score'], e))
        lp = np.array(lp)
        pr = np.exp(lp - lp.max())
        pr /= pr.sum()
        cnt = {}
        for x in o['outs']:
            i = int(np.argmin([abs(x - g) for g in o['grid']]))
            if abs(x - o['grid'][i]) > 1e-12 * (1 + abs(x)):
                c.violation('hyper-grid', 'drew %r, not on its grid' % x, rep)
                break
            cnt[i] = cnt.get(i, 0) + 1
        mass = {}       # equal grid points are one outcome
        for i, x in enumerate(o['grid']):
            k = int(np.argmin([abs(x - g) for g in o['grid']]))
            mass[k] = mass.get(k, 0) + pr[i]
        p = vstats.gtest(cnt, mass)
        c.add('draws', len(o['outs']))
        name = tg[0] if tg[0] != 'dim' else 'dim:' + j['cfg']['cols'][0]['type']
        if p < vstats.ALPHA:
            c.violation('hyper:' + name, '%r drawn with frequencies %r, specification %r (p=%g)' % (
                tg, [round(cnt.get(i, 0) / len(o['outs']), 3) for i in range(len(pr))],
                [round(x, 3) for x in pr], p), rep)
        ip = vstats.independent(zip(o['outs'][:-1], o['outs'][1:]))
        if ip < vstats.ALPHA:
            c.violation('hyper-memory:' + name, 'draws depend on the previous value (p=%g)' % ip, rep)
        for hy, l in o['probe']:
            w = expr.logev(ans[at + 1]['pred'][0], {(tg[1], h): x for h, x in hy.items()})
            if not comps.close(l, w, 1e-8):
                c.violation('hyper-future:' + name, 'a future cluster predicts %r, not %r, with '
                            'hypers %r' % (l, w, hy), rep)
    import itertools
    for j, (at, env) in zip(jj, jq):
        hs = sorted(j['grids'])
        pts, lp = [], []
        for xs in itertools.product(*[j['grids'][h] for h in hs]):
            e = dict(env)
            e.update({(j['c'], h): x for h, x in zip(hs, xs)})
            pts.append(dict(zip(hs, xs)))
            lp.append(expr.logev(ans[at]['p'], e))
        pr = np.exp(np.array(lp) - max(lp))
        j['points'], j['probs'] = pts, list(pr / pr.sum())
    for j, o in zip(jj, harness.pmap(joint, jj)):
        c.traces()
        cnt = {}
        for x in o['outs']:
            cnt[x] = cnt.get(x, 0) + 1
        pr = {tuple(float(s[h]) for h in sorted(j['grids'])): p for s, p in zip(j['points'], j['probs'])}
        p = vstats.gtest(cnt, pr)
        if p < vstats.ALPHA:
            c.violation('hyper-joint', 'a transition of all hyperparameters of a column does not '
                        'keep their posterior (p=%g): %r vs %r' % (p, cnt, pr), dict(j))
    c.sample({'config': hj[0]['cfg'], 'hyper': hj[0]['target']})
    c.cov['distinct_nontrivial'] = len(sj) + len(hj) + len(jj)
    c.cov['rule'] = 'one scored state or one hyperparameter conditional per count'
    c.assumptions += ['distributions compared by likelihood-ratio tests at 1e-10',
                      'scores compared at relative 1e-8']


def scored(j):
    cfg = j['cfg']
    got = scores(j)
    st = gen.build(cfg, j['seed'], Cd=copy.deepcopy(j['cd']))
    m, env = gen.model(st, {x['id']: x for x in cfg['cols']})
    return {'got': got, 'm': m, 'env': env}
