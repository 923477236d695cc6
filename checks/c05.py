"""C05 Row inference samples clusters from the exact conditional.

Oracle: Mixture.tla RowKernel, which TLC shows (RowGibbs) to be the conditional
of the model score.  With every other row fixed, repeated transitions of one
row are independent draws from it; sweeps are judged by the invariance of the
posterior and by which rows they touch.
"""

import copy
import math

import numpy as np

import comps
import design
import expr
import gen
import harness
import py2load
import tlc
import vstats


def groups(zr, r, n):
    """The set of other rows that row r sits with."""
    return tuple(q for q in range(n) if q != r and zr[q] == zr[r])


def partition(zr, n):
    seen = {}
    return tuple(seen.setdefault(zr[r], len(seen)) for r in range(n))


# ------------------------------------------------------------ single rows
def single(job):
    cfg, v, r = job['cfg'], job['v'], job['r']
    n = cfg['n']
    state = gen.build(cfg, job['seed'])
    V = state.views[v]
    before = {w: dict(state.views[w].Zr()) for w in state.views}
    bad = []
    outs = []
    for i in range(job['reps']):
        if job['path'] == 0:
            V.transition_rows(rows=[r])
        elif job['path'] == 1:
            state.transition_view_rows(views=[v], rows=[r])
        else:
            state.transition(N=1, kernels=['rows'], views=[v], rowids=[r], progress=False)
        zr = V.Zr()
        outs.append(groups(zr, r, n))
        if i % 50 == 0 or i < 3:
            for w in state.views:
                now = dict(state.views[w].Zr())
                if w == v:
                    if any(now[q] != before[w][q] for q in range(n) if q != r):
                        bad.append('other rows moved: %r -> %r' % (before[w], now))
                elif now != before[w]:
                    bad.append('another view changed')
            if set(V.Nk()) != set(zr.values()):
                bad.append('counts %r do not match %r' % (V.Nk(), zr))
    return {'outs': outs, 'bad': bad[:3]}


# ------------------------------------------------------- incorporate a row
def incorporate(job):
    cfg = job['cfg']
    n = cfg['n']
    state = gen.build(cfg, job['seed'])
    defs = {x['id']: x for x in cfg['cols']}
    obs = {c: comps.value(defs[c], x) for c, x in job['row'].items() if x != comps.NAN}
    outs = {v: [] for v in state.views}
    bad = []
    for _ in range(job['reps']):
        o = dict(obs)
        for v, k in job['given'].items():
            o[state.views[v].outputs[0]] = k
        state.incorporate(n, o)
        for v in state.views:
            zr = state.views[v].Zr()
            outs[v].append(groups(zr, n, n + 1))
            if v in job['given'] and zr[n] != job['given'][v]:
                bad.append('named cluster %r ignored: %r' % (job['given'][v], zr[n]))
            if any(zr[q] != cfg['zrv'][v][q] for q in range(n)):
                bad.append('other rows moved')
        state.unincorporate(n)
    return {'outs': outs, 'bad': bad[:3]}


# ------------------------------------------------------------------ sweeps
def sweep(job):
    """Start from exact posterior draws of the partition; one sweep of all
    rows must leave that law invariant."""
    cfg, v = job['cfg'], job['v']
    n = cfg['n']
    rng = np.random.RandomState(job['seed'])
    parts, probs = job['parts'], np.array(job['probs'])
    outs, ups = [], np.zeros(n)
    for i in range(job['reps']):
        z = parts[rng.choice(len(parts), p=probs)]
        g = dict(cfg)
        g['zrv'] = dict(cfg['zrv'])
        g['zrv'][v] = list(z)
        state = gen.build(g, int(rng.randint(2 ** 31)))
        rows = job['rows']
        if i % 2:
            state.transition_view_rows(views=[v], rows=rows)
        else:
            state.transition(N=1, kernels=['rows'], views=[v], rowids=rows, progress=False)
        outs.append(partition(state.views[v].Zr(), n))
    return {'outs': outs, 'bad': []}


def touched(job):
    """Which rows ever move under sweeps of the requested rows."""
    cfg = job['cfg']
    n = cfg['n']
    state = gen.build(cfg, job['seed'])
    views = [w for w in state.views if w in job['vs']]
    moved = {w: [0] * n for w in state.views}
    for _ in range(job['reps']):
        old = {w: dict(state.views[w].Zr()) for w in state.views}
        state.transition_view_rows(views=job['vs'] if job['cols'] is None else None,
                                   cols=job['cols'], rows=job['rows'])
        for w in state.views:
            now = state.views[w].Zr()
            for q in range(n):
                if now[q] != old[w][q]:
                    moved[w][q] += 1
    return {'moved': moved, 'views': views}


# -------------------------------------------------- uncollapsed components
def martingale(job):
    """Uncollapsed columns: parameters change as clusters are born, so each
    draw is judged against the kernel given the parameters at that moment."""
    cfg, v, r = job['cfg'], job['v'], job['r']
    n = cfg['n']
    state = gen.build(cfg, job['seed'])
    V = state.views[v]
    tot = {}
    for i in range(job['reps']):
        if i % 17 == 0:
            state.transition_dim_params()
            for d in V.dims.values():
                d.transition_hypers()       # refreshes auxiliary parameters
        env = {('view', v): float(V.alpha())}
        own = V.Zr(r)
        for c, d in V.dims.items():
            for h in comps.HYPERS[[x for x in cfg['cols'] if x['id'] == c][0]['type']]:
                env[(c, h)] = float(d.hypers[h])
            for k, comp in d.clusters.items():
                for p, x in comp.get_params().items():
                    env[('par', c, int(k), p)] = float(x)
            for p, x in d.aux_model.get_params().items():
                env[('par', c, -1, p)] = float(x)
        lone = sum(1 for q in range(n) if V.Zr(q) == own) == 1
        # the specification's labels: row 1 of each other cluster
        w = job['lone' if lone else 'seated']
        if lone:
            for c in V.dims:
                for (a, cc, k, p) in [k for k in env if k[0] == 'par' and k[1] == c and k[2] == own]:
                    env[('par', cc, job['label'], p)] = env[(a, cc, k, p)]
        lp = np.array([expr.logev(x[1], env) for x in w])
        pr = np.exp(lp - lp.max())
        pr /= pr.sum()
        V.transition_rows(rows=[r])
        now = V.Zr(r)
        keys = [x[0] for x in w]
        # a label that no other row has is the fresh one
        hit = now if now in keys else -1
        for k, p in zip(keys, pr):
            s = tot.setdefault(k, [0., 0.])
            s[0] += (1. if k == hit else 0.) - p
            s[1] += p * (1 - p)
    return tot


def lone_model(m, v, r, label):
    """m with row r alone under its own label / seated with another row."""
    a = copy.deepcopy(m)
    for V in a['views']:
        if V['id'] == v:
            V['z'][r] = label
    return a


def kernel_probs(w, env, z, r):
    lp = [(k, expr.logev(e, env)) for k, e in w]
    mx = max(x for _, x in lp)
    tot = sum(math.exp(x - mx) for _, x in lp)
    out = {}
    for k, x in lp:
        key = () if k == -1 else tuple(q for q in range(len(z)) if q != r and z[q] == k)
        out[key] = math.exp(x - mx) / tot
    return out


def rgs(n):
    out = [[]]
    for _ in range(n):
        out = [p + [k] for p in out for k in range(max(p + [-1]) + 2)]
    return out


def run(c):
    py2load.install()
    design.mixture(c, ['RowGibbs', 'Predictive'])
    rng = np.random.RandomState(5000 + c.seed)
    jobs, qs, envs = [], [], []

    # A: one row, everything else fixed
    for i in range(c.pick(48, 240)):
        kw = [{'n': int(rng.randint(2, 6))}, {'n': int(rng.randint(4, 9)), 'm': 3, 'max_views': 2},
              {'n': 4, 'm': 1}, {'n': 5, 'missing': .5, 'm': 4}][i % 4]
        cfg = gen.config(rng, **kw)
        if i % 4 == 3:
            cfg = gen.evolved(rng, cfg)
        v = sorted(cfg['zrv'])[rng.randint(len(cfg['zrv']))]
        r = int(rng.randint(cfg['n']))
        if 'from' in cfg:
            pass
        elif i % 5 == 0:      # start alone
            cfg['zrv'][v][r] = max(cfg['zrv'][v]) + 1 + int(rng.randint(3))
        elif i % 7 == 0:      # a large label gap, cluster zero unused
            cfg['zrv'][v] = [z + 11 for z in cfg['zrv'][v]]
        m, env = gen.model_of_config(cfg)
        jobs.append({'what': 'single', 'cfg': cfg, 'v': v, 'r': r, 'path': i % 3,
                     'reps': c.pick(1500, 6000), 'seed': int(rng.randint(2 ** 31))})
        qs.append([{'k': 'rowkernel', 'm': m, 'v': v, 'r': r + 1}])
        envs.append(env)
    # B: incorporate without naming the cluster
    for i in range(c.pick(16, 80)):
        cfg = gen.config(rng, n=int(rng.randint(1, 6)), m=int(rng.randint(1, 5)))
        if i % 3 == 0:
            for v in cfg['zrv']:
                cfg['zrv'][v] = [z + 5 for z in cfg['zrv'][v]]
        row = {x['id']: (comps.NAN if rng.rand() < .25 else comps.code(x, rng)) for x in cfg['cols']}
        given = {}
        if len(cfg['zrv']) > 1 and i % 2:
            v = sorted(cfg['zrv'])[0]
            given[v] = int(rng.choice(cfg['zrv'][v] + [max(cfg['zrv'][v]) + 3]))
        ext = copy.deepcopy(cfg)
        ext['n'] += 1
        for x in ext['cols']:
            x['x'].append(row[x['id']])
        for v in ext['zrv']:
            ext['zrv'][v].append(999)
        m, env = gen.model_of_config(ext)
        jobs.append({'what': 'incorporate', 'cfg': cfg, 'row': row, 'given': given,
                     'reps': c.pick(700, 3000), 'seed': int(rng.randint(2 ** 31))})
        qs.append([{'k': 'rowkernel', 'm': m, 'v': v, 'r': ext['n']} for v in sorted(ext['zrv'])])
        envs.append(env)
    # C: sweeps keep the posterior of the partition
    for i in range(c.pick(8, 30)):
        n = 3
        cfg = gen.config(rng, n=n, m=int(rng.randint(1, 4)), missing=.1, max_views=2)
        v = sorted(cfg['zrv'])[0]
        m, env = gen.model_of_config(cfg)
        parts = rgs(n)
        ms = []
        for z in parts:
            a = copy.deepcopy(m)
            for V in a['views']:
                if V['id'] == v:
                    V['z'] = list(z)
            ms.append({'k': 'score', 'm': a, 'cd': []})
        jobs.append({'what': 'sweep', 'cfg': cfg, 'v': v, 'parts': parts,
                     'rows': None if i % 2 else [0, 1, 2],
                     'reps': c.pick(800, 4000), 'seed': int(rng.randint(2 ** 31))})
        qs.append(ms)
        envs.append(env)
    # D: which rows and views a request touches
    for i in range(c.pick(10, 40)):
        n = int(rng.randint(4, 8))
        cfg = gen.config(rng, n=n, m=5, types=['bernoulli', 'categorical'], missing=.9)
        vs = sorted(cfg['zrv'])
        pick = [vs[rng.randint(len(vs))]]
        cols = None
        if i % 3 == 1:
            cols = [o for o in cfg['outs'] if cfg['zv'][o] in pick][:1]
        rows = sorted(int(x) for x in rng.choice(n, int(rng.randint(1, n)), replace=False))
        if i % 3 == 2:
            pick, rows = vs, None
        cfg['va'] = {v: 2. for v in cfg['va']}
        jobs.append({'what': 'touched', 'cfg': cfg, 'vs': pick, 'cols': cols, 'rows': rows,
                     'reps': 250, 'seed': int(rng.randint(2 ** 31))})
        qs.append([])
        envs.append(None)
    # E: uncollapsed components
    for i in range(c.pick(8, 40)):
        t = comps.UNCOLLAPSED[i % 2]
        cfg = gen.config(rng, n=4, m=2, types=[t, 'normal', t], max_views=1, missing=.1)
        v = sorted(cfg['zrv'])[0]
        z = [[3, 3, 8, 8], [3, 8, 8, 8], [3, 3, 3, 3], [3, 5, 8, 3]][(i // 2) % 4]
        cfg['zrv'][v] = list(z)
        r = int(rng.randint(4))
        m, env = gen.model_of_config(cfg)
        other = [q for q in range(4) if q != r][0]
        jobs.append({'what': 'martingale', 'cfg': cfg, 'v': v, 'r': r, 'label': 777,
                     'reps': c.pick(600, 3000), 'seed': int(rng.randint(2 ** 31))})
        qs.append([{'k': 'rowkernel', 'm': lone_model(m, v, r, 777), 'v': v, 'r': r + 1},
                   {'k': 'rowkernel', 'm': lone_model(m, v, r, z[other]), 'v': v, 'r': r + 1}])
        envs.append(env)

    flat = [q for g in qs for q in g]
    ans, rs = tlc.batch('Oracle', flat, jobs=8)
    c.tlc(rs)
    it = iter(ans)
    answers = [[next(it) for _ in g] for g in qs]
    for j, a, env in zip(jobs, answers, envs):
        if j['what'] == 'sweep':
            lp = np.array([expr.logev(x['score'], env) for x in a])
            pr = np.exp(lp - lp.max())
            j['probs'] = list(pr / pr.sum())
        if j['what'] == 'martingale':
            j['lone'], j['seated'] = a[0]['w'], a[1]['w']
    res = harness.pmap(dispatch, jobs)
    for j, a, env, o in zip(jobs, answers, envs, res):
        judge(c, j, a, env, o)
    c.sample({'config': jobs[0]['cfg'], 'row': jobs[0]['r'], 'view': jobs[0]['v']})
    c.cov['distinct_nontrivial'] = len(jobs)
    c.cov['rule'] = 'one configuration (state, view, row or row set) per count'
    c.assumptions += ['distributions compared by likelihood-ratio tests at 1e-10',
                      'auxiliary parameters of uncollapsed columns are taken as given']


def dispatch(j):
    return {'single': single, 'incorporate': incorporate, 'sweep': sweep,
            'touched': touched, 'martingale': martingale}[j['what']](j)


def judge(c, j, a, env, o):
    rep = {k: v for k, v in j.items() if k not in ('lone', 'seated')}
    c.traces()
    for b in o.get('bad', []):
        c.violation('frame:' + j['what'], b, rep)
    if j['what'] == 'single':
        z = j['cfg']['zrv'][j['v']]
        pr = kernel_probs(a[0]['w'], env, z, j['r'])
        dist(c, 'kernel', o['outs'], pr, rep)
        c.add('draws', len(o['outs']))
        ip = vstats.independent(zip(o['outs'][:-1], o['outs'][1:]))
        if ip < vstats.ALPHA:
            c.violation('kernel-memory', 'the draw depends on where the row was (p=%g)' % ip, rep)
    elif j['what'] == 'incorporate':
        n = j['cfg']['n']
        for v, x in zip(sorted(j['cfg']['zrv']), a):
            if v in j['given']:
                continue
            pr = kernel_probs(x['w'], env, j['cfg']['zrv'][v] + [999], n)
            dist(c, 'incorporate', o['outs'][v], pr, rep)
    elif j['what'] == 'sweep':
        pr = {tuple(z): p for z, p in zip(j['parts'], j['probs'])}
        dist(c, 'sweep', o['outs'], pr, rep)
    elif j['what'] == 'touched':
        n = j['cfg']['n']
        rows = j['rows'] if j['rows'] is not None else range(n)
        for w, m in o['moved'].items():
            for q in range(n):
                if m[q] and (w not in j['vs'] or q not in rows):
                    c.violation('touched', 'row %d of view %r moved, requested rows %r of '
                                'views %r' % (q, w, j['rows'], j['vs']), rep)
                if not m[q] and w in j['vs'] and q in rows:
                    c.violation('untouched', 'row %d of view %r never moved in %d sweeps of '
                                'rows %r' % (q, w, j['reps'], j['rows']), rep)
    else:
        for k, (s, var) in o.items():
            c.add('draws', j['reps'])
            if var > 5 and abs(s) > 6.7 * math.sqrt(var) or var <= 5 and abs(s) > 25:
                c.violation('uncollapsed-kernel', 'cluster %r was chosen %.1f more often than '
                            'the kernel says (sd %.1f)' % (k, s, math.sqrt(var)), rep)


def dist(c, key, outs, pr, rep):
    counts = {}
    for x in outs:
        counts[x] = counts.get(x, 0) + 1
    for x in counts:
        if pr.get(x, 0) == 0:
            c.violation(key + '-support', 'reached %r, which the specification excludes' % (x,), rep)
            return
    p = vstats.gtest(counts, pr)
    if p < vstats.ALPHA:
        n = float(len(outs))
        c.violation(key, 'frequencies %r, specification %r (p=%g)' % (
            {k: round(v / n, 3) for k, v in sorted(counts.items())},
            {k: round(v, 3) for k, v in sorted(pr.items())}, p), rep)
