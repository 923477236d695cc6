"""C06 Column inference samples views from the exact conditional.

Oracle: Mixture.tla ColKernel (detailed balance against ModelScore shown by TLC,
theorem ColBalance).  With everything else fixed, transitions of one column
from the same state are independent draws from it, up to the name of a fresh
view.
"""

import copy
import itertools
import math

import numpy as np

import comps
import design
import expr
import gen
import harness
import py2load
import tlc
import vstats


def canon(zr, n):
    seen = {}
    return tuple(seen.setdefault(zr[r], len(seen) + 1) for r in range(n))


def snap(state, skip):
    """Everything a transition of column `skip` must leave alone."""
    out = {}
    n = state.n_rows()
    for c in state.outputs:
        if c != skip:
            v = state.Zv(c)
            V = state.views[v]
            out[c] = (v, tuple(V.Zr()[r] for r in range(n)), float(V.alpha()),
                      repr(sorted(V.dims[c].hypers.items())),
                      repr(sorted((k, sorted(s.get_suffstats().items(), key=repr))
                                  for k, s in V.dims[c].clusters.items())))
    out['crp'] = float(state.alpha())
    out['X'] = repr(list(state.X.items()))
    out['outputs'] = list(state.outputs)
    return out


def draws(job):
    cfg, c = job['cfg'], job['c']
    n = cfg['n']
    state, outs, bad = None, [], []
    seeds = np.random.RandomState(job['seed'])
    others = sorted(set(cfg['zv'][o] for o in cfg['outs'] if o != c))
    dirty = True
    for i in range(job['reps']):
        if dirty:
            state = gen.build(cfg, int(seeds.randint(2 ** 31)), Ci=copy.deepcopy(job['ci']))
            base = snap(state, c)
            hyp = dict(state.dim_for(c).hypers)
            dirty = False
        if job['path'] == 0:
            state.transition_dims(cols=[c], m=job['m'])
        else:
            state.transition(N=1, kernels=['columns'], cols=[c], progress=False)
        v = state.Zv(c)
        fresh = v not in others
        if fresh and job['lone'] and v == cfg['zv'][c]:
            outs.append(('own',))
            if canon(state.views[v].Zr(), n) != canon(cfg['zrv'][v], n):
                bad.append('staying changed the row partition')
        elif fresh:
            outs.append(('new', canon(state.views[v].Zr(), n)))
            dirty = True
        else:
            outs.append(('old', v))
            dirty = job['lone']
        if dirty or i % 40 == 0:
            now = snap(state, c)
            if now != base:
                bad.append('something else changed: %r' % sorted(
                    k for k in base if base[k] != now.get(k)))
            if set(state.views) != set(state.Zv(o) for o in state.outputs):
                bad.append('views %r do not match the partition %r' % (
                    list(state.views), dict(state.Zv())))
            if c not in state.views[v].dims or any(
                    c in state.views[w].dims for w in state.views if w != v):
                bad.append('column %d is not in exactly its view' % c)
            if dict(state.dim_for(c).hypers) != hyp:
                bad.append('hyperparameters of the column changed')
            d = state.dim_for(c)
            zr = state.views[v].Zr()
            got = dict(d.Zr)
            got.update(d.Zi)
            if got != dict(zr):
                bad.append('column %d keeps another row partition than its view' % c)
            nv = dict(state.Nv())
            want = {}
            for o in state.outputs:
                want[state.Zv(o)] = want.get(state.Zv(o), 0) + 1
            if nv != want:
                bad.append('column counts %r, not %r' % (nv, want))
    return {'outs': outs, 'bad': bad[:3]}


def sweep(job):
    """Full column sweeps under independence constraints never break them, and
    every unconstrained column moves."""
    cfg = job['cfg']
    state = gen.build(cfg, job['seed'], Ci=copy.deepcopy(job['ci']))
    bad = []
    moved = set()
    cols = job['cols']
    for i in range(job['reps']):
        part = dict(state.Zv())
        X = repr(list(state.X.items()))
        state.transition_dims(cols=cols, m=1 + i % 2)
        now = dict(state.Zv())
        for a, b in job['ci']:
            if now[a] == now[b]:
                bad.append('independent columns %d, %d share a view' % (a, b))
        if repr(list(state.X.items())) != X:
            bad.append('the data changed')
        for c in state.outputs:
            if now[c] != part[c]:
                moved.add(c)
        if set(state.views) != set(now.values()):
            bad.append('views do not match')
        if cols is not None:
            rest = [o for o in state.outputs if o not in cols]
            if any(now[o] != part[o] for o in rest):
                bad.append('a column that was not requested moved')
    # an unmoved column among >1 columns with weak data is a skipped one
    return {'bad': bad[:3], 'moved': sorted(moved)}


def stationary(job):
    """Sweeps over all columns leave the posterior of the column partition
    (rows fixed to one cluster each) invariant: start from exact draws."""
    cfg = job['cfg']
    rng = np.random.RandomState(job['seed'])
    outs = []
    n = cfg['n']
    for _ in range(job['reps']):
        s = job['starts'][rng.choice(len(job['starts']), p=job['probs'])]
        g = dict(cfg)
        g['zv'], g['zrv'], g['va'] = s['zv'], s['zrv'], s['va']
        st = gen.build(g, int(rng.randint(2 ** 31)))
        st.transition_dims(cols=None, m=job['m'])
        part = canon([st.Zv(c) for c in cfg['outs']], len(cfg['outs']))
        outs.append(part)
    return {'outs': outs, 'bad': []}


def run(c):
    py2load.install()
    design.mixture(c, ['ColGibbs', 'KernelSums', 'ColBalance'])
    rng = np.random.RandomState(6000 + c.seed)
    jobs, qs, envs = [], [], []
    for i in range(c.pick(44, 200)):
        m = 2 if i % 6 == 5 else 1
        n = int(rng.randint(1, 5)) if m == 1 else int(rng.randint(1, 4))
        if c.thorough and m == 1 and i % 4 == 0:
            n = 5
        cfg = gen.config(rng, n=n, m=int(rng.randint(2, 6)),
                         missing=.15, max_views=4)
        if i % 3 == 0 and len(set(cfg['zv'].values())) > 1:
            # ids out of storage order: numbers whose set order is not sorted
            ids = sorted(set(cfg['zv'].values()))
            new = [9, 16, 3, 24, 8][:len(ids)]
            f = dict(zip(ids, new))
            cfg['zv'] = {k: f[v] for k, v in cfg['zv'].items()}
            cfg['zrv'] = {f[v]: z for v, z in cfg['zrv'].items()}
            cfg['va'] = {f[v]: a for v, a in cfg['va'].items()}
        ci = []
        col = cfg['outs'][rng.randint(len(cfg['outs']))]
        if i % 4 == 1:      # some declared independences that already hold
            for a, b in itertools.combinations(cfg['outs'], 2):
                if cfg['zv'][a] != cfg['zv'][b] and (col in (a, b) or rng.rand() < .3):
                    ci.append([a, b] if rng.rand() < .5 else [b, a])
            ci = ci[:3]
        model, env = gen.model_of_config(cfg)
        lone = sum(1 for o in cfg['outs'] if cfg['zv'][o] == cfg['zv'][col]) == 1
        import cgpm.crosscat.state  # noqa: F401
        st = gen.build(cfg)
        grid = [float(x) for x in st.views[cfg['zv'][col]].crp.hyper_grids['alpha']]
        for j, x in enumerate(grid):
            env[('grid', j)] = x
        jobs.append({'what': 'draws', 'cfg': cfg, 'c': col, 'ci': ci, 'm': m, 'lone': lone,
                     'path': 1 if m == 1 and i % 2 else 0, 'reps': c.pick(900, 3500),
                     'seed': int(rng.randint(2 ** 31))})
        qs.append([{'k': 'colkernel', 'm': model, 'c': col, 'avoid': ci, 'aux': m,
                    'grid': [['s', 'grid', j] for j in range(len(grid))]}])
        envs.append(env)
    for i in range(c.pick(8, 30)):
        cfg = gen.config(rng, n=3, m=5, types=['bernoulli', 'categorical'], missing=.5)
        ci = [[a, b] for a, b in itertools.combinations(cfg['outs'], 2)
              if cfg['zv'][a] != cfg['zv'][b] and rng.rand() < .5][:4]
        cols = None if i % 2 else [int(x) for x in rng.choice(cfg['outs'], 2, replace=False)]
        jobs.append({'what': 'sweep', 'cfg': cfg, 'ci': ci, 'cols': cols, 'reps': 150,
                     'seed': int(rng.randint(2 ** 31))})
        qs.append([])
        envs.append(None)
    # stationarity of the joint (column partition, row partitions), 2 rows:
    # every state is enumerated with its exact posterior, view concentrations
    # integrated over their grid by enumeration of a few grid points
    for i in range(c.pick(4, 12)):
        cfg = gen.config(rng, n=2, m=3, types=['bernoulli', 'categorical', 'normal'],
                         missing=0, max_views=1)
        st = gen.build(cfg)
        grid = [float(x) for x in list(st.views.values())[0].crp.hyper_grids['alpha']]
        starts, ms, lw = [], [], []
        base, env = gen.model_of_config(cfg)
        for part in rgs(3):
            k = max(part) + 1
            for zs in itertools.product([[0, 0], [0, 1]], repeat=k):
                # the row-partition prior integrates the concentration
                zv = dict(zip(cfg['outs'], part))
                zrv = {v: list(zs[v]) for v in range(k)}
                starts.append({'zv': zv, 'zrv': zrv, 'va': {v: 1. for v in range(k)}})
                views = [{'id': v, 'cols': [o for o in cfg['outs'] if zv[o] == v],
                          'z': list(zs[v]), 'alpha': ['q', 1, 1]} for v in range(k)]
                m = dict(base, views=views)
                ms.append({'k': 'jointscore', 'm': m,
                           'grid': [['s', 'grid', j] for j in range(len(grid))]})
        for j, x in enumerate(grid):
            env[('grid', j)] = x
        jobs.append({'what': 'stationary', 'cfg': cfg, 'starts': starts, 'm': 1 + i % 2,
                     'reps': c.pick(700, 3000), 'seed': int(rng.randint(2 ** 31))})
        qs.append(ms)
        envs.append(env)
    flat = [q for g in qs for q in g]
    ans, rs = tlc.batch('Oracle', flat, jobs=8, min_chunk=4)
    c.tlc(rs)
    it = iter(ans)
    answers = [[next(it) for _ in g] for g in qs]
    for j, a, env in zip(jobs, answers, envs):
        if j['what'] == 'stationary':
            lp = np.array([expr.logev(x['score'], env) for x in a])
            pr = np.exp(lp - lp.max())
            j['probs'] = list(pr / pr.sum())
    res = harness.pmap(dispatch, jobs)
    for j, a, env, o in zip(jobs, answers, envs, res):
        judge(c, j, a, env, o)
    c.sample({'config': jobs[0]['cfg'], 'column': jobs[0]['c']})
    c.cov['distinct_nontrivial'] = len(jobs)
    c.cov['rule'] = 'one configuration (state, column, constraints, m) per count'
    c.assumptions += ['collapsed column types', 'at most 5 rows where the fresh row '
                      'partition is enumerated',
                      'distributions compared by likelihood-ratio tests at 1e-10']


def rgs(n):
    out = [[]]
    for _ in range(n):
        out = [p + [k] for p in out for k in range(max(p + [-1]) + 2)]
    return out


def dispatch(j):
    return {'draws': draws, 'sweep': sweep, 'stationary': stationary}[j['what']](j)


def judge(c, j, a, env, o):
    rep = j
    c.traces()
    for b in o['bad']:
        c.violation('frame:' + j['what'], b, rep)
    if j['what'] == 'draws':
        pr = {}
        for v, e in a[0]['existing']:
            p = expr.numev(e, env)
            pr[('own',) if j['lone'] and v == j['cfg']['zv'][j['c']] else ('old', v)] = p
        for z, e in a[0]['fresh']:
            pr[('new', tuple(z))] = expr.numev(e, env)
        if abs(sum(pr.values()) - 1) > 1e-6:
            raise RuntimeError('the kernel of the specification sums to %r' % sum(pr.values()))
        dist(c, 'kernel', o['outs'], pr, rep)
        c.add('draws', len(o['outs']))
    elif j['what'] == 'sweep':
        if len(j['cfg']['outs']) > 1:
            want = j['cols'] if j['cols'] is not None else j['cfg']['outs']
            for x in want:
                if x not in o['moved'] and not any(x in p for p in j['ci']):
                    c.violation('untouched', 'column %d never moved in %d sweeps' % (
                        x, j['reps']), rep)
    else:
        pr = {}
        for s, p in zip(j['starts'], j['probs']):
            k = canon([s['zv'][x] for x in j['cfg']['outs']], 3)
            pr[k] = pr.get(k, 0) + p
        dist(c, 'sweep', o['outs'], pr, rep)


def dist(c, key, outs, pr, rep):
    counts = {}
    for x in outs:
        counts[x] = counts.get(x, 0) + 1
    for x in counts:
        if pr.get(x, 0) == 0:
            c.violation(key + '-support', 'reached %r, which the specification excludes' % (x,), rep)
            return
    p = vstats.gtest(counts, pr)
    if p < vstats.ALPHA:
        n = float(len(outs))
        c.violation(key, 'frequencies %r, specification %r (p=%g)' % (
            {k: round(v / n, 3) for k, v in sorted(counts.items())},
            {k: round(v, 3) for k, v in sorted(pr.items())}, p), rep)
