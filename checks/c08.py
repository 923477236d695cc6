"""C08 Conditional density queries are exact.

Oracle: Mixture.tla RowDensity / ObservedDensity / ViewDensity*.  TLC emits the
density of every generated query as an expression over the model's symbols;
every query path of the real code has to return its value.
"""

import math

import numpy as np

import comps
import design
import expr
import gen
import harness
import py2load
import tlc


def hypothetical(rng, n):
    return [None, -1, n, n + 7, 10 ** 6][rng.randint(5)]


def configs(c, rng):
    out = []
    for i in range(c.pick(36, 220)):
        kind = i % 6
        kw = {}
        if kind == 0:
            kw = {'n': int(rng.randint(1, 4)), 'm': 1}
        elif kind == 1:
            kw = {'types': ['bernoulli', 'categorical'], 'n': 5}
        elif kind == 2:
            kw = {'n': int(rng.randint(6, 14)), 'm': 6}
        elif kind == 3:
            kw = {'max_views': 1, 'm': 4}
        elif kind == 4:
            kw = {'missing': .6}
        cfg = gen.config(rng, **kw)
        if i % 3 == 2:
            cfg = gen.evolved(rng, cfg)
        out.append(plan(cfg, rng, c.pick(9, 14)))
    return out


def plan(cfg, rng, n_q):
    """Queries of one configuration, as (kind, spec query, call)."""
    defs = {x['id']: x for x in cfg['cols']}
    m, _ = gen.model_of_config(cfg)
    qs = []
    n = cfg['n']
    for _ in range(n_q):
        t, k = gen.query(rng, cfg)
        qs.append({'kind': 'row', 'rowid': hypothetical(rng, n), 't': t, 'c': k,
                   'q': {'k': 'logpdf', 'm': m, 't': gen.pairs(t), 'c': gen.pairs(k)}})
    # observed rows: targets among the missing cells of the row
    for r in range(n):
        free = [x['id'] for x in cfg['cols'] if x['x'][r] == comps.NAN]
        if not free:
            continue
        t, k = gen.query(rng, cfg, only=free, n_c=None if rng.rand() < .5 else 0)
        if rng.rand() < .5:         # restating an observed cell is no change
            seen = [x for x in cfg['cols'] if x['x'][r] != comps.NAN]
            if seen:
                x = seen[rng.randint(len(seen))]
                k = _with(k, x['id'], x['x'][r])
        qs.append({'kind': 'obs', 'rowid': r, 't': t, 'c': k,
                   'q': {'k': 'logpdf_obs', 'm': m, 'r': r + 1, 't': gen.pairs(t)}})
    # single views, with the cluster marginal, target or given
    for v in sorted(set(cfg['zv'].values())):
        cols = [o for o in cfg['outs'] if cfg['zv'][o] == v]
        ks = sorted(set(cfg['zrv'][v]))
        for _ in range(3):
            t, k = gen.query(rng, cfg, only=cols)
            qs.append({'kind': 'view', 'v': v, 'rowid': hypothetical(rng, n), 't': t, 'c': k,
                       'q': {'k': 'logpdf_view', 'm': m, 'v': v, 't': gen.pairs(t),
                             'c': gen.pairs(k)}})
            z = int(rng.choice(ks + [-1]))
            t2, k2 = gen.query(rng, cfg, only=cols, n_t=int(rng.randint(0, len(cols) + 1)))
            qs.append({'kind': 'view_z', 'v': v, 'rowid': hypothetical(rng, n), 't': t2, 'c': k2,
                       'z': z, 'q': {'k': 'logpdf_view_z', 'm': m, 'v': v, 't': gen.pairs(t2),
                                     'c': gen.pairs(k2), 'z': z}})
            qs.append({'kind': 'view_gz', 'v': v, 'rowid': hypothetical(rng, n), 't': t, 'c': k,
                       'z': z, 'q': {'k': 'logpdf_view_gz', 'm': m, 'v': v, 't': gen.pairs(t),
                                     'z': z}})
    return {'cfg': cfg, 'qs': qs, 'defs': defs}


def ask(job):
    """All paths of the real code, for every query."""
    cfg, defs = job['cfg'], job['defs']
    state = gen.build(cfg)
    out = []
    bulk = {'row': ([], [], []), 'obs': ([], [], [])}
    for q in job['qs']:
        t, k = gen.values(q['t'], defs), gen.values(q['c'], defs)
        res = {}
        if q['kind'] in ('row', 'obs'):
            res['state'] = state.logpdf(q['rowid'], dict(t), dict(k) or None)
            res['state-again'] = state.logpdf(q['rowid'], dict(t), dict(k))
            net = state.build_network(accuracy=1)
            if q['kind'] == 'row':
                res['network'] = net.logpdf(q['rowid'], dict(t), dict(k))
            net3 = state.build_network(accuracy=3)
            if q['kind'] == 'row':
                res['network3'] = net3.logpdf(q['rowid'], dict(t), dict(k))
            b = bulk[q['kind']]
            b[0].append(q['rowid'])
            b[1].append(t)
            b[2].append(k)
            # columns all in one view: ask the view itself
            vs = set(cfg['zv'][x] for x in list(t) + list(k))
            if len(vs) == 1:
                res['view'] = state.views[list(vs)[0]].logpdf(q['rowid'], dict(t), dict(k))
        else:
            V = state.views[q['v']]
            zid = V.outputs[0]
            if q['kind'] == 'view':
                res['view'] = V.logpdf(q['rowid'], dict(t), dict(k) or None)
            else:
                z = q['z']
                if z == -1:
                    z = max(V.Zr().values()) + 1
                if q['kind'] == 'view_z':
                    res['view-joint-cluster'] = V.logpdf(
                        q['rowid'], _with(t, zid, z), dict(k) or None)
                else:
                    res['view-given-cluster'] = V.logpdf(q['rowid'], dict(t), _with(k, zid, z))
        out.append({p: float(x) for p, x in res.items()})
    for kind in bulk:
        rows, ts, ks = bulk[kind]
        if rows:
            i = [j for j, q in enumerate(job['qs']) if q['kind'] == kind]
            vals = state.logpdf_bulk(rows, ts, ks)
            if len(vals) != len(rows):
                out.append({'bulk-length': float(len(vals))})
            for j, x in zip(i, vals):
                out[j]['bulk'] = float(x)
    return out


def _with(d, k, v):
    d = dict(d)
    d[k] = v
    return d


def relabel(cfg, rng):
    """The same model under other view and cluster names and column order."""
    import copy
    g = copy.deepcopy(cfg)
    g.pop('from', None)
    ids = sorted(set(cfg['zv'].values()))
    new = [int(x) for x in rng.choice(np.arange(40), len(ids), replace=False)]
    f = dict(zip(ids, new))
    g['zv'] = {c: f[v] for c, v in cfg['zv'].items()}
    g['va'] = {f[v]: a for v, a in cfg['va'].items()}
    g['zrv'] = {}
    for v, z in cfg['zrv'].items():
        ks = sorted(set(z))
        h = dict(zip(ks, [int(x) for x in rng.choice(np.arange(40), len(ks), replace=False)]))
        g['zrv'][f[v]] = [h[k] for k in z]
    order = rng.permutation(len(g['outs']))
    g['outs'] = [g['outs'][i] for i in order]
    g['cols'] = [g['cols'][i] for i in order]
    return g


def total_mass(job):
    """Discrete joint: the densities of all assignments sum to one."""
    cfg, defs = job['cfg'], job['defs']
    state = gen.build(cfg)
    import itertools
    disc = [x['id'] for x in cfg['cols'] if x['type'] in ('bernoulli', 'categorical')][:3]
    if not disc:
        return None
    tot = 0.
    for xs in itertools.product(*[range(defs[c]['k']) for c in disc]):
        tot += math.exp(state.logpdf(None, dict(zip(disc, xs))))
    return tot


def run(c):
    py2load.install()
    design.mixture(c, ['SumsToOne', 'ChainRule', 'OtherViews', 'JointZ'])
    rng = np.random.RandomState(8000 + c.seed)
    jobs = configs(c, rng)
    res = harness.pmap(ask, jobs)
    flat = [q['q'] for j in jobs for q in j['qs']]
    ans, rs = tlc.batch('Oracle', flat, jobs=8)
    c.tlc(rs)
    i = 0
    for j, out in zip(jobs, res):
        _m, env = gen.model_of_config(j['cfg'])
        for q, o in zip(j['qs'], out):
            w = expr.logev(ans[i]['p'], env)
            i += 1
            c.traces()
            for path, x in sorted(o.items()):
                c.add('comparisons')
                if not comps.close(x, w, 1e-7):
                    c.violation('density:%s:%s' % (q['kind'], path),
                                '%s gives log density %r for targets %r given %r (row %r), '
                                'the specification %r' % (path, x, q['t'], q['c'],
                                                          q['rowid'], w),
                                {'config': j['cfg'], 'query': {k: v for k, v in q.items() if k != 'q'}})
            for bad in set(o) & {'bulk-length'}:
                c.violation('bulk-length', 'logpdf_bulk length', {'config': j['cfg']})
        if len(out) != len(j['qs']):
            c.violation('bulk-length', 'logpdf_bulk returned the wrong number of results',
                        {'config': j['cfg']})
    # relabelled twins answer alike
    tw = []
    for j in jobs[:c.pick(18, 100)]:
        g = relabel(j['cfg'], rng)
        tw.append({'cfg': g, 'defs': j['defs'],
                   'qs': [q for q in j['qs'] if q['kind'] in ('row', 'obs')]})
    for j, t, out in zip(jobs, tw, harness.pmap(ask, tw)):
        base = [o for q, o in zip(j['qs'], res[jobs.index(j)]) if q['kind'] in ('row', 'obs')]
        for q, a, b in zip(t['qs'], base, out):
            c.add('comparisons')
            if not comps.close(a['state'], b['state'], 1e-7):
                c.violation('labels', 'renaming views and clusters changes the density of %r | %r '
                            'from %r to %r' % (q['t'], q['c'], a['state'], b['state']),
                            {'config': j['cfg'], 'twin': t['cfg']})
    for j, m in zip(jobs, harness.pmap(total_mass, jobs)):
        if m is not None and not comps.close(m, 1.):
            c.violation('normalised', 'discrete joint sums to %r' % m, {'config': j['cfg']})
    c.sample({'config': jobs[0]['cfg'], 'query': [jobs[0]['qs'][0]['t'], jobs[0]['qs'][0]['c']]})
    c.cov['distinct_nontrivial'] = len(flat)
    c.cov['rule'] = 'one (state, query) pair per count; states have unordered ids, NaN cells'
    c.assumptions.append('log densities compared at relative 1e-7')
