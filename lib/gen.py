"""Random CrossCat states with arbitrary shapes, and the specification's view
of a real state (the record M of Mixture.tla with an environment)."""

import numpy as np

import comps
from comps import NAN

BASE = 10 ** 7


def sym(*a):
    return ['s'] + list(a)


def config(rng, n=None, m=None, types=None, missing=.2, zero_based=False,
           max_views=None, distinct_ids=True, bounded=False):
    """A random state description: outputs, codes, partitions, hypers."""
    n = n if n is not None else int(rng.randint(1, 9))
    m = m if m is not None else int(rng.randint(1, 7))
    types = types or comps.COLUMN_TYPES
    if zero_based:
        outs = list(range(m))
    else:
        outs = [int(x) for x in rng.choice(np.arange(40), m, replace=False)]
    cols = []
    for c in outs:
        t = types[rng.randint(len(types))]
        col = comps.col(t, rng, c)
        col['x'] = [NAN if rng.rand() < missing else comps.code(col, rng) for _ in range(n)]
        if all(x == NAN for x in col['x']):     # grids need an observation
            col['x'][rng.randint(n)] = comps.code(col, rng)
        cols.append(col)
    k = int(rng.randint(1, min(m, max_views or m) + 1))
    lab = [int(x) for x in rng.choice(k, m)]
    ids = [int(x) for x in rng.choice(np.arange(25), k, replace=False)]
    if not distinct_ids:
        ids = sorted(ids)
    zv = {c: ids[z] for c, z in zip(outs, lab)}
    zrv, va = {}, {}
    for v in sorted(set(zv.values())):
        q = int(rng.randint(1, n + 1))
        if rng.rand() < .5:
            q = min(q, 3)
        names = [int(x) for x in rng.choice(np.arange(30), q, replace=False)]
        zrv[v] = [names[i] for i in rng.choice(q, n)]
        va[v] = float(np.exp(rng.uniform(-1.2, 1.5)))
    hy = {c['id']: comps.hypers(c['type'], rng) for c in cols}
    return {'n': n, 'outs': outs, 'cols': cols, 'zv': zv, 'zrv': zrv,
            'va': va, 'alpha': float(np.exp(rng.uniform(-1.2, 1.5))), 'hy': hy,
            'seed': int(rng.randint(2 ** 31))}


def matrix(cfg):
    return np.array([[float(comps.value(c, c['x'][r])) for c in cfg['cols']]
                     for r in range(cfg['n'])])


def evolved(rng, cfg, steps=None):
    """The configuration that a state of `cfg` reaches by a history of
    accepted requests, read from its public projection; build() repeats the
    history, so that what the state answers can be compared with what its
    data, partitions and hyperparameters say."""
    e = int(rng.randint(2 ** 31))
    steps = steps or int(rng.randint(3, 9))
    state = build(cfg)
    _evolve(state, cfg, e, steps)
    g = dict(cfg)
    defs = {c['id']: c for c in cfg['cols']}
    g['from'] = {'cfg': cfg, 'seed': e, 'steps': steps}
    g['n'] = state.n_rows()
    g['outs'] = [int(c) for c in state.outputs]
    g['cols'] = cols_record(state, None, defs)
    g['zv'] = {int(c): int(v) for c, v in state.Zv().items()}
    g['zrv'] = {int(v): [int(V.Zr(r)) for r in range(g['n'])] for v, V in state.views.items()}
    g['va'] = {int(v): float(V.alpha()) for v, V in state.views.items()}
    g['alpha'] = float(state.alpha())
    g['hy'] = {c: {h: float(state.dim_for(c).hypers[h]) for h in cfg['hy'][c]} for c in g['outs']}
    return g


def _evolve(state, cfg, seed, steps):
    rng = np.random.RandomState(seed)
    defs = {c['id']: c for c in cfg['cols']}
    for _ in range(steps):
        a = rng.randint(9)
        n = state.n_rows()
        if a == 0:
            state.transition_dim_hypers()
        elif a == 1:
            state.transition_dims()
        elif a == 2:
            state.transition_view_rows()
        elif a == 3:
            state.transition_view_alphas()
            state.transition_crp_alpha()
        elif a in (4, 5):
            row = {c: float(comps.value(defs[c], comps.code(defs[c], rng)))
                   for c in state.outputs if rng.rand() < .8}
            if row:
                for v in list(state.views):
                    if rng.rand() < .3:
                        row[BASE + int(v)] = int(rng.choice(30))
                state.incorporate(n, row)
        elif a == 6 and n > 1:
            state.unincorporate(n - 1)
        elif a == 7:
            holes = [(c, r) for c in state.outputs for r in range(n) if np.isnan(state.X[c][r])]
            if holes:
                c, r = holes[rng.randint(len(holes))]
                state.force_cell(r, {c: float(comps.value(defs[c], comps.code(defs[c], rng)))})
        elif a == 8 and state.n_cols() > 1:
            c = int(rng.choice(state.outputs))
            T = list(state.X[c])
            d = defs[c]
            state.unincorporate_dim(c)
            v = [None, int(rng.choice(list(state.views))), max(state.views) + 1][rng.randint(3)]
            state.incorporate_dim(T, [c], cctype=d['type'], distargs=comps.distargs(d) or None, v=v)


def build(cfg, seed=None, rng=None, **kw):
    if 'from' in cfg:
        f = cfg['from']
        assert not any(kw.values())
        state = build(f['cfg'])
        _evolve(state, f['cfg'], f['seed'], f['steps'])
        if rng is not None or seed is not None:
            state.rng.set_state((rng or np.random.RandomState(seed)).get_state())
        return state
    from cgpm.crosscat.state import State
    args = dict(outputs=list(cfg['outs']),
                cctypes=[c['type'] for c in cfg['cols']],
                distargs=[comps.distargs(c) or None for c in cfg['cols']],
                Zv=dict(cfg['zv']), Zrv={v: list(z) for v, z in cfg['zrv'].items()},
                alpha=cfg['alpha'], view_alphas=dict(cfg['va']),
                hypers=[dict(cfg['hy'][c]) or None for c in cfg['outs']],
                rng=rng or np.random.RandomState(cfg['seed'] if seed is None else seed))
    args.update(kw)
    return State(matrix(cfg), **args)


def cols_record(state, ids=None, coldefs=None):
    """The column records of a real state; None if a cell is not a code."""
    out = []
    for c in (ids or state.outputs):
        col = dict(coldefs[c])
        col['x'] = [comps.encode(col, v) for v in state.X[c]]
        out.append(col)
    return out


def model(state, coldefs):
    """The record M and the environment of its symbols, read from the real
    state's public projection."""
    env = {('crp',): float(state.alpha())}
    cols = cols_record(state, None, coldefs)
    views = []
    n = state.n_rows()
    for v in sorted(state.views):
        V = state.views[v]
        zr = V.Zr()
        mem = [c for c in state.outputs if state.Zv(c) == v]
        views.append({'id': int(v), 'cols': mem, 'z': [int(zr[r]) for r in range(n)],
                      'alpha': sym('view', int(v))})
        env[('view', int(v))] = float(V.alpha())
        for c in mem:
            dim = V.dims[c]
            for h in comps.HYPERS[coldefs[c]['type']]:
                env[(c, h)] = float(dim.hypers[h])
            if coldefs[c]['type'] in comps.UNCOLLAPSED:
                for k, comp in dim.clusters.items():
                    for p, x in comp.get_params().items():
                        env[('par', c, int(k), p)] = float(x)
    return {'n': n, 'cols': cols, 'views': views, 'alpha': sym('crp')}, env


def model_of_config(cfg):
    """The same record from the configuration alone."""
    env = {('crp',): cfg['alpha']}
    views = []
    for v in sorted(set(cfg['zv'].values())):
        views.append({'id': v, 'cols': [c for c in cfg['outs'] if cfg['zv'][c] == v],
                      'z': list(cfg['zrv'][v]), 'alpha': sym('view', v)})
        env[('view', v)] = cfg['va'][v]
    for c in cfg['outs']:
        for h, x in cfg['hy'][c].items():
            env[(c, h)] = x
    return {'n': cfg['n'], 'cols': [dict(c) for c in cfg['cols']], 'views': views,
            'alpha': sym('crp')}, env


def pairs(q):
    """dict -> sequence of pairs for the specification"""
    return [[c, x] for c, x in sorted(q.items())]


def values(q, coldefs):
    return {c: comps.value(coldefs[c], x) for c, x in q.items()}


def query(rng, cfg, n_t=None, n_c=None, only=None):
    """Disjoint random targets and constraints (codes)."""
    ids = list(only if only is not None else cfg['outs'])
    defs = {c['id']: c for c in cfg['cols']}
    rng.shuffle(ids)
    n_t = n_t if n_t is not None else int(rng.randint(1, min(4, len(ids)) + 1))
    left = ids[n_t:]
    n_c = n_c if n_c is not None else int(rng.randint(0, min(4, len(left)) + 1))
    t = {c: comps.code(defs[c], rng) for c in ids[:n_t]}
    k = {c: comps.code(defs[c], rng) for c in left[:n_c]}
    return t, k
