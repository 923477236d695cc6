"""Random histories of requests, valid and invalid, for a real State."""

import math
import time
import traceback

import numpy as np

import cctrace
import comps
from cctrace import Recorder, NAN

ALLT = comps.COLUMN_TYPES + comps.UNCOLLAPSED
FAST = [t for t in comps.COLUMN_TYPES]
KERNELS = ['alpha', 'view_alphas', 'column_params', 'column_hypers', 'rows', 'columns']

OUTSIDE = {
    'bernoulli': [2., .5, -1.], 'poisson': [-1., .5], 'geometric': [-1., 1.5],
    'exponential': [-1., -.25], 'lognormal': [0., -1.], 'vonmises': [7., -1.],
    'beta': [2., 1.5, -.25]}


def outside(col, rng):
    """A value outside the support, or None."""
    t = col['type']
    if t == 'categorical':
        return float(rng.choice([col['k'], -1, .5]))
    if t == 'normal_trunc':
        return float(rng.choice([col['hi'] + 1., col['lo'] - 3.])) / col['den']
    if t in OUTSIDE:
        return float(rng.choice(OUTSIDE[t]))
    return None


def newcol(rng, cid, types):
    return comps.col(types[rng.randint(len(types))], rng, cid)


def val(col, rng):
    return float(comps.value(col, comps.code(col, rng)))


def column(col, rng, n, missing=.25):
    xs = [float('nan') if rng.rand() < missing else val(col, rng) for _ in range(n)]
    if rng.rand() < .06:
        return [float('nan')] * n
    if all(math.isnan(x) for x in xs) and rng.rand() < .6:
        xs[rng.randint(n)] = val(col, rng)
    return xs


def constraints(rng, outs):
    """A satisfiable set of dependence blocks and independent pairs."""
    outs = [int(c) for c in rng.permutation(outs)]
    cd, used = [], 0
    while used + 2 <= len(outs) and rng.rand() < .6:
        q = int(rng.randint(2, min(3, len(outs) - used) + 1))
        cd.append(outs[used:used + q])
        used += q
    block = {c: i for i, b in enumerate(cd) for c in b}
    ci = []
    for _ in range(int(rng.randint(0, 4))):
        if len(outs) < 2:
            break
        a, b = [int(x) for x in rng.choice(outs, 2, replace=False)]
        if block.get(a, -1) == block.get(b, -2):
            continue
        if {a, b} not in [set(p) for p in ci]:
            ci.append((a, b))
    return cd, ci


def start(rng, types, n=None, m=None, cd=None, ci=None, given=None, reseed=0):
    """A Recorder with a fresh State: sometimes everything given, sometimes
    only the data."""
    n = n or int(rng.randint(1, 7))
    m = m or int(rng.randint(1, 6))
    if cd or ci:
        outs = list(range(m))
    else:
        outs = [int(x) for x in rng.choice(np.arange(30), m, replace=False)]
    cols = [newcol(rng, c, types) for c in outs]
    data = [column(c, rng, n) for c in cols]
    rows = [[data[j][i] for j in range(m)] for i in range(n)]
    args = {'outputs': list(outs)}
    if cd:
        args['Cd'] = cd
    if ci:
        args['Ci'] = ci
    given = rng.rand() < .6 if given is None else given
    if given and not (cd or ci):
        k = int(rng.randint(1, m + 1))
        ids = [int(x) for x in rng.choice(np.arange(20), k, replace=False)]
        zv = {c: ids[int(rng.randint(k))] for c in outs}
        args['Zv'] = zv
        if rng.rand() < .7:
            args['Zrv'] = {v: [int(x) for x in rng.choice(np.arange(9), n)]
                           for v in sorted(set(zv.values()))}
    r = Recorder(args)
    seed = int(rng.randint(2 ** 31))
    r.construct(cols, rows, args, np.random.RandomState((seed + reseed) % 2 ** 31))
    return r


def subset(rng, xs, least=0):
    xs = list(xs)
    k = int(rng.randint(least, len(xs) + 1))
    return [xs[i] for i in rng.permutation(len(xs))[:k]]


class Fake(object):
    """A clock that advances by one at every reading."""
    def __init__(self):
        self.t = 0.

    def __call__(self):
        self.t += 1.
        return self.t


class Driver(object):
    def __init__(self, r, rng, types=ALLT, nmax=8, mmax=7):
        self.r, self.rng, self.types = r, rng, types
        self.nmax, self.mmax = nmax, mmax
        self.counts = {}
        self.stopped = None

    @property
    def s(self):
        return self.r.s

    def outs(self):
        return [int(c) for c in self.s.outputs]

    def free(self):
        return [c for c in range(45) if c not in self.outs()]

    def name(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    # ---- valid requests
    def incorporate(self):
        rng, r = self.rng, self.r
        if self.s.n_rows() >= self.nmax:
            return self.unincorporate()
        self.name('incorporate')
        vals = {c: val(r.defs[c], rng) for c in subset(rng, self.outs())}
        clus = {}
        for v in subset(rng, sorted(self.s.views)) if rng.rand() < .5 else []:
            W = self.s.views[v]
            old = sorted(W.Nk())
            clus[int(v)] = int(old[rng.randint(len(old))]) if rng.rand() < .6 \
                else max(old) + int(rng.randint(1, 4))
        r.incorporate(self.s.n_rows(), vals, clus)

    def unincorporate(self):
        if self.s.n_rows() <= 1:
            return self.incorporate()
        # a column must keep an observation for its grids
        for c in self.outs():
            if all(math.isnan(x) for x in self.s.X[c][:-1]):
                return self.query()
        self.name('unincorporate')
        self.r.unincorporate(self.s.n_rows() - 1)

    def force_cell(self):
        holes = [(i, [c for c in self.outs() if math.isnan(self.s.X[c][i])])
                 for i in range(self.s.n_rows())]
        holes = [h for h in holes if h[1]]
        if not holes:
            return self.incorporate()
        i, cs = holes[self.rng.randint(len(holes))]
        self.name('force_cell')
        self.r.force_cell(i, {c: val(self.r.defs[c], self.rng)
                              for c in subset(self.rng, cs, 1)})

    def incorporate_dim(self):
        if self.s.n_cols() >= self.mmax:
            return self.unincorporate_dim()
        rng = self.rng
        c = self.free()[rng.randint(len(self.free()))]
        col = newcol(rng, c, self.types)
        v = None
        if rng.rand() < .6 or self.s.Cd:
            v = int(sorted(self.s.views)[rng.randint(len(self.s.views))]) \
                if rng.rand() < .7 else int(rng.randint(0, 25))
        self.name('incorporate_dim')
        self.r.incorporate_dim(col, column(col, rng, self.s.n_rows()), v=v,
                               container=np.array if rng.rand() < .2 else list)

    def unincorporate_dim(self):
        if self.s.n_cols() <= 1:
            return self.incorporate_dim()
        self.name('unincorporate_dim')
        self.r.unincorporate_dim(self.outs()[self.rng.randint(self.s.n_cols())])

    def compatible(self, c):
        """A type whose support contains the column's data."""
        xs = [x for x in self.s.X[c] if not math.isnan(x)]
        for t in self.rng.permutation(self.types):
            col = comps.col(str(t), self.rng, c)
            for den in (1, 2, 4, 8):
                if col['type'] in ('normal', 'exponential', 'lognormal'):
                    col['den'] = den
                if col['type'] == 'categorical':
                    col['k'] = 6
                if col['type'] == 'normal_trunc':
                    col['lo'], col['hi'] = -30, 30
                cs = [comps.encode(col, x) for x in xs]
                lim = {'bernoulli': (0, 1), 'categorical': (0, col['k'] - 1),
                       'poisson': (0, 11), 'geometric': (0, 99), 'exponential': (0, 9999),
                       'normal': (-999, 999), 'lognormal': (-9, 9), 'vonmises': (0, 4),
                       'beta': (1, 7), 'normal_trunc': (col['lo'], col['hi'])}[col['type']]
                if all(k is not None and lim[0] <= k <= lim[1] for k in cs):
                    return col
        return None

    def update_cctype(self):
        c = self.outs()[self.rng.randint(self.s.n_cols())]
        col = self.compatible(c)
        if col is None:
            return self.query()
        self.name('update_cctype')
        self.r.update_cctype(c, col)

    def transition(self):
        rng, s = self.rng, self.s
        ks = list(KERNELS)
        if s.Cd or any(d.is_conditional() for d in s.dims()):
            ks.remove('columns')
        ks = subset(rng, ks, 1)
        if rng.rand() < .2:
            ks = ks + [ks[0]]
        n = int(rng.choice([1, 1, 2, 3]))
        cols = views = rows = None
        z = rng.rand()
        if z < .35:
            cols = subset(rng, self.outs(), 1)
        elif z < .5 and 'columns' not in ks:
            views = subset(rng, sorted(s.views), 1)
        if rng.rand() < .3:
            rows = subset(rng, range(s.n_rows()), 1)
        check = int(rng.choice([0, 0, 1, 2])) if not s.Ci else 0
        self.name('transition')
        if rng.rand() < .15:
            ks = ks[:len(set(ks))]
            old, S = time.time, float(rng.randint(1, 25))
            time.time = Fake()
            try:
                lim = None if rng.rand() < .5 else n
                o_n = n if lim else 10 ** 6
                o = {'op': 'transition', 'kernels': ks, 'n': o_n,
                     'cols': cols or [], 'allcols': cols is None, 'views': views or [],
                     'allviews': views is None, 'rows': rows or [], 'allrows': rows is None,
                     'check': check, 'timed': True}
                self.r.do(o, s.transition, N=lim, S=S, kernels=ks, cols=cols, views=views,
                          rowids=rows, progress=False, checkpoint=check or None)
            finally:
                time.time = old
            return
        self.r.transition(ks, n, cols, views, rows, check)

    def direct(self):
        """One kernel through its own method."""
        rng, s, r = self.rng, self.s, self.r
        ks = list(KERNELS)
        if s.Cd or any(d.is_conditional() for d in s.dims()):
            ks.remove('columns')
        k = ks[rng.randint(len(ks))]
        cols = subset(rng, self.outs(), 1) if rng.rand() < .6 else None
        rows = subset(rng, range(s.n_rows()), 1) if rng.rand() < .5 else None
        self.name('kernel')
        if k == 'alpha':
            r.transition([k], direct=s.transition_crp_alpha)
        elif k == 'view_alphas':
            r.transition([k], cols=cols, direct=lambda: s.transition_view_alphas(cols=cols))
        elif k == 'column_params':
            r.transition([k], cols=cols, direct=lambda: s.transition_dim_params(cols=cols))
        elif k == 'column_hypers':
            r.transition([k], cols=cols, direct=lambda: s.transition_dim_hypers(cols=cols))
        elif k == 'rows':
            r.transition([k], cols=cols, rows=rows,
                         direct=lambda: s.transition_view_rows(cols=cols, rows=rows))
        else:
            m = int(rng.randint(1, 4))
            r.transition([k], cols=cols, direct=lambda: s.transition_dims(cols=cols, m=m))

    def query(self):
        self.name('query')
        query(self.r, self.rng)

    def reload(self):
        self.name('reload')
        self.r.reload(['metadata', 'json', 'pickle'][self.rng.randint(3)])

    def hooks(self):
        """{token: (outputs, inputs)}"""
        return {int(t): ([int(x) for x in g.outputs], [int(x) for x in g.inputs])
                for t, g in self.s.hooked_cgpms.items()}

    def compose(self):
        """Compose a model: often acceptable, often just not."""
        rng, s = self.rng, self.s
        H = self.hooks()
        self.name('compose')
        taken = self.outs() + [o for a, _b in H.values() for o in a]
        fresh = [c for c in range(200, 212) if c not in taken]
        rest = [c for c in fresh[:6]]
        pool = taken + [10 ** 7 + int(v) for v in s.views] + rest
        outs = [int(x) for x in rng.choice(fresh, int(rng.choice([1, 1, 2])), replace=False)] if len(fresh) > 1 else [220]
        ins = [int(x) for x in rng.choice(pool, int(rng.randint(0, 4)), replace=False)]
        z = rng.rand()
        if z < .08:
            outs = []
        elif z < .2:
            outs[0] = int(pool[rng.randint(len(taken) + len(s.views))])
        elif z < .3:
            ins = ins + [outs[-1]]
        elif z < .6 and H:
            # close a loop through the models already there, if there is one
            a, b = list(H.values())[rng.randint(len(H))]
            free = [x for x in b if x in rest]
            if free:
                outs = [int(free[rng.randint(len(free))])]
                ins = [int(x) for x in subset(rng, taken, 0)][:3]
        ins = [x for i, x in enumerate(ins) if x not in ins[:i]]
        if z >= .3:
            ins = [x for x in ins if x not in outs]
        self.r.compose(outs, ins)

    def decompose(self):
        H = self.hooks()
        self.name('decompose')
        if not H or self.rng.rand() < .15:
            return self.r.decompose(int(max(H or [0]) + 3))
        return self.r.decompose(sorted(H)[self.rng.randint(len(H))])

    # ---- requests to be refused
    def invalid(self):
        rng, r, s = self.rng, self.r, self.s
        n, outs = s.n_rows(), self.outs()
        self.name('invalid')
        kind = rng.randint(20)
        H = self.hooks()
        if H and rng.rand() < .15:
            o = [x for a, _b in H.values() for x in a]
            col = newcol(rng, o[rng.randint(len(o))], self.types)
            return r.incorporate_dim(col, column(col, rng, n), v=int(sorted(s.views)[0]))
        vals = {c: val(r.defs[c], rng) for c in subset(rng, outs)}
        bad = [(c, outside(r.defs[c], rng)) for c in outs if outside(r.defs[c], rng) is not None]
        if kind == 0:
            r.incorporate(int(rng.choice([n + 1, 0, -1, n - 1])), vals)
        elif kind == 1:
            vals[self.free()[0]] = 1.
            r.incorporate(n, vals)
        elif kind == 2:
            vals[outs[0]] = float('nan')
            r.incorporate(n, vals)
        elif kind in (3, 4) and bad:
            c, x = bad[rng.randint(len(bad))]
            vals = {d: val(r.defs[d], rng) for d in outs}
            vals[c] = x
            r.incorporate(n, vals)
        elif kind == 5:
            r.incorporate(n, vals, inputs={outs[0]: 1.})
        elif kind == 6:
            r.incorporate(n, vals, clus={77: 0})
        elif kind == 7:
            r.unincorporate(int(rng.choice([n, -1, n + 3] + ([0] if n > 1 else []))))
        elif kind == 8 and n == 1:
            r.unincorporate(0)
        elif kind in (8, 9):
            r.force_cell(int(rng.choice([n, -1])), {outs[0]: val(r.defs[outs[0]], rng)})
        elif kind in (10, 11):
            seen = [(i, c) for c in outs for i in range(n) if not math.isnan(s.X[c][i])]
            if not seen:
                return self.query()
            i, c = seen[rng.randint(len(seen))]
            vals = {d: val(r.defs[d], rng) for d in outs if math.isnan(s.X[d][i])}
            vals[c] = val(r.defs[c], rng)
            r.force_cell(i, vals)
        elif kind in (12, 13):
            hole = [(i, c, x) for c, x in bad for i in range(n) if math.isnan(s.X[c][i])]
            if hole:
                i, c, x = hole[rng.randint(len(hole))]
                vals = {d: val(r.defs[d], rng) for d in outs if math.isnan(s.X[d][i])}
                vals[c] = x
                r.force_cell(i, vals)
            else:
                r.force_cell(0, {self.free()[0]: 1.})
        elif kind == 14:
            c = self.free()[rng.randint(5)]
            col = newcol(rng, c, self.types)
            m = max(0, n + int(rng.choice([-1, 1])))
            v = int(sorted(s.views)[0])
            r.incorporate_dim(col, column(col, rng, m) if m else [], v=v)
        elif kind == 15:
            c = self.free()[rng.randint(5)]
            col = newcol(rng, c, self.types)
            T = column(col, rng, n)
            how = rng.randint(3)
            if how == 0:
                r.incorporate_dim(col, T, outputs=[c, c + 50])
            elif how == 1:
                r.incorporate_dim(col, T, inputs=[outs[0]])
            else:
                col = dict(r.defs[outs[0]])
                r.incorporate_dim(col, column(col, rng, n), v=int(sorted(s.views)[0]))
        elif kind == 16:
            c = self.free()[rng.randint(5)]
            col = newcol(rng, c, self.types)
            x = outside(col, rng)
            T = column(col, rng, n)
            if x is None:
                if not s.Cd:
                    return self.invalid()
                r.incorporate_dim(col, T)
            else:
                T[rng.randint(n)] = x
                r.incorporate_dim(col, T, v=int(rng.choice([0, 3, int(sorted(s.views)[0])])))
        elif kind == 17:
            if len(outs) == 1:
                r.unincorporate_dim(outs[0])
            else:
                r.unincorporate_dim(self.free()[0])
        elif kind == 18:
            c = outs[rng.randint(len(outs))]
            for t in rng.permutation(self.types):
                col = comps.col(str(t), rng, c)
                xs = [x for x in s.X[c] if not math.isnan(x)]
                n_d = [cctrace.ratio(col, x) for x in xs]
                k = {'bernoulli': lambda a: a not in (0, 32),
                     'beta': lambda a: not 0 <= a <= 32,
                     'poisson': lambda a: a < 0 or a % 32,
                     'geometric': lambda a: a < 0 or a % 32,
                     'exponential': lambda a: a < 0}.get(str(t))
                if k and any(k(a[0]) for a in n_d):
                    r.update_cctype(c, col)
                    break
            else:
                return self.query()
        else:
            how = rng.randint(4)
            c = self.free()[rng.randint(5)]
            if how == 0:
                r.transition(['column_hypers'], cols=[outs[0], c])
            elif how == 1:
                r.transition(['alpha', 'rows'], n=2, cols=[c])
            else:
                badquery(r, rng)

    MENU = ['incorporate', 'unincorporate', 'force_cell', 'incorporate_dim',
            'unincorporate_dim', 'update_cctype', 'transition', 'direct',
            'query', 'reload', 'invalid', 'compose', 'decompose']

    def run(self, length, weights):
        w = np.array([weights.get(k, 0) for k in self.MENU], dtype=float)
        w /= w.sum()
        for _ in range(length):
            if self.r.s is None:
                return
            op = self.MENU[self.rng.choice(len(w), p=w)]
            try:
                getattr(self, op)()
            except (KeyError, IndexError, ValueError, TypeError, AttributeError) as e:
                # a wrecked model; the verdict must name what wrecked it
                self.stopped = '%s: %r\n%s' % (op, e, traceback.format_exc())
                return


def badquery(r, rng):
    """A query with duplicated, overlapping or out-of-range variables."""
    s = r.s
    outs = [int(c) for c in s.outputs]
    a = outs[rng.randint(len(outs))]
    x = val(r.defs[a], rng)
    far = max(outs) + 60
    n = s.n_rows()
    kinds = [
        ('duplicate targets', s.simulate, (-1, [a, a]), {'N': 2}),
        ('unknown target', s.simulate, (-1, [a, far]), {}),
        ('unknown target', s.logpdf, (-1, {far: 1.}), {}),
        ('unknown constraint', s.simulate, (-1, [a], {far: 1.}), {}),
        ('targets overlap constraints', s.logpdf, (-1, {a: x}, {a: x}), {}),
        ('targets overlap constraints', s.simulate, (-1, [a], {a: x}), {}),
        ('unknown column', s.relevance_probability, (0, [n - 1], far), {}),
        ('unknown column', s.dependence_probability, (a, far), {}),
        ('unknown column', s.row_similarity, (0, n - 1, [far]), {}),
        ('overlap', s.mutual_information, ([a], [far - 60 + 1]), {'constraints': {a: x}, 'N': 2}),
    ]
    seen = [(i, c) for c in outs for i in range(n) if not math.isnan(s.X[c][i])]
    if seen:
        i, c = seen[rng.randint(len(seen))]
        kinds.append(('observed target', s.logpdf, (i, {c: val(r.defs[c], rng)}), {}))
        others = [d for d in outs if d != c and math.isnan(s.X[d][i])]
        if others:
            y = float(s.X[c][i]) + 1.
            kinds.append(('contradicted cell', s.logpdf,
                          (i, {others[0]: val(r.defs[others[0]], rng)}, {c: y}), {}))
            kinds.append(('contradicted cell', s.simulate, (i, [others[0]], {c: y}), {}))
    name, fn, args, kw = kinds[rng.randint(len(kinds))]
    r.do({'op': 'badquery', 'name': name}, fn, *args, **kw)


def query(r, rng):
    """An admissible query; it may return anything but must change nothing."""
    s = r.s
    outs = [int(c) for c in s.outputs]
    n = s.n_rows()
    perm = [outs[i] for i in rng.permutation(len(outs))]
    q = int(rng.randint(1, min(3, len(perm)) + 1))
    t, rest = perm[:q], perm[q:]
    k = rest[:int(rng.randint(0, min(3, len(rest)) + 1))]
    tv = {c: val(r.defs[c], rng) for c in t}
    kv = {c: val(r.defs[c], rng) for c in k}
    row = int(rng.choice([-1, n, n + 4])) if rng.rand() < .6 else int(rng.randint(n))
    if 0 <= row < n:
        tv = {c: x for c, x in tv.items() if math.isnan(s.X[c][row])}
        kv = {c: x for c, x in kv.items() if math.isnan(s.X[c][row])}
        if not tv:
            row = -1
            tv = {t[0]: val(r.defs[t[0]], rng)}
    v = sorted(s.views)[rng.randint(len(s.views))]
    W = s.views[v]
    names = ['logpdf', 'simulate', 'simulateN', 'bulk', 'dep', 'deps', 'sim', 'sims',
             'rel', 'relh', 'relhnan', 'viewrel', 'mi', 'entropy', 'score', 'meta', 'view', 'bad']
    name = names[rng.randint(len(names))]
    if name == 'logpdf':
        return r.query(name, s.logpdf, row, tv, kv)
    if name == 'simulate':
        return r.query(name, s.simulate, row, sorted(tv), kv)
    if name == 'simulateN':
        return r.query(name, s.simulate, row, sorted(tv), kv, None, 3)
    if name == 'bulk':
        r.query(name, s.logpdf_bulk, [-1, row], [tv, tv], [kv, {}])
        return r.query(name, s.simulate_bulk, [-1, row], [sorted(tv), sorted(tv)], [kv, {}], None, [2, 1])
    if name == 'dep':
        return r.query(name, s.dependence_probability, perm[0], perm[-1])
    if name == 'deps':
        return r.query(name, s.dependence_probability_pairwise, t if rng.rand() < .5 else None)
    if name == 'sim':
        return r.query(name, s.row_similarity, int(rng.randint(n)), int(rng.randint(n)), t)
    if name == 'sims':
        return r.query(name, s.row_similarity_pairwise, t if rng.rand() < .5 else None)
    if name in ('rel', 'relh', 'relhnan'):
        rows = [int(x) for x in rng.choice(n, int(rng.randint(0, n + 1)), replace=False)]
        hyp = None
        if name == 'relh':
            hyp = [{c: val(r.defs[c], rng) for c in subset(rng, outs, 1)}
                   for _ in range(int(rng.randint(1, 4)))]
        if name == 'relhnan':
            hyp = [{perm[0]: float('nan')}, dict(tv)]
            b = [(c, outside(r.defs[c], rng)) for c in outs]
            b = [q for q in b if q[1] is not None]
            if b and rng.rand() < .5:
                hyp.append(dict([b[rng.randint(len(b))]]))
        return r.query(name, s.relevance_probability, int(rng.randint(n)), rows, perm[0], hyp)
    if name == 'viewrel':
        rows = [int(x) for x in rng.choice(n, int(rng.randint(1, n + 1)), replace=False)]
        z = rng.rand()
        if z < .15:
            rows = rows + [rows[0]]
        elif z < .3:
            rows = rows + [n + 3]
        return r.query(name, W.relevance_probability, int(rng.randint(n)), rows, sorted(W.dims)[0])
    if name == 'mi':
        m = {c: (x if rng.rand() < .5 else None) for c, x in kv.items() if c not in t}
        return r.query(name, s.mutual_information, [perm[0]], [perm[-1]], m, 2, 3)
    if name == 'entropy':
        return r.query(name, s.mutual_information, t, t, {}, 2, 3)
    if name == 'score':
        r.query(name, s.logpdf_score)
        return r.query(name, s.logpdf_likelihood)
    if name == 'meta':
        def wreck():
            # the saved form belongs to the caller
            m = s.to_metadata()
            m['diagnostics']['iterations']['rows'] = 10 ** 6
            m['diagnostics']['logscore'].append(0.)
            m['diagnostics']['column_crp_alpha'].append(0.)
            m['diagnostics']['column_partition'].append([])
            m['outputs'].append(99)
            for h in m['hypers']:
                for k2 in h:
                    h[k2] = 3.25
            m['Cd'].append([90, 91])
            m['Ci'].append((90, 91))
        return r.query(name, wreck)
    if name == 'view':
        def look():
            cs = sorted(W.dims)
            W.logpdf(-1, {c: val(r.defs[c], rng) for c in cs[:1]})
            W.simulate(-1, cs + [W.outputs[0]], None, None, 2)
            W.logpdf(-1, {W.outputs[0]: sorted(W.Nk())[0]})
            W.logpdf_score()
        return r.query(name, look)
    badquery(r, rng)
    return None


def job(spec, driver=None):
    """Run one history; spec: dict(seed, length, weights, ...)."""
    rng = np.random.RandomState(spec['seed'])
    types = spec.get('types', ALLT)
    cd = ci = None
    m = spec.get('m')
    if spec.get('constrained'):
        m = m or int(rng.randint(2, 6))
        cd, ci = constraints(rng, list(range(m)))
        if spec.get('constrained') == 'ci':
            cd = []
    r = start(rng, types, m=m, n=spec.get('n'), cd=cd, ci=ci)
    if r.s is not None:
        d = (driver or Driver)(r, rng, types)
        d.run(spec['length'], spec['weights'])
        counts = d.counts
        stopped = d.stopped
    else:
        counts = {}
        stopped = None
    return {'stopped': stopped, 'trace': r.trace(), 'notes': r.notes[-6:], 'counts': counts, 'spec': spec}
