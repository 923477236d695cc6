"""C22 Inference runs exactly the requested kernels.

CrossCatTrace.tla judges recorded transitions (what may change, counters,
checkpoints), one call of N iterations against N calls of one, runs of
composed models against their rounds and seconds, and whether every item a
kernel is asked to move does move."""
import copy
import time

import numpy as np

import cchist
import cctrace
import comps
import crosscheck as cc
import ensmock
import harness
import py2load

CLOCKS = ['time', 'monotonic', 'perf_counter']


def ticking(outs, ins):
    return ensmock.Ticking(outs, ins, 7)


class Driver(cchist.Driver):
    MENU = cchist.Driver.MENU + ['split', 'foreign']

    def split(self):
        """One call of N iterations, and N calls of one."""
        rng, s, r = self.rng, self.s, self.r
        if not r.states:
            return
        ks = list(cchist.KERNELS)
        if s.Cd or any(d.is_conditional() for d in s.dims()):
            ks.remove('columns')
        ks = cchist.subset(rng, ks, 1)
        n, check = int(rng.randint(0, 5)), 0 if s.Ci else int(rng.choice([0, 1, 2, 3]))
        cols = views = rows = None
        z = rng.rand()
        if z < .3:
            cols = cchist.subset(rng, self.outs(), 1)
        elif z < .5 and 'columns' not in ks:
            views = cchist.subset(rng, sorted(s.views), 1)
        if rng.rand() < .3:
            rows = cchist.subset(rng, range(s.n_rows()), 1)
        default = rng.rand() < .2 and not s.Cd and not any(
            d.is_conditional() for d in s.dims())
        if default:
            ks = list(cchist.KERNELS)
        kw = dict(cols=cols, views=None if default else views, rowids=rows, progress=False)
        self.name('split')
        one, many = copy.deepcopy(s), copy.deepcopy(s)
        o = {'op': 'split', 'kernels': ks, 'n': n, 'check': check}
        ok = True
        try:
            for i in range(n):
                cctrace.quiet(many.transition, N=1, kernels=None if default else list(ks),
                              checkpoint=1 if check and (i + 1) % check == 0 else None, **kw)
            cctrace.quiet(one.transition, N=n, kernels=None if default else list(ks), checkpoint=check or None, **kw)
        except Exception as e:      # pylint: disable=broad-except
            if not harness.from_repo(e):
                raise
            ok = False
            r.notes.append('split: %r' % e)
        r.s = many
        pre = r.snap()
        r.s = one
        r.steps.append({'o': o, 'ok': ok, 'pre': pre, 'post': r.snap()})

    def foreign(self):
        rng, r = self.rng, self.r
        free = [c for c in range(300, 312) if c not in [x for a, _ in self.hooks().values() for x in a]]
        for _ in range(int(rng.randint(0, 4 - min(3, len(self.hooks()))))):
            outs = [free.pop(0) for _ in range(int(rng.randint(1, 3)))]
            ins = cchist.subset(rng, self.outs())
            r.compose(outs, ins, make=ticking)
        H = self.hooks()
        if any(min(a) < 300 for a, _ in H.values()):
            return          # a model of the other kind, which does not tell time
        self.name('foreign')
        known = [x for a, _ in H.values() for x in a]
        cols = None
        z = rng.rand()
        if z < .5:
            cols = cchist.subset(rng, known)
        elif z < .65:
            cols = cchist.subset(rng, known) + [int(rng.choice(self.outs()))]
        n = [None, 0, 1, 2, 3][rng.randint(5)]
        secs = [None, None, 0, 1, 2, 5][rng.randint(6)]
        if n is None and secs is None:
            lim = 1
        else:
            lim = -1 if n is None else n
        del ensmock.RUNS[:]
        saved = {k: getattr(time, k) for k in CLOCKS}
        for k in CLOCKS:
            setattr(time, k, ensmock.CLOCK)
        o = {'op': 'foreign', 'cols': cols or [], 'allcols': cols is None, 'n': lim,
             'secs': -1 if secs is None else secs, 'runs': [], 'names': [[t, 'foreign-%d' % t] for t in sorted(H)]}
        try:
            r.do(o, self.s.transition_foreign, N=n, S=secs, cols=cols, progress=False)
        finally:
            for k in CLOCKS:
                setattr(time, k, saved[k])
        first = {a[0]: t for t, (a, _) in H.items()}
        o['runs'] = [[t, ensmock.RUNS.count(x)] for x, t in sorted(first.items())]


def history(spec):
    return cchist.job(spec, Driver)


# ---------------------------------------------------------------- every named item moves
def items(s):
    """What there is to move, to keep only the outcomes that show something."""
    d = {('alpha',): s.alpha()}
    for v, w in s.views.items():
        d['view', v] = w.alpha()
        z = w.Zr()
        for i in range(s.n_rows()):
            d['row', v, i] = z[i]
    for i in s.outputs:
        dim = s.dim_for(i)
        d['hypers', i] = tuple(sorted(dim.hypers.items()))
        if dim.cctype in comps.UNCOLLAPSED:
            d['params', i] = [(k, sorted(g.get_params().items())) for k, g in sorted(dim.clusters.items())]
        d['column', i] = s.Zv(i)
    return d


def moves(spec):
    """Kernels run many times in a row; rows and columns of weak data, so that
    nothing is held in its place."""
    rng = np.random.RandomState(spec['seed'])
    n, m = int(rng.randint(2, 5)), int(rng.randint(2, 5))
    weak = rng.rand() < .6
    types = ['bernoulli', 'categorical'] if weak else cchist.ALLT
    r = cchist.start(rng, types, n=n, m=m, given=rng.rand() < .8)
    s = r.s
    counts = {}
    if s is None:
        return {'stopped': None, 'trace': r.trace(), 'notes': r.notes, 'counts': counts, 'spec': spec}
    base = len(r.states)
    for _ in range(spec['length']):
        ks = cchist.subset(rng, [k for k in cchist.KERNELS if k != 'columns' and (weak or k != 'rows')], 1)[:2]
        if weak and rng.rand() < .3:
            ks = ['columns']
        if 'column_params' in ks and not weak:
            ks = ['column_params']
        cols = views = rows = None
        z = rng.rand()
        if z < .5:
            cols = cchist.subset(rng, [int(c) for c in s.outputs], 1)
        elif z < .75 and 'columns' not in ks:
            views = cchist.subset(rng, sorted(int(v) for v in s.views), 1)
        if rng.rand() < .4:
            rows = cchist.subset(rng, range(s.n_rows()), 1)
        o = {'op': 'moves', 'kernels': ks, 'cols': cols or [], 'allcols': cols is None, 'views': views or [],
             'allviews': views is None, 'rows': rows or [], 'allrows': rows is None, 'outcomes': []}
        t = copy.deepcopy(s)
        seen, first = {}, items(s)
        slow = 'column_params' in ks and not weak
        for i in range(spec['runs'] // (12 if slow else 1)):
            cctrace.quiet(t.transition, N=1, kernels=list(ks), cols=cols, views=views, rowids=rows, progress=False)
            now = items(t)
            new = [k for k in first if k in now and now[k] != first[k]]
            if any(k not in seen for k in new):
                r.states.append(cctrace.snapshot(t, r.defs, r.tok))
                o['outcomes'].append(len(r.states))
            for k in new:
                seen[k] = seen.get(k, 0) + 1
        kinds = {'alpha': 'alpha', 'view_alphas': 'view', 'column_hypers': 'hypers', 'column_params': 'params',
                 'rows': 'row', 'columns': 'column'}
        for k, q in seen.items():
            if k[0] not in [kinds[x] for x in ks]:
                continue
            counts[k[0]] = min(counts.get(k[0], spec['runs']), q)
        r.steps.append({'o': o, 'ok': True, 'pre': base, 'post': base})
    return {'stopped': None, 'trace': r.trace(), 'notes': r.notes, 'counts': counts, 'spec': spec}


def run(c):
    py2load.install()
    cc.theorems(c, c.pick(['teeth'], ['teeth', 'teeth-views']))
    recs = cc.histories(c, [dict(seed=2200000 + c.seed * 1009 + i, length=4, runs=c.pick(150, 400))
                            for i in range(c.pick(32, 300))], job=moves)
    kinds = sorted({k for r in recs for k in r['counts']})
    c.cov['rarest_move'] = {k: min(r['counts'].get(k, 10 ** 6) for r in recs) for k in kinds}
    cc.histories(c, cc.profile(22, c.pick(200, 3000), c.pick(14, 25), {
        'transition': 10, 'direct': 5, 'split': 3, 'foreign': 2, 'compose': .1, 'decompose': .2}, c.seed), job=history)
