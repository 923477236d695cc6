"""Drive the real State through histories and record what CrossCat.tla sees.

A Recorder holds one real State; `do` performs a request (valid or not),
snapshots the state before and after and appends a step.  TLC judges the
steps (CrossCatTrace.tla)."""

import io
import json
import math
import os
import pickle
import sys

import numpy as np

import comps
import harness
import tlc
from comps import NAN

BAD = -99998
TOKEN = 10 ** 7
FIXED = {
    'beta': lambda v: [math.log(v), math.log(1 - v)],
    'poisson': lambda v: [math.lgamma(v + 1)],
}
FIXED_STATS = {'beta': ['sum_log_x', 'sum_minus_log_x'],
               'poisson': ['sum_log_fact_x']}
CODES = {'beta': range(1, 8), 'poisson': range(0, 12)}
CONDITIONAL = ['linear_regression', 'random_forest']


def _fx(v):
    v = float(v)
    if math.isnan(v) or math.isinf(v) or abs(v) > 2000:
        return BAD
    return int(round(v * 1e6))


def fixtable(col):
    t = col['type']
    if t not in FIXED:
        return []
    return [[k, [_fx(w) for w in FIXED[t](comps.value(col, k))]] for k in CODES[t]]


class Tokens(object):
    def __init__(self):
        self.t = {}

    def __call__(self, v):
        v = float(v)
        if math.isnan(v):
            return NAN
        return self.t.setdefault(v.hex(), len(self.t) + 1)


def quiet(fn, *a, **k):
    out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        return fn(*a, **k)
    finally:
        sys.stdout = out


def coldef(col):
    """The part of a column record the specification needs."""
    return {'id': col['id'], 'type': col['type'], 'k': col['k'], 'den': col['den'],
            'lo': col['lo'], 'hi': col['hi'], 'fix': fixtable(col),
            'ins': list(col.get('ins', []))}


def encode(col, v):
    if col['type'] in CONDITIONAL:
        v = float(v)
        if math.isnan(v):
            return NAN
        k = v * col['den']
        return int(round(k)) if abs(k - round(k)) < 1e-9 and abs(k) < 90000 else BAD
    k = comps.encode(col, v)
    return BAD if k is None else k


def snapshot(s, defs, tok):
    outs = [int(c) for c in s.outputs]
    zv = {int(c): int(v) for c, v in s.Zv().items()}
    keys = [int(c) for c in s.X.keys()]
    arr = None
    try:
        a = np.asarray(s.data_array(), dtype=float)
        if a.ndim == 2 and a.shape[1] == len(keys):
            arr = a
    except (ValueError, TypeError):
        pass
    cols, conditional = [], 0
    for i, c in enumerate(keys):
        d = dict(coldef(defs[c]))
        cells = [float(x) for x in s.X[c]]
        d['x'] = [encode(defs[c], x) for x in cells]
        d['tok'] = [tok(x) for x in (arr[:, i] if arr is not None else cells)]
        d.update({'hy': [], 'par': [], 'zr': [], 'zi': [], 'cl': []})
        dim = None
        v = zv.get(c)
        if v in s.views:
            dim = s.views[v].dims.get(c)
        if dim is not None:
            name = dim.cctype
            conditional |= int(name in CONDITIONAL)
            if name != d['type']:
                d['type'] = str(name)
            if d['type'] == 'categorical':
                d['k'] = int(dict(dim.get_distargs()).get('k', -1))
            hy = dim.hypers
            d['hy'] = [tok(hy[h]) for h in sorted(hy)]
            d['zr'] = sorted([int(r), int(k)] for r, k in dim.Zr.items())
            d['zi'] = sorted([int(r), int(k)] for r, k in dim.Zi.items())
            for k in sorted(dim.clusters):
                comp = dim.clusters[k]
                st = comp.get_suffstats()
                if d['type'] in CONDITIONAL:
                    st_i = [int(st['N']), []]
                else:
                    st_i = comps.int_stats(defs[c], st)
                    if st_i is None or st_i[0] is None or any(x is None for x in st_i[1]):
                        st_i = [BAD, [BAD]]
                fs = [_fx(st.get(q, float('nan'))) for q in FIXED_STATS.get(d['type'], [])]
                d['cl'].append({'k': int(k), 'n': st_i[0], 's': st_i[1], 'fs': fs})
                if d['type'] in comps.UNCOLLAPSED:
                    p = comp.get_params()
                    d['par'].append([int(k)] + [tok(p[q]) for q in sorted(p)])
            if d['type'] in comps.UNCOLLAPSED:
                p = dim.aux_model.get_params()
                d['par'].append([-1] + [tok(p[q]) for q in sorted(p)])
        cols.append(d)
    views = []
    for v in sorted(s.views):
        W = s.views[v]
        zr = W.Zr()
        rows = sorted(zr)
        views.append({'id': int(v), 'cols': sorted(int(c) for c in W.dims),
                      'z': [int(zr[r]) for r in rows] if rows == list(range(len(rows))) else [],
                      'nk': sorted([int(k), int(n)] for k, n in W.Nk().items()),
                      'alpha': tok(W.alpha())})
    dg = s.diagnostics
    diag = []
    n = len(dg.get('logscore', []))
    if all(len(dg.get(q, [])) == n for q in ('column_crp_alpha', 'column_partition')):
        for i in range(n):
            diag.append({'score': tok(round(float(dg['logscore'][i]), 5)),
                         'alpha': tok(dg['column_crp_alpha'][i]),
                         'zv': sorted([int(c), int(v)] for c, v in dg['column_partition'][i])})
    else:
        diag = [{'score': BAD, 'alpha': BAD, 'zv': []}] * max(
            len(dg.get(q, [])) for q in ('logscore', 'column_crp_alpha', 'column_partition'))
    hooked = []
    for t, g in sorted(s.hooked_cgpms.items()):
        hooked.append([int(t)] + [int(o) for o in g.outputs] + [-1] + [int(o) for o in g.inputs])
    try:
        score = tok(round(float(s.logpdf_score()), 5)) if not s.Ci else 0
    except Exception as e:      # pylint: disable=broad-except
        if not harness.from_repo(e) and not isinstance(e, (KeyError, IndexError)):
            raise
        score = BAD
    return {'n': int(s.n_rows()), 'outs': outs, 'cols': cols,
            'zv': sorted([c, v] for c, v in zv.items()),
            'nv': sorted([int(v), int(k)] for v, k in s.Nv().items()),
            'views': views, 'alpha': tok(s.alpha()),
            'cd': [[int(x) for x in b] for b in s.Cd],
            'ci': [[int(x) for x in b] for b in s.Ci],
            'iters': sorted([str(k), int(v)] for k, v in dg['iterations'].items()),
            'diag': diag, 'hooked': hooked, 'score': score,
            'conditional': conditional, 'composite': int(bool(s.is_composite()))}


def ratio(col, v):
    """A rational standing for v in support decisions."""
    v = float(v)
    if math.isnan(v):
        return 0, 1
    if col['type'] == 'vonmises':
        return int(round(v * 100)) if abs(v - 2 * math.pi) > 1e-9 else 628, 100
    if col['type'] == 'lognormal':
        return (1 if v > 0 else (0 if v == 0 else -1)), 1
    return int(round(v * 32)), 32


class Recorder(object):
    """One real State and its trace."""

    def __init__(self, init):
        self.tok = Tokens()
        self.defs = {}
        self.states = []
        self.steps = []
        self.notes = []
        self.s = None
        self.init = init

    def cell(self, col, v):
        n, d = ratio(col, v)
        return [col['id'], self.tok(v), encode(col, v), n, d]

    def snap(self):
        self.states.append(snapshot(self.s, self.defs, self.tok))
        return len(self.states)

    def same_snap(self):
        """Index of a fresh snapshot, shared when equal to the last."""
        sn = snapshot(self.s, self.defs, self.tok)
        if self.states and self.states[-1] == sn:
            return len(self.states)
        self.states.append(sn)
        return len(self.states)

    def construct(self, cols, rows, args, rng, bad=''):
        """cols: column records; rows: list of value rows; args: keyword
        arguments of State."""
        from cgpm.crosscat.state import State
        for c in cols:
            self.defs[c['id']] = c
        X = np.array(rows, dtype=float)
        outs = args.get('outputs', list(range(X.shape[1])))
        o = {'op': 'init', 'outs': [int(c) for c in outs], 'bad': bad,
             'inputs': bool(args.get('inputs')),
             'rowcons': bool(args.get('Rd') is not None or args.get('Ri') is not None),
             'zv': sorted([int(c), int(v)] for c, v in (args.get('Zv') or {}).items()),
             'zrv': sorted([int(v), [int(k) for k in z]] for v, z in (args.get('Zrv') or {}).items()),
             'cd': [list(b) for b in args.get('Cd') or []],
             'ci': [list(b) for b in args.get('Ci') or []],
             'cols': []}
        for i, c in enumerate(cols):
            d = coldef(c)
            d['cells'] = [self.cell(c, r[i]) for r in rows]
            o['cols'].append(d)
        try:
            self.s = State(X, cctypes=[c['type'] for c in cols],
                           distargs=[comps.distargs(c) or None for c in cols],
                           rng=rng, **args)
            ok = True
        except Exception as e:      # pylint: disable=broad-except
            if not harness.from_repo(e):
                raise
            ok = False
            self.notes.append(repr(e)[:200])
        if ok:
            # the arguments belong to the caller, who may reuse them
            X[:] = -7.
            for a in (args.get('Zv'), args.get('Zrv')):
                if a:
                    a.clear()
            post = self.snap()
        else:
            self.states.append({})
            post = 1
        self.steps.append({'o': o, 'ok': ok, 'pre': post, 'post': post})
        return ok

    def do(self, o, fn, *a, **k):
        """Perform fn(*a, **k) as request o."""
        pre = len(self.states)
        res = None
        try:
            res = quiet(fn, *a, **k)
            ok = True
        except Exception as e:      # pylint: disable=broad-except
            if not harness.from_repo(e):
                raise
            ok = False
            self.notes.append('%s: %s' % (o.get('name', o['op']), repr(e)[:200]))
        post = self.same_snap()
        self.steps.append({'o': o, 'ok': ok, 'pre': pre, 'post': post})
        return ok, res

    # ---- requests
    def obs(self, values):
        """cell records for {column: value}; unknown columns get a dummy"""
        out = []
        for c, v in sorted(values.items()):
            col = self.defs.get(c) or dict(DUMMY, id=c)
            out.append(self.cell(col, v))
        return out

    def incorporate(self, row, values, clus=None, inputs=None):
        clus = dict(clus or {})
        o = {'op': 'incorporate', 'row': row, 'obs': self.obs(values),
             'clus': [[v, k] for v, k in sorted(clus.items())], 'inputs': bool(inputs)}
        ob = dict(values)
        for v, k in clus.items():
            ob[TOKEN + v] = k
        return self.do(o, self.s.incorporate, row, ob, inputs)

    def unincorporate(self, row):
        return self.do({'op': 'unincorporate', 'row': row}, self.s.unincorporate, row)

    def force_cell(self, row, values):
        o = {'op': 'force_cell', 'row': row, 'obs': self.obs(values)}
        return self.do(o, self.s.force_cell, row, dict(values))

    def incorporate_dim(self, col, T, outputs=None, v=None, inputs=None, container=list):
        outputs = outputs if outputs is not None else [col['id']]
        o = {'op': 'incorporate_dim', 't': [self.cell(col, x) for x in T],
             'outputs': [int(c) for c in outputs], 'inputs': bool(inputs),
             'v': -1 if v is None else v, 'col': coldef(col)}
        if col['id'] not in self.s.outputs:
            self.defs[col['id']] = col
        data = container(T)
        ok, res = self.do(o, self.s.incorporate_dim, data, outputs, inputs,
                          col['type'], comps.distargs(col) or None, v)
        if ok and len(data):
            data[0] = 12345.        # the caller reuses its list
            self.idle()
        return ok, res

    def unincorporate_dim(self, c):
        return self.do({'op': 'unincorporate_dim', 'c': c}, self.s.unincorporate_dim, c)

    def compose(self, outs, ins, make=None):
        """make(outputs, inputs): the model to compose"""
        import ensmock
        make = make or (lambda o, i: ensmock.Marked(o, i, 7))
        o = {'op': 'compose', 'outs': list(outs), 'ins': list(ins)}
        return self.do(o, self.s.compose_cgpm, make(list(outs), list(ins)))

    def decompose(self, token):
        return self.do({'op': 'decompose', 'token': token}, self.s.decompose_cgpm, token)

    def update_cctype(self, c, col):
        T = [float(x) for x in self.s.X[c]] if c in self.s.outputs else []
        o = {'op': 'update_cctype', 'c': c, 'col': coldef(col),
             't': [self.cell(col, x) for x in T]}
        old = self.defs.get(c)
        pre = len(self.states)
        self.defs[c] = col
        da = comps.distargs(col) if col['type'] not in CONDITIONAL else col.get('distargs')
        try:
            quiet(self.s.update_cctype, c, col['type'], da or None)
            ok = True
        except Exception as e:      # pylint: disable=broad-except
            if not harness.from_repo(e):
                raise
            ok = False
            self.notes.append('update_cctype: %s' % repr(e)[:200])
            if old is None:
                del self.defs[c]
            else:
                self.defs[c] = old
        post = self.same_snap()
        self.steps.append({'o': o, 'ok': ok, 'pre': pre, 'post': post})
        return ok, None

    def transition(self, kernels, n=1, cols=None, views=None, rows=None, check=0,
                   timed=None, direct=None):
        """direct: call the kernel's own method instead of State.transition"""
        s = self.s
        o = {'op': 'transition', 'kernels': list(kernels), 'n': n,
             'cols': [int(c) for c in cols or []], 'allcols': cols is None,
             'views': [int(v) for v in views or []], 'allviews': views is None,
             'rows': [int(r) for r in rows or []], 'allrows': rows is None,
             'check': check, 'timed': timed is not None}
        if direct:
            o['n'] = 1
            return self.do(o, direct)
        kw = {}
        if timed is not None:
            kw['S'] = timed
        return self.do(o, s.transition, N=n, kernels=list(kernels), cols=cols,
                       views=views, rowids=rows, progress=False,
                       checkpoint=check or None, **kw)

    def query(self, name, fn, *a, **k):
        return self.do({'op': 'query', 'name': name}, fn, *a, **k)

    def idle(self):
        self.steps.append({'o': {'op': 'idle'}, 'ok': True, 'pre': len(self.states),
                           'post': self.same_snap()})

    def reload(self, how):
        """Save and load; the loaded model takes over."""
        pre = len(self.states)
        try:
            self.s = quiet(reload_state, self.s, how, self.reload_rng())
            ok = True
        except Exception as e:      # pylint: disable=broad-except
            if not harness.from_repo(e):
                raise
            ok = False
            self.notes.append('reload: %s' % repr(e)[:200])
        post = self.same_snap()
        self.steps.append({'o': {'op': 'reload', 'name': how}, 'ok': ok,
                           'pre': pre, 'post': post})
        return ok

    def reload_rng(self):
        """The generator of a loaded model."""
        return None

    def trace(self):
        return {'states': self.states, 'steps': self.steps}


DUMMY = {'type': 'normal', 'k': 2, 'den': 1, 'lo': 0, 'hi': 1}


def jsonable(o):
    if isinstance(o, np.integer):       # an int under Python 2
        return int(o)
    raise TypeError('not JSON: %r' % (o,))


def reload_state(s, how, rng=None):
    from cgpm.crosscat.state import State
    rng = rng or np.random.RandomState(77)
    if how == 'metadata':
        return State.from_metadata(s.to_metadata(), rng=rng)
    if how == 'json':
        m = json.loads(json.dumps(s.to_metadata(), default=jsonable))
        return State.from_metadata(m, rng=rng)
    if how == 'pickle':
        f = io.BytesIO()
        s.to_pickle(f)
        f.seek(0)
        return State.from_pickle(f, rng=rng)
    raise ValueError(how)


def judge(recs, jobs=8):
    """TLC's verdict on each recorder's trace: lists of clause lists."""
    return tlc.batch('CrossCatTrace', [r['trace'] for r in recs], jobs=jobs, min_chunk=2)
