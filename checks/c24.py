"""C24 Schema and probability helpers meet their definitions.

Oracle: Helpers.tla, whose laws MCHelpers.tla shows to be proper, to reach
exactly the partitions a declaration allows, and to accept exactly the
declarations some partition satisfies.  The helpers are called on generated
arguments and compared with the specification's values and laws."""

import math
import traceback

import numpy as np

import expr
import harness
import py2load
import tlc
import vstats

NA = -99999


def theorems(c):
    for n, p in c.pick([(3, 3), (4, 1)], [(3, 3), (4, 3)]):
        r = tlc.run('MCHelpers', 'SPECIFICATION Spec\nINVARIANTS Consistent Contradictory Seated Blocked Plain Gibbs '
                    'Auxiliary Predictive Canonical Codes Splits\nCONSTANTS N=%d Pairs=%d\nCHECK_DEADLOCK FALSE\n' % (
                        n, p), workers=8, timeout=850)
        if not r.ok:
            raise tlc.TLCError(r.out[-3000:])
        c.tlc(r)


# ---------------------------------------------------------------- cases
def pick(rng, xs):
    return xs[rng.randint(len(xs))]


def ints(xs):
    return [int(x) for x in xs]


def canon(z):
    seen = {}
    return [seen.setdefault(k, len(seen)) for k in z]


def declaration(rng, n):
    """Dependence blocks and independent pairs, mostly meaningful."""
    cd, ci = [], []
    order = ints(rng.permutation(n))
    while len(order) > 1 and rng.rand() < .5:
        m = int(rng.randint(2, min(len(order), 4) + 1))
        cd.append(order[:m])
        order = order[m:]
    for _ in range(int(pick(rng, [0, 0, 1, 2, 3]))):
        ci.append(ints(rng.permutation(n)[:2]) if n > 1 else [0, 0])
    u = rng.rand()
    if u < .04 and n > 0:
        cd.append([int(rng.randint(n))])            # a block of one
    elif u < .08:
        cd.append(ints([rng.randint(n), n]))        # beyond the last customer
    elif u < .12 and cd:
        cd.append([cd[0][0], (cd[0][1] + 1) % n])   # a customer twice
    elif u < .16:
        ci.append(ints([n, 0]))
    elif u < .20:
        ci.append(ints([0, -1]))
    elif u < .24:
        k = int(rng.randint(n))
        ci.append([k, k])
    elif u < .28:
        cd.append([-1, 0])
    return cd, ci


def rows(rng):
    """Row constraints of one customer (valid pairs)."""
    cd, ci = [], []
    if rng.rand() < .7:
        cd.append(ints(rng.permutation(4)[:2]))
    if rng.rand() < .7:
        ci.append(ints(rng.permutation(4)[:2]))
    return cd, ci


def constraints(rng):
    n = int(pick(rng, [1, 2, 3, 3, 4, 4, 5, 5, 6]))
    cd, ci = declaration(rng, n)
    rd, ri = [], []
    if rng.rand() < .4:
        for i in range(n):
            if rng.rand() < .5:
                d, e = rows(rng)
                if rng.rand() < .08:
                    d = d + [[2]]
                if d:
                    rd.append([i, d])
                if e:
                    ri.append([i, e])
    zs = []
    for _ in range(6):
        z = canon(rng.randint(0, max(1, min(n, 3)), n))
        if rng.rand() < .6:
            for b in cd:
                if max(b) < n and min(b) >= 0:
                    for i in b[1:]:
                        z[i] = z[b[0]]
        zs.append(canon(z))
    if rng.rand() < .3:
        ci = []
    if rng.rand() < .3:
        ci, rd, ri = [], [], []
    pairs = [[i, j] for i in range(n) for j in range(n) if i != j]
    return {'k': 'con', 'n': n, 'con': {'cd': cd, 'ci': ci, 'rd': rd, 'ri': ri}, 'zs': zs, 'pairs': pairs,
            'a': ['q', int(rng.randint(1, 12)), int(rng.randint(1, 6))]}


def crp(rng):
    n = int(rng.randint(1, 9))
    z = canon(rng.randint(0, int(rng.randint(1, 6)), n))
    if rng.rand() < .5:         # arbitrary labels
        lab = ints(rng.permutation(9)[:max(z) + 1])
        z = [lab[k] for k in z]
    return {'k': 'crp', 'z': z, 'a': ['q', int(rng.randint(1, 20)), int(rng.randint(1, 8))],
            'b': ['q', int(rng.randint(1, 20)), int(rng.randint(1, 8))], 'm': int(rng.randint(1, 4)),
            'who': list(range(0, n + 1))}


def weight(rng):
    u = rng.rand()
    return [0, 0, 1] if u < .2 else [0, int(rng.randint(1, 30)), int(rng.randint(1, 30))]


def logs(rng):
    n = int(pick(rng, [0, 1, 1, 2, 3, 4, 6, 9]))
    xs = [weight(rng) for _ in range(n)]
    if n and rng.rand() < .1:
        xs = [[0, 0, 1]] * n
    if n and rng.rand() < .12:
        xs[rng.randint(n)] = [1, 0, 1]
    if n and rng.rand() < .08:
        xs = [[1, 0, 1]] * n
    if n and rng.rand() < .06:
        xs[rng.randint(n)] = [2, 0, 1]
    return {'k': 'log', 'xs': xs, 'ws': [weight(rng) for _ in range(n)],
            'shift': int(pick(rng, [0, 0, 0, -1000, 900, 5000])), 'wshift': int(pick(rng, [0, 0, -2000, 800]))}


def dummy(rng):
    n = int(rng.randint(0, 5))
    ks = [int(pick(rng, [0, 0, 1, 2, 3, 5])) for _ in range(n)]
    x = []
    for k in ks:
        if k == 0:
            x.append(int(rng.randint(-7, 8)))
        else:
            x.append(2 * int(rng.randint(0, k)) if rng.rand() < .93 else int(pick(rng, [-2, 2 * k, 1, 2 * k + 2, -1])))
    return {'k': 'dummy', 'x': x, 'ks': ks}


def split(rng):
    n = int(rng.randint(1, 8))
    vs = ints(rng.permutation(20)[:n])
    z = [[v, int(pick(rng, [0, 2, 7]))] for v in vs]
    q = [v for v in ints(rng.permutation(vs)) if rng.rand() < .6]
    e = [v for v in ints(rng.permutation(vs)) if v not in q and rng.rand() < .6]
    return {'k': 'split', 'z': z, 'query': q, 'evidence': e, 'kind': pick(rng, ['dict', 'list']),
            'none': bool(rng.rand() < .3)}


def blocks(rng):
    v, r = int(rng.randint(1, 4)), int(rng.randint(1, 9))
    return {'k': 'blocks', 'a': [ints(rng.randint(0, int(rng.randint(1, 4)), r)) for _ in range(v)]}


def merge(rng):
    return {'k': 'merge', 'ds': [[[v, int(rng.randint(9))] for v in ints(rng.permutation(6)[:rng.randint(0, 4)])]
                                 for _ in range(int(rng.randint(0, 4)))]}


def schema(rng):
    n, cols = int(rng.randint(4, 12)), []
    for _ in range(int(rng.randint(1, 5))):
        t = pick(rng, ['normal', 'bernoulli', 'bernoulli', 'categorical', 'categorical', 'categorical', 'poisson'])
        L = 2 if t == 'bernoulli' else int(rng.randint(1, 5))
        lab = sorted(ints(rng.permutation(12)[:L]))
        x = [int(pick(rng, lab)) for _ in range(n)]
        x[:L] = lab
        if rng.rand() < .06:
            x = [lab[0]] * n
        x = [NA if rng.rand() < .15 and i >= 4 else a for i, a in enumerate(x)]
        k = 0
        if t == 'categorical' and rng.rand() < .5:
            k = max(1, L + int(pick(rng, [0, 0, 1, 3, -1])))
        cols.append({'type': t, 'k': k, 'x': ints(rng.permutation(x)), 'text': bool(rng.rand() < .6),
                     'missing': pick(rng, ['NA', 'nan'])})
    return {'k': 'schema', 'cols': cols, 'ignored': ints(rng.permutation(len(cols) + 1)[:rng.randint(0, 2)])}


def cells(rng):
    return {'k': 'cells', 'w': ints(rng.randint(1, 9, int(rng.randint(2, 6)))), 'method': pick(
        rng, ['mh', 'mh', 'slice', 'slice', 'rejection']), 'ends': int(rng.randint(4)), 'offset': int(
            pick(rng, [0, 0, -3, 5])), 'width': float(pick(rng, [.3, 1., 2.5])), 'burn': int(rng.randint(1, 5)),
        'lag': int(rng.randint(1, 4))}


def cases(c, rng):
    out = [{'k': 'types', 'ks': [2, 255, 256, 257, 1000]}]
    for f, n in ((constraints, c.pick(240, 2000)), (crp, c.pick(150, 2000)), (logs, c.pick(400, 6000)),
                 (dummy, c.pick(200, 3000)), (split, c.pick(150, 2000)), (blocks, c.pick(100, 1000)),
                 (merge, c.pick(60, 500)), (schema, c.pick(150, 1500)), (cells, c.pick(36, 160))):
        out += [f(rng) for _ in range(n)]
    for n in range(0, 9):
        out += [{'k': 'choose', 'n': n, 'r': r} for r in range(0, n + 1)]
    out += [{'k': 'choose', 'n': int(n), 'r': int(rng.randint(0, n + 1))} for n in rng.randint(9, 300, 20)]
    for _ in range(20):
        b = ints(rng.randint(1, 50, 4))
        out.append({'k': 'spaced', 'a': ['q', b[0], b[1]], 'b': ['q', b[2], b[3]], 'n': int(rng.randint(2, 12))})
    for i in range(6):      # the free partition laws, sampled well
        n = 4 + i % 2
        q = constraints(rng)
        q.update(n=n, zs=[], pairs=[], more=10, a=['q', int(rng.randint(1, 4)), int(rng.randint(1, 3))],
                 con={'cd': [[1, 0]] if i > 3 else [], 'ci': [], 'rd': [], 'ri': []})
        out.append(q)
    for q in out:
        q['seed'] = int(rng.randint(2 ** 31))
    return out


# ---------------------------------------------------------------- the real functions
def attempt(f, *args, **kw):
    try:
        return f(*args, **kw)
    except Exception as e:      # pylint: disable=broad-except
        if not harness.from_repo(e):
            raise
        return Refused(e)


class Refused(object):
    def __init__(self, e):
        self.what = '%s: %s' % (type(e).__name__, str(e)[:100])

    def __repr__(self):
        return 'refused (%s)' % self.what


def refused(x):
    return isinstance(x, Refused)


class Judge(object):
    """Compares in the worker; results travel as (key, message) lists."""

    def __init__(self, q, reps):
        self.q, self.reps, self.bad, self.n = q, reps, [], 0

    def expect(self, key, ok, msg, *args):
        self.n += 1
        if not ok:
            self.bad.append((key, (msg % args if args else msg) + ' for %s' % str(
                {k: v for k, v in self.q.items() if k not in ('k', 'seed')})[:400]))

    def close(self, key, got, want, tol=1e-8):
        ok = not refused(got)
        if ok:
            got = float(got)
            ok = (math.isnan(got) if math.isnan(want) else got == want if math.isinf(want)
                  else abs(got - want) <= tol * max(1., abs(want)))
        self.expect(key, ok, '%s is %s, specified %s', key, got, want)

    def law(self, key, draw, law, reps):
        got = attempt(lambda: [draw() for _ in range(reps)])
        if refused(got):
            return self.expect(key, False, '%s %s', key, got)
        counts = {}
        for g in got:
            counts[g] = counts.get(g, 0) + 1
        p = vstats.gtest(counts, law)
        self.expect(key, p > vstats.ALPHA, '%s: p-value %g of %s against the specified %s', key, p,
                    sorted(counts.items(), key=repr)[:8], sorted(law.items(), key=repr)[:8])


def val(t):
    return expr.num(expr.ev(t, {}))


def logval(t):
    if t[0] == 'inf':
        return math.inf
    if t[0] == 'nan':
        return math.nan
    return expr.log(expr.ev(t, {}))


def dct(pairs, tup=False):
    return {k: [tuple(x) for x in v] if tup else [list(x) for x in v] for k, v in pairs}


def do_con(j, q, a, rng):
    from cgpm.utils import general as gu
    from cgpm.utils import validation as vu
    cd, ci = [list(b) for b in q['con']['cd']], [tuple(p) for p in q['con']['ci']]
    rd, ri = dct(q['con']['rd']), dct(q['con']['ri'], True)
    n, alpha = q['n'], q['a'][1] / q['a'][2]
    r = attempt(vu.validate_dependency_constraints, n, cd, ci)
    j.expect('dependency', refused(r) != bool(a['dep']), 'validate_dependency_constraints %s, specified %s', r, a['dep'])
    r = attempt(vu.validate_crp_constrained_input, n, cd, ci, rd, ri)
    j.expect('input', refused(r) != bool(a['input']), 'validate_crp_constrained_input %s, specified %s', r, a['input'])
    for p, ok in zip(q['pairs'], a['pairs']):
        r = attempt(vu.check_compatible_customers, cd, ci, ri, rd, p[0], p[1])
        j.expect('compatible', not refused(r) and bool(r) == bool(ok), 'check_compatible_customers(%s) %s, specified %s',
                 p, r, ok)
    if a['part']:
        for z, ok in zip(q['zs'], a['part']):
            r = attempt(vu.validate_crp_constrained_partition, list(z), cd, ci, rd, ri)
            j.expect('partition', not refused(r) and bool(r) == bool(ok),
                     'validate_crp_constrained_partition(%s) %s, specified %s', z, r, ok)
    if not a['input']:
        r = attempt(gu.simulate_crp_constrained, n, alpha, cd, ci, rd, ri, rng=rng)
        j.expect('seat:refused', refused(r), 'simulate_crp_constrained accepted contradictory constraints: %s', r)
    else:
        law = {}
        for e in a['seat']:
            law[tuple(canon(e['z']))] = law.get(tuple(canon(e['z'])), 0.) + val(e['p'])
        if n <= 5:
            j.law('seat', lambda: tuple(canon(gu.simulate_crp_constrained(n, alpha, cd, ci, rd, ri, rng=rng))),
                  law, j.reps)
    if a['block'] and n <= 5:
        law = {tuple(canon(e['z'])): val(e['p']) for e in a['block']}
        j.law('block', lambda: tuple(canon(gu.simulate_crp_constrained_dependent(n, alpha, cd, rng=rng))),
              law, j.reps)
        if not cd:
            j.law('crp', lambda: tuple(canon(gu.simulate_crp(n, alpha, rng=rng))), law, j.reps)
    for z, p in zip(q['zs'], a['blockp']):
        lab = [3 * k + 1 for k in z]
        j.close('block:logp', attempt(gu.logp_crp_constrained_dependent, dict(enumerate(lab)), alpha, cd), logval(p))


def do_crp(j, q, a, rng):
    from cgpm.primitives.crp import Crp
    from cgpm.utils import general as gu
    z, n, m = q['z'], len(q['z']), q['m']
    al, be = q['a'][1] / q['a'][2], q['b'][1] / q['b'][2]
    T = sorted(set(z))
    Nk = [z.count(k) for k in T]
    j.close('logp_crp', attempt(gu.logp_crp, n, Nk, al), logval(a['p']))
    u = attempt(gu.logp_crp_unorm, n, len(T), al)
    w = attempt(gu.logp_crp_unorm, n, len(T), be)
    j.close('logp_crp_unorm', u if refused(u) else w if refused(w) else u - w, logval(a['ratio']))
    f = attempt(gu.logp_crp_fresh, n, list(Nk), al, m=m)
    j.expect('logp_crp_fresh', not refused(f) and len(f) == len(a['fresh']), 'logp_crp_fresh %s', f)
    if not refused(f):
        for x, t in zip(f, a['fresh']):
            j.close('logp_crp_fresh', x, logval(t))
    comp = Crp([0], [], hypers={'alpha': al}, rng=rng)
    ids = ints(rng.permutation(50)[:n])
    for i, k in zip(ids, z):
        comp.incorporate(i, {0: k})
    j.close('score', attempt(comp.logpdf_score), logval(a['p']))
    for i, tables, weights in zip(q['who'], a['tables'], a['gibbs']):
        rowid = ids[i - 1] if i else 77
        got = attempt(comp.gibbs_tables, rowid, m=m)
        j.expect('gibbs_tables', not refused(got) and list(got[:len(T)]) == T and len(set(got)) == len(got) == len(tables),
                 'gibbs_tables of customer %s: %s, specified %s', i, got, tables)
        if i:
            lw = [logval(t) for t in weights]
            got = attempt(comp.gibbs_logps, rowid, m=m)
            j.expect('gibbs_logps', not refused(got) and np.shape(got) == np.shape(lw) and np.allclose(got, lw),
                     'gibbs_logps of customer %s: %s, specified %s', i, got, lw)
            got = attempt(gu.logp_crp_gibbs, {k: z.count(k) for k in T}, z, i - 1, al, m)
            j.expect('logp_crp_gibbs', not refused(got) and np.shape(got) == np.shape(lw) and np.allclose(got, lw),
                     'logp_crp_gibbs of customer %s: %s, specified %s', i, got, lw)
            if T == list(range(len(T))):
                got = attempt(gu.logp_crp_gibbs, Nk, z, i - 1, al, m)
                j.expect('logp_crp_gibbs', not refused(got) and np.shape(got) == np.shape(lw) and np.allclose(got, lw),
                         'logp_crp_gibbs (counts in a list) of customer %s: %s, specified %s', i, got, lw)
    for i in ids:
        comp.unincorporate(i)
    got = attempt(comp.gibbs_tables, ids[0], m=m)
    j.expect('gibbs_tables', not refused(got) and len(set(got)) == len(got) == m,
             'gibbs_tables without customers: %s, specified %d tables', got, m)


def num(x, shift=0.):
    return math.inf if x[0] == 1 else math.nan if x[0] == 2 else -math.inf if x[1] == 0 else math.log(
        x[1] / x[2]) + shift


def do_log(j, q, a, rng):
    from cgpm.utils import general as gu
    s, ws = q['shift'], q['wshift']
    L = [num(x, s) for x in q['xs']]
    t = logval(a['total'])
    j.close('logsumexp', attempt(gu.logsumexp, list(L)), t + s)
    j.close('logsumexp', attempt(gu.logsumexp, np.array(L)), t + s)
    j.close('logmeanexp', attempt(gu.logmeanexp, list(L)), logval(a['mean']) + s)
    W = [num(x, ws) for x in q['ws']]
    if a['weighted'] != ['q', 0, 1]:
        j.close('logmeanexp_weighted', attempt(gu.logmeanexp_weighted, L, W), logval(a['weighted']) + s)
    if a['shares']:
        want = [val(e) for e in a['shares']]
        got = attempt(gu.log_normalize, np.array(L))
        ok = not refused(got) and np.shape(got) == np.shape(want) and np.allclose(np.exp(got), want, atol=1e-10)
        j.expect('log_normalize', ok, 'log_normalize(%s) is %s, specified logs of %s', L, got, want)
        raw = [x[1] / x[2] for x in q['xs']]
        got = attempt(gu.normalize, raw)
        ok = not refused(got) and np.shape(got) == np.shape(want) and np.allclose(got, want, atol=1e-10)
        j.expect('normalize', ok, 'normalize(%s) is %s, specified %s', raw, got, want)
        n = len(L)
        items = ints(rng.permutation(40)[:n])
        law, byitem = dict(enumerate(want)), {i: w for i, w in zip(items, want)}
        reps = j.reps
        for name, f, arg in (('log_pflip', gu.log_pflip, np.array(L)), ('pflip', gu.pflip, raw)):
            j.law(name, lambda: f(arg, rng=rng), law, reps)
            j.law(name + ':array', lambda: f(arg, array=items, rng=rng), byitem, reps)
            many = attempt(f, arg, array=items, size=reps, rng=rng)
            if refused(many) or len(many) != reps:
                j.expect(name + ':size', False, '%s of size %d: %s', name, reps, many)
            else:
                it = iter(many)
                j.law(name + ':size', lambda: next(it), byitem, reps)
    if len(L) > 0 and all(x[0] == 0 for x in q['xs']) and s == 0:
        before = list(L)
        attempt(gu.logsumexp, L)
        attempt(gu.logmeanexp, L)
        j.expect('log:arguments', L == before, 'the arguments changed from %s to %s', before, L)


def do_choose(j, q, a, rng):
    from cgpm.utils import general as gu
    j.close('log_nCk', attempt(gu.log_nCk, q['n'], q['r']), logval(a['p']))


def do_spaced(j, q, a, rng):
    from cgpm.utils import general as gu
    lo, hi = q['a'][1] / q['a'][2], q['b'][1] / q['b'][2]
    want = [val(e) for e in a['x']]
    got = attempt(gu.log_linspace, lo, hi, q['n'])
    j.expect('log_linspace', not refused(got) and np.shape(got) == np.shape(want) and np.allclose(got, want),
             'log_linspace is %s, specified %s', got, want)


def do_dummy(j, q, a, rng):
    from cgpm.utils import data as du
    ks = {i: k for i, k in enumerate(q['ks']) if k}
    x = [v / 2 if v % 2 else v // 2 for v in q['x']]
    for arg in (list(x), [float(v) for v in x]):
        got = attempt(du.dummy_code, list(arg), dict(ks))
        if a['valid']:
            want = [v / 2. for v in a['x']]
            j.expect('dummy_code', not refused(got) and [float(v) for v in got] == want,
                     'dummy_code(%s, %s) is %s, specified %s', arg, ks, got, want)
        else:
            j.expect('dummy_code:refused', refused(got), 'dummy_code(%s, %s) is %s, to be refused', arg, ks, got)


def do_split(j, q, a, rng):
    from cgpm.utils import general as gu
    from cgpm.utils import validation as vu
    Z = {v: g for v, g in q['z']}
    if rng.rand() < .3 and Z:
        m = max(Z) + 1
        Z2 = [-1] * m
        for v, g in Z.items():
            Z2[v] = g
        Z = Z2
    value = {v: 10 * v + 1 for v, _g in q['z']}
    qd = {v: value[v] for v in q['query']}
    ed = {v: value[v] for v in q['evidence']}
    query = qd if q['kind'] == 'dict' else list(q['query'])
    evidence = None if q['none'] else ed
    r = attempt(vu.partition_query_evidence, Z, query, evidence)
    if refused(r):
        return j.expect('split', False, 'partition_query_evidence %s', r)
    wq = {g: ({v: value[v] for v in vs} if q['kind'] == 'dict' else list(vs)) for g, vs in a['query']}
    we = {} if q['none'] else {g: {v: value[v] for v in vs} for g, vs in a['evidence']}
    j.expect('split', dict(r[0]) == wq and dict(r[1]) == we, 'partition_query_evidence %s, specified %s', r, (wq, we))
    got = attempt(vu.partition_list, Z, list(q['query']))
    want = {g: list(vs) for g, vs in a['query']}
    j.expect('split', not refused(got) and dict(got) == want, 'partition_list %s, specified %s', got, want)
    # set helpers
    left, right = list(q['query']), ints(rng.permutation(20)[:rng.randint(0, 8)])
    got = attempt(gu.get_intersection, left, list(right))
    want = [v for v in right if v in left]
    j.expect('intersection', got == want, 'get_intersection(%s, %s) is %s', left, right, got)
    got = attempt(gu.get_intersection, left, {v: v + 1 for v in right})
    j.expect('intersection', got == {v: v + 1 for v in want}, 'get_intersection(%s, dict %s) is %s', left, right, got)
    for e, w in ((left, []), (dict.fromkeys(left), {})):
        got = attempt(gu.get_intersection, e, None)
        j.expect('intersection', got == w and type(got) is type(w), 'get_intersection(%s, None) is %s', e, got)
    got = attempt(gu.is_disjoint, left, right)
    j.expect('disjoint', not refused(got) and bool(got) == (not want), 'is_disjoint(%s, %s) is %s', left, right, got)
    got = attempt(gu.lchain, left, right, left)
    j.expect('lchain', got == left + right + left, 'lchain is %s', got)


def do_blocks(j, q, a, rng):
    from cgpm.utils import general as gu
    got = attempt(gu.build_rowid_blocks, [list(z) for z in q['a']])
    want = {tuple(k): list(r) for k, r in a['rows']}
    ok = not refused(got) and {tuple(ints(k)): ints(v) for k, v in got.items()} == want
    j.expect('rowid_blocks', ok, 'build_rowid_blocks %s, specified %s', got, want)


def do_merge(j, q, a, rng):
    from cgpm.utils import general as gu
    ds = [dict(map(tuple, d)) for d in q['ds']]
    want = dict(map(tuple, a['d']))
    got = attempt(gu.mergedl, ds)
    also = attempt(gu.merged, *ds)
    j.expect('merged', got == want and also == want, 'merged %s, %s, specified %s', got, also, want)
    j.expect('merged', ds == [dict(map(tuple, d)) for d in q['ds']], 'merged changed its arguments')


def do_schema(j, q, a, rng):
    import pandas as pd
    from cgpm.utils import data as du
    frame, sch, kept = {}, [], []
    lab = lambda col, v: ('w%02d' % v if col['text'] else v)
    nominal = lambda col: col['type'] in ('bernoulli', 'categorical')
    for i, col in enumerate(q['cols']):
        if not nominal(col):
            col = dict(col, text=False)
        xs = [lab(col, v) if v != NA else 'NA' if col['missing'] == 'NA' else np.nan for v in col['x']]
        frame['c%d' % i] = xs
        t = col['type'] + ('(k=%d)' % col['k'] if col['k'] else '')
        if i in q['ignored']:
            t = 'ignore'
        else:
            kept.append(i)
        sch.append(('c%d' % i, t, 10 + 3 * i))
    perm = ints(rng.permutation(len(sch)))
    sch, kept = [sch[i] for i in perm], [i for i in perm if i in kept]
    if not kept:
        return
    r = attempt(du.parse_schema, sch, pd.DataFrame(frame))
    valid = all(a['valid'][i] for i in kept)
    if not valid:
        return j.expect('schema:refused', refused(r), 'parse_schema accepted %s: %s', sch, r)
    if refused(r):
        return j.expect('schema', False, 'parse_schema(%s): %s', sch, r)
    D, outputs, cctypes, distargs, valmap, columns = r
    j.expect('schema', list(columns) == ['c%d' % i for i in kept] and list(outputs) == [10 + 3 * i for i in kept],
             'parse_schema(%s): columns %s outputs %s', sch, columns, outputs)
    want = [q['cols'][i]['type'] for i in kept]
    j.expect('schema:types', list(cctypes) == want, 'parse_schema(%s): types %s, specified %s', sch, cctypes, want)
    want = [{'k': a['kk'][i]} if a['kk'][i] else None for i in kept]
    got = [d or None for d in distargs]
    j.expect('schema:distargs', got == want, 'parse_schema(%s): distargs %s, specified %s', sch, distargs, want)
    ok = np.shape(D) == (len(q['cols'][0]['x']), len(kept))
    j.expect('schema', ok, 'parse_schema(%s): a table of shape %s', sch, np.shape(D))
    if not ok:
        return
    for n, i in enumerate(kept):
        col = q['cols'][i]
        try:
            xs = [float(v) for v in np.asarray(D)[:, n]]
        except (TypeError, ValueError):
            j.expect('schema:data', False, 'parse_schema(%s): column %d holds %s', sch, i, D[:, n])
            continue
        missing = [math.isnan(v) for v in xs]
        j.expect('schema:missing', missing == [v == NA for v in col['x']], 'parse_schema(%s): column %d holds %s', sch, i, xs)
        if nominal(col):
            m = valmap.get('c%d' % i, {})
            levels = [lab(col, v) for v in a['levels'][i]]
            ok = set(m) == set(levels) and sorted(m.values()) == list(range(len(levels)))
            j.expect('schema:valmap', ok, 'parse_schema(%s): valmap %s of levels %s', sch, m, levels)
            want = [m.get(lab(col, v)) for v in col['x'] if v != NA]
        else:
            want = [v for v in col['x'] if v != NA]
        got = [v for v in xs if not math.isnan(v)]
        j.expect('schema:data', got == want, 'parse_schema(%s): column %d holds %s, specified %s', sch, i, got, want)


def do_types(j, q, a, rng):
    import importlib
    from cgpm.utils import config as cu
    names = [t['name'] for t in a['types']]
    got = attempt(cu.all_cctypes)
    j.expect('types', not refused(got) and sorted(got) == sorted(names), 'all_cctypes is %s', got)
    for t in a['types']:
        n = t['name']
        j.expect('types', attempt(cu.valid_cctype, n) is True, 'valid_cctype(%s)', n)
        cls = getattr(importlib.import_module(t['module']), t['class'])
        got = attempt(cu.cctype_class, n)
        j.expect('types', got is cls, 'cctype_class(%s) is %s', n, got)
        j.expect('types', not refused(got) and got.name() == n, 'the name of %s', n)
        got = attempt(cu.loom_stattype, n, {'k': 3})
        j.expect('loom', refused(got) if t['loom'] == '' else got == t['loom'], 'loom_stattype(%s) is %s', n, got)
    for k, w in zip(q['ks'], a['loom']):
        got = attempt(cu.loom_stattype, 'categorical', {'k': k})
        j.expect('loom', got == w, 'loom_stattype(categorical, k=%d) is %s, specified %s', k, got, w)
    for n in ('cauchy', '', 'Normal'):
        j.expect('types', attempt(cu.valid_cctype, n) is False, 'valid_cctype(%r)', n)
        j.expect('types', refused(attempt(cu.cctype_class, n)), 'cctype_class(%r)', n)
        j.expect('loom', refused(attempt(cu.loom_stattype, n, None)), 'loom_stattype(%r)', n)
    got = attempt(cu.parse_distargs, ['normal', 'categorical(k=8)', 'beta', 'categorical(k=3,d=2.5)', 'bernoulli'])
    want = (['normal', 'categorical', 'beta', 'categorical', 'bernoulli'], [None, {'k': 8}, None, {'k': 3, 'd': 2.5}, None])
    j.expect('distargs', not refused(got) and (list(got[0]), list(got[1])) == want, 'parse_distargs is %s', got)
    # the wrapper that makes a method answer many times
    from cgpm.utils import general as gu

    class Model(object):
        def __init__(self):
            self.calls = 0

        @gu.simulate_many
        def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
            self.calls += 1
            return {'call': self.calls, 'args': (rowid, tuple(targets), constraints, inputs)}

    for n in (None, 0, 1, 2, 7):
        for pos in (False, True):
            m = Model()
            args = (4, [1, 2], {5: 1}, {6: 2})
            got = attempt(m.simulate, *(args + (n,))) if pos else attempt(m.simulate, *args, N=n)
            one = (4, (1, 2), {5: 1}, {6: 2})
            if n is None:
                ok = not refused(got) and got == {'call': 1, 'args': one}
            else:
                ok = not refused(got) and list(got) == [{'call': i + 1, 'args': one} for i in range(n)]
            j.expect('simulate_many', ok, 'simulate_many with N=%s (positional: %s) is %s', n, pos, got)
    m = Model()
    got = attempt(m.simulate, None, [3])
    j.expect('simulate_many', not refused(got) and got == {'call': 1, 'args': (None, (3,), None, None)},
             'simulate_many without N is %s', got)
    s, t = attempt(cu.check_env_debug), None
    j.expect('debug', not refused(s), 'check_env_debug %s', s)


def do_cells(j, q, a, rng):
    from cgpm.utils import sampling as su
    w, off = q['w'], q['offset']
    n = len(w)
    law = {i: val(t) for i, t in enumerate(a['law'])}
    D = (-math.inf if q['ends'] & 1 else float(off), math.inf if q['ends'] & 2 else float(off + n))
    where = lambda x: int(math.floor(x - off)) if off <= x < off + n else -1

    def logf(x):
        k = where(x)
        return math.log(w[k]) + 3. if k >= 0 else -math.inf

    start = lambda: off + int(rng.choice(n, p=[law[i] for i in range(n)])) + rng.rand()
    burn, lag = q['burn'], q['lag']

    def chain(num):
        if q['method'] == 'mh':
            return su.mh_sample(start(), logf, q['width'], D, num_samples=num, burn=burn, lag=lag, rng=rng)
        if q['method'] == 'slice':
            return su.slice_sample(start, logf, D, num_samples=num, burn=burn, lag=lag, w=q['width'], rng=rng)
        top = math.log(max(w)) + 3.
        return su.rejection_sample(lambda x: math.exp(logf(x)), lambda x: math.exp(top) * 1.5,
                                   lambda: off + n * rng.rand(), N=num, rng=rng)

    m = q['method']
    j.law(m, lambda: where(chain(1)), law, 4 * j.reps)

    def last():
        xs = chain(3)
        if len(xs) != 3:
            raise harness.RepoError('%d samples of 3' % len(xs))
        return where(xs[-1])

    j.law(m + ':many', last, law, 2 * j.reps)
    # within a cell the law is uniform
    part = {i: .25 for i in range(4)}
    j.law(m + ':within', lambda: int(4 * ((chain(1) - off) % 1.)), part, 2 * j.reps)
    xs = attempt(chain, 60)
    j.expect(m + ':moves', not refused(xs) and len(xs) == 60 and len(set(xs)) > 1, '%s: 60 samples %s', m, xs if refused(
        xs) else xs[:5])


DO = {'con': do_con, 'crp': do_crp, 'log': do_log, 'choose': do_choose, 'spaced': do_spaced, 'dummy': do_dummy,
      'split': do_split, 'blocks': do_blocks, 'merge': do_merge, 'schema': do_schema, 'types': do_types,
      'cells': do_cells}


def work(job):
    out = []
    for q, a, reps in job:
        np.random.seed(q['seed'] % (2 ** 32))
        rng = np.random.RandomState(q['seed'])
        state = np.random.get_state()[1].tobytes()
        j = Judge(q, reps * q.get('more', 1))
        try:
            DO[q['k']](j, q, a, rng)
        except (TypeError, ValueError, IndexError, KeyError, AttributeError) as e:
            j.expect(q['k'] + ':malformed', False, 'a result of the wrong form: %s', traceback.format_exc()[-600:])
        j.expect(q['k'] + ':generator', np.random.get_state()[1].tobytes() == state,
                 'the global generator was used in %s', q['k'])
        out.append((q['k'], j.n, j.bad, q))
    return out


def run(c):
    py2load.install()
    theorems(c)
    rng = np.random.RandomState(2400 + c.seed)
    qs = cases(c, rng)
    ans, rs = tlc.batch('OracleHelpers', qs, jobs=8, min_chunk=20)
    c.tlc(rs)
    reps = c.pick(200, 1500)
    jobs = [[(q, a, reps) for q, a in list(zip(qs, ans))[i::64]] for i in range(64)]
    for res in harness.pmap(work, jobs):
        for k, n, bad, q in res:
            c.add('compared_' + k, n)
            c.traces()
            for key, msg in bad:
                c.violation('%s:%s' % (k, key), msg, q)
    c.cov['distinct_nontrivial'] = int(sum(v for k, v in c.cov.items() if k.startswith('compared_')))
    c.cov['rule'] = 'one compared value, verdict or law per count'
    c.sample('%d constraint sets, %d accepted' % (
        sum(q['k'] == 'con' for q in qs), sum(a.get('input', 0) for q, a in zip(qs, ans) if q['k'] == 'con')))
