"""C12 Dependence and independence constraints always hold.

Histories of constrained states are validated by CrossCatTrace.tla.  The
construction of a State or Engine from a declaration is decided by
Helpers.tla: which declarations and which column partitions are accepted, the
law of the initial partition, and the score of a partition of blocks."""
import traceback

import numpy as np

import crosscheck as cc
import harness
import py2load
import tlc
import vstats
from checks import c24


# ---------------------------------------------------------------- declarations
def question(rng, law):
    n = int(c24.pick(rng, [1, 2, 3, 3, 4, 4, 5]))
    if law:
        n = int(c24.pick(rng, [3, 4, 4, 5]))
    while True:
        cd, ci = c24.declaration(rng, n)
        if rng.rand() < (.5 if law else .2):
            ci = []
        bad = (any(len(b) < 2 for b in cd) or any(not 0 <= x < n for b in cd + ci for x in b)
               or len(sum(cd, [])) != len(set(sum(cd, []))) or any(a == b for a, b in ci))
        if (cd or ci) and not (law and bad):
            break
    zs = []
    for _ in range(5):
        z = c24.canon(c24.ints(rng.randint(0, min(n, 3), n)))
        if rng.rand() < .7:
            for b in cd:
                for i in b[1:]:
                    if 0 <= i < n and 0 <= b[0] < n:
                        z[i] = z[b[0]]
        zs.append(c24.canon(z))
    return {'k': 'con', 'n': n, 'con': {'cd': cd, 'ci': ci, 'rd': [], 'ri': []}, 'zs': zs, 'pairs': [],
            'a': ['q', int(rng.randint(1, 12)), int(rng.randint(1, 6))], 'law': bool(law),
            'seed': int(rng.randint(2 ** 31)), 'engine': bool(rng.rand() < .4)}


def declared(q, a):
    """Every declaration is handed to the constructors."""
    from cgpm.crosscat.engine import Engine
    from cgpm.crosscat.state import State
    rng = np.random.RandomState(q['seed'])
    j = c24.Judge(q, 0)
    n, alpha = q['n'], q['a'][1] / q['a'][2]
    X = rng.normal(size=(2, n))
    con = lambda: {'Cd': [list(b) for b in q['con']['cd']], 'Ci': [tuple(p) for p in q['con']['ci']]}

    def make(**kw):
        return State(X, cctypes=['normal'] * n, alpha=alpha, rng=np.random.RandomState(rng.randint(2 ** 31)),
                     **dict(con(), **kw))

    def engine(m):
        return Engine(X, num_states=m, rng=np.random.RandomState(rng.randint(2 ** 31)), multiprocess=0,
                      cctypes=['normal'] * n, alpha=alpha, **con())

    r = c24.attempt(make)
    j.expect('accepted', c24.refused(r) != bool(a['input']), 'a State with these constraints is %s, specified %s',
             'refused' if c24.refused(r) else 'built', bool(a['input']))
    r = c24.attempt(engine, 2)
    j.expect('accepted:engine', c24.refused(r) != bool(a['input']), 'an Engine with these constraints is %s, specified %s',
             'refused' if c24.refused(r) else 'built', bool(a['input']))
    # a given column partition is taken only if it satisfies them
    for i, z in enumerate(q['zs']):
        ok = bool(a['input']) and bool(a['part'][i])
        zv = {k: 3 * t + 1 for k, t in enumerate(z)}
        s = c24.attempt(make, Zv=dict(zv))
        j.expect('partition', c24.refused(s) != ok, 'a State with column partition %s is %s, specified %s', z,
                 'refused' if c24.refused(s) else 'built', ok)
        if c24.refused(s):
            continue
        j.expect('partition:kept', {int(k): int(v) for k, v in s.Zv().items()} == zv, 'column partition %s became %s', zv,
                 dict(s.Zv()))
        if not q['con']['ci'] and a['blockp']:
            j.close('score', c24.attempt(s.logpdf_score_crp), c24.logval(a['blockp'][i]))
    if not (q['law'] and a['input']):
        return j
    want = {}
    for e in (a['seat'] if q['con']['ci'] else a['block']):
        k = tuple(c24.canon(e['z']))
        want[k] = want.get(k, 0.) + c24.val(e['p'])
    counts = {}
    m = q['reps'] // (2 if q['engine'] else 1)
    states = engine(m).states if q['engine'] else [make() for _ in range(m)]
    for s in states:
        k = tuple(c24.canon([int(s.Zv(i)) for i in range(n)]))
        counts[k] = counts.get(k, 0) + 1
    p = vstats.gtest(counts, want)
    j.expect('law', p > vstats.ALPHA, 'initial partitions: p-value %g of %s against the specified %s', p,
             sorted(counts.items()), sorted(want.items()))
    return j


def work(job):
    out = []
    for q, a in job:
        try:
            j = declared(q, a)
        except Exception as e:      # pylint: disable=broad-except
            if not harness.from_repo(e):
                raise
            j = c24.Judge(q, 0)
            j.expect('error', False, 'an accepted declaration fails: %s', traceback.format_exc()[-500:])
        out.append((j.n, j.bad, q))
    return out


def declarations(c):
    rng = np.random.RandomState(1200 + c.seed)
    qs = ([question(rng, False) for _ in range(c.pick(300, 3000))]
          + [question(rng, True) for _ in range(c.pick(32, 200))])
    for q in qs:
        q['reps'] = c.pick(300, 2000)
    ans, rs = tlc.batch('OracleHelpers', qs, jobs=8, min_chunk=20)
    c.tlc(rs)
    pairs = list(zip(qs, ans))
    for res in harness.pmap(work, [pairs[i::64] for i in range(64)]):
        for n, bad, q in res:
            c.traces()
            c.add('compared_declarations', n)
            for key, msg in bad:
                c.violation('declared:' + key, msg, q)
    c.sample('%d declarations, %d of them acceptable' % (len(qs), sum(a['input'] for a in ans)))


def run(c):
    py2load.install()
    cc.theorems(c, c.pick(['views'], ['constraints', 'teeth-views', 'both']))
    declarations(c)
    cc.replay(c, 'views', ('unincorporate_dim', 'incorporate_dim'), c.pick(1500, None))
    specs = cc.profile(12, c.pick(200, 3000), c.pick(14, 25), {
        'transition': 5, 'direct': 3, 'incorporate_dim': 2, 'unincorporate_dim': 2,
        'reload': 2, 'invalid': .3}, c.seed)
    for i, s in enumerate(specs):
        s['constrained'] = [True, 'ci'][i % 2]
    cc.histories(c, specs)
