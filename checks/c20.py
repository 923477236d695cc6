"""C20 Non-crosscat CGPMs honour the dataset and query contract.

Oracle: External.tla plays histories of recording, removing, fitting and
questions; the same histories run on the real models, every answer compared:
refusals, densities, laws of sampled rows, scores."""

import os

import numpy as np

import extern
import expr
import harness
import py2load
import tlc
import vstats


def theorems(c):
    jobs = c.pick([('kde', 3), ('knn', 3), ('linreg', 2), ('piece', 1)],
                  [('kde', 4), ('knn', 4), ('linreg', 3), ('piece', 1)])
    for kind, n in jobs:
        r = tlc.run('MCExternal', 'SPECIFICATION Spec\nINVARIANTS Recorded Undone Proper Conditional\n'
                    'CONSTANTS Kind="%s" Steps=%d\nCHECK_DEADLOCK FALSE\n' % (kind, n), workers=8, timeout=850)
        if not r.ok:
            raise tlc.TLCError(r.out[-3000:])
        c.tlc(r)


def plan(c, seed, kinds, n, reload=False):
    rng = np.random.RandomState(seed)
    jobs = []
    for i in range(n):
        g = extern.model(rng, kinds[i % len(kinds)])
        jobs.append({'g': g, 'ops': extern.history(rng, g, c.pick(22, 40), reload=reload),
                     'seed': int(rng.randint(2 ** 31)), 'reps': c.pick(300, 1500),
                     'alphas': c.pick(250, 1500) if rng.rand() < .5 else 0})
    return jobs


def play(c, jobs, prefix=''):
    ans, rs = tlc.batch('OracleExternal', [extern.query(j['g'], j['ops']) for j in jobs], jobs=8, min_chunk=4)
    c.tlc(rs)
    for j, a in zip(jobs, ans):
        j['nofit'] = extern.fit_possible(j['g'], j['ops'], a['a'])
        for o, x in zip(j['ops'], a['a']):
            if o['k'] == 'simulate' and x['ok'] != 1:
                o['many'] = 0
    got = harness.pmap(extern.execute, jobs)
    for j, a, r in zip(jobs, ans, got):
        extern.compare(c, j, r, a['a'], prefix)


# ---------------------------------------------------------------- directed pairs
def directed(job):
    """Densities and samples of the two-dimensional directed models."""
    from cgpm.uncorrelated.diamond import Diamond
    from cgpm.uncorrelated.parabola import Parabola
    from cgpm.uncorrelated.sin import Sin
    rng = np.random.RandomState(job['seed'])
    cls = {'sin': Sin, 'parabola': Parabola, 'diamond': Diamond}[job['f']]
    outs = job['outs']
    m = cls(outputs=list(outs), noise=job['h'][1] / float(job['h'][2]), rng=rng)
    x = job['x']
    out = {'given': [], 'x': [], 'p': []}
    for n in (None, 5):
        s = m.simulate(-1, [outs[1]], {outs[0]: x}, None, n)
        s = [s] if n is None else s
        if any(sorted(r) != [outs[1]] for r in s):
            return ['bad', 'asked for %r, got %r' % ([outs[1]], s[0])]
        if n is not None and len(s) != n:
            return ['bad', '%d rows asked for, got %d' % (n, len(s))]
    out['given'] = [float(r[outs[1]]) for r in m.simulate(-1, [outs[1]], {outs[0]: x}, None, job['reps'])]
    out['x'] = [float(r[outs[0]]) for r in m.simulate(-1, [outs[0]], None, None, job['reps'])]
    out['x2'] = [float(r[outs[0]]) for r in m.simulate(-1, list(outs), None, None, job['reps'])]
    if job['f'] != 'diamond':
        for y in job['ys']:
            out['p'].append([float(m.logpdf(-1, {outs[1]: y}, {outs[0]: x})),
                             float(m.logpdf(-1, {outs[0]: x, outs[1]: y})),
                             float(m.logpdf(-1, {outs[0]: x}))])
    return ['ok', out]


def pairs(c):
    rng = np.random.RandomState(2050 + c.seed)
    jobs, qs = [], []
    for i in range(c.pick(9, 45)):
        f = ['sin', 'parabola', 'diamond'][i % 3]
        h = extern.q(int(rng.randint(1, 6)), 10)
        q = {'k': 'cond', 'f': f, 'h': h, 'n': 0, 'x': extern.q(0)}
        if f == 'sin':
            n = int(rng.randint(-4, 5))
            q['n'] = n
            x = n * np.pi / 3
        else:
            d = int(rng.randint(1, 8)) * (1 if rng.rand() < .5 else -1)
            q['x'] = extern.q(abs(d), 10)
            x = d / 10.
        jobs.append({'f': f, 'h': h, 'x': x, 'outs': extern.ids(rng, 2), 'seed': int(rng.randint(2 ** 31)),
                     'reps': c.pick(300, 1500), 'ys': [float(y) for y in rng.uniform(-1.2, 1.2, 12)]})
        qs.append(q)
    ans, rs = tlc.batch('OracleExternal', qs, jobs=1)
    c.tlc(rs)
    got = harness.pmap(directed, jobs)
    for j, a, (tag, r) in zip(jobs, ans, got):
        what = '%s with noise %r at x=%.3f' % (j['f'], j['h'][1] / float(j['h'][2]), j['x'])
        if tag != 'ok':
            c.violation('directed:' + j['f'] + ':shape', '%s: %s' % (what, r), j)
            continue
        c.add('laws', 3)
        p = extern.mix_test([[y] for y in r['given']], a['law'], {})
        if p is None or p < vstats.ALPHA:
            c.violation('directed:' + j['f'] + ':law', '%s: y such as %r do not follow the specified law (p=%r)' % (
                what, r['given'][:3], p), j)
        R = 1.5 * np.pi if j['f'] == 'sin' else 1.
        for xs in (r['x'], r['x2']):
            p = extern.mix_test([[x] for x in xs], [{'w': extern.q(1), 'comps': [
                {'d': 'unif', 'a': ['q', -R, 1], 'b': ['q', R, 1]}]}], {})
            if p < vstats.ALPHA:
                c.violation('directed:' + j['f'] + ':x', '%s: x such as %r are not uniform (p=%.2g)' % (
                    what, xs[:3], p), j)
        for y, ps in zip(j['ys'], r['p']):
            v = lambda e: expr.num(expr.ev(e, {}))
            cs = [(v(m['comps'][0]['a']), v(m['comps'][0]['b'])) for m in a['law']]
            if any(abs(y - e) < 1e-6 for ab in cs for e in ab):
                continue
            d = sum(1. / (b - a2) for a2, b in cs if a2 < y < b) / len(cs)
            want = [np.log(d) if d else -np.inf, np.log(d / (2 * R)) if d else -np.inf, -np.log(2 * R)]
            c.add('densities', 3)
            if not all(extern.close(x, z) for x, z in zip(ps, want)):
                c.violation('directed:' + j['f'], '%s, y=%.4f: densities y|x, xy, x are %r, specified %r' % (
                    what, y, ps, want), j)
        c.traces()


def run(c):
    py2load.install()
    os.environ.pop('GPMCCDEBUG', None)
    import time
    time.sleep = lambda s: None         # the demonstration models only wait when fitted
    theorems(c)
    play(c, plan(c, 20000 + c.seed, extern.KINDS[:6] * 2 + extern.KINDS[6:], c.pick(180, 1200)))
    pairs(c)
    c.cov['distinct_nontrivial'] = int(c.cov.get('densities', 0) + c.cov.get('laws', 0))
    c.cov['rule'] = 'one compared density, score or sampling law per count'
