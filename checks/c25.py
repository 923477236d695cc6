"""C25 Multivariate normal conditioning is exact.

Oracle: Linear.tla (Cramer's rule over exact expression trees) gives density,
conditional mean and covariance and the derivatives; the same matrices go to
utils/mvnormal.py and to FactorAnalysis."""

import numpy as np

import expr
import extern
import harness
import py2load
import tlc
import vstats


def theorems(c):
    for K, V, L in c.pick([(1, 2, 2), (2, 1, 1)], [(1, 3, 2), (2, 1, 2)]):
        r = tlc.run('MCLinear', 'SPECIFICATION Spec\nINVARIANTS Agree Transposed Product Cramer Schur Gradient\n'
                    'CONSTANTS K=%d V=%d L=%d\nCHECK_DEADLOCK FALSE\n' % (K, V, L), workers=8, timeout=850)
        if not r.ok:
            raise tlc.TLCError(r.out[-3000:])
        c.tlc(r)


def case(rng, i):
    n = int(rng.randint(1, 5))
    singular = i % 5 == 4 and n > 2
    while True:
        if singular:        # the last coordinate repeats, or adds up, earlier ones
            A = rng.randint(-2, 3, (n - 1, n - 1))
            S = A.dot(A.T) + np.diag(rng.randint(1, 3, n - 1))
            w = np.zeros(n - 1, dtype=int)
            w[rng.randint(n - 1)] = 1
            if rng.rand() < .5:
                w[rng.randint(n - 1)] = pick(rng, [-1, 1])
            B = np.vstack([np.eye(n - 1, dtype=int), w])
            mu = rng.randint(-3, 4, n - 1)
            x = rng.randint(-3, 4, n - 1)
            S, mu, x = B.dot(S).dot(B.T), B.dot(mu), B.dot(x)
        else:
            A = rng.randint(-2, 3, (n, n))
            S = A.dot(A.T) + np.diag(rng.randint(1 if rng.rand() < .5 else 0, 4, n))
            if rng.rand() < .2:
                S = np.diag(rng.randint(1, 6, n))
            mu, x = rng.randint(-3, 4, n), rng.randint(-4, 5, n)
        if singular or abs(np.linalg.det(S)) > .5:
            break
    p = [int(j) + 1 for j in rng.permutation(n)]
    nt = int(rng.randint(1, n + 1))
    ne = int(rng.randint(0, n - nt + 1))
    if singular:
        k = p.index(n)
        p[k], p[0] = p[0], p[k]
        nt, ne = 1, n - 1
        if rng.rand() < .7:     # the dependent coordinate among those given
            p = p[::-1]
    return {'k': 'mvn', 'mu': [int(v) for v in mu], 's': S.tolist(), 'd': int(pick(rng, [1, 1, 2, 4, 10])),
            'x': [int(v) for v in x], 't': p[:nt], 'e': p[nt:nt + ne], 'seed': int(rng.randint(2 ** 31))}


def pick(rng, xs):
    return xs[rng.randint(len(xs))]


def execute(q):
    from cgpm.factor.factor import FactorAnalysis
    from cgpm.utils import mvnormal
    rng = np.random.RandomState(q['seed'])
    mu, S, x = np.array(q['mu'], dtype=float), np.array(q['s'], dtype=float) / q['d'], np.array(q['x'], dtype=float)
    t, e = [i - 1 for i in q['t']], [i - 1 for i in q['e']]
    out = {}

    def call(name, f, *args):
        before = [np.copy(a) for a in args if isinstance(a, np.ndarray)]
        state = np.random.get_state()[1].tobytes()
        try:
            out[name] = f(*args)
        except Exception as ex:     # pylint: disable=broad-except
            if not harness.from_repo(ex):
                raise
            out[name] = 'raised %s: %s' % (type(ex).__name__, str(ex)[:80])
        after = [a for a in args if isinstance(a, np.ndarray)]
        if any(not np.array_equal(a, b) for a, b in zip(before, after)):
            out['changed'] = name
        if np.random.get_state()[1].tobytes() != state:
            out['changed'] = 'global generator, by ' + name

    ix = np.ix_
    call('conditional', mvnormal.conditional, x[e], mu[t], mu[e], S[ix(t, t)], S[ix(t, e)], S[ix(e, t)], S[ix(e, e)])
    call('logpdf', mvnormal.logpdf, x[t], mu[t], S[ix(t, t)])
    n = len(t)
    dX, dMu = rng.randint(-2, 3, (int(rng.randint(0, 4)), n)) * 1., rng.randint(-2, 3, (int(rng.randint(0, 4)), n)) * 1.
    dS = rng.randint(-2, 3, (int(rng.randint(0, 4)), n, n)) * 1.
    out['directions'] = [dX.tolist(), dMu.tolist(), dS.tolist()]
    call('dlogpdf', mvnormal.dlogpdf, x[t], list(dX), mu[t], list(dMu), S[ix(t, t)], list(dS))
    ev = {i: float(x[i]) for i in e}
    call('mvn_condition', FactorAnalysis.mvn_condition, mu, S, list(t), dict(ev))
    call('mvn_marginalize', FactorAnalysis.mvn_marginalize, mu, S, list(t), list(e))
    return out


def near(a, b, tol=1e-6):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol))


def judge(c, q, a, r):
    v = lambda t: expr.num(expr.ev(t, {}))
    S = np.array(q['s'], dtype=float) / q['d']
    mu, x = np.array(q['mu'], dtype=float), np.array(q['x'], dtype=float)
    t, e = [i - 1 for i in q['t']], [i - 1 for i in q['e']]
    what = 'mean %s, covariance %s/%d, coordinates %s of %s given %s' % (
        q['mu'], q['s'], q['d'], q['t'], q['x'], q['e'])
    m, C = [v(z) for z in a['m']], [[v(z) for z in row] for row in a['c']]

    def bad(key, got, want):
        c.violation(key, '%s: %s is %s, specified %s' % (what, key, got, want), q)

    if 'changed' in r:
        bad('changed', r['changed'] + ' changed its arguments', 'unchanged')
    n = len(t)
    if isinstance(r['conditional'], str) or not (
            near(r['conditional'][0], m) and near(np.reshape(r['conditional'][1], (n, n)), C)):
        bad('conditional', r['conditional'], (m, C))
    c.add('conditionals')
    if a['regular']:
        if isinstance(r['mvn_condition'], str) or not (
                near(r['mvn_condition'][0], m) and near(r['mvn_condition'][1], C)):
            bad('mvn_condition', r['mvn_condition'], (m, C))
        c.add('conditionals')
    parts = [mu[t], mu[e], S[np.ix_(t, t)], S[np.ix_(e, e)], S[np.ix_(t, e)]]
    if isinstance(r['mvn_marginalize'], str) or not all(near(x1, x2) for x1, x2 in zip(r['mvn_marginalize'], parts)):
        bad('mvn_marginalize', r['mvn_marginalize'], parts)
    if expr.num(expr.ev(a['p'], {})) > 0 or a['grad']['x']:
        want = expr.log(expr.ev(a['p'], {}))
        if isinstance(r['logpdf'], str) or not near(r['logpdf'], want):
            bad('logpdf', r['logpdf'], want)
        c.add('densities')
        dX, dMu, dS = r['directions']
        gx, gm = np.array([v(z) for z in a['grad']['x']]), np.array([v(z) for z in a['grad']['m']])
        gs = np.array([[v(z) for z in row] for row in a['grad']['s']])
        want = [[float(np.dot(gx, d)) for d in dX], [float(np.dot(gm, d)) for d in dMu],
                [float(np.sum(gs * np.array(d))) for d in dS]]
        if isinstance(r['dlogpdf'], str) or not all(near(x1, x2) for x1, x2 in zip(r['dlogpdf'], want)):
            bad('dlogpdf', r['dlogpdf'], want)
        c.add('derivatives', sum(map(len, want)))
    c.traces()


# ---------------------------------------------------------------- the model built on them
def models(c):
    rng = np.random.RandomState(2560 + c.seed)
    jobs = []
    for _ in range(c.pick(24, 200)):
        g = extern.model(rng, 'factor')
        ops = [extern.probe(rng, g, set(), 0.) for _ in range(c.pick(10, 20))]
        jobs.append({'g': g, 'ops': ops, 'seed': int(rng.randint(2 ** 31)), 'reps': c.pick(400, 2000)})
    import c20
    c20.play(c, jobs, 'factor:')


def run(c):
    py2load.install()
    theorems(c)
    rng = np.random.RandomState(2500 + c.seed)
    qs = [case(rng, i) for i in range(c.pick(600, 12000))]
    ans, rs = tlc.batch('OracleExternal', qs, jobs=8, min_chunk=10)
    c.tlc(rs)
    for q, a, r in zip(qs, ans, harness.pmap(execute, qs)):
        judge(c, q, a, r)
    models(c)
    c.cov['distinct_nontrivial'] = int(c.cov['conditionals'] + c.cov['densities'] + c.cov['derivatives'])
    c.cov['rule'] = 'one compared conditional law, density or directional derivative per count'
