"""C04 Every component is a proper distribution and sampling matches density.

Oracle: Components.tla (Pred / PredAt / InSupport / Score), whose predictive
distributions TLC shows to sum to one over the support.
"""

import math

import numpy as np

import comps
import expr
import harness
import py2load
import vstats as vstat
import tlc
from c03 import MC  # noqa: F401

OID = 5
OUTSIDE = {
    'bernoulli': [(2, 1), (-1, 1), (1, 2), (3, 10)],
    'categorical': [(-1, 1), (1, 2), (5, 2), (99, 1), None],
    'poisson': [(-1, 1), (1, 2), (-3, 2), (7, 2)],
    'geometric': [(-1, 1), (1, 2), (-3, 2), (7, 2)],
    'exponential': [(-1, 1), (-1, 1000), (-7, 2)],
    'lognormal': [(0, 1), (-1, 1), (-1, 1000)],
    'vonmises': [(-1, 1), (7, 1), (-1, 1000), (13, 2)],
    'beta': [(-1, 2), (3, 2), (2, 1), (-1, 4)],
    'normal_trunc': [None],
    'normal': []}


def build(col, hy, xs, seed, params=None):
    rng = np.random.RandomState(seed)
    cls = comps.get_class(col['type'])
    kw = {}
    if comps.distargs(col):
        kw['distargs'] = comps.distargs(col)
    if params:
        kw['params'] = params
    comp = cls([OID], [], hypers=dict(hy), rng=rng, **kw)
    for r, x in enumerate(xs):
        comp.incorporate(r, {OID: comps.value(col, x)})
    return comp


def snapshot(comp):
    return (repr(sorted(comp.get_suffstats().items(), key=repr)), repr(sorted(comp.data.items())),
            comp.logpdf_score(), repr(sorted(comp.get_params().items())))


def worker(job):
    """One configuration: densities, support, samples of the real component."""
    try:
        return work(job)
    except Exception as e:      # pylint: disable=broad-except
        if not harness.from_repo(e):
            raise
        return {'crash': repr(e)}


def work(job):
    col, hy, xs, params = job['col'], job['hy'], job['xs'], job['params']
    t = col['type']
    comp = build(col, hy, xs, job['seed'], params)
    out = {'params': {k: float(v) for k, v in comp.get_params().items()}}
    # densities at arbitrary real points (continuous) or codes (discrete)
    out['dens'] = [float(comp.logpdf(-7, {OID: y})) for y in job['ys']]
    # outside the support
    bad = []
    for v in job['outside']:
        before = snapshot(comp)
        lp = comp.logpdf(10 ** 7, {OID: v})
        if lp != -math.inf:
            bad.append(('density-outside', 'logpdf(%r) = %r' % (v, lp)))
        try:
            comp.incorporate(10 ** 7 + 1, {OID: v})
            bad.append(('accepts-outside', 'incorporate(%r) accepted' % (v,)))
            comp = build(col, hy, xs, job['seed'], out['params'])
        except ValueError:
            pass
        except Exception as e:      # pylint: disable=broad-except
            bad.append(('rejects-outside', 'incorporate(%r) raised %r, not '
                        'ValueError' % (v, e)))
        if snapshot(comp) != before:
            bad.append(('outside-effect', 'rejected incorporate(%r) changed '
                        'the component' % (v,)))
            comp = build(col, hy, xs, job['seed'], out['params'])
    # values of the support must be accepted and get positive density
    for x in job['inside']:
        v = comps.value(col, x)
        if not comp.logpdf(10 ** 7, {OID: v}) > -math.inf:
            bad.append(('support', 'logpdf(%r) is log zero' % (v,)))
        comp.incorporate(10 ** 7 + 2, {OID: v})
        comp.unincorporate(10 ** 7 + 2)
    # an observed row simulates its own value
    before = snapshot(comp)
    for r, x in enumerate(xs[:4]):
        for n in (None, 3):
            s = comp.simulate(r, [OID], None, None, n)
            vals = [s] if n is None else s
            if n is not None and len(vals) != n:
                bad.append(('simulate-count', 'N=%d gave %d' % (n, len(vals))))
            if any(set(d) != {OID} or not comps.close(float(d[OID]), float(comps.value(col, x)))
                   for d in vals):
                bad.append(('observed-row', 'simulate of observed row gave %r' % (vals,)))
    # samples
    n = job['n']
    one = comp.simulate(None, [OID])
    many = comp.simulate(None, [OID], None, None, n)
    if not isinstance(one, dict) or set(one) != {OID}:
        bad.append(('simulate-shape', 'N=None gave %r' % (one,)))
    if len(many) != n or any(set(d) != {OID} for d in many):
        bad.append(('simulate-shape', 'N=%d gave %d rows' % (n, len(many))))
    if snapshot(comp) != before:
        bad.append(('query-effect', 'a query changed the component'))
    out['samples'] = [float(d[OID]) for d in many]
    out['bad'] = bad
    # parameter transitions of uncollapsed components
    if job.get('chain'):
        chain = []
        for _ in range(job['chain']):
            comp.transition_params()
            chain.append({k: float(v) for k, v in comp.get_params().items()})
        out['chain'] = chain
        chain = chain[12:]
        out['chain'] = chain
        if comp.get_suffstats()['N'] != len(xs):
            bad.append(('transition-data', 'transition_params changed the data'))
    return out


def params_for(col, rng):
    if col['type'] == 'beta':
        return {'strength': float(np.exp(rng.uniform(-.5, 2.5))),
                'balance': float(rng.uniform(.15, .85))}
    if col['type'] == 'normal_trunc':
        lo, hi = col['lo'] / col['den'], col['hi'] / col['den']
        return {'mu': float(rng.uniform(lo + .1, hi - .1)), 'sigma': float(rng.uniform(.4, 3.))}
    return None


def envof(col, hy, params):
    env = {(0, h): v for h, v in hy.items()}
    for k, v in (params or {}).items():
        env[('par', 0, 0, k)] = v
    return env


def support_interval(col):
    t = col['type']
    if t == 'exponential':
        return 0., math.inf
    if t == 'vonmises':
        return 0., 2 * math.pi
    if t == 'beta':
        return 0., 1.
    if t == 'normal_trunc':
        return col['lo'] / col['den'], col['hi'] / col['den']
    return -math.inf, math.inf      # normal, ln of lognormal


def run(c):
    py2load.install()
    r = tlc.run('MCComponents', 'SPECIFICATION Spec\nINVARIANTS ChainRule '
                'Exchangeable Proper\nCONSTANTS Type="categorical" K=3 '
                'Codes={0,1,2} MaxN=4\n', workers=4)
    c.tlc(r)
    if not r.ok:
        raise RuntimeError('design theorem fails\n' + r.out[-2000:])
    rng = np.random.RandomState(4000 + c.seed)
    types = comps.COLLAPSED + comps.UNCOLLAPSED
    jobs = []
    for t in types:
        for i in range(c.pick(6, 40)):
            col = comps.col(t, rng)
            n = [0, 1, 4, 9, 17, 2][i % 6]
            xs = [comps.code(col, rng) for _ in range(n)]
            hy = comps.hypers(t, rng)
            if t == 'vonmises':
                hy['b'] = max(hy['b'], .01)
            if t == 'lognormal':    # keep exp() inside the floating range
                hy['nu'] = max(hy['nu'], 3.)
                hy['s'] = min(hy['s'], 50.)
            lo, hi = support_interval(col)
            if t in comps.DISCRETE:
                pts = sorted(set(xs + list(range(0, col['k'] if t in (
                    'bernoulli', 'categorical') else 12))))
                ys = [comps.value(col, k) for k in pts]
            elif t == 'lognormal':
                pts = [float(rng.normal() * 2) for _ in range(8)]
                ys = [math.exp(p) for p in pts]
            else:
                a, b = max(lo, -6), min(hi, 8)
                pts = ys = [float(rng.uniform(a, b)) for _ in range(8)]
                if t == 'exponential':
                    pts = ys = ys + [0.]
            outside = []
            for o in OUTSIDE.get(t, []):
                if o is None:
                    if t == 'categorical':
                        o = (col['k'], 1)
                    else:
                        for o2 in ((col['lo'] - 1, col['den']), (col['hi'] + 1, col['den'])):
                            outside.append(o2)
                        continue
                outside.append(o)
            inside = sorted(set(comps.code(col, rng) for _ in range(5)))
            if t == 'normal_trunc':
                inside += [col['lo'], col['hi']]
            if t == 'vonmises':
                inside += [0, 4]
            if t in ('bernoulli', 'categorical'):
                inside = list(range(col['k']))
            job = {'col': col, 'hy': hy, 'xs': xs, 'pts': pts, 'ys': ys,
                   'outq': outside, 'outside': [float(a) / b if a % b else a // b for a, b in outside],
                   'inside': inside, 'n': c.pick(6000, 30000),
                   'seed': int(rng.randint(2 ** 31)), 'params': params_for(col, rng)}
            jobs.append(job)
    # longer chains of the uncollapsed parameter kernels
    for t in comps.UNCOLLAPSED:
        for i in range(c.pick(2, 8)):
            col = comps.col(t, rng)
            xs = [comps.code(col, rng) for _ in range([12, 0, 3, 7][i % 4])]
            if t == 'normal_trunc' and i % 2 == 0:
                # data piled up at one bound: the normaliser matters
                xs = [int(rng.choice([col['lo'], col['lo'] + 1])) for _ in range(10)]
            jobs.append({'col': col, 'hy': {}, 'xs': xs, 'pts': [], 'ys': [],
                         'outq': [], 'outside': [], 'inside': [], 'n': 300,
                         'seed': int(rng.randint(2 ** 31)),
                         'params': params_for(col, rng), 'chain': c.pick(1000, 8000)})
    # every long chain runs as parallel replicates
    work_items = []
    for i, j in enumerate(jobs):
        parts = 4 if j.get('chain') else 1
        for k in range(parts):
            w = dict(j)
            if parts > 1:
                w['chain'] = j['chain'] // parts
                w['seed'] = j['seed'] + k
            work_items.append((i, w))
    work_items.sort(key=lambda iw: -(iw[1].get('chain') or 0))
    outs = [None] * len(jobs)
    for (i, _w), o in zip(work_items, harness.pmap(worker, [w for _i, w in work_items])):
        if outs[i] is None or 'crash' in o:
            outs[i] = o
        elif 'crash' not in outs[i]:
            outs[i]['chain'] += o['chain']
            outs[i]['bad'] += o['bad']
    qs, where = [], []
    for i, j in enumerate(jobs):
        t = j['col']['type']
        if t in comps.DISCRETE:
            where.append(len(qs))
            qs.append({'k': 'pmf', 'col': j['col'], 'xs': j['xs'],
                       'at': sorted(set(j['pts'] + list(range(0, 60)) if t in ('poisson', 'geometric')
                                        else j['pts']))})
        else:
            where.append(len(qs))
            qs.append({'k': 'density', 'col': j['col'], 'xs': j['xs']})
        qs.append({'k': 'support', 'col': j['col'],
                   'at': [list(o) for o in j['outq']] or [[0, 1]]})
        if j.get('chain'):
            qs.append({'k': 'posterior', 'col': j['col'], 'xs': j['xs']})
    ans, rs = tlc.batch('Oracle', qs, jobs=6)
    c.tlc(rs)
    for j, o, w in zip(jobs, outs, where):
        judge(c, j, o, qs[w], ans[w], ans[w + 1], ans[w + 2] if j.get('chain') else None)
    c.traces(len(jobs))
    c.add('evaluations', sum(len(o.get('samples', [])) for o in outs))
    c.add('distinct_nontrivial', len(jobs))
    c.cov['rule'] = 'a configuration is (type, distargs, hypers, observations)'
    c.sample({'col': jobs[0]['col'], 'xs': jobs[0]['xs']})
    c.assumptions += ['sampling compared by binned G-tests at 1e-10',
                      'parameter kernels compared by their long-run law with a '
                      'tolerance of 0.05 in distribution']


def judge(c, j, o, q, a, sup, post):
    col, hy, t = j['col'], j['hy'], j['col']['type']
    rep = {'type': t, 'distargs': comps.distargs(col), 'hypers': hy,
           'data': [comps.value(col, x) for x in j['xs']], 'params': o.get('params')}
    if 'crash' in o:
        c.violation('crash:' + t, 'raised ' + o['crash'], rep)
        return
    for key, what in o['bad']:
        c.violation(key + ':' + t, what, rep)
    if j['outq'] and any(sup['ok']):
        raise RuntimeError('driver: a value called outside is in the support')
    env = envof(col, hy, o['params'])
    lo, hi = support_interval(col)
    if t in comps.DISCRETE:
        pm = {k: expr.numev(e, env) for k, e in zip(q['at'], a['pmf'])}
        for k, y, d in zip(j['pts'], j['ys'], o['dens']):
            if not comps.close(d, math.log(pm[k])):
                c.violation('density:' + t, 'logpdf(%r) = %r, specification %r' % (
                    y, d, math.log(pm[k])), rep)
        counts = {}
        for s in o['samples']:
            if s != int(s):
                c.violation('sample-support:' + t, 'sampled %r' % s, rep)
                return
            counts[int(s)] = counts.get(int(s), 0) + 1
        if t == 'crp':      # tables: existing ones and one fresh
            known = set(j['xs'])
            fresh = [k for k in counts if k not in known]
            if len(fresh) > 1:
                c.violation('sample-support:crp', 'several fresh tables %r' % fresh, rep)
            counts = {(k if k in known else -1): v for k, v in counts.items()}
            pm2 = {k: pm[k] for k in known}
            pm2[-1] = next(v for k, v in pm.items() if k not in known)
            pm = pm2
        if t in ('bernoulli', 'categorical') and any(k not in pm for k in counts):
            c.violation('sample-support:' + t, 'sampled outside support: %r' % counts, rep)
        if t in ('bernoulli', 'categorical') and not comps.close(
                sum(math.exp(d) for d in o['dens']), 1.):
            c.violation('normalised:' + t, 'density sums to %r' % sum(
                math.exp(d) for d in o['dens']), rep)
        p = vstat.gtest(counts, pm)
        if p < vstat.ALPHA:
            c.violation('sampling:' + t, 'sample frequencies contradict the density (p=%g): '
                        '%r vs %r' % (p, dict(sorted(counts.items())[:8]),
                                      dict(sorted(pm.items())[:8])), rep)
        return

    def pdf(y):
        env[('y',)] = y
        try:
            return expr.numev(a['pdf'], env)
        except OverflowError:
            return 0.
    for x, y, d in zip(j['pts'], j['ys'], o['dens']):
        env[('y',)] = x
        w = expr.logev(a['pdf'], env) - (x if t == 'lognormal' else 0)
        if not comps.close(d, w):
            c.violation('density:' + t, 'logpdf(%r) = %r, specification %r' % (y, d, w), rep)
    smp = np.array(o['samples'])
    if t == 'lognormal':
        # floating underflow and overflow of exp are the support's ends
        if (smp < 0).any() or np.isnan(smp).any():
            c.violation('sample-support:' + t, 'sampled %r' % smp.min(), rep)
            return
        if ((smp == 0) | np.isinf(smp)).mean() > .05:
            c.violation('sample-support:' + t, 'degenerate samples', rep)
        smp = np.log(np.clip(smp, 5e-324, 1.7e308))
    if t == 'exponential' and (smp < 0).any() or (smp < lo).any() or (smp > hi).any() \
            or np.isnan(smp).any():
        c.violation('sample-support:' + t, 'sampled [%r, %r]' % (smp.min(), smp.max()), rep)
        return
    if len(np.unique(smp)) < .99 * len(smp) and t not in ('beta',):
        c.violation('sampling:' + t, 'repeated continuous samples', rep)
    p = vstat.continuous(smp, pdf, lo, hi)
    if p < vstat.ALPHA:
        c.violation('sampling:' + t, 'samples contradict the density (p=%g)' % p, rep)
    if post is not None:
        chain_test(c, j, o, post, rep)


def chain_test(c, j, o, post, rep):
    """Long-run law of the parameters against the normalised posterior."""
    col, t = j['col'], j['col']['type']
    names = ['strength', 'balance'] if t == 'beta' else ['mu', 'sigma']
    if t == 'beta':
        doms = [(1e-6, np.inf), (0., 1.)]
    else:
        doms = [(col['lo'] / col['den'], col['hi'] / col['den']), (1e-6, np.inf)]
    ch = o['chain']
    for nm, (a, b) in zip(names, doms):
        v = np.array([p[nm] for p in ch])
        if (v < a).any() or (v > b).any() or np.isnan(v).any():
            c.violation('param-domain:' + t, '%s left its domain: [%r, %r]' % (
                nm, v.min(), v.max()), rep)
            return
    # grid posterior
    g = 70
    if t == 'beta':
        g0 = np.exp(np.linspace(math.log(1e-3), math.log(120.), g * 2))
        g1 = (np.arange(g) + .5) / g
    else:
        lo, hi = doms[0]
        g0 = lo + (hi - lo) * (np.arange(g) + .5) / g
        g1 = np.exp(np.linspace(math.log(.02), math.log(60.), g * 2))
    w0 = np.gradient(g0)
    w1 = np.gradient(g1)
    lp = np.empty((len(g0), len(g1)))
    for i, x in enumerate(g0):
        for k, y in enumerate(g1):
            env = {('par', 0, 0, names[0]): x, ('par', 0, 0, names[1]): y}
            try:
                lp[i, k] = expr.logev(post['pdf'], env)
            except (ValueError, ZeroDivisionError, OverflowError):
                lp[i, k] = -np.inf
    pr = np.exp(lp - lp.max()) * w0[:, None] * w1[None, :]
    pr /= pr.sum()
    for nm, gr, marg in ((names[0], g0, pr.sum(1)), (names[1], g1, pr.sum(0))):
        cdf = np.cumsum(marg)
        v = np.array([p[nm] for p in ch])
        emp = np.searchsorted(np.sort(v), gr + np.gradient(gr) / 2) / float(len(v))
        dist = float(np.abs(emp - cdf).max())
        # one draw in 1.5 counted as independent, at 1e-10
        tol = .03 + 3.44 / math.sqrt(len(v) / 1.5)
        c.sample('%s %s: distance %.3f allowed %.3f' % (t, nm, dist, tol), 20)
        if dist > tol:
            c.violation('posterior:%s:%s' % (t, nm), 'long-run law of %s is %.3f '
                        'away from the documented posterior (allowed %.3f)' % (
                            nm, dist, tol), rep)
