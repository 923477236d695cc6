"""C03 Component scores are exact, order-free and reversible.

TLC proves on Components.tla (all histories within bounds, exact rationals)
that scores factor into predictives in any order.  The same expressions are
then the oracle for the real classes: TLC generates every short history of
incorporate/unincorporate, longer random histories are added, and after every
step score, predictive densities and sufficient statistics of the real
component must be those of the surviving multiset.
"""

import math

import numpy as np

import comps
import expr
import harness
import py2load
import tlc

MC = [('bernoulli', 2, '{0,1}', 5), ('categorical', 3, '{0,1,2}', 4),
      ('categorical', 1, '{0}', 5), ('crp', 2, '{0,1,2}', 4),
      ('poisson', 2, '{0,1,2}', 3), ('geometric', 2, '{0,1,2}', 3),
      ('exponential', 2, '{0,1,2}', 3)]


def design(c):
    import concurrent.futures as cf

    def one(a):
        return a, tlc.run(
            'MCComponents', 'SPECIFICATION Spec\nINVARIANTS ChainRule '
            'Exchangeable Proper\nCONSTANTS Type="%s" K=%d Codes=%s MaxN=%d\n' % a,
            workers=2)
    with cf.ThreadPoolExecutor(4) as ex:
        for a, r in ex.map(one, MC):
            c.tlc(r)
            if not r.ok:
                raise RuntimeError('design theorem fails: %s\n%s' % (a, r.out[-2000:]))


def replay(job):
    """Run one history on the real component; return observations."""
    col, hy, hist, at, seed, rehyper = job
    rng = np.random.RandomState(seed)
    cls = comps.get_class(col['type'])
    oid = 11
    kw = {}
    if comps.distargs(col):
        kw['distargs'] = comps.distargs(col)
    comp = cls([oid], [], hypers=dict(hy), rng=rng, **kw)
    live = {}
    order = []
    obs = []
    step = 0

    def num(v):
        # the value as int, float or numpy scalar: same observation
        k = (seed + step) % 3
        return v if k == 0 else (float(v) if k == 1 else np.float64(v))
    for op, r, x in [('0', 0, 0)] + list(hist):
        step += 1
        if op == '+':
            comp.incorporate(r, {oid: num(comps.value(col, x))})
            live[r] = x
            order.append(r)
        elif op == '-':
            comp.unincorporate(r)
            del live[r]
            order.remove(r)
        if rehyper and step == 1 + len(hist) // 2:
            comp.set_hypers(dict(rehyper))
        cur = rehyper if rehyper and step >= 1 + len(hist) // 2 else hy
        obs.append({
            'xs': [live[r] for r in order],
            'hy': cur,
            'score': float(comp.logpdf_score()),
            'pred': [float(comp.logpdf(10 ** 6 + step, {oid: num(comps.value(col, k))}))
                     for k in at],
            'stats': comp.get_suffstats(),
            'hypers': comp.get_hypers(),
        })
    return obs


def safe(job):
    try:
        return replay(job)
    except Exception as e:      # pylint: disable=broad-except
        if not harness.from_repo(e):
            raise
        return repr(e)


def run(c):
    py2load.install()
    design(c)
    rng = np.random.RandomState(1000 + c.seed)
    # histories generated by the specification: every history of length n
    gens, rs = tlc.batch('ComponentHist', [
        {'rows': 2, 'codes': [0, 1], 'len': 4}, ], jobs=1)
    c.tlc(rs)
    short = [[tuple(s) for s in h] for h in gens[0]]
    gens, rs = tlc.batch('ComponentHist', [
        {'rows': 3, 'codes': [1, 2], 'len': 5 if c.thorough else 4}], jobs=1)
    mid = [[tuple(s) for s in h] for h in gens[0]]
    mid = [mid[i] for i in rng.permutation(len(mid))[:c.pick(60, 1500)]]
    jobs = []
    for t in comps.COLLAPSED:
        for hist in short + mid:
            col = comps.col(t, rng)
            if t == 'categorical':
                col['k'] = int(rng.randint(3, 6))
            if t == 'bernoulli':
                hist = [(o, r, x % 2) for o, r, x in hist]
            col['h'] = {h: ['s', 0, h] for h in comps.HYPERS[t]}
            at = sorted(set(comps.code(col, rng) for _ in range(3)))
            jobs.append((col, comps.hypers(t, rng), hist, at,
                         int(rng.randint(2 ** 31)), None))
        for i in range(c.pick(40, 600)):
            col = comps.col(t, rng)
            hist, live, nxt = [], [], 0
            for _ in range(int(rng.randint(4, 22))):
                if live and rng.rand() < .35:
                    r = live.pop(rng.randint(len(live)))
                    hist.append(('-', r, 0))
                else:
                    r = nxt if rng.rand() < .8 else nxt * 7 + 3
                    nxt = max(nxt, r) + 1
                    hist.append(('+', r, comps.code(col, rng)))
                    live.append(r)
            if i % 4 == 0:      # drain completely: back to the prior
                while live:
                    hist.append(('-', live.pop(rng.randint(len(live))), 0))
            at = sorted(set(comps.code(col, rng) for _ in range(4)))
            if t == 'crp':
                at = sorted(set(at + [50]))
            hy = comps.hypers(t, rng) if i % 5 else dict(comps.DEFAULTS[t])
            re = comps.hypers(t, rng) if i % 3 == 1 else None
            jobs.append((col, hy, hist, at, int(rng.randint(2 ** 31)), re))
    chunk = [jobs[i::8] for i in range(8)]
    outs = harness.pmap(lambda js: [safe(j) for j in js], chunk)
    # ask the oracle once per distinct (column, multiset-in-order, points)
    queries, index, todo = [], {}, []
    for js, os_ in zip(chunk, outs):
        for j, o in zip(js, os_):
            col, at = j[0], j[3]
            if isinstance(o, str):
                c.violation('crash:' + col['type'], 'history raised %s' % o,
                            {'type': col['type'], 'history': j[2], 'hypers': j[1]})
                continue
            for step, ob in enumerate(o):
                key = (col['type'], col['k'], col['den'], tuple(ob['xs']), tuple(at))
                if key not in index:
                    index[key] = len(queries)
                    queries.append({'k': 'component', 'col': col,
                                    'xs': ob['xs'], 'at': at})
                todo.append((j, step, ob, index[key]))
    answers, rs = tlc.batch('Oracle', queries, jobs=8)
    c.tlc(rs)
    c.add('oracle_answers', len(queries))
    seen = set()
    for j, step, ob, qi in todo:
        col, hy, hist, at = j[0], ob['hy'], j[2], j[3]
        t = col['type']
        a = answers[qi]
        env = {(0, h): v for h, v in hy.items()}
        want = expr.logev(a['score'], env)
        chain = sum(expr.logev(e, env) for e in a['chain'])
        if not comps.close(want, chain, 1e-7):
            raise RuntimeError('oracle is not self-consistent: %s %r %r' % (t, want, chain))
        rep = {'type': t, 'distargs': comps.distargs(col), 'hypers': hy,
               'history': [(o, r, comps.value(col, x) if o == '+' else None)
                           for o, r, x in hist[:step]], 'step': step}
        if not comps.close(ob['score'], want):
            c.violation('score:' + t, 'logpdf_score %r, specification %r' % (
                ob['score'], want), rep)
        for k, p, e in zip(at, ob['pred'], a['pred']):
            w = expr.logev(e, env)
            if not comps.close(p, w):
                c.violation('predictive:' + t, 'logpdf(%r) = %r, specification %r' % (
                    comps.value(col, k), p, w), rep)
        st = comps.int_stats(col, ob['stats'])
        want_st = [a['stats']['n'], a['stats']['s']]
        if st is None or st[0] != want_st[0] or (st[1] != want_st[1]):
            c.violation('suffstats:' + t, 'suffstats %r, specification %r' % (
                ob['stats'], want_st), rep)
        elif not comps.same_stats(ob['stats'], comps.stats_of(col, ob['xs'])):
            c.violation('suffstats:' + t, 'suffstats %r, documented %r' % (
                ob['stats'], comps.stats_of(col, ob['xs'])), rep)
        got = {k: float(v) for k, v in ob['hypers'].items()}
        if got != {k: float(v) for k, v in hy.items()}:
            c.violation('hypers:' + t, 'get_hypers %r after %r' % (got, hy), rep)
        seen.add((t, len(ob['xs'])))
    c.traces(len(jobs))
    c.add('evaluations', len(todo))
    c.add('distinct_nontrivial', len([k for k in index if len(k[3]) > 0]))
    c.cov['rule'] = ('a case is one step of one history on one component; '
                     'distinct by (type, distargs, surviving codes, points)')
    c.sample({'type': jobs[-1][0]['type'], 'hypers': jobs[-1][1],
              'history': jobs[-1][2]})
    c.sample({'component sizes seen': sorted(seen)[-5:]})
    c.assumptions += ['values are dyadic or images of integer codes, so the '
                      'specification works on exact data',
                      'scores compared to 1e-8 relative']
