"""C23 Ensemble averages weight models by how well they explain the evidence.

Oracle: Weighted.tla (MCWeighted.tla: weighting by evidence is conditioning the
uniform mixture of the models) over Mixture.tla's densities of the models' own
projections, with hooked models whose density depends on an external input."""

import math

import numpy as np

import comps
import expr
import gen
import harness
import py2load
import tlc
import vstats

HOOK, INPUT = 900, 901


def theorems(c):
    r = tlc.run('MCWeighted', 'SPECIFICATION Spec\nINVARIANTS Conditions NoEvidence Resampled\nCONSTANTS W=%d\n'
                'CHECK_DEADLOCK FALSE\n' % c.pick(1, 2), workers=8, timeout=850)
    if not r.ok:
        raise tlc.TLCError(r.out[-3000:])
    c.tlc(r)


def pick(rng, xs):
    return xs[rng.randint(len(xs))]


def ints(xs):
    return [int(x) for x in xs]


def engine(job):
    """The ensemble of a job, the same every time it is built."""
    from cgpm.crosscat.engine import Engine
    import ensmock
    cfg = job['cfg']
    e = Engine(gen.matrix(cfg), num_states=job['k'], rng=np.random.RandomState(job['seed']), multiprocess=0,
               outputs=list(cfg['outs']), cctypes=[c['type'] for c in cfg['cols']],
               distargs=[comps.distargs(c) or None for c in cfg['cols']])
    if job['steps']:
        e.transition(N=job['steps'], progress=False, multiprocess=0)
    if job['marks']:
        e.compose_cgpm([ensmock.Keyed([HOOK], [INPUT], m, s) for m, s in zip(job['marks'], job['shifts'])],
                       multiprocess=0)
    return e


def plan(c, rng):
    jobs = []
    for i in range(c.pick(40, 300)):
        partial = i % 4 == 1        # evidence about the missing cells of stored rows
        cfg = gen.config(rng, n=int(rng.randint(4 if partial else 2, 7)), m=int(rng.randint(3 if partial else 1, 5)),
                         types=['bernoulli', 'categorical', 'normal', 'poisson', 'geometric', 'crp'],
                         missing=.5 if partial else .3)
        k = int(pick(rng, [1, 2, 2, 3, 4]))
        hooked = rng.rand() < .6 and not partial
        k = max(k, 2) if partial else k
        job = {'cfg': cfg, 'k': k, 'seed': int(rng.randint(2 ** 31)), 'steps': int(rng.randint(0, 3)),
               'marks': ints(rng.randint(0, 3, k)) if hooked else [], 'multi': int(i % 8 == 7),
               'shifts': [float(pick(rng, [0., 0., -3000., 400.])) if rng.rand() < .3 else 0. for _ in range(k)]}
        if i % 5 == 0:
            job['shifts'] = [float(pick(rng, [-2000., 900.]))] * k
        job['asks'] = []
        for _ in range(c.pick(6, 12)):
            nos = ints(rng.permutation(k)[:rng.randint(1, k + 1)]) if rng.rand() < .4 else None
            t, con = gen.query(rng, cfg, n_t=min(1, len(cfg['outs'])),
                               n_c=int(rng.randint(0, len(cfg['outs']))) if rng.rand() < .8 else 0)
            row = -1
            more = 1
            if partial or rng.rand() < .35:        # an observed row: the evidence is about its missing cells
                row = int(rng.randint(cfg['n']))
                defs = {col['id']: col for col in cfg['cols']}
                con = {o: comps.code(defs[o], rng) for o in con if defs[o]['x'][row] == gen.NAN}
                t = {}
                more = 6 if partial and con else 1
            key = int(rng.randint(3)) if hooked and rng.rand() < .7 else None
            job['asks'].append({'more': more, 'nos': nos if more == 1 else None, 't': t, 'c': con, 'row': row, 'key': key, 'y': int(rng.randint(4)),
                                'none': bool(rng.rand() < .5), 'rows': int(pick(rng, [1, 2, 3, 5])) if more == 1 else 1,
                                'lps': [float(x) for x in rng.uniform(-4, 1, k) + pick(rng, [0, 0, -1500, 600])]})
        jobs.append(job)
    return jobs


def look(job):
    """The models' projections, for the specification."""
    e = engine(job)
    coldefs = {c['id']: c for c in job['cfg']['cols']}
    return [gen.model(s, coldefs) for s in e.states]


def perform(job):
    job, reps = job
    e = engine(job)
    coldefs = {c['id']: c for c in job['cfg']['cols']}
    out = []
    for a in job['asks']:
        nos = a['nos'] if a['nos'] is not None else list(range(job['k']))
        con = {o: float(v) for o, v in gen.values(a['c'], coldefs).items()}
        if a['key'] is not None:
            con[HOOK] = float(a['key'])
        con = con or (None if a['none'] else {})
        inputs = {INPUT: a['y']} if job['marks'] else None
        kw = dict(constraints=con, inputs=inputs, statenos=a['nos'], multiprocess=job['multi'])
        rng0 = [s.rng.get_state()[1].tobytes() for s in e.states]
        r = {}
        lps = [a['lps'][i] for i in nos]
        try:
            r['mean'] = float(e._likelihood_weighted_integrate(list(lps), a['row'], **kw))
        except Exception as ex:     # pylint: disable=broad-except
            if not harness.from_repo(ex):
                raise
            r['mean'] = 'raised %s: %s' % (type(ex).__name__, str(ex)[:120])
        try:
            if a['t']:
                t = {o: float(v) for o, v in gen.values(a['t'], coldefs).items()}
                ps = e.logpdf(a['row'], t, con, inputs, statenos=a['nos'], multiprocess=job['multi'])
                r['dens'] = float(e._likelihood_weighted_integrate(ps, a['row'], **kw))
        except Exception as ex:     # pylint: disable=broad-except
            if not harness.from_repo(ex):
                raise
            r['dens'] = 'raised %s: %s' % (type(ex).__name__, str(ex)[:120])
        r['seeded'] = rng0 == [s.rng.get_state()[1].tobytes() for s in e.states]
        n = a['rows']
        draws, bad = [], ''
        tags = [[{0: (i, k)} for k in range(n)] for i in range(len(nos))]
        try:
            for _ in range(1 if job['multi'] else reps * a['more']):
                got = e._likelihood_weighted_resample([list(s) for s in tags], a['row'], **kw)
                rows = [g[0] for g in got]
                draws.append(rows)
                if len(rows) != n:
                    bad = '%d rows of %d' % (len(rows), n)
                elif len(set(rows)) != n:
                    bad = 'a row was used twice: %s' % rows
        except Exception as ex:     # pylint: disable=broad-except
            if not harness.from_repo(ex):
                raise
            bad = 'raised %s: %s' % (type(ex).__name__, str(ex)[:120])
        r['draws'], r['bad'] = draws, bad
        out.append(r)
    return out


def run(c):
    py2load.install()
    theorems(c)
    rng = np.random.RandomState(2300 + c.seed)
    jobs = plan(c, rng)
    models = harness.pmap(look, jobs)
    qs, where, hs = [], [], []
    for j, (job, ms) in enumerate(zip(jobs, models)):
        for i, a in enumerate(job['asks']):
            nos = a['nos'] if a['nos'] is not None else list(range(job['k']))
            plain = not a['c'] and a['key'] is None
            hs.append({'k': 'weighted', 'n': len(nos), 'plain': plain, 'rows': a['rows'],
                       'marked': [[job['marks'][s], a['y'], a['key']] for s in nos] if a['key'] is not None else []})
            for s in nos:
                m = ms[s][0]
                for what, codes in (('w', a['c']), ('t', a['t'])):
                    if not codes:
                        continue
                    q = {'k': 'logpdf', 'm': m, 't': gen.pairs(codes),
                         'c': gen.pairs(a['c']) if what == 't' else []}
                    if a['row'] >= 0:
                        q = {'k': 'logpdf_obs', 'm': m, 'r': a['row'] + 1, 't': gen.pairs(codes)}
                    qs.append(q)
                    where.append((j, i, s, what))
    ans, rs = tlc.batch('Oracle', qs, jobs=8, min_chunk=20)
    c.tlc(rs)
    top, rs = tlc.batch('OracleHelpers', hs, jobs=8, min_chunk=20)
    c.tlc(rs)
    dens = {}
    for (j, i, s, what), a in zip(where, ans):
        dens[j, i, s, what] = expr.toL(expr.ev(a['p'], models[j][s][1]))
    reps = c.pick(200, 1500)
    res = harness.pmap(perform, [(job, reps) for job in jobs])
    n = 0
    for j, (job, out) in enumerate(zip(jobs, res)):
        for i, (a, r) in enumerate(zip(job['asks'], out)):
            h = top[n]
            n += 1
            judge(c, job, a, r, h, {k[2:]: v for k, v in dens.items() if k[:2] == (j, i)})
    c.cov['rule'] = 'one weighted mean or resampling law per count'


def judge(c, job, a, r, h, dens):
    nos = a['nos'] if a['nos'] is not None else list(range(job['k']))
    plain = not a['c'] and a['key'] is None
    env = {}
    for x, s in enumerate(nos):
        w = dens.get((s, 'w'), expr.L(1, 0.))
        if a['key'] is not None:
            w = expr._mul(expr._mul(w, expr.toL(expr.ev(h['marked'][x], {}))), expr.L(1, job['shifts'][s]))
        env['w', x + 1] = expr.toL(w)
        env['p', x + 1] = expr.L(1, a['lps'][s])
    what = '%d models %s, evidence %s key %s (input %s) at row %s' % (
        len(nos), nos, a['c'], a['key'], a['y'], a['row'])
    if not plain and all(env['w', x + 1].s == 0 for x in range(len(nos))):
        c.add('impossible')
        return
    c.traces()

    def close(key, got, want):
        ok = not isinstance(got, str) and (got == want or abs(got - want) <= 1e-7 * max(1., abs(want)))
        c.add('distinct_nontrivial')
        if not ok:
            c.violation(key, '%s: %s, specified %s (densities %s)' % (what, got, want, [
                env['w', x + 1] for x in range(len(nos))]), [job, a])

    close('mean', r['mean'], expr.logev(h['mean'], env))
    if isinstance(r['mean'], str):
        return
    if a['t']:
        zero = [x for x, s in enumerate(nos) if env['w', x + 1].s == 0 and not plain]
        if not zero:
            e2 = dict(env)
            for x, s in enumerate(nos):
                e2['p', x + 1] = dens[s, 't']
            close('density', r['dens'], expr.logev(h['mean'], e2))
    if not r['seeded']:
        c.violation('seeded', '%s: averaging densities moved a model\'s generator' % what, [job, a])
    if r['bad']:
        c.violation('resample', '%s: %s' % (what, r['bad']), [job, a])
        return
    if job['multi']:
        return
    n, K = a['rows'], len(nos)
    c.add('distinct_nontrivial')
    counts, per, cell = {}, {}, {}
    for rows in r['draws']:
        v = tuple(sum(1 for g in rows if g[0] == x) for x in range(K))
        counts[v] = counts.get(v, 0) + 1
        for g in rows:
            per[g[0]] = per.get(g[0], 0) + 1
            cell[g] = cell.get(g, 0) + 1
    law = {tuple(e['c']): expr.numev(e['p'], env) for e in h['counts']}
    p = vstats.gtest(counts, law)
    if p < vstats.ALPHA:
        c.violation('resample:counts', '%s: rows per model %s against %s (p=%g)' % (
            what, sorted(counts.items())[:6], sorted(law.items())[:6], p), [job, a])
    share = {x: expr.numev(t, env) for x, t in enumerate(h['shares'])}
    p = vstats.gtest(per, share)
    if p < vstats.ALPHA:
        c.violation('resample:shares', '%s: models %s against shares %s (p=%g)' % (what, per, share, p), [job, a])
    p = vstats.gtest(cell, {(x, k): share[x] / n for x in range(K) for k in range(n)})
    if p < vstats.ALPHA:
        c.violation('resample:rows', '%s: rows %s against shares %s (p=%g)' % (what, cell, share, p), [job, a])
    c.sample('%s: shares %s' % (what, [round(v, 3) for v in share.values()]))

