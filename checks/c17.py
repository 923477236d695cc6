"""C17 Dependence, similarity and relevance summaries are exact.

Oracle: Mixture.tla (Dependent over the variable graph of Network.tla,
SimilarityCounts, RelevantAll, AllJoin, Relevance); theorems in MCMixture.tla
and MCNetwork.tla."""

import itertools
import os

import numpy as np

import comps
import design
import expr
import gen
import harness
import py2load
import tlc
import vstats


def network_theorems(c):
    r = tlc.run('MCNetwork', 'SPECIFICATION Spec\nINVARIANTS Stays HasOrder Dual NotOwn DepEquiv '
                'DepConnected NeededSuffices %s\nVIEW View\nCONSTANTS Vars=%s MaxNodes=%d\n' % (
                    ('OnlyCyclic', '{0,1,2}', 3) if not c.thorough else ('', '{0,1,2,3}', 3)),
                workers=8, timeout=800)
    if not r.ok:
        raise tlc.TLCError(r.out[-3000:])
    c.tlc(r)


def fake_cgpm():
    from cgpm.cgpm import CGpm

    class Fake(CGpm):
        """A model with outputs and inputs, of no further use."""
        def __init__(self, outputs, inputs):
            self.outputs, self.inputs = list(outputs), list(inputs)
    return Fake


def plan(rng, c, i):
    cfg = gen.config(rng, missing=[.1, .4][i % 2], n=int(rng.randint(2, 8)),
                     max_views=3 if i % 3 else None,
                     types=comps.COLUMN_TYPES)
    if i % 5 in (1, 3):
        e = gen.evolved(rng, cfg)
        cfg = e if e['n'] > 1 else cfg
    n, outs = cfg['n'], cfg['outs']
    hooked = []
    pool = list(outs) + [gen.BASE + v for v in sorted(set(cfg['zv'].values()))]
    for j in range(int(rng.randint(0, 4)) if i % 2 else 0):
        new = [100 + 10 * j + u for u in range(int(rng.randint(1, 3)))]
        ins = [int(x) for x in rng.choice(pool, int(rng.randint(0, min(3, len(pool)) + 1)), replace=False)]
        if rng.rand() < .2:
            ins.append(500 + int(rng.randint(2)))
        hooked.append([new, ins])
        pool += new
    names = list(outs) + [v for h in hooked for v in h[0]]
    pairs = [[a, b] for a in names for b in names]
    sims = [[r + 1, s + 1, list(outs)] for r in range(n) for s in range(n)]
    sub = [int(x) for x in rng.choice(outs, int(rng.randint(1, len(outs) + 1)), replace=False)]
    sims += [[r + 1, s + 1, sub] for r in range(n) for s in range(n)]
    rels = []
    for _ in range(12):
        col = int(rng.choice(outs))
        t = int(rng.randint(n))
        z = cfg['zrv'][cfg['zv'][col]]
        friends = [r for r in range(n) if z[r] == z[t]]
        Q = [int(x) for x in rng.choice(friends if rng.rand() < .6 else n,
                                        int(rng.randint(0, 3)), replace=True)]
        rels.append([col, t, Q])
    views = sorted(set(cfg['zv'].values()))
    probs = []
    for _ in range(10):
        v = views[rng.randint(len(views))]
        q = int(rng.randint(1, n))
        rows = [int(x) for x in rng.permutation(n)]
        Q = rows[1:1 + q] if rng.rand() < .85 else rows[:q]
        probs.append([v, rows[0], Q])
    hyps = []
    defs = {x['id']: x for x in cfg['cols']}
    for _ in range(2):
        col = int(rng.choice(outs))
        mine = [d for d in outs if cfg['zv'][d] == cfg['zv'][col]]
        H = []
        for _j in range(int(rng.randint(1, 4))):
            own = [d for d in mine if rng.rand() < .6] or [mine[0]]
            H.append({d: comps.code(defs[d], rng) for d in own})
        t = int(rng.randint(n))
        z = cfg['zrv'][cfg['zv'][col]]
        Q = [t] if rng.rand() < .3 else [r for r in range(n) if z[r] == z[t] and r != t][:1]
        hyps.append([col, t, Q, H, [d for d in outs if d not in mine][:1]])
    m, env = gen.model_of_config(cfg)
    q = {'k': 'summaries', 'm': m, 'hooked': hooked, 'pairs': pairs, 'sims': sims,
         'rels': [[a, t + 1, [r + 1 for r in Q]] for a, t, Q in rels],
         'hyps': [[a, t + 1, [r + 1 for r in Q], [gen.pairs(h) for h in H]]
                  for a, t, Q, H, _x in hyps],
         'probs': [[v, t + 1, [r + 1 for r in Q]] for v, t, Q in probs]}
    return {'cfg': cfg, 'q': q, 'sub': sub, 'names': names, 'hooked': hooked, 'rels': rels,
            'probs': probs, 'hyps': hyps, 'defs': defs, 'reps': c.pick(150, 1500)}


def ask(job):
    cfg = job['cfg']
    os.environ.pop('GPMCCDEBUG', None)
    state = gen.build(cfg)
    Fake = fake_cgpm()
    for o, i in job['hooked']:
        state.compose_cgpm(Fake(o, i))
    n, outs, names = cfg['n'], cfg['outs'], job['names']
    out = {}
    out['dep'] = [float(state.dependence_probability(a, b)) for a, b in job['q']['pairs']]
    perm = list(reversed(names))
    out['deps'] = np.asarray(state.dependence_probability_pairwise(perm)).tolist()
    out['deps_all'] = np.asarray(state.dependence_probability_pairwise()).tolist()
    out['deps_outs'] = [int(x) for x in state.outputs]
    out['sim'] = [float(state.row_similarity(r, s)) for r in range(n) for s in range(n)]
    out['sim_sub'] = [float(state.row_similarity(r, s, job['sub'])) for r in range(n) for s in range(n)]
    out['sims'] = np.asarray(state.row_similarity_pairwise()).ravel().tolist()
    out['sims_sub'] = np.asarray(state.row_similarity_pairwise(job['sub'])).ravel().tolist()
    out['rel'] = [float(state.relevance_probability(t, list(Q), a)) for a, t, Q in job['rels']]
    out['prob'] = [float(state.views[v].relevance_probability(t, list(Q), sorted(state.views[v].dims)[0]))
                   for v, t, Q in job['probs']]
    out['hyp'] = []
    for a, t, Q, H, other in job['hyps']:
        rows = [{d: float(comps.value(job['defs'][d], x)) for d, x in h.items()} for h in H]
        for h in rows:              # cells of other views are beside the point
            for d in other:
                h[d] = float(comps.value(job['defs'][d], comps.code(job['defs'][d], np.random.RandomState(1))))
        # rows without a cell in the view do not count
        rows += [{d: float('nan') for d in H[0]}]
        out['hyp'].append(sum(int(state.relevance_probability(t, list(Q), a, [dict(h) for h in rows]))
                              for _ in range(job['reps'])))
    out['empty'] = []
    v = sorted(state.views)[0]
    for args in ((0, [], sorted(state.views[v].dims)[0]), (0, [1], 99999)):
        try:
            state.views[v].relevance_probability(*args)
            out['empty'].append('accepted')
        except Exception as e:      # pylint: disable=broad-except
            if not harness.from_repo(e):
                raise
            out['empty'].append('refused')
    return out


def eq(c, job, name, got, want, tol=1e-9):
    c.add('comparisons', len(want))
    if len(got) != len(want):
        c.violation(name, '%s: %d values instead of %d' % (name, len(got), len(want)), job['cfg'])
        return
    for i, (g, w) in enumerate(zip(got, want)):
        if not comps.close(g, w, tol):
            c.violation(name, '%s: item %d is %r, specified %r' % (name, i, g, w),
                        {'config': job['cfg'], 'hooked': job['hooked'], 'item': i,
                         'sub': job['sub'], 'rels': job['rels'], 'probs': job['probs']})
            return


def run(c):
    py2load.install()
    design.mixture(c, ['RelevanceIsPosterior', 'SimilaritySane', 'DependenceIsView'],
                   [(3, '{3}', 2, '{1}')])
    network_theorems(c)
    rng = np.random.RandomState(17000 + c.seed)
    jobs = [plan(rng, c, i) for i in range(c.pick(60, 500))]
    ans, rs = tlc.batch('Oracle', [j['q'] for j in jobs], jobs=8, min_chunk=4)
    c.tlc(rs)
    for j, o, a in zip(jobs, harness.pmap(ask, jobs), ans):
        _m, env = gen.model_of_config(j['cfg'])
        c.traces()
        names = j['names']
        dep = {(x, y): float(d) for (x, y), d in zip(j['q']['pairs'], a['dep'])}
        eq(c, j, 'dependence', o['dep'], [dep[tuple(p)] for p in j['q']['pairs']])
        perm = list(reversed(names))
        eq(c, j, 'dependence-matrix', np.ravel(o['deps']).tolist(), [dep[x, y] for x in perm for y in perm])
        outs = j['cfg']['outs']
        eq(c, j, 'dependence-matrix', np.ravel(o['deps_all']).tolist(), [dep[x, y] for x in outs for y in outs])
        n2 = j['cfg']['n'] ** 2
        sim = [x / float(y) for x, y in a['sim']]
        eq(c, j, 'similarity', o['sim'], sim[:n2])
        eq(c, j, 'similarity', o['sim_sub'], sim[n2:])
        eq(c, j, 'similarity-matrix', o['sims'], sim[:n2])
        eq(c, j, 'similarity-matrix', o['sims_sub'], sim[n2:])
        eq(c, j, 'relevance', o['rel'], a['rel'])
        eq(c, j, 'relevance-probability', o['prob'], [expr.num(expr.ev(x, env)) for x in a['prob']], 1e-6)
        for i, (k, x) in enumerate(zip(o['hyp'], a['hyp'])):
            p = expr.num(expr.ev(x, env))
            c.add('comparisons')
            if vstats.gtest({1: k, 0: j['reps'] - k}, {1: p, 0: 1 - p}) < vstats.ALPHA:
                c.violation('hypothetical-relevance', 'relevant in %d of %d draws, specified '
                            'probability %r' % (k, j['reps'], p),
                            {'config': j['cfg'], 'query': j['hyps'][i]})
        if o['empty'] != ['refused', 'refused']:
            c.violation('relevance-arguments', 'empty query or unknown column: %r' % (o['empty'],), j['cfg'])
    c.cov['distinct_nontrivial'] = int(c.cov['comparisons'])
    c.cov['rule'] = 'one compared summary value per count'
    c.sample({'config': jobs[1]['cfg'], 'hooked': jobs[1]['hooked']})
