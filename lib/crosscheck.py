"""What the CrossCat trace checks share: the small-scope theorems of
MCCrossCat.tla, the replay of its edges into the real State, and validation
of recorded histories by CrossCatTrace.tla."""

import collections
import json
import math
import os
import shutil
import tempfile

import numpy as np

import cchist
import cctrace
import comps
import harness
import tlc

CONFIGS = {
    # name: (columns, views, clusters, rows, types, inference moves)
    'teeth': ('{0}', '{0}', '{0,1}', 2, '{"bernoulli","categorical"}', 'TRUE', True),
    'rows': ('{0}', '{0}', '{0,1}', 3, '{"bernoulli"}', 'TRUE', False),
    'views': ('{0,1}', '{0,1}', '{0,1}', 1, '{"bernoulli"}', 'TRUE', False),
    'both': ('{0,1}', '{0}', '{0,1}', 2, '{"bernoulli"}', 'FALSE', False),
    'constraints': ('{0,1}', '{0,1}', '{0}', 2, '{"bernoulli"}', 'TRUE', False),
    'teeth-views': ('{0,1}', '{0,1}', '{0,1}', 1, '{"bernoulli"}', 'TRUE', True),
}


def cfg(name, props=True, emit=False):
    cols, views, clus, rows, types, moves, teeth = CONFIGS[name]
    t = 'SPECIFICATION Spec\nINVARIANTS Cohere Ledger\n'
    if props:
        t += 'PROPERTIES Accepted%s\n' % (' Rejected' if teeth else '')
    if emit:
        t += 'ACTION_CONSTRAINT Emit\n'
    return t + ('VIEW View\nCONSTANTS AllCols=%s Views=%s Clusters=%s MaxRows=%d '
                'Types=%s Moves=%s\nCONSTANT Constraints <- MCons\n' % (
                    cols, views, clus, rows, types, moves))


def theorems(c, names):
    """TLC checks the small-scope state machine."""
    for name in names:
        r = tlc.run('MCCrossCat', cfg(name), workers=8, heap='6g', timeout=850)
        if not r.ok:
            raise tlc.TLCError('MCCrossCat %s:\n%s' % (name, r.out[-3000:]))
        c.tlc(r)
        c.cov.setdefault('theorem_configs', []).append(
            {'config': name, 'states': r.distinct, 'transitions': r.states})


def edges(c, name):
    work = tempfile.mkdtemp(prefix='edges_')
    try:
        path = os.path.join(work, 'edges')
        r = tlc.run('MCCrossCat', cfg(name, props=False, emit=True), workers=4,
                    env={'EDGES': path}, timeout=600)
        if not r.ok:
            raise tlc.TLCError('MCCrossCat edges:\n' + r.out[-3000:])
        c.tlc(r)
        out = {}
        with open(path) as f:
            for ln in f:
                ln = ln.strip()
                if ln.startswith('"'):
                    ln = json.loads(ln)
                out[ln] = None
        return [json.loads(x) for x in sorted(out)]
    finally:
        shutil.rmtree(work, ignore_errors=True)


NAN = comps.NAN


def _val(v):
    return float('nan') if v == NAN else float(v)


def _build(A, seed):
    from cgpm.crosscat.state import State
    outs = A['outs']
    x = dict((k, v) for k, v in A['x'])
    ty = dict((k, v) for k, v in A['ty'])
    X = np.array([[_val(x[c][r]) for c in outs] for r in range(len(x[outs[0]]))])
    return State(X, outputs=list(outs), cctypes=[ty[c] for c in outs],
                 distargs=[{'k': 2} if ty[c] == 'categorical' else None for c in outs],
                 Zv=dict((k, v) for k, v in A['zv']),
                 Zrv=dict((k, list(v)) for k, v in A['z']),
                 Cd=[list(b) for b in A['cd']] or None, Ci=[tuple(p) for p in A['ci']] or None,
                 rng=np.random.RandomState(seed))


def _look(s):
    """The abstract state of a real State, in the words of MCCrossCat."""
    outs = [int(c) for c in s.outputs]
    st = {}
    for c in outs:
        d = s.dim_for(c)
        for k, comp in d.clusters.items():
            q = comp.get_suffstats()
            if not q['N']:
                continue
            st[(c, int(k))] = (int(q['N']),) + tuple(
                [int(q["x_sum"])] if d.cctype == 'bernoulli' else [int(u) for u in q['counts']])
    return {'outs': outs,
            'x': {c: [NAN if math.isnan(v) else float(v) for v in s.X[c]] for c in outs},
            'ty': {c: s.dim_for(c).cctype for c in outs},
            'zv': {int(c): int(v) for c, v in s.Zv().items()},
            'z': {int(v): [int(s.views[v].Zr()[r]) for r in range(s.n_rows())] for v in s.views},
            'cd': sorted(sorted(map(int, b)) for b in s.Cd),
            'ci': sorted(sorted(map(int, b)) for b in s.Ci), 'st': st}


def _want(A):
    st = {}
    for k, v in A['st']:
        if v['n']:
            st[tuple(k)] = (v['n'],) + tuple(v['s'])
    return {'outs': A['outs'], 'x': {k: v for k, v in A['x']}, 'ty': {k: v for k, v in A['ty']},
            'zv': {k: v for k, v in A['zv']}, 'z': {k: v for k, v in A['z']},
            'cd': sorted(sorted(b) for b in A['cd']), 'ci': sorted(sorted(b) for b in A['ci']),
            'st': st}


def replay_edges(es):
    """[(index, clause, message)] for edges whose replay differs."""
    out = []
    for i, e in enumerate(es):
        o = e['o']
        s = _build(e['pre'], i)
        cells = {a[0]: _val(a[2]) for a in o.get('obs', [])}
        try:
            if o['op'] == 'incorporate':
                cells.update({cctrace.TOKEN + v: k for v, k in o['clus']})
                s.incorporate(o['row'], cells)
            elif o['op'] == 'unincorporate':
                s.unincorporate(o['row'])
            elif o['op'] == 'force_cell':
                s.force_cell(o['row'], cells)
            elif o['op'] == 'incorporate_dim':
                t = o['col']['type']
                s.incorporate_dim([_val(a[2]) for a in o['t']], o['outputs'], None, t,
                                  {'k': 2} if t == 'categorical' else None, o['v'])
            elif o['op'] == 'unincorporate_dim':
                s.unincorporate_dim(o['c'])
            elif o['op'] == 'update_cctype':
                t = o['col']['type']
                s.update_cctype(o['c'], t, {'k': 2} if t == 'categorical' else None)
            ok = True
        except Exception as ex:     # pylint: disable=broad-except
            if not harness.from_repo(ex):
                raise
            ok = False
        if ok != e['ok']:
            out.append((i, 'C02:%s %s' % (o['op'], 'accepted' if ok else 'refused'),
                        '%s: specified %s, got %s' % (o, e['ok'], ok)))
            continue
        got, want = _look(s), _want(e['post'])
        for k in ('outs', 'x', 'ty', 'zv', 'z', 'cd', 'ci', 'st'):
            if got[k] != want[k]:
                tag = ('C02' if not ok or k in ('outs', 'x') else
                       'C12' if k in ('cd', 'ci') else 'C01')
                out.append((i, '%s:%s after %s' % (tag, k, o['op']),
                            '%s from %s: %s is %s, specified %s' % (
                                o, e['pre'], k, got[k], want[k])))
    return out


def replay(c, name, ops, limit=None):
    """Replay the edges of configuration `name` with one of the requests."""
    es = [e for e in edges(c, name) if e['o']['op'] in ops]
    if limit and len(es) > limit:
        rng = np.random.RandomState(c.seed)
        es = [es[i] for i in sorted(rng.choice(len(es), limit, replace=False))]
    n = 16
    parts = [es[i::n] for i in range(n)]
    for part, bad in zip(parts, harness.pmap(replay_edges, parts)):
        c.traces(len(part))
        c.add('edges_replayed', len(part))
        for i, clause, msg in bad:
            if clause.startswith(c.pid + ':'):
                c.violation('edge:' + clause[4:], msg, part[i])


def histories(c, specs, extra_tags=(), job=cchist.job):
    """Run histories in the real code; TLC judges every step."""
    recs = [x for r in harness.pmap(job, specs) for x in (r if isinstance(r, list) else [r])]
    ans, rs = cctrace.judge(recs)
    c.tlc(rs)
    ops = c.__dict__.setdefault('requests', collections.Counter())
    tags = (c.pid,) + tuple(extra_tags)
    for r, a in zip(recs, ans):
        c.traces()
        c.add('steps_validated', len(a))
        bad = False
        for i, v in enumerate(a):
            st = r['trace']['steps'][i]
            ops[(st['o']['op'], 'accepted' if st['ok'] else 'refused')] += 1
            for cl in v:
                bad = True
                if cl.split(':')[0] in tags:
                    c.violation('%s:%s' % (cl[4:], st['o']['op']),
                                'step %d of history %r (%s): %s' % (
                                    i, r['spec'], json.dumps(st['o'])[:400], cl),
                                {'spec': r['spec'], 'step': i, 'clause': cl})
        if r['stopped'] and not bad:
            raise RuntimeError('history %r stopped: %s' % (r['spec'], r['stopped']))
    c.cov['requests'] = {'%s %s' % k: n for k, n in sorted(ops.items())}
    c.cov['distinct_nontrivial'] = sum(ops.values())
    c.cov['rule'] = 'one judged request per count; histories differ in model, data and requests'
    if recs:
        r = recs[0]
        c.sample({'spec': r['spec'], 'requests': [s['o']['op'] for s in r['trace']['steps']]})
    return recs


def profile(base, n, length, weights, seed, **kw):
    """History specs; three quarters with closed-form components only."""
    out = []
    w = {k: 1 for k in cchist.Driver.MENU}
    w['compose'] = w['decompose'] = .5
    w.update(weights)
    for i in range(n):
        sp = dict(seed=base * 100003 + seed * 1009 + i, length=length, weights=w,
                  constrained=[None, None, True, 'ci'][i % 4])
        if i % 4 != 3:
            sp['types'] = cchist.FAST
        if i % 20 == 8:         # more rows or columns than one digit counts
            sp.update([{'n': 12, 'm': 3}, {'n': 3, 'm': 12}][i // 20 % 2], length=min(length, 8))
        sp.update(kw)
        out.append(sp)
    return out
