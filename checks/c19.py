"""C19 External inference backends round-trip the model.

Oracle: Lovecat.tla, a request of the CrossCat state machine: what the
backend must be sent, and what adopting its answer does.  Theorems in
MCLovecat.tla.  A stand-in backend records the message and gives a random
valid answer, or what it was sent; TLC judges every step of the history."""

import collections
import json
import os
import shutil
import tempfile

import numpy as np

import cchist
import cctrace
import harness
import loomstub
import lovestub
import py2load
import tlc

KERNELS = ['column_partition_hyperparameter', 'column_partition_assignments', 'column_hyperparameters',
           'row_partition_hyperparameters', 'row_partition_assignments']
BAD = cctrace.BAD


def theorems(c):
    for cols, n, views, clus, cells in c.pick(
            [('MCols', 2, '{0,4}', '{0,3,5}', '{0,2,3}')],
            [('MCols', 3, '{0,4}', '{0,5}', '{0,2,3}'), ('MCols', 2, '{0,4,6}', '{0,3,5}', '{0,3}'),
             ('MCols3', 2, '{0,4,6}', '{0,5}', '{0}')]):
        r = tlc.run('MCLovecat', 'SPECIFICATION Spec\nINVARIANTS RoundTrip Describes Numbered Faithful Decodes\n'
                    'CONSTANT ColNames<-%s\nCONSTANTS Rows=%d ViewLabels=%s ClusterLabels=%s Cells=%s\n'
                    'CHECK_DEADLOCK FALSE\n' % (cols, n, views, clus, cells), workers=8, timeout=800)
        if not r.ok:
            raise tlc.TLCError(r.out[-3000:])
        c.tlc(r)


# ------------------------------------------------------------------ messages
def position(name):
    return int(str(name)[1:])


def message(call, tok):
    """The message in the words of Lovecat.tla; BAD where it is not one."""
    M, T, L, D = call['M_c'], call['T'], call['X_L'], call['X_D']
    try:
        n = len(M['column_metadata'])
        names = [position(M['idx_to_name'][str(i)]) for i in range(n)]
        assert len(M['idx_to_name']) == len(M['name_to_idx']) == n
        assert all(M['name_to_idx']['c%d' % v] == i for i, v in enumerate(names))
        kinds, levels, hypers = [], [], []
        for i, m in enumerate(M['column_metadata']):
            k = {'normal_inverse_gamma': 0, 'symmetric_dirichlet_discrete': 1}[m['modeltype']]
            kinds.append(k)
            codes = {int(a): int(b) for a, b in m['code_to_value'].items()}
            back = {int(a): int(b) for a, b in m['value_to_code'].items()}
            assert {b: a for a, b in codes.items()} == back
            levels.append([back[j] for j in range(len(back))])
            h = L['column_hypers'][i]
            if k:
                assert h['K'] == len(codes)
                hypers.append([tok(h['dirichlet_alpha'])])
            else:
                hypers.append([tok(h[q]) for q in ('mu', 'nu', 'r', 's')])
        assert len(L['column_hypers']) == n
        table = []
        for row in T:
            assert len(row) == n
            table.append([cell(x, k, tok) for x, k in zip(row, kinds)])
        P, W = L['column_partition'], L['view_state']
        assert len(W) == len(D)
        ensure = L.get('col_ensure') or {}
        return {'kinds': kinds, 'names': names, 'levels': levels, 'table': table, 'hypers': hypers,
                'assign': [int(x) for x in P['assignments']], 'counts': [int(x) for x in P['counts']],
                'alpha': tok(P['hypers']['alpha']), 'parts': [[int(x) for x in d] for d in D],
                'pcounts': [[int(x) for x in w['row_partition_model']['counts']] for w in W],
                'palphas': [tok(w['row_partition_model']['hypers']['alpha']) for w in W],
                'members': [sorted(position(x) for x in w['column_names']) for w in W],
                'slots': [[len(w['column_component_suffstats']),
                           (lambda z: z.pop() if len(z) == 1 else BAD)({len(d) for d in w['column_component_suffstats']})]
                          for w in W],
                'dep': sorted([int(a), sorted(int(x) for x in b)] for a, b in (ensure.get('dependent') or {}).items()),
                'ind': sorted(sorted([int(a), int(x)]) for a, b in (ensure.get('independent') or {}).items() for x in b)}
    except (KeyError, AssertionError, ValueError, TypeError, IndexError) as e:
        return dict(EMPTY, names=[BAD], note=repr(e)[:80])


EMPTY = {'kinds': [], 'names': [], 'levels': [], 'table': [], 'hypers': [], 'assign': [], 'counts': [], 'alpha': 0,
         'parts': [], 'pcounts': [], 'palphas': [], 'members': [], 'slots': [], 'dep': [], 'ind': []}


def cell(x, kind, tok):
    x = float(x)
    if x != x:
        return cctrace.NAN
    if kind == 0:
        return tok(x)
    return int(x) if x == int(x) else BAD


# ------------------------------------------------------------------- answers
def partition(rng, n, most=4):
    z = rng.randint(int(rng.randint(1, most + 1)), size=n)
    seen = sorted(set(int(x) for x in z))
    return [seen.index(int(x)) for x in z]


def answer(rng, s, kind, steps):
    """A function of the call: the backend's answer."""
    outs = [int(c) for c in s.outputs]

    def positive():
        return float(np.exp(rng.uniform(-4, 4)))

    def give(call):
        if kind == 'fails':
            return lovestub.Failed('the backend failed')
        L, D = call['X_L'], call['X_D']
        if kind == 'echo':
            diag = diagnostics(L['column_partition']['assignments'])
            return L, D, diag
        while True:
            a = partition(rng, len(outs), 3)
            of = dict(zip(outs, a))
            if all(len({of[x] for x in b}) == 1 for b in s.Cd) and all(of[x] != of[y] for x, y in s.Ci):
                break
            if rng.rand() < .02:        # the constraints leave few partitions
                a = [int(x) for x in L['column_partition']['assignments']]
                break
        q = len(set(a))
        D = [partition(rng, s.n_rows()) for _ in range(q)]
        L = {'column_partition': {'assignments': a, 'counts': [a.count(i) for i in range(q)],
                                  'hypers': {'alpha': positive()}},
             'column_hypers': [{'fixed': 0., 'mu': -1e3, 'nu': -1., 'r': -2., 's': -3., 'dirichlet_alpha': -1., 'K': 50}
                               for _ in outs],
             'view_state': [{'column_component_suffstats': [[{} for _ in set(D[i])] for x in a if x == i],
                             'column_names': ['c%d' % c for c in outs if of[c] == i],
                             'row_partition_model': {'counts': [D[i].count(k) for k in sorted(set(D[i]))],
                                                     'hypers': {'alpha': positive()}}} for i in range(q)],
             'col_ensure': {}}
        return L, D, diagnostics(a)

    def diagnostics(last):
        more = [partition(rng, len(outs), 3) for _ in range(steps)]
        if more:
            more[-1] = [int(x) for x in last]
        return {'logscore': np.array([[-positive()] for _ in more]),
                'column_crp_alpha': np.array([[positive()] for _ in more]),
                'column_partition_assignments': np.array(more).T.reshape((len(outs), steps, 1))
                if steps else np.zeros((len(outs), 0, 1))}
    return give


class Driver(cchist.Driver):
    MENU = cchist.Driver.MENU + ['lovecat']

    def lovecat(self):
        from cgpm.crosscat import lovecat
        rng, r, s = self.rng, self.r, self.s
        if any(d.cctype == 'categorical' and not any(x == x for x in s.X[c])
               for c in s.outputs for d in [s.dim_for(c)]):
            return self.query()     # such a column has no levels to speak of
        self.name('lovecat')
        kind = ['echo', 'random', 'random', 'random', 'random', 'fails'][rng.randint(6)]
        level = 'direct' if rng.rand() < .65 else 'state'
        z = rng.rand()
        n = None if z < .35 else int(rng.randint(1, 6))
        secs = None if z > .2 else int(rng.randint(1, 9))
        kernels = None if rng.rand() < .5 else cchist.subset(rng, KERNELS)
        cols = None if rng.rand() < .5 else cchist.subset(rng, self.outs(), 1)
        if cols and rng.rand() < .08:
            cols = cols + [self.free()[0]]
        rows = None if rng.rand() < .5 else cchist.subset(rng, range(s.n_rows()), 1)
        check = int(rng.choice([0, 0, 1, 2]))
        B = lovestub.BACKEND
        B.calls, B.seeds = [], []
        inner = answer(rng, s, kind, int(rng.randint(0, 4)) if check else 0)
        said = []

        def give(call):
            a = inner(call)
            if not isinstance(a, Exception):
                said.append(json.loads(json.dumps(a, default=plain)))
            return a
        B.answer = give
        o = {'op': 'lovecat', 'level': level, 'n': -1 if n is None else n, 'secs': -1 if secs is None else secs,
             'kernels': kernels or [], 'cols': cols or [], 'rows': rows or [], 'check': check,
             'answers': kind != 'fails', 'kind': kind}
        kw = {'N': n, 'S': secs, 'kernels': kernels, 'cols': cols, 'rowids': rows, 'checkpoint': check or None,
              'progress': False}
        fn = s.transition_lovecat
        if level == 'direct':
            fn = lambda **k: lovecat.transition(s, seed=[None, 3][rng.randint(2)], **k)
        ok, _ = r.do(o, lambda: fn(**kw))
        # what was asked and answered, in the words of the specification
        call = B.calls[0] if B.calls else None
        o['sent'] = message(call, r.tok) if call else dict(EMPTY)
        o['asked'] = {'times': len(B.calls), 'steps': -7, 'limit': -7, 'kernels': [], 'cols': [], 'rows': [], 'every': -7}
        if call:
            o['asked'].update({'steps': int(call['steps']), 'limit': int(call['limit']),
                               'kernels': [str(x) for x in call['kernels']], 'cols': [int(x) for x in call['cols']],
                               'rows': [int(x) for x in call['rows']], 'every': int(call['every'])})
        o['ans'] = {'assign': [], 'parts': [], 'palphas': [], 'alpha': 0, 'diag': []}
        if said:
            L, D, g = said[0]
            o['ans'] = {'assign': L['column_partition']['assignments'], 'parts': D,
                        'alpha': r.tok(L['column_partition']['hypers']['alpha']),
                        'palphas': [r.tok(w['row_partition_model']['hypers']['alpha']) for w in L['view_state']],
                        'diag': [] if not check else [
                            {'score': r.tok(round(float(g['logscore'][i][0]), 5)), 'alpha': r.tok(g['column_crp_alpha'][i][0]),
                             'assign': [int(x[i][0]) for x in g['column_partition_assignments']]}
                            for i in range(len(g['logscore']))]}
        if ok and call:     # the message belongs to the backend
            T, L, D = call['raw']
            for row in T:
                row[:] = [-9.] * len(row)
            for d in D:
                d[:] = [77] * len(d)
            for b in (L.get('col_ensure') or {}).values():
                for x in b.values():
                    x[:] = [55]
            r.idle()


def plain(x):
    return x.tolist()


# ----------------------------------------------------------------------- loom
class LoomDriver(cchist.Driver):
    MENU = cchist.Driver.MENU + ['loom']

    def loom(self):
        from cgpm.crosscat import loomcat
        rng, r, s = self.rng, self.r, self.s
        self.name('loom')
        n = None if rng.rand() < .3 else int(rng.randint(1, 9))
        level = 'direct' if rng.rand() < .6 else 'state'
        seed = None if rng.rand() < .5 else int(rng.randint(0, 4))
        kw = {}
        if rng.rand() < .1:
            kw = [{'S': 3}, {'kernels': ['alpha']}, {'progress': False}, {'checkpoint': 1}][rng.randint(4)]
        o = {'op': 'loom', 'level': level, 'n': -1 if n is None else n, 'seed': seed or 0, 'plain': not kw,
             'answers': rng.rand() < .93}
        said, results = [], []

        def give(path, i):
            if not o['answers']:
                raise lovestub.Failed('the backend failed')
            said.append(loom_answer(rng, path))
            results.append(path)
            return said[-1]
        loomstub.ANSWER[0] = give
        del loomstub.LOG[:]
        fn = s.transition_loom if level == 'state' else lambda **k: loomcat.transition(s, **k)
        r.do(o, lambda: fn(N=n, seed=seed, **kw))
        tell(o, r.tok, said, results)


def loom_answer(rng, path):
    d = loomstub.dataset(path)
    a = partition(rng, len(d['head']), 3)
    kinds = [[int(x) for x in rng.permutation([i for i, k in enumerate(a) if k == j])] for j in sorted(set(a))]
    parts = []
    for _ in kinds:
        z = partition(rng, len(d['rows']))
        names = [int(x) for x in rng.permutation(9)]
        parts.append([names[k] for k in z])
    return kinds, parts


def tell(o, tok, said, results, i=0):
    """What the backend had and said, in the words of the specification."""
    o['sent'] = {'names': [BAD], 'types': [], 'table': []}
    o['asked'] = {'passes': -7, 'sample': -7}
    o['ans'] = {'features': [], 'kinds': [], 'parts': []}
    if not said:
        return
    d = loomstub.dataset(results[i])
    try:
        o['sent'] = {'names': [position(h) for h in d['head']],
                     'types': [dict(d['schema'])[h] for h in d['head']],
                     'table': [[tok(float(x) if x else float('nan')) for x in row] for row in d['rows']]}
    except (KeyError, ValueError) as e:
        o['sent']['note'] = repr(e)[:80]
    asked = [x for x in loomstub.LOG if x[0] == 'infer']
    if len(asked) == 1:
        o['asked'] = {'passes': asked[0][3], 'sample': asked[0][2]}
    o['ans'] = {'features': [position(h) for h in d['order']], 'kinds': said[i][0], 'parts': said[i][1]}


def loom_job(spec):
    rng = np.random.RandomState(spec['seed'])
    store = tempfile.mkdtemp(prefix='loom_')
    os.environ['CGPM_LOOM_STORE'] = store
    try:
        loomstub.install()
        big = spec.get('big') or [None, int(rng.randint(1, 7))]
        r = cchist.start(rng, spec['types'], n=big[0], m=big[1])
        counts, stopped = {}, None
        if r.s is not None:
            d = LoomDriver(r, rng, spec['types'])
            d.run(spec['length'], spec['weights'])
            counts, stopped = d.counts, d.stopped
        return {'stopped': stopped, 'trace': r.trace(), 'notes': r.notes[-6:], 'counts': counts, 'spec': spec}
    finally:
        shutil.rmtree(store, ignore_errors=True)


def engine_job(spec):
    """An ensemble: sample i of one project becomes state i."""
    from cgpm.crosscat.engine import Engine
    rng = np.random.RandomState(spec['seed'])
    store = tempfile.mkdtemp(prefix='loom_')
    os.environ['CGPM_LOOM_STORE'] = store
    try:
        loomstub.install()
        r = cchist.start(rng, spec['types'], given=False)
        s = r.s
        e = Engine(np.array([s.X[c] for c in s.outputs], dtype=float).T, num_states=int(rng.randint(2, 4)),
                   rng=np.random.RandomState(rng.randint(2 ** 31)), multiprocess=0,
                   cctypes=s.cctypes(), distargs=s.distargs(), outputs=list(s.outputs))
        recs = []
        for i in range(e.num_states()):
            q = cctrace.Recorder({})
            q.tok, q.defs, q.s = r.tok, r.defs, e.states[i]
            q.snap()
            recs.append(q)
        for _ in range(spec['length']):
            kind = ['loom', 'loom', 'incorporate', 'transition'][rng.randint(4)]
            said, results, ok = [], [], True

            def give(path, i):
                said.append(loom_answer(rng, path))
                results.append(path)
                return said[-1]
            loomstub.ANSWER[0] = give
            del loomstub.LOG[:]
            n = None if rng.rand() < .4 else int(rng.randint(1, 9))
            row = {c: float(s.X[c][rng.randint(len(s.X[c]))]) for c in s.outputs}
            try:
                if kind == 'loom':
                    cctrace.quiet(e.transition_loom, N=n)
                elif kind == 'incorporate':
                    e.incorporate(-1, row, multiprocess=0)
                else:
                    e.transition(N=1, multiprocess=0, progress=False)
            except Exception as x:      # pylint: disable=broad-except
                if not harness.from_repo(x):
                    raise
                ok = False
                r.notes.append(repr(x)[:300])
            for i, q in enumerate(recs):
                q.s = e.states[i]
                pre = len(q.states)
                o = {'op': 'loom', 'level': 'engine', 'n': -1 if n is None else n, 'seed': -1, 'plain': True,
                     'answers': True}
                post = q.same_snap()
                if kind == 'loom':
                    tell(o, q.tok, said, results, i)
                    q.steps.append({'o': o, 'ok': ok, 'pre': pre, 'post': post})
        return [{'stopped': None, 'trace': q.trace(), 'notes': r.notes[-6:],
                 'counts': {'loom': len(q.steps)}, 'spec': dict(spec, state=i)} for i, q in enumerate(recs)]
    finally:
        shutil.rmtree(store, ignore_errors=True)


def job(spec):
    if spec.get('backend') == 'engine':
        return engine_job(spec)
    if spec.get('backend') == 'loom':
        return loom_job(spec)
    rng = np.random.RandomState(spec['seed'])
    lovestub.install()
    cd = ci = None
    n, m = spec.get('big') or (None, None)
    if spec.get('constrained'):
        m = int(rng.randint(2, 6))
        cd, ci = cchist.constraints(rng, list(range(m)))
    r = cchist.start(rng, spec['types'], n=n, m=m, cd=cd, ci=ci)
    counts, stopped = {}, None
    if r.s is not None:
        d = Driver(r, rng, spec['types'])
        d.run(spec['length'], spec['weights'])
        counts, stopped = d.counts, d.stopped
    return {'stopped': stopped, 'trace': r.trace(), 'notes': r.notes[-6:], 'counts': counts, 'spec': spec}


def run(c):
    py2load.install()
    theorems(c)
    specs = []
    w = {k: 1 for k in Driver.MENU}
    w.update({'lovecat': 6, 'invalid': .3, 'query': .5, 'compose': .2, 'decompose': .2, 'update_cctype': .4})
    for i in range(c.pick(120, 1200)):
        specs.append(dict(seed=19 * 100003 + c.seed * 1009 + i, length=c.pick(14, 22), weights=w,
                          constrained=i % 3 == 0,
                          types=['normal', 'categorical'] + (['bernoulli', 'normal', 'categorical'] if i % 8 == 5 else [])))
    love, w = w, {k: 1 for k in LoomDriver.MENU}
    w.update({'loom': 6, 'invalid': .3, 'query': .5, 'compose': .2, 'decompose': .2, 'update_cctype': .6})
    for i in range(c.pick(64, 800)):
        specs.append(dict(seed=19 * 100003 + 500000 + c.seed * 1009 + i, length=c.pick(12, 20), weights=w, backend='loom',
                          types=cchist.FAST if i % 3 else cchist.ALLT))
    for i in range(c.pick(8, 60)):
        specs.append(dict(seed=19 * 100003 + 700000 + c.seed * 1009 + i, length=c.pick(5, 10), backend='engine',
                          types=cchist.FAST))
    # more rows and columns than one digit counts
    for i in range(c.pick(12, 80)):
        specs.append(dict(seed=19 * 100003 + 800000 + c.seed * 1009 + i, length=c.pick(5, 8), weights=[love, w][i % 2], backend=[None, 'loom'][i % 2],
                          big=[11 + i % 3, 3] if i % 4 < 2 else [3, 11], types=['normal', 'categorical']))
    recs = [x for r in harness.pmap(job, specs) for x in (r if isinstance(r, list) else [r])]
    ans, rs = tlc.batch('LovecatTrace', [r['trace'] for r in recs], jobs=8, min_chunk=2)
    c.tlc(rs)
    ops = collections.Counter()
    for r, a in zip(recs, ans):
        c.traces()
        for i, v in enumerate(a):
            st = r['trace']['steps'][i]
            ops[(st['o']['op'], 'accepted' if st['ok'] else 'refused')] += 1
            if i and r['trace']['steps'][i - 1]['o']['op'] == 'lovecat' and st['o']['op'] == 'idle' and v:
                v = ['C19:the message shares structure with the model']
            for cl in v:
                if cl.startswith('C19:'):
                    c.violation('%s:%s' % (cl[4:], st['o']['op']), 'step %d of history %r (%s): %s %s' % (
                        i, r['spec'], json.dumps(st['o'])[:300], cl, r['notes'][-2:]),
                        {'spec': r['spec'], 'step': i, 'clause': cl})
        if r['stopped'] and not any(a):
            raise RuntimeError('history %r stopped: %s' % (r['spec'], r['stopped']))
    c.cov['requests'] = {'%s %s' % k: n for k, n in sorted(ops.items())}
    c.cov['distinct_nontrivial'] = sum(n for k, n in ops.items() if k[0] in ('lovecat', 'loom'))
    c.cov['rule'] = 'one lovecat or loom request per count, each of another model'
    c.sample({'spec': recs[0]['spec'], 'requests': [s['o']['op'] for s in recs[0]['trace']['steps']]})
