"""C13 Ensembles address the right models in the right order.

Oracle: Ensemble.tla (models as <<id, requests applied>>, addressing by
positions; the order of results and of stored models, serially and through a
parallel map, equals the model-by-model meaning); theorems in MCEnsemble.tla.
Histories drawn from MCEnsemble are performed by two real Engines, one serial
and one multiprocess; every model the specification says is at a position is
kept aside as a State of its own that receives the same requests alone."""

import json
import math
import os
import pickle
import shutil
import tempfile

import numpy as np

import cchist
import cctrace
import comps
import harness
import py2load
import tlc
import vstats


def theorems(c):
    for m0, mx, depth in c.pick([(2, 3, 3)], [(2, 3, 4), (3, 4, 4)]):
        r = tlc.run('MCEnsemble', 'SPECIFICATION Spec\nINVARIANTS OrderKept Shared Once ParallelOK SerialOK\n'
                    'PROPERTIES OthersKept AnswersKeep\nVIEW View\nCHECK_DEADLOCK FALSE\n'
                    'CONSTANTS M0=%d MaxModels=%d Depth=%d\n' % (m0, mx, depth), workers=8, timeout=800)
        if not r.ok:
            raise tlc.TLCError(r.out[-3000:])
        c.tlc(r)


def histories(c, m0, depth, num, seed):
    work = tempfile.mkdtemp(prefix='ens_')
    try:
        path = os.path.join(work, 'edges')
        r = tlc.run('MCEnsemble', 'SPECIFICATION Spec\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
                    'CONSTANTS M0=%d MaxModels=%d Depth=%d\nCONSTANT Modes<-SomeModes\n' % (m0, m0 + 1, depth),
                    workers=1, timeout=600, env={'EDGES': path},
                    extra=['-simulate', 'num=%d' % num, '-seed', str(seed), '-depth', str(depth + 1)])
        if 'Error' in r.out:
            raise tlc.TLCError(r.out[-3000:])
        out, seen = [], {}
        with open(path) as f:
            for ln in f:
                h = json.loads(ln)
                h = json.loads(h) if isinstance(h, str) else h
                seen.setdefault(json.dumps(h[:-1]), []).append(h)
        rng = np.random.RandomState(seed)
        for k in sorted(seen):
            out.append(seen[k][rng.randint(len(seen[k]))])
        return out
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ---- concrete requests

def pick(rng, xs, least=1):
    return cchist.subset(rng, xs, least)


class Maker(object):
    """Random arguments for requests to a model over the current dataset."""
    def __init__(self, defs, rng, later):
        self.defs, self.rng, self.later = defs, rng, later
        self.marks = 0

    def view(self, s):
        return [int(x) for x in s.outputs], s.n_rows()

    def targets(self, s, row=None):
        rng = self.rng
        outs, n = self.view(s)
        if row is None:
            row = int(rng.choice([-1, n + 2])) if rng.rand() < .6 else int(rng.randint(n))
        free = outs if not 0 <= row < n else [c for c in outs if math.isnan(s.X[c][row])]
        if not free:
            row, free = -1, outs
        perm = [free[i] for i in rng.permutation(len(free))]
        q = int(rng.randint(1, min(2, len(perm)) + 1))
        t = {c: cchist.val(self.defs[c], rng) for c in perm[:q]}
        k = {c: cchist.val(self.defs[c], rng) for c in perm[q:q + int(rng.randint(0, 3))]}
        return row, t, k or None

    def query(self, s, composite):
        rng = self.rng
        outs, n = self.view(s)
        kind = rng.randint(9)
        row, t, k = self.targets(s)
        if composite and kind < 2:
            hooked = [o for g in s.hooked_cgpms.values() for o in g.outputs]
            return 'logpdf', {'rowid': -1, 'targets': {hooked[rng.randint(len(hooked))]: 1.}}
        if kind == 0:
            return 'logpdf', {'rowid': row, 'targets': t, 'constraints': k}
        if kind == 1:
            qs = [self.targets(s) for _ in range(3)]
            cons = [x[2] for x in qs] if rng.rand() < .7 else None
            return 'logpdf_bulk', {'rowids': [x[0] for x in qs], 'targets_list': [x[1] for x in qs],
                                   'constraints_list': cons}
        if kind == 2:
            return 'logpdf_score', {}
        if kind == 3:
            return 'logpdf_likelihood', {}
        if kind == 4:
            return 'dependence_probability', {'col0': int(rng.choice(outs)), 'col1': int(rng.choice(outs))}
        if kind == 5:
            return 'dependence_probability_pairwise', {'colnos': pick(rng, outs) if rng.rand() < .6 else None}
        if kind == 6:
            return 'row_similarity', {'row0': int(rng.randint(n)), 'row1': int(rng.randint(n)),
                                      'cols': pick(rng, outs) if rng.rand() < .6 else None}
        if kind == 7:
            return 'row_similarity_pairwise', {'cols': pick(rng, outs) if rng.rand() < .6 else None}
        hyp = None
        col = int(rng.choice(outs))
        if rng.rand() < .4:
            hyp = [{col: cchist.val(self.defs[col], rng)}]
        return 'relevance_probability', {'rowid_target': int(rng.randint(n)),
                                         'rowid_query': [int(x) for x in rng.randint(0, n, 1 + rng.randint(2))],
                                         'col': col, 'hypotheticals': hyp}

    def draw(self, s, composite):
        rng = self.rng
        kind = rng.randint(3)
        outs, _n = self.view(s)
        if kind == 0 or (kind == 1 and composite):
            row, t, k = self.targets(s)
            return 'simulate', {'rowid': row, 'targets': list(t), 'constraints': k,
                                'N': [None, 1, 4][rng.randint(3)]}
        if kind == 1:
            qs = [self.targets(s) for _ in range(2)]
            return 'simulate_bulk', {'rowids': [x[0] for x in qs], 'targets_list': [list(x[1]) for x in qs],
                                     'constraints_list': [x[2] for x in qs],
                                     'Ns': [2, 3] if rng.rand() < .7 else None}
        perm = [int(x) for x in rng.permutation(outs)]
        a, b = perm[:1], perm[1:2] or perm[:1]
        cons = {c: cchist.val(self.defs[c], rng) for c in perm[2:3]}
        return 'mutual_information', {'col0': a, 'col1': b, 'constraints': cons, 'T': 2, 'N': 3}

    def update(self, s, composite):
        rng = self.rng
        outs, n = self.view(s)
        ks = pick(rng, [k for k in cchist.KERNELS if k != 'columns' or not composite])
        kind = rng.randint(4)
        if composite and kind == 0:
            return 'transition_foreign', {'N': int(rng.randint(1, 3)), 'progress': False}
        if kind == 1:
            def again(state):
                state.transition(N=1, kernels=ks, progress=False)
                return state

            def mark(state):
                done = sum(state.diagnostics['iterations'].values())
                state.diagnostics['logscore'].append(float(done))
                state.diagnostics['column_crp_alpha'].append(1.)
                state.diagnostics['column_partition'].append([])
                return state

            def other(state):
                return pickle.loads(pickle.dumps(state))
            fs = [[again], [again, mark], [mark, other, again], []][rng.randint(4)]
            return 'alter', {'funcs': fs}
        return 'transition', {
            'N': int(rng.choice([1, 1, 2])), 'kernels': ks,
            'rowids': pick(rng, range(n)) if rng.rand() < .3 else None,
            'cols': pick(rng, outs) if rng.rand() < .3 else None,
            'progress': False, 'checkpoint': 1 if rng.rand() < .4 else None}

    def data(self, s, composite, num):
        """(method, arguments); compose_cgpm takes one model per state."""
        rng = self.rng
        outs, n = self.view(s)
        for kind in rng.permutation(10):
            if kind == 0:
                return 'incorporate', {'rowid': n, 'observation': self.row(outs)}
            if kind == 1:
                m = int(rng.randint(1, 4))
                return 'incorporate_bulk', {'rowids': list(range(n, n + m)),
                                            'observations': [self.row(outs) for _ in range(m)]}
            if kind == 2 and n > 2 and all(any(not math.isnan(x) for x in s.X[c][:-1]) for c in outs):
                return 'unincorporate', {'rowid': n - 1}
            holes = [(r, c) for c in outs for r in range(n) if math.isnan(s.X[c][r])]
            if kind == 3 and holes:
                r, c = holes[rng.randint(len(holes))]
                return 'force_cell', {'rowid': r, 'observation': {c: cchist.val(self.defs[c], rng)}}
            if kind == 4 and len(holes) > 1:
                hs = [holes[i] for i in rng.permutation(len(holes))[:2]]
                return 'force_cell_bulk', {'rowids': [h[0] for h in hs],
                                           'queries': [{h[1]: cchist.val(self.defs[h[1]], rng)} for h in hs]}
            if kind in (5, 6) and not composite and len(outs) < 6:
                c = max(list(self.defs) + outs) + 1
                col = cchist.newcol(rng, c, cchist.FAST)
                self.defs[c] = col
                return 'incorporate_dim', {'T': cchist.column(col, rng, n), 'outputs': [c], 'cctype': col['type'],
                                           'distargs': comps.distargs(col) or None,
                                           'v': None if rng.rand() < .5 else 40}
            if kind == 7 and not composite and len(outs) > 2:
                return 'unincorporate_dim', {'col': int(rng.choice(outs))}
            if kind == 8 and not composite:
                c = int(rng.choice(outs))
                if self.defs[c]['type'] in ('poisson', 'geometric'):
                    col = dict(comps.col('normal', rng, c), den=1)
                    self.defs[c] = col
                    return 'update_cctype', {'col': c, 'cctype': 'normal'}
            if kind == 9 and not composite and not self.later:
                out = max(list(self.defs) + outs) + 50
                self.marks += 1
                return 'compose_cgpm', {'outputs': [out], 'inputs': [outs[0]],
                                        'marks': [10 * self.marks + i for i in range(num)]}
        return 'incorporate', {'rowid': n, 'observation': self.row(outs)}

    def row(self, outs):
        return {c: cchist.val(self.defs[c], self.rng) for c in pick(self.rng, outs)}

    def bad(self, kind, s):
        rng = self.rng
        outs, n = self.view(s)
        c = outs[0]
        x = cchist.val(self.defs[c], rng)
        if kind == 'bad-query':
            return [('logpdf', {'rowid': -1, 'targets': {99999: 1.}}),
                    ('simulate', {'rowid': -1, 'targets': [c, c], 'N': 2}),
                    ('logpdf', {'rowid': -1, 'targets': {c: x}, 'constraints': {c: x}}),
                    ('relevance_probability', {'rowid_target': 0, 'rowid_query': [0], 'col': 99999})][rng.randint(4)]
        if kind == 'bad-update':
            return 'transition', {'N': 1, 'kernels': ['column_hypers'], 'cols': [99999], 'progress': False}
        return [('incorporate', {'rowid': n + 3, 'observation': {c: x}}),
                ('incorporate', {'rowid': n, 'observation': {99999: x}}),
                ('unincorporate', {'rowid': n + 5}),
                ('unincorporate_dim', {'col': 99999}),
                ('incorporate_dim', {'T': [x] * (n + 1), 'outputs': [9999], 'cctype': 'normal', 'v': 0}),
                ('force_cell', {'rowid': n + 2, 'observation': {c: x}})][rng.randint(6)]


def finger(s, defs, tok):
    sn = cctrace.snapshot(s, defs, tok)
    for col in sn['cols']:
        col['cl'] = [q for q in col['cl'] if q['n']]
    sn['hooked'] = sorted([list(map(int, g.outputs)), list(map(int, g.inputs)), g.mark, g.count]
                          for g in s.hooked_cgpms.values())
    return json.dumps(sn, sort_keys=True)


def plain(x):
    """A comparable copy of an answer."""
    if isinstance(x, dict):
        return {int(k): plain(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return float(x)


def alike(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return comps.close(a, b, 1e-9) or (a != a and b != b)
    return False


def shape(x):
    if isinstance(x, dict):
        return sorted(x)
    if isinstance(x, list):
        return ['list'] + [shape(v) for v in x]
    return 'number'


def clone(s):
    return pickle.loads(pickle.dumps(s))


def copyargs(method, a):
    return dict(a) if method == 'alter' else pickle.loads(pickle.dumps(a))


def alone_apply(s, method, a):
    if method == 'alter':
        for f in a['funcs']:
            s = f(s)
        return s
    cctrace.quiet(getattr(s, method), **pickle.loads(pickle.dumps(a)))
    return s


def perform(job):
    from cgpm.crosscat.engine import Engine
    from cgpm.crosscat.state import State
    import ensmock
    rng = np.random.RandomState(job['seed'])
    hist = job['hist']
    m = int(rng.randint(2, 5))
    n = int(rng.randint(2, 6))
    defs = {}
    for cid in range(m):
        defs[cid] = cchist.newcol(rng, cid, cchist.FAST)
    rows = [list(r) for r in zip(*[cchist.column(defs[i], rng, n) for i in range(m)])]
    log = []
    fails = []
    tok = cctrace.Tokens()
    seed = int(rng.randint(2 ** 31))

    def make(multi):
        return Engine(np.array(rows), num_states=job['m0'], rng=np.random.RandomState(seed), multiprocess=multi,
                      cctypes=[defs[i]['type'] for i in range(m)],
                      distargs=[comps.distargs(defs[i]) or None for i in range(m)])
    engines = [make(0), make(1)]
    alone = {i + 1: clone(s) for i, s in enumerate(engines[0].states)}
    order = [i + 1 for i in range(job['m0'])]

    def fail(key, what):
        fails.append((key, what))

    def agree(where):
        for e, name in zip(engines, ('serial', 'multiprocess')):
            if e.num_states() != len(order):
                return fail('models', '%s: %d models in the %s engine, specified %r' % (
                    where, e.num_states(), name, order))
            for i, mid in enumerate(order):
                if finger(e.get_state(i), defs, tok) != finger(alone[mid], defs, tok):
                    a, b = (json.loads(finger(x, defs, tok)) for x in (e.get_state(i), alone[mid]))
                    return fail('models', '%s: model %d of the %s engine differs from the model alone in %s' % (
                        where, i, name, [k for k in a if a[k] != b.get(k)]))
            first = e.states[0]
            for s in e.states[1:]:
                if not (s.outputs == first.outputs and [list(map(str, s.X[c])) for c in s.outputs]
                        == [list(map(str, first.X[c])) for c in first.outputs]):
                    return fail('dataset', '%s: the models of the %s engine have different datasets' % (where, name))

    agree('start')
    maker = Maker(defs, rng, False)
    for step, h in enumerate(hist):
        if fails:
            break
        op, nos = h['op'], [i - 1 for i in h['nos']]
        maker.later = any(x['op'] == 'add' for x in hist[step:])
        given = None if h['mode'] == 'all' else nos
        if given is None and rng.rand() < .3:
            given = list(range(len(order)))
        if given is not None:
            given = [list, tuple, np.array][rng.randint(3)](given) if given else []
        ref = alone[order[0]]
        composite = bool(ref.hooked_cgpms)
        where = 'step %d (%s %r)' % (step, op, h['nos'])
        if op in ('query', 'draw'):
            method, a = getattr(maker, op)(ref, composite)
            log.append([op, method, h['nos'], repr(a)])
            got = []
            for e, mp in zip(engines, (0, 1)):
                before = [finger(s, defs, tok) for s in e.states]
                r = cctrace.quiet(getattr(e, method), statenos=given, multiprocess=mp, **copyargs(method, a))
                got.append(plain(r))
                if before != [finger(s, defs, tok) for s in e.states]:
                    fail('query-changes', '%s: %s changes a model' % (where, method))
            if len(got[0]) != len(nos) or len(got[1]) != len(nos):
                fail('answers', '%s: %s gives %d and %d answers for %d models' % (
                    where, method, len(got[0]), len(got[1]), len(nos)))
            elif not alike(got[0], got[1]):
                fail('serial-parallel', '%s: %s answers %r serially and %r in parallel' % (
                    where, method, got[0], got[1]))
            elif op == 'query':
                want = []
                ids = [x[0] for x in h['answers']]
                assert ids == [order[i] for i in nos]
                for mid in ids:
                    s = alone[mid]
                    keep = s.rng.get_state()
                    want.append(plain(cctrace.quiet(getattr(s, method), **copyargs(method, a))))
                    s.rng.set_state(keep)
                if not alike(got[0], want):
                    fail('answers', '%s: %s answers %r, the models alone %r' % (where, method, got[0], want))
            else:       # the engine gave the models new seeds
                shapes = []
                for i in nos:
                    s = clone(alone[order[i]])
                    shapes.append(shape(plain(cctrace.quiet(getattr(s, method), **copyargs(method, a)))))
                if shapes != [shape(x) for x in got[0]]:
                    fail('shape', '%s: %s gives %r, the models alone the shapes %r' % (where, method, got[0], shapes))
                for i, mid in enumerate(order):
                    alone[mid].rng.set_state(engines[0].states[i].rng.get_state())
        elif op in ('update', 'data'):
            method, a = maker.update(ref, composite) if op == 'update' else maker.data(ref, composite, len(order))
            log.append([op, method, h['nos'], repr(a)])
            if method == 'compose_cgpm':
                for e, mp in zip(engines, (0, 1)):
                    gs = [ensmock.Marked(a['outputs'], a['inputs'], k) for k in a['marks']]
                    cctrace.quiet(e.compose_cgpm, gs, multiprocess=mp)
                for i, mid in enumerate(order):
                    alone[mid].compose_cgpm(ensmock.Marked(a['outputs'], a['inputs'], a['marks'][i]))
            else:
                for e, mp in zip(engines, (0, 1)):
                    kw = {'statenos': given} if op == 'update' else {}
                    cctrace.quiet(getattr(e, method), multiprocess=mp, **dict(copyargs(method, a), **kw))
                for i in sorted(set(nos)):
                    alone[order[i]] = alone_apply(alone[order[i]], method, a)
        elif op.startswith('bad'):
            method, a = maker.bad(op, ref)
            log.append([op, method, repr(a)])
            for e, mp in zip(engines, (0, 1)):
                try:
                    cctrace.quiet(getattr(e, method), multiprocess=mp, **copyargs(method, a))
                except Exception as ex:      # pylint: disable=broad-except
                    if not harness.from_repo(ex):
                        raise
                else:
                    fail('accepted', '%s: %s%r is accepted' % (where, method, a))
            if method == 'simulate':
                for i, mid in enumerate(order):
                    alone[mid].rng.set_state(engines[0].states[i].rng.get_state())
        elif op == 'drop':
            log.append([op, h['nos']])
            for e in engines:
                e.drop_state(nos[0])
            del order[nos[0]]
        elif op == 'add':
            log.append([op, len(nos)])
            kw = {'count': len(nos)} if len(nos) > 1 or rng.rand() < .5 else {}
            if composite:
                for e, mp in zip(engines, (0, 1)):
                    try:
                        e.add_state(multiprocess=mp, **kw)
                    except ValueError:
                        pass
                    else:
                        fail('accepted', '%s: a model is added to composite models' % where)
                break
            for e, mp in zip(engines, (0, 1)):
                cctrace.quiet(e.add_state, multiprocess=mp, **kw)
            for mid in [x[0] for x in h['models']][-len(nos):]:
                order.append(mid)
            if engines[0].num_states() == len(order) == engines[1].num_states():
                for i in nos:
                    s = engines[0].states[i]
                    alone[order[i]] = clone(s)
                    if [d.cctype for d in sorted(s.dims(), key=lambda d: d.index)] != \
                            [d.cctype for d in sorted(ref.dims(), key=lambda d: d.index)]:
                        fail('dataset', '%s: the added model has other column types' % where)
        elif op == 'reload':
            log.append([op])
            # The loader draws new seeds, alone as in the ensemble.
            how = rng.randint(2)
            new = []
            for e, mp in zip(engines, (0, 1)):
                meta = e.to_metadata()
                if how and not composite:
                    meta = json.loads(json.dumps(meta, default=lambda x: x.item()))
                keep = pickle.dumps(meta)
                r2 = np.random.RandomState(seed + step)
                new.append(Engine.from_metadata(meta, rng=r2, multiprocess=mp))
                if pickle.dumps(meta) != keep:
                    fail('metadata', '%s: loading changes the metadata' % where)
            engines = new
            for i, mid in enumerate(order):
                meta = alone[mid].to_metadata()
                if how and not composite:
                    meta = json.loads(json.dumps(meta, default=lambda x: x.item()))
                alone[mid] = State.from_metadata(meta, rng=np.random.RandomState(1))
                if i < engines[0].num_states():
                    alone[mid].rng.set_state(engines[0].states[i].rng.get_state())
        assert [x[0] for x in h['models']] == order, (h, order)
        if not fails:
            agree(where)
    return {'fails': fails, 'log': log, 'steps': len(log)}


# ---- models that are told apart by what they draw

def certain(job):
    """Each model has the missing row in another cluster; a draw for that row
    names the model."""
    from cgpm.crosscat.engine import Engine
    rng = np.random.RandomState(job['seed'])
    k = job['k']
    fails = []
    X = [[i, float(10 * i), i % 2] for i in range(k)] + [[float('nan')] * 3]
    perm = [int(x) for x in rng.permutation(k)]
    states = []
    for i in range(k):
        e = Engine(np.array(X), num_states=1, rng=np.random.RandomState(int(rng.randint(2 ** 31))), multiprocess=0,
                   outputs=[3, 5, 9], cctypes=['categorical', 'normal', 'categorical'],
                   distargs=[{'k': k}, None, {'k': 2}],
                   Zv={3: 0, 5: 0, 9: 0 if i % 2 else 1},
                   Zrv={v: list(range(k)) + [perm[i]] for v in ((0,) if i % 2 else (0, 1))})
        s = e.states[0]
        s.views[0].dims[3].set_hypers({'alpha': 1e-13})
        s.views[0].dims[5].set_hypers({'m': 0., 'r': 1e-9, 's': 1e-8, 'nu': 40.})
        for v in s.views.values():
            v.crp.set_hypers({'alpha': 1e-13})
        states.append(s)
    eng = Engine(np.array(X), num_states=0, rng=np.random.RandomState(int(rng.randint(2 ** 31))), multiprocess=0)
    eng.states = states
    seen = []
    for t in range(job['rounds']):
        nos = [int(x) for x in rng.randint(0, k, int(rng.randint(0, k + 2)))]
        given = nos
        if t % 4 == 0:
            given, nos = None, list(range(k))
        mp = int(rng.randint(2)) if t % 3 == 0 else 0
        how = t % 4
        if how in (0, 1):
            N = [None, 1, 3][rng.randint(3)]
            got = cctrace.quiet(eng.simulate, k, [3], None, None, N, statenos=given, multiprocess=mp)
            want = [perm[i] for i in nos]
            got = [sorted({int(r[3]) for r in ([g] if N is None else g)}) for g in got]
            if got != [[w] for w in want]:
                fails.append(('draws', 'simulate with statenos %r (multiprocess %d) draws %r, the models give %r' % (
                    given, mp, got, want)))
        elif how == 2:
            got = cctrace.quiet(eng.simulate_bulk, [k, k], [[3], [3]], None, None, [2, 1],
                                statenos=given, multiprocess=mp)
            got = [sorted({int(r[3]) for q in g for r in q}) for g in got]
            if got != [[perm[i]] for i in nos]:
                fails.append(('draws', 'simulate_bulk with statenos %r draws %r' % (given, got)))
        else:
            got = cctrace.quiet(eng.mutual_information, [3], [9], N=8, statenos=given, multiprocess=mp)
            if [abs(x) > 1e-9 for x in got] != [bool(i % 2) for i in nos]:
                fails.append(('draws', 'mutual_information with statenos %r gives %r' % (given, got)))
        # conditions, counts and accuracies reach the models
        j = int(rng.randint(k))
        r1 = cctrace.quiet(eng.simulate, -1, [5], {3: j}, None, 2, statenos=given, multiprocess=mp)
        r2 = cctrace.quiet(eng.simulate_bulk, [-1, -1], [[5], [5]], [{3: j}, {3: perm[0]}], None, [2, 1],
                           statenos=given, multiprocess=mp)
        for got, want in ((r1, [10 * j] * 2), ([[x for q in g for x in q] for g in r2], [10 * j] * 2 + [10 * perm[0]])):
            if [[abs(x[5] - w) < 4 for x, w in zip(g, want)] for g in got] != [[True] * len(want)] * len(nos) or \
                    any(len(g) != len(want) for g in got):
                fails.append(('conditions', 'draws of 5 given 3 = %d (then %d) with statenos %r: %r' % (
                    j, perm[0], given, got)))
        if how == 3:
            for cons, zero in (({3: j}, True), ({}, False)):
                got = cctrace.quiet(eng.mutual_information, [5], [9], cons, N=12, statenos=given, multiprocess=mp)
                if any((abs(x) < 1e-3) != (zero or i % 2 == 0) for x, i in zip(got, nos)):
                    fails.append(('conditions', 'mutual information of 5 and 9 given %r with statenos %r: %r' % (
                        cons, given, got)))
        ra = cctrace.quiet(eng.simulate, -1, [5], None, None, 2, multiprocess=mp)
        seen += [float(r[5]) for g in ra for r in g]
    if len(set(seen)) != len(seen):
        fails.append(('copies', 'draws of a continuous column repeat across models or calls'))
    return fails


def run(c):
    py2load.install()
    import cgpm.crosscat.engine     # noqa: F401  pylint: disable=unused-import
    theorems(c)
    jobs = []
    for m0, depth, num in c.pick([(2, 6, 60), (3, 8, 60), (1, 5, 20)], [(2, 8, 400), (3, 12, 500), (1, 6, 100), (5, 8, 100)]):
        for h in histories(c, m0, depth, num, 100 * c.seed + m0):
            jobs.append({'hist': h, 'm0': m0, 'seed': (13000 + c.seed) * 1000 + len(jobs)})
    for j, o in zip(jobs, harness.pmap(perform, jobs)):
        c.traces()
        c.add('steps', o['steps'])
        for x in o['log']:
            c.add('method:' + (x[1] if isinstance(x[1], str) else x[0]) if len(x) > 1 else 'method:reload')
        for key, what in o['fails'][:1]:
            c.violation(key, what, {'history': j['hist'], 'requests': o['log'], 'seed': j['seed']})
    tags = [{'k': 2 + i % 4, 'seed': (13500 + c.seed) * 1000 + i, 'rounds': c.pick(16, 60)} for i in range(c.pick(8, 40))]
    for j, fs in zip(tags, harness.pmap(certain, tags)):
        c.add('tagged_rounds', j['rounds'])
        for key, what in fs[:1]:
            c.violation(key, what, j)
    c.cov['distinct_nontrivial'] = int(c.cov['steps'])
    c.cov['rule'] = 'one request of a history performed and compared per count'
    c.sample({'requests': jobs[3]['hist']})
    c.assumptions.append('a serial update refused by a later model only is not generated: requests are refused by all models')
    c.assumptions.append('transition_lovecat and transition_loom need absent packages (C19)')
