"""C11 Saving and loading preserves the model."""
import io
import json
import os
import tempfile

import numpy as np

import cchist
import cctrace
import crosscheck as cc
import extern
import harness
import py2load


def models(c):
    """The models that are not crosscat, saved and loaded within histories."""
    import c20
    c20.play(c, c20.plan(c, 11000 + c.seed, extern.KINDS[:6] * 2 + extern.KINDS[6:11],
                         c.pick(70, 700), reload=True), 'load:')


def save_load(e, how, seed, multi):
    from cgpm.crosscat.engine import Engine
    rng = np.random.RandomState(seed)
    if how in ('metadata', 'json'):
        m = e.to_metadata()
        if how == 'json':
            m = json.loads(json.dumps(m, default=cctrace.jsonable))
        return Engine.from_metadata(m, rng=rng, multiprocess=multi)
    f = io.BytesIO()
    e.to_pickle(f)
    if how == 'pickle':
        f.seek(0)
        return Engine.from_pickle(f, rng=rng)
    with tempfile.TemporaryDirectory(prefix='saved_') as d:
        path = os.path.join(d, 'engine.pkl')
        with open(path, 'wb') as g:
            g.write(f.getvalue())
        return Engine.from_pickle(path, rng=rng)


def ensemble(spec):
    """Models of one ensemble, each with a history of its own after a common
    one, saved and loaded together; then the copy goes on alone."""
    from cgpm.crosscat.engine import Engine
    rng = np.random.RandomState(spec['seed'])
    types = spec.get('types', cchist.ALLT)
    cd = ci = None
    m = spec.get('m')
    if spec.get('constrained'):
        m = int(rng.randint(2, 6))
        cd, ci = cchist.constraints(rng, list(range(m)))
        if spec['constrained'] == 'ci':
            cd = []
    r = cchist.start(rng, types, m=m, n=spec.get('n'), cd=cd, ci=ci)
    d = cchist.Driver(r, rng, types)
    d.run(spec['length'], spec['weights'])
    out = {'stopped': d.stopped, 'notes': r.notes[-6:], 'counts': d.counts, 'spec': spec}
    if d.stopped or r.s is None:
        return [dict(out, trace=r.trace())]
    k = int(rng.randint(1, 4))

    def member(i):
        def make(_state):
            s = cctrace.reload_state(r.s, 'pickle', np.random.RandomState(spec['seed'] + i))
            ks = cchist.KERNELS if not s.Cd and not any(x.is_conditional() for x in s.dims()) else \
                [x for x in cchist.KERNELS if x != 'columns']
            s.transition(N=1 + i, kernels=list(ks), checkpoint=1 if i % 2 and not s.Ci else None, progress=False)
            return s
        return make
    e = Engine(r.s.data_array(), num_states=k, rng=np.random.RandomState(spec['seed']), multiprocess=0,
               cctypes=['normal'] * r.s.n_cols(), outputs=list(r.s.outputs))
    for i in range(k):
        cctrace.quiet(e.alter, [member(i)], [i], multiprocess=0)
    recs = []
    for i in range(k):
        q = cctrace.Recorder({})
        q.tok, q.defs, q.s = r.tok, r.defs, e.states[i]
        q.snap()
        recs.append(q)
    for step in range(3):
        how = ['metadata', 'json', 'pickle', 'file'][rng.randint(4)]
        old, ok = e, True
        try:
            e = save_load(old, how, spec['seed'] + step, int(step == 1 and rng.rand() < .3))
            ok = e.num_states() == k
        except Exception as x:      # pylint: disable=broad-except
            if not harness.from_repo(x):
                raise
            ok = False
            out['notes'].append(repr(x)[:300])
        if not ok:
            e = old
        for i, q in enumerate(recs):
            q.s = e.states[i]
            pre = len(q.states)
            q.steps.append({'o': {'op': 'reload', 'name': how}, 'ok': ok, 'pre': pre, 'post': q.same_snap()})
        if not ok:
            break
        # one of the two goes on; the other must not notice
        goes, stays = (e, old) if rng.rand() < .5 else (old, e)
        for i, s in enumerate(goes.states):
            ks = ['rows', 'alpha', 'view_alphas', 'column_params', 'column_hypers']
            cctrace.quiet(s.transition, N=2, kernels=ks, checkpoint=1 if not s.Ci else None, progress=False)
            if s.n_rows() > 1:
                s.unincorporate(s.n_rows() - 1)
            for g in s.hooked_cgpms.values():
                g.transition()
        for i, q in enumerate(recs):
            q.s = stays.states[i]
            q.idle()
        e = stays
    return [dict(out, trace=q.trace(), spec=dict(spec, state=i)) for i, q in enumerate(recs)]


def run(c):
    py2load.install()
    os.environ.pop('GPMCCDEBUG', None)
    import time
    time.sleep = lambda s: None
    cc.theorems(c, c.pick(['teeth'], ['teeth', 'teeth-views']))
    cc.histories(c, cc.profile(11, c.pick(200, 3000), c.pick(14, 25), {
        'reload': 8, 'transition': 2}, c.seed))
    cc.histories(c, cc.profile(1100, c.pick(40, 400), 8, {'reload': 0, 'transition': 2, 'compose': 2}, c.seed),
                 job=ensemble)
    models(c)
