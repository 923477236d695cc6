"""C16 Network queries weight and resample correctly.

Oracle: NetQuery.tla: the particles of a query with their probabilities and
weights, and the exact law of the answer of N of them; theorems (unbiased,
exact when every needed parent is given, ...) in MCNetQuery.tla.  The answers
of the real network, over discrete members with given tables, must have that
law; where it has one atom the answer must equal it."""

import math
import os

import numpy as np

import comps
import cpt
import expr
import gen
import harness
import py2load
import tlc
import vstats


def theorems(c):
    jobs = c.pick([('{2,3,4,5,7}', 'Two2', 'Four1')],
                  [('{1,2,3,4,5,7}', 'Two3', 'Four2'), ('{6,8}', 'Two2', 'Four2')])
    for sh, a, b in jobs:
        r = tlc.run('MCNetQuery', 'SPECIFICATION Spec\nINVARIANTS Unbiased Exact Proposal Probabilities '
                    'InputsAreGiven Orders\nCONSTANTS Shapes=%s\nCONSTANT Pairs2<-%s\nCONSTANT Pairs3<-%s\n'
                    'CHECK_DEADLOCK FALSE\n' % (sh, a, b), workers=8, timeout=850)
        if not r.ok:
            raise tlc.TLCError(r.out[-3000:])
        c.tlc(r)


def table(rng, outs, ins, ranges, zeros):
    """[[values of ins, [[values of outs, weight]]]]"""
    def combos(vs):
        out = [[]]
        for v in vs:
            out = [x + [k] for x in out for k in range(ranges[v])]
        return out
    tab = []
    for a in combos(ins):
        rows = [[o, int(rng.randint(0 if rng.rand() < zeros else 1, 6))] for o in combos(outs)]
        if not any(w for _o, w in rows):
            rows[rng.randint(len(rows))][1] = 1
        tab.append([a, rows])
    return tab


def nodes(rng, first, ranges, produced, n):
    """Random members reading what is there and some external variables."""
    net = []
    for j in range(n):
        outs = [100 + 10 * j + u for u in range(int(rng.choice([1, 1, 2])))]
        pool = list(produced) + [500, 501]
        ins = [int(x) for x in rng.choice(pool, int(rng.randint(0, min(2, len(pool)) + 1)), replace=False)]
        if j and rng.rand() < .5 and not any(i in produced for i in ins):
            ins = [int(produced[rng.randint(len(produced))])]
        for v in outs:
            ranges[v] = int(rng.choice([2, 2, 3]))
        net.append({'outs': outs, 'ins': ins, 'kind': 'cpt', 'v': 0,
                    'tab': table(rng, outs, ins, ranges, .15)})
        produced = list(produced) + outs
    return net


def ask(rng, c, net, ranges, avail, ext):
    """Targets, givens and inputs, mostly admissible."""
    p = [int(x) for x in rng.permutation(avail)]
    nt = int(rng.randint(1, min(3, len(p)) + 1))
    nk = int(rng.randint(0, len(p) - nt + 1))
    if rng.rand() < .25:
        nk = len(p) - nt
    nk = min(nk, 4)
    t = {v: int(rng.randint(ranges[v])) for v in p[:nt]}
    k = {v: int(rng.randint(ranges[v])) for v in p[nt:nt + nk]}
    i = {}
    for e in ext:
        z = rng.rand()
        if z < .72:
            i[e] = int(rng.randint(ranges[e]))
        elif z < .95:
            k[e] = int(rng.randint(ranges[e]))
    z = rng.rand()
    if not any(x['kind'] == 'view' for x in net):
        pass                # unknown variables are refused by the State, not by a bare network
    elif z < .06:
        t[997] = 1
    elif z < .12:
        k[998] = 1
    elif z < .18 and ext:
        e = ext[0]
        i.pop(e, None)
        k.pop(e, None)
        t[e] = 0
    return t, k, i


def plan(rng, c, i):
    """A network with several queries."""
    ranges = {500: 2, 501: 2}
    cfg, m, env, defs = None, {'n': 0, 'cols': [], 'views': []}, {}, {}
    views = []
    if i % 3 == 2:
        cfg = gen.config(rng, n=int(rng.randint(2, 6)), m=int(rng.randint(1, 4)), missing=.4,
                         types=['bernoulli', 'categorical'], max_views=2)
        for col in cfg['cols']:
            col['k'] = 2 if col['type'] == 'bernoulli' else min(col['k'], 3)
            col['x'] = [x if x == comps.NAN else x % col['k'] for x in col['x']]
            ranges[col['id']] = col['k']
        m, env = gen.model_of_config(cfg)
        views = [{'outs': V['cols'], 'ins': [], 'kind': 'view', 'v': V['id'], 'tab': []} for V in m['views']]
    produced = [v for x in views for v in x['outs']]
    net = nodes(rng, 0, ranges, produced, int(rng.randint(1, 5 if not views else 4)))
    echo = None
    if cfg is not None:         # a member that follows one column of the table closely
        cols = [x for x in cfg['cols'] if any(y != comps.NAN for y in x['x'])]
        if cols:
            col = cols[rng.randint(len(cols))]
            k, v = col['k'], 190
            ranges[v] = k
            echo = (col, v)
            net.append({'outs': [v], 'ins': [col['id']], 'kind': 'cpt', 'v': 0,
                        'tab': [[[a], [[[b], 9 if b == a else 1] for b in range(k)]] for a in range(k)]})
    full = views + net
    avail = [v for x in full for v in x['outs']]
    ext = sorted(set(v for x in full for v in x['ins']) - set(avail))
    order = [int(x) for x in rng.permutation(len(net))]
    asks = []
    for _ in range(6):
        t, k, inp = ask(rng, c, full, ranges, avail, ext)
        r = 0
        seen = {}
        if cfg is not None and rng.rand() < .4:
            r = int(rng.randint(cfg['n'])) + 1
            seen = {col['id']: col['x'][r - 1] for col in cfg['cols'] if col['x'][r - 1] != comps.NAN}
            t = {v: x for v, x in t.items() if v not in seen}
            k = {v: x for v, x in k.items() if v not in seen or rng.rand() < .5}
            k = {v: seen.get(v, x) for v, x in k.items()}
            if not t:
                r = 0
                t, k, inp = ask(rng, c, full, ranges, avail, ext)
        acc = int(rng.choice([1, 1, 2, 3]))
        for kind in ('net_logpdf', 'net_simulate'):
            given = dict(k)
            if r:
                given.update({v: x for v, x in seen.items() if v not in t})
            asks.append({'k': kind, 'r': r, 't': t, 'c': k, 'given': given, 'in': inp, 'n': acc})
    if echo is not None:        # its prediction for rows that hold the column
        col, v = echo
        held = [r for r in range(cfg['n']) if col['x'][r] != comps.NAN]
        for r in rng.permutation(held)[:3]:
            given = {x['id']: x['x'][r] for x in cfg['cols'] if x['x'][r] != comps.NAN}
            for kind, t in (('net_logpdf', {v: int(rng.randint(col['k']))}), ('net_simulate', {v: 0})):
                asks.append({'k': kind, 'r': int(r) + 1, 't': t, 'c': {}, 'given': given, 'in': {}, 'n': 1})
    return {'cfg': cfg, 'm': m, 'env': env, 'net': net, 'full': full, 'order': order, 'asks': asks,
            'seed': int(rng.randint(2 ** 31)), 'reps': c.pick(300, 2500)}


def tla(job, a, n=None):
    q = {'k': a['k'], 'net': job['full'], 'm': job['m'], 'r': a['r'], 'c': gen.pairs(a['given']),
         'in': gen.pairs(a['in']), 'n': n or a['n'],
         't': gen.pairs(a['t']) if a['k'] == 'net_logpdf' else sorted(a['t'])}
    return q


def network(job, rng):
    from cgpm.network.importance import ImportanceNetwork
    Cpt = cpt.make()
    members = []
    for i in job['order']:
        n = job['net'][i]
        tab = {tuple(a): [(tuple(o), w) for o, w in rows] for a, rows in n['tab']}
        members.append(Cpt(n['outs'], n['ins'], tab, rng))
    if job['cfg'] is None:
        return lambda acc: ImportanceNetwork(members, acc, rng=rng)
    state = gen.build(job['cfg'], rng=rng)
    for x in members:
        state.compose_cgpm(x)

    class Bound(object):
        def __init__(self, acc):
            self.acc = acc

        def logpdf(self, *a):
            return state.logpdf(*a, accuracy=self.acc)

        def simulate(self, *a):
            return state.simulate(*a, accuracy=self.acc)
    return Bound


def perform(job):
    """Answers of the real network to every ask: {outcome: count}."""
    rng = np.random.RandomState(job['seed'])
    net = network(job, rng)
    out = []
    for a in job['asks']:
        res = {}
        q = net(a['n'])
        row = a['r'] - 1 if a['r'] else [-1, 10 ** 5][rng.randint(2)]
        n = (max(job['reps'], 1500) if a.get('single') else job['reps']) if a['many'] else 2
        left = n
        while left > 0:
            t, k, i = dict(a['t']), dict(a['c']), dict(a['in'])
            try:
                if a['k'] == 'net_logpdf':
                    rs = [('v', float(q.logpdf(row, t, k, i)))]
                else:
                    N = None if a.get('single') or rng.rand() < .5 else int(rng.randint(1, 6))
                    ts = [sorted(a['t'])[u] for u in rng.permutation(len(a['t']))]
                    ts = [int(x) for x in ts]
                    r = q.simulate(row, ts, k, i, N)
                    rs = [r] if N is None else r
                    if N is not None and len(rs) != N:
                        rs = [('count', N, len(rs))]
                    else:
                        if any(sorted(x) != sorted(ts) for x in rs):
                            rs = [('columns', repr(rs[0]))]
                        else:
                            rs = [('r',) + tuple((v, int(x[v])) for v in sorted(x)) for x in rs]
            except Exception as e:      # pylint: disable=broad-except
                if not harness.from_repo(e) and not isinstance(e, (KeyError,)):
                    raise
                rs = [('refused', type(e).__name__)]
            if (t, k, i) != (a['t'], a['c'], a['in']):
                rs = [('arguments changed',)]
            for x in rs:
                key = x if x[0] != 'v' else ('v', float('%.9g' % x[1]) if abs(x[1]) > 1e-9 else 0.)
                res[key] = res.get(key, 0) + 1
            left -= len(rs)
        out.append(sorted(res.items(), key=repr))
    return out


def particles(ps, env):
    return [(expr.num(expr.ev(p, env)), expr.num(expr.ev(w, env))) for p, w in ps]


def law(job, a, ans):
    """{outcome: probability} as specified."""
    env = dict(job['env'])
    if a['k'] == 'net_logpdf':
        sides = {'j': particles(ans['j'], env), 'm': particles(ans['m'], env)}
    else:
        sides = {'s': particles(ans['s'], env)}
    for s, ps in sides.items():
        for i, (p, w) in enumerate(ps):
            env[('p', s, i + 1)], env[('w', s, i + 1)] = p, w
    out = {}
    if a['k'] == 'net_logpdf':
        for p, v in ans['law']:
            key = ('refused',) if v == [] else ('v', expr.logev(v, env))
            if key[0] == 'v':
                key = ('v', float('%.9g' % key[1]) if abs(key[1]) > 1e-9 else 0.)
            out[key] = out.get(key, 0.) + expr.num(expr.ev(p, env))
    else:
        for row, p in ans['law']['rows']:
            out[('r',) + tuple((v, x) for v, x in row)] = expr.num(expr.ev(p, env))
        out[('refused',)] = expr.num(expr.ev(ans['law']['refused'], env))
    return {k: p for k, p in out.items() if p > 0}


def merge(got, want):
    """Observed values stand for the nearest specified one."""
    vs = [k[1] for k in want if k[0] == 'v']
    out = {}
    for k, n in got:
        if k[0] == 'v':
            near = [v for v in vs if v == k[1] or abs(v - k[1]) < 1e-6 * max(1., abs(v))]
            k = ('v', near[0]) if near else k
        elif k[0] == 'refused':
            k = ('refused',)
        out[k] = out.get(k, 0) + n
    return out


def run(c):
    py2load.install()
    os.environ.pop('GPMCCDEBUG', None)
    theorems(c)
    rng = np.random.RandomState(16000 + c.seed)
    jobs = [plan(rng, c, i) for i in range(c.pick(66, 500))]
    # sizes first: the number of particles bounds the accuracy looked at
    qs = [(j, a) for j in jobs for a in j['asks']]
    size, rs = tlc.batch('Oracle', [dict(tla(j, a), k=a['k'] + '_size') for j, a in qs], jobs=8)
    c.tlc(rs)
    lim = c.pick(1200, 4000)
    for (j, a), s in zip(qs, size):
        a['ok'] = s['ok']
        if s['ok'] != 1:
            a['many'] = False
            continue
        per = s['a'] * max(1, s['b'])
        while a['n'] > 1 and per ** a['n'] > lim:
            a['n'] -= 1
        if per ** a['n'] > 3 * lim:
            a['ok'] = 2
        a['many'] = per > 1
    todo = [(j, a) for j, a in qs if a['ok'] == 1]
    ans, rs = tlc.batch('Oracle', [tla(j, a) for j, a in todo], jobs=8)
    c.tlc(rs)
    for (j, a), x in zip(todo, ans):
        a['ans'] = x
    for j in jobs:
        j['asks'] = [a for a in j['asks'] if a['ok'] != 2]
    # one draw per request: each request chooses among its own particles
    some = [a for j in jobs if j['cfg'] is not None for a in j['asks']
            if a['ok'] == 1 and a['many'] and a['k'] == 'net_simulate' and a['n'] > 1 and not a['r']]
    for a in some[:c.pick(30, len(some))]:
        a['single'] = True
    results = harness.pmap(perform, jobs)
    for j, res in zip(jobs, results):
        c.traces()
        for a, got in zip(j['asks'], res):
            what = '%s of %r given %r, inputs %r, row %d, accuracy %d' % (
                a['k'][4:], a['t'], a['c'], a['in'], a['r'] - 1, a['n'])
            rep = {'job': {k: j[k] for k in ('cfg', 'net', 'seed')}, 'ask': {
                k: a[k] for k in a if k != 'ans'}, 'got': got}
            c.add('queries')
            if a['ok'] == 0:
                if any(k[0] != 'refused' for k, _n in got):
                    c.violation('accepted', '%s: accepted, %r' % (what, got[0][0]), rep)
                c.add('refused')
                continue
            want = law(j, a, a['ans'])
            tot = merge(got, want)
            odd = [k for k in tot if k not in want]
            key = ('simulate' if a['k'] == 'net_simulate' else 'logpdf') + \
                ('-observed' if a['r'] else '')
            if odd:
                c.violation(key, '%s: answered %r, specified %r' % (what, odd[0], sorted(want.items())[:6]), rep)
                continue
            c.add('single' if len(want) == 1 else 'laws')
            if len(want) > 1:
                c.add('draws', sum(tot.values()))
                p = vstats.gtest(tot, want)
                if p < vstats.ALPHA:
                    c.violation(key + '-law', '%s: answers %r, specified law %r (p=%.2g)' % (
                        what, sorted(tot.items())[:8], sorted(want.items())[:8], p), rep)
    c.cov['distinct_nontrivial'] = int(c.cov['queries'])
    c.cov['rule'] = 'one query of one network per count; single: one possible answer'
    c.sample({'net': jobs[0]['net'], 'asks': [{k: a[k] for k in ('k', 't', 'c', 'in', 'n')} for a in jobs[0]['asks']]})
