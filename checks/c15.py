"""C15 Composed models form a valid directed network.

Oracle: Network.tla (Valid, Ordered, Ancestors, Descendants, Component,
Needed ...; theorems in MCNetwork.tla) for the network helpers and for the
composed network itself, and the compose/decompose requests of CrossCat.tla
for histories of a real State."""

import itertools

import numpy as np

import crosscheck as cc
import c17
import harness
import py2load
import tlc


def fake():
    from cgpm.cgpm import CGpm

    class Node(CGpm):
        """Tells what it is asked; its values name it."""
        def __init__(self, outputs, inputs, ident=0, log=None):
            self.outputs, self.inputs = outputs, inputs
            self.ident, self.log = ident, log

        def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
            self.log.append(('simulate', self.ident, list(targets), dict(constraints or {}), dict(inputs or {})))
            row = {t: value(t) for t in targets}
            return row if N is None else [dict(row) for _ in range(N)]

        def logpdf(self, rowid, targets, constraints=None, inputs=None):
            self.log.append(('logpdf', self.ident, sorted(targets), dict(constraints or {}), dict(inputs or {})))
            return -1.
    return Node


def value(v):
    return 1000. + v


def graphs(rng, c):
    """Networks: every one of two nodes on three variables, and random ones."""
    vs = [0, 1, 2]
    subs = [list(s) for q in range(4) for s in itertools.combinations(vs, q)]
    out = [[[a, b], [d, e]] for a in subs for b in subs for d in subs for e in subs]
    if not c.thorough:
        idx = rng.choice(len(out), 600, replace=False)
        out = [out[i] for i in sorted(idx)]
    for i in range(c.pick(900, 8000)):
        n = int(rng.randint(1, 7))
        names = [int(x) for x in rng.choice(60, 14, replace=False)]
        g, free = [], list(names[:9])
        # a hidden order makes an acyclic network; some edges against it
        for _j in range(n):
            if not free:
                break
            q = int(rng.randint(1, min(2, len(free)) + 1))
            g.append([[free.pop() for _ in range(q)], []])
        z = rng.rand()
        for j in range(len(g)):
            pool = [v for a in g[:j] for v in a[0]] + names[9:11]
            if z < .35:
                pool = [v for k, a in enumerate(g) if k != j for v in a[0]] + names[9:11]
            elif z < .4:
                pool = [v for a in g for v in a[0]]
            k = int(rng.randint(0, min(3, len(pool)) + 1))
            g[j][1] = [int(x) for x in rng.choice(pool, k, replace=False)]
        if .4 < z < .5 and len(g) > 1:
            g[0][0] = g[0][0] + [g[-1][0][0]]
        elif .5 < z < .53:
            g[0][0] = []
        out.append([g[int(k)] for k in rng.permutation(len(g))])
    return out


def plan(rng, g):
    vs = sorted({v for a in g for s in a for v in s})
    prod = sorted({v for a in g for v in a[0]})
    asks = []
    for _ in range(3):
        p = [int(x) for x in rng.permutation(prod)]
        if not p:
            break
        t = int(rng.randint(0, min(3, len(p)) + 1))
        k = int(rng.randint(0, len(p) - t + 1)) if rng.rand() < .8 else 0
        asks.append([p[:t], p[t:t + k]])
    return {'g': g, 'vars': vs, 'asks': asks}


def outcome(fn, *a):
    """('ok', value) or ('refused', kind)"""
    try:
        return ['ok', fn(*a)]
    except Exception as e:      # pylint: disable=broad-except
        if not harness.from_repo(e):
            raise
        return ['refused', type(e).__name__]


def look(jobs):
    from cgpm.network import helpers as hu
    from cgpm.network.importance import ImportanceNetwork
    Node = fake()
    res = []
    for job in jobs:
        g = job['g']
        log = []
        nodes = [Node(list(o), list(i), k, log) for k, (o, i) in enumerate(g)]
        before = [(list(x.outputs), list(x.inputs)) for x in nodes]
        r = {}
        r['valid'] = outcome(hu.validate_cgpms, nodes)[0]
        net = outcome(ImportanceNetwork, nodes, 1, np.random.RandomState(1))
        r['net'] = net[0] if net[0] == 'ok' else net[1]
        if r['valid'] == 'ok':
            v2c = hu.retrieve_variable_to_cgpm(nodes)
            r['producer'] = sorted([int(v), int(k)] for v, k in v2c.items())
            adj = hu.retrieve_adjacency_list(nodes, v2c)
            r['adj'] = [sorted(int(x) for x in adj[k]) for k in range(len(g))]
            r['dup'] = any(len(set(adj[k])) != len(adj[k]) for k in adj)
            M = np.asarray(hu.retrieve_adjacency_matrix(nodes, v2c))
            r['matrix'] = M.tolist()
            r['external'] = [int(x) for x in hu.retrieve_extraneous_inputs(nodes, v2c)]
            r['labels'] = [int(x) for x in hu.retrieve_weakly_connected_components(nodes)]
            topo = outcome(hu.topological_sort, adj)
            r['topo'] = [int(x) for x in topo[1]] if topo[0] == 'ok' else topo[1]
            topo2 = outcome(hu.topological_sort, list(adj.items()))
            r['topo2'] = [int(x) for x in topo2[1]] if topo2[0] == 'ok' else topo2[1]
        if net[0] == 'ok':
            net = net[1]
            r['anc'], r['desc'] = [], []
            for v in job['vars']:
                for key, fn in (('anc', hu.retrieve_ancestors), ('desc', hu.retrieve_descendents)):
                    x = outcome(fn, nodes, v)
                    r[key].append(sorted(set(int(u) for u in x[1])) if x[0] == 'ok' else x[1])
            r['far'] = [outcome(fn, nodes, 997)[1] for fn in (hu.retrieve_ancestors, hu.retrieve_descendents)]
            ext = r['external']
            r['needed'] = []
            r['asked'] = []
            for T, K in job['asks']:
                need = hu.retrieve_required_inputs(nodes, r['topo'], list(T), list(K), list(ext))
                need2 = net.retrieve_required_inputs(list(T), {k: 1. for k in K})
                r['needed'].append([sorted(int(x) for x in need), sorted(int(x) for x in need2)])
                # the network itself: what it asks of its members, in order
                del log[:]
                row = net.simulate(-1, list(T), {k: value(k) for k in K}, {e: value(e) for e in ext}) if T else {}
                r['asked'].append([sorted(row.items()), list(log)])
                del log[:]
                lp = net.logpdf(-1, {t: value(t) for t in T}, {k: value(k) for k in K},
                                {e: value(e) for e in ext}) if T else 0.
                r['asked'][-1] += [float(lp), list(log)]
        r['kept'] = before == [(list(x.outputs), list(x.inputs)) for x in nodes]
        res.append(r)
    return res


def judge(c, job, r, a):
    g = job['g']
    n = len(g)
    bad = lambda key, what: c.violation(key, '%s for the network %r' % (what, g), job)
    c.add('networks')
    if not r['kept']:
        bad('network-changed', 'the members were changed')
    if (r['valid'] == 'ok') != bool(a['single']):
        bad('producers', 'outputs were %s' % ('accepted' if r['valid'] == 'ok' else 'refused'))
        return
    if (r['net'] == 'ok') != bool(a['valid']):
        bad('validity', 'the network was %s' % ('accepted' if r['net'] == 'ok' else 'refused'))
        return
    if r['valid'] != 'ok':
        return
    if r['producer'] != sorted([v, p - 1] for v, p in zip(a['produced'], a['producer'])):
        bad('producer', 'producers %r' % (r['producer'],))
    want = [[p - 1 for p in x] for x in a['parents']]
    if r['adj'] != want or r['dup']:
        bad('adjacency', 'parents %r, specified %r' % (r['adj'], want))
    M = [[float(i in want[j]) for j in range(n)] for i in range(n)]
    if r['matrix'] != M:
        bad('adjacency', 'matrix %r, specified %r' % (r['matrix'], M))
    if sorted(set(r['external'])) != a['external']:
        bad('external', 'external inputs %r, specified %r' % (r['external'], a['external']))
    for i in range(n):
        got = sorted(j + 1 for j in range(n) if r['labels'][j] == r['labels'][i])
        if got != a['component'][i]:
            bad('components', 'component of %d is %r' % (i, got))
            break
    for key in ('topo', 'topo2'):
        t = r[key]
        if not isinstance(t, list):
            if a['valid'] or t != 'ValueError':
                bad('order', 'sorting raised %s' % t)
        elif not a['valid']:
            bad('order', 'a cyclic network was sorted')
    if r['net'] != 'ok':
        return
    for k, o in enumerate(a['ordered']):
        if not o:
            bad('order', 'order of evaluation %r' % (job['orders'][k],))
            break
    for i, v in enumerate(job['vars']):
        for key in ('anc', 'desc'):
            got = r[key][i]
            if v not in a['produced']:
                if got != 'ValueError':
                    bad('not-a-node', '%s of the external variable %d: %r' % (key, v, got))
            elif got != a[key][i]:
                bad('ancestors' if key == 'anc' else 'descendants', '%s of %d are %r, specified %r' % (
                    key, v, got, a[key][i]))
    if r['far'] != ['ValueError', 'ValueError']:
        bad('not-a-node', 'unknown variable: %r' % (r['far'],))
    ins = {k: set(i) for k, (_o, i) in enumerate(g)}
    for i, (T, K) in enumerate(job['asks']):
        if not all(x == a['needed'][i] for x in r['needed'][i]):
            bad('needed', 'needed for %r given %r: %r, specified %r' % (T, K, r['needed'][i], a['needed'][i]))
        row, log1, lp, log2 = r['asked'][i]
        if [x[0] for x in row] != sorted(T) or any(x != value(v) for v, x in row):
            bad('answer', 'simulating %r given %r gave %r' % (T, K, row))
        W = set(T) | set(K) | set(a['needed'][i])
        active = sorted(k for k, (o, _i) in enumerate(g) if W & set(o))
        for what, log in (('simulate', log1), ('logpdf', log2)):
            if not T:
                continue
            c.add('evaluations', len(log))
            for call in log:
                _kind, k, tg, cons, inp = call
                if inp != {v: value(v) for v in ins[k]}:
                    bad('inputs', '%s of %r given %r: member %d was given the inputs %r' % (
                        what, T, K, k, inp))
                    return
            if not set(active) <= set(x[1] for x in log):
                bad('inactive', '%s of %r given %r asked only %r of %r' % (
                    what, T, K, sorted(set(x[1] for x in log)), active))


def networks(c, rng):
    jobs = [plan(rng, g) for g in graphs(rng, c)]
    parts = [jobs[i::16] for i in range(16)]
    out = {}
    for part, rs in zip(parts, harness.pmap(look, parts)):
        for j, r in zip(part, rs):
            out[id(j)] = r
    for j in jobs:
        r = out[id(j)]
        orders = []
        for key in ('topo', 'topo2'):
            if isinstance(r.get(key), list):
                orders.append([x + 1 for x in r[key]])
        # the order in which the members were asked, made total
        for q in r.get('asked', []):
            for log in (q[1], q[3]):
                seen = []
                for x in log:
                    if x[1] + 1 not in seen:
                        seen.append(x[1] + 1)
                if len(seen) == len(j['g']):
                    orders.append(seen)
        j['orders'] = orders
    ans, rs = tlc.batch('Oracle', [{'k': 'network', 'g': j['g'], 'orders': j['orders'],
                                    'vars': j['vars'], 'asks': j['asks']} for j in jobs], jobs=8)
    c.tlc(rs)
    for j, a in zip(jobs, ans):
        c.traces()
        judge(c, j, out[id(j)], a)
    c.sample({'network': jobs[-1]['g'], 'asks': jobs[-1]['asks']})


def run(c):
    py2load.install()
    c17.network_theorems(c)
    rng = np.random.RandomState(15000 + c.seed)
    networks(c, rng)
    w = {'transition': .5, 'direct': .5, 'compose': 8, 'decompose': 4, 'invalid': .5, 'reload': 1.5}
    cc.histories(c, cc.profile(15, c.pick(160, 2500), c.pick(18, 30), w, c.seed))
    c.cov['distinct_nontrivial'] = int(c.cov['networks'] + c.cov['distinct_nontrivial'])
    c.cov['rule'] = 'networks and judged requests'
