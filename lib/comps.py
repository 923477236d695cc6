"""Component models as the specification names them: codes, values, hypers."""

import math

import numpy as np

NAN = -99999

COLLAPSED = ['bernoulli', 'categorical', 'crp', 'poisson', 'geometric',
             'exponential', 'normal', 'lognormal', 'vonmises']
COLUMN_TYPES = ['bernoulli', 'categorical', 'poisson', 'geometric',
                'exponential', 'normal', 'lognormal', 'vonmises']
UNCOLLAPSED = ['beta', 'normal_trunc']
DISCRETE = ['bernoulli', 'categorical', 'crp', 'poisson', 'geometric']

CLASSES = {
    'bernoulli': ('bernoulli', 'Bernoulli'),
    'categorical': ('categorical', 'Categorical'), 'crp': ('crp', 'Crp'),
    'poisson': ('poisson', 'Poisson'), 'geometric': ('geometric', 'Geometric'),
    'exponential': ('exponential', 'Exponential'),
    'normal': ('normal', 'Normal'), 'lognormal': ('lognormal', 'Lognormal'),
    'vonmises': ('vonmises', 'Vonmises'), 'beta': ('beta', 'Beta'),
    'normal_trunc': ('normal_trunc', 'NormalTrunc')}

HYPERS = {
    'bernoulli': ['alpha', 'beta'], 'categorical': ['alpha'], 'crp': ['alpha'],
    'poisson': ['a', 'b'], 'geometric': ['a', 'b'], 'exponential': ['a', 'b'],
    'normal': ['m', 'r', 's', 'nu'], 'lognormal': ['m', 'r', 's', 'nu'],
    'vonmises': ['a', 'b', 'k'], 'beta': [], 'normal_trunc': []}

DEFAULTS = {
    'bernoulli': {'alpha': 1., 'beta': 1.}, 'categorical': {'alpha': 1.},
    'crp': {'alpha': 1.}, 'poisson': {'a': 1., 'b': 1.},
    'geometric': {'a': 1., 'b': 1.}, 'exponential': {'a': 1., 'b': 1.},
    'normal': {'m': 0., 'r': 1., 's': 1., 'nu': 1.},
    'lognormal': {'m': 1., 'r': 1., 's': 1., 'nu': 1.},
    'vonmises': {'a': 1., 'b': math.pi, 'k': 1.5}, 'beta': {},
    'normal_trunc': {}}


def get_class(t):
    import importlib
    m, c = CLASSES[t]
    return getattr(importlib.import_module('cgpm.primitives.' + m), c)


def col(t, rng, cid=0):
    """A random column record (no cells)."""
    c = {'id': cid, 'type': t, 'k': 2, 'den': 1, 'lo': 0, 'hi': 1, 'x': []}
    if t == 'categorical':
        c['k'] = int(rng.randint(1, 6))
    if t in ('normal', 'exponential', 'lognormal'):
        c['den'] = int(rng.choice([1, 2, 4]))
    if t == 'beta':
        c['den'] = 8
    if t == 'normal_trunc':
        c['den'] = 2
        c['lo'] = int(rng.randint(-6, 2))
        c['hi'] = c['lo'] + int(rng.randint(4, 14))
    c['h'] = {h: ['s', cid, h] for h in HYPERS[t]}
    return c


def distargs(c):
    if c['type'] == 'categorical':
        return {'k': c['k']}
    if c['type'] == 'normal_trunc':
        return {'l': c['lo'] / c['den'], 'h': c['hi'] / c['den']}
    return {}


def code(c, rng):
    t = c['type']
    if t == 'bernoulli':
        return int(rng.randint(2))
    if t == 'categorical':
        return int(rng.randint(c['k']))
    if t == 'crp':
        return int(rng.randint(4))
    if t in ('poisson', 'geometric'):
        return int(rng.choice([0, 0, 1, 1, 2, 3, 5, 9]))
    if t == 'exponential':
        return int(rng.choice([0, 1, 1, 2, 3, 7, 12]))
    if t == 'normal':
        return int(rng.randint(-9, 10))
    if t == 'lognormal':
        return int(rng.randint(-3, 4))
    if t == 'vonmises':
        return int(rng.randint(0, 5))
    if t == 'beta':
        return int(rng.randint(1, 8))
    if t == 'normal_trunc':
        return int(rng.randint(c['lo'], c['hi'] + 1))
    raise ValueError(t)


def value(c, k):
    """The observation that code k stands for."""
    t = c['type']
    if k == NAN:
        return float('nan')
    if t in DISCRETE:
        return k
    if t == 'lognormal':
        return math.exp(k / c['den'])
    if t == 'vonmises':
        return k * math.pi / 2
    return k / c['den']


def encode(c, v):
    """Inverse of value; None if v is not the image of a code."""
    try:
        v = float(v)
    except (TypeError, ValueError):
        return None
    if math.isnan(v):
        return NAN
    t = c['type']
    if t in DISCRETE:
        k = v
    elif t == 'lognormal':
        if v <= 0:
            return None
        k = math.log(v) * c['den']
    elif t == 'vonmises':
        k = v / (math.pi / 2)
    else:
        k = v * c['den']
    r = int(round(k))
    return r if abs(k - r) < 1e-9 and abs(r) < 90000 else None


def hypers(t, rng):
    def pos():
        return float(np.exp(rng.uniform(-1.6, 1.8)))
    if t in ('beta', 'normal_trunc'):
        return {}
    if t in ('normal', 'lognormal'):
        return {'m': float(rng.normal()), 'r': pos(), 's': pos(), 'nu': pos()}
    if t == 'vonmises':
        return {'a': pos(), 'b': float(rng.uniform(0, 2 * math.pi)), 'k': pos()}
    if t == 'poisson':
        return {'a': float(rng.randint(1, 5)), 'b': pos()}
    return {h: pos() for h in HYPERS[t]}


def stats_of(c, xs):
    """The documented sufficient statistics of codes xs, by name."""
    t = c['type']
    vs = [value(c, x) for x in xs]
    n = len(xs)
    if t == 'bernoulli':
        return {'N': n, 'x_sum': sum(vs)}
    if t == 'categorical':
        return {'N': n, 'counts': [xs.count(j) for j in range(c['k'])]}
    if t == 'crp':
        return {'N': n, 'counts': sorted((k, xs.count(k)) for k in set(xs))}
    if t == 'poisson':
        return {'N': n, 'sum_x': sum(vs),
                'sum_log_fact_x': sum(math.lgamma(v + 1) for v in vs)}
    if t in ('geometric', 'exponential'):
        return {'N': n, 'sum_x': sum(vs)}
    if t in ('normal', 'normal_trunc'):
        return {'N': n, 'sum_x': sum(vs), 'sum_x_sq': sum(v * v for v in vs)}
    if t == 'lognormal':
        ls = [x / c['den'] for x in xs]
        return {'N': n, 'sum_log_x': sum(ls), 'sum_log_x_sq': sum(v * v for v in ls)}
    if t == 'vonmises':
        return {'N': n, 'sum_sin_x': sum(math.sin(v) for v in vs),
                'sum_cos_x': sum(math.cos(v) for v in vs)}
    if t == 'beta':
        return {'N': n, 'sum_log_x': sum(math.log(v) for v in vs),
                'sum_minus_log_x': sum(math.log(1 - v) for v in vs)}
    raise ValueError(t)


def int_stats(c, st):
    """Integer projection [n, s...] of a component's get_suffstats(), as the
    specification's Stats states it; None where it is not one."""
    t = c['type']
    d = c['den']

    def i(v):
        v = float(v)
        if math.isnan(v) or math.isinf(v):
            return None
        r = int(round(v))
        return r if abs(v - r) < 1e-6 else None
    try:
        n = i(st['N'])
        if t == 'bernoulli':
            return [n, [i(st['x_sum'])]]
        if t == 'categorical':
            return [n, [i(v) for v in st['counts']]]
        if t == 'crp':
            return [n, [i(v) for _k, v in sorted(st['counts'])]]
        if t in ('poisson', 'geometric'):
            return [n, [i(st['sum_x'])]]
        if t == 'exponential':
            return [n, [i(st['sum_x'] * d)]]
        if t in ('normal', 'normal_trunc'):
            return [n, [i(st['sum_x'] * d), i(st['sum_x_sq'] * d * d)]]
        if t == 'lognormal':
            return [n, [i(st['sum_log_x'] * d), i(st['sum_log_x_sq'] * d * d)]]
        if t == 'vonmises':
            return [n, [i(st['sum_cos_x']), i(st['sum_sin_x'])]]
        if t == 'beta':
            return [n, []]
    except (KeyError, TypeError):
        return None
    return None


def same_stats(a, b, tol=1e-7):
    if set(a) != set(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if k == 'counts':
            x = sorted(x) if x and isinstance(x[0], (tuple, list)) else list(x)
            y = sorted(y) if y and isinstance(y[0], (tuple, list)) else list(y)
        if not np.allclose(np.asarray(x, dtype=float), np.asarray(y, dtype=float),
                           rtol=tol, atol=tol):
            return False
    return True


def close(a, b, tol=1e-8):
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))
