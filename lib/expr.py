"""Evaluate the expression trees that the TLA+ oracle emits.

The specification says *what* the value is, as a tree of
  ["q",n,d]  ["s",...]  ["+",..] ["*",..] ["/",a,b] ["-",a,b] ["^",a,b]
  ["G",e] (Gamma)  ["exp",e] ["cos",e] ["sin",e] ["pi"] ["I0",e2] (Bessel I0 of
  sqrt(e2)) ["Phi",e] (standard normal cdf) ["B",a,b] (Euler beta function)
and this module computes that value, in the log domain where needed.
"""

import math

from scipy import special


class L(object):
    """sign * exp(log)"""
    __slots__ = ('s', 'l')

    def __init__(self, s, l):
        self.s = s
        self.l = l

    def __repr__(self):
        return 'L(%d,%r)' % (self.s, self.l)


def toL(v):
    if isinstance(v, L):
        return v
    if v == 0:
        return L(0, -math.inf)
    return L(1 if v > 0 else -1, math.log(abs(v)))


def num(v):
    """plain float (may overflow)"""
    if isinstance(v, L):
        if v.s == 0:
            return 0.
        return v.s * math.exp(v.l)
    return float(v)


def log(v):
    """log of a non-negative value"""
    v = toL(v)
    if v.s == 0:
        return -math.inf
    if v.s < 0:
        raise ValueError('log of a negative value')
    return v.l


def _add(a, b):
    if not isinstance(a, L) and not isinstance(b, L):
        return a + b
    a, b = toL(a), toL(b)
    if a.s == 0:
        return b
    if b.s == 0:
        return a
    if a.l < b.l:
        a, b = b, a
    d = math.exp(b.l - a.l)
    if a.s == b.s:
        return L(a.s, a.l + math.log1p(d))
    if d == 1.:
        return L(0, -math.inf)
    return L(a.s, a.l + math.log1p(-d))


def _mul(a, b):
    if not isinstance(a, L) and not isinstance(b, L):
        return a * b
    a, b = toL(a), toL(b)
    if a.s == 0 or b.s == 0:
        return L(0, -math.inf)
    return L(a.s * b.s, a.l + b.l)


def _inv(b):
    b = toL(b)
    return L(b.s, -b.l)


def ev(e, env):
    op = e[0]
    if op == 'q':
        return e[1] / e[2]
    if op == 's':
        v = env(e[1:]) if callable(env) else env[tuple(e[1:])]
        return v if isinstance(v, L) else float(v)
    if op == '+':
        r = 0.
        for x in e[1:]:
            r = _add(r, ev(x, env))
        return r
    if op == '*':
        r = 1.
        for x in e[1:]:
            r = _mul(r, ev(x, env))
        return r
    if op == '-':
        b = ev(e[2], env)
        b = L(-b.s, b.l) if isinstance(b, L) else -b
        return _add(ev(e[1], env), b)
    if op == '/':
        a, b = ev(e[1], env), ev(e[2], env)
        if not isinstance(a, L) and not isinstance(b, L):
            return a / b
        return _mul(a, _inv(b))
    if op == '^':
        a, p = toL(ev(e[1], env)), num(ev(e[2], env))
        if p == 0:
            return L(1, 0.)
        if a.s == 0:
            return L(0, -math.inf)
        if a.s < 0:
            if p != int(p):
                raise ValueError('root of a negative value')
            return L(-1 if int(p) % 2 else 1, p * a.l)
        return L(1, p * a.l)
    if op == 'G':
        return L(1, math.lgamma(num(ev(e[1], env))))
    if op == 'B':
        a, b = num(ev(e[1], env)), num(ev(e[2], env))
        return L(1, math.lgamma(a) + math.lgamma(b) - math.lgamma(a + b))
    if op == 'exp':
        return L(1, num(ev(e[1], env)))
    if op == 'cos':
        return math.cos(num(ev(e[1], env)))
    if op == 'sin':
        return math.sin(num(ev(e[1], env)))
    if op == 'pi':
        return math.pi
    if op == 'I0':
        x = math.sqrt(max(num(ev(e[1], env)), 0.))
        return L(1, math.log(special.ive(0, x)) + x)
    if op == 'Phi':
        return float(special.ndtr(num(ev(e[1], env))))
    raise ValueError('unknown operator %r' % (op,))


def logev(e, env):
    return log(ev(e, env))


def numev(e, env):
    return num(ev(e, env))


def evn(e, env):
    """(sign, log of the absolute value) as arrays: symbols may be arrays."""
    import numpy as np

    def of(v):
        v = np.asarray(v, dtype=float)
        with np.errstate(divide='ignore'):
            return np.sign(v), np.log(np.abs(v))

    def add(a, b):
        (sa, la), (sb, lb) = a, b
        m = np.maximum(la, lb)
        m = np.where(np.isinf(m), 0., m)
        s, l = of(sa * np.exp(la - m) + sb * np.exp(lb - m))
        return s, l + m
    op = e[0]
    if op == 'q':
        return of(e[1] / e[2])
    if op == 's':
        v = env[tuple(e[1:])]
        return (np.asarray(v.s, dtype=float), np.asarray(v.l)) if isinstance(v, L) else of(v)
    if op in ('+', '*'):
        r = of(0. if op == '+' else 1.)
        for x in e[1:]:
            y = evn(x, env)
            r = add(r, y) if op == '+' else (r[0] * y[0], r[1] + y[1])
        return r
    if op == '-':
        s, l = evn(e[2], env)
        return add(evn(e[1], env), (-s, l))
    if op == '/':
        (sa, la), (sb, lb) = evn(e[1], env), evn(e[2], env)
        with np.errstate(invalid='ignore'):
            return sa * sb, np.where(sa == 0, -np.inf, la - lb)
    if op == '^':
        s, l = evn(e[1], env)
        ps, pl = evn(e[2], env)
        p = ps * np.exp(pl)
        if np.any(s < 0):
            if np.ndim(p) or p != round(float(p)):
                raise ValueError('root of a negative value')
            s = np.where(s < 0, -1. if int(p) % 2 else 1., s)
        with np.errstate(invalid='ignore'):
            return np.where(p == 0, 1., s), np.where(p == 0, 0., l * p)
    if op == 'G':
        s, l = evn(e[1], env)
        return np.asarray(1.), special.gammaln(s * np.exp(l))
    if op == 'B':
        (s, l), (t, m) = evn(e[1], env), evn(e[2], env)
        return np.asarray(1.), special.betaln(s * np.exp(l), t * np.exp(m))
    if op == 'pi':
        return of(math.pi)
    raise ValueError('unknown operator %r' % (op,))
