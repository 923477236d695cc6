"""A stand-in for the crosscat package: it records what it is asked and gives
the answer it was told to give."""

import copy
import sys
import types


class Failed(Exception):
    pass


class Backend(object):
    def __init__(self):
        self.calls = []
        self.seeds = []
        self.answer = None      # function of the call -> (X_L, X_D, diagnostics) or an exception

    def analyze(self, M_c, T, X_L, X_D, seed, kernel_list=(), n_steps=1, max_time=-1, c=(), r=(),
                do_diagnostics=False, diagnostics_every_N=1, **kw):
        call = {'M_c': copy.deepcopy(M_c), 'T': copy.deepcopy(T), 'X_L': copy.deepcopy(X_L), 'X_D': copy.deepcopy(X_D),
                'seed': seed, 'kernels': list(kernel_list), 'steps': n_steps, 'limit': max_time, 'cols': list(c),
                'rows': list(r), 'every': diagnostics_every_N if do_diagnostics else 0, 'raw': (T, X_L, X_D)}
        self.calls.append(call)
        a = self.answer(call)
        if isinstance(a, Exception):
            raise a
        return a if do_diagnostics else a[:2]


BACKEND = Backend()


class LocalEngine(object):
    def __init__(self, seed=None):
        BACKEND.seeds.append(seed)

    def analyze(self, *a, **k):
        return BACKEND.analyze(*a, **k)


def scc(pairs):
    """{column: the columns it is paired with}"""
    out = {}
    for a, b in pairs:
        out.setdefault(a, set()).add(b)
        out.setdefault(b, set()).add(a)
    return {a: tuple(sorted(b)) for a, b in out.items()}


def install():
    top = types.ModuleType('crosscat')
    le = types.ModuleType('crosscat.LocalEngine')
    ut = types.ModuleType('crosscat.utils')
    gu = types.ModuleType('crosscat.utils.general_utils')
    top.__path__, ut.__path__ = [], []
    le.LocalEngine = LocalEngine
    gu.get_scc_from_tuples = scc
    top.LocalEngine, top.utils, ut.general_utils = le, ut, gu
    for m in (top, le, ut, gu):
        sys.modules[m.__name__] = m
    return BACKEND
