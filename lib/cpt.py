"""A discrete model given by its table, for networks of composed models."""


def make():
    from cgpm.cgpm import CGpm

    class Cpt(CGpm):
        """tab: {values of inputs: [(values of outputs, weight)]}"""

        def __init__(self, outputs, inputs, tab, rng=None):
            self.outputs, self.inputs, self.tab, self.rng = list(outputs), list(inputs), tab, rng

        def rows(self, given, inputs):
            rows = self.tab[tuple(int(inputs[i]) for i in self.inputs)]
            return [(dict(zip(self.outputs, v)), w) for v, w in rows
                    if all(dict(zip(self.outputs, v))[o] == x for o, x in given.items())]

        def mass(self, given, inputs):
            return float(sum(w for _v, w in self.rows(given, inputs)))

        def logpdf(self, rowid, targets, constraints=None, inputs=None):
            import math
            cons = dict(constraints or {})
            p = self.mass(dict(cons, **{}) if not targets else _join(cons, targets), inputs)
            q = self.mass(cons, inputs)
            return math.log(p / q) if p else -float('inf')

        def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
            if N is not None:
                return [self.simulate(rowid, targets, constraints, inputs) for _ in range(N)]
            rows = self.rows(dict(constraints or {}), inputs)
            tot = float(sum(w for _v, w in rows))
            if not tot:
                raise ValueError('impossible constraints')
            u = self.rng.rand() * tot
            for v, w in rows:
                u -= w
                if u < 0:
                    break
            return {t: v[t] for t in targets}
    return Cpt


def _join(a, b):
    d = dict(a)
    d.update(b)
    return d
