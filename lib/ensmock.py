"""A model with a mark of its own, for composition with crosscat models."""


def make():
    from cgpm.cgpm import CGpm

    class Marked(CGpm):
        """logpdf tells the mark; transition counts."""

        def __init__(self, outputs, inputs, mark, count=0, rng=None):
            self.outputs, self.inputs = list(outputs), list(inputs)
            self.mark, self.count, self.rng = mark, count, rng

        def incorporate(self, rowid, observation, inputs=None):
            pass

        def unincorporate(self, rowid):
            pass

        def logpdf(self, rowid, targets, constraints=None, inputs=None):
            return -float(self.mark)

        def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
            row = {t: float(self.mark) for t in targets}
            return row if N is None else [dict(row) for _ in range(N)]

        def logpdf_score(self):
            return 0.

        def transition(self, **kwargs):
            self.count += 1

        def to_metadata(self):
            return {'outputs': list(self.outputs), 'inputs': list(self.inputs), 'mark': self.mark,
                    'count': self.count, 'factory': ('ensmock', 'Marked')}

        @classmethod
        def from_metadata(cls, metadata, rng=None):
            return cls(metadata['outputs'], metadata['inputs'], metadata['mark'], metadata['count'], rng)
    Marked.__module__ = 'ensmock'
    Marked.__qualname__ = 'Marked'
    return Marked


def make_keyed():
    import math
    from cgpm.cgpm import CGpm

    class Keyed(CGpm):
        """One output in 0..2 whose law turns with an external input; the
        density may carry a common factor exp(shift)."""

        def __init__(self, outputs, inputs, mark, shift=0., rng=None):
            self.outputs, self.inputs = list(outputs), list(inputs)
            self.mark, self.shift, self.rng = mark, shift, rng

        def incorporate(self, rowid, observation, inputs=None):
            pass

        def unincorporate(self, rowid):
            pass

        def weights(self, inputs):
            y = inputs[self.inputs[0]]
            return [((x + self.mark * y) % 3) / 3. for x in range(3)]

        def logpdf(self, rowid, targets, constraints=None, inputs=None):
            (x,) = targets.values()
            p = self.weights(inputs)[int(x)]
            return math.log(p) + self.shift if p > 0 else -float('inf')

        def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
            w = self.weights(inputs)
            one = lambda: {self.outputs[0]: float(self.rng.choice(3, p=w))}
            return one() if N is None else [one() for _ in range(N)]

        def logpdf_score(self):
            return 0.

        def transition(self, **kwargs):
            pass

        def to_metadata(self):
            return {'outputs': list(self.outputs), 'inputs': list(self.inputs), 'mark': self.mark,
                    'shift': self.shift, 'factory': ('ensmock', 'Keyed')}

        @classmethod
        def from_metadata(cls, metadata, rng=None):
            return cls(metadata['outputs'], metadata['inputs'], metadata['mark'], metadata['shift'], rng)
    Keyed.__module__ = 'ensmock'
    Keyed.__qualname__ = 'Keyed'
    return Keyed


RUNS = []


class Clock(object):
    """Time passes only while a ticking model is transitioning."""
    def __init__(self):
        self.now = 1000.

    def __call__(self):
        return self.now


CLOCK = Clock()


def make_ticking():
    class Ticking(make()):
        """Every transition takes a second and is recorded."""

        def transition(self, **kwargs):
            CLOCK.now += 1.
            RUNS.append(self.outputs[0])

        def to_metadata(self):
            return {'outputs': list(self.outputs), 'inputs': list(self.inputs), 'mark': self.mark,
                    'count': self.count, 'factory': ('ensmock', 'Ticking')}
    Ticking.__module__ = 'ensmock'
    Ticking.__qualname__ = 'Ticking'
    return Ticking


def __getattr__(name):
    if name == 'Ticking':
        globals()['Ticking'] = m = make_ticking()
        return m
    if name == 'Marked':
        globals()['Marked'] = m = make()
        return m
    if name == 'Keyed':
        globals()['Keyed'] = m = make_keyed()
        return m
    raise AttributeError(name)
