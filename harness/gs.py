"""Strategies usable both by Hypothesis (.hyp()) and by a plain random driver
(.draw(rng)).  Hypothesis explores simple and repeated values and shrinks well;
the random driver gives throughput and uniform values."""
from hypothesis import strategies as st


class G:
    def __init__(self, hyp, draw):
        self._h = hyp
        self.draw = draw
        self._c = None

    def hyp(self):
        if self._c is None:
            self._c = self._h()
        return self._c

    def map(self, f):
        return G(lambda: self.hyp().map(f), lambda r: f(self.draw(r)))


def just(x):
    return G(lambda: st.just(x), lambda r: x)


def booleans():
    return G(st.booleans, lambda r: bool(r.random() < 0.5))


def integers(a, b):
    return G(lambda: st.integers(a, b), lambda r: int(r.integers(a, b + 1)))


def _float(r, a, b):
    q = r.random()
    if q < 0.04:
        return a
    if q < 0.06:
        return b
    return float(a + (b - a)*r.random())


def floats(a, b, **kw):
    return G(lambda: st.floats(a, b, allow_nan=False), lambda r: _float(r, a, b))


def sampled_from(xs):
    xs = list(xs)
    return G(lambda: st.sampled_from(xs), lambda r: xs[int(r.integers(len(xs)))])


def one_of(*gs):
    if len(gs) == 1 and isinstance(gs[0], (list, tuple)):
        gs = tuple(gs[0])
    return G(lambda: st.one_of(*[g.hyp() for g in gs]), lambda r: gs[int(r.integers(len(gs)))].draw(r))


def lists(g, min_size=0, max_size=8, unique=False):
    def draw(r):
        n = int(r.integers(min_size, max_size + 1))
        out = []
        tries = 0
        while len(out) < n and tries < 200:
            tries += 1
            x = g.draw(r)
            if unique and x in out:
                continue
            out.append(x)
        return out
    return G(lambda: st.lists(g.hyp(), min_size=min_size, max_size=max_size, unique=unique), draw)


def fixed_dictionaries(d):
    d = dict(d)
    return G(lambda: st.fixed_dictionaries({k: v.hyp() for k, v in d.items()}),
             lambda r: {k: v.draw(r) for k, v in d.items()})


def tuples(*gs):
    return G(lambda: st.tuples(*[g.hyp() for g in gs]), lambda r: [g.draw(r) for g in gs])
