"""Generators. Every case is JSON-able; positions are given relative to the
points of a series so that shrinking keeps them meaningful.

Grids are dyadic by default (spacing and start are multiples of a power of
two), so that the reference models can be compared exactly up to 1e-9 and a
position is unambiguously at or between points."""
from hypothesis import strategies as st

STEPS = [1, 1, 1, 2, 0.5, 0.25, 0.125, 3, 10, 60, 3600, 86400]
STARTS = [0, 0, 1, -1, -3, 2.5, -2.5, 100, -1000, 1577836800]
FRACS = [0, 0, 0.5, 0.25, 0.75, 0.125]

small_int = st.integers(-9, 9)
dyadic = st.integers(-400, 400).map(lambda k: k / 8)
big = st.sampled_from([1e6, -1e6, 123456.75, 1e-3, -1e-3, 65536, -40000.5])
value = st.one_of(small_int, small_int, dyadic, big)
pos_value = st.one_of(st.integers(1, 20), st.integers(1, 400).map(lambda k: k / 8), st.sampled_from([1000.5, 0.015625, 65536]))
maybe_value = st.one_of(value, value, value, st.none())
tame_value = st.one_of(small_int, st.integers(-80, 80).map(lambda k: k / 8))


def values(n, v=value):
    return st.lists(v, min_size=n, max_size=n)


@st.composite
def uniform_xs(draw, min_size=0, max_size=12, steps=STEPS, starts=STARTS):
    n = draw(st.integers(min_size, max_size))
    s = draw(st.sampled_from(steps))
    a = draw(st.sampled_from(starts))
    return [a + i * s for i in range(n)]


@st.composite
def uneven_xs(draw, min_size=0, max_size=12, starts=STARTS, max_gap=12, quanta=(0.25, 1, 0.5, 10, 3600)):
    n = draw(st.integers(min_size, max_size))
    q = draw(st.sampled_from(list(quanta)))
    a = draw(st.sampled_from(starts))
    gaps = draw(st.lists(st.integers(1, max_gap), min_size=max(0, n - 1), max_size=max(0, n - 1)))
    if len(gaps) >= 3 and draw(st.booleans()):
        # last point where even spacing would put it
        rest = gaps[0] * (len(gaps) - 1)
        for i in range(1, len(gaps) - 1):
            gaps[i] = min(gaps[i], max(1, rest - (len(gaps) - 1 - i)))
            rest -= gaps[i]
        gaps[-1] = max(1, rest)
    xs = []
    x = a
    for i in range(n):
        xs.append(x)
        if i < n - 1:
            x = x + gaps[i] * q
    return xs


@st.composite
def series(draw, min_size=0, max_size=12, v=value, uneven=None, interps=(0, 0, -1, 1), steps=STEPS, starts=STARTS):
    """{'pts': [[x, y], ...], 'uniform': bool, 'interp': int}"""
    un = draw(st.booleans()) if uneven is None else uneven
    if un:
        xs = draw(uneven_xs(min_size, max_size, starts=starts))
        uniform = False
    else:
        xs = draw(uniform_xs(min_size, max_size, steps=steps, starts=starts))
        uniform = draw(st.booleans()) if uneven is None else True
    ys = draw(values(len(xs), v))
    return {'pts': [[x, y] for x, y in zip(xs, ys)], 'uniform': uniform, 'interp': draw(st.sampled_from(list(interps)))}


def pos(max_n=14):
    """Position relative to points: [i, f] is a fraction f past point i."""
    return st.tuples(st.integers(-2, max_n), st.sampled_from(FRACS)).map(list)


def positions(max_n=14, min_size=1, max_size=8):
    return st.lists(pos(max_n), min_size=min_size, max_size=max_size)


def resolve(xs, p, default=0.0):
    """x of a relative position (i < 0: before the first point, i >= len:
    after the last one; indexes beyond that are clamped)."""
    i, f = p
    n = len(xs)
    if n == 0:
        return default + i + f
    if n == 1:
        gap = 1.0
    else:
        gap = None
    if i < 0:
        g = gap or (xs[1] - xs[0])
        return xs[0] + (i + f) * g if (i + f) < 0 else xs[0] - 0.5 * g
    if i >= n - 1:
        g = gap or (xs[-1] - xs[-2])
        if i == n - 1:
            return xs[-1] + f * g
        # fold a far index back into the series most of the time
        k = i % (n + 1)
        if k >= n - 1:
            return xs[-1] + (k - (n - 1) + f) * g
        return xs[k] + f * (xs[k + 1] - xs[k])
    return xs[i] + f * (xs[i + 1] - xs[i])


@st.composite
def rel_interval(draw, max_n=14):
    """[pos, pos, start_open, end_open]"""
    return [draw(pos(max_n)), draw(pos(max_n)), draw(st.booleans()), draw(st.booleans())]


def resolve_interval(xs, r):
    """-> (a, b, start_open, end_open), a <= b; a point interval is closed"""
    a = resolve(xs, r[0])
    b = resolve(xs, r[1])
    if a > b:
        a, b = b, a
    if a == b:
        return a, b, False, False
    return a, b, bool(r[2]), bool(r[3])


PASTS = ['append', 'append', 'extend', 'value', 'set', 'other', 'tail', 'head', 'clear']


def lived(strategy, pasts=PASTS):
    """The series, in half of the cases with a past: it reaches its points by an
    edit, made after curves were derived from it and read (build.settle)"""
    past = st.one_of(st.none(), st.tuples(st.sampled_from(list(pasts)), st.integers(1, 4), st.sampled_from(['up', 'down', 'some'])).map(list))
    return st.tuples(strategy, past).map(lambda t: t[0] if t[1] is None or not t[0]['pts'] else dict(t[0], past=t[1]))
