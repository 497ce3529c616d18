"""C01: point series evaluate to their interpolation, exactly on their domain."""
import math
from hypothesis import strategies as st
from ..core import facet, close
from .. import gen, model
from ..build import points, dom, closed_dom

RULE = ('non-trivial: a series of at least two points read at least once strictly between two points and once at a point; '
        'distinct = distinct (facet, case)')
CASES = {'quick': 1500, 'thorough': 40000}
ASSUMPTIONS = ['points are given in strictly ascending x', 'between points, |relative difference| <= 1e-9 of the largest value']


def verify(c, pts, mode, qs, ctx):
    xs = [p[0] for p in pts]
    d = ctx.sut('domain', lambda: dom(c))
    ctx.check(d == closed_dom(xs), 'domain is {}, points are {}', d, pts)
    scale = model.scale_of(pts)
    for i, (x, y) in enumerate(pts):
        got = ctx.sut(f'y({x!r})', c.y, x)
        ctx.check(got is y or got == y, 'y({}) = {} at point {} of {} (mode {})', x, got, i, pts, mode)
    for x in qs:
        got = ctx.sut(f'y({x!r})', c.y, x)
        exp = model.lookup(pts, x, mode)
        ctx.check(close(got, exp, 1e-9, scale), 'y({!r}) = {!r}, expected {!r}; mode {} points {}', x, got, exp, mode, pts)
        again = ctx.sut('call', c, x)
        ctx.check(again == got, 'calling gives {} but y({}) is {}', again, x, got)
        ctx.check((got is None) or (xs[0] <= x <= xs[-1]), 'value outside the domain at {}', x)
    fp = ctx.sut('first_point', c.first_point)
    lp = ctx.sut('last_point', c.last_point)
    ys = ctx.sut('y_start', c.y_start)
    ye = ctx.sut('y_end', c.y_end)
    if pts:
        ctx.check(tuple(fp) == tuple(pts[0]) and tuple(lp) == tuple(pts[-1]), 'first/last point {} {} of {}', fp, lp, pts)
        ctx.check(ys == pts[0][1] and ye == pts[-1][1], 'y_start/y_end {} {} of {}', ys, ye, pts)
    else:
        ctx.check(fp is None and lp is None and ys is None and ye is None, 'an empty series has an end point')


def note(ctx, xs, qs, s=None):
    between = any(xs and xs[0] < x < xs[-1] and x not in xs for x in qs)
    ctx.nontrivial(len(xs) >= 2 and between)
    ctx.label('n=%s' % ('0' if not xs else '1' if len(xs) == 1 else '2' if len(xs) == 2 else '3+'))
    if any(xs and (x < xs[0] or x > xs[-1]) for x in qs):
        ctx.label('outside')


def st_grid():
    return st.fixed_dictionaries({
        's': gen.series(0, 12, gen.maybe_value),
        'q': gen.positions(14, 1, 8),
        # just beside a point
        'near': st.lists(st.tuples(st.integers(0, 12), st.sampled_from([2 ** -8, 2 ** -11, 2 ** -16, 2 ** -20, -2 ** -11, -2 ** -20])).map(list), max_size=3),
        'far': st.sampled_from([None, math.inf, -math.inf, 1e12, -1e12]).map(lambda v: str(v)),
        'build': st.sampled_from(['tuple', 'list', 'parse', 'append'])})


@facet('grid', st_grid, weight=5)
def grid(case, ctx):
    s = case['s']
    pts = [tuple(p) for p in s['pts']]
    xs = [p[0] for p in pts]
    from curvepy import Points, Curve
    b = case['build']
    if b == 'parse' and model.evenly_spaced(xs) and s['interp'] == 0 and s['uniform']:
        c = ctx.sut('Curve.parse', Curve.parse, [list(p) for p in pts])
    elif b == 'append':
        c = ctx.sut('Points', Points, [], interpolation=s['interp'], uniform=s['uniform'])
        for p in pts:
            ctx.sut('append', c.append, p)
    elif b == 'list':
        c = ctx.sut('Points', Points, [list(p) for p in pts], interpolation=s['interp'], uniform=s['uniform'])
    else:
        c = ctx.sut('Points', points, s)
    qs = [gen.resolve(xs, p) for p in case['q']]
    qs += [gen.resolve(xs, [i if f > 0 else i - 1, f % 1]) for i, f in case.get('near', [])]
    if case['far'] != 'None':
        qs.append(float(case['far']))
    verify(c, pts, s['interp'], qs, ctx)
    note(ctx, xs, qs)
    ctx.label('even' if model.evenly_spaced(xs) else 'uneven', 'uniform' if s['uniform'] else 'free', 'mode%d' % s['interp'])
    if any(y is None for _, y in pts):
        ctx.label('absent values')


def st_float():
    return st.fixed_dictionaries({
        'step': st.sampled_from([0.1, 0.3, 1 / 3, 0.7, 1e-3, 1.1, 2.7, 0.01, 86400 / 7, 1e6 / 3]),
        'start': st.sampled_from([0.0, 0.1, -0.7, 1 / 3, 1e3 + 0.1, 1577836800.1, -1e5 / 3]),
        'mult': st.booleans(),
        'uniform': st.booleans(),
        'interp': st.sampled_from([0, -1, 1]),
        'ys': st.lists(gen.value, min_size=2, max_size=40),
        'q': gen.positions(40, 1, 8)})


@facet('decimal spacing', st_float, weight=2)
def decimal(case, ctx):
    """Spacings which binary floating point cannot represent."""
    from curvepy import Points
    xs = []
    x = case['start']
    for i in range(len(case['ys'])):
        xs.append(case['start'] + i * case['step'] if case['mult'] else x)
        x += case['step']
    pts = list(zip(xs, case['ys']))
    c = ctx.sut('Points', Points, pts, interpolation=case['interp'], uniform=case['uniform'])
    qs = []
    for p in case['q']:
        q = gen.resolve(xs, p)
        # stay clearly between the points: spacing is only even up to rounding
        if all(abs(q - x) > 0.05 * case['step'] for x in xs) or q in xs:
            qs.append(q)
    tol = 1e-6 if case['start'] > 1e8 and case['step'] < 0.5 else 1e-7
    scale = model.scale_of(pts)
    ctx.check(dom(c) == closed_dom(xs), 'domain {} of points {}', dom(c), xs)
    for x, y in pts:
        got = ctx.sut('y', c.y, x)
        ctx.check(got == y, 'y({!r}) = {!r} at a point, expected {!r}; points {}', x, got, y, pts)
    for x in qs:
        got = ctx.sut('y', c.y, x)
        exp = model.lookup(pts, x, case['interp'])
        # rounding may put x anywhere within an ulp of the even position
        u = tol if case['uniform'] else 1e-9
        slack = max(abs(a[1] - b[1]) for a, b in zip(pts, pts[1:])) / case['step'] * abs(x) * 1e-15 * 40
        ctx.check(close(got, exp, u, scale) or (got is not None and exp is not None and abs(got - exp) <= slack),
                  'y({!r}) = {!r}, expected {!r}; mode {} points {}', x, got, exp, case['interp'], pts)
    note(ctx, xs, qs)
    ctx.label('start%g' % case['start'])


def st_free():
    return st.fixed_dictionaries({
        'xs': st.lists(st.floats(-1e6, 1e6, allow_nan=False).map(lambda v: round(v, 6)), min_size=2, max_size=25, unique=True),
        'ys': st.lists(gen.value, min_size=25, max_size=25),
        'interp': st.sampled_from([0, -1, 1]),
        'q': gen.positions(25, 1, 8)})


@facet('free spacing', st_free, weight=2)
def free(case, ctx):
    from curvepy import Points
    xs = sorted(case['xs'])
    pts = list(zip(xs, case['ys']))
    c = ctx.sut('Points', Points, pts, interpolation=case['interp'], uniform=False)
    qs = [gen.resolve(xs, p) for p in case['q']]
    verify(c, pts, case['interp'], qs, ctx)
    note(ctx, xs, qs)


def st_near():
    return st.fixed_dictionaries({
        'start': st.sampled_from([0, 1, -3, 2.5, 100]),
        'step': st.sampled_from([1, 0.5, 2, 60, 86400]),
        'off': st.lists(st.sampled_from([0, 0, 0, 0.2, -0.2, 0.01, -0.01, 0.004, -0.004, 1e-3, -1e-3, 2e-4]), min_size=2, max_size=16),
        'ys': st.lists(gen.value, min_size=16, max_size=16),
        'interp': st.sampled_from([0, -1, 1]),
        'q': gen.positions(16, 1, 8)})


@facet('nearly even', st_near, weight=1.5)
def near(case, ctx):
    """Positions a little off an even spacing count as they are, and are
    refused where an even spacing is demanded."""
    from curvepy import Points
    xs = [case['start'] + (i + o) * case['step'] for i, o in enumerate(case['off'])]
    pts = list(zip(xs, case['ys']))
    c = ctx.sut('Points', Points, pts, interpolation=case['interp'], uniform=False)
    qs = [gen.resolve(xs, p) for p in case['q']]
    verify(c, pts, case['interp'], qs, ctx)
    if not model.evenly_spaced(xs, None) and max(abs(b - a - xs[1] + xs[0]) for a, b in zip(xs, xs[1:])) > 1e-4 * (xs[1] - xs[0]):
        try:
            u = Points(pts, interpolation=case['interp'])
        except Exception:
            u = None
        ctx.check(u is None, 'a series demanding an even spacing accepted {}', xs)
    note(ctx, xs, qs)


FACETS = [grid, decimal, free, near]
