"""C09: mapped curves and slopes follow from the values of the source curve."""
import math
from hypothesis import strategies as st
from ..core import facet, close
from .. import gen, model
from ..build import points, dom, closed_dom, pts_of, settle, Slopes

RULE = ('non-trivial: a series of at least three points, read at a point and between points; '
        'distinct = distinct (facet, case)')
CASES = {'quick': 3000, 'thorough': 80000}
ASSUMPTIONS = ['a map that cannot take an absent value is only used with skip_none']

KINDS = ['double', 'add x', 'none to 0', 'neg', 'abs', 'inv', 'minus', 'skip double', 'skip x', 'builtin', 'chain', 'method']


def st_map():
    return st.fixed_dictionaries({
        's': gen.lived(gen.series(0, 12, gen.maybe_value)),
        'kind': st.sampled_from(KINDS), 'q': gen.positions(14, 1, 8), 'first': st.booleans()})


class Tfm:
    def one(self, y):
        return None if y is None else y + 3

    def two(self, x, y):
        return None if y is None else y - x


@facet('map', st_map, weight=3)
def maps(case, ctx):
    s = case['s']
    pts = [tuple(p) for p in s['pts']]
    xs = [p[0] for p in pts]
    c = ctx.sut('Points', points, s)
    k = case['kind']
    lift = lambda f: (lambda x, y: None if y is None else f(x, y))
    seen = []
    if k == 'double':
        e, f = c.map(lambda y: None if y is None else 2 * y), lift(lambda x, y: 2 * y)
    elif k == 'add x':
        e, f = c.map(lambda x, y: None if y is None else x + y), lift(lambda x, y: x + y)
    elif k == 'none to 0':
        e, f = c.map(lambda y: 0 if y is None else y), lambda x, y: 0 if y is None else y
    elif k == 'neg':
        e, f = -c, lift(lambda x, y: -y)
    elif k == 'minus':
        e, f = c.additive_inverse(), lift(lambda x, y: -y)
    elif k == 'abs':
        e, f = abs(c), lift(lambda x, y: abs(y))
    elif k == 'inv':
        e, f = c.multiplicative_inverse(), lift(lambda x, y: 1 / y)
    elif k == 'skip double':
        e, f = c.map(lambda y: 2 * y, skip_none=True), lift(lambda x, y: 2 * y)
    elif k == 'skip x':
        e, f = c.map(lambda x, y: seen.append((x, y)) or y - x, skip_none=True), lift(lambda x, y: y - x)
    elif k == 'builtin':
        e, f = c.map(abs, skip_none=True), lift(lambda x, y: abs(y))
    elif k == 'method':
        t = Tfm()
        e, f = c.map(t.one).map(t.two), lift(lambda x, y: y + 3 - x)
    else:
        e, f = abs(-c).map(lambda y: None if y is None else y + 1), lift(lambda x, y: abs(y) + 1)
    signs = {y > 0 if y else y for _, y in pts}
    settle(ctx, c, *([] if k == 'inv' and len(signs) > 1 or 0 in signs else [e]))
    if case['first']:
        ctx.check(dom(e) == closed_dom(xs), 'domain of {} is {}, points {}', k, dom(e), pts)
    scale = model.scale_of(pts) + (max(map(abs, xs)) if xs else 0)
    qs = [gen.resolve(xs, p) for p in case['q']] + xs
    for x in qs:
        y = model.lookup(pts, x, s['interp'])
        if k == 'inv' and y is not None and (y == 0 or abs(y) < 1e-6):
            ctx.label('inverse of zero left out')
            continue
        exp = f(x, y)
        got = ctx.sut(f'y({x})', e.y, x)
        ctx.check(close(got, exp, 1e-9, scale if k != 'inv' else abs(exp or 1)), '{}: y({!r}) = {!r}, expected {!r}; series {}', k, x, got, exp, s)
    ctx.check(all(y is not None for _, y in seen), 'a map told to skip absent values was given one: {}', seen)
    ctx.check(dom(e) == closed_dom(xs), 'domain of {} is {}, points {}', k, dom(e), pts)
    ctx.nontrivial(len(xs) >= 3 and any(xs[0] < x < xs[-1] and x not in xs for x in qs))
    ctx.label(k)


def slope(pts, i, j):
    (x0, y0), (x1, y1) = pts[i], pts[j]
    if y0 is None or y1 is None:
        return None
    return (y1 - y0) / (x1 - x0)


def st_slope():
    return st.fixed_dictionaries({
        's': gen.lived(gen.series(0, 12, gen.maybe_value)),
        'kind': st.sampled_from(['points', 'map', 'offset', 'offset method', 'sum', 'differential', 'differential fwd', 'second']),
        'd': st.sampled_from([1, -2, 0.5]),
        'q': gen.positions(14, 0, 4)})


@facet('slope', st_slope, weight=3)
def slopes(case, ctx):
    s = case['s']
    pts = [tuple(p) for p in s['pts']]
    xs = [p[0] for p in pts]
    c = ctx.sut('Points', points, s)
    k = case['kind']
    m = model.scale_of(pts) / min([b - a for a, b in zip(xs, xs[1:])], default=1)
    n = len(pts)
    back = [slope(pts, i, i - 1) if i > 0 else None for i in range(n)]
    fwd = [slope(pts, i, i + 1) if i < n - 1 else None for i in range(n)]
    shift = 0
    if k in ('differential', 'differential fwd', 'second'):
        e = c.differential() if k == 'differential' else c.differential(forward=True) if k == 'differential fwd' else None
        table = back if k == 'differential' else fwd
        if e is None:
            e = c.differential().differential()
            table = [None if i == 0 or back[i - 1] is None or back[i] is None else (back[i] - back[i - 1]) / (xs[i] - xs[i - 1]) for i in range(n)]
            m = m / min([b - a for a, b in zip(xs, xs[1:])], default=1)
        settle(ctx, c, e)
        ctx.check(dom(e) == closed_dom(xs), 'domain of {} is {}, points {}', k, dom(e), pts)
        for i, x in enumerate(xs):
            got = ctx.sut(f'y({x})', e.y, x)
            ctx.check(close(got, table[i], 1e-9, m), '{}: y({}) = {}, expected {}; points {}', k, x, got, table[i], pts)
        ctx.check(ctx.sut('y outside', e.y, (xs[-1] if xs else 0) + 1) is None, '{} has a value outside; points {}', k, pts)
    else:
        if k == 'points':
            e = c
        elif k == 'map':
            e = c.map(lambda y: None if y is None else 3 * y)
            back, fwd = [[None if v is None else 3 * v for v in t] for t in (back, fwd)]
            m *= 3
        elif k == 'sum':
            e = c + c
            back, fwd = [[None if v is None else 2 * v for v in t] for t in (back, fwd)]
            m *= 2
        else:
            e = c.offset(case['d'])
            shift = case['d']
        settle(ctx, c, e, Slopes(e))
        for i, x in enumerate(xs):
            got = ctx.sut(f'd_y({x})', e.d_y, x + shift)
            ctx.check(close(got, back[i], 1e-9, m), '{}: d_y({}) = {}, expected {}; points {}', k, x + shift, got, back[i], pts)
            got = ctx.sut(f'd_y({x}, forward)', e.d_y, x + shift, forward=True)
            ctx.check(close(got, fwd[i], 1e-9, m), '{}: d_y({}, forward) = {}, expected {}; points {}', k, x + shift, got, fwd[i], pts)
        # between points of a linear series: the slope of its segment on either side
        if s['interp'] == 0 and k == 'points':
            for p in case['q']:
                x = gen.resolve(xs, p)
                j = next((j for j in range(n - 1) if xs[j] < x < xs[j + 1] and min(x - xs[j], xs[j + 1] - x) > 0.01), None)
                if j is None:
                    continue
                for fw in (False, True):
                    got = ctx.sut(f'd_y({x})', c.d_y, x, forward=fw)
                    ctx.check(close(got, fwd[j], 1e-7, m * 10), 'd_y({}, forward={}) = {}, segment slope {}; points {}', x, fw, got, fwd[j], pts)
                ctx.label('between')
    ctx.nontrivial(n >= 3)
    ctx.label(k)


FACETS = [maps, slopes]
