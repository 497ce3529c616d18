"""C14: trailing windows summarise exactly the points in the window."""
from hypothesis import strategies as st
from ..core import facet, close
from .. import gen, model
from ..accum import st_source, source, verify, st_coarse, coarse, verify_coarse
from ..build import closed_dom, dom

RULE = 'non-trivial: at least three points, read between points; distinct = distinct (facet, case)'
CASES = {'quick': 1800, 'thorough': 50000}
ASSUMPTIONS = ['every value is present', 'uniform=False is given for unevenly spaced sources',
               'in a derived curve (map, offset, sum) the start of a period window also counts, with the value of the curve there']


def st_case():
    return st.fixed_dictionaries({
        'base': st_source(gen.value),
        'kind': st.sampled_from(['min', 'max', 'custom', 'custom x', 'median']),
        'degree': st.integers(1, 7),
        'period': st.one_of(st.none(), st.sampled_from([0.5, 1, 1.5, 2, 3, 4.25])),
        'interp': st.sampled_from([None, 0, -1, 1]), 'siblings': st.booleans()})


def middle(ys):
    return sorted(ys)[len(ys) // 2]


@facet('window', st_case, weight=3)
def window(case, ctx):
    b = case['base']
    c, pts, uniform = source(b, ctx)
    xs = [x for x, _ in pts]
    k = case['kind']
    calls = []

    def custom(ys):
        calls.append(list(ys))
        return ys[0] - 2 * ys[-1] + len(ys)

    def custom_x(x, ys):
        calls.append(list(ys))
        return sum((i + 1) * y for i, y in enumerate(ys)) + x

    period = case['period'] and case['period'] * (xs[1] - xs[0] if len(xs) > 1 else 1)
    kw = {'interpolation': case['interp'], 'uniform': uniform, 'is_period': period is not None}
    w = period if period is not None else case['degree']
    others = []
    if case['siblings']:
        n = max(1, int(w))
        others = [c.trailing_max(n, uniform=uniform), c.trailing_min(n, is_period=True, uniform=uniform), c.accumulator_map(max, n + 1, uniform=uniform)]
    if k == 'min':
        e = ctx.sut('trailing_min', c.trailing_min, w, **kw)
        f = lambda x, ys: min(ys)
    elif k == 'max':
        e = ctx.sut('trailing_max', c.trailing_max, w, **kw)
        f = lambda x, ys: max(ys)
    else:
        t = custom if k == 'custom' else custom_x if k == 'custom x' else middle
        e = ctx.sut('accumulator_map', c.accumulator_map, t, w, **kw)
        if k == 'custom':
            f = lambda x, ys: ys[0] - 2 * ys[-1] + len(ys)
        elif k == 'custom x':
            f = lambda x, ys: sum((i + 1) * y for i, y in enumerate(ys)) + x
        else:
            f = lambda x, ys: middle(ys)
    table = []
    windows = []
    for j, (x, _) in enumerate(pts):
        ys = model.window_degree(pts, w, j) if period is None else model.window_period(pts, w, j)
        if period is not None and b['src'] != 'points':
            # a derived curve is also sampled at the start of the window
            x0 = max(x - w, xs[0])
            if x0 not in xs:
                ys = [model.lookup(pts, x0, b['s']['interp'])] + ys
        ys = ys[::-1]           # newest first
        windows.append(ys)
        table.append((x, f(x, ys)))
    scale = max(model.scale_of(table), model.scale_of(pts))
    what = f'{k} over {"period" if period else "degree"} {w} of {pts}'
    verify(e, table, case['interp'] or 0, closed_dom(xs), b, ctx, what, scale=scale, others=others)
    if k in ('custom', 'custom x') and not ctx.edited:
        ctx.check(close(calls, windows, 1e-9, model.scale_of(pts)), '{}: summarised windows {}, expected {}', what, calls, windows)
    ctx.label(k, 'period' if period else 'degree', 'mode %s' % case['interp'])


def st_acc():
    return st.fixed_dictionaries({
        'base': st_source(gen.maybe_value),
        'interp': st.sampled_from([None, 0, -1, 1])})


@facet('accumulator', st_acc, weight=1)
def accumulator(case, ctx):
    from curvepy.accumulator import Accumulator
    b = case['base']
    c, pts, uniform = source(b, ctx)
    xs = [x for x, _ in pts]
    calls = []

    def step(x, y, last):
        calls.append((x, y, last))
        return (last or 0) + (y if y is not None else 100)

    e = ctx.sut('Accumulator', Accumulator, c, step, interpolation=case['interp'], uniform=uniform)
    exp = []
    table = []
    last = None
    for x, y in pts:
        exp.append((x, y, last))
        last = (last or 0) + (y if y is not None else 100)
        table.append((x, last))
    verify(e, table, case['interp'] or 0, closed_dom(xs), b, ctx, f'running sum of {pts}', scale=model.scale_of(table) * 10)
    ctx.check(ctx.edited or len(calls) == len(exp) and all(a[0] == x[0] and close(a[1:], x[1:], 1e-9, model.scale_of(table)) for a, x in zip(calls, exp)),
              'accumulated with {}, expected {}', calls, exp)
    ctx.label('mode %s' % case['interp'])


def st_step():
    return st.fixed_dictionaries({**st_coarse(), 'degree': st.integers(1, 4), 'period': st.booleans(), 'kind': st.sampled_from(['min', 'max', 'mean']),
                                  'interp': st.sampled_from([None, 0, -1, 1])})


@facet('coarse step', st_step, weight=1)
def step(case, ctx):
    from curvepy import Points
    c, pts, visited, m = coarse(case, ctx)
    w = case['degree']
    if case['period']:
        w *= case['k'] * case['gap']
    kw = {'is_period': case['period'], 'uniform': case['uniform'], 'interpolation': case['interp']}

    def make(c, **kw):
        if case['kind'] == 'min':
            return c.trailing_min(w, **kw)
        if case['kind'] == 'max':
            return c.trailing_max(w, **kw)
        return c.accumulator_map(lambda ys: sum(ys) / len(ys) + len(ys), w, **kw)

    e = ctx.sut('window', make, c, min_step=m, **kw)
    ref = make(Points(visited), **kw)
    verify_coarse(e, ref, visited, case, ctx, f'trailing {case["kind"]}({w}, {kw}) of {pts} in steps of {m}', scale=model.scale_of(pts))


FACETS = [window, accumulator, step]
