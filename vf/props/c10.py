"""C10: an offset curve is the source shifted along x."""
import math
from hypothesis import strategies as st
from ..core import facet, close
from .. import gen, model
from ..build import points, dom, closed_dom, pts_of, same_iv, settle
from ..calendar_model import boundary, NAMES

RULE = ('non-trivial: at least two points, an offset other than zero, and a position between two (shifted) points; '
        'distinct = distinct (facet, case)')
CASES = {'quick': 1700, 'thorough': 40000}
ASSUMPTIONS = ['calendar durations are those of pyduration; boundaries are computed independently with datetime',
               'series offset by calendar durations have their points at boundaries of that duration']


def st_number():
    return st.fixed_dictionaries({
        's': gen.lived(gen.series(0, 10, gen.maybe_value)),
        'd': st.sampled_from([0, 1, -1, 0.5, -2.25, 7, 3600, -86400, 1577836800, 0.1, -0.3]),
        'src': st.sampled_from(['points', 'points', 'map', 'integral', 'line']),
        'd2': st.sampled_from([1, -3, 0.5]),
        'q': gen.positions(14, 1, 8), 'first': st.booleans()})


@facet('number', st_number, weight=5)
def number(case, ctx):
    s = case['s']
    pts = [tuple(p) for p in s['pts']]
    xs = [p[0] for p in pts]
    p = c = ctx.sut('Points', points, s)
    if case['src'] == 'map':
        c = c.map(lambda x, y: None if y is None else y + 1)
    elif case['src'] == 'integral':
        c = c.integral(uniform=False)
    elif case['src'] == 'line':
        from curvepy import Line
        c = Line(const=3, slope=-2)
    d = case['d']
    o = ctx.sut('offset', c.offset, d)
    exact = d not in (0.1, -0.3)
    exp_dom = (-math.inf, math.inf, True, True) if case['src'] == 'line' else closed_dom([x + d for x in xs])
    back = ctx.sut('offset', o.offset, -d)
    twice = ctx.sut('offset', o.offset, case['d2'])
    settle(ctx, p, *([] if case['src'] == 'line' else [o, back, twice]))
    if case['first']:
        ctx.check(same_iv(dom(o), exp_dom), 'domain of offset {} is {}, points {}', d, dom(o), pts)
    qs = [gen.resolve(xs, p) for p in case['q']]
    scale = model.scale_of(pts) * (1 if case['src'] != 'integral' or not xs else max(1, xs[-1] - xs[0])) + (max(abs(v) for v in qs) * 4 if case['src'] == 'line' else 0)
    gap = min([b - a for a, b in zip(xs, xs[1:])], default=1)
    for x in qs:
        if not exact:
            # rounding decides on which side of a point (or end) x + d - d falls
            if not xs or any(abs(x - p) < 1e-6 * max(1, abs(x)) for p in xs):
                continue
        exp = c.y(x)
        tol = 1e-9 if exact else 1e-6
        sc = scale if exact else scale * max(1, abs(x)) / min(1, gap)
        got = ctx.sut(f'y({x + d})', o.y, x + d)
        ctx.check(close(got, exp, tol, sc), 'offset {}: y({!r}) = {!r}, source y({!r}) = {!r}; series {}', d, x + d, got, x, exp, s)
        got = ctx.sut('back', back.y, x)
        ctx.check(close(got, exp, tol, sc), 'offset {} and back: y({!r}) = {!r}, source {!r}; series {}', d, x, got, exp, s)
        got = ctx.sut('twice', twice.y, x + d + case['d2'])
        ctx.check(close(got, exp, tol, sc), 'offset {} and {}: y({!r}) = {!r}, source {!r}; series {}', d, case['d2'], x + d + case['d2'], got, exp, s)
        if exact:
            for fw in (False, True):
                a = ctx.sut('d_y', o.d_y, x + d, forward=fw)
                b = c.d_y(x, forward=fw) if case['src'] == 'line' or (xs and xs[0] <= x <= xs[-1]) else None
                ctx.check(close(a, b, 1e-7, scale * 1e5), 'offset {}: slope at {} is {}, of the source at {} is {}; series {}', d, x + d, a, x, b, s)
    if exact and case['src'] != 'line':
        steps = []
        x = ctx.sut('x_next', o.x_next, -math.inf)
        while x is not None and len(steps) <= len(xs):
            steps.append(x)
            x = ctx.sut('x_next', o.x_next, x)
        ctx.check(steps == [p + d for p in xs], 'offset {} steps through {}, points {}', d, steps, pts)
        steps = []
        x = ctx.sut('x_previous', o.x_previous, math.inf)
        while x is not None and len(steps) <= len(xs):
            steps.append(x)
            x = ctx.sut('x_previous', o.x_previous, x)
        ctx.check(steps[::-1] == [p + d for p in xs], 'offset {} steps back through {}, points {}', d, steps, pts)
    ctx.check(same_iv(dom(o), exp_dom), 'domain of offset {} is {}, points {}', d, dom(o), pts)
    ctx.nontrivial(len(xs) >= 2 and d != 0 and any(xs[0] < x < xs[-1] and x not in xs for x in qs))
    ctx.label(case['src'], 'exact' if exact else 'rounded')


def st_duration():
    return st.fixed_dictionaries({
        'dur': st.sampled_from(NAMES),
        'k0': st.integers(-30, 30), 'n': st.integers(1, 9),
        'count': st.one_of(st.integers(-14, 14), st.integers(-14, 14), st.integers(-14, 14), st.integers(-2, 2)),
        'ys': st.lists(gen.maybe_value, min_size=9, max_size=9),
        'interp': st.sampled_from([0, -1]),
        'f': st.lists(st.sampled_from([0.5, 0.25, 0.9]), min_size=1, max_size=2)})


@facet('duration', st_duration, weight=2)
def duration(case, ctx):
    from curvepy import Points
    name = case['dur']
    n = case['count']
    ks = list(range(case['k0'], case['k0'] + case['n']))
    pts = [(boundary(name, k), y) for k, y in zip(ks, case['ys'])]
    c = ctx.sut('Points', Points, pts, interpolation=case['interp'], uniform=False)
    o = ctx.sut('offset', c.offset, n, duration=name)
    xs = [boundary(name, k + n) for k in ks]
    ctx.check(same_iv(dom(o), closed_dom(xs)), 'offset by {} x {}: domain {}, expected {}; points {}', n, name, dom(o), closed_dom(xs), pts)
    for x, (px, y) in zip(xs, pts):
        got = ctx.sut(f'y({x})', o.y, x)
        ctx.check(close(got, y), 'offset by {} x {}: y({}) = {}, expected {} of boundary {}; points {}', n, name, x, got, y, px, pts)
    for x in (boundary(name, ks[0] + n - 1), boundary(name, ks[-1] + n + 1)):
        got = ctx.sut(f'y({x})', o.y, x)
        ctx.check(got is None, 'offset by {} x {}: y({}) = {} outside; points {}', n, name, x, got, pts)
    scale = model.scale_of(pts)
    if n != 0:
        for i in range(len(xs) - 1):
            for f in case['f']:
                x = xs[i] + f * (xs[i + 1] - xs[i])
                y0, y1 = pts[i][1], pts[i + 1][1]
                exp = None if y0 is None or y1 is None else (1 - f) * y0 + f * y1
                got = ctx.sut(f'y({x})', o.y, x)
                ctx.check(close(got, exp, 1e-6, scale), 'offset by {} x {}: y({}) = {}, expected {} between boundaries; points {}', n, name, x, got, exp, pts)
    else:
        # not moved at all: the source itself, between boundaries too
        for i in range(len(xs) - 1):
            for f in case['f']:
                x = xs[i] + f * (xs[i + 1] - xs[i])
                got, exp = ctx.sut(f'y({x})', o.y, x), model.lookup(pts, x, case['interp'])
                ctx.check(close(got, exp, 1e-9, scale), 'offset by 0 x {}: y({}) = {}, the source has {}; points {}', name, x, got, exp, pts)
    if len(xs) > 1:
        seq = [xs[0]]
        while seq[-1] is not None and len(seq) <= len(xs):
            seq.append(ctx.sut('x_next', o.x_next, seq[-1]))
        ctx.check(seq == xs + [None], 'offset by {} x {} steps through {}, expected {}', n, name, seq, xs)
        seq = [xs[-1]]
        while seq[-1] is not None and len(seq) <= len(xs):
            seq.append(ctx.sut('x_previous', o.x_previous, seq[-1]))
        ctx.check(seq == xs[::-1] + [None], 'offset by {} x {} steps back through {}, expected {}', n, name, seq, xs[::-1])
    ctx.nontrivial(len(xs) >= 2 and (n != 0 or case['interp'] != 0))
    ctx.label(name)


def st_function():
    return st.fixed_dictionaries({
        'src': st.sampled_from(['generic', 'const', 'map', 'sum', 'chain']), 'a': st.integers(-6, 6), 'w': st.integers(1, 8), 'so': st.booleans(), 'eo': st.booleans(),
        'inf': st.sampled_from(['', '', '', '<', '>']), 'd': st.sampled_from([0, 1, -1.5, 3, 100]), 't': st.lists(st.integers(-2, 34), min_size=1, max_size=5), 'step': st.sampled_from([0.5, 1, 0.75])})


@facet('function', st_function, weight=1)
def function(case, ctx):
    """Curves given by functions, over a range that may be open"""
    from curvepy import Generic, Constant
    from intervalpy import Interval
    a, b, so, eo, d = case['a'], case['a'] + case['w'], case['so'], case['eo'], case['d']
    if case['inf'] == '<':
        a, so = -math.inf, True
    elif case['inf'] == '>':
        b, eo = math.inf, True
    iv = Interval(a, b, start_open=so, end_open=eo)
    f = lambda x: x * x / 2 - x
    src = case['src']
    if src == 'const':
        f = lambda x: 3
        c = Constant(3, domain=iv)
    else:
        c = Generic(f, domain=iv)
    if src == 'map':
        c = c.map(lambda y: y, skip_none=True)
    elif src == 'sum':
        c = c + 0
    o = ctx.sut('offset', c.offset, d)
    if src == 'chain':
        o = ctx.sut('offset', o.offset, 0.5)
        d += 0.5
    exp = (a + d, b + d, so, eo)
    what = f'offset {d} of {src} over {a}..{b} ({so}, {eo})'
    ctx.check(dom(o) == exp, '{}: domain {}, expected {}', what, dom(o), exp)
    for t in case['t']:
        x = case['a'] + t * case['w'] / 32
        for x in (x, case['a'], case['a'] + case['w']):
            want = f(x) if model.inside(x, (a, b, so, eo)) else None
            got = ctx.sut('y', o.y, x + d)
            ctx.check(close(got, want), '{}: y({}) = {}, expected {}', what, x + d, got, want)
    s = case['step']
    for t, u in zip(case['t'], case['t'][1:] + case['t'][:1]):
        x = case['a'] + t * case['w'] / 32
        limit = case['a'] + u * case['w'] / 32
        if not model.inside(x, (a, b, so, eo)):
            continue
        for kw in ({}, {'limit': 1}):
            for fw, f1, f2 in ((True, c.x_next, o.x_next), (False, c.x_previous, o.x_previous)):
                if kw:
                    kw['limit'] = max(limit, x + s / 4) if fw else min(limit, x - s / 4)
                moved = {k: v + d for k, v in kw.items()}
                exp_x = f1(x, min_step=s, **kw)
                got = ctx.sut('step', f2, x + d, min_step=s, **moved)
                ctx.check(close(got, None if exp_x is None else exp_x + d), '{}: step {} from {} by {} {} is {}, of the source from {} {} it is {}',
                          what, 'on' if fw else 'back', x + d, s, moved, got, x, kw, exp_x)
                exp_y = c.d_y(x, forward=fw, min_step=s, **kw)
                got = ctx.sut('d_y', o.d_y, x + d, forward=fw, min_step=s, **moved)
                ctx.check(close(got, exp_y, 1e-9, 100), '{}: slope {} at {} by {} {} is {}, of the source at {} {} it is {}',
                          what, 'ahead' if fw else 'behind', x + d, s, moved, got, x, kw, exp_y)
    if not case['inf']:
        got = pts_of(o, step=case['step'])
        xs = [] if so else [a + d]
        x = a + d + case['step']
        while x < b + d or x == b + d and not eo:
            xs.append(x)
            x += case['step']
        ctx.check([x for x, _ in got] == xs, '{}: sampled by {} at {}, expected {}', what, case['step'], [x for x, _ in got], xs)
    ctx.nontrivial(d != 0)
    ctx.label(src)


FACETS = [number, duration, function]
