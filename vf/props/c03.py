"""C03: stepping visits each point of a curve once, in order, and never leaves it."""
import math
from hypothesis import strategies as st
from ..core import facet, close
from .. import gen, model
from ..build import points

RULE = ('non-trivial: the curve has at least three points and some step starts strictly between two points or uses a minimum step '
        'other than the default; distinct = distinct (facet, case)')
CASES = {'quick': 2200, 'thorough': 60000}
ASSUMPTIONS = ['a curve derived from several curves steps through the merged points of its operands inside its domain',
               'steps are not restricted by the optional `limit` of point series (they ignore it)']

MIN_STEPS = [1e-5, 1e-5, 0.125, 0.5, 1, 1.5, 2, 7, 60]
min_steps = st.sampled_from(MIN_STEPS)
# none and 0 mean the step of the curve, where it was given one (elsewhere
# they are no step at all: not claimed)
asked_own = st.sampled_from(MIN_STEPS + [None, 0, 0])


def fl(x):
    return 'inf' if x == math.inf else '-inf' if x == -math.inf else x


def verify_steps(c, xs, qs, ms, ctx, value=None, what='', own=1e-5):
    """xs: the points of the curve, ascending."""
    for x in qs:
        for m in ms:
            exp = model.step_next(xs, x, max(m or 0, own))
            got = ctx.sut(f'x_next({x}, min_step={m})', c.x_next, x, min_step=m)
            ctx.check(got == exp, '{}x_next({}, min_step={}) = {}, expected {}; points {}', what, x, m, got, exp, xs)
            exp = model.step_prev(xs, x, max(m or 0, own))
            got = ctx.sut(f'x_previous({x}, min_step={m})', c.x_previous, x, min_step=m)
            ctx.check(got == exp, '{}x_previous({}, min_step={}) = {}, expected {}; points {}', what, x, m, got, exp, xs)
        for f, exp in ((c.next_point, model.step_next(xs, x, own)), (c.previous_point, model.step_prev(xs, x, own))):
            p = ctx.sut(f.__name__, f, x)
            if exp is None:
                ctx.check(p is None, '{}{}({}) = {}, expected none; points {}', what, f.__name__, x, p, xs)
            else:
                ctx.check(p is not None and p[0] == exp and close(p[1], c.y(exp)), '{}{}({}) = {}, expected x {}; points {}', what, f.__name__, x, p, exp, xs)
                if value is not None:
                    ctx.check(close(p[1], value(exp)), '{}{}({}) has value {}, expected {}', what, f.__name__, x, p[1], value(exp))


def verify_walk(c, xs, ctx, what='', own=1e-5):
    """From one end to the other and back."""
    if not xs:
        for x in (0, -math.inf, math.inf):
            ctx.check(c.x_next(x) is None and c.x_previous(x) is None, '{}empty curve steps', what)
        return
    exp = walk_of(xs, own)
    seen = []
    x = ctx.sut('x_next(-inf)', c.x_next, -math.inf)
    while x is not None and len(seen) <= len(xs):
        seen.append(x)
        x = ctx.sut(f'x_next({x})', c.x_next, x)
    ctx.check(seen == exp, '{}stepping forward by at least {} visits {}, points {}', what, own, seen, xs)
    exp = [-x for x in walk_of([-x for x in xs[::-1]], own)]
    seen = []
    x = ctx.sut('x_previous(inf)', c.x_previous, math.inf)
    while x is not None and len(seen) <= len(xs):
        seen.append(x)
        x = ctx.sut(f'x_previous({x})', c.x_previous, x)
    ctx.check(seen == exp, '{}stepping backward by at least {} visits {}, points {}', what, own, seen, xs)


def walk_of(xs, own):
    res = xs[:1]
    while res[-1] is not None:
        res.append(model.step_next(xs, res[-1], own))
    return res[:-1]


def note(ctx, xs, qs, ms):
    ctx.nontrivial(len(xs) >= 3 and (any(xs[0] < x < xs[-1] and x not in xs for x in qs) or any(m != 1e-5 for m in ms)))


def st_points():
    return st.fixed_dictionaries({
        's': gen.series(0, 12, gen.maybe_value),
        'q': gen.positions(14, 1, 5),
        'ms': st.lists(st.one_of(min_steps, st.tuples(st.just('gap'), st.sampled_from([0.5, 1, 1, 2, 3, 1.25])).map(list)), min_size=1, max_size=3)})


def resolve_ms(ms, xs):
    g = xs[1] - xs[0] if len(xs) > 1 else 1
    return [m[1] * g if isinstance(m, list) else m for m in ms]


@facet('points', st_points, weight=3)
def steps(case, ctx):
    s = case['s']
    xs = [p[0] for p in s['pts']]
    c = ctx.sut('Points', points, s)
    qs = [gen.resolve(xs, p) for p in case['q']]
    ms = resolve_ms(case['ms'], xs)
    verify_steps(c, xs, qs, ms, ctx, value=dict(map(tuple, s['pts'])).get)
    verify_walk(c, xs, ctx)
    note(ctx, xs, qs, ms)
    ctx.label('even' if model.evenly_spaced(xs) else 'uneven', 'uniform' if s['uniform'] else 'free')


def st_decimal():
    return st.fixed_dictionaries({
        'step': st.sampled_from([0.1, 0.3, 1 / 3, 0.7, 1.1, 0.01, 86400 / 7]),
        'start': st.sampled_from([0.0, 0.1, -0.7, 1 / 3, 1000.1, -1e5 / 3]),
        'mult': st.booleans(), 'uniform': st.booleans(), 'n': st.integers(2, 40)})


@facet('decimal spacing', st_decimal, weight=1)
def decimal(case, ctx):
    """Every point is visited although binary floats cannot represent the spacing."""
    from curvepy import Points
    xs, x = [], case['start']
    for i in range(case['n']):
        xs.append(case['start'] + i * case['step'] if case['mult'] else x)
        x += case['step']
    c = ctx.sut('Points', Points, [(x, i) for i, x in enumerate(xs)], uniform=case['uniform'])
    verify_walk(c, xs, ctx)
    m = case['step'] / 2
    verify_steps(c, xs, xs, [m], ctx)
    ctx.nontrivial(case['n'] >= 3)


OWN = ('map step', 'map step offset', 'ema step', 'map step twice', 'ema step twice')


def st_derived():
    return st.fixed_dictionaries({
        's': gen.series(0, 10, gen.value),
        't': gen.series(0, 10, gen.value),
        'near': st.booleans(),
        'kind': st.sampled_from(['map', 'neg', 'offset', 'offset map', 'diff', 'add', 'max', 'add const', 'add line', 'union', 'union const', 'integral', 'tmin', 'ema', 'subset of none', 'map step', 'map step', 'map step offset', 'ema step', 'map step twice', 'ema step twice']),
        'd': st.sampled_from([0, 1, -1, 0.5, -2.25, 3600]),
        'own': st.one_of(min_steps, st.tuples(st.just('gap'), st.sampled_from([0.5, 1, 2, 3, 1.25])).map(list)),
        'own2': st.one_of(min_steps, st.tuples(st.just('gap'), st.sampled_from([0.5, 1, 2, 3, 1.25])).map(list)),
        'q': gen.positions(14, 1, 5),
        'ms': st.lists(asked_own, min_size=1, max_size=3)})


@facet('derived', st_derived, weight=3)
def derived(case, ctx):
    from curvepy import Curve, Line
    s, t = case['s'], dict(case['t'])
    if case['near'] and s['pts'] and t['pts']:
        # make the two series overlap
        shift = s['pts'][0][0] - t['pts'][0][0] + case['d']
        t['pts'] = [[x + shift, y] for x, y in t['pts']]
    xs = [p[0] for p in s['pts']]
    ts = [p[0] for p in t['pts']]
    c = ctx.sut('Points', points, s)
    k = case['kind']
    d = case['d']
    exp = xs
    own = 1e-5
    if k in OWN:
        # a step of its own, coarser than that of its source
        own = resolve_ms([case['own']], xs)[0]
    if k in ('map step', 'map step offset'):
        e = c.map(lambda y: y * 2, min_step=own)
        if k != 'map step':
            e = e.offset(d)
            exp = [x + d for x in xs]
    elif k == 'ema step':
        e = c.ema(0.5, uniform=False, min_step=own)
    elif k.endswith('twice'):
        # the coarser of the two steps holds
        own2 = resolve_ms([case['own2']], xs)[0]
        e = c.map(lambda y: y * 2, min_step=own)
        e = e.map(lambda y: y + 1, min_step=own2) if k == 'map step twice' else e.ema(0.5, uniform=False, min_step=own2)
        own = max(own, own2)
    elif k == 'map':
        e = c.map(lambda y: y * 2)
    elif k == 'neg':
        e = -c
    elif k == 'diff':
        e = c.differential()
    elif k == 'offset':
        e = c.offset(d)
        exp = [x + d for x in xs]
    elif k == 'offset map':
        e = c.map(lambda x, y: y + x).offset(d)
        exp = [x + d for x in xs]
    elif k in ('add', 'max', 'union'):
        c2 = ctx.sut('Points', points, t)
        e = c + c2 if k == 'add' else Curve.max([c, c2]) if k == 'max' else Curve.min([c, c2], ignore_empty=True)
        exp = sorted(set(xs + ts))
        if k != 'union':
            lo = max(xs[0], ts[0]) if xs and ts else 1
            hi = min(xs[-1], ts[-1]) if xs and ts else 0
            exp = [x for x in exp if lo <= x <= hi]
        ctx.label('overlap %d' % min(3, len(exp)))
    elif k == 'add const':
        e = c + 3
    elif k == 'add line':
        e = Line(const=1, slope=2) + c
    elif k == 'union const':
        from curvepy import Constant
        c2 = ctx.sut('Points', points, t)
        e = Curve.first([c, c2])
        exp = sorted(set(xs + ts))
    elif k == 'integral':
        e = c.integral(uniform=False)
    elif k == 'tmin':
        e = c.trailing_min(2, uniform=False)
    elif k == 'ema':
        e = c.ema(0.5, uniform=False)
    else:
        e = Curve.empty() + c
        exp = []
    ms = [m for m in case['ms'] if m or k in OWN] or [1e-5]
    qs = [gen.resolve(exp or xs, p) for p in case['q']]
    # steps start inside the curve or outside of it
    verify_steps(e, exp, qs, ms, ctx, what=k + ': ', own=own)
    verify_walk(e, exp, ctx, what=k + ': ', own=own)
    note(ctx, exp, qs, case['ms'])
    ctx.label(k)


def st_walk():
    return st.fixed_dictionaries({
        's': gen.series(0, 12, gen.maybe_value),
        'from': gen.pos(),
        'limit': st.integers(-8, 8).filter(lambda n: n != 0),
        'backward': st.booleans(), 'open': st.booleans(),
        'ms': min_steps})


@facet('sample from', st_walk, weight=2)
def walk(case, ctx):
    """A limited walk from a position: its points in walking order, each with
    the value of the curve, up to the first absent value."""
    s = case['s']
    pts = [tuple(p) for p in s['pts']]
    xs = [p[0] for p in pts]
    c = ctx.sut('Points', points, s)
    x = gen.resolve(xs, case['from'])
    m = case['ms']
    got = ctx.sut('sample_points_from_x', c.sample_points_from_x, x, case['limit'], backward=case['backward'], open=case['open'], min_step=m)
    back = case['backward'] != (case['limit'] < 0)
    n = abs(case['limit'])
    exp = []
    here = x
    y = model.lookup(pts, x, s['interp'])
    ended = False
    if not case['open']:
        if y is None:
            ended = True
        else:
            exp.append((x, y))
    while not ended and len(exp) < n:
        here = (model.step_prev if back else model.step_next)(xs, here, m)
        if here is None:
            break
        y = model.lookup(pts, here, s['interp'])
        if y is None:
            break
        exp.append((here, y))
    ctx.check(len(got) == len(exp) and all(g[0] == e[0] and close(g[1], e[1], 1e-9, model.scale_of(pts)) for g, e in zip(got, exp)),
              'sample_points_from_x({}, {}, backward={}, open={}, min_step={}) = {}, expected {}; points {}', x, case['limit'], case['backward'], case['open'], m, got, exp, pts)
    ctx.nontrivial(len(exp) >= 3)
    ctx.label('walk %d' % min(len(exp), 3))


def st_pieces():
    return st.fixed_dictionaries({
        's': st.lists(gen.series(1, 8, gen.value, starts=[0, -3, 1, 2.5], steps=[1, 0.5, 2]), min_size=1, max_size=3),
        't': gen.series(1, 10, gen.value, starts=[0, -3, 1, -8], steps=[1, 0.75, 2]),
        'cuts': st.lists(st.tuples(st.integers(1, 9), st.booleans(), st.booleans(), st.sampled_from([0, 0, 0, 1, 2])).map(list), min_size=3, max_size=3),
        'from': st.integers(-12, 4),
        'kind': st.sampled_from(['pieces', 'map', 'offset', 'add', 'add', 'radd', 'max', 'add const', 'add line', 'ema', 'tmin', 'union']),
        'd': st.sampled_from([0, 1, -1, 0.5, -2.25]),
        'q': st.lists(st.integers(-30, 40), min_size=1, max_size=6),
        'limit': st.integers(-20, 40), 'ms': st.lists(min_steps, min_size=1, max_size=2)})


@facet('pieces', st_pieces, weight=2)
def pieces(case, ctx):
    """A curve put together from ranges, open or closed, and what follows from
    it: the points inside the ranges and their closed ends."""
    from curvepy import Curve, Line, Piecewise
    from intervalpy import Interval
    ivs = []
    x = case['from'] / 2
    for w, so, eo, gap in case['cuts'][:len(case['s'])]:
        so = so or bool(ivs) and ivs[-1][1] == x and not ivs[-1][3]
        ivs.append((x, x + w / 2, so, eo))
        x += w / 2 + gap / 2
    p = ctx.sut('Piecewise', Piecewise, [points(s) for s in case['s']], [Interval(a, b, start_open=so, end_open=eo) for a, b, so, eo in ivs])
    exp = set()
    for s, iv in zip(case['s'], ivs):
        exp.update(q[0] for q in s['pts'] if model.inside(q[0], iv))
        exp.update(x for x, op in zip(iv[:2], iv[2:]) if not op)
    exp = sorted(exp)
    d = (ivs[0][0], ivs[-1][1], ivs[0][2], ivs[-1][3])
    ts = [q[0] for q in case['t']['pts']]
    k = case['kind']
    e = p
    if k == 'map':
        e = p.map(lambda y: None if y is None else y * 2)
    elif k == 'offset':
        e = p.offset(case['d'])
        exp = [x + case['d'] for x in exp]
    elif k in ('add', 'radd', 'max', 'union'):
        t = points(case['t'])
        e = p + t if k == 'add' else t + p if k == 'radd' else Curve.max([p, t]) if k == 'max' else Curve.min([t, p], ignore_empty=True)
        exp = sorted(set(exp + ts))
        if k != 'union':
            exp = [x for x in exp if ts[0] <= x <= ts[-1] and model.inside(x, d)]
    elif k == 'add const':
        e = p + 3
    elif k == 'add line':
        e = Line(const=1, slope=2) + p
    elif k in ('ema', 'tmin'):
        e = p.ema(0.5, uniform=False) if k == 'ema' else p.trailing_min(2, uniform=False)
    qs = [q / 4 for q in case['q']] + exp[:3]
    if k != 'tmin':         # of present values only
        verify_steps(e, exp, qs, case['ms'], ctx, what=f'{k} {ivs}: ')
        verify_walk(e, exp, ctx, what=f'{k} {ivs}: ')
    if k in ('add const', 'add line', 'pieces', 'add', 'radd', 'max'):
        # a limit is no point
        lim = case['limit'] / 4
        for x in qs:
            for f in ('x_next', 'x_previous'):
                if (lim > x) == (f == 'x_next') and lim != x:
                    got, at = getattr(e, f)(x, limit=lim), getattr(e, f)(x)
                    ctx.check(got == at, '{} {}: {}({}, limit={}) = {}, without {}', k, ivs, f, x, lim, got, at)
    note(ctx, exp, qs, case['ms'])
    ctx.label(k)


FACETS = [steps, decimal, derived, pieces, walk]
