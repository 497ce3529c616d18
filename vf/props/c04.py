"""C04: sampling returns exactly the points asked for."""
import math
from hypothesis import strategies as st
from intervalpy import Interval
from ..core import facet, close, Skip
from .. import gen, model
from ..build import points, interval

RULE = ('non-trivial: the curve has at least three points and the range starts or ends between points, or has an open end, or a step or '
        'a coarse minimum step is given; distinct = distinct (facet, case)')
CASES = {'quick': 2600, 'thorough': 60000}
ASSUMPTIONS = ['positions of a fixed step start at the start of the range and are those floats represent exactly',
               'a minimum step coarser than the spacing is sampled like a derived curve: a walk from the start of the range, plus a closed end']

DEFAULT_MS = 1e-5


def in_iv(x, iv):
    return model.inside(x, iv)


def clip(a, b):
    """Intersection of two (start, end, start_open, end_open), or None"""
    if a is None or b is None:
        return None
    s = max(a[0], b[0])
    e = min(a[1], b[1])
    so = (a[0] == s and a[2]) or (b[0] == s and b[2])
    eo = (a[1] == e and a[3]) or (b[1] == e and b[3])
    if s > e or (s == e and (so or eo)):
        return None
    return (s, e, so, eo)


def walk(iv, nxt, ms):
    """Walk with a minimum step, with the closed ends."""
    s, e, so, eo = iv
    xs = [] if so else [s]
    if s == e:
        return xs
    x = nxt(s, ms)
    while x is not None and (x < e or (x == e and not eo)):
        xs.append(x)
        if x >= e:
            break
        x = nxt(x, ms)
    if not eo and (not xs or xs[-1] != e):
        xs.append(e)
    return xs


def stepped(iv, step):
    s, e, so, eo = iv
    xs = [] if so else [s]
    x = s + step
    i = 1
    while x < e or (x == e and not eo):
        if x != s + i * step:
            raise Skip('steps which floats do not represent exactly')
        xs.append(x)
        x += step
        i += 1
    return xs


def check_sample(c, got, exp_xs, value, scale, ctx, what):
    gx = [p[0] for p in got]
    ctx.check(gx == exp_xs, '{} has x {}, expected {}', what, gx, exp_xs)
    for x, y in got:
        ctx.check(close(y, value(x), 1e-9, scale), '{} has ({}, {}), expected value {}', what, x, y, value(x))
        own = ctx.sut('y', c.y, x)
        ctx.check(close(y, own, 1e-9, scale), '{} has ({}, {}), but y({}) = {}', what, x, y, x, own)


def check_range(c, ivl, ys, scale, ctx, what, **kw):
    r = ctx.sut('get_range', c.get_range, ivl, **kw)
    present = [y for y in ys if y is not None]
    if not present:
        ctx.check(r.is_empty, 'get_range of {} is {} without any value', what, r)
    else:
        ctx.check(not r.is_empty and close(r.start, min(present), 1e-9, scale) and close(r.end, max(present), 1e-9, scale)
                  and not r.start_open and not r.end_open, 'get_range of {} is {}, values {}', what, r, ys)


opt_range = st.one_of(st.none(), gen.rel_interval(), gen.rel_interval(), gen.rel_interval(),
                      st.tuples(st.just('whole'), st.booleans(), st.booleans()).map(list))
opt_step = st.one_of(st.none(), st.none(), st.tuples(st.just('gap'), st.sampled_from([1, 1, 0.5, 2, 0.75, 3])).map(list), st.sampled_from([1, 0.5, 0.25]).map(lambda v: ['abs', v]))
opt_ms = st.one_of(st.none(), st.none(), st.tuples(st.just('gap'), st.sampled_from([1, 0.5, 1.5, 2, 3])).map(list))


def rng(case, xs):
    r = case['r']
    if r is None:
        return None
    if r[0] == 'whole':
        return (xs[0], xs[-1], r[1], r[2]) if len(xs) > 1 else None
    return gen.resolve_interval(xs, r)


def gap(v, xs):
    if v is None:
        return None
    g = xs[1] - xs[0] if len(xs) > 1 else 1
    if v[0] == 'gap':
        return v[1] * g
    return v[1] if len(xs) > 1 and (xs[-1] - xs[0]) / v[1] < 300 else g


def st_points():
    return st.fixed_dictionaries({'s': gen.series(0, 12, gen.maybe_value), 'r': opt_range, 'step': opt_step, 'ms': opt_ms,
                                  'half': st.sampled_from(['', '', '', '>', '<'])})


@facet('points', st_points, weight=4)
def sample_points(case, ctx):
    s = case['s']
    pts = [tuple(p) for p in s['pts']]
    xs = [p[0] for p in pts]
    c = ctx.sut('Points', points, s)
    iv = rng(case, xs)
    if iv is not None and case['half'] == '>':
        iv = (iv[0], math.inf, iv[2], True)
    elif iv is not None and case['half'] == '<':
        iv = (-math.inf, iv[1], True, iv[3])
    step = gap(case['step'], xs)
    ms = gap(case['ms'], xs)
    if step is not None and ms is not None:
        ms = None
    kw = {}
    if step is not None:
        kw['step'] = step
    if ms is not None:
        kw['min_step'] = ms
    whole = (xs[0], xs[-1], False, False) if xs else None
    w = clip(whole, iv) if iv is not None else whole
    mingap = min([b - a for a, b in zip(xs, xs[1:])], default=None)
    if w is None:
        exp = []
    elif step is not None and len(xs) > 1:
        exp = stepped(w, step)
    elif step is not None:
        exp = xs
    elif ms is not None and mingap is not None and ms > mingap:
        exp = walk(w, lambda x, m: model.step_next(xs, x, m), ms)
    else:
        exp = [x for x in xs if in_iv(x, w)]
    val = lambda x: model.lookup(pts, x, s['interp'])
    what = f'sample of {pts} over {iv} with {kw}'
    ivl = None if iv is None else interval(iv)
    got = ctx.sut(what, c.sample_points, ivl, **kw)
    scale = model.scale_of(pts)
    check_sample(c, got, exp, val, scale, ctx, what)
    check_range(c, ivl, [val(x) for x in exp], scale, ctx, what, **({} if ms is None and step is None else kw))
    ctx.nontrivial(len(xs) >= 3 and (iv is not None and (iv[2] or iv[3] or iv[0] not in xs or iv[1] not in xs) or step is not None or ms is not None))
    ctx.label('step' if step else 'min_step' if ms else 'plain', 'even' if model.evenly_spaced(xs) else 'uneven', 'empty' if not exp else 'found')


def st_derived():
    return st.fixed_dictionaries({'s': gen.series(2, 10, gen.value), 'r': opt_range, 'step': opt_step, 'ms': opt_ms,
                                  'd': st.sampled_from([0, 1, -0.5, 3]), 'open': st.booleans(),
                                  'kind': st.sampled_from(['map', 'offset', 'add', 'integral', 'ema', 'tmax', 'neg']),
                                  'before': st.booleans()})


@facet('derived', st_derived, weight=4)
def derived(case, ctx):
    s = case['s']
    pts = [tuple(p) for p in s['pts']]
    xs = [p[0] for p in pts]
    c = ctx.sut('Points', points, s)
    k = case['kind']
    d = case['d']
    own = lambda x: model.lookup(pts, x, s['interp'])
    lin = lambda table: (lambda x: model.lookup(table, x, 0))
    if k == 'map':
        e, val = c.map(lambda x, y: y + x), lambda x: own(x) + x
    elif k == 'neg':
        e, val = -c, lambda x: -own(x)
    elif k == 'offset':
        e, val = c.offset(d), lambda x: own(x - d)
        xs = [x + d for x in xs]
    elif k == 'add':
        # half open operand: the sum excludes its last point
        cut = (xs[0], xs[-1], False, True) if case['open'] else (xs[0], xs[-1], False, False)
        from curvepy import Constant
        e, val = c + Constant(d, domain=interval(cut)), lambda x: own(x) + d
    elif k == 'integral':
        e, val = c.integral(uniform=False), lin(model.integral(pts))
    elif k == 'ema':
        e, val = c.ema(0.25, uniform=False), lin(model.ema(pts, alpha=0.25))
    else:
        e, val = c.trailing_max(2, uniform=False), lin([(x, max(model.window_degree(pts, 2, j))) for j, (x, _) in enumerate(pts)])
    iv = rng(case, xs)
    step = gap(case['step'], xs)
    ms = gap(case['ms'], xs) if step is None else None
    kw = {}
    if step is not None:
        kw['step'] = step
    if ms is not None:
        kw['min_step'] = ms
    whole = (xs[0], xs[-1], False, bool(k == 'add' and case['open']))
    w = clip(whole, iv) if iv is not None else whole
    if w is None:
        exp = []
    elif step is not None:
        exp = stepped(w, step)
    else:
        exp = walk(w, lambda x, m: model.step_next(xs, x, m), ms or DEFAULT_MS)
    what = f'sample of {k} {d} of {pts} over {iv} with {kw}'
    scale = model.scale_of(pts) * max(1, xs[-1] - xs[0]) + (max(abs(xs[0]), abs(xs[-1])) if k == 'map' else 0)
    ivl = None if iv is None else interval(iv)
    if case['before']:
        check_range(e, ivl, [val(x) for x in exp], scale, ctx, what, **kw)
    got = ctx.sut(what, e.sample_points, ivl, **kw)
    check_sample(e, got, exp, val, scale, ctx, what)
    check_range(e, ivl, [val(x) for x in exp], scale, ctx, what, **kw)
    ctx.nontrivial(len(xs) >= 3 and (iv is not None and (iv[2] or iv[3] or iv[0] not in xs or iv[1] not in xs) or step is not None or ms is not None))
    ctx.label(k, 'step' if step else 'min_step' if ms else 'plain')


def st_smooth():
    return st.fixed_dictionaries({
        'kind': st.sampled_from(['line', 'generic', 'sin', 'const', 'generic domain']),
        'a': st.integers(-20, 20), 'n': st.integers(0, 40).map(lambda k: k / 4), 'so': st.booleans(), 'eo': st.booleans(),
        'step': st.one_of(st.none(), st.sampled_from([0.25, 0.5, 0.75, 1, 2])),
        'ms': st.sampled_from([0.25, 0.5, 0.75, 1, 3]),
        'dom': st.tuples(st.integers(-20, 20), st.integers(1, 20), st.booleans(), st.booleans()).map(list),
        'inf': st.sampled_from(['', '', '', '', 'none', '>', '<', 'both'])})


@facet('smooth', st_smooth, weight=2)
def smooth(case, ctx):
    """Curves without points of their own: lines, constants, functions."""
    from curvepy import Line, Generic, Sin, Constant
    k = case['kind']
    whole = (-math.inf, math.inf, True, True)
    nxt = lambda x, m: x + m
    if k == 'line':
        c, val = Line(const=2, slope=-3), lambda x: 2 - 3 * x
        nxt = lambda x, m: math.inf
    elif k == 'const':
        c, val = Constant(7), lambda x: 7
        nxt = lambda x, m: math.inf
    elif k == 'sin':
        c, val = Sin(amplitude=2, period=8), lambda x: 2 * math.sin(x * math.pi / 4)
    else:
        f = lambda x: x * x - 1
        val = f
        if k == 'generic':
            c = Generic(f)
        else:
            d = case['dom']
            whole = (d[0], d[0] + d[1], d[2], d[3])
            c = Generic(f, domain=interval(whole))
    a = case['a']
    iv = (a, a + case['n'], case['so'] and case['n'] > 0, case['eo'] and case['n'] > 0)
    if case['inf'] == '>':
        iv = (a, math.inf, False, True)
    elif case['inf'] == '<':
        iv = (-math.inf, a, True, False)
    elif case['inf'] == 'both':
        iv = (-math.inf, math.inf, True, True)
    elif case['inf'] == 'none':
        iv = None
    w = clip(whole, iv) if iv is not None else whole
    kw = {'min_step': case['ms']}
    if case['step'] is not None:
        kw = {'step': case['step']}
    what = f'sample of {k} {case["dom"]} over {iv} with {kw}'
    ivl = None if iv is None else interval(iv)
    if w is not None and (math.isinf(w[0]) or math.isinf(w[1])):
        ctx.raises(what, c.sample_points, ivl, **kw)
        ctx.raises('range: ' + what, c.get_range, ivl, **kw)
        ctx.label('unbounded')
        return
    if w is None:
        exp = []
    elif case['step'] is not None:
        exp = stepped(w, case['step'])
    else:
        # the last step is shortened to the end
        def clipped(x, m):
            n = nxt(x, m)
            return min(n, w[1]) if n is not None and x < w[1] else None
        exp = walk(w, clipped, case['ms'])
    got = ctx.sut(what, c.sample_points, ivl, **kw)
    check_sample(c, got, exp, val, 1e3, ctx, what)
    check_range(c, ivl, [val(x) for x in exp], 1e3, ctx, what, **kw)
    ctx.nontrivial(len(exp) >= 3)
    ctx.label(k)


# -- expressions over functions, lines, waves and series ----------------------

WHOLE = (-math.inf, math.inf, True, True)
half = st.integers(-16, 16).map(lambda k: k / 2)


def st_leaf():
    ds = st.tuples(st.integers(-10, 4), st.integers(1, 16), st.booleans(), st.booleans()).map(list)
    return st.one_of(
        st.sampled_from([['fn'], ['line'], ['const'], ['sin']]),
        st.tuples(st.sampled_from(['fnd', 'constd']), ds).map(list),
        st.tuples(st.just('pts'), st.integers(-6, 2), st.lists(st.sampled_from([1, 2, 0.5, 3]), min_size=1, max_size=6), st.booleans()).map(list))


def st_expr():
    return st.recursive(st_leaf(), lambda c: st.one_of(
        st.tuples(st.just('offset'), c, half).map(list),
        st.tuples(st.sampled_from(['neg', 'map', 'ext']), c).map(list),
        st.tuples(st.sampled_from(['add', 'mul', 'max', 'first']), c, c).map(list),
        st.tuples(st.just('subset'), c, st.tuples(st.integers(-10, 6), st.integers(1, 12), st.booleans(), st.booleans()).map(list)).map(list),
        st.tuples(st.just('piece'), c, c, half, st.integers(1, 8), st.integers(1, 8)).map(list)), max_leaves=4)


def hull(a, b):
    if a is None or b is None:
        return a or b
    lo, hi = min(a[0], b[0]), max(a[1], b[1])
    return (lo, hi, all(d[2] for d in (a, b) if d[0] == lo), all(d[3] for d in (a, b) if d[1] == hi))


class Expr:
    """A curve, with the model of its values and domain.
    kind: 'fn' steps by the minimum step, 'straight' has no points, 'mixed'"""

    def __init__(self, e):
        from curvepy import Curve, Points, Line, Constant, Sin, Generic, Piecewise
        k = e[0]
        subs = [Expr(p) for p in e[1:] if isinstance(p, list) and p and isinstance(p[0], str)]
        c = [q.curve for q in subs]
        d = [q.dom for q in subs]
        v = [q.val for q in subs]
        self.kind = subs[0].kind if subs else 'fn'
        if any(q.kind != self.kind for q in subs):
            self.kind = 'mixed'
        # (a multiple of the step may be reached in shorter steps)
        if k == 'fn':
            self.curve, self.dom, self.val = Curve.parse(lambda x: x * x / 4 - 1), WHOLE, lambda x: x * x / 4 - 1
        elif k == 'line':
            self.curve, self.dom, self.val, self.kind = Line(const=2, slope=-3), WHOLE, lambda x: 2 - 3 * x, 'straight'
        elif k == 'const':
            self.curve, self.dom, self.val, self.kind = Constant(4), WHOLE, lambda x: 4, 'straight'
        elif k == 'sin':
            self.curve, self.dom, self.val = Sin(amplitude=2, period=8), WHOLE, lambda x: 2 * math.sin(x * math.pi / 4)
        elif k in ('fnd', 'constd'):
            a, w, ao, bo = e[1]
            self.dom = (a, a + w, ao, bo)
            if k == 'fnd':
                self.curve = Generic(lambda x: x + 1, domain=interval(self.dom))
                self.val = lambda x: x + 1 if model.inside(x, self.dom) else None
            else:
                self.curve, self.kind = Constant(3, domain=interval(self.dom)), 'straight'
                self.val = lambda x: 3 if model.inside(x, self.dom) else None
        elif k == 'pts':
            xs = [e[1]]
            for g in e[2]:
                xs.append(xs[-1] + (e[2][0] if e[3] else g))
            pts = [(x, (i * i) % 5) for i, x in enumerate(xs)]
            self.curve, self.dom, self.kind = Points(pts, uniform=e[3]), (xs[0], xs[-1], False, False), 'mixed'
            self.val = lambda x: model.lookup(pts, x, 0)
        elif k == 'offset':
            o = e[2]
            self.curve = c[0].offset(o)
            self.dom = d[0] and (d[0][0] + o, d[0][1] + o, *d[0][2:])
            self.val = lambda x: v[0](x - o)
        elif k == 'neg':
            self.curve, self.dom = c[0].map(lambda y: -y, skip_none=True), d[0]
            self.val = lambda x: none_or(lambda y: -y, v[0](x))
        elif k == 'map':
            self.curve, self.dom = c[0].map(lambda x, y: x + y, skip_none=True), d[0]
            self.val = lambda x: none_or(lambda y: x + y, v[0](x))
        elif k == 'ext':
            # constant beyond its ends
            self.curve = c[0].extension('constant', start=True, end=True)
            self.kind = 'mixed'
            self.dom = None if d[0] is None else WHOLE
            f, df = v[0], d[0]

            def ext(x):
                if df is None:
                    return None
                if model.inside(x, df):
                    return f(x)
                return f(df[0]) if x <= df[0] else f(df[1])
            self.val = ext
        elif k in ('add', 'mul', 'max', 'first'):
            if k == 'first':
                self.curve, self.dom = Curve.first(c), hull(*d)
                f = lambda p, q: p if p is not None else q
            else:
                self.dom = clip(*d)
                self.curve = c[0] + c[1] if k == 'add' else c[0] * c[1] if k == 'mul' else Curve.max(c)
                if k == 'max':
                    f = lambda p, q: max([y for y in (p, q) if y is not None], default=None)
                else:
                    f = lambda p, q: None if p is None or q is None else p + q if k == 'add' else p * q
            self.val = lambda x: f(v[0](x), v[1](x)) if self.dom is not None and model.inside(x, self.dom) else None
        elif k == 'subset':
            a, w, ao, bo = e[2]
            self.dom = (a, a + w, ao, bo)
            self.curve = c[0].subset(interval(self.dom))
            self.kind = 'fn' if self.kind == 'fn' else 'mixed'
            self.val = lambda x: v[0](x) if model.inside(x, self.dom) else None
        elif k == 'piece':
            x0, w1, w2 = e[3:]
            self.curve = Piecewise(c, [Interval.closed_open(x0 - w1, x0), Interval.closed(x0, x0 + w2)])
            self.dom = (x0 - w1, x0 + w2, False, False)
            self.kind = 'mixed'
            self.val = lambda x: None if not model.inside(x, self.dom) else v[0](x) if x < x0 else v[1](x)
        else:
            raise AssertionError(k)


def none_or(f, y):
    return None if y is None else f(y)


def has(e, *kinds):
    return e[0] in kinds or any(has(p, *kinds) for p in e[1:] if isinstance(p, list) and p and isinstance(p[0], str))


def st_expressions():
    return st.fixed_dictionaries({'e': st_expr().map(lambda e: ['neg', e] if e[0] == 'pts' else e), 'a': st.integers(-12, 8), 'n': st.integers(1, 16), 'so': st.booleans(), 'eo': st.booleans(),
                                  'step': st.one_of(st.none(), st.none(), st.sampled_from([0.5, 0.75, 2])), 'ms': st.sampled_from([0.25, 0.5, 0.75, 1, 3])})


@facet('expressions', st_expressions, weight=3)
def expressions(case, ctx):
    e = case['e']
    q = ctx.sut('building', Expr, e)
    a = case['a']
    iv = (a, a + case['n'], case['so'], case['eo'])
    w = clip(q.dom, iv)
    kw = {'min_step': case['ms']} if case['step'] is None else {'step': case['step']}
    what = f'sample of {e} over {iv} with {kw}'
    d = q.curve.domain
    ctx.check(d.is_empty if q.dom is None else not d.is_empty and (d.start, d.end, bool(d.start_open), bool(d.end_open)) == q.dom, 'domain of {} is {}, expected {}', e, d, q.dom)
    got = ctx.sut(what, q.curve.sample_points, interval(iv), **kw)
    xs = [p[0] for p in got]
    if w is None:
        ctx.check(xs == [], '{} has x {}, the domain is {}', what, xs, q.dom)
        return
    for x, y in got:
        ctx.check(close(y, q.val(x), 1e-9, 1e4), '{} has ({}, {}), expected value {}', what, x, y, q.val(x))
    ctx.check(all(p < n for p, n in zip(xs, xs[1:])), '{} has x {}', what, xs)
    ctx.check(all(model.inside(x, w) for x in xs), '{} has x {}, outside of {}', what, xs, w)
    ctx.check(w[2] or (xs and xs[0] == w[0]), '{} has x {}, without the start {}', what, xs, w[0])
    if case['step'] is not None:
        exp = stepped(w, case['step'])
        ctx.check(xs == exp, '{} has x {}, expected {}', what, xs, exp)
    else:
        ctx.check(w[3] or (xs and xs[-1] == w[1]), '{} has x {}, without the end {}', what, xs, w[1])
        ctx.check(all(n - p >= case['ms'] * (1 - 1e-9) for p, n in zip(xs, xs[1:]) if n != w[1]), '{} has x {}', what, xs)
        if q.kind == 'fn' and not has(e, 'first'):
            exp = walk(w, lambda x, m: min(x + m, w[1]) if x < w[1] else None, case['ms'])
            ctx.check(xs == exp, '{} has x {}, expected {}', what, xs, exp)
        elif q.kind == 'straight' and not w[2] and not w[3] and not has(e, 'first'):
            exp = sorted({w[0], w[1]})
            ctx.check(xs == exp, '{} has x {}, expected {}', what, xs, exp)
    check_range(q.curve, interval(iv), [p[1] for p in got], 1e4, ctx, what, **kw)
    ctx.nontrivial(len(xs) >= 3 and len(e) > 1)
    ctx.label('kind ' + q.kind, *[k for k in ('offset', 'ext', 'subset', 'piece', 'first', 'add', 'max', 'pts') if has(e, k)])


from .c03 import walk as from_x  # noqa: E402

FACETS = [from_x, sample_points, derived, smooth, expressions]
