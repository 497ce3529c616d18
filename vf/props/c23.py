"""C23: regression is the least-squares line of the sampled points."""
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import facet, close
from .. import gen, model
from ..build import points, interval, settle
from .c04 import clip, stepped

RULE = ('non-trivial: at least three sampled points that are not on one line, or a range that leaves points out; distinct = distinct (facet, case)')
CASES = {'quick': 3500, 'thorough': 90000}
ASSUMPTIONS = ['the sampled points are those of sample_points (C04): for derived curves also the closed ends of the range']


def st_case():
    return st.fixed_dictionaries({
        's': gen.lived(st.one_of(gen.series(0, 12, gen.value), gen.series(3, 12, gen.tame_value), gen.series(0, 8, gen.maybe_value))),
        'line': st.one_of(st.none(), st.none(), st.none(), st.tuples(st.integers(-9, 9), st.integers(-40, 40)).map(list)),
        'r': st.one_of(st.none(), gen.rel_interval(), gen.rel_interval()),
        'src': st.sampled_from(['points', 'points', 'map']), 'step': st.sampled_from([None, None, None, 0.5, 1.5]),
        'x': gen.positions(14, 1, 4), 'k': st.sampled_from([2, -3, 0.5]), 't': st.integers(-9, 9)})


def fit(ps):
    n = len(ps)
    xs = [F(x) for x, _ in ps]
    ys = [F(y) for _, y in ps]
    mx, my = sum(xs) / n, sum(ys) / n
    sxx = sum((x - mx) ** 2 for x in xs)
    m = sum((x - mx) * (y - my) for x, y in zip(xs, ys)) / sxx
    return m, mx, my


@facet('regression', st_case)
def regression(case, ctx):
    s = case['s']
    pts = [tuple(p) for p in s['pts']]
    xs = [p[0] for p in pts]
    if case['line']:
        # collinear points
        m, b = case['line']
        x0 = xs[0] if xs else 0
        pts = [(x, m * (x - x0) + b) for x in xs]
        s = dict(s, pts=[list(p) for p in pts])
    base = c = ctx.sut('Points', points, s)
    mapped = case['src'] == 'map'
    if mapped:
        c = c.map(lambda y: y)
    iv = None if case['r'] is None else gen.resolve_interval(xs, case['r'])
    r = clip(iv, (xs[0], xs[-1], False, False)) if iv and xs else (xs[0], xs[-1], False, False) if xs else None
    kw = {}
    if r is None:
        ps = []
    elif case['step'] is not None and xs:
        step = case['step'] * (xs[1] - xs[0] if len(xs) > 1 else 1)
        kw['step'] = step
        ps = [(x, model.lookup(pts, x, s['interp'])) for x in stepped(r, step)]
    else:
        ps = [p for p in pts if model.inside(p[0], r)]
        if mapped:
            for x in (r[0], r[1]):
                if model.inside(x, r) and x not in [p[0] for p in ps]:
                    ps.append((x, model.lookup(pts, x, s['interp'])))
            ps.sort(key=lambda p: p[0])
    what = f'regression over {iv} {kw} of {pts}'
    dom_arg = [] if iv is None else [interval(iv)]
    if s.get('past'):
        ctx.sut('regression before', c.regression, *dom_arg, **kw)
        settle(ctx, base, c)
    l = ctx.sut(what, c.regression, *dom_arg, **kw)
    if len(ps) < 2 or any(y is None for _, y in ps):
        ctx.check(l is None, '{}: {} from {}', what, l, ps)
        ctx.label('absent')
        return
    ctx.check(l is not None, '{}: absent, but sampled {}', what, ps)
    m, mx, my = fit(ps)
    w = max(p[0] for p in ps) - min(p[0] for p in ps)
    scale = model.scale_of(ps)
    ulp = abs(float(m)) * max(abs(xs[0]), abs(xs[-1])) * 1e-6        # the line is kept by its value at 0
    tol = lambda x: (scale + ulp) * max(1, abs(x - float(mx)) / w)
    ctx.check(abs(l.slope - float(m)) <= 1e-9 * scale / w * 10, '{}: slope {}, expected {}', what, l.slope, float(m))
    for x in [gen.resolve(xs, p) for p in case['x']] + [ps[0][0], ps[-1][0]]:
        got, exp = ctx.sut('y', l.y, x), float(my + m * (F(x) - mx))
        ctx.check(close(got, exp, 1e-9, tol(x)), '{}: y({}) = {}, expected {}', what, x, got, exp)
    if case['line'] and (s['interp'] == 0 or len(ps) <= len([p for p in pts if p in ps])):
        for x, y in ps:
            ctx.check(close(l.y(x), y, 1e-9, tol(x)), '{}: y({}) = {} off the collinear points', what, x, l.y(x))
    if len(ps) == 2:
        for x, y in ps:
            ctx.check(close(l.y(x), y, 1e-9, tol(x)), '{}: y({}) = {} off the two points {}', what, x, l.y(x), ps)
    # no smaller sum of squares nearby
    sq = lambda f: sum((f(F(x)) - F(y)) ** 2 for x, y in ps)
    best = sq(lambda x: my + m * (x - mx))
    # values scaled and shifted
    k, t = case['k'], case['t']
    if mapped or iv is None or case['step'] is not None:
        l2 = ctx.sut('regression', c.map(lambda y: None if y is None else k * y + t).regression, *dom_arg, **kw)
        ctx.check(abs(l2.slope - k * float(m)) <= 1e-8 * (abs(k) * scale + abs(t)) / w * 10, '{}: slope {} of {} y + {}', what, l2.slope, k, t)
        x = ps[0][0]
        ctx.check(close(l2.y(x), k * float(my + m * (F(x) - mx)) + t, 1e-8, (abs(k) + 1) * tol(x) + abs(t)), '{}: y {} of {} y + {}', what, l2.y(x), k, t)
    ctx.nontrivial((len(ps) >= 3 and best > 0) or len(ps) < len(pts))
    ctx.label(case['src'], 'collinear' if best == 0 else 'scattered')


FACETS = [regression]
