"""C17: piecewise and blended curves select and mix by position."""
import math
from fractions import Fraction as F
from hypothesis import strategies as st
from intervalpy import Interval
from ..core import facet, close
from .. import gen, model
from ..build import points, dom, interval, settle

RULE = ('non-trivial: piecewise - at least two sub-ranges of which one holds at least two points of its curve; '
        'blend - a position strictly inside the blend range; distinct = distinct (facet, case)')
CASES = {'quick': 3000, 'thorough': 70000}
ASSUMPTIONS = ['sub-ranges are given in ascending order without overlap, as documented',
               'a blend range lies inside the domain of the first curve',
               'closed ends of a sub-range count as points of the piecewise curve']


def st_func():
    return st.one_of(
        st.tuples(st.just('points'), gen.lived(gen.series(1, 9, gen.maybe_value, starts=[0, -3, 1, 2.5], steps=[1, 0.5, 2]))),
        st.tuples(st.just('points'), gen.lived(gen.series(4, 9, gen.value, starts=[0, -3, -10], steps=[1, 2, 3]))),
        st.tuples(st.just('const'), gen.small_int),
        st.tuples(st.just('line'), gen.small_int, gen.small_int)).map(list)


def make(spec, ctx):
    from curvepy import Line, Constant
    if spec[0] == 'points':
        return ctx.sut('Points', points, spec[1])
    if spec[0] == 'const':
        return Constant(spec[1])
    return Line(const=spec[1], slope=spec[2])


def value(spec, x):
    if spec[0] == 'points':
        return model.lookup([tuple(p) for p in spec[1]['pts']], x, spec[1]['interp'])
    if spec[0] == 'const':
        return spec[1]
    return spec[1] + spec[2] * x


@st.composite
def st_piecewise(draw):
    n = draw(st.integers(1, 5))
    funcs = draw(st.lists(st_func(), min_size=n, max_size=n))
    same = draw(st.sampled_from([False, False, True]))
    # cuts on a half grid; gap kinds between consecutive ranges
    a = draw(st.integers(-8, 3))
    ivs = []
    x = a / 2
    for i in range(n):
        w = draw(st.integers(0, 9)) / 2
        so, eo = draw(st.booleans()), draw(st.booleans())
        if w == 0:
            so = eo = False
            if ivs and ivs[-1][1] == x and not ivs[-1][3]:
                x += 0.5
        elif ivs and ivs[-1][1] == x and not ivs[-1][3]:
            so = True
        ivs.append([x, x + w, so, eo])
        x = x + w + draw(st.sampled_from([0, 0, 0, 0.5, 1, 3]))
    if draw(st.integers(0, 7)) == 0:
        ivs[-1][1:] = [ivs[-1][0] + 1e6, ivs[-1][2], True]
        ivs[-1][1] = None
    return {'f': funcs, 'iv': ivs, 'same': same, 'q': draw(st.lists(st.integers(-12, 50), min_size=1, max_size=10)),
            'ms': draw(st.sampled_from([1e-5, 1e-5, 0.25, 0.5, 1, 2]))}


@facet('piecewise', st_piecewise, weight=5)
def piecewise(case, ctx):
    from curvepy.piecewise import Piecewise
    ivs = [(a, math.inf if b is None else b, so, eo) for a, b, so, eo in case['iv']]
    specs = case['f']
    if case['same']:
        specs = [specs[i % 2 if len(specs) > 1 else 0] for i in range(len(specs))]
        made = {}
        curves = []
        for i in range(len(specs)):
            k = i % 2
            if k not in made:
                made[k] = make(specs[i], ctx)
            curves.append(made[k])
    else:
        curves = [make(s, ctx) for s in specs]
    p = ctx.sut('Piecewise', Piecewise, curves, [interval(t) for t in ivs])
    what = f'piecewise {list(zip(specs, ivs))}'
    exp_dom = (ivs[0][0], ivs[-1][1], ivs[0][2], ivs[-1][3])
    ctx.check(dom(p) == exp_dom, '{}: domain {}, expected {}', what, dom(p), exp_dom)
    for c in curves:
        settle(ctx, c, p)
    cands = set()
    busy = False
    for s, t in zip(specs, ivs):
        if not t[2]:
            cands.add(t[0])
        if not t[3]:
            cands.add(t[1])
        if s[0] == 'points':
            inner = [q[0] for q in s[1]['pts'] if model.inside(q[0], t)]
            cands.update(inner)
            busy = busy or len(inner) >= 2
    cands = sorted(cands)
    scale = max([1.0] + [model.scale_of([tuple(q) for q in s[1]['pts']]) for s in specs if s[0] == 'points'])
    qs = [q / 4 for q in case['q']] + cands
    for x in qs:
        exp = None
        for s, t in zip(specs, ivs):
            if model.inside(x, t):
                exp = value(s, x)
        got = ctx.sut(f'y({x})', p.y, x)
        ctx.check(close(got, exp, 1e-9, scale), '{}: y({}) = {}, expected {}', what, x, got, exp)
    for x in qs:
        for fwd in (True, False):
            ms = case['ms']
            if fwd:
                got = ctx.sut(f'x_next({x})', p.x_next, x, min_step=ms)
                exp = model.step_next(cands, x, ms)
            else:
                got = ctx.sut(f'x_previous({x})', p.x_previous, x, min_step=ms)
                exp = model.step_prev(cands, x, ms)
            if got is not None and math.isinf(got) and ivs[-1][1] == math.inf and exp is None:
                continue        # constants and lines step to infinity
            ok = got == exp
            ctx.check(ok, '{}: step {} from {} by at least {} gives {}, points {}', what, 'forward' if fwd else 'back', x, ms, got, cands)
    ctx.nontrivial(len(ivs) >= 2 and busy)
    if any(b[0] > a[1] for a, b in zip(ivs, ivs[1:])):
        ctx.label('gap')


def st_blend():
    return st.fixed_dictionaries({
        'a': gen.lived(gen.series(3, 10, gen.maybe_value, starts=[0, -3, 1, 100, -1000], steps=[1, 0.5, 2, 60]), ['value', 'set']),
        'b': st.one_of(st.tuples(st.just('points'), gen.lived(gen.series(2, 10, gen.maybe_value, starts=[0, -3, 1], steps=[1, 2]))),
                       st.tuples(st.just('values'), gen.values(10, gen.maybe_value)),
                       st.tuples(st.just('const'), gen.small_int), st.tuples(st.just('line'), gen.small_int, gen.small_int)).map(list),
        # the first curve is a function over a range of open or closed ends
        'lim': st.one_of(st.none(), st.tuples(st.booleans(), st.booleans()).map(list)),
        'r': st.tuples(gen.pos(10), gen.pos(10)).map(list), 'q': gen.positions(12, 1, 8)})


@facet('blend', st_blend, weight=3)
def blend(case, ctx):
    pts = [tuple(p) for p in case['a']['pts']]
    xs = [p[0] for p in pts]
    a, b = sorted([gen.resolve(xs, p) for p in case['r']])
    so, eo = case.get('lim') or (False, False)
    if not (xs[0] < a < b <= xs[-1]) or eo and b == xs[-1]:
        ctx.label('left out: blend range not inside')
        return
    spec = case['b']
    if spec[0] == 'values':
        spec = ['points', {'pts': [[x, y] for x, y in zip(xs, spec[1])], 'uniform': case['a']['uniform'], 'interp': 0}]
    if case.get('lim'):
        from curvepy import Generic
        c1 = ctx.sut('Generic', Generic, lambda x: model.lookup(pts, x, case['a']['interp']), domain=interval((xs[0], xs[-1], so, eo)))
    else:
        c1 = ctx.sut('Points', points, case['a'])
    c2 = make(spec, ctx)
    c = ctx.sut('blend', c1.blend, c2, a, b)
    # a function has no points to be sampled at
    read = () if case.get('lim') else (c,)
    settle(ctx, c1, *read)
    settle(ctx, c2, *read)
    ctx.check(dom(c) == (xs[0], xs[-1], so, eo), 'blend domain {}, that of the first curve {}', dom(c), (xs[0], xs[-1], so, eo))
    seen = False
    scale = model.scale_of(pts) * 10
    if spec[0] == 'line':
        scale += abs(spec[2]) * max(abs(xs[0]), abs(xs[-1])) * 10
    for x in [gen.resolve(xs, p) for p in case['q']] + [a, b, (a + b) / 2]:
        got = ctx.sut(f'y({x})', c.y, x)
        y1 = model.lookup(pts, x, case['a']['interp'])
        y2 = value(spec, x)
        if not model.inside(x, (xs[0], xs[-1], so, eo)):
            exp = None
        elif x < a:
            exp = y1
        elif x >= b:
            exp = y2
        elif y1 is None or y2 is None:
            exp = None
        else:
            u = (F(x) - F(a)) / (F(b) - F(a))
            exp = float((1 - u) * F(y1) + u * F(y2))
            seen = True
        ctx.check(close(got, exp, 1e-9, scale), 'blend of {} into {} over {}..{}: y({}) = {}, expected {}', pts, spec, a, b, x, got, exp)
    ctx.nontrivial(seen)


FACETS = [piecewise, blend]
