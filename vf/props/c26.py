"""C26: anything curve-like is accepted as the curve it denotes."""
import math
from fractions import Fraction
from hypothesis import strategies as st
from ..core import facet, close
from .. import gen, model
from ..build import points, dom, interval, closed_dom, pts_of

RULE = 'non-trivial: a position inside and one outside of a limited domain, or an unlimited curve; distinct = distinct (facet, case)'
CASES = {'quick': 4000, 'thorough': 100000}
ASSUMPTIONS = ['None stands for no curve and is passed through by parse',
               'a subset is taken over a range inside the domain of the curve']

num = st.one_of(gen.small_int, gen.dyadic, st.sampled_from([1e6, -1e-3]))
INF = (-math.inf, math.inf, True, True)


def st_thing():
    return st.one_of(
        st.tuples(st.just('number'), num),
        st.tuples(st.just('numpy'), st.sampled_from(['int64', 'float64']), st.integers(-9, 9)),
        st.tuples(st.just('fraction'), st.integers(-9, 9)),
        st.tuples(st.just('function'), st.sampled_from(['lambda', 'def', 'method', 'partial', 'builtin', 'object']), st.integers(-4, 4)),
        st.tuples(st.just('pairs'), gen.uniform_xs(0, 6), gen.values(6), st.sampled_from(['tuples', 'lists', 'tuple of lists'])),
        st.tuples(st.just('curve'), st.sampled_from(['points', 'line', 'const', 'empty', 'map', 'sum', 'generic', 'sin']), gen.uniform_xs(1, 6), gen.values(6)),
        st.tuples(st.just('mapping'), st.sampled_from(['const', 'line', 'add']), st.integers(-9, 9), st.integers(-9, 9)),
    ).map(list)


class Callable:
    def __init__(self, k):
        self.k = k

    def __call__(self, x):
        return self.k * x + 1

    def method(self, x):
        return self.k * x + 1


def make(t, ctx):
    """-> (thing, value function or None for absent, domain, expected identity)"""
    from curvepy import Constant, Line, Points, Generic, Sin, Empty
    import functools
    k = t[0]
    if k == 'number':
        return t[1], lambda x: t[1], INF, None
    if k == 'numpy':
        import numpy as np
        return getattr(np, t[1])(t[2]), lambda x: t[2], INF, None
    if k == 'fraction':
        return Fraction(t[1], 4), lambda x: t[1] / 4, INF, None
    if k == 'function':
        n = t[2]
        f = lambda x: n * x + 1
        if t[1] == 'lambda':
            g = f
        elif t[1] == 'def':
            def g(x):
                return n * x + 1
        elif t[1] == 'method':
            g = Callable(n).method
        elif t[1] == 'partial':
            g = functools.partial(lambda a, x: a * x + 1, n)
        elif t[1] == 'builtin':
            g, f = abs, abs
        else:
            g = Callable(n)
        return g, f, INF, None
    if k == 'pairs':
        pts = list(zip(t[1], t[2]))
        form = {'tuples': pts, 'lists': [list(p) for p in pts], 'tuple of lists': tuple([list(p) for p in pts])}[t[3]]
        return form, lambda x: model.lookup(pts, x, 0), closed_dom([p[0] for p in pts]), None
    if k == 'mapping':
        a, b = t[2], t[3]
        if t[1] == 'const':
            return {'$const': a}, lambda x: a, INF, None
        if t[1] == 'line':
            return {'$line': {'const': a, 'slope': b}}, lambda x: a + b * x, INF, None
        return {'$add': [a, b]}, lambda x: a + b, INF, None
    pts = list(zip(t[2], t[3]))
    d = closed_dom([p[0] for p in pts])
    v = pts[0][1]
    c, f, d = {
        'points': lambda: (Points(pts), lambda x: model.lookup(pts, x, 0), d),
        'line': lambda: (Line(const=1, slope=v), lambda x: 1 + v * x, INF),
        'const': lambda: (Constant(v), lambda x: v, INF),
        'empty': lambda: (Empty(), lambda x: None, None),
        'map': lambda: (Points(pts).map(lambda y: 2 * y, skip_none=True), lambda x: None if model.lookup(pts, x, 0) is None else 2 * model.lookup(pts, x, 0), d),
        'sum': lambda: (Points(pts) + 1, lambda x: None if model.lookup(pts, x, 0) is None else 1 + model.lookup(pts, x, 0), d),
        'generic': lambda: (Generic(lambda x: x * x), lambda x: x * x, INF),
        'sin': lambda: (Sin(amplitude=2, period=4), lambda x: 2 * math.sin(math.pi / 2 * x), INF),
    }[t[1]]()
    return c, f, d, c


def st_parse():
    return st.fixed_dictionaries({'t': st_thing(), 'x': st.lists(num, min_size=1, max_size=5), 'q': gen.positions(8, 1, 4),
                                  'where': st.sampled_from(['parse', 'parse_many', 'add', 'radd', 'sub', 'rsub', 'mul', 'max', 'first', 'extremas', 'blend', 'piecewise'])})


@facet('parse', st_parse, weight=4)
def parse(case, ctx):
    from curvepy import Curve, Constant
    from curvepy.piecewise import Piecewise
    t = case['t']
    thing, f, d, same = ctx.sut('constructing', make, t, ctx)
    where = case['where']
    what = f'{where} of {t}'
    xs = list(case['x'])
    if t[0] in ('pairs', 'curve'):
        pxs = t[1] if t[0] == 'pairs' else t[2]
        xs += [gen.resolve(pxs, p) for p in case['q']] + pxs
    scale = 10 * max([1] + [abs(x) for x in xs]) ** 2 + 1e7
    g = f
    if where == 'parse':
        c = ctx.sut(what, Curve.parse, thing)
        ctx.check(isinstance(c, Curve), '{} is {!r}', what, c)
        ctx.check(same is None or c is same, '{} is another curve', what)
        ctx.check(dom(c) == d, '{}: domain {}, expected {}', what, dom(c), d)
    elif where == 'parse_many':
        cs = ctx.sut(what, Curve.parse_many, [thing, 3, thing])
        ctx.check(len(cs) == 3 and cs[1].y(0) == 3, '{} is {}', what, cs)
        c = cs[2]
    else:
        base = Constant(2)
        if where in ('radd', 'rsub') and (t[0] in ('pairs', 'mapping', 'numpy') or callable(thing) and t[0] != 'curve'):
            where = where[1:]       # lists and the like do not know curves
        lift = lambda h: lambda x: None if f(x) is None else h(f(x))
        if where == 'add':
            c, g = ctx.sut(what, lambda: base + thing), lift(lambda y: 2 + y)
        elif where == 'radd':
            c, g = ctx.sut(what, lambda: thing + base), lift(lambda y: 2 + y)
        elif where == 'sub':
            c, g = ctx.sut(what, lambda: base - thing), lift(lambda y: 2 - y)
        elif where == 'rsub':
            c, g = ctx.sut(what, lambda: thing - base), lift(lambda y: y - 2)
        elif where == 'mul':
            c, g = ctx.sut(what, lambda: base * thing), lift(lambda y: 2 * y)
        elif where == 'max':
            c, g = ctx.sut(what, Curve.max, [base, thing]), lift(lambda y: max(2, y))
        elif where == 'first':
            c, g = ctx.sut(what, Curve.first, [thing, base]), lambda x: 2 if f(x) is None else f(x)
        elif where == 'extremas':
            # accepted as a reference curve
            from curvepy.extremas import Extremas
            c = ctx.sut(what, lambda: Extremas(base, thing).ref_func)
        elif where == 'blend':
            line = ctx.sut('parse', Curve.parse, 5)
            c = ctx.sut(what, line.blend, thing, 1e13, 2e13)
            g = lambda x: 5
        else:
            c = ctx.sut(what, Piecewise, [thing, 7], [interval((-1e9, 1e9, False, True)), interval((1e9, 2e9, False, True))])
            xs = [x for x in xs if abs(x) < 1e9]
        if where not in ('first', 'blend', 'piecewise', 'extremas'):
            ctx.check(dom(c) == d, '{}: domain {}, expected {}', what, dom(c), d)
    present = absent = False
    for x in xs:
        got, exp = ctx.sut(f'{what}: y({x})', c.y, x), g(x)
        ctx.check(close(got, exp, 1e-9, scale if t[0] != 'pairs' else model.scale_of(list(zip(t[1], t[2])))), '{}: y({}) = {}, expected {}', what, x, got, exp)
        ctx.check(close(c(x), exp, 1e-9, scale), '{}: c({}) = {}, expected {}', what, x, c(x), exp)
        present = present or exp is not None
        absent = absent or exp is None
    ctx.nontrivial(present and (absent or d == INF))
    ctx.label(t[0], where)


BAD = ['abc', b'abc', '', [1, 2], [1], [(1, 2, 3)], [[1], [2]], ['ab', 'c'][:1] + [3], object(), {1, 2}, [None], [{'a': 1}], iter([]), range(3)]


@facet('rejected', lambda: st.fixed_dictionaries({'i': st.integers(0, len(BAD) - 1), 'where': st.sampled_from(['parse', 'add', 'max'])}), weight=0.3)
def rejected(case, ctx):
    from curvepy import Curve, Constant
    b = BAD[case['i']]
    if case['i'] == 2:
        # no characters: taken as an empty list of points
        return
    if isinstance(b, list) and b and isinstance(b[0], str) and len(b[0]) == 2:
        return
    f = {'parse': lambda: Curve.parse(b), 'add': lambda: Constant(1) + b, 'max': lambda: Curve.max([1, b])}[case['where']]
    ctx.raises(f'{b!r} as a curve', f)
    ctx.nontrivial()


def st_interval():
    return st.one_of(st.none(), st.tuples(st.integers(-8, 8), st.integers(0, 12), st.booleans(), st.booleans()).map(
        lambda t: [t[0] / 2, (t[0] + t[1]) / 2, bool(t[2] and t[1]), bool(t[3] and t[1])]))


def st_leaf():
    return st.fixed_dictionaries({'kind': st.sampled_from(['const', 'generic', 'generic of curve', 'empty', 'subset', 'subset']), 'd': st_interval(), 'half': st.sampled_from(['', '', '', '<', '>']), 'v': num,
                                  's': gen.series(3, 8, starts=[-4, -2, 0], steps=[1, 2, 0.5]), 'x': st.lists(st.integers(-24, 40).map(lambda k: k / 4), min_size=2, max_size=8),
                                  'r': gen.rel_interval(8), 'new': gen.value, 'app': gen.value, 'name': st.sampled_from(['Constant', 'const'])})


@facet('leaf', st_leaf, weight=4)
def leaf(case, ctx):
    from curvepy import Curve, Constant, Generic, Empty
    k = case['kind']
    d = tuple(case['d']) if case['d'] else None
    if d and case['half'] == '<':
        d = (-math.inf, d[1], True, d[3])
    elif d and case['half'] == '>':
        d = (d[0], math.inf, d[2], True)
    iv = {} if d is None else {'domain': interval(d)}
    exp_dom = d or INF
    v = case['v']
    pts = [tuple(p) for p in case['s']['pts']]
    xs = list(case['x']) + [x for x in (d[:2] if d else ()) if math.isfinite(x)]
    calls = []
    if k == 'const':
        c = ctx.sut('Constant', Constant, v, **iv) if iv or case['name'] == 'Constant' else ctx.sut('const', Curve.const, v)
        f = lambda x: v
    elif k == 'generic':
        def fun(x):
            calls.append(x)
            return x * x + v
        c = ctx.sut('Generic', Generic, fun, **iv)
        f = lambda x: x * x + v
    elif k == 'generic of curve':
        from curvepy import Line
        c = ctx.sut('Generic', Generic, Line(const=v, slope=2), **iv)
        f = lambda x: v + 2 * x
    elif k == 'empty':
        c = ctx.sut('empty', Curve.empty) if case['name'] == 'const' else ctx.sut('Empty', Empty)
        f = lambda x: None
        exp_dom = None
    else:
        src = ctx.sut('Points', points, case['s'])
        px = [p[0] for p in pts]
        d = gen.resolve_interval(px, case['r'])
        d = (max(d[0], px[0]), min(d[1], px[-1]), d[2], d[3])
        if d[0] > d[1] or (d[0] == d[1] and (d[2] or d[3])):
            return
        c = ctx.sut('subset', src.subset, interval(d))
        f = lambda x: model.lookup(pts, x, case['s']['interp'])
        exp_dom = d
        xs = [gen.resolve(px, p) for p in case['r'][:2]] + px + [d[0], d[1]]
    what = f'{k} {v} over {d}'

    def verify():
        nonlocal ins, outs
        ctx.check(dom(c) == exp_dom, '{}: domain {}, expected {}', what, dom(c), exp_dom)
        for x in xs:
            inside = exp_dom is not None and model.inside(x, exp_dom)
            exp = f(x) if inside else None
            del calls[:]
            got = ctx.sut(f'{what}: y({x})', c.y, x)
            ctx.check(close(got, exp, 1e-9, model.scale_of(pts)), '{}: y({}) = {}, expected {}', what, x, got, exp)
            if k == 'generic':
                ctx.check(calls == ([x] if inside else []), '{}: y({}) called its function with {}', what, x, calls)
            if k == 'const':
                ctx.check(c.d_y(x) == 0 and c.d_y(x, forward=True) == 0, '{}: slope at {} is {}', what, x, c.d_y(x))
            if k == 'empty':
                ctx.check(c.d_y(x) is None, '{}: slope at {} is {}', what, x, c.d_y(x))
            ins = ins or inside
            outs = outs or not inside

    ins = outs = False
    verify()
    if k == 'empty':
        ctx.check(ctx.sut('sample_points', c.sample_points) == [] and c.first_point() is None and c.last_point() is None, 'samples of an empty curve')
    if k == 'const':
        # constants can be changed
        log = []
        c.add_observer(begin=lambda i: log.append(('begin', i)), end=lambda i: log.append(('end', i, c.value)))
        new = case['new']
        old = v
        c.value = new
        v = new
        if new == old:
            ctx.check(log == [], 'the same value announced {}', log)
        else:
            ctx.check([e[0] for e in log] == ['begin', 'end'] and log[1][2] == new, 'changing a constant announced {}', log)
        what = f'{k} changed to {v} over {d}'
        verify()
        if d is None:
            z = ctx.sut('zero', Constant.zero)
            ctx.check(z.y(5) == 0 and dom(z) == INF, 'zero is {} over {}', z.y(5), dom(z))
    if k == 'subset':
        # follows its source
        log = []
        c.add_observer(begin=lambda: log.append(1), end=lambda: log.append(2))
        p = (pts[1][0], case['app'])
        ctx.sut('replace', src.replace, p)
        pts[1] = p
        ctx.check(1 in log and 2 in log, 'a change of the source was not announced by its subset')
        what += ' after an edit'
        verify()
    ctx.nontrivial((ins and outs) or (ins and exp_dom == INF) or k == 'empty')
    ctx.label(k)


FACETS = [parse, rejected, leaf]
