"""C28: impossible requests are refused and leave no trace."""
import gc
import math
from hypothesis import strategies as st
from intervalpy import Interval
from ..core import facet, close
from .. import gen
from ..build import points, pts_of, dom

RULE = ('non-trivial: at least two requests, one of them of a curve in use by a subscriber and another derived curve, followed by a change; '
        'distinct = distinct (facet, case)')
CASES = {'quick': 1600, 'thorough': 40000}
ASSUMPTIONS = ['a request is refused when making it, or else reading the value at and the points over the range of what it returned, raises',
               'which exception is raised is not specified']

# name -> strategy for its parameter
frac = st.sampled_from([0.5, 1.5, 2.25, -0.5])
small = st.sampled_from([0.5, 0.25, -0.5, -1.5])
neg = st.integers(-4, 0)
no_degree = st.one_of(neg, small)
no_period = st.one_of(st.sampled_from([0, -1, -0.25, -10, 0.0]), st.integers(-4, 0))
junk = st.sampled_from(['x', 'curve', [], [1], {'a': 1}, [[1]]])
FORMS = ['none', 'number', 'no args', 'three args', 'text']
KINDS = [
    ('interpolation', st.sampled_from([7, -2, 2, 'linear', 'previous', 0.5])),
    ('map', st.sampled_from(FORMS)), ('accumulator_map', st.sampled_from(FORMS)),
    ('accumulator degree', no_degree), ('accumulator period', no_period),
    ('trailing min', no_degree), ('trailing max', no_degree), ('trailing min period', no_period), ('trailing max period', no_period),
    ('sma', no_degree), ('sma period', no_period), ('smma', no_degree), ('smma period', no_period), ('centered sma', no_degree),
    ('rsi smma', neg),
    ('offset', frac), ('offset duration', st.sampled_from(['blah', '1 foo', '-', 'day day'])),
    ('extension', st.sampled_from(['nope', 'Tangent', '', 'linear'])),
    ('regression degree', neg), ('regression period', no_period), ('regression both', st.tuples(st.integers(1, 3), st.integers(1, 3)).map(list)),
    ('sin extension', st.none()), ('sin extension period', no_period),
    ('piecewise', st.tuples(st.integers(0, 3), st.integers(0, 3)).filter(lambda t: t[0] != t[1]).map(list)),
    ('add', junk), ('radd', junk), ('sub', junk), ('mul', junk), ('div', junk), ('pow', junk), ('min', junk), ('max', junk), ('first', junk), ('parse', junk),
    ('append', junk.filter(lambda v: isinstance(v, str))),
    ('ema init', st.sampled_from(['x', 'first', {'a': 1}])), ('extremas', st.sampled_from(['x', 'curve'])),
    ('sample step', no_period), ('sample infinite', st.sampled_from(['line', 'const', 'extension', 'lt', 'gt'])),
    ('observer', st.sampled_from(['number', 'text', 'no object'])),
    ('observer end', st.sampled_from(['number', 'text', 'no object'])),
    ('line', st.sampled_from(['slope', 'nothing', 'one point'])), ('sin', st.sampled_from(['amplitude', 'period', 'nothing', 'zero period'])),
    ('subset', st.sampled_from(['x', 'ab'])), ('generic', st.sampled_from(['x'])),
    ('uneven append', st.sampled_from([2, 3, 4, 5, 1.01, 1.001])), ('append back', st.integers(0, 5)), ('replace outside', st.sampled_from([-1, 1])),
    ('uneven set', st.sampled_from([2, 3, 4, 5, 1.01, 1.001])), ('uneven reset', st.integers(1, 5)),
    ('quotes', st.sampled_from(['foo', '1 foo'])),
]
CHOICES = [st.tuples(st.just(n), s).map(list) for n, s in KINDS]


def st_case():
    return st.fixed_dictionaries({
        's': gen.series(2, 8, gen.value, starts=[0, 1, -3, 2.5, 100]),
        'src': st.sampled_from(['points', 'points', 'map', 'sum']),
        'reqs': st.lists(st.one_of(*CHOICES), min_size=1, max_size=5),
        'y': gen.value, 'keep': st.sampled_from([True, False, False])})


def fn(form):
    return {'none': None, 'number': 5, 'no args': lambda: 1, 'three args': lambda a, b, c: 1, 'text': 'min'}[form]


def request(kind, p, c):
    """The request as a function; it may return a curve to be read"""
    from curvepy import Curve, Points, Line, Sin, Constant, Generic, Quotes, Piecewise
    from curvepy.extremas import Extremas
    if kind.startswith('observer'):
        what = 'end' if kind == 'observer end' else 'begin'
        if p == 'no object':
            return lambda: c.add_observer(autoremove=True, **{what: lambda: None})
        return lambda: c.add_observer(**{what: fn(p)})
    if kind == 'sample infinite':
        return {'line': lambda: Line(const=0, slope=1).sample_points(), 'const': lambda: Constant(1).sample_points(),
                'extension': lambda: c.extension('constant', start=True, end=True).sample_points(),
                'lt': lambda: Line(const=1, slope=2).sample_points(domain=Interval.lt(3)),
                'gt': lambda: Line(const=1, slope=2).sample_points(domain=Interval.gt(3))}[p]
    return {
        'interpolation': lambda: Points([(0, 1), (1, 2)], interpolation=p),
        'map': lambda: c.map(fn(p)),
        'accumulator_map': lambda: c.accumulator_map(fn(p), 2),
        'accumulator degree': lambda: c.accumulator_map(min, p),
        'accumulator period': lambda: c.accumulator_map(min, p, is_period=True),
        'trailing min': lambda: c.trailing_min(p), 'trailing max': lambda: c.trailing_max(p),
        'trailing min period': lambda: c.trailing_min(p, is_period=True), 'trailing max period': lambda: c.trailing_max(p, is_period=True),
        'sma': lambda: c.sma(p), 'sma period': lambda: c.sma(p, is_period=True), 'smma': lambda: c.smma(p), 'smma period': lambda: c.smma(p, is_period=True),
        'centered sma': lambda: c.centered_sma(p),
        'rsi smma': lambda: c.rsi(p, ema=False),
        'offset': lambda: c.offset(p, duration='day'), 'offset duration': lambda: c.offset(1, duration=p),
        'extension': lambda: c.extension(p),
        'regression degree': lambda: c.extension('tangent', regression_degree=p), 'regression period': lambda: c.extension('tangent', regression_period=p),
        'regression both': lambda: c.extension('tangent', regression_degree=p[0], regression_period=p[1]),
        'sin extension': lambda: c.extension('sin'), 'sin extension period': lambda: c.extension('sin', period=p),
        'piecewise': lambda: Piecewise([c] * p[0], [Interval(i, i + 1) for i in range(p[1])]),
        'add': lambda: c + p, 'radd': lambda: p + c, 'sub': lambda: c - p, 'mul': lambda: c * p, 'div': lambda: c / p, 'pow': lambda: c ** p,
        'min': lambda: Curve.min([c, p]), 'max': lambda: Curve.max([c, p]), 'first': lambda: Curve.first([c, p]), 'parse': lambda: Curve.parse(p),
        'append': lambda: Curve.add_many(c, p),
        'ema init': lambda: c.ema(0.5, init=p), 'extremas': lambda: Extremas(c, p),
        'sample step': lambda: (c + 1).sample_points(min_step=p),
        'line': {'slope': lambda: Line(slope=1), 'nothing': lambda: Line(), 'one point': lambda: Line(p1=(0, 1))}.get(p),
        'sin': {'amplitude': lambda: Sin(amplitude=1), 'period': lambda: Sin(period=1), 'nothing': lambda: Sin(), 'zero period': lambda: Sin(amplitude=1, period=0, phase=0)}.get(p),
        'subset': lambda: c.subset(p), 'generic': lambda: Generic(lambda x: x, domain=p),
        'quotes': lambda: Quotes(p),
    }[kind]


def edit_request(kind, p, base, s, xs):
    """An edit that must be refused; False where it would be fine, None for other kinds"""
    gap = xs[1] - xs[0]
    last = xs[-1]
    if kind == 'append back':
        return lambda: base.append((xs[-1 - p % len(xs)], 5))
    if kind == 'replace outside':
        return lambda: base.replace(((last + gap) if p > 0 else (xs[0] - gap), 5))
    if kind in ('uneven append', 'uneven set', 'uneven reset') and not s['uniform']:
        return False
    if kind == 'uneven append':
        return lambda: base.append_list([(last + gap, 1), (last + p * gap + gap, 2)] if p % 2 else [(last + p * gap, 5)])
    if kind == 'uneven set':
        return lambda: base.set([(0, 1), (1, 2), (1 + p, 3)])
    if kind == 'uneven reset':
        if len(xs) < 3:
            return False
        i = 1 + p % (len(xs) - 2)
        return lambda: base.reset(Interval.closed(xs[i], xs[i]))
    return None


@facet('refusal', st_case)
def refusal(case, ctx):
    from curvepy import Curve
    base = ctx.sut('Points', points, case['s'])
    c = {'points': lambda: base, 'map': lambda: base.map(lambda y: y), 'sum': lambda: base + 0}[case['src']]()
    other = ctx.sut('derived', lambda: c.integral(uniform=False) if case['s']['uniform'] is False else c.integral())
    heard = []
    c.add_observer(begin=lambda d: heard.append('begin'), end=lambda d: heard.append('end'))
    before, before_other, before_dom = pts_of(c), pts_of(other), dom(c)
    kept = []
    xs = [x for x, _ in case['s']['pts']]
    for kind, p in case['reqs']:
        ctx.label(kind)
        result = None
        edit = edit_request(kind, p, base, case['s'], xs)
        if edit is False:
            continue
        try:
            result = (edit or request(kind, p, c))()
            if isinstance(result, Curve):
                d = result.domain
                result.y(case['s']['pts'][-1][0])
                result.y(d.end if not d.is_empty else 0)
                result.sample_points(domain=Interval(*[case['s']['pts'][i][0] for i in (0, -1)]))
        except (Exception, AssertionError) as e:
            # what an abandoned request left in memory does not matter to the curve
            if case['keep']:
                kept.append(e)
        else:
            ctx.fail(f"{kind} ({p!r}) of {before} is not refused: {result!r}")
    if not case['keep']:
        gc.collect(0)
        gc.collect(1)
    ctx.check(heard == [], '{}: refused requests announced {}', case['reqs'], heard)
    ctx.check(pts_of(c) == before and dom(c) == before_dom, '{}: refused requests changed the points {} to {}', case['reqs'], before, pts_of(c))
    ctx.check(pts_of(other) == before_other, '{}: refused requests changed a derived curve', case['reqs'])
    pts = case['s']['pts']
    x = pts[-1][0] + (pts[-1][0] - pts[-2][0])
    ctx.sut('append', base.append, (x, case['y']))
    ctx.check(heard == ['begin', 'end'], '{}: after refused requests a change is announced as {}', case['reqs'], heard)
    fresh = pts_of(points(dict(case['s'], pts=pts + [[x, case['y']]], uniform=False)).integral(uniform=False))
    got = pts_of(other)
    ctx.check(len(got) == len(fresh) and all(close(a[1], b[1], 1e-9, 1) for a, b in zip(got, fresh)), '{}: after refused requests a derived curve is {}, expected {}', case['reqs'], got, fresh)
    ctx.nontrivial(len(case['reqs']) > 1)


FACETS = [refusal]
