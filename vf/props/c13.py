"""C13: exponential and smoothed moving averages follow their recurrence."""
from hypothesis import strategies as st
from ..core import facet
from .. import gen, model
from ..accum import st_source, source, verify, st_coarse, coarse, verify_coarse
from ..build import closed_dom

RULE = 'non-trivial: at least three points, read between points; distinct = distinct (facet, case)'
CASES = {'quick': 1800, 'thorough': 50000}
ASSUMPTIONS = ['smoothed averages: every value is present', 'uniform=False is given for unevenly spaced sources']


def st_ema():
    return st.fixed_dictionaries({
        'base': st_source(gen.maybe_value),
        'alpha': st.sampled_from([0.5, 0.25, 1, 0.1, 1 / 3, 0.9]),
        'period': st.one_of(st.none(), st.sampled_from([1, 2, 3.5, 10])),
        'init': st.sampled_from(['', '', '', 'number', 'function', 'points', 'curve']), 'siblings': st.booleans()})


@facet('ema', st_ema, weight=3)
def ema(case, ctx):
    from curvepy import Points
    b = case['base']
    c, pts, uniform = source(b, ctx)
    xs = [x for x, _ in pts]
    init = None
    kw = {}
    k = case['init']
    if k == 'number':
        kw['init'], init = 7, lambda x: 7
    elif k == 'function':
        kw['init'], init = (lambda x: x * 2), (lambda x: x * 2)
    elif k == 'curve':
        kw['init'], init = c, dict(pts).get
    elif k == 'points' and len(xs) >= 3:
        # a curve which has no value yet at the first point
        tail = [(x, 100) for x in xs[1:]]
        kw['init'], init = Points(tail, uniform=False), dict(tail).get
    if not uniform:
        kw['uniform'] = False
    others = []
    if case['siblings']:
        # the same fraction started otherwise, another fraction, a period
        others = [c.ema(case['alpha'], init=3, uniform=uniform), c.ema(case['alpha'] / 2, uniform=uniform), c.ema(case['alpha'], is_period=True, uniform=uniform)]
    if case['period'] is not None:
        p = case['period'] * (xs[1] - xs[0] if len(xs) > 1 else 1)
        e = ctx.sut('ema', c.ema, p, is_period=True, **kw)
        table = model.ema(pts, period=p, init=init)
        what = f'ema(period {p}, init {k}) of {pts}'
    else:
        e = ctx.sut('ema', c.ema, case['alpha'], **kw)
        table = model.ema(pts, alpha=case['alpha'], init=init)
        what = f'ema({case["alpha"]}, init {k}) of {pts}'
    scale = max([model.scale_of(pts), model.scale_of(table)] + ([abs(2 * xs[-1])] if xs and k == 'function' else []))
    verify(e, table, 0, closed_dom(xs), b, ctx, what, scale=scale, others=others)
    ctx.label('period' if case['period'] else 'alpha', 'init ' + k)


def st_smma():
    return st.fixed_dictionaries({'base': st_source(gen.value), 'n': st.integers(1, 6)})


@facet('smma', st_smma, weight=1)
def smma(case, ctx):
    b = case['base']
    c, pts, uniform = source(b, ctx)
    xs = [x for x, _ in pts]
    n = case['n']
    e = ctx.sut('smma', c.smma, n, uniform=uniform)
    start = dict(model.sma_degree(pts, n))
    table = model.ema(pts, alpha=1 / n, init=start.get)
    gap = min([q - p for p, q in zip(xs, xs[1:])], default=1)
    scale = model.scale_of(pts) * max(1, (xs[-1] - xs[0]) / gap if xs else 1)
    verify(e, table, 0, closed_dom(xs), b, ctx, f'smma({n}) of {pts}', scale=scale)
    ctx.label('n=%d' % n)


def st_step():
    return st.fixed_dictionaries({**st_coarse(), 'alpha': st.sampled_from([0.5, 0.25, 1, 0.1]), 'period': st.sampled_from([None, 1, 3.5, 10]),
                                  'init': st.sampled_from([None, None, 7]), 'smma': st.sampled_from([0, 0, 1, 2, 3])})


@facet('coarse step', st_step, weight=0.3)
def step(case, ctx):
    from curvepy import Points
    c, pts, visited, m = coarse(case, ctx)
    n = case['smma']
    if n:
        e = ctx.sut('smma', c.smma, n, min_step=m, uniform=case['uniform'])
        ref = Points(visited).smma(n)
        return verify_coarse(e, ref, visited, case, ctx, f'smma({n}) of {pts} in steps of {m}', scale=model.scale_of(pts))
    p = case['period']
    w = case['alpha'] if p is None else p * case['k'] * case['gap']
    kw = {'is_period': p is not None, 'uniform': case['uniform'], 'init': case['init']}
    e = ctx.sut('ema', c.ema, w, min_step=m, **kw)
    ref = Points(visited).ema(w, **kw)
    verify_coarse(e, ref, visited, case, ctx, f'ema({w}, {kw}) of {pts} in steps of {m}', scale=model.scale_of(pts))


FACETS = [ema, smma, step]
