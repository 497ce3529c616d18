"""C12: a simple moving average is the mean over its window."""
from hypothesis import strategies as st
from ..core import facet, close
from .. import gen, model
from ..accum import st_source, source, verify, st_coarse, coarse, verify_coarse
from ..build import closed_dom, dom

RULE = 'non-trivial: at least three averaged points over windows of at least two points, read between points; distinct = distinct (facet, case)'
CASES = {'quick': 1500, 'thorough': 40000}
ASSUMPTIONS = ['every value is present', 'uniform=False is given for unevenly spaced sources',
               'the window of a period p holds the points less than p before x']


def st_case():
    return st.fixed_dictionaries({
        'base': st_source(gen.value), 'degree': st.integers(1, 8),
        'period': st.one_of(st.none(), st.sampled_from([0.5, 1, 1.5, 2, 2.5, 3, 4.25, 7])),
        'siblings': st.booleans()})


@facet('mean', st_case, weight=3)
def mean(case, ctx):
    b = case['base']
    c, pts, uniform = source(b, ctx)
    xs = [x for x, _ in pts]
    kw = {} if uniform else {'uniform': False}
    others = []

    def sibling(w, **k):
        if case['siblings']:
            others.append(ctx.sut('sma', c.sma, w, **kw, **k))

    if case['period'] is None:
        n = case['degree']
        sibling(n, is_period=True)
        e = ctx.sut('sma', c.sma, n, **kw)
        sibling(n + 1)
        table = model.sma_degree(pts, n)
        what = f'sma({n}) of {pts}'
        ctx.label('degree')
    else:
        p = case['period'] * (xs[1] - xs[0] if len(xs) > 1 else 1)
        sibling(max(1, int(p)))
        e = ctx.sut('sma', c.sma, p, is_period=True, **kw)
        sibling(p * 2, is_period=True)
        table = model.sma_period(pts, p)
        n = 2
        what = f'sma(period {p}) of {pts}'
        ctx.label('period')
    span = (xs[-1] - xs[0]) if xs else 0
    gap = min([q - p for p, q in zip(xs, xs[1:])], default=1)
    # the mean is a difference of areas accumulated from the start
    scale = model.scale_of(pts) * max(1, span / gap)
    # over one point the curve itself, however it is interpolated
    mode = b['s']['interp'] if case['period'] is None and n == 1 else 0
    verify(e, table, mode, closed_dom([x for x, _ in table]), b, ctx, what, tol=1e-9, scale=scale, src_xs=xs, others=others)
    if n == 1:
        for x, y in pts:
            ctx.check(close(e.y(x), y), '{}: y({}) = {} but the curve has {}', what, x, e.y(x), y)
    ctx.is_nontrivial = ctx.is_nontrivial and n > 1
    ctx.label('uniform' if uniform else 'free', 'averaged=%d' % min(len(table), 3))


def st_step():
    return st.fixed_dictionaries({**st_coarse(), 'degree': st.integers(1, 4), 'period': st.booleans(),
                                  # positions between the steps read first: see known_findings.json
                                  'off': st.just([])})


@facet('coarse step', st_step, weight=0.3)
def step(case, ctx):
    from curvepy import Points
    c, pts, visited, m = coarse(case, ctx)
    w = case['degree']
    if case['period']:
        # less than a step more than the window holds
        w *= case['k'] * case['gap']
    kw = {'is_period': case['period'], 'uniform': case['uniform']}
    e = ctx.sut('sma', c.sma, w, min_step=m, **kw)
    ref = Points(visited).sma(w, **kw)
    for i in case['off']:
        ctx.sut('y', e.y, pts[i][0])
    span = visited[-1][0] - visited[0][0]
    verify_coarse(e, ref, visited, case, ctx, f'sma({w}, {kw}) of {pts} in steps of {m}', between=False, scale=model.scale_of(pts) * max(1, span / case['gap']))


FACETS = [mean, step]
