"""C11: the integral of a point series is its accumulated area."""
from hypothesis import strategies as st
from ..core import facet
from .. import gen, model
from ..accum import st_source, source, verify, st_coarse, coarse, verify_coarse
from ..build import closed_dom

RULE = 'non-trivial: at least three accumulated points, read between points; distinct = distinct (facet, case)'
CASES = {'quick': 2400, 'thorough': 60000}
ASSUMPTIONS = ['source with a finite start (nothing is accumulated from minus infinity)', 'uniform=False is given for unevenly spaced sources']


def st_case():
    return st.fixed_dictionaries({
        'base': st_source(gen.maybe_value), 'const': st.sampled_from([0, 0, 5, -2.5, 1000]),
        'interp': st.sampled_from([None, 0, -1, 1]), 'siblings': st.booleans()})


@facet('area', st_case)
def area(case, ctx):
    b = case['base']
    c, pts, uniform = source(b, ctx)
    kw = {}
    if case['interp'] is not None:
        kw['interpolation'] = case['interp']
    others = [c.integral(const=case['const'] + 1, uniform=uniform), c.integral(interpolation=1, uniform=uniform)] if case['siblings'] else []
    e = ctx.sut('integral', c.integral, const=case['const'], uniform=uniform, **kw)
    table = model.integral(pts, case['const'], case['interp'] or 0)
    span = (pts[-1][0] - pts[0][0]) if pts else 0
    scale = model.scale_of(pts) * max(1, span) + abs(case['const'])
    verify(e, table, 0, closed_dom([x for x, _ in pts]), b, ctx, f'integral {kw} of {pts}', scale=scale, others=others)
    ctx.label('mode %s' % case['interp'], 'uniform' if uniform else 'free')
    if any(y is None for _, y in pts):
        ctx.label('absent values')


def st_step():
    return st.fixed_dictionaries({**st_coarse(), 'interp': st.sampled_from([None, 0, -1, 1]), 'const': st.sampled_from([0, 5, -2.5])})


@facet('coarse step', st_step, weight=0.25)
def step(case, ctx):
    from curvepy import Points
    from curvepy.integral import Integral
    c, pts, visited, m = coarse(case, ctx)
    kw = {'const': case['const'], 'interpolation': case['interp'], 'uniform': case['uniform']}
    e = ctx.sut('Integral', Integral, c, min_step=m, **kw)
    ref = Integral(Points(visited), **kw)
    span = visited[-1][0] - visited[0][0]
    verify_coarse(e, ref, visited, case, ctx, f'integral {kw} of {pts} in steps of {m}', scale=model.scale_of(pts) * max(1, span))


FACETS = [area, step]
