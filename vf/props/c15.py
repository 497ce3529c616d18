"""C15: extremas are the turning points relative to the reference curve."""
from hypothesis import strategies as st
from ..core import facet, close
from .. import gen, model
from ..build import points, dom, closed_dom, settle

RULE = 'non-trivial: at least three confirmed extremas; distinct = distinct (facet, case)'
CASES = {'quick': 2200, 'thorough': 60000}
ASSUMPTIONS = ['the reference is nowhere zero (the deviation is relative to it)', 'among equal values of a run the first is the extremum']

price = st.one_of(st.integers(1, 20), st.integers(1, 20), st.integers(1, 160).map(lambda k: k / 8))


@st.composite
def wave(draw):
    """Series that crosses its reference often"""
    s = draw(gen.series(0, 24, price))
    if draw(st.booleans()):
        for i, p in enumerate(s['pts']):
            if (i // draw(st.integers(1, 2))) % 2:
                p[1] = p[1] + 12
    if draw(st.integers(0, 4)) == 0:
        for p in s['pts']:
            if draw(st.integers(0, 5)) == 0:
                p[1] = None
    return s


def st_case():
    return st.fixed_dictionaries({
        's': gen.lived(wave()),
        'ref': st.sampled_from(['const', 'const', 'const', 'line', 'points', 'sma', 'function', 'short']),
        'below': st.sampled_from([False, False, False, True]),
        'level': st.sampled_from([10, 12, 8.5, 3]),
        'dev': st.sampled_from([0, 0, 0.1, 0.25, -0.25, 1]),
        'q': gen.positions(24, 0, 8), 'ms': st.sampled_from([0.5, 1, 2, 7]),
        'order': st.sampled_from(['q', 'up', 'down', 'sample', 'domain'])})


def reference(pts, ref, dev):
    """Run-based: split the relevant points into runs by side, take the most
    extreme of each run that was followed by another run."""
    rel = []
    for x, y in pts:
        r = ref(x)
        if y is None or r is None or abs(y / r - 1) <= dev:
            continue
        rel.append((x, y, y > r))
    runs = []
    for x, y, up in rel:
        if not runs or runs[-1][0] != up:
            runs.append((up, []))
        runs[-1][1].append((x, y))
    out = []
    for up, ps in runs[:-1]:
        best = max(y for _, y in ps) if up else min(y for _, y in ps)
        out.append((next(p for p in ps if p[1] == best)))
    return out


@facet('turning points', st_case)
def extremas(case, ctx):
    from curvepy import Points, Line
    from curvepy.extremas import Extremas
    s = case['s']
    if case['ref'] == 'line' and s.get('past') and s['past'][0] in ('other', 'tail', 'head'):
        s = dict(s, past=None)      # the line may have been zero there
    # a reference below zero: everything mirrored
    sign = -1 if case['below'] else 1
    s = dict(s, pts=[[x, y if y is None else sign * y] for x, y in s['pts']])
    pts = [tuple(p) for p in s['pts']]
    xs = [p[0] for p in pts]
    c = ctx.sut('Points', points, s)
    k = case['ref']
    L = sign * case['level']
    has_none = any(y is None for _, y in pts)
    if k == 'sma' and (has_none or len(pts) < 3):
        k = 'const'
    if k in ('points', 'short') and len(pts) < 3:
        k = 'const'
    if k == 'const':
        ref, f = L, lambda x: L
    elif k == 'function':
        ref, f = (lambda x: L + sign * (x % 2)), lambda x: L + sign * (x % 2)
    elif k == 'line':
        x0 = xs[0] if xs else 0
        span = (xs[-1] - x0 or 1) if xs else 1
        ref = Line(p1=(x0, L), p2=(x0 + span, L + 4 * sign))
        f = lambda x: L + 4 * sign * (x - x0) / span
    elif k == 'sma':
        tab = dict(model.sma_degree(pts, 3))
        ref, f = c.sma(3, uniform=s['uniform']), tab.get
    else:
        tab = [(x, L + sign * (i % 3)) for i, x in enumerate(xs)]
        if k == 'short':
            tab = tab[1:-1]
        ref, f = Points(tab, uniform=False), dict(tab).get
    dev = abs(case['dev'])
    # a point within rounding of the decision is not compared
    for x, y in pts:
        r = f(x)
        if y is not None and r is not None:
            if r == 0 or abs(abs(y / r - 1) - dev) < 1e-9 and not (k in ('const', 'points', 'short', 'function') and dev in (0, 0.25, 1)):
                ctx.label('left out: on the edge of the deviation')
                return
    e = ctx.sut('Extremas', Extremas, c, ref, min_deviation=case['dev'])
    exp = reference(pts, f, dev)
    settle(ctx, c, e)
    what = f'extremas of {pts} relative to {k} {L} by {case["dev"]}'
    qs = [gen.resolve(xs, p) for p in case['q']]
    if case['order'] == 'up':
        qs = sorted(qs + xs)
    elif case['order'] == 'down':
        qs = sorted(qs + xs, reverse=True)
    elif case['order'] == 'sample':
        ctx.sut('sample', e.sample_points)
        qs = qs + xs
    else:
        if case['order'] == 'domain':
            ctx.check(dom(e) == closed_dom(xs), '{}: domain {}', what, dom(e))
        qs = qs + xs
    for x in qs:
        got = ctx.sut(f'y({x})', e.y, x)
        want = model.lookup(exp, x, 0)
        ctx.check(close(got, want, 1e-9, 40), '{}: y({}) = {}, expected {}; extremas {}', what, x, got, want, exp)
    got = [tuple(p) for p in ctx.sut('sample_points', e.sample_points)]
    ctx.check(len(got) == len(exp) and all(close(g, w, 1e-9, 40) for g, w in zip(got, exp)), '{}: sampled {}, expected {}', what, got, exp)
    got = [tuple(p) for p in e.extremas]
    ctx.check(got == exp, '{}: list {}, expected {}', what, got, exp)
    ctx.check(dom(e) == closed_dom(xs), '{}: domain {}', what, dom(e))
    # once everything was read, steps visit the extremas from the first to the
    # last one, and the points of the curve elsewhere
    exs = [p[0] for p in exp]
    for x in qs:
        for m in (1e-5, case['ms']):
            to = x + m
            want = model.step_next(exs if exs and exs[0] <= to <= exs[-1] else xs, x, m)
            got = ctx.sut('x_next', e.x_next, x, min_step=m)
            ctx.check(got == want, '{}: x_next({}, min_step={}) = {}, expected {}; extremas {}', what, x, m, got, want, exs)
            to = x - m
            want = model.step_prev(exs if exs and exs[0] <= to <= exs[-1] else xs, x, m)
            got = ctx.sut('x_previous', e.x_previous, x, min_step=m)
            ctx.check(got == want, '{}: x_previous({}, min_step={}) = {}, expected {}; extremas {}', what, x, m, got, want, exs)
    ctx.nontrivial(len(exp) >= 3)
    ctx.label('below zero' if sign < 0 else 'above zero', k, 'dev %g' % dev, 'found %d' % min(len(exp), 4))


FACETS = [extremas]
