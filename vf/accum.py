"""Shared by the accumulating curves: sources and verification."""
from hypothesis import strategies as st
from .core import close
from . import gen, model
from .build import points, dom, closed_dom, settle


def st_source(v=gen.value, max_size=14, min_size=0):
    return st.fixed_dictionaries({
        's': gen.lived(st.one_of(gen.series(4, max_size, v), gen.series(4, max_size, v), gen.series(min_size, max_size, v))),
        'src': st.sampled_from(['points', 'points', 'points', 'map', 'offset', 'sum']),
        'q': gen.positions(14, 1, 8),
        'order': st.sampled_from(['q', 'q', 'up', 'down', 'domain']),
        'shuffle': st.integers(0, 5)})


def source(case, ctx):
    """-> (curve, its points, uniform)"""
    s = case['s']
    pts = [tuple(p) for p in s['pts']]
    c = ctx.sut('Points', points, s)
    ctx.base = c
    k = case['src']
    lift = lambda y, f: None if y is None else f(y)
    if k == 'map':
        c = c.map(lambda y: None if y is None else y + 1)
        pts = [(x, lift(y, lambda y: y + 1)) for x, y in pts]
    elif k == 'offset':
        c = c.offset(2)
        pts = [(x + 2, y) for x, y in pts]
    elif k == 'sum':
        c = c + 1
        pts = [(x, lift(y, lambda y: y + 1)) for x, y in pts]
    return c, pts, s['uniform']


def read_order(case, xs):
    qs = [gen.resolve(xs, p) for p in case['q']]
    k = case['order']
    if k == 'up':
        return sorted(qs + xs)
    if k == 'down':
        return sorted(qs + xs, reverse=True)
    if xs and case['shuffle']:
        r = case['shuffle'] % len(xs)
        return qs + xs[r:] + xs[:r]
    return qs + xs


def verify(e, table, mode, exp_dom, case, ctx, what, tol=1e-9, scale=1.0, src_xs=None, others=()):
    """table: [(x, y)] expected at the points; between them `mode` applies.
    Outside of the table there must be no value."""
    ctx.edited = settle(ctx, ctx.base, *others, e)
    txs = [x for x, _ in table]
    src_xs = txs if src_xs is None else src_xs
    if case['order'] == 'domain':
        ctx.check(dom(e) == exp_dom, '{}: domain is {}, expected {}', what, dom(e), exp_dom)
    between = False
    for x in read_order(case, src_xs):
        got = ctx.sut(f'y({x!r})', e.y, x)
        exp = model.lookup(table, x, mode)
        ctx.check(close(got, exp, tol, scale), '{}: y({!r}) = {!r}, expected {!r} (of {})', what, x, got, exp, table)
        if txs and txs[0] < x < txs[-1] and x not in txs:
            between = True
    ctx.check(dom(e) == exp_dom, '{}: domain is {}, expected {}', what, dom(e), exp_dom)
    got = ctx.sut('sample_points', e.sample_points)
    ctx.check([p[0] for p in got] == txs, '{}: sampled at {}, expected {}', what, [p[0] for p in got], txs)
    for (x, y), (_, exp) in zip(got, table):
        ctx.check(close(y, exp, tol, scale), '{}: sample ({!r}, {!r}), expected {!r} (of {})', what, x, y, exp, table)
    ctx.label(case['src'], 'read ' + case['order'])
    ctx.nontrivial(len(txs) >= 3 and between)
    if between:
        ctx.label('between')


def st_coarse(max_k=4):
    """An evenly spaced series and a multiple of its spacing as the step of the accumulating curve."""
    return {'k': st.integers(2, max_k), 'n': st.integers(1, 7), 'extra': st.sampled_from([0, 0, 0.25, 0.5]),
            'ys': st.lists(gen.value, min_size=1, max_size=30), 'x0': st.sampled_from([0, 3, -7, 0.5, 100]), 'gap': st.sampled_from([1, 1, 0.5, 3, 60]),
            'map': st.booleans(), 'uniform': st.booleans(), 'q': gen.positions(8, 1, 6), 'order': st.sampled_from(['q', 'up', 'down'])}


def coarse(case, ctx):
    """-> (curve, its points, the points visited, the step asked for).
    The step is rounded up to the next point."""
    from curvepy import Points
    k, n, g = case['k'], case['n'], case['gap']
    ys = case['ys']
    pts = [(case['x0'] + i * g, ys[i % len(ys)]) for i in range(n * k + 1)]
    c = Points(pts, uniform=case['uniform'])
    if case['map']:
        c = c.map(lambda y: y + 1)
        pts = [(x, y + 1) for x, y in pts]
    return c, pts, pts[::k], (k - case['extra']) * g


def verify_coarse(e, ref, visited, case, ctx, what, between=True, scale=1.0):
    """The curve with the step answers like the same curve over the points visited."""
    xs = [x for x, _ in visited]
    qs = [gen.resolve(xs, p) for p in case['q']] if between else []
    qs += xs
    if case['order'] == 'up':
        qs.sort()
    elif case['order'] == 'down':
        qs.sort(reverse=True)
    for x in qs:
        if not between and x not in xs:
            continue
        got, exp = ctx.sut(f'y({x})', e.y, x), ref.y(x)
        ctx.check(close(got, exp, 1e-9, scale), '{}: y({}) = {}, over every {}. point it is {}', what, x, got, case['k'], exp)
    got = ctx.sut('sample_points', e.sample_points)
    exp = ref.sample_points()
    ctx.check([p[0] for p in got] == [p[0] for p in exp] and all(close(a[1], b[1], 1e-9, scale) for a, b in zip(got, exp)),
              '{}: sampled {}, over every {}. point {}', what, got, case['k'], exp)
    ctx.nontrivial(len(xs) >= 3 and len(set(case['ys'])) > 1)
