"""C25: composite indicators equal the combination that defines them."""
import math
from hypothesis import strategies as st
from ..core import facet, close
from .. import gen, model
from ..build import points, dom, closed_dom, settle
from ..accum import st_coarse, coarse, verify_coarse
from ..calendar_model import boundary, UNIFORM

RULE = ('non-trivial: rsi - both rises and falls within the series; oscillators and averages - at least three values defined; trailing - at least four bars '
        'and a window shorter than the series; distinct = distinct (facet, case)')
CASES = {'quick': 1000, 'thorough': 25000}
ASSUMPTIONS = ['every value is present', 'the relative strength is 100 where nothing fell yet, also when nothing rose',
               'uniform=False is given for unevenly spaced sources']


def st_rsi():
    return st.fixed_dictionaries({'s': gen.lived(st.one_of(gen.series(2, 12, gen.tame_value, interps=(0,)), gen.series(1, 25, gen.pos_value, interps=(0,)))), 'n': st.integers(1, 14),
                                  'q': gen.positions(14, 1, 5), 'scale': st.sampled_from([2, 10, 0.5]), 'shift': st.integers(-50, 50)})


@facet('rsi', st_rsi, weight=3)
def rsi(case, ctx):
    s, n = case['s'], case['n']
    pts = [tuple(p) for p in s['pts']]
    xs = [p[0] for p in pts]
    kw = {} if s['uniform'] else {'uniform': False}
    c = ctx.sut('Points', points, s)
    r = ctx.sut('rsi', c.rsi, n, **kw)
    r1 = ctx.sut('rsi', c.rsi, n + 1, **kw)
    settle(ctx, c, r1, r)
    up, down = [], []
    for i, (x, y) in enumerate(pts):
        d = (y - pts[i - 1][1]) / (x - xs[i - 1]) if i else 0
        for t, v in ((up, max(d, 0)), (down, max(-d, 0))):
            t.append(v if not t else t[-1] + (v - t[-1]) / n)
    what = f'rsi({n}) of {pts}'
    ref = {x: 100 if d == 0 else 100 - 100 / (1 + u / d) for x, u, d in zip(xs, up, down)}
    # positions first, in any order: reading between points must not matter
    for x in [gen.resolve(xs, p) for p in case['q']] + xs:
        got = ctx.sut(f'y({x})', r.y, x)
        if x < xs[0] or x > xs[-1]:
            ctx.check(got is None, '{}: y({}) = {} outside', what, x, got)
            continue
        ctx.check(got is not None and -1e-9 <= got <= 100 + 1e-9, '{}: y({}) = {}', what, x, got)
        if x in ref:
            ctx.check(close(got, ref[x], 1e-7, 100), '{}: y({}) = {}, expected {}', what, x, got, ref[x])
    ctx.check(dom(r) == closed_dom(xs), '{}: domain {}', what, dom(r))
    # neither scale nor level of the values matter
    k, t = case['scale'], case['shift']
    s2 = dict(s, past=None, pts=[[x, k * y + t] for x, y in pts])
    r2 = ctx.sut('rsi', points(s2).rsi, n, **kw)
    for x in xs:
        ctx.check(close(r2.y(x), ref[x], 1e-6, 100), '{}: {} at {} for values times {} plus {}', what, r2.y(x), x, k, t)
    ctx.nontrivial(up[-1] > 0 and down[-1] > 0)


def st_bars():
    return st.fixed_dictionaries({'name': st.sampled_from(['1d', '1d', '1h', '1M', '1s']), 'k0': st.integers(0, 12),
                                  'n': st.one_of(st.integers(30, 42), st.integers(4, 20)), 'mid': st.lists(st.integers(8, 80), min_size=6, max_size=10), 'w': st.lists(st.integers(0, 7), min_size=3, max_size=5),
                                  'what': st.sampled_from(['ao', 'ao', 'jaw', 'teeth', 'lips', 'high', 'low', 'high', 'low']), 'deg': st.integers(1, 6), 'period': st.booleans(),
                                  'q': st.lists(st.tuples(st.integers(-2, 50), st.sampled_from([0, 0, 0.5, 0.25])).map(list), min_size=1, max_size=6), 'cut': st.integers(0, 5)})


@facet('bars', st_bars, weight=4)
def bars(case, ctx):
    from curvepy.quotes import Quotes
    name = case['name']
    n = case['n'] if case['what'] != 'ao' else max(case['n'], 30)
    T = [boundary(name, case['k0'] + i) for i in range(n + 10)]
    mids = [case['mid'][(i * (1 + i // 7)) % len(case['mid'])] / 4 for i in range(n)]
    ws = [case['w'][i % len(case['w'])] / 8 for i in range(n)]
    rows = [(T[i], [mids[i], mids[i] + ws[i], mids[i] - ws[i], mids[i] + ws[i] / 2, i]) for i in range(n)]
    early = n - min(case['cut'], n - 1)
    q = ctx.sut('Quotes', Quotes, name, quote_points=rows[:early])
    uniform = name in UNIFORM
    w = case['what']
    pts = [(T[i], mids[i]) for i in range(n)]
    mode = 0
    shift = 0
    if w == 'ao':
        e = ctx.sut('ao', q.ao)
        f34 = dict(model.sma_degree(pts, 34))
        table = [(x, y - f34[x]) for x, y in model.sma_degree(pts, 5) if x in f34]
    elif w in ('jaw', 'teeth', 'lips'):
        lines = ctx.sut('alligator', q.alligator)
        ctx.check(len(lines) == 3, 'alligator has {} lines', len(lines))
        i = ['jaw', 'teeth', 'lips'].index(w)
        e = lines[i]
        shift = [8, 5, 3][i]
        table = [(T[T.index(x) + shift], y) for x, y in model.sma_degree(pts, [13, 8, 5][i])]
    else:
        d = case['deg']
        period = case['period'] and uniform
        arg = d * (T[1] - T[0]) if period else d
        e = ctx.sut('trailing', q.trailing_high if w == 'high' else q.trailing_low, arg, **({'is_period': True} if period else {}))
        k = d + 1 if period else d
        table = [(T[i], (max if w == 'high' else min)(r[1][1 if w == 'high' else 2] for r in rows[max(0, i - k + 1):i + 1])) for i in range(n)]
        mode = -1
    if early < n:
        # more bars after the indicator was built (and partly read)
        e.y(T[min(early, n - 1)])
        ctx.sut('append_list', q.append_list, rows[early:])
    txs = [x for x, _ in table]
    what = f'{w} of {n} bars of {name}, {rows}'
    qs = []
    for i, f in case['q']:
        i = min(max(i, 0), len(T) - 2)
        qs.append(T[i] + f * (T[i + 1] - T[i]))
    qs += [T[0] - 1] + txs[-4:] + txs[:3]
    for x in qs:
        got = ctx.sut(f'y({x})', e.y, x)
        exp = model.lookup(table, x, mode)
        if shift and not uniform and x not in txs:
            continue        # months are stretched between boundaries (C10)
        ctx.check(close(got, exp, 1e-7, 20), '{}: y({}) = {}, expected {}', what, x, got, exp)
    ctx.check(dom(e) == closed_dom(txs), '{}: domain {}, expected {}', what, dom(e), closed_dom(txs))
    ctx.nontrivial(len(table) >= 3 and (w not in ('high', 'low') or case['deg'] < n))
    ctx.label(w, name)


def st_family():
    return st.fixed_dictionaries({'s': gen.lived(gen.series(8, 16, gen.tame_value, interps=(0,))), 'base': st.integers(1, 3), 'count': st.integers(1, 4), 'stride': st.sampled_from([None, 0, 1, 2]),
                                  'which': st.sampled_from(['harmonic_smas', 'centered_macs']), 'q': gen.positions(14, 1, 3), 'period': st.booleans()})


@facet('family', st_family, weight=2)
def family(case, ctx):
    s = case['s']
    pts = [tuple(p) for p in s['pts']]
    xs = [p[0] for p in pts]
    c = ctx.sut('Points', points, s)
    kw = {} if s['uniform'] else {'uniform': False}
    stride = 1 if case['stride'] is None else case['stride']
    if case['stride'] is not None:
        kw['stride'] = stride
    unit = 1
    if case['period']:
        kw['is_period'] = True
        unit = xs[1] - xs[0]
    base = case['base'] * unit
    g = (1 + math.sqrt(5)) / 2
    degs = [round(g ** (i * (stride + 1))) * base for i in range(case['count'])]
    if case['which'] == 'centered_macs':
        degs = degs[::-1]
    fam = ctx.sut(case['which'], getattr(c, case['which']), base, case['count'], **kw)
    ctx.check(isinstance(fam, list) and len(fam) == case['count'], '{} has {} members', case['which'], len(fam))
    settle(ctx, c, *fam)
    some = 0
    for d, e in zip(degs, fam):
        table = model.sma_period(pts, d) if case['period'] else model.sma_degree(pts, d)
        what = f'{case["which"]} of base {base}, degree {d} of {pts}'
        span = (xs[-1] - xs[0]) / min(b - a for a, b in zip(xs, xs[1:]))
        for x in [gen.resolve(xs, p) for p in case['q']] + xs:
            got = ctx.sut(f'y({x})', e.y, x)
            exp = model.lookup(table, x, 0)
            ctx.check(close(got, exp, 1e-9, model.scale_of(pts) * span), '{}: y({}) = {}, expected {}', what, x, got, exp)
        some += len(table) >= 3
    ctx.nontrivial(some >= 2)
    ctx.label(case['which'])


def st_step():
    return st.fixed_dictionaries({**st_coarse(3), 'ys': st.lists(gen.tame_value, min_size=3, max_size=30), 'n': st.integers(2, 7), 'deg': st.integers(1, 3), 'count': st.integers(1, 3), 'stride': st.integers(0, 1),
                                  'which': st.sampled_from(['rsi', 'rsi', 'harmonic_smas', 'centered_macs'])})


@facet('coarse step', st_step, weight=0.5)
def step(case, ctx):
    """Built with a minimum step of its own, passed on to each of its parts"""
    from curvepy import Points
    c, pts, visited, m = coarse(case, ctx)
    xs = [p[0] for p in pts]
    w, n = case['which'], case['deg']
    what = f'{w}({n}) of {pts} in steps of {m}'
    if w != 'rsi':
        kw = {'uniform': case['uniform'], 'stride': case['stride']}
        fam = ctx.sut(w, getattr(c, w), n, case['count'], min_step=m, **kw)
        ref = getattr(Points(visited), w)(n, case['count'], stride=case['stride'])
        ctx.check(len(fam) == len(ref), '{} has {} members', what, len(fam))
        span = visited[-1][0] - visited[0][0]
        for e, r in zip(fam, ref):
            verify_coarse(e, r, visited, case, ctx, what, between=False, scale=model.scale_of(pts) * max(1, span / case['gap']))
        return
    e = ctx.sut('rsi', c.rsi, n, min_step=m, uniform=case['uniform'])
    at = {p[0] for p in visited}
    up = down = None
    for i, (x, y) in enumerate(pts):
        if x not in at:
            continue
        d = (y - pts[i - 1][1]) / (x - xs[i - 1]) if i else 0
        u, v = max(d, 0), max(-d, 0)
        up, down = (u, v) if up is None else (up + (u - up) / n, down + (v - down) / n)
        exp = 100 if down == 0 else 100 - 100 / (1 + up / down)
        got = ctx.sut(f'y({x})', e.y, x)
        ctx.check(close(got, exp, 1e-7, 100), '{}: y({}) = {}, expected {}', what, x, got, exp)
    ctx.nontrivial(up > 0 and down > 0)
    ctx.label(w)


FACETS = [rsi, bars, family, step]
