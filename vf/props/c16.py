"""C16: extensions continue the ends of a curve and leave its inside untouched."""
import math
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import facet, close
from .. import gen, model
from ..build import points, dom, closed_dom, settle

RULE = ('non-trivial: at least three points, at least one extended end, and positions inside and beyond that end; '
        'distinct = distinct (facet, case)')
CASES = {'quick': 2600, 'thorough': 60000}
ASSUMPTIONS = ['regression_degree n takes the n steps next to the end, that is n + 1 points',
               'an end whose value or slope is absent is not extended by tangents or sine waves',
               'steps beyond an end that has no value or slope to go by are not specified']


def st_case():
    return st.fixed_dictionaries({
        's': gen.lived(st.one_of(gen.series(0, 10, gen.value, starts=[0, 1, -3, 2.5, 100, -1000]),
                       gen.series(2, 10, gen.tame_value, starts=[0, 1, -3, 2.5, 100, -1000], steps=[1, 0.5, 2, 10]),
                       gen.series(0, 8, gen.maybe_value))),
        'src': st.sampled_from(['points', 'points', 'map', 'sum', 'integral']),
        'kind': st.sampled_from(['constant', 'tangent', 'tangent', 'degree', 'period', 'sin', 'sin']),
        'ends': st.sampled_from(['end', 'end', 'start', 'both', 'both', 'default', 'none']),
        'n': st.integers(1, 5), 'p': st.sampled_from([1, 1.5, 2, 3, 10]),
        'wave': st.sampled_from([1, 4, 10, 0.5, 25.5]),
        'also': st.lists(st.sampled_from(['constant', 'tangent', 'sin']), max_size=2),
        'b': st.lists(st.sampled_from([0, 0.125, 0.5, 1, 1.5, 3, 10, 40]), min_size=1, max_size=5),
        'q': gen.positions(12, 1, 6), 'ms': st.sampled_from([0, 0.5, 1, 1.5, 2.25]), 'first': st.booleans()})


def least_squares(ps):
    """(slope, value at x) as exact rationals"""
    n = len(ps)
    xs = [F(x) for x, _ in ps]
    ys = [F(y) for _, y in ps]
    mx, my = sum(xs) / n, sum(ys) / n
    sxx = sum((x - mx) ** 2 for x in xs)
    m = sum((x - mx) * (y - my) for x, y in zip(xs, ys)) / sxx
    return m, lambda x: my + m * (F(x) - mx)


def end_line(pts, kind, case, at_end, sampled_at):
    """(value, slope) at the end point, or None when it cannot be extended"""
    ps = pts if at_end else pts[::-1]       # the end in question comes last
    x = ps[-1][0]
    if kind in ('tangent', 'sin'):
        if len(ps) < 2 or ps[-1][1] is None or ps[-2][1] is None:
            return None
        return ps[-1][1], (ps[-1][1] - ps[-2][1]) / (ps[-1][0] - ps[-2][0])
    if kind == 'degree':
        win = ps[-(case['n'] + 1):]
    else:
        p = case['p'] * (abs(ps[-1][0] - ps[-2][0]) if len(ps) > 1 else 1)
        win = [q for q in ps if abs(q[0] - x) <= p]
        if sampled_at is not None:
            # derived curves are also sampled at the far end of the range
            far = x - p if at_end else x + p
            far = max(far, pts[0][0]) if at_end else min(far, pts[-1][0])
            if far not in [q[0] for q in pts]:
                win = [(far, sampled_at(far))] + win
    if len(win) < 2 or any(y is None for _, y in win):
        return None
    m, at = least_squares(win)
    return float(at(x)), float(m)


@facet('extension', st_case, weight=5)
def extension(case, ctx):
    s = case['s']
    pts = [tuple(p) for p in s['pts']]
    src = case['src']
    base = c = ctx.sut('Points', points, s)
    lift = lambda y, f: None if y is None else f(y)
    sampled_at = None
    interp = s['interp']
    if src == 'map':
        c = c.map(lambda y: None if y is None else 2 * y)
        pts = [(x, lift(y, lambda y: 2 * y)) for x, y in pts]
        sampled_at = lambda x: model.lookup(pts, x, interp)
    elif src == 'sum':
        c = c + 1
        pts = [(x, lift(y, lambda y: 1 + y)) for x, y in pts]
        sampled_at = lambda x: model.lookup(pts, x, interp)
    elif src == 'integral':
        c = c.integral(uniform=False)
        pts = model.integral(pts)
        interp = 0
        sampled_at = lambda x: model.lookup(pts, x, 0)
    xs = [x for x, _ in pts]
    kind = case['kind']
    kw = {}
    if case['ends'] != 'default':
        kw = {'start': case['ends'] in ('start', 'both'), 'end': case['ends'] in ('end', 'both')}
    ext_start = kw.get('start', False)
    ext_end = kw.get('end', True)
    name = kind
    k = 2 * math.pi / (case['wave'] * (xs[1] - xs[0] if len(xs) > 1 else 1))
    if kind == 'degree':
        name = 'tangent'
        kw['regression_degree'] = case['n']
    elif kind == 'period':
        name = 'tangent'
        kw['regression_period'] = case['p'] * (xs[-1] - xs[-2] if len(xs) > 1 else 1)
        if len(xs) > 1 and xs[1] - xs[0] != xs[-1] - xs[-2]:
            ext_start = False
            kw['start'] = False
    elif kind == 'sin':
        if xs and max(abs(xs[0]), abs(xs[-1])) * k > 1e5:
            ctx.label('left out: phase beyond precision')
            return
        kw['period'] = 2 * math.pi / k
    e = ctx.sut('extension', c.extension, name, **kw)
    what = f'{kind} extension {kw} of {src} {pts}'
    settle(ctx, base, e, *(ctx.sut('extension', c.extension, n, end=True, start=ext_start, **({'period': 9} if n == 'sin' else {})) for n in case['also']))
    at = {}
    for end, wanted in ((False, ext_start), (True, ext_end)):
        if not wanted or not pts:
            at[end] = None
        elif kind == 'constant':
            at[end] = ((pts[-1] if end else pts[0])[1], 0)
        else:
            at[end] = end_line(pts, kind, case, end, sampled_at)
    exp_dom = closed_dom(xs)
    if exp_dom:
        exp_dom = (-math.inf if at[False] else exp_dom[0], math.inf if at[True] else exp_dom[1], bool(at[False]), bool(at[True]))
    if case['first'] and pts:
        ctx.check(dom(e) == exp_dom, '{}: domain {}, expected {}', what, dom(e), exp_dom)
    scale = model.scale_of(pts)
    gap = min([b - a for a, b in zip(xs, xs[1:])], default=1)
    beyond = False

    def cont(end, x):
        if at[end] is None:
            return None, scale
        y, m = at[end]
        if y is None:
            return None, scale
        t = x - (xs[-1] if end else xs[0])
        if kind == 'sin':
            return y * math.cos(k * t) + m / k * math.sin(k * t), abs(y) + abs(m / k) + scale
        return y + m * t, scale * max(1, abs(t) / gap) * 10

    tol = 1e-9 if kind in ('constant', 'tangent') else 1e-6
    qs = [gen.resolve(xs, p) for p in case['q']] + xs
    for b in case['b']:
        for end in (True, False):
            if xs:
                g = xs[1] - xs[0] if len(xs) > 1 else 1
                qs.append(xs[-1] + b * g if end else xs[0] - b * g)
    for x in qs:
        got = ctx.sut(f'y({x})', e.y, x)
        if pts and xs[0] <= x <= xs[-1]:
            exp = c.y(x)
            ctx.check(close(got, exp), '{}: y({}) = {} inside, source {}', what, x, got, exp)
            continue
        if not pts:
            exp, sc = None, 1
        else:
            exp, sc = cont(x > xs[-1], x)
        beyond = beyond or exp is not None
        ctx.check(close(got, exp, tol, sc), '{}: y({!r}) = {!r} beyond the end, expected {!r}', what, x, got, exp)
    if pts:
        ctx.check(dom(e) == exp_dom, '{}: domain {}, expected {}', what, dom(e), exp_dom)
    # steps visit the points of the source, and go on beyond an extended end at the spacing of its last segment
    # (of its last points a minimum step apart, where one is asked for)
    for x, m in [(x, 1e-5) for x in qs] + [(x, case.get('ms', 0) * (xs[1] - xs[0] if len(xs) > 1 else 1)) for x in qs if case.get('ms')]:
        nxt, prv = model.step_next(xs, x, m), model.step_prev(xs, x, m)
        if len(xs) > 1 and nxt is None and ext_end:
            near = model.step_prev(xs, xs[-1], m)
            nxt = None if near is None else x + (xs[-1] - near)
        if len(xs) > 1 and prv is None and ext_start:
            near = model.step_next(xs, xs[0], m)
            prv = None if near is None else x - (near - xs[0])
        kw = {} if m == 1e-5 else {'min_step': m}
        got = ctx.sut('x_next', e.x_next, x, **kw)
        ctx.check((xs and ext_end and at[True] is None and x >= xs[-1]) or close(got, nxt, 1e-12, abs(x)), '{}: x_next({}, {}) = {}, expected {}', what, x, kw, got, nxt)
        got = ctx.sut('x_previous', e.x_previous, x, **kw)
        ctx.check((xs and ext_start and at[False] is None and x <= xs[0]) or close(got, prv, 1e-12, abs(x)), '{}: x_previous({}, {}) = {}, expected {}', what, x, kw, got, prv)
    ctx.nontrivial(len(pts) >= 3 and beyond)
    ctx.label(kind, case['ends'], src)


def st_function():
    return st.fixed_dictionaries({
        'a': st.integers(-4, 4), 'w': st.integers(1, 6), 'so': st.booleans(), 'eo': st.booleans(),
        'kind': st.sampled_from(['constant', 'tangent', 'sin']), 't': st.lists(st.sampled_from([0.25, 1, 3, 7]), min_size=1, max_size=3)})


@facet('function', st_function, weight=1)
def function(case, ctx):
    """A curve given by a function over a range, possibly open"""
    from curvepy import Generic
    from intervalpy import Interval
    f = lambda x: x * x / 4 - x + 1
    df = lambda x: x / 2 - 1
    a, b = case['a'], case['a'] + case['w']
    k = case['kind']
    so, eo = (case['so'], case['eo']) if k != 'constant' else (False, False)
    c = Generic(f, domain=Interval(a, b, start_open=so, end_open=eo))
    kw = {'period': 12} if k == 'sin' else {}
    e = ctx.sut('extension', c.extension, k, start=True, end=True, **kw)
    w = 2 * math.pi / 12
    # at an open end itself the extension takes over
    for t in case['t'] + [0]:
        for x0, x in ((b, b + t), (a, a - t)):
            got = ctx.sut('y', e.y, x)
            d = x - x0
            exp = f(x0) if k == 'constant' else f(x0) + df(x0) * d if k == 'tangent' else f(x0) * math.cos(w * d) + df(x0) / w * math.sin(w * d)
            ctx.check(got is not None and abs(got - exp) < 1e-3, '{} extension of a parabola over {}..{} ({}, {}): y({}) = {}, expected {}', k, a, b, so, eo, x, got, exp)
        x = a + (b - a) / 2
        ctx.check(e.y(x) == f(x), 'y({}) = {} inside, source {}', x, e.y(x), f(x))
    ctx.nontrivial()
    ctx.label(k)


def st_unbounded():
    return st.fixed_dictionaries({
        'src': st.sampled_from(['line', 'const', 'function', 'from', 'until', 'sum']), 'a': st.integers(-4, 4), 'open': st.booleans(),
        'kind': st.sampled_from(['constant', 'tangent', 'sin']), 'start': st.booleans(), 'end': st.booleans(),
        't': st.lists(st.sampled_from([0.25, 1, 3, 7]), min_size=1, max_size=4)})


@facet('unbounded', st_unbounded, weight=0.5)
def unbounded(case, ctx):
    """An end without end is not extended"""
    from curvepy import Generic, Line, Constant
    from intervalpy import Interval
    src, a = case['src'], case['a']
    op = case['open'] and case['kind'] != 'constant'
    f = lambda x: x / 2 + 1
    c = {'line': lambda: Line(const=1, slope=0.5), 'const': lambda: Constant(3), 'function': lambda: Generic(f),
         'from': lambda: Generic(f, domain=Interval(a, math.inf, start_open=op, end_open=True)),
         'until': lambda: Generic(f, domain=Interval(-math.inf, a, start_open=True, end_open=op)),
         'sum': lambda: Line(const=0, slope=0.5) + 1}[src]()
    if src == 'const':
        f = lambda x: 3
    kw = {'period': 12} if case['kind'] == 'sin' else {}
    e = ctx.sut('extension', c.extension, case['kind'], start=case['start'], end=case['end'], **kw)
    what = f'{case["kind"]} extension ({case["start"]}, {case["end"]}) of {src} {a}'
    lo = -math.inf if src != 'from' or case['start'] else a
    hi = math.inf if src != 'until' or case['end'] else a
    w = 2 * math.pi / 12
    for t in case['t']:
        for x in (a + t, a - t, -t, t, a):
            got = ctx.sut('y', e.y, x)
            if src == 'from' and (x < a or op and x == a) or src == 'until' and (x > a or op and x == a):
                d = x - a
                if not (case['start'] if src == 'from' else case['end']):
                    exp = None
                elif case['kind'] == 'constant':
                    exp = f(a)
                elif case['kind'] == 'tangent':
                    exp = f(x)
                else:
                    exp = f(a) * math.cos(w * d) + 0.5 / w * math.sin(w * d)
                ctx.check(close(got, exp, 1e-4), '{}: y({}) = {}, expected {}', what, x, got, exp)
            else:
                ctx.check(close(got, f(x)), '{}: y({}) = {} inside, source {}', what, x, got, f(x))
    d = dom(e)
    ctx.check(d is not None and d[:2] == (lo, hi), '{}: domain {}', what, d)
    ctx.nontrivial(case['start'] or case['end'])
    ctx.label(src)


def st_strict():
    return st.fixed_dictionaries({
        's': st.one_of(gen.series(0, 5, gen.maybe_value), gen.series(0, 5, gen.tame_value)),
        'kind': st.sampled_from(['constant', 'tangent', 'sin', 'degree']), 'n': st.integers(1, 3),
        'ends': st.sampled_from(['start', 'end', 'both', 'both']), 'src': st.sampled_from(['points', 'map']),
        'edits': st.lists(st.tuples(st.sampled_from(['append', 'reset', 'last']), st.one_of(gen.tame_value, gen.tame_value, st.none())), max_size=4),
        'reads': st.lists(st.sampled_from(['y+', 'y-', 'domain', 'y']), min_size=1, max_size=4)})


@facet('strict', st_strict, weight=1)
def strict(case, ctx):
    """raise_on_empty: refused exactly while an asked-for end cannot be extended"""
    pts = [tuple(p) for p in case['s']['pts']]
    p = ctx.sut('Points', points, dict(case['s'], uniform=False))
    c = p if case['src'] == 'points' else p.map(lambda y: y, skip_none=True)
    kind = case['kind']
    kw = {'period': 12} if kind == 'sin' else {'regression_degree': case['n']} if kind == 'degree' else {}
    e = ctx.sut('extension', c.extension, 'tangent' if kind == 'degree' else kind, start=case['ends'] != 'end', end=case['ends'] != 'start', raise_on_empty=True, **kw)
    wanted = {'start': [False], 'end': [True], 'both': [False, True]}[case['ends']]
    w = 2 * math.pi / 12
    states = set()
    for i in range(len(case['edits']) + 1):
        if i:
            op, v = case['edits'][i - 1]
            x = pts[-1][0] if pts else 0
            if op == 'append':
                pts.append((x + 1, v))
                p.append((x + 1, v))
            elif op == 'reset':
                pts = [(x + j, v if j == 1 else j) for j in range(3)]
                p.set(list(pts))
            elif pts:
                pts[-1] = (x, v)
                p.replace((x, v))
        at = {end: None if not pts else ((pts[-1] if end else pts[0])[1], 0) if kind == 'constant' else end_line(pts, kind, case, end, None) for end in wanted}
        ok = bool(pts) and all(at[end] is not None for end in wanted)
        states.add(ok)
        what = f'strict {kind} extension {case["ends"]} of {pts}'
        for r in case['reads']:
            x = None if r == 'domain' else (pts[-1][0] + 2.5 if r == 'y+' else pts[0][0] - 2.5 if r == 'y-' else pts[0][0]) if pts else 1
            if r == 'y' and pts:
                got = ctx.sut('y', e.y, x)
                ctx.check(close(got, pts[0][1]), '{}: y({}) = {} inside', what, x, got)
                continue
            try:
                got = dom(e) if r == 'domain' else e.y(x)
            except Exception as err:
                ctx.check(not ok, '{}: {} is refused: {}', what, r, err)
                continue
            ctx.check(ok, '{}: {} is not refused: {}', what, r, got)
            if r == 'domain':
                exp = (-math.inf if False in wanted else pts[0][0], math.inf if True in wanted else pts[-1][0], False in wanted, True in wanted)
                ctx.check(got == exp, '{}: domain {}, expected {}', what, got, exp)
                continue
            end = r == 'y+'
            if end not in wanted:
                exp = None
            else:
                y, m = at[end]
                d = 2.5 if end else -2.5
                exp = None if y is None else y * math.cos(w * d) + m / w * math.sin(w * d) if kind == 'sin' else y + m * d
            ctx.check(close(got, exp, 1e-6, 10 * model.scale_of(pts)), '{}: y({}) = {}, expected {}', what, x, got, exp)
    ctx.nontrivial(len(states) > 1 or len(pts) > 2)
    ctx.label('refused' if False in states else 'never refused')


FACETS = [extension, function, unbounded, strict]
