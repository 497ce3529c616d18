"""C20: a line is the line it was given."""
import math
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import facet, close
from .. import gen
from ..build import dom

RULE = ('non-trivial: the slope is not zero and a position away from the given points is evaluated, or the line is reset at least once; '
        'distinct = distinct (facet, case)')
CASES = {'quick': 5000, 'thorough': 120000}
ASSUMPTIONS = ['points of a line have distinct x (a vertical line is only required to report an infinite slope)',
               'the inverse of a level line is not specified']

num = st.one_of(gen.small_int, st.integers(-400, 400).map(lambda k: k / 8), st.sampled_from([1e6, -1e6, 1577836800, 1e-3, 12345.75]))
pt = st.tuples(num, num).map(list)


def st_desc():
    return st.one_of(
        st.tuples(st.just('const'), num, num), st.tuples(st.just('p1'), pt, num),
        st.tuples(st.just('p12'), pt, pt), st.tuples(st.just('points'), pt, pt), st.tuples(st.just('near'), pt, num, num)).map(list)


def kwargs(d):
    if d[0] == 'const':
        return {'const': d[1], 'slope': d[2]}
    if d[0] == 'p1':
        return {'p1': tuple(d[1]), 'slope': d[2]}
    if d[0] == 'near':
        return {'p1': tuple(d[1]), 'p2': (d[1][0] + 1, d[2])}
    if d[0] == 'p12':
        return {'p1': tuple(d[1]), 'p2': tuple(d[2])}
    return {'points': [d[1], d[2]]}


class Exact:
    def __init__(self, d):
        kw = kwargs(d)
        p1 = kw.get('p1') or (kw['points'][0] if 'points' in kw else None)
        p2 = kw.get('p2') or (kw['points'][1] if 'points' in kw else None)
        if p1 is None:
            self.x0, self.y0, self.m = F(0), F(kw['const']), F(kw['slope'])
        else:
            self.x0, self.y0 = F(p1[0]), F(p1[1])
            if p2 is None:
                self.m = F(kw['slope'])
            elif F(p2[0]) == self.x0:
                self.m = None
                self.up = p2[1] >= p1[1]
            else:
                self.m = (F(p2[1]) - self.y0) / (F(p2[0]) - self.x0)
        self.given = [p for p in (p1, p2) if p is not None]

    def y(self, x):
        return self.y0 + self.m * (F(x) - self.x0)


def check_line(l, e, xs, ctx, what):
    if e.m is None:
        ctx.check(l.slope == (math.inf if e.up else -math.inf), '{}: slope {} of a vertical line', what, l.slope)
        return
    m = float(e.m)
    ctx.check(close(l.slope, m, 1e-12), '{}: slope {}, expected {}', what, l.slope, m)
    big = max(abs(float(e.x0)), 1)
    sc = lambda x: abs(float(e.y0)) + abs(m) * (abs(x) + big)
    for p in e.given:
        y = ctx.sut('y', l.y, p[0])
        ctx.check(close(y, p[1], 1e-12, sc(p[0])), '{}: y({}) = {}, but it was given the point {}', what, p[0], y, p)
    for x in xs:
        y = ctx.sut('y', l.y, x)
        exp = float(e.y(x))
        ctx.check(close(y, exp, 1e-12, sc(x)), '{}: y({}) = {}, expected {}', what, x, y, exp)
        ctx.check(close(l(x), exp, 1e-12, sc(x)), '{}: line({}) = {}, expected {}', what, x, l(x), exp)
        for fwd in (True, False):
            dy = ctx.sut('d_y', l.d_y, x, forward=fwd)
            ctx.check(close(dy, m, 1e-12), '{}: slope at {} is {}, expected {}', what, x, dy, m)
        if m != 0:
            back = ctx.sut('x', l.x, exp)
            ctx.check(close(back, x, 1e-11, sc(x) / abs(m)), '{}: x({}) = {}, expected {}', what, exp, back, x)
    ctx.check(close(l.const, float(e.y(0)), 1e-12, sc(0)), '{}: const {}, expected {}', what, l.const, float(e.y(0)))
    for a, b in zip(xs, xs[1:]):
        got = ctx.sut('partial_integration', l.partial_integration, a, b)
        exp = float((F(b) - F(a)) * (e.y(a) + e.y(b)) / 2)
        ctx.check(close(got, exp, 1e-11, abs(b - a) * max(sc(a), sc(b))), '{}: area over {}..{} is {}, expected {}', what, a, b, got, exp)
    ctx.check(dom(l) == (-math.inf, math.inf, True, True), '{}: domain {}', what, dom(l))


def st_line():
    return st.fixed_dictionaries({'d': st.lists(st_desc(), min_size=1, max_size=4), 'again': st.sampled_from([None, None, 0, 1]),
                                  'x': st.lists(num, min_size=2, max_size=5)})


@facet('line', st_line, weight=5)
def line(case, ctx):
    from curvepy import Line
    log = []
    l = None
    prev = None
    ds = case['d']
    if case['again'] is not None:
        ds = ds[:1 + case['again']] + ds[case['again']:]     # the same description twice in a row
    for d in ds:
        e = Exact(d)
        kw = kwargs(d)
        if l is None:
            l = ctx.sut(f'Line({kw})', Line, **kw)
            l.add_observer(begin=lambda iv: log.append(('begin', iv)), end=lambda iv: log.append(('end', iv, l.y(3))))
        else:
            n = len(log)
            ctx.sut(f'set({kw})', l.set, **kw)
            ev = log[n:]
            if e.m is None or prev.m is None:
                if kw != prev_kw:
                    prev, prev_kw = e, kw
                    check_line(l, e, case['x'], ctx, f'Line({kw})')
                    continue
            differs = (e.m, e.y(0)) != (prev.m, prev.y(0)) if None not in (e.m, prev.m) else False
            if kw == prev_kw:
                ctx.check(ev == [], 'setting the same line {} again announced {}', kw, ev)
            if differs:
                ctx.check([v[0] for v in ev] == ['begin', 'end'], 'changing a line to {} announced {}', kw, ev)
                ctx.check(all(v[1].is_negative_infinite and v[1].is_positive_infinite for v in ev), 'changing a line to {} announced {}', kw, ev)
                ctx.check(close(ev[1][2], float(e.y(3)), 1e-9, 1e6), 'line {} has y(3) = {} when announced', kw, ev[1][2])
            ctx.check(not l.is_updating, 'line is updating after a change')
            ctx.nontrivial()
        check_line(l, e, case['x'], ctx, f'Line({kw})')
        ctx.nontrivial(e.m not in (None, 0))
        ctx.label(d[0])
        prev, prev_kw = e, kw


def st_bad():
    return st.fixed_dictionaries({'d': st_desc(), 'kw': st.one_of(
        st.just({}), num.map(lambda v: {'const': v}), num.map(lambda v: {'slope': v}), pt.map(lambda p: {'p1': p}),
        pt.map(lambda p: {'p2': p}), pt.map(lambda p: {'points': [p]})), 'x': num, 'late': st.booleans()})


@facet('incomplete', st_bad, weight=1)
def incomplete(case, ctx):
    from curvepy import Line
    kw = case['kw']
    if not case['late']:
        ctx.raises(f'Line({kw})', Line, **kw)
        ctx.nontrivial()
        return
    e = Exact(case['d'])
    l = ctx.sut('Line', Line, **kwargs(case['d']))
    log = []
    l.add_observer(begin=lambda: log.append(1), end=lambda: log.append(1))
    ctx.raises(f'set({kw})', l.set, **kw)
    ctx.check(not log and not l.is_updating, 'a rejected description {} was announced', kw)
    check_line(l, e, [case['x'], case['x'] + 1], ctx, f'after rejected {kw}, Line({kwargs(case["d"])})')
    ctx.nontrivial()


FACETS = [line, incomplete]
