"""C21: a sine curve has the given amplitude, period and phase, and its slope."""
import math
from hypothesis import strategies as st
from ..core import facet, close
from .. import gen
from ..build import dom

RULE = ('non-trivial: amplitude other than zero, a period other than two pi, and positions off the zeros; distinct = distinct (facet, case)')
CASES = {'quick': 5000, 'thorough': 120000}
ASSUMPTIONS = ['positions are at most 10000 periods away, where the sine of the angle keeps 1e-9 precision']

posper = st.one_of(st.sampled_from([1, 2, 4, 0.5, 10, 25.5, 100, 3600, 86400, 2 * math.pi]), st.integers(1, 400).map(lambda k: k / 8))
# a negative period or frequency runs the wave backwards
per = st.one_of(posper, posper, posper, posper.map(lambda p: -p))
amp = st.one_of(gen.small_int, st.sampled_from([0.5, 100.25, -3.5, 1e5, 1e-3]))


def st_desc():
    return st.fixed_dictionaries({'a': amp, 'by': st.sampled_from(['period', 'frequency']), 'p': per,
                                  'phase': st.one_of(st.none(), st.tuples(st.just('phase'), st.sampled_from([0, 1, -0.5, math.pi / 2, math.pi, 3, -7.25])),
                                                     st.tuples(st.just('phase_x'), st.integers(-40, 40).map(lambda k: k / 8)))})


def kwargs(d):
    kw = {'amplitude': d['a'], d['by']: d['p'] if d['by'] == 'period' else 1 / d['p']}
    if d['phase']:
        kw[d['phase'][0]] = d['phase'][1] * (d['p'] if d['phase'][0] == 'phase_x' else 1)
    return kw


def st_case():
    return st.fixed_dictionaries({'d': st.lists(st_desc(), min_size=1, max_size=3), 'x': st.lists(st.integers(-200, 200).map(lambda k: k / 16), min_size=1, max_size=6),
                                  'n': st.integers(-50, 50)})


@facet('sine', st_case, weight=5)
def sine(case, ctx):
    from curvepy import Sin
    s = None
    log = []
    for d in case['d']:
        kw = kwargs(d)
        if s is None:
            s = ctx.sut(f'Sin({kw})', Sin, **kw)
            s.add_observer(begin=lambda iv: log.append(iv), end=lambda iv: log.append(iv))
        else:
            del log[:]
            ctx.sut(f'set({kw})', s.set, **kw)
            ctx.check(len(log) == 2 and all(v.is_negative_infinite and v.is_positive_infinite for v in log), 'resetting a sine announced {}', log)
            ctx.check(not s.is_updating, 'sine is updating after a change')
        a, p = d['a'], d['p']
        k = 2 * math.pi / p
        ph = 0 if not d['phase'] else d['phase'][1] if d['phase'][0] == 'phase' else kw['phase_x'] * k
        what = f'Sin({kw})'
        ctx.check(close(s.period, p, 1e-12, abs(p)) and close(s.frequency, 1 / p, 1e-12, 1 / abs(p)), '{}: period {}, frequency {}', what, s.period, s.frequency)
        ctx.check(close(s.period * s.frequency, 1, 1e-12), '{}: period {} times frequency {}', what, s.period, s.frequency)
        for u in case['x']:
            x = u * p
            y = ctx.sut('y', s.y, x)
            ang = 2 * math.pi * u + ph
            ctx.check(close(y, a * math.sin(ang), 1e-9, abs(a)), '{}: y({}) = {}, expected {}', what, x, y, a * math.sin(ang))
            ctx.check(close(s.y(x + case['n'] * p), y, 1e-8, abs(a)), '{}: y({}) = {}, but {} after {} periods', what, x, y, s.y(x + case['n'] * p), case['n'])
            ctx.check(close(s.y(x + p / 2), -y, 1e-8, abs(a)), '{}: y({}) = {}, but {} after half a period', what, x, y, s.y(x + p / 2))
            for fwd in (True, False):
                dy = ctx.sut('d_y', s.d_y, x, forward=fwd)
                ctx.check(abs(dy - a * k * math.cos(ang)) <= 1e-8 * abs(a * k), '{}: slope at {} is {}, expected {}', what, x, dy, a * k * math.cos(ang))
            # derivative of its own values
            h = p * 1e-4
            num = (s.y(x + h) - s.y(x - h)) / (2 * h)
            ctx.check(abs(num - dy) <= 1e-5 * abs(a * k), '{}: slope at {} is {}, values rise by {}', what, x, dy, num)
            ctx.nontrivial(a != 0 and abs(k - 1) > 1e-6 and abs(math.sin(ang)) > 1e-3)
        ctx.check(dom(s) == (-math.inf, math.inf, True, True), '{}: domain {}', what, dom(s))
        ctx.label(d['by'], d['phase'][0] if d['phase'] else 'no phase')


def st_bad():
    return st.fixed_dictionaries({'d': st_desc(), 'kw': st.one_of(
        st.just({}), st.just({'amplitude': 2}), per.map(lambda p: {'period': p}), per.map(lambda p: {'frequency': p, 'phase': 1}),
        st.just({'amplitude': 1, 'phase_x': 1}), per.map(lambda p: {'amplitude': 1, 'period': p, 'phase': None})), 'late': st.booleans()})


@facet('incomplete', st_bad, weight=1)
def incomplete(case, ctx):
    from curvepy import Sin
    kw = case['kw']
    if not case['late']:
        ctx.raises(f'Sin({kw})', Sin, **kw)
    else:
        s = ctx.sut('Sin', Sin, **kwargs(case['d']))
        xs = [0, 1, case['d']['p'] / 3]
        before = [s.y(x) for x in xs]
        log = []
        s.add_observer(begin=lambda: log.append(1), end=lambda: log.append(1))
        ctx.raises(f'set({kw})', s.set, **kw)
        ctx.check(not s.is_updating and not log and [s.y(x) for x in xs] == before, 'a rejected description {} changed a sine', kw)
    ctx.nontrivial()


FACETS = [sine, incomplete]
