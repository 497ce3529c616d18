"""C22: minimising and maximising stop at a true local extremum."""
from hypothesis import strategies as st
from ..core import facet, close
from .. import gen
from ..build import points

RULE = ('non-trivial: the walk takes at least two steps, or starts at an extremum; distinct = distinct (facet, case)')
CASES = {'quick': 4000, 'thorough': 100000}
ASSUMPTIONS = ['no two neighbouring points have the same value (flat steps are not specified)',
               'a slope leading down to the end of the series (or to an absent value) has no extremum: the result is absent']


@st.composite
def st_case(draw):
    n = draw(st.integers(1, 14))
    s = draw(gen.series(n, n, gen.small_int, interps=(0,)))
    shape = draw(st.sampled_from(['walk', 'walk', 'valley', 'hill', 'gaps']))
    steps = draw(st.lists(st.integers(1, 12), min_size=n, max_size=n))
    signs = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    k = draw(st.integers(0, n - 1))
    y = draw(st.integers(-20, 20))
    ys = []
    for i in range(n):
        ys.append(y / 4)
        up = signs[i] if shape in ('walk', 'gaps') else (i >= k) == (shape == 'valley')
        y = y + steps[i] if up else y - steps[i]
    if shape == 'gaps':
        for i in draw(st.lists(st.integers(0, n - 1), max_size=3)):
            ys[i] = None
    s['pts'] = [[p[0], v] for p, v in zip(s['pts'], ys)]
    return {'s': s, 'shape': shape, 'k': k, 'i': draw(st.integers(0, n - 1)), 'f': draw(st.sampled_from([0, 0, 0, 0.5, 0.25])),
            'limit': draw(st.sampled_from([None, None, None, 1, 2, 3, 5])), 'step': draw(st.booleans())}


def outcomes(ys, i, sign):
    """Every acceptable walk from point i: [(indexes visited), result or None]"""
    n = len(ys)
    v = lambda j: None if j < 0 or j >= n or ys[j] is None else sign * ys[j]
    if v(i) is None:
        return [([i], None)]
    l, r = v(i - 1), v(i + 1)
    if l is None and r is None:
        return [([i], i)]
    dirs = []
    if l is not None and l < v(i):
        dirs.append(-1)
    if r is not None and r < v(i):
        dirs.append(1)
    if not dirs:
        # lowest: an extremum if enclosed by higher points, else the end of a slope
        return [([i], i if l is not None and r is not None else None)]
    out = []
    for d in dirs:
        j = i
        path = [i]
        while v(j + d) is not None and v(j + d) < v(j):
            j += d
            path.append(j)
        out.append((path, j if v(j + d) is not None else None))
    return out


@facet('descent', st_case)
def descent(case, ctx):
    pts = [tuple(p) for p in case['s']['pts']]
    xs = [p[0] for p in pts]
    ys = [p[1] for p in pts]
    i = case['i']
    c = ctx.sut('Points', points, case['s'])
    x = xs[i]
    between = False
    if case['f'] and i + 1 < len(xs) and None not in (ys[i], ys[i + 1]):
        x = xs[i] + case['f'] * (xs[i + 1] - xs[i])
        between = True
    uniform_step = case['step'] and case['s']['uniform'] and len(xs) > 1 and not between
    kw = {}
    if uniform_step:
        kw['step'] = xs[1] - xs[0]
    if case['limit'] is not None:
        kw['max_iterations'] = case['limit']
    neg = c.map(lambda y: None if y is None else -y)
    for name, sign, f, g in (('minimise', 1, c.minimise, neg.maximise), ('maximise', -1, c.maximise, neg.minimise)):
        what = f'{name} from {x} {kw} of {pts}'
        got = ctx.sut(what, f, x, **kw)
        mirrored = ctx.sut(what + ' negated', g, x, **kw)
        ctx.check(got == mirrored, '{} gives {}, the opposite of the negated curve gives {}', what, got, mirrored)
        if between:
            down = i if sign * ys[i] < sign * ys[i + 1] else i + 1
            d = -1 if down == i else 1
            j, path = down, [None, down]
            v = lambda k: None if k < 0 or k >= len(ys) or ys[k] is None else sign * ys[k]
            while v(j + d) is not None and v(j + d) < v(j):
                j += d
                path.append(j)
            outs = [(path, j if v(j + d) is not None else None)]
        else:
            outs = outcomes(ys, i, sign)
        ok = []
        for path, res in outs:
            at = [x if k is None else xs[k] for k in path]
            if case['limit'] is not None and case['limit'] < len(path):
                # out of iterations on the way
                ok.append(at[case['limit']])
            elif case['limit'] is not None and case['limit'] == len(path) - 1:
                ok.append(at[-1])
            else:
                ok.append(None if res is None else xs[res])
            ctx.nontrivial(len(path) > 2 or (len(path) == 1 and res is not None) or len(outs) > 1)
        ctx.check(got in ok, '{} gives {}, a walk gives {}', what, got, ok)
        if got is not None and not between and ys[i] is not None:
            ctx.check(sign * c.y(got) <= sign * ys[i], '{} gives {}, which is worse', what, got)
        if case['limit'] is None and case['shape'] == ('valley' if sign == 1 else 'hill') and 0 < case['k'] < len(xs) - 1:
            ctx.check(got == xs[case['k']], '{} gives {}, the only extremum is at {}', what, got, xs[case['k']])
            ctx.label('single ' + case['shape'])
    ctx.label(case['shape'], 'between' if between else 'at a point')


@st.composite
def st_steps(draw):
    n = draw(st.integers(2, 9))
    s = draw(gen.series(n, n, gen.small_int, interps=(0,), steps=[1, 2, 0.5, 4], starts=[0, 1, -3, 2.5, 100]))
    shape = draw(st.sampled_from(['up', 'down', 'valley', 'hill', 'walk']))
    k = draw(st.integers(0, n - 1))
    y = draw(st.integers(-20, 20))
    ys = []
    for i in range(n):
        ys.append(y / 4)
        up = {'up': True, 'down': False, 'valley': i >= k, 'hill': i < k, 'walk': i % 3 == k % 2}[shape]
        d = draw(st.integers(1, 9))
        y = y + d if up else y - d
    s['pts'] = [[p[0], v] for p, v in zip(s['pts'], ys)]
    return {'s': s, 'shape': shape, 'k': k, 'i': draw(st.integers(0, n - 1)), 'f': draw(st.sampled_from([0, 0.5, 0.25, 0.75])),
            'step': draw(st.sampled_from([1, 0.5, 0.25, 0.75, 1.5, 2, 3])), 'limit': draw(st.sampled_from([24, 24, 3, 1]))}


def lands(pts, x, step, limit, sign):
    """Where walks down by a fixed step may end (two ways down from a top)"""
    def side(x, d):
        """does the curve rise on this side? None where it ends"""
        for (a, ya), (b, yb) in zip(pts, pts[1:]):
            if a < x < b or (x == a and d > 0) or (x == b and d < 0):
                return (sign * (yb - ya) > 0) == (d > 0)
        return None

    out = set()

    def go(x, prev, left):
        while left:
            left -= 1
            if not pts[0][0] <= x <= pts[-1][0]:
                out.add(prev)
                return
            l, r = side(x, -1), side(x, 1)
            if l and r:
                out.add(x)
                return
            if l is None and r or r is None and l:
                out.add(None)
                return
            prev = x
            if l is False and r is False:
                go(x - step, x, left)
            x = x + step if r is False else x - step
        out.add(x)
    go(x, None, limit)
    return out


@facet('fixed steps', st_steps, weight=0.5)
def fixed(case, ctx):
    """Walks by a step of their own, over and past points and off the ends"""
    pts = [tuple(p) for p in case['s']['pts']]
    xs = [p[0] for p in pts]
    c = ctx.sut('Points', points, case['s'])
    i = case['i']
    x = xs[i] + (case['f'] * (xs[i + 1] - xs[i]) if i + 1 < len(xs) else 0)
    step = case['step'] * (xs[1] - xs[0])
    neg = c.map(lambda y: -y, skip_none=True)
    for name, sign, f, g in (('minimise', 1, c.minimise, neg.maximise), ('maximise', -1, c.maximise, neg.minimise)):
        what = f'{name} from {x} by {step}, {case["limit"]} times at most, of {pts}'
        ok = lands(pts, x, step, case['limit'], sign)
        for h in (f, g):
            got = ctx.sut(what, h, x, step=step, max_iterations=case['limit'])
            ctx.check(got in ok, '{} gives {}, a walk gives {}', what, got, ok)
        if case['limit'] == 24 and got is not None and case['shape'] == ('valley' if sign == 1 else 'hill') and step < xs[1] - xs[0] and 0 < case['k'] < len(xs) - 1:
            ctx.check(abs(got - xs[case['k']]) <= step or abs(x - xs[case['k']]) > 20 * step, '{} gives {}, more than a step from the extremum', what, got)
    ctx.nontrivial(case['limit'] > 1)
    ctx.label(case['shape'])


FACETS = [descent, fixed]
