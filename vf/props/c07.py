"""C07: arithmetic on curves is pointwise arithmetic on their values."""
import math
from fractions import Fraction as F
from hypothesis import strategies as st
from ..core import facet, close, Skip
from .. import gen, model
from ..build import points, dom, interval, same_iv, closed_dom, settle, Tolerant
from .c04 import clip

RULE = ('non-trivial: the expression has at least two operators, at least one point series, and a value at one of the queried positions; '
        'distinct = distinct (facet, case)')
CASES = {'quick': 2200, 'thorough': 60000}
ASSUMPTIONS = ['positions where Python arithmetic itself fails or leaves the real numbers (0 ** -1, (-8) ** 0.5, overflow) are not compared']

INF = (-math.inf, math.inf, True, True)

leaf_series = gen.series(1, 8, st.one_of(gen.tame_value, gen.tame_value, gen.tame_value, st.none()),
                         steps=[1, 1, 0.5, 2], starts=[0, 0, 0, 1, -1, 0.5])
solid_series = gen.series(4, 8, gen.tame_value, steps=[1, 1, 0.5, 2], starts=[0, 0, 0, 1, -1, 0.5])
number = st.one_of(st.integers(-5, 5), st.sampled_from([0.5, -0.25, 0, 1, 10, 2.5]))


def st_expr():
    leaf = st.one_of(
        st.tuples(st.just('p'), st.integers(0, 2)),
        st.tuples(st.just('p'), st.integers(0, 2)),
        st.tuples(st.just('n'), number),
        st.tuples(st.just('c'), number),
        st.tuples(st.just('cd'), number, st.tuples(st.integers(-3, 3), st.integers(1, 6), st.booleans(), st.booleans()).map(list)),
        st.tuples(st.just('l'), st.integers(-3, 3), st.integers(-3, 3)),
    ).map(list)

    def extend(inner):
        return st.one_of(
            st.tuples(st.just('op'), st.sampled_from('+-*/^'), inner, inner),
            st.tuples(st.just('op'), st.sampled_from('+-*/'), inner, inner),
            st.tuples(st.just('op'), st.sampled_from('+-*/'), inner, inner),
            st.tuples(st.just('named'), st.sampled_from('+-*/'), inner, inner),
            st.tuples(st.just('named'), st.sampled_from('+-*/^'), inner, inner),
            st.tuples(st.just('many'), st.sampled_from('+-*/^'), st.lists(inner, min_size=1, max_size=4), st.booleans()),
            st.tuples(st.just('un'), st.sampled_from(['neg', 'abs', 'pos', 'inv']), inner),
            st.tuples(st.just('log'), inner, st.sampled_from([None, 2, 10, 3])),
            st.tuples(st.just('raised'), inner, st.sampled_from([2, 0.5, 1])),
        ).map(list)
    inner = st.recursive(leaf, extend, max_leaves=6)
    return st.one_of(extend(inner), extend(extend(leaf)))


class Undefined(Exception):
    pass


def binop(op, a, b):
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        if b == 0:
            return math.inf if a >= 0 else -math.inf
        return a / b
    if abs(b) > 30 or abs(a) > 1e9:
        raise Undefined()
    r = a ** b
    if isinstance(r, complex) or abs(r) > 1e250:
        raise Undefined()
    return r


def fold(op, vals):
    r = vals[0]
    if r is None:
        return None
    for v in vals[1:]:
        if v is None:
            return None
        r = binop(op, r, v)
        if abs(r) > 1e250 and not (isinstance(r, float) and math.isinf(r)):
            raise Undefined()
    return r


def exact(x, ss):
    """Is interpolation at x free of rounding?"""
    for s in ss:
        for (a, _), (b, _) in zip(s['pts'], s['pts'][1:]):
            if a < x < b and (F(x - a) / F(b - a)).denominator not in (2, 4, 8, 16, 32):
                return False
    return True


def ev(n, x, ss, eps=0):
    """Value of the expression at x, None when any operand has none."""
    k = n[0]
    try:
        if k == 'p':
            s = ss[n[1]]
            v = model.lookup(s['pts'], x, s['interp'])
            return v if v is None or not eps else v + eps * (1 + n[1])
        if k in ('n', 'c'):
            return n[1]
        if k == 'cd':
            return n[1] if model.inside(x, cdom(n)) else None
        if k == 'l':
            return n[1] + n[2] * x
        if k in ('op', 'named'):
            return fold(n[1], [ev(n[2], x, ss, eps), ev(n[3], x, ss, eps)])
        if k == 'many':
            return fold(n[1], [ev(m, x, ss, eps) for m in n[2]])
        if k == 'un':
            v = ev(n[2], x, ss, eps)
            if v is None or n[1] == 'pos':
                return v
            return -v if n[1] == 'neg' else abs(v) if n[1] == 'abs' else 1 / v
        if k == 'log':
            v = ev(n[1], x, ss, eps)
            return None if v is None else math.log(v, math.e if n[2] is None else n[2])
        if k == 'raised':
            v = ev(n[1], x, ss, eps)
            return None if v is None else binop('^', n[2], v)
    except (ArithmeticError, ValueError):
        raise Undefined()
    raise AssertionError(k)


def cdom(n):
    a, w, so, eo = n[2]
    return (a, a + w, so, eo)


def exp_dom(n, ss):
    k = n[0]
    if k == 'p':
        return closed_dom([p[0] for p in ss[n[1]]['pts']])
    if k in ('n', 'c', 'l'):
        return INF
    if k == 'cd':
        return cdom(n)
    kids = {'op': n[2:], 'named': n[2:], 'many': n[2] if k == 'many' else [], 'un': n[2:], 'log': [n[1]], 'raised': [n[1]]}[k]
    d = INF
    for m in kids:
        d = clip(d, exp_dom(m, ss))
    return d


def nops(n):
    k = n[0]
    if k in ('p', 'n', 'c', 'cd', 'l'):
        return 0
    kids = n[2:] if k in ('op', 'named', 'un') else n[2] if k == 'many' else [n[1]]
    return 1 + sum(nops(m) for m in kids)


def powers(n):
    if not isinstance(n, list):
        return False
    return n[:2] in (['op', '^'], ['named', '^'], ['many', '^']) or n[:1] == ['raised'] or any(map(powers, n))


def uses_points(n):
    k = n[0]
    if k == 'p':
        return True
    if k in ('n', 'c', 'cd', 'l'):
        return False
    kids = n[2:] if k in ('op', 'named', 'un') else n[2] if k == 'many' else [n[1]]
    return any(uses_points(m) for m in kids)


def build(n, cs, as_curve=False):
    from curvepy import Constant, Curve, Line
    k = n[0]
    if k == 'p':
        return cs[n[1]]
    if k == 'n':
        return Constant(n[1]) if as_curve else n[1]
    if k == 'c':
        return Constant(n[1])
    if k == 'cd':
        return Constant(n[1], domain=interval(cdom(n)))
    if k == 'l':
        return Line(const=n[1], slope=n[2])
    if k == 'op':
        a = build(n[2], cs)
        b = build(n[3], cs)
        if not isinstance(a, Curve) and not isinstance(b, Curve):
            a = Constant(a)
        op = n[1]
        return a + b if op == '+' else a - b if op == '-' else a * b if op == '*' else a / b if op == '/' else a ** b
    if k == 'named':
        a = build(n[2], cs, True)
        b = build(n[3], cs)
        return {'+': a.add, '-': a.subtract, '*': a.multiply, '/': a.divide, '^': a.pow}[n[1]](b)
    if k == 'many':
        f = {'+': Curve.add_many, '-': Curve.subtract_many, '*': Curve.multiply_many, '/': Curve.divide_many, '^': Curve.pow_many}[n[1]]
        kids = [build(m, cs) for m in n[2]]
        if n[3]:
            kids[0] = build(n[2][0], cs, True)
            return f(*kids)
        kept = list(kids)
        r = f(kids)
        if len(kids) != len(kept) or any(p is not q for p, q in zip(kids, kept)):
            raise AssertionError('the list of operands handed over was changed')
        return r
    if k == 'un':
        a = build(n[2], cs, True)
        return -a if n[1] == 'neg' else abs(a) if n[1] == 'abs' else +a if n[1] == 'pos' else a.multiplicative_inverse()
    if k == 'log':
        a = build(n[1], cs, True)
        return a.log() if n[2] is None else a.log(n[2])
    if k == 'raised':
        return build(n[1], cs, True).raised(n[2])
    raise AssertionError(k)


def st_case():
    return st.fixed_dictionaries({
        'ss': st.lists(gen.lived(st.one_of(solid_series, leaf_series)), min_size=3, max_size=3),
        'e': st_expr(),
        'q': st.lists(st.tuples(st.integers(0, 2), gen.pos(7)).map(list), min_size=1, max_size=6),
        'u': st.lists(st.integers(0, 16), min_size=2, max_size=4),
        'first': st.booleans()})


@facet('expression', st_case)
def expression(case, ctx):
    ss = case['ss']
    e = case['e']
    cs = [ctx.sut('Points', points, s) for s in ss]
    c = ctx.sut(f'building {e}', build, e, cs, True)
    d = exp_dom(e, ss)
    for i, o in enumerate(cs):
        # values of the past are not limited, and integer powers of them may take forever
        settle(ctx, o, *[Tolerant(c)] * (i == len(case['u']) % 3 and not powers(e)))
    if case['first']:
        ctx.check(same_iv(dom(c), d), 'domain of {} is {}, expected {}; series {}', e, dom(c), d, ss)
    found = False
    xs = [gen.resolve([p[0] for p in ss[i]['pts']], p) for i, p in case['q']]
    if d is not None:
        xs += [v for v in d[:2] if math.isfinite(v)]
        lo, hi = max(d[0], -4), min(d[1], 8)
        xs += [lo + k * (hi - lo) / 16 for k in case['u']]
    for x in xs:
        try:
            exp = ev(e, x, ss)
            if exp is not None and not exact(x, ss):
                other = ev(e, x, ss, 1e-11)
                if not close(exp, other, 1e-8):
                    ctx.label('ill-conditioned position')
                    continue
        except Undefined:
            ctx.label('undefined position')
            continue
        if isinstance(exp, float) and (math.isnan(exp)):
            ctx.label('nan position')
            continue
        got = ctx.sut(f'y({x}) of {e}', c.y, x)
        ctx.check(close(got, exp, 1e-9), 'y({!r}) of {} is {!r}, expected {!r}; series {}', x, e, got, exp, ss)
        if exp is not None:
            found = True
            if math.isinf(exp):
                ctx.label('infinite value')
        elif d is not None and model.inside(x, d):
            ctx.label('absent inside the domain')
        else:
            ctx.label('outside')
    ctx.check(same_iv(dom(c), d), 'domain of {} is {}, expected {}; series {}', e, dom(c), d, ss)
    # the operands are as before
    for s, o in zip(ss, cs):
        ctx.check([tuple(p) for p in s['pts']] == [tuple(p) for p in o.sample_points()], 'operand altered: {} -> {}', s, o.sample_points())
    ctx.nontrivial(found and nops(e) >= 2 and uses_points(e))
    ctx.label('ops=%d' % min(nops(e), 5), e[0] + (e[1] if e[0] in ('op', 'named', 'many') else ''))


FACETS = [expression]
