"""C08: minimum, maximum and first-available of several curves are pointwise."""
import math
from hypothesis import strategies as st
from ..core import facet, close
from .. import gen, model
from ..build import points, dom, interval, same_iv, closed_dom, settle
from .c04 import clip

RULE = ('non-trivial: at least two operands that differ in domain or in which value wins, and some queried position lies inside '
        'the combined domain; distinct = distinct (facet, case)')
CASES = {'quick': 3000, 'thorough': 80000}
ASSUMPTIONS = ['absent values inside a common domain are ignored by min and max (they are absent only when every operand is)',
               'the union of domains is the smallest range containing them']

INF = (-math.inf, math.inf, True, True)
series = gen.lived(gen.series(1, 7, st.one_of(gen.tame_value, gen.tame_value, st.none()), steps=[1, 1, 0.5, 2], starts=[0, 0, 1, -1, -2, 2, 4]))
solid = gen.lived(gen.series(2, 8, gen.tame_value, steps=[1, 1, 0.5, 2], starts=[0, 0, 1, -1]))
num = st.integers(-6, 6)

operand = st.one_of(
    st.tuples(st.just('p'), solid), st.tuples(st.just('p'), solid),
    st.tuples(st.just('p'), series), st.tuples(st.just('p'), series),
    st.tuples(st.just('n'), num),
    st.tuples(st.just('cd'), num, st.tuples(st.integers(-3, 6), st.integers(1, 6), st.booleans(), st.booleans()).map(list)),
    st.tuples(st.just('l'), num, st.integers(-2, 2)),
    st.tuples(st.just('e')),
).map(list)


def val(o, x):
    k = o[0]
    if k == 'p':
        return model.lookup(o[1]['pts'], x, o[1]['interp'])
    if k == 'n':
        return o[1]
    if k == 'cd':
        return o[1] if model.inside(x, odom(o)) else None
    if k == 'l':
        return o[1] + o[2] * x
    return None


def odom(o):
    k = o[0]
    if k == 'p':
        return closed_dom([p[0] for p in o[1]['pts']])
    if k == 'cd':
        a, w, so, eo = o[2]
        return (a, a + w, so, eo)
    if k == 'e':
        return None
    return INF


def make(o):
    from curvepy import Constant, Line, Curve
    k = o[0]
    if k == 'p':
        return points(o[1])
    if k == 'n':
        return o[1]
    if k == 'cd':
        return Constant(o[1], domain=interval(odom(o)))
    if k == 'l':
        return Line(const=o[1], slope=o[2])
    return Curve.empty()


def hull(ds):
    ds = [d for d in ds if d is not None]
    if not ds:
        return None
    s = min(d[0] for d in ds)
    e = max(d[1] for d in ds)
    so = all(d[2] for d in ds if d[0] == s)
    eo = all(d[3] for d in ds if d[1] == e)
    return (s, e, so, eo)


def common(ds):
    r = INF
    for d in ds:
        r = clip(r, d)
    return r


def st_case():
    return st.fixed_dictionaries({
        'kind': st.sampled_from(['min', 'max', 'min all', 'max all', 'first', 'list', 'sum', 'list union', 'default', 'default union', 'sum default', 'sum default union']),
        'os': st.lists(operand, min_size=1, max_size=4),
        'dup': st.booleans(), 'dv': st.sampled_from([-77, 0, 0.0, 3]),
        'var': st.booleans(),
        'u': st.lists(st.integers(0, 64), min_size=3, max_size=10)})


@facet('pointwise', st_case)
def pointwise(case, ctx):
    from curvepy import Curve, Constant
    from curvepy.aggregate import Aggregate
    os_ = case['os']
    k = case['kind']
    cs = [ctx.sut('operand', make, o) for o in os_]
    made = cs[:]
    if case['dup']:
        # the same curve twice
        os_ = os_ + [os_[0]]
        cs = cs + [cs[0]]
    ds = [odom(o) for o in os_]
    union = k in ('min all', 'max all', 'first', 'list union', 'default union', 'sum default union')
    d = hull(ds) if union else common(ds)
    default = None
    name = k.split()[0]
    all_ = k.endswith('all')
    kept = list(cs)
    if name in ('min', 'max', 'first'):
        f = {'min': Curve.min, 'max': Curve.max, 'first': Curve.first}[name]
        kw = {'ignore_empty': True} if all_ else {}
        if case['var']:
            cs[0] = Curve.parse(cs[0])
            c = ctx.sut(k, f, *cs, **kw)
        else:
            c = ctx.sut(k, f, cs, **kw)
    else:
        tfm = (lambda x, ys: None if any(y is None for y in ys) else sum(ys) + x) if name == 'sum' else None
        default = case.get('dv', -77) if 'default' in k else None
        c = ctx.sut(k, Aggregate, cs, tfm=tfm, union=union, default=default)
    ctx.check(len(cs) == len(kept) and all(p is q for p, q in zip(cs[1:], kept[1:])), 'the list of operands handed to {} was changed', k)

    for o, p in zip(os_, made):
        if o[0] == 'p':
            settle(ctx, p, c)

    def expect(x):
        if d is None or not model.inside(x, d):
            return default
        vs = [val(o, x) for o in os_]
        present = [v for v in vs if v is not None]
        if name == 'min':
            return min(present, default=None)
        if name == 'max':
            return max(present, default=None)
        if name == 'first':
            return present[0] if present else None
        if name == 'sum':
            return None if len(present) < len(vs) else sum(vs) + x
        return vs

    ctx.check(same_iv(dom(c), d), 'domain of {} is {}, expected {}; operands {}', k, dom(c), d, os_)
    xs = [-4 + u / 4 for u in case['u']]
    for o in os_:
        e = odom(o)
        xs += [v for v in (e or ()) [:2] if math.isfinite(v)]
    inside = False
    winners = set()
    for x in xs:
        got = ctx.sut(f'y({x})', c.y, x)
        exp = expect(x)
        ctx.check(close(got, exp), 'y({!r}) of {} is {!r}, expected {!r}; operands {}', x, k, got, exp, os_)
        if d is not None and model.inside(x, d):
            inside = True
            vs = [val(o, x) for o in os_]
            if name in ('min', 'max', 'first') and exp is not None:
                winners.add(vs.index(exp))
            if any(v is None for v in vs):
                ctx.label('absent operand inside')
        else:
            ctx.label('outside')
    ctx.nontrivial(inside and len(os_) >= 2 and (len(winners) >= 2 or len(set(ds)) >= 2))
    ctx.label(k, 'winners=%d' % len(winners))


FACETS = [pointwise]
