"""C18: a JSON description means the curve or value it spells out."""
import copy
import json
import math
from datetime import datetime, timedelta, timezone
from hypothesis import strategies as st
from intervalpy import Interval
from ..core import facet, close, Skip
from .. import gen

RULE = ('non-trivial: the description nests or chains at least two functions, or uses a decorator; distinct = distinct (facet, case)')
CASES = {'quick': 3000, 'thorough': 70000}
ASSUMPTIONS = ['decorators reach positional arguments and lists; a named argument that is a plain literal is taken as written',
               'dates carry an explicit offset and whole seconds',
               'inside a logarithmic decorator every number literal is positive',
               'the first positional argument of a many-operand function is not a bare list of pairs (it would be taken as the list of operands)']

MANY = ['add', 'subtract', 'multiply', 'divide', 'min', 'max', 'first']
MANY_LOG = ['add', 'subtract', 'min', 'max', 'first']
INST = ['abs', 'additive_inverse', 'offset']
INST_P = ['sma', 'ema', 'integral', 'trailing_min', 'trailing_max', 'extension', 'differential', 'smma']
LOGS = {'log': math.e, 'log2': 2, 'log10': 10}


# -------------------------------------------------------------- generation

def lit(log):
    return st.sampled_from([1, 2, 4, 8, 10, 16, 100, 0.5, 3.5, 1000]) if log else st.one_of(st.integers(-9, 9), st.sampled_from([0.5, -2.25, 100, 1e3]))


def st_date():
    return st.tuples(st.integers(0, 2 * 10 ** 9), st.sampled_from([0, 60, -300, 720, 330, -570]), st.integers(0, 3)).map(list)


def st_x(log):
    return st.one_of(lit(log), lit(log), st_date().map(lambda d: ['date', d]))


def st_pts(log):
    return st.tuples(st.integers(-3, 3) if not log else st.integers(0, 2), st.lists(lit(log), min_size=3, max_size=6)).map(list)


def st_operand(log, depth):
    alts = [st.tuples(st.just('lit'), lit(log)).map(list)]
    if depth > 0:
        alts += [st.tuples(st.just('curve'), st_chain(log, depth - 1)).map(list)] * 2
    if not log:
        alts.append(st.tuples(st.just('pts'), st_pts(log)).map(list))
    return st.one_of(*alts)


def st_many(log, depth):
    op = st_operand(log, depth)
    return st.tuples(st.just('many'), st.sampled_from(MANY_LOG if log else MANY), st.sampled_from(['list', 'list', 'args', 'nested', 'single']),
                     st.lists(op, min_size=1, max_size=4)).map(list)


def st_inst_step(log, point_based):
    names = INST + (INST_P if point_based and not log else [])
    return st.tuples(st.just('inst'), st.sampled_from(names), st.integers(1, 3), st.booleans()).map(list)


@st.composite
def st_chain(draw, log=False, depth=2):
    first = draw(st.sampled_from(['const', 'const', 'line', 'many', 'many', 'pts', 'deco', 'log', 'pow']))
    point_based = False
    if first == 'const':
        head = ['const', draw(st.sampled_from(['const', 'constant'])), draw(lit(log)), draw(st.integers(0, 3))]
    elif first == 'line':
        head = ['line', draw(st.sampled_from(['const', 'p1', 'points', 'p12'])), draw(st_x(log)), draw(lit(log)), draw(st_x(log)), draw(lit(log))]
    elif first == 'many':
        head = draw(st_many(log, depth))
    elif first == 'pts' and not log:
        head = ['pts', draw(st_pts(log)), draw(st_inst_step(log, True))]
        point_based = head[2][1] != 'extension'
    elif first == 'deco' and not log:
        kind = draw(st.sampled_from(['log', 'log2', 'log10', 'date']))
        head = ['deco', kind, draw(st_chain(kind != 'date', max(0, depth - 1)))]
    elif first == 'log' and not log:
        head = ['log', draw(st.sampled_from(['log', 'log2', 'log10', 'base2'])), draw(st.integers(1, 100))]
    elif first == 'pow' and not log:
        head = ['pow', draw(st.sampled_from(['pow', 'raised', 'raised_named'])), draw(st.integers(1, 5)), draw(st.integers(0, 3))]
    else:
        head = ['const', 'const', draw(lit(log)), 0]
    steps = []
    for _ in range(draw(st.integers(0, 2 if depth else 1))):
        k = draw(st.sampled_from(['many', 'inst', 'inst', 'deco']))
        if k == 'many':
            steps.append(draw(st_many(log, max(0, depth - 1))))
            point_based = False
        elif k == 'inst':
            steps.append(draw(st_inst_step(log, point_based)))
            point_based = point_based and steps[-1][1] != 'extension'
        elif not log:
            steps.append(['decostep', draw(st.sampled_from(['log', 'log2', 'log10'])), draw(st.sampled_from(['add', 'min', 'subtract'])), draw(lit(True))])
            point_based = False
    return [head] + steps


# ------------------------------------------------- rendering to a description

def date_str(d):
    t, off, form = d
    tz = timezone(timedelta(minutes=off))
    dt = datetime.fromtimestamp(t - (t % 60 if form in (1, 2) else 0), tz)
    if form == 0:
        return dt.isoformat()
    if form == 1:
        return dt.strftime('%Y-%m-%d %H:%M%z')
    if form == 2:
        return dt.strftime('%Y-%m-%dT%H:%M') + dt.strftime('%z')[:3] + ':' + dt.strftime('%z')[3:]
    return dt.strftime('%Y-%m-%d %H:%M:%S%z')


def date_value(d):
    return d[0] - (d[0] % 60 if d[2] in (1, 2) else 0)


def r_x(x):
    return {'@date': date_str(x[1])} if isinstance(x, list) else x


def r_pts(p):
    return [[p[0] + i, y] for i, y in enumerate(p[1])]


def r_operand(o):
    if o[0] == 'lit':
        return o[1]
    if o[0] == 'pts':
        return r_pts(o[1])
    return render(o[1])


def inst_params(name, n, flag):
    """-> (args, kwargs)"""
    if name in ('abs', 'additive_inverse'):
        return [], {}
    if name == 'offset':
        return [n], {}
    if name in ('sma', 'trailing_min', 'trailing_max', 'smma'):
        return [n], {'uniform': False} if flag and name == 'sma' else {}
    if name == 'ema':
        return [n / 4], {}
    if name == 'integral':
        return [], {'const': n} if flag else {}
    if name == 'extension':
        return [], {'name': 'constant', 'start': flag}
    if name == 'differential':
        return [], {'forward': flag}
    raise AssertionError(name)


def r_args(args, kw):
    if kw and args:
        return {'@args': args, **kw}
    if kw:
        return kw
    return args


def can_nest(ops):
    # a list of two plain items would be taken for a point
    return True


def render_step(step, out, first=False):
    k = step[0]
    if k == 'many':
        ops = [r_operand(o) for o in step[3]]
        style = step[2]
        v = ops
        if first and step[3][0][0] == 'pts':
            v = [ops]
        elif not first and step[3][0][0] == 'pts':
            v = [ops]
        elif style == 'args':
            v = {'@args': ops}
        elif style == 'nested':
            v = [ops]
        elif style == 'single' and len(ops) == 1 and not isinstance(ops[0], list):
            # a description of a curve is itself a mapping
            v = ops[0]
        put(out, '$' + step[1], v)
    elif k == 'inst':
        a, kw = inst_params(*step[1:])
        put(out, '$' + step[1], r_args(a, kw))
    elif k == 'decostep':
        put(out, '@' + step[1], {'$' + step[2]: step[3]})
    else:
        raise AssertionError(k)


class Dup(Exception):
    pass


def put(out, k, v):
    if k in out:
        raise Dup()
    out[k] = v


def render(chain):
    out = {}
    h = chain[0]
    k = h[0]
    if k == 'const':
        v = [h[2], [h[2]], {'@args': [h[2]]}, {'y': h[2]}][h[3]]
        out['$' + h[1]] = v
    elif k == 'line':
        _, form, x0, y0, x1, y1 = h
        if form == 'const':
            out['$line'] = {'const': y0, 'slope': y1}
        elif form == 'p1':
            out['$line'] = {'p1': [r_x(x0), y0], 'slope': y1}
        elif form == 'p12':
            out['$line'] = {'p1': [r_x(x0), y0], 'p2': [r_x(x1), y1]}
        else:
            out['$line'] = {'points': [[r_x(x0), y0], [r_x(x1), y1]]}
    elif k == 'many':
        render_step(h, out, first=True)
    elif k == 'pts':
        a, kw = inst_params(*h[2][1:])
        out['$' + h[2][1]] = r_args([r_pts(h[1])] + a, kw)
    elif k == 'deco':
        out['@' + h[1]] = render(h[2])
    elif k == 'log':
        out['$' + ('log' if h[1] == 'base2' else h[1])] = {'@args': [h[2]], 'base': 2} if h[1] == 'base2' else h[2]
    elif k == 'pow':
        if h[1] == 'pow':
            out['$pow'] = [h[2], h[3]]
        elif h[1] == 'raised':
            out['$raised'] = [h[3], h[2]]
        else:
            out['$raised'] = {'@args': [h[3]], 'base': h[2]}
    for s in chain[1:]:
        render_step(s, out)
    return out


# -------------------------------------------------- meaning, built by hand

def conv(v, space):
    return v if space is None else math.log(v, space) if space != math.e else math.log(v)


def m_x(x, space):
    return date_value(x[1]) if isinstance(x, list) else conv(x, space)


def m_pts(p, space):
    return [(conv(x, space), conv(y, space)) for x, y in r_pts(p)]


def m_operand(o, space):
    from curvepy import Points
    if o[0] == 'lit':
        return conv(o[1], space)
    if o[0] == 'pts':
        return Points(m_pts(o[1], space))
    return meaning(o[1], space)


def m_many(name, ops):
    from curvepy import Curve
    f = {'add': Curve.add_many, 'subtract': Curve.subtract_many, 'multiply': Curve.multiply_many, 'divide': Curve.divide_many,
         'pow': Curve.pow_many, 'min': Curve.min, 'max': Curve.max, 'first': Curve.first}[name]
    return f(ops)


def m_step(c, step, space):
    k = step[0]
    if k == 'many':
        return m_many(step[1], [c] + [m_operand(o, space) for o in step[3]])
    if k == 'inst':
        a, kw = inst_params(*step[1:])
        a = [v if isinstance(v, str) else conv(v, space) for v in a]
        return getattr(c, step[1])(*a, **kw)
    b = LOGS[step[1]]
    return m_many('pow', [b, m_many(step[2], [c, conv(step[3], b)])])


def meaning(chain, space=None):
    from curvepy import Constant, Line, Points
    h = chain[0]
    k = h[0]
    if k == 'const':
        c = Constant(h[2] if h[3] == 3 else conv(h[2], space))
    elif k == 'line':
        _, form, x0, y0, x1, y1 = h
        if form == 'p1':
            slope = y1
        if form != 'const':
            x0, x1, y0, y1 = m_x(x0, space), m_x(x1, space), conv(y0, space), conv(y1, space)
        c = Line(const=y0, slope=y1) if form == 'const' else Line(p1=(x0, y0), slope=slope) if form == 'p1' else Line(p1=(x0, y0), p2=(x1, y1))
    elif k == 'many':
        c = m_many(h[1], [m_operand(o, space) for o in h[3]])
    elif k == 'pts':
        c = m_step(Points(m_pts(h[1], space)), h[2], space)
    elif k == 'deco':
        if h[1] == 'date':
            c = meaning(h[2], space)
        else:
            b = LOGS[h[1]]
            c = m_many('pow', [b, meaning(h[2], b)])
    elif k == 'log':
        b = 2 if h[1] == 'base2' else LOGS[h[1]]
        c = m_many('pow', [math.log(h[2], b) if b != math.e else math.log(h[2]), 1])
    elif k == 'pow':
        c = m_many('pow', [h[2], h[3]])
    for s in chain[1:]:
        c = m_step(c, s, space)
    return c


def answer(c, x):
    try:
        y = c.y(float(x))
    except (OverflowError, ZeroDivisionError, ValueError, TypeError) as e:
        return type(e).__name__
    if isinstance(y, complex):
        return 'complex'
    if y is not None and abs(y) > 1e100:
        return 'huge'
    return y


def size(chain):
    n = len(chain)
    for s in chain:
        for v in s:
            if isinstance(v, list):
                n += sum(size(o[1]) for o in v if isinstance(o, list) and o and o[0] == 'curve')
        if s[0] == 'deco':
            n += 1 + size(s[2])
        if s[0] == 'decostep':
            n += 2
    return n


def st_description():
    return st.fixed_dictionaries({'c': st_chain(), 'x': st.lists(st.sampled_from([0, 1, -1, 0.5, 2, 3, 1.5, 4, -2.5, 100, 1577836800]), min_size=1, max_size=5, unique=True),
                                  'via': st.sampled_from(['parse', 'descriptor', 'fragment'])})


def same_curve(c, m, xs, ctx, desc):
    from curvepy import Curve
    ctx.check(isinstance(c, Curve), '{} gives {!r}, not a curve', desc, c)
    ctx.check(str(c.domain) == str(m.domain), '{}: domain {}, by hand {}', desc, c.domain, m.domain)
    for x in xs:
        got, exp = answer(c, x), answer(m, x)
        ctx.check(close(got, exp, 1e-9), '{}: y({}) = {!r}, by hand {!r}', desc, x, got, exp)


def same_line(got, exp):
    return got == exp


@facet('description', st_description, weight=5)
def description(case, ctx):
    from curvepy import Curve
    try:
        d = render(case['c'])
    except Dup:
        ctx.label('left out: the same key twice')
        return
    try:
        m = meaning(case['c'])
    except ZeroDivisionError:
        return
    keep = copy.deepcopy(d)
    text = json.dumps(d)

    def parse():
        if case['via'] == 'parse':
            return Curve.parse(d)
        if case['via'] == 'descriptor':
            return Curve.parse_descriptor(d)
        return Curve.parse_descriptor(d, fragment=True)
    c = ctx.sut('parsing ' + text, parse)
    ctx.check(d == keep, 'parsing changed the description from {} to {}', keep, d)
    same_curve(c, m, case['x'], ctx, text)
    c2 = ctx.sut('parsing again ' + text, parse)
    same_curve(c2, m, case['x'], ctx, 'again ' + text)
    # as read from JSON text
    c3 = ctx.sut('parsing ' + text, Curve.parse, json.loads(text))
    same_curve(c3, m, case['x'], ctx, 'reread ' + text)
    ctx.nontrivial(size(case['c']) >= 2)
    ctx.label(case['c'][0][0], *['step ' + s[0] for s in case['c'][1:]])


# ---------------------------------------------------------------- fragments

def st_fragment():
    leaf = st.one_of(st.integers(-9, 9).map(lambda v: ['v', v]), st.sampled_from(['a', '', '2020', 'x y']).map(lambda v: ['v', v]),
                     st.none().map(lambda v: ['v', v]), st.sampled_from([True, False, 1.5]).map(lambda v: ['v', v]),
                     st_date().map(lambda d: ['date', d]),
                     st.tuples(st.sampled_from(['log', 'log2', 'log10']), st.sampled_from([1, 2, 8, 10, 1000, 0.5])).map(lambda t: ['space', *t]),
                     st_chain(False, 1).map(lambda c: ['curve', c]))
    return st.recursive(leaf, lambda ch: st.one_of(
        st.lists(ch, max_size=3).map(lambda l: ['list', l]),
        st.lists(st.tuples(st.sampled_from(['k', 'price', 'points', 'name']), ch).map(list), max_size=3, unique_by=lambda t: t[0]).map(lambda l: ['map', l]),
        st.tuples(st.lists(st_date(), max_size=3), st.integers(-5, 5)).map(lambda t: ['dates', *t]),
    ), max_leaves=8)


def f_render(f):
    k = f[0]
    if k == 'v':
        return f[1]
    if k == 'date':
        return {'@date': date_str(f[1])}
    if k == 'space':
        return {'@' + f[1]: f[2]}
    if k == 'curve':
        return render(f[1])
    if k == 'list':
        return [f_render(v) for v in f[1]]
    if k == 'dates':
        return {'@date': [date_str(d) for d in f[1]] + [f[2] + 0.5, None]}
    return {n: f_render(v) for n, v in f[1]}


def f_check(f, got, ctx, text):
    k = f[0]
    if k == 'v':
        ctx.check(type(got) is type(f[1]) and got == f[1], '{}: {!r} became {!r}', text, f[1], got)
    elif k == 'date':
        ctx.check(got == date_value(f[1]), '{}: date {} became {!r}, expected {}', text, date_str(f[1]), got, date_value(f[1]))
    elif k == 'space':
        ctx.check(close(got, f[2], 1e-9), '{}: {} through log space became {!r}', text, f[2], got)
    elif k == 'curve':
        same_curve(got, meaning(f[1]), [0, 1, 1.5], ctx, text)
    elif k == 'list':
        ctx.check(isinstance(got, list) and len(got) == len(f[1]), '{}: list became {!r}', text, got)
        for v, g in zip(f[1], got):
            f_check(v, g, ctx, text)
    elif k == 'dates':
        exp = [date_value(d) for d in f[1]] + [f[2] + 0.5, None]
        ctx.check(got == exp, '{}: dates became {!r}, expected {}', text, got, exp)
    else:
        ctx.check(isinstance(got, dict) and list(got) == [n for n, _ in f[1]], '{}: mapping became {!r}', text, got)
        for n, v in f[1]:
            f_check(v, got[n], ctx, text)


def f_size(f):
    if f[0] == 'list':
        return 1 + sum(f_size(v) for v in f[1])
    if f[0] == 'map':
        return 1 + sum(f_size(v) for _, v in f[1])
    return 0 if f[0] == 'v' else 1


@facet('fragment', lambda: st.fixed_dictionaries({'f': st_fragment(), 'as_value': st.booleans()}), weight=2)
def fragment(case, ctx):
    from curvepy import Curve
    f = case['f']
    if case['as_value']:
        # as the README: named values at the top
        f = ['map', [['price', f]]]
    try:
        d = f_render(f)
    except Dup:
        return
    keep = copy.deepcopy(d)
    text = json.dumps(d)
    got = ctx.sut('parsing ' + text, Curve.parse_descriptor, d, fragment=True)
    ctx.check(d == keep, 'parsing changed the description from {} to {}', keep, d)
    f_check(f, got, ctx, text)
    if isinstance(d, dict) and case['as_value']:
        got = ctx.sut('parsing ' + text, Curve.parse_descriptor, d)
        f_check(f, got, ctx, text)
    ctx.nontrivial(f_size(f) >= 3)


# --------------------------------------------------------------- rejections

BAD = [
    lambda d, n: {**d, '$nosuch': [1]}, lambda d, n: {'$nosuch': [d]}, lambda d, n: {'$Line': {'const': 1, 'slope': 2}},
    lambda d, n: {**d, 'x': n}, lambda d, n: {**d, 'points': [[0, 1]]}, lambda d, n: {**d, 'extra': {'$const': n}},
    lambda d, n: {'$line': {'const': n, '@log2': 4}}, lambda d, n: {'$line': {'@date': '2020-01-01T00:00Z', 'slope': n}},
    lambda d, n: {'$line': {'const': n}}, lambda d, n: {'$line': {'slope': n}}, lambda d, n: {'$line': {'p1': [n, n]}},
    lambda d, n: {'$add': [1, 'x']}, lambda d, n: {'$add': ['2020-01-01']}, lambda d, n: {'$add': [1, {'$nosuch': n}]},
    lambda d, n: {'@log2': {'$nosuch': [n]}}, lambda d, n: {'@log2': {**d, 'x': n}}, lambda d, n: {'$abs': []}, lambda d, n: {'$sma': []},
    lambda d, n: [d], lambda d, n: n,
]


@facet('rejected', lambda: st.fixed_dictionaries({'c': st_chain(False, 1), 'bad': st.integers(0, len(BAD) - 1), 'n': st.integers(1, 9)}), weight=1)
def rejected(case, ctx):
    from curvepy import Curve
    try:
        good = render(case['c'])
        m = meaning(case['c'])
    except (Dup, ZeroDivisionError):
        return
    bad = BAD[case['bad']](good, case['n'])
    keep = copy.deepcopy(bad)
    ctx.raises(f'description {bad}', Curve.parse_descriptor, bad)
    ctx.check(bad == keep, 'parsing changed the description from {} to {}', keep, bad)
    # a rejected description leaves nothing behind
    c = ctx.sut(f'parsing {good}', Curve.parse_descriptor, good)
    same_curve(c, m, [0, 1, 1.5], ctx, f'{good} after a rejected description')
    ctx.nontrivial()
    ctx.label(f'bad {case["bad"]}')


FACETS = [description, fragment, rejected]
