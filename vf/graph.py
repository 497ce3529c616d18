"""Graphs of curves derived from editable sources, described by JSON.

spec = {'src': [source, ...], 'nodes': [[kind, operand, ...], ...]}

An operand is an index which is folded onto the earlier curves the derivation
is specified for (`facts`), so that every JSON value is a valid graph and
shrinking keeps it valid. `state` holds the current data of the sources; the
same spec can be built afresh over any state."""
import math
from hypothesis import strategies as st
from intervalpy import Interval
from . import gen, edits

OPS3 = ['add3', 'mul3', 'min3', 'max3', 'min3_ignore', 'max3_ignore']
OPS2 = ['add', 'sub', 'mul', 'div', 'min', 'max', 'min_ignore', 'max_ignore']


class Facts:
    """What a curve may be used for.
    acc: it steps through points, so it can be accumulated
    step: stepping is specified    finite: bounded domain
    none: may have no value inside its domain
    grid: (source, shift) when evenly spaced    exact: exact arithmetic
    sample: may be sampled without a step
    straight: a line or constant
    scanned: extremas, whose steps depend on what was scanned"""

    def __init__(self, **kw):
        self.acc = self.step = self.finite = self.sample = True
        self.none = self.straight = False
        self.exact = True
        self.scanned = False
        self.grid = None
        self.srcs = frozenset()
        self.__dict__.update(kw)

    def but(self, **kw):
        return Facts(**{**self.__dict__, **kw})


def source_facts(i, s):
    if s['kind'] == 'points':
        none = bool(s.get('none'))
        return Facts(none=none, grid=(i, 0) if s['uniform'] else None, srcs=frozenset([i]))
    if s['kind'] == 'quotes':
        return Facts(grid=(i, 0), srcs=frozenset([i]))
    return Facts(acc=False, step=False, finite=False, sample=False, straight=True, srcs=frozenset([i]))


def pick(facts, k, ok):
    el = [i for i, f in enumerate(facts) if ok(f)]
    return el[k % len(el)] if el else None


any_ = lambda f: True


def analyse(spec):
    """-> (facts of every curve, resolved nodes [(kind, operands, params)])"""
    facts = [source_facts(i, s) for i, s in enumerate(spec['src'])]
    nodes = []
    for n in spec['nodes']:
        k, a = n[0], n[1:]
        f = None
        ops = ()
        par = ()
        if k in ('neg', 'abs', 'half', 'mapx'):
            i = pick(facts, a[0], lambda f: f.sample or f.straight)
            ops = (i,)
            # stepping through extremas depends on what was scanned
            f = facts[i].but(straight=facts[i].straight and k in ('neg', 'abs', 'half'),
                             sample=facts[i].sample and not facts[i].scanned)
        elif k == 'offset':
            i = pick(facts, a[0], lambda f: f.acc)
            ops, par = (i,), (a[1],)
            g = facts[i].grid
            f = facts[i].but(grid=(g[0], g[1] + a[1]) if g else None)
        elif k in ('addc', 'mulc', 'rsubc'):
            i = pick(facts, a[0], lambda f: f.acc or f.straight)
            ops, par = (i,), (a[1],)
            f = facts[i].but()
        elif k in OPS2:
            i = pick(facts, a[0], lambda f: f.acc)
            j = pick(facts, a[1], lambda f: f.acc or f.straight)
            ops = (i, j)
            u = 'ignore' in k
            fi, fj = facts[i], facts[j]
            grid = fi.grid if (fj.straight or fi.grid == fj.grid) and not u else None
            f = Facts(acc=not u, step=not (u and fj.straight), finite=not (u and fj.straight), sample=True,
                      none=fi.none or fj.none or u,
                      grid=grid, exact=fi.exact and fj.exact and k != 'div', srcs=fi.srcs | fj.srcs)
        elif k in OPS3:
            i = pick(facts, a[0], lambda f: f.acc)
            j = pick(facts, a[1], lambda f: f.acc or f.straight)
            l = pick(facts, a[2], lambda f: f.acc)
            ops = (i, j, l)
            u = 'ignore' in k
            fs = [facts[o] for o in ops]
            bounded = all(not f.straight for f in fs)
            grids = {f.grid for f in fs if not f.straight}
            f = Facts(acc=not u, step=not u or bounded, finite=not u or bounded,
                      none=any(f.none for f in fs) or u,
                      grid=fs[0].grid if len(grids) == 1 and not u else None,
                      exact=all(f.exact for f in fs), srcs=fs[0].srcs | fs[1].srcs | fs[2].srcs)
        elif k == 'first3':
            ops = tuple(pick(facts, o, lambda f: f.acc) for o in a)
            f = Facts(acc=False, none=True, exact=False, srcs=facts[ops[0]].srcs | facts[ops[1]].srcs | facts[ops[2]].srcs)
        elif k == 'first':
            i = pick(facts, a[0], lambda f: f.acc)
            j = pick(facts, a[1], lambda f: f.acc)
            ops = (i, j)
            f = Facts(acc=False, none=True, exact=False, srcs=facts[i].srcs | facts[j].srcs)
        elif k == 'integral':
            i = pick(facts, a[0], lambda f: f.acc)
            ops, par = (i,), (a[1],)
            f = facts[i].but(exact=False)
        elif k in ('sma', 'smap', 'smma', 'tmin', 'tmax', 'tminp', 'tmaxp'):
            i = pick(facts, a[0], lambda f: f.acc and not f.none)
            ops, par = (i,), (a[1],)
            if i is not None:
                f = facts[i].but(exact=False, none=k == 'smma')
        elif k in ('ema', 'emap'):
            i = pick(facts, a[0], lambda f: f.acc)
            ops, par = (i,), (a[1],)
            f = facts[i].but(exact=False)
        elif k == 'emai':
            i = pick(facts, a[0], lambda f: f.acc)
            j = pick(facts, a[2], lambda f: f.acc or f.straight)
            ops, par = (i, j), (a[1],)
            f = facts[i].but(exact=False, none=True, srcs=facts[i].srcs | facts[j].srcs)
        elif k == 'extremas':
            i = pick(facts, a[0], lambda f: f.acc and f.exact)
            j = None
            if a[1] >= 0:
                j = pick(facts, a[1], lambda f: f.acc and f.exact)
            ops, par = (i,) if j is None else (i, j), (a[2], a[3])
            if i is not None:
                f = Facts(acc=False, step=False, none=True, exact=False, scanned=True,
                          srcs=facts[i].srcs | (facts[j].srcs if j is not None else frozenset()))
        elif k == 'ext':
            i = pick(facts, a[0], lambda f: f.acc)
            ops, par = (i,), tuple(a[1:])
            f = facts[i].but(acc=False, step=False, finite=False, exact=False, none=True, grid=None)
        elif k == 'subset':
            i = pick(facts, a[0], lambda f: f.acc or f.straight)
            ops, par = (i,), tuple(a[1:])
            f = facts[i].but(acc=False, step=False, sample=False, none=True, finite=True, straight=False, exact=False, grid=None)
        elif k == 'piecewise':
            i = pick(facts, a[0], lambda f: f.acc)
            j = pick(facts, a[1], lambda f: f.acc)
            ops, par = (i, j), tuple(a[2:])
            f = Facts(acc=False, none=True, exact=False, srcs=facts[i].srcs | facts[j].srcs)
        elif k == 'diff':
            i = pick(facts, a[0], lambda f: f.acc)
            ops, par = (i,), (a[1],)
            f = facts[i].but(none=True, exact=False)
        if f is None:
            i = 0
            k, ops, par = 'neg', (0,), ()
            f = facts[0].but()
        nodes.append((k, ops, par))
        facts.append(f)
    return facts, nodes


# -- states of the sources ----------------------------------------------------

def quote(v):
    return [v, v + 2, v - 3, v + 0.5, 10]


def initial(s):
    k = s['kind']
    if k == 'points':
        return [tuple(p) for p in s['pts']]
    if k == 'quotes':
        return [(60 * i, quote(v)) for i, v in enumerate(s['ys'])]
    if k == 'line':
        return (s['c'], s['m'])
    return s['c']


def build_source(s, state):
    """-> (editable curve, curve to derive from)"""
    from curvepy import Points, Line, Constant, Quotes
    k = s['kind']
    if k == 'points':
        c = Points(list(state), interpolation=s['interp'], uniform=s['uniform'])
        return c, c
    if k == 'quotes':
        q = Quotes('1 minute', [[x, list(v)] for x, v in state])
        return q, getattr(q, s['comp'])
    if k == 'line':
        c = Line(const=state[0], slope=state[1])
        return c, c
    c = Constant(state)
    return c, c


def resolve_edit(s, state, op):
    """-> (concrete edit, new state or edits.REJECT or None when the edit is
    outside of the documented preconditions)"""
    k = s['kind']
    if k == 'points':
        e = edits.resolve(op['e'], state)
        return e, edits.apply_model(e, state, s['uniform'])
    if k == 'quotes':
        e = op['e']
        x = state[-1][0] + 60 if state else 0
        if e[0] in ('append', 'replace', 'reset', 'clear'):
            p = (x, quote(e[1][1] if e[0] == 'append' else 4))
            return ('append', p), state + [p]
        if e[0] == 'extend':
            ps = [(x + 60 * i, quote(v)) for i, (_, v) in enumerate(e[1])]
            return ('extend', ps), state + ps
        if e[0] == 'reuse':
            ps = state[e[1]:e[1] + e[2]]
        else:
            ps = [(60 * (i + 2), quote(v)) for i, (_, v) in enumerate(zip(e[1], e[2]))]
        return ('set', ps), ps
    if k == 'line':
        return ('line', op['k'][0], op['k'][1]), (op['k'][0], op['k'][1])
    return ('const', op['k'][0]), op['k'][0]


def perform(target, e):
    if e[0] == 'line':
        target.set(const=e[1], slope=e[2])
    elif e[0] == 'const':
        target.value = e[1]
    elif type(target).__name__ == 'Quotes':
        enc = lambda p: [p[0], list(p[1])]
        if e[0] == 'append':
            target.append(enc(e[1]))
        elif e[0] == 'extend':
            target.append_list([enc(p) for p in e[1]])
        else:
            target.set([enc(p) for p in e[1]])
    else:
        edits.perform(e, target)


# -- building -----------------------------------------------------------------

class Graph:

    def __init__(self, spec, states, only=None):
        """only: build just this curve and what it derives from"""
        self.facts, self.nodes = analyse(spec)
        n_src = len(spec['src'])
        need = None if only is None else self.ancestors(n_src, only)
        self.targets = []
        self.curves = []
        for i, (s, state) in enumerate(zip(spec['src'], states)):
            if need is not None and i not in need:
                self.targets.append(None)
                self.curves.append(None)
                continue
            t, c = build_source(s, state)
            self.targets.append(t)
            self.curves.append(c)
        for i, (k, ops, par) in enumerate(self.nodes):
            if need is not None and n_src + i not in need:
                self.curves.append(None)
                continue
            self.curves.append(make(k, [self.curves[o] for o in ops], par, [self.facts[o] for o in ops]))

    def ancestors(self, n_src, i):
        need = {i}
        todo = [i]
        while todo:
            j = todo.pop()
            if j >= n_src:
                for o in self.nodes[j - n_src][1]:
                    if o not in need:
                        need.add(o)
                        todo.append(o)
        return need


def make(k, c, par, f):
    from curvepy import Curve, Piecewise
    from curvepy import Extremas
    uni = f[0].grid is not None
    a = c[0]
    if k == 'neg':
        return -a
    if k == 'abs':
        return abs(a)
    if k == 'half':
        return a.map(lambda y: y * 0.5 + 1, skip_none=True)
    if k == 'mapx':
        return a.map(lambda x, y: None if y is None else y + x / 8)
    if k == 'offset':
        return a.offset(par[0])
    if k == 'addc':
        return a + par[0]
    if k == 'mulc':
        return a * par[0]
    if k == 'rsubc':
        return par[0] - a
    if k == 'add':
        return a + c[1]
    if k == 'sub':
        return a - c[1]
    if k == 'mul':
        return a * c[1]
    if k == 'div':
        return a / (abs(c[1]) + 1)
    if k in ('min', 'max', 'min_ignore', 'max_ignore'):
        return getattr(Curve, k[:3])([a, c[1]], ignore_empty='ignore' in k)
    if k in ('add3', 'mul3'):
        return (Curve.add_many if k == 'add3' else Curve.multiply_many)(c)
    if k in OPS3:
        return getattr(Curve, k[:3])(c, ignore_empty='ignore' in k)
    if k == 'first3':
        return Curve.first(c)
    if k == 'first':
        return Curve.first([a, c[1]])
    if k == 'integral':
        return a.integral(interpolation=par[0], uniform=uni)
    if k == 'sma':
        return a.sma(par[0], uniform=uni)
    if k == 'smap':
        return a.sma(par[0], is_period=True, uniform=uni)
    if k == 'smma':
        return a.smma(par[0], uniform=uni)
    if k == 'ema':
        return a.ema(par[0], uniform=uni)
    if k == 'emap':
        return a.ema(par[0], is_period=True, uniform=uni)
    if k == 'emai':
        return a.ema(par[0], init=c[1], uniform=uni)
    if k in ('tmin', 'tmax', 'tminp', 'tmaxp'):
        m = a.trailing_min if k[:4] == 'tmin' else a.trailing_max
        return m(par[0], is_period=k.endswith('p'), uniform=uni)
    if k == 'extremas':
        ref = abs(c[1]) + 1 if len(c) > 1 else par[0]
        return Extremas(a, ref, min_deviation=par[1])
    if k == 'ext':
        kind, ends, n, p = par
        kw = {'start': ends in ('start', 'both'), 'end': ends in ('end', 'both')}
        if kind == 'sin':
            kw['period'] = p
        if kind == 'degree':
            kw['regression_degree'] = n
        if kind == 'period':
            kw['regression_period'] = p
        return a.extension({'degree': 'tangent', 'period': 'tangent'}.get(kind, kind), **kw)
    if k == 'subset':
        return a.subset(Interval(par[0], par[0] + par[1], start_open=par[2], end_open=par[3]))
    if k == 'piecewise':
        x, w1, w2 = par
        return Piecewise([a, c[1]], [Interval.closed_open(x - w1, x), Interval.closed(x, x + w2)])
    if k == 'diff':
        return a.differential(forward=par[0])
    raise AssertionError(k)


# -- generation ---------------------------------------------------------------

TAME_STEPS = [1, 1, 2, 0.5, 10, 3]
TAME_STARTS = [0, 0, 1, -3, 2.5, 100]
idx = st.integers(0, 11)
num = st.sampled_from([1, 2, -1, 0.5, 3, -2.5])


@st.composite
def st_points_source(draw, max_size=10, none=False):
    v = gen.tame_value
    if none:
        v = st.one_of(v, v, v, st.none())
    if draw(st.booleans()):
        xs = draw(gen.uneven_xs(0, max_size, starts=TAME_STARTS, max_gap=6, quanta=(1, 0.5, 0.25)))
        uniform = False
    else:
        xs = draw(gen.uniform_xs(draw(st.sampled_from([0, 3, 3])), max_size, steps=TAME_STEPS, starts=TAME_STARTS))
        uniform = draw(st.integers(0, 3)) > 0
    ys = draw(gen.values(len(xs), v))
    return {'kind': 'points', 'pts': [[x, y] for x, y in zip(xs, ys)], 'uniform': uniform, 'none': none,
            'interp': draw(st.sampled_from([0, 0, 0, -1, 1]))}


def st_other_source():
    return st.one_of(
        st.fixed_dictionaries({'kind': st.just('line'), 'c': num, 'm': num}),
        st.fixed_dictionaries({'kind': st.just('const'), 'c': num}),
        st.fixed_dictionaries({'kind': st.just('quotes'), 'ys': st.lists(st.integers(3, 40), max_size=8),
                               'comp': st.sampled_from(['open', 'high', 'low', 'close', 'hl2'])}))


def st_node():
    deg = st.integers(1, 4)
    per = st.sampled_from([1, 1.5, 2, 3, 5, 10])
    T = lambda *a: st.tuples(*[st.just(p) if isinstance(p, str) else p for p in a])
    one = lambda *ks: st.sampled_from(list(ks))
    return st.one_of(
        T(one('neg', 'abs', 'half', 'mapx'), idx),
        T('offset', idx, st.sampled_from([1, -2, 0.5, 3, 0, 25, -40])),
        T(one('addc', 'mulc', 'rsubc'), idx, num),
        T(one(*OPS2), idx, idx),
        T(one('add', 'sub', 'mul', 'first'), idx, idx),
        T(one(*OPS3, 'first3'), idx, idx, idx),
        T('integral', idx, st.sampled_from([0, 0, -1, 1])),
        T(one('sma', 'tmin', 'tmax', 'smma'), idx, deg),
        T(one('sma', 'tmin', 'tmax'), idx, deg),
        T(one('smap', 'tminp', 'tmaxp'), idx, per),
        T('ema', idx, st.sampled_from([0.5, 0.25, 1])),
        T('emap', idx, per.map(lambda p: p * 4)),
        T('emai', idx, st.sampled_from([0.5, 0.25]), idx),
        T('extremas', idx, st.one_of(st.just(-1), st.just(-1), idx), st.sampled_from([1, 2, 0.5, -1]), st.sampled_from([0, 0, 0.25])),
        T('ext', idx, st.sampled_from(['constant', 'tangent', 'degree', 'period', 'sin']), st.sampled_from(['start', 'end', 'both']), deg,
          st.sampled_from([1.5, 4, 10])),
        T('subset', idx, st.sampled_from([-3, 0, 1, 1.5]), st.sampled_from([1, 2, 4, 20]), st.booleans(), st.booleans()),
        T('piecewise', idx, idx, st.sampled_from([0, 1, 2, 2.5]), st.sampled_from([2, 5]), st.sampled_from([2, 5, 50])),
        T('diff', idx, st.booleans()),
    ).map(list)


@st.composite
def st_spec(draw, max_nodes=4, max_size=10):
    none = draw(st.integers(0, 4)) == 0
    src = [draw(st_points_source(max_size=max_size, none=none))]
    for _ in range(draw(st.integers(0, 2))):
        src.append(draw(st.one_of(st_points_source(max_size=max_size, none=none), st_other_source())))
    if draw(st.integers(0, 7)) == 0:
        src.insert(0, draw(st_other_source().filter(lambda s: s['kind'] == 'quotes')))
    nodes = draw(st.lists(st_node(), min_size=1, max_size=max_nodes))
    # the operands of a node are likely the latest curves
    for i, n in enumerate(nodes):
        if draw(st.booleans()):
            n[1] = len(src) + i - 1
    return {'src': src, 'nodes': nodes}


def st_edit_op(invalid=True):
    v = gen.tame_value
    return st.fixed_dictionaries({'s': st.integers(0, 3), 'e': edits.st_edit(v, invalid=invalid, starts=TAME_STARTS),
                                  'k': st.tuples(num, num).map(list)})


# -- reading ------------------------------------------------------------------

def grid_of(states, spec):
    """Positions of all points of the sources"""
    xs = set()
    for s, state in zip(spec['src'], states):
        if s['kind'] in ('points', 'quotes'):
            xs.update(x for x, _ in state)
    return sorted(xs)


def norm(v):
    return v
