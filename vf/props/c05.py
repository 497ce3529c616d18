"""C05: every change is announced before and after it, over an interval that
covers it."""
import math
from hypothesis import strategies as st
from intervalpy import Interval
from ..core import facet, close, short
from .. import gen, edits, graph
from ..build import iv_tuple, same_iv
from .c06 import describe

RULE = ('non-trivial: an accepted edit changed a value of a derived curve whose subscribers were called, and a subscriber restricted to a range was spared or called; '
        'distinct = distinct (facet, case)')
CASES = {'quick': 1000, 'thorough': 30000}
ASSUMPTIONS = ['callbacks read curves but do not change them',
               'ranges of restricted subscribers are longer than a point']

TOL = 1e-7


def st_case(max_nodes=4):
    op = graph.st_edit_op()
    restricted = st.tuples(st.integers(0, 7), gen.rel_interval(10), st.sampled_from(['', '', '<', '>']), st.booleans()).map(list)
    return st.fixed_dictionaries({'g': graph.st_spec(max_nodes, 8), 'ops': st.lists(op, min_size=1, max_size=4),
                                  'ranges': st.lists(restricted, min_size=1, max_size=4),
                                  'read': st.lists(st.integers(0, 7), max_size=3), 'style': st.integers(0, 3)})


def values(g, xs, i):
    c = g.curves[i]
    return [c.y(x) for x in xs]


def meets(a, r):
    """Do two intervals have a common x?"""
    lo, hi = max(a.start, r.start), min(a.end, r.end)
    if lo < hi:
        return True
    return lo == hi and a.contains(lo) and r.contains(lo)


def covered(x, ivs):
    for d in ivs:
        if d.start < x < d.end or (x == d.start and not d.start_open) or (x == d.end and not d.end_open):
            return True
    return False


class Subscriber:
    """Records the announcements of one curve"""

    def __init__(self, c, i, style, probe=None):
        self.i = i
        self.c = c
        self.events = []
        self.probe = probe
        self.keep = None
        if style == 0:
            c.add_observer(begin=self.begin, end=self.end)
        elif style == 1:
            # begin and end are subscribed to separately
            c.add_observer(begin=self.begin)
            c.add_observer(end=self.end)
        elif style == 2:
            c.add_observer(self, begin=self.begin, end=self.end)
        else:
            c.add_observer(self, begin=self.begin, end=self.end, autoremove=True, prioritize=True)

    def seen(self):
        return None if self.probe is None else (iv_tuple(self.c.domain), [self.c.y(x) for x in self.probe])

    def begin(self, interval):
        self.events.append(('begin', interval, self.seen()))

    def end(self, interval):
        self.events.append(('end', interval, self.seen()))


class Restricted:

    def __init__(self, c, i, rng, plain):
        self.i = i
        self.range = rng
        self.begins = []
        self.ends = []
        if plain:
            c.add_observer(domain=rng, begin=lambda: self.begins.append(None), end=lambda: self.ends.append(None))
        else:
            c.add_observer(domain=rng, begin=self.begins.append, end=self.ends.append)


def shifted(spec, states):
    """Positions of the points, and of the points after any of the offsets"""
    xs = graph.grid_of(states, spec)
    shifts = [0]
    for n in spec['nodes']:
        if n[0] == 'offset':
            shifts += [s + n[2] for s in shifts if s + n[2] not in shifts]
    return sorted({x + s for s in shifts[:4] for x in xs})


def probes(spec, states):
    ps = shifted(spec, states)
    mid = [(p + q) / 2 for p, q in zip(ps, ps[1:])]
    return mid, ps


@facet('announcements', st_case, weight=4)
def announcements(case, ctx):
    spec = case['g']
    states = [graph.initial(s) for s in spec['src']]
    live = graph.Graph(spec, states)
    n_src, n = len(states), len(live.curves)
    subs = None
    xs0 = shifted(spec, states)
    restricted = []
    for i, r, inf, plain in case['ranges']:
        a, b, ao, bo = gen.resolve_interval(xs0, r)
        if a == b:
            b = a + 0.5
        rng = Interval(a, b, start_open=ao, end_open=bo)
        if inf == '<':
            rng = Interval.lte(b)
        elif inf == '>':
            rng = Interval.gt(a)
        restricted.append(Restricted(live.curves[i % n], i % n, rng, plain))
    for k in case['read']:
        # something was computed before
        live.curves[k % n].y(xs0[-1] if xs0 else 0)
    subs = [Subscriber(c, i, case['style']) for i, c in enumerate(live.curves)]
    nontrivial = False
    for op in case['ops']:
        k = op['s'] % n_src
        e, new = graph.resolve_edit(spec['src'][k], states[k], op)
        if new is None:
            continue
        for s in subs:
            s.events = []
        for r in restricted:
            r.begins.clear()
            r.ends.clear()
        if new == edits.REJECT:
            ctx.raises(f'edit {e}', graph.perform, live.targets[k], e)
            ctx.label('rejected edit')
            for s in subs:
                ctx.check(not s.events and not s.c.is_updating, 'the rejected edit {} was announced by curve {}: {}', e, describe(live, spec, s.i), s.events)
            continue
        after_states = list(states)
        after_states[k] = new
        m1, p1 = probes(spec, states)
        m2, p2 = probes(spec, after_states)
        ps = sorted(set(m1 + p1 + m2 + p2))
        if ps:
            ps = [ps[0] - 3, ps[0] - 0.5] + ps + [ps[-1] + 0.5, ps[-1] + 3]
        else:
            ps = [0, 1]
        look = ps[:: max(1, len(ps) // 5)]
        for s in subs:
            s.probe = look
        before = graph.Graph(spec, states)
        after = graph.Graph(spec, after_states)
        ctx.sut(f'edit {e} of source {k}', graph.perform, live.targets[k], e)
        # judged against graphs which were not read during the change
        for s in subs:
            i = s.i
            name = f'curve {i} {describe(live, spec, i)}'
            ev = s.events
            ctx.check(not s.c.is_updating, '{} is still updating after {}', name, e)
            ctx.check(s.c.update_interval.is_empty, '{} still reports an update interval after {}', name, e)
            old, now = values(before, ps, i), values(after, ps, i)
            diff = [x for x, p, q in zip(ps, old, now) if not close(p, q, TOL)]
            begins = [d for t, d, _ in ev if t == 'begin']
            ends = [d for t, d, _ in ev if t == 'end']
            if not ev:
                ctx.check(not diff, '{} changed at {} by {} but announced nothing', name, diff, e)
                continue
            ctx.check(ev[0][0] == 'begin', '{} announced the end of {} first: {}', name, e, short(ev))
            ctx.check(ev[-1][0] == 'end', '{} did not announce the end of {}: {}', name, e, short(ev))
            for x in diff:
                ctx.check(covered(x, begins), '{} changed at {} by {} outside of what was announced to begin: {} (sources {})', name, x, e, begins, states)
                ctx.check(covered(x, ends), '{} changed at {} by {} outside of what was announced to end: {} (sources {})', name, x, e, ends, states)
            for d in begins:
                u = Interval.union(ends)
                ctx.check(u.is_superset_of(d), '{} announced the begin of {} over {} but the end over {}', name, e, d, ends)
            # before, the old values; after, the new ones
            d0, v0 = ev[0][2]
            ctx.check(same_iv(d0, iv_tuple(before.curves[i].domain)) and agree(v0, values(before, look, i)),
                      '{} answers {} at {} at the begin of {}, before it was {}', name, v0, look, e, values(before, look, i))
            ctx.check(len(ends) == 1, '{} announced the end of {} {} times: {}', name, e, len(ends), short(ev))
            d1, v1 = ev[-1][2]
            ctx.check(same_iv(d1, iv_tuple(after.curves[i].domain)) and agree(v1, values(after, look, i)),
                      '{} answers {} at {} at the end of {}, afresh it is {} (sources {})', name, v1, look, e, values(after, look, i), after_states)
            if diff and i >= n_src:
                nontrivial = True
                ctx.label('kind ' + live.nodes[i - n_src][0])
        for r in restricted:
            ev = subs[r.i].events
            for what, got in (('begin', r.begins), ('end', r.ends)):
                ann = [d for t, d, _ in ev if t == what]
                if any(d.start == d.end and d.start in (r.range.start, r.range.end) for d in ann):
                    continue
                exp = [d for d in ann if meets(d, r.range)]
                ctx.check(len(got) == len(exp), 'a subscriber to {} of curve {} was called {} times at the {} of {} announced over {}, expected {}',
                          r.range, describe(live, spec, r.i), len(got), what, e, ann, len(exp))
                if ann:
                    ctx.label('restricted called' if exp else 'restricted spared')
        ctx.label('edit ' + e[0])
        states = after_states
    ctx.nontrivial(nontrivial)


def agree(a, b):
    return len(a) == len(b) and all(close(p, q, TOL) for p, q in zip(a, b))


def st_function():
    num = st.sampled_from([0, 1, 2, -1, 0.5, 3])
    return st.fixed_dictionaries({
        'kind': st.sampled_from(['line', 'const', 'const domain', 'sin']),
        'a': st.tuples(num, num).map(list), 'sets': st.lists(st.tuples(num, num).map(list), min_size=1, max_size=4),
        'd': st.sampled_from(['self', 'neg', 'abs', 'sum', 'offset', 'ext', 'subset', 'chain', 'reuse']),
        'r': st.tuples(st.sampled_from([-5, 0, 1]), st.sampled_from([1, 2, 50]), st.booleans()).map(list)})


@facet('changed functions', st_function)
def functions(case, ctx):
    """Lines, constants and sine waves announce being redefined."""
    from curvepy import Line, Constant, Sin, Points

    def make(p):
        k = case['kind']
        if k == 'line':
            return Line(const=p[0], slope=p[1])
        if k == 'sin':
            return Sin(amplitude=p[0], period=abs(p[1]) + 1)
        return Constant(p[0], domain=Interval.closed(-2, 4) if k == 'const domain' else None)

    def assign(c, p):
        k = case['kind']
        if k == 'line':
            c.set(const=p[0], slope=p[1])
        elif k == 'sin':
            c.set(amplitude=p[0], period=abs(p[1]) + 1)
        else:
            c.value = p[0]

    base = Points([(0, 1), (1, 3), (3, 2)], uniform=False)

    def derive(c):
        k = case['d']
        return {'self': lambda: c, 'neg': lambda: -c, 'abs': lambda: abs(c), 'sum': lambda: c + base, 'offset': lambda: c.offset(2),
                'ext': lambda: (base + c).extension('constant', start=True), 'subset': lambda: c.subset([-1, 3]),
                'chain': lambda: (2 * (c + 1)).map(lambda y: None if y is None else y - 1), 'reuse': lambda: c * c + c}[k]()
    c = make(case['a'])
    d = derive(c)
    xs = [-7, -2, -1, -0.5, 0, 0.5, 1, 1.5, 2, 3, 3.5, 4, 10, 60]
    sub = Subscriber(d, 0, 0, xs)
    a, w, op = case['r']
    rng = Interval(a, a + w, start_open=op, end_open=False)
    res = Restricted(d, 0, rng, False)
    for p in case['sets']:
        sub.events = []
        res.begins.clear()
        old = [d.y(x) for x in xs]
        ctx.sut(f'set {p}', assign, c, p)
        exp = derive(make(p))
        new = [exp.y(x) for x in xs]
        now = [d.y(x) for x in xs]
        ctx.check(agree(now, new), 'after setting {} the curve is {} at {}, expected {}', p, now, xs, new)
        diff = [x for x, q, r in zip(xs, old, new) if not close(q, r, TOL)]
        ev = sub.events
        ctx.check(not c.is_updating and not d.is_updating, 'still updating after setting {}', p)
        if not ev:
            ctx.check(not diff, 'changed at {} but announced nothing', diff)
            continue
        ctx.check(ev[0][0] == 'begin' and ev[-1][0] == 'end', 'announced {}', short(ev))
        for x in diff:
            for t in ('begin', 'end'):
                ctx.check(covered(x, [q for k, q, _ in ev if k == t]), 'changed at {} outside of what was announced to {}: {}', x, t, short(ev))
        ctx.check(agree(ev[0][2][1], old), 'values at the begin are {}, before they were {}', ev[0][2][1], old)
        ctx.check(agree(ev[-1][2][1], new), 'values at the end are {}, expected {}', ev[-1][2][1], new)
        ann = [q for k, q, _ in ev if k == 'begin']
        ctx.check(len(res.begins) == len([q for q in ann if meets(q, rng)]), 'a subscriber to {} was called {} times for {}', rng, len(res.begins), ann)
        ctx.nontrivial(bool(diff))
    ctx.label(case['kind'], 'derived ' + case['d'])


@st.composite
def st_diamond(draw):
    """A change reaches the last curve twice, at different x"""
    case = draw(st_case(2))
    g = case['g']
    g['src'] = [draw(graph.st_points_source(max_size=8))]
    n = len(g['nodes'])
    via = draw(st.sampled_from([0, n]))
    last = n + 1
    g['nodes'] += [['offset', via, draw(st.sampled_from([25, -40, 4, -3]))],
                   [draw(st.sampled_from(['add', 'sub', 'max', 'first'])), *draw(st.permutations([via, last]))]]
    if draw(st.booleans()):
        # and a third time, perhaps by a curve of several operands
        g['nodes'] += [['add', last, draw(st.sampled_from([via, last]))]]
        g['nodes'] += [[draw(st.sampled_from(graph.OPS3 + ['first3'])), *draw(st.permutations([0, via, n + 3]))]]
    # subscribers are around the two images
    case['ranges'] = [[n + 2, r, inf, plain] for _, r, inf, plain in case['ranges']]
    return case


@facet('twice', st_diamond, weight=1)
def twice(case, ctx):
    announcements.run(case, ctx)


FACETS = [announcements, twice, functions]
