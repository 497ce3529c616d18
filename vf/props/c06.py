"""C06: derived curves are never stale."""
from hypothesis import strategies as st
from ..core import facet, close, Skip, short
from .. import gen, edits, graph
from ..build import iv_tuple, same_iv

RULE = ('non-trivial: a derived curve had been read before an accepted edit of one of its sources, its values differ before and after that edit, '
        'and it was read again; distinct = distinct (facet, case)')
CASES = {'quick': 1400, 'thorough': 60000}
ASSUMPTIONS = ['the freshly built derivation is judged by the other properties; here it is the oracle',
               'accumulating curves over extensions, subsets or combinations with gaps are not built',
               'a subset over a range which stays fixed while its source changes']


def st_read():
    return st.tuples(st.just('read'), st.integers(0, 7),
                     st.sampled_from(['y', 'y', 'y', 'domain', 'samples', 'part', 'next', 'previous', 'neighbour', 'slope', 'ends', 'walk', 'range', 'full range', 'step', 'regression', 'all']),
                     gen.pos(10), gen.rel_interval(10)).map(list)


def st_case(max_nodes=4, max_ops=10):
    op = st.one_of(graph.st_edit_op().map(lambda e: ['edit', e]), st_read(), st_read())
    return st.fixed_dictionaries({'g': graph.st_spec(max_nodes), 'ops': st.lists(op, min_size=1, max_size=max_ops),
                                  'end': gen.positions(10, 1, 5)})


TOL = 1e-7


def interval_of(xs, r):
    from intervalpy import Interval
    a, b, ao, bo = gen.resolve_interval(xs, r)
    return Interval(a, b, start_open=ao, end_open=bo)


def observe(c, f, kind, xs, pos, iv):
    """One read. Returns a list of comparable things."""
    x = gen.resolve(xs, pos)
    if kind == 'y':
        return [x, c.y(x)]
    if kind == 'domain':
        return [iv_tuple(c.domain)]
    if kind == 'samples' and f.finite and f.sample:
        return [tuple(p) for p in c.sample_points()]
    if kind in ('part', 'samples'):
        d = interval_of(xs, iv)
        if f.sample:
            return [tuple(p) for p in c.sample_points(d)]
        return [tuple(p) for p in c.sample_points(d, step=max((d.end - d.start) / 4, 0.25))]
    if kind == 'next' and f.step:
        return [x, c.x_next(x)]
    if kind == 'previous' and f.step:
        return [x, c.x_previous(x)]
    if kind == 'neighbour' and f.step:
        return [x, c.next_point(x), c.previous_point(x)]
    if kind == 'ends' and f.finite and not c.domain.is_empty:
        return [c.y_start(), c.y_end(), c.first_point(), c.last_point()]
    if kind == 'walk' and f.step:
        return [tuple(p) for p in c.sample_points_from_x(x, 3, open=bool(iv[2]), backward=bool(iv[3]))] if not c.domain.is_empty else []
    if kind == 'range' and f.sample and not f.none:
        return [iv_tuple(c.get_range(interval_of(xs, iv)))]
    if kind == 'full range' and f.finite and f.sample and not f.none:
        # of all of the curve, at different steps
        d = c.domain
        if d.is_empty or not (iv[2] or iv[3]):
            return [iv_tuple(c.get_range())]
        return [iv_tuple(c.get_range(step=(d.end - d.start + 0.25) / (2 if iv[2] else 3)))]
    if kind == 'step' and f.step:
        m = [0.5, 1, 2, 7][bool(iv[2]) + 2 * bool(iv[3])]
        return [x, c.x_next(x, min_step=m), c.x_previous(x, min_step=m)]
    if kind == 'regression' and f.finite and f.sample and not f.none:
        r = c.regression() if iv[2] else c.regression(interval_of(xs, iv))
        return [None] if r is None else [r.y(x), r.slope]
    if kind == 'slope' and f.acc:
        return [x, c.d_y(x), c.d_y(x, forward=True)]
    return [x, c.y(x)]


def agree(a, b):
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        if isinstance(p, tuple) and isinstance(q, tuple) and len(p) == 4:
            if not same_iv(p, q):
                return False
        elif not close(p, q, TOL):
            return False
    return True


def compare(live, spec, states, i, kinds, pos, iv, ctx, what):
    f = live.facts[i]
    xs = graph.grid_of(states, spec)
    out = []
    for kind in kinds:
        fresh = graph.Graph(spec, states, only=i)
        exp = observe(fresh.curves[i], f, kind, xs, pos, iv)
        got = observe(live.curves[i], f, kind, xs, pos, iv)
        ctx.check(agree(got, exp), '{}: {} of curve {} {} is {}, built afresh it is {} (sources {})',
                  what, kind, i, describe(live, spec, i), short(got, 500), short(exp, 500), states)
        out.append(exp)
    return out


def describe(g, spec, i):
    n = len(spec['src'])
    if i < n:
        return spec['src'][i]['kind'] + str(i)
    k, ops, par = g.nodes[i - n]
    return f'{k}({", ".join([describe(g, spec, o) for o in ops] + [repr(p) for p in par])})'


@facet('histories', st_case, weight=3)
def histories(case, ctx):
    spec = case['g']
    states = [graph.initial(s) for s in spec['src']]
    live = graph.Graph(spec, states)
    n_src, n = len(spec['src']), len(live.curves)
    read = set()
    changed = set()
    for op in case['ops']:
        xs = graph.grid_of(states, spec)
        if op[0] == 'read':
            i = n_src + op[1] % (n - n_src)
            kinds = [op[2]] if op[2] != 'all' else ['y', 'domain', 'samples', 'part', 'next', 'previous']
            compare(live, spec, states, i, kinds, op[3], op[4], ctx, 'read')
            read.add(i)
            continue
        k = op[1]['s'] % n_src
        e, new = graph.resolve_edit(spec['src'][k], states[k], op[1])
        if new is None:
            continue
        if new == edits.REJECT:
            ctx.raises(f'edit {e}', graph.perform, live.targets[k], e)
            ctx.label('rejected edit')
            continue
        ctx.sut(f'edit {e} of source {k}', graph.perform, live.targets[k], e)
        if new != states[k]:
            changed.update(i for i in read if k in live.facts[i].srcs)
            ctx.label('edit ' + e[0])
        states[k] = new
    for i in range(n_src, n):
        for p in case['end']:
            compare(live, spec, states, i, ['y'], p, None, ctx, 'finally')
        compare(live, spec, states, i, ['domain', 'samples'] if live.facts[i].finite else ['domain'], case['end'][0], [[0, 0], [10, 0], False, False], ctx, 'finally')
        ctx.label('kind ' + live.nodes[i - n_src][0])
    ctx.nontrivial(bool(changed))


def st_watch():
    return st.tuples(st.integers(0, 7), st.integers(0, 7), st.sampled_from(['begin', 'end', 'both', 'both']),
                     st.sampled_from(['y', 'y', 'domain', 'samples', 'slope']), gen.pos(10), st.booleans()).map(list)


def st_watched():
    op = st.one_of(graph.st_edit_op().map(lambda e: ['edit', e]), graph.st_edit_op().map(lambda e: ['edit', e]), st_read())
    return st.fixed_dictionaries({'g': graph.st_spec(4), 'ops': st.lists(op, min_size=1, max_size=6),
                                  'watch': st.lists(st_watch(), min_size=1, max_size=3),
                                  'again': st.sampled_from([True, True, False]),
                                  'end': gen.positions(10, 1, 5)})


def reader(w, j, calls, live, spec, states):
    def read():
        xs = graph.grid_of(states, spec)
        calls.append((j, gen.resolve(xs, w[4])))
        f = live.facts[j]
        kind = w[3] if w[3] != 'samples' or f.finite and f.sample else 'y'
        observe(live.curves[j], f, kind, xs, w[4], None)

    def read_with(interval):
        read()
    return read_with if w[5] else read


@facet('reads while changing', st_watched)
def watched(case, ctx):
    """Subscribers which read curves (not only the observed one) before and
    after a change must not leave anything stale behind."""
    spec = case['g']
    states = [graph.initial(s) for s in spec['src']]
    live = graph.Graph(spec, states)
    n_src, n = len(spec['src']), len(live.curves)
    calls = []
    for w in case['watch']:
        i = w[0] % n
        j = w[1] % n

        cb = reader(w, j, calls, live, spec, states)
        live.curves[i].add_observer(begin=cb if w[2] != 'end' else None, end=cb if w[2] != 'begin' else None)
        ctx.label('watch ' + w[2])
    changed = False
    for op in case['ops']:
        if op[0] == 'read':
            i = n_src + op[1] % (n - n_src)
            compare(live, spec, states, i, ['y' if op[2] == 'all' else op[2]], op[3], op[4], ctx, 'read')
            continue
        k = op[1]['s'] % n_src
        e, new = graph.resolve_edit(spec['src'][k], states[k], op[1])
        if new is None or new == edits.REJECT:
            continue
        ctx.sut(f'edit {e} of source {k}', graph.perform, live.targets[k], e)
        changed = changed or new != states[k] and bool(calls)
        states[k] = new
        if case['again']:
            # what was read during the change is read again, first thing
            for j, x in dict.fromkeys(reversed(calls)):
                got = live.curves[j].y(x)
                exp = graph.Graph(spec, states, only=j).curves[j].y(x)
                ctx.check(close(got, exp, TOL), 'after {}: y({}) of curve {} {}, read while it changed, is {}, built afresh it is {} (sources {})',
                          e, x, j, describe(live, spec, j), got, exp, states)
        del calls[:]
    for i in range(n_src, n):
        for p in case['end']:
            compare(live, spec, states, i, ['y'], p, None, ctx, 'finally')
        compare(live, spec, states, i, ['domain', 'samples'] if live.facts[i].finite else ['domain'], case['end'][0], [[0, 0], [10, 0], False, False], ctx, 'finally')
        ctx.label('kind ' + live.nodes[i - n_src][0])
    ctx.nontrivial(changed)


FACETS = [histories, watched]
