"""C19: quotes expose their bars faithfully."""
import math
from hypothesis import strategies as st
from ..core import facet, close
from .. import gen, model
from ..build import dom, closed_dom, interval, iv_tuple
from ..calendar_model import boundary, NAMES, UNIFORM
from .c04 import clip, stepped

RULE = ('non-trivial: at least three bars after at least one edit following a read, and a sampled range that leaves some bars out; '
        'distinct = distinct (facet, case)')
CASES = {'quick': 1600, 'thorough': 40000}
ASSUMPTIONS = ['bars start at boundaries of the duration and follow each other without gaps, as documented',
               'calendar boundaries are computed independently with datetime; weeks and quarters are left out (pyduration fails there)']

COMPONENTS = ['open', 'high', 'low', 'close', 'volume']


@st.composite
def st_bar(draw):
    if draw(st.sampled_from([False, False, True])):
        # whole prices
        l = draw(st.integers(0, 12))
        h = l + draw(st.integers(0, 12))
        return [draw(st.integers(l, h)), h, l, draw(st.integers(l, h)), draw(st.sampled_from([0, 1, 7]))]
    l = draw(st.integers(1, 400)) / 8
    h = l + draw(st.integers(0, 80)) / 8
    u, v = draw(st.integers(0, 4)) / 4, draw(st.integers(0, 4)) / 4
    return [l + u * (h - l), h, l, l + v * (h - l), draw(st.sampled_from([0, 1, 10.5, 1e6]))]


def st_case():
    op = st.one_of(
        st.tuples(st.just('append'), st_bar()),
        st.tuples(st.just('append'), st_bar()),
        st.tuples(st.just('extend'), st.lists(st_bar(), max_size=4)),
        st.tuples(st.just('extend'), st.lists(st_bar(), min_size=1, max_size=4)),
        st.tuples(st.just('set'), st.lists(st_bar(), max_size=6), st.integers(-3, 3)),
        st.tuples(st.just('bad'), st.sampled_from(['repeat', 'before', 'gap', 'gap later']), st_bar()),
        st.tuples(st.just('read'), gen.positions(10, 1, 4)),
        st.tuples(st.just('sample'), gen.rel_interval(10)),
        st.tuples(st.just('sample step'), gen.rel_interval(10), st.sampled_from([0.5, 1, 1.5, 2, 0.25])),
        st.tuples(st.just('walk'), gen.pos(10), st.sampled_from([0, 0, 0.5, 1, 1.5, 2, 3])),
    ).map(list)
    return st.fixed_dictionaries({
        'name': st.sampled_from(NAMES), 'k0': st.integers(-20, 40), 'bars': st.lists(st_bar(), max_size=8),
        'enc': st.sampled_from([None, None, 'dict', 'scale', 'shift']), 'form': st.sampled_from(['tuple', 'list', 'rows']),
        'ops': st.lists(op, min_size=2, max_size=9), 'vol': st.booleans(), 'late': st.booleans()})


@facet('bars', st_case)
def bars(case, ctx):
    from curvepy.quotes import Quotes
    name = case['name']
    T = lambda k: boundary(name, k)
    calls = []

    def encoder(p):
        calls.append(1)
        if case['enc'] == 'dict':
            return (p['t'], [p[k] for k in COMPONENTS if k in p])
        if case['enc'] == 'scale':
            return (p[0], [2 * v for v in p[1]])
        return (p[0] - 7, p[1])

    n_fields = 5 if case['vol'] else 4

    def raw(t, bar):
        """As given by the user"""
        bar = bar[:n_fields]
        if case['enc'] == 'dict':
            return {'t': t, **dict(zip(COMPONENTS, bar))}
        if case['enc'] == 'scale':
            bar = [v / 2 for v in bar]
        if case['enc'] == 'shift':
            t = t + 7
        if case['form'] == 'tuple':
            return (t, tuple(bar))
        return [t, bar] if case['form'] == 'list' else (t, bar)

    pts = [(T(case['k0'] + i), b[:n_fields]) for i, b in enumerate(case['bars'])]
    k_next = case['k0'] + len(pts)
    kw = {'encoder': encoder} if case['enc'] else {}
    given = [raw(*p) for p in pts]
    if case['late']:
        q = ctx.sut('Quotes', Quotes, name, **kw)
        ctx.sut('set', q.set, given)
    else:
        q = ctx.sut('Quotes', Quotes, name, quote_points=given, **kw)
    expected_calls = len(given)
    edited_after_read = read = partial = False

    def same(got, bar):
        return got is not None and list(got) == list(bar)

    def lookup(x):
        return model.lookup(pts, x, -1)

    def verify(xs):
        what = f'quotes {name} with {len(pts)} bars {pts}'
        ctx.check(dom(q) == closed_dom([p[0] for p in pts]), '{}: domain {}', what, dom(q))
        for x in xs:
            bar = lookup(x)
            got = ctx.sut(f'y({x})', q.y, x)
            ctx.check(got is None if bar is None else same(got, bar), '{}: bar at {} is {}, expected {}', what, x, got, bar)
            for i, c in enumerate(COMPONENTS[:n_fields]):
                got = ctx.sut(f'{c} at {x}', lambda: getattr(q, c).y(x))
                ctx.check(got == (None if bar is None else bar[i]), '{}: {} at {} is {}, bar {}', what, c, x, got, bar)
            got = ctx.sut(f'hl2 at {x}', lambda: q.hl2.y(x))
            ctx.check(close(got, None if bar is None else (bar[1] + bar[2]) / 2), '{}: hl2 at {} is {}, bar {}', what, x, got, bar)
        got = ctx.sut('get_quote_domain', q.get_quote_domain)
        e = span(closed_dom([p[0] for p in pts])) if pts else None
        ctx.check(iv_tuple(got) == e, '{}: the bars span {}, expected {}', what, got, e)
        for c in COMPONENTS[:n_fields] + ['hl2']:
            ctx.check(dom(getattr(q, c)) == dom(q), '{}: domain of {} is {}', what, c, dom(getattr(q, c)))
        if pts:
            ctx.check(same(q.first_quote(), pts[0][1]) and same(q.last_quote(), pts[-1][1]), '{}: first {} last {}', what, q.first_quote(), q.last_quote())

    def span(iv):
        """The duration-aligned half open span of a range"""
        a, b, ao, bo = iv
        ks = range(case['k0'] - 30, k_next + 40)
        start = max((T(k) for k in ks if T(k) <= a))
        if a == b:
            end = min(T(k) for k in ks if T(k) > b)
        else:
            end = min(T(k) for k in ks if (T(k) > b or (bo and T(k) == b)))
        return (start, end, False, True)

    ctx.check(len(calls) == (expected_calls if case['enc'] else 0), 'encoder called {} times for {} bars', len(calls), expected_calls)
    for op in case['ops']:
        k = op[0]
        xs = [p[0] for p in pts] or [T(k_next)]
        uniform = name in UNIFORM
        if k == 'append':
            new = [(T(k_next), op[1][:n_fields])]
            ctx.sut('append', q.append, raw(*new[0]))
        elif k == 'extend':
            new = [(T(k_next + i), b[:n_fields]) for i, b in enumerate(op[1])]
            ctx.sut('append_list', q.append_list, [raw(*p) for p in new])
        elif k == 'set':
            k_next += op[2]
            pts = [(T(k_next + i), b[:n_fields]) for i, b in enumerate(op[1])]
            k_next += len(pts)
            ctx.sut('set', q.set, [raw(*p) for p in pts])
            expected_calls += len(pts)
            edited_after_read = edited_after_read or read
            new = None
        elif k == 'bad':
            if len(pts) < 2:
                continue
            d = pts[-1][0] - pts[-2][0]
            t = {'repeat': pts[-1][0], 'before': pts[-1][0] - 0.5 * d, 'gap': pts[-1][0] + 2 * d, 'gap later': pts[-1][0] + 2 * d}[op[1]]
            if op[1].startswith('gap') and not uniform:
                continue
            bad = [(t, op[2])]
            if op[1] == 'gap later':
                bad = [(T(k_next), op[2])] + [(t + d, op[2])]
            expected_calls += len(bad)
            ctx.raises(f'appending a bar at {[b[0] for b in bad]} to bars at {xs}', q.append_list, [raw(*p) for p in bad])
            new = None
        elif k == 'read':
            verify([gen.resolve(xs, p) for p in op[1]])
            read = True
            continue
        elif k in ('sample', 'sample step'):
            iv = gen.resolve_interval(xs, op[1])
            sp = span(iv)
            if k == 'sample':
                got = ctx.sut('sample_points', q.sample_points, interval(iv))
                exp = [p for p in pts if model.inside(p[0], sp)]
                partial = partial or 0 < len(exp) < len(pts)
                ctx.check([p[0] for p in got] == [p[0] for p in exp] and all(same(g[1], e[1]) for g, e in zip(got, exp)),
                          'quotes {} sampled over {}: {}, expected {}', name, iv, got, exp)
                got = ctx.sut('sample', q.sample, interval(iv))
                ctx.check(len(got) == len(exp) and all(same(g, e[1]) for g, e in zip(got, exp)), 'quotes {} sampled over {}: {}, expected {}', name, iv, got, exp)
                r = ctx.sut('get_range', q.get_range, interval(iv))
                if exp:
                    e = (min(p[1][2] for p in exp), max(p[1][1] for p in exp), False, False)
                    ctx.check(not r.is_empty and (r.start, r.end, r.start_open, r.end_open) == e, 'range of bars {} is {}', exp, r)
                else:
                    ctx.check(r.is_empty, 'range of no bars is {}', r)
            elif pts:
                step = op[2] * (xs[1] - xs[0] if len(xs) > 1 else 1)
                d = clip(sp, closed_dom(xs))
                exp = stepped(d, step) if d else []
                got = ctx.sut('sample_points', q.sample_points, interval(iv), step=step)
                ctx.check([p[0] for p in got] == exp and all(same(g[1], lookup(x)) for g, x in zip(got, exp)),
                          'quotes {} sampled over {} by {}: {}, expected {}', name, iv, step, got, exp)
                got = ctx.sut('sample', q.sample, interval(iv), step=step)
                ctx.check(len(got) == len(exp) and all(same(g, lookup(x)) for g, x in zip(got, exp)),
                          'quotes {} sampled over {} by {}: {}, expected those at {}', name, iv, step, got, exp)
                r = ctx.sut('get_range', q.get_range, interval(iv), step=step)
                if exp:
                    e = (min(lookup(x)[2] for x in exp), max(lookup(x)[1] for x in exp))
                    ctx.check(not r.is_empty and (r.start, r.end) == e, 'range over {} by {} of bars {} is {}', iv, step, pts, r)
                else:
                    ctx.check(r.is_empty, 'range over {} by {} of no bars is {}', iv, step, r)
            continue
        else:
            x = gen.resolve(xs, op[1])
            bx = [p[0] for p in pts]
            m = op[2] * (xs[1] - xs[0] if len(xs) > 1 else 1) if op[2] else 1e-5
            kw2 = {'min_step': m} if op[2] else {}
            n, p = ctx.sut('x_next', q.x_next, x, **kw2), ctx.sut('x_previous', q.x_previous, x, **kw2)
            e = (model.step_next(bx, x, m), model.step_prev(bx, x, m))
            ctx.check((n, p) == e, 'steps of {} from {} are {}, expected {} of {}', m, x, (n, p), e, bx)
            continue
        if new is not None:
            pts = pts + new
            k_next += len(new)
            expected_calls += len(new)
            edited_after_read = edited_after_read or (read and bool(new))
        ctx.check(len(calls) == (expected_calls if case['enc'] else 0), 'encoder called {} times for {} bars after {}', len(calls), expected_calls, k)
        verify([p[0] for p in pts[-3:]] + [p[0] for p in pts[:2]])
        read = True
        ctx.label(k)
    verify([p[0] for p in pts])
    got = ctx.sut('sample_points', q.sample_points)
    ctx.check([p[0] for p in got] == [p[0] for p in pts] and all(same(g[1], p[1]) for g, p in zip(got, pts)), 'all bars of {}: {}', pts, got)
    ctx.nontrivial(len(pts) >= 3 and edited_after_read and partial)
    ctx.label(name, f'encoder {case["enc"]}')


FACETS = [bars]
