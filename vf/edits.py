"""Edits of a point series: generation (relative to the current points),
resolution and a list model of what each edit means."""
from hypothesis import strategies as st
from intervalpy import Interval
from . import gen, model

GAPS = [1, 1, 1, 1, 1, 2, 0.5, 1.25, 3]


def st_edit(v=gen.value, invalid=True, resets=True, sets=True, starts=gen.STARTS, nearly=False):
    gaps = GAPS + ([0, -0.5, -1] if invalid else []) + ([1.004, 0.999] if nearly else [])
    gap = st.sampled_from(gaps)
    one = st.tuples(gap, v).map(list)
    alts = [
        st.tuples(st.just('append'), one),
        st.tuples(st.just('append'), st.tuples(st.just(1), v).map(list)),
        st.tuples(st.just('extend'), st.lists(st.tuples(st.sampled_from([1, 1, 1, 1, 1, 2, 0.5]), v).map(list), max_size=4)),
        st.tuples(st.just('extend'), st.lists(st.tuples(st.just(1), v).map(list), min_size=1, max_size=4)),
        st.tuples(st.just('replace'), st.tuples(st.integers(0, 12), st.just(0)).map(list), v, st.booleans()),
        st.tuples(st.just('replace'), gen.pos(), v, st.booleans()),
    ]
    if resets:
        alts += [st.tuples(st.just('reset'), gen.rel_interval(), st.sampled_from(['', '', '', '>', '<'])),
                 st.tuples(st.just('reset'), st.tuples(gen.pos(), st.just([40, 0]), st.booleans(), st.booleans()).map(list), st.just('')),
                 st.tuples(st.just('clear'))]
    if sets:
        alts += [st.tuples(st.just('set'), gen.uniform_xs(0, 6, starts=starts), st.lists(v, min_size=6, max_size=6)),
                 st.tuples(st.just('set'), gen.uneven_xs(0, 6, starts=starts), st.lists(v, min_size=6, max_size=6)),
                 # the same points again, or a shifted part of them
                 st.tuples(st.just('reuse'), st.integers(0, 3), st.integers(0, 12))]
    return st.one_of(*alts).map(list)


def spacing(pts):
    return pts[-1][0] - pts[-2][0] if len(pts) > 1 else 1


def resolve(op, pts):
    """-> concrete edit: (name, args...)"""
    xs = [p[0] for p in pts]
    k = op[0]
    if k in ('append', 'extend'):
        x = xs[-1] if xs else 0
        q = spacing(pts)
        new = []
        for g, y in ([op[1]] if k == 'append' else op[1]):
            x = x + g * q
            new.append((x, y))
        return ('append', new[0]) if k == 'append' else ('extend', new)
    if k == 'replace':
        return ('replace', (gen.resolve(xs, op[1]), op[2]), op[3])
    if k == 'reset':
        a, b, ao, bo = gen.resolve_interval(xs, op[1])
        inf = float('inf')
        if op[2] == '>':
            return ('reset', (a, inf, ao, True))
        if op[2] == '<':
            return ('reset', (-inf, b, True, bo))
        return ('reset', (a, b, ao, bo))
    if k == 'clear':
        return ('clear',)
    if k == 'set':
        return ('set', list(zip(op[1], op[2])))
    if k == 'reuse':
        return ('set', pts[op[1]:op[1] + op[2]])
    raise AssertionError(k)


REJECT = 'reject'


def apply_model(edit, pts, uniform):
    """-> the new list of points, or REJECT"""
    k = edit[0]
    if k in ('append', 'extend'):
        new = [edit[1]] if k == 'append' else list(edit[1])
        if not new:
            return list(pts)
        allp = list(pts) + new
        if any(b[0] <= a[0] for a, b in zip(allp[max(0, len(pts) - 1):], allp[max(0, len(pts) - 1) + 1:])):
            return REJECT if pts and new[0][0] <= pts[-1][0] else None     # None: breaks the precondition
        if uniform and not model.evenly_spaced([p[0] for p in allp]):
            return REJECT
        return allp
    if k == 'replace':
        p, or_append = edit[1], edit[2]
        xs = [q[0] for q in pts]
        if not pts or p[0] < xs[0] or p[0] > xs[-1]:
            return apply_model(('append', p), pts, uniform) if or_append else REJECT
        if p[0] in xs:
            i = xs.index(p[0])
            return pts[:i] + [p] + pts[i + 1:]
        if uniform:
            return REJECT
        return sorted(pts + [p], key=lambda q: q[0])
    if k == 'reset':
        rest = [p for p in pts if not model.inside(p[0], edit[1])]
        if len(rest) == len(pts):
            return list(pts)
        if uniform and len(pts) > 1 and not model.evenly_spaced([p[0] for p in rest], pts[1][0] - pts[0][0]):
            return REJECT
        return rest
    if k == 'clear':
        return []
    if k == 'set':
        if uniform and not model.evenly_spaced([p[0] for p in edit[1]]):
            return REJECT
        return list(edit[1])
    raise AssertionError(k)


def perform(edit, c):
    k = edit[0]
    if k == 'append':
        c.append(edit[1])
    elif k == 'extend':
        c.append_list(list(edit[1]))
    elif k == 'replace':
        c.replace(edit[1], or_append=edit[2])
    elif k == 'reset':
        a, b, ao, bo = edit[1]
        c.reset(Interval(a, b, start_open=ao, end_open=bo))
    elif k == 'clear':
        c.reset()
    else:
        c.set(list(edit[1]))
