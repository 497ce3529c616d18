"""C02: editing a point series equals editing its list of points."""
from hypothesis import strategies as st
from ..core import facet, close
from .. import gen, model, edits
from ..build import points, dom, closed_dom, pts_of

RULE = ('non-trivial: at least three edits took effect, of at least two kinds, or a rejected edit was followed by an accepted one; '
        'distinct = distinct (facet, case)')
CASES = {'quick': 2200, 'thorough': 60000}
ASSUMPTIONS = ['lists passed to set and append-list are strictly ascending in x',
               'with even spacing enforced, a removal must leave the remaining points at the spacing of the series (as its error message says)']


def same_points(got, exp):
    return len(got) == len(exp) and all(g[0] == e[0] and (g[1] is e[1] or g[1] == e[1]) for g, e in zip(got, exp))


def compare(c, pts, mode, qs, ctx, when):
    got = ctx.sut('sample_points', lambda: pts_of(c))
    ctx.check(same_points(got, pts), '{}: points are {}, expected {}', when, got, pts)
    xs = [p[0] for p in pts]
    ctx.check(dom(c) == closed_dom(xs), '{}: domain is {}, points are {}', when, dom(c), pts)
    scale = model.scale_of(pts)
    for p in qs:
        x = gen.resolve(xs, p)
        y = ctx.sut(f'y({x!r})', c.y, x)
        exp = model.lookup(pts, x, mode)
        ctx.check(close(y, exp, 1e-9, scale), '{}: y({!r}) = {!r}, expected {!r}; points {}', when, x, y, exp, pts)
    for x, y in pts:
        g = ctx.sut(f'y({x!r})', c.y, x)
        ctx.check(g == y, '{}: y({!r}) = {!r}, expected {!r} at a point; points {}', when, x, g, y, pts)
    for i, x in enumerate(xs[:-1]):
        n = ctx.sut('x_next', c.x_next, x)
        ctx.check(n == xs[i + 1], '{}: the point after {} is {}, points {}', when, x, n, pts)
    ctx.check(not c.is_updating, '{}: still marked as updating', when)


def st_case(invalid=True):
    return st.fixed_dictionaries({
        's': gen.series(0, 8, gen.maybe_value),
        'ops': st.lists(edits.st_edit(gen.maybe_value, invalid=invalid, nearly=True), min_size=1, max_size=10),
        'q': gen.positions(14, 1, 4),
        'watch': st.booleans()})


@facet('history', st_case)
def history(case, ctx):
    s = case['s']
    pts = [tuple(p) for p in s['pts']]
    uniform = s['uniform']
    c = ctx.sut('Points', points, s)
    log = []
    tok = None
    if case['watch']:
        tok = c.add_observer(begin=lambda d: log.append('b'), end=lambda d: log.append('e'))
    compare(c, pts, s['interp'], case['q'], ctx, 'new')
    done = []
    rejected = False
    after_reject = False
    for n, op in enumerate(case['ops']):
        e = edits.resolve(op, pts)
        new = edits.apply_model(e, pts, uniform)
        if new is None:
            continue
        when = f'after edit {n} {e}'
        del log[:]
        if new == edits.REJECT:
            ctx.raises(f'edit {n} {e} on {pts} (uniform={uniform})', edits.perform, e, c)
            ctx.check(log in ([], ['b', 'e']), '{}: a rejected edit left announcements {}', when, log)
            rejected = True
            ctx.label('rejected ' + e[0])
        else:
            ctx.sut(f'edit {n} {e} on {pts} (uniform={uniform})', edits.perform, e, c)
            changed = not same_points(new, pts)
            if tok is not None:
                ctx.check(log.count('b') == log.count('e'), '{}: callbacks {}', when, log)
                ctx.check(not changed or (log and log[0] == 'b' and log[-1] == 'e'), '{}: callbacks {}', when, log)
            pts = new
            if changed:
                done.append(e[0])
                ctx.label('did ' + e[0])
                if rejected:
                    after_reject = True
        compare(c, pts, s['interp'], case['q'], ctx, when)
    # a fresh series over the list says the same
    if not uniform or model.evenly_spaced([p[0] for p in pts]):
        from curvepy import Points
        fresh = ctx.sut('Points', Points, pts, interpolation=s['interp'], uniform=uniform)
        compare(fresh, pts, s['interp'], case['q'], ctx, 'fresh')
        for p in case['q']:
            x = gen.resolve([p[0] for p in pts], p)
            ctx.check(close(c.y(x), fresh.y(x), 1e-9, model.scale_of(pts)), 'y({}) = {}, on a fresh series {}; points {}', x, c.y(x), fresh.y(x), pts)
    ctx.nontrivial((len(done) >= 3 and len(set(done)) >= 2) or after_reject)
    ctx.label('uniform' if uniform else 'free', 'edits=%d' % min(len(done), 6))


def st_alias():
    e = edits.st_edit(gen.value, invalid=False)
    return st.fixed_dictionaries({
        's': gen.series(0, 7, gen.value),
        'ops': st.lists(st.tuples(st.integers(0, 1), e, st.integers(0, 3)).map(list), min_size=1, max_size=7),
        'q': gen.positions(6, 1, 3)})


@facet('own points', st_alias, weight=1)
def own_points(case, ctx):
    """Series do not share their points with each other, nor with the lists
    they were given or answered with."""
    from curvepy import Points
    s = case['s']
    uniform = s['uniform']
    given = [tuple(p) for p in s['pts']]
    start = list(given)
    cs = [ctx.sut('Points', Points, given, interpolation=s['interp'], uniform=uniform) for _ in range(2)]
    lists = [(given, start)]
    pts = [list(start), list(start)]
    done = set()
    for n, (i, op, how) in enumerate(case['ops']):
        c = cs[i]
        e = edits.resolve(op, pts[i])
        new = edits.apply_model(e, pts[i], uniform)
        if new is None or new == edits.REJECT:
            continue
        when = f'after edit {n} {e} of series {i}'
        if e[0] in ('extend', 'set'):
            # the caller keeps its list
            mine = list(e[1])
            ctx.sut(when, c.append_list if e[0] == 'extend' else c.set, mine)
            lists.append((mine, list(mine)))
        else:
            ctx.sut(when, edits.perform, e, c)
        if new != pts[i]:
            done.add(i)
        pts[i] = new
        for got, exp in lists:
            ctx.check(got == exp, '{}: a list given or answered earlier has become {}, it was {}', when, got, exp)
        if how == 1:
            # a list answered by the series stays as it was
            a = c.sample_points()
            ctx.check(same_points(a, pts[i]), '{}: points are {}, expected {}', when, a, pts[i])
            lists.append((a, list(a)))
        elif how == 2 and lists:
            # the caller goes on with a list
            a, _ = lists.pop()
            if a and n % 2:
                a.pop()
            else:
                a.append((1e6, 5))
            ctx.label('list of the caller changed')
        for j in (0, 1):
            compare(cs[j], pts[j], s['interp'], case['q'], ctx, when + f' (series {j})')
    ctx.nontrivial(len(done) == 2 or (done and any(h for _, _, h in case['ops'])))


FACETS = [history, own_points]
