"""C29: trend lines are found, fitted and kept as the points say."""
import math
import warnings
from hypothesis import strategies as st
from ..core import facet, close
from .. import gen, edits

warnings.filterwarnings('ignore', category=DeprecationWarning)

RULE = ('non-trivial: at least one trend line was reported, and in histories an edit came after a line had been reported; '
        'distinct = distinct (facet, case)')
CASES = {'quick': 1500, 'thorough': 40000}
ASSUMPTIONS = ['lines are compared once the trend was read at the last point of the series: reading further left may stop the scan before lines which are found later',
               'tolerances no difference of generated values equals',
               'which lines of an arbitrary series are reported is only claimed up to mirroring and scaling; zigzags along a line are claimed to be found',
               'the stages of a prediction depend on when the points were seen: told by the model for lines along zigzags, by invariants for the others']

TOLS = [['y_tol_abs', 0.2718281], ['y_tol_abs', 0.5772156], ['y_tol_rel', 0.0173], [None, 0.01], ['both', [0.2718281, 0.0173]]]
GOLD = (1 + math.sqrt(5)) / 2


@st.composite
def st_points(draw, max_size=14):
    n = draw(st.one_of(st.integers(0, max_size), st.integers(5, max_size)))
    gaps = draw(st.lists(st.sampled_from([1, 1, 1, 2, 3]), min_size=n, max_size=n)) if draw(st.booleans()) else [1] * n
    lift = draw(st.sampled_from([0, 10, -1, -3, -12]))
    slope = draw(st.sampled_from([0, 0, 1, 0.5]))
    top = draw(st.sampled_from([2, 3, 5]))
    ys = draw(st.lists(st.integers(1, top), min_size=n, max_size=n))
    x = draw(st.sampled_from([0, 0, 5, -3]))
    unit = draw(st.sampled_from([1, 1, 1, 0.3]))
    pts = []
    for g, y in zip(gaps, ys):
        pts.append([x, (lift + y + slope * (x - (pts[0][0] if pts else x))) * unit])
        x += g
    return pts


def st_params():
    return st.fixed_dictionaries({'width': st.sampled_from([1, 2, 4, 6, 0]), 'min_points': st.sampled_from([2, 3, 3, 4]),
                                  'dist': st.sampled_from([0, 0, 2]), 'tol': st.sampled_from(TOLS),
                                  'search': st.sampled_from([None, None, 4, 2, 0, 1, 0.5])})


def make(pts, p, sx=1, sy=1):
    from curvepy import Points, Trend
    c = Points([tuple(q) for q in pts], uniform=False)
    kw = {'min_points': p['min_points'], 'min_point_distance': p['dist'] * sx}
    t, v = p['tol']
    if t == 'both':
        kw['y_tol_abs'], kw['y_tol_rel'] = v[0] * abs(sy), v[1]
    elif t is not None:
        kw[t] = v * abs(sy) if t == 'y_tol_abs' else v
    if p['search'] is not None:
        kw['search_length_rel'] = p['search']
    return c, Trend(c, p['width'] * sx, **kw)


def read_all(t, c, how='upper'):
    if not c.domain.is_empty:
        getattr(t, how)(c.domain.end)


def tup(ps, sx=1, sy=1):
    return [(p[0] * sx, p[1] * sy) for p in ps]


def snap(lines, sx=1, sy=1):
    """What a line tells of itself"""
    out = []
    for l in lines:
        i = l.search_interval
        out.append([tup(l, sx, sy), tup(l.trend_points, sx, sy), tup(l.tangent_points, sx, sy), tup(l.intersections, sx, sy), tup(l.extremas, sx, sy),
                    (i.start * sx, i.end * sx, i.start_open, i.end_open), l.prediction_phase, l.prediction_failed, l.prediction_succeeded,
                    None if l.prediction_y is None else l.prediction_y * sy, None if l.prediction_x_max is None else l.prediction_x_max * sx])
    return out


def split(lines):
    return [l for l in lines if l.is_upper_trend], [l for l in lines if not l.is_upper_trend]


def same(a, b):
    return a == b or repr(a) == repr(b)


def fit(ps):
    """Least squares line: (value at x) -> y"""
    n = len(ps)
    mx = sum(x for x, _ in ps) / n
    my = sum(y for _, y in ps) / n
    m = sum((x - mx) * (y - my) for x, y in ps) / sum((x - mx) ** 2 for x, _ in ps)
    return lambda x: my + m * (x - mx)


def through_zero(pts, p):
    """A relative tolerance around a line through zero is none on the other side"""
    return p['tol'][0] != 'y_tol_abs' and min(y for _, y in pts) <= 0 <= max(y for _, y in pts)


def verify_line(ctx, l, pts, p, what):
    have = set(pts)
    tp = tup(l.trend_points)
    ctx.check(l.is_valid and l.is_ready and not l.is_empty and len(l) == 2, '{}: a reported line is not valid', what)
    ctx.check(all(q in have for q in tp) and all(a[0] < b[0] for a, b in zip(tp, tp[1:])), '{}: trend points {} are not ascending points of the series', what, tp)
    spaced = 1 + sum(b[0] - a[0] >= p['dist'] for a, b in zip(tp, tp[1:]))
    ctx.check(len(tp) >= p['min_points'] and spaced >= p['min_points'], '{}: only {} trend points', what, tp)
    w = tp[-1][0] - tp[0][0]
    if len(tp) == p['min_points'] == 3:
        # no points were added since it was found
        t, v = p['tol']
        (xa, ya), (x, y), (xb, yb) = tp
        e = ya + (yb - ya) * (x - xa) / (xb - xa)
        lim = v if t == 'y_tol_abs' else v[0] if t == 'both' else abs(e) * v
        ctx.check(abs(y - e) <= lim + 1e-9, '{}: point {} is not on the line from {} to {}', what, (x, y), tp[0], tp[-1])
    ctx.check(w >= p['width'] and close(l.width, w), '{}: width {} of trend points {}', what, l.width, tp)
    f = fit(tp)
    scale = max(abs(y) for _, y in pts)
    (x0, y0), (x1, y1) = tup(l)
    ctx.check(x0 == tp[0][0] and x1 == tp[-1][0] and close(y0, f(x0), 1e-9, scale) and close(y1, f(x1), 1e-9, scale),
              '{}: line {} through the points {}, expected from {} to {}', what, tup(l), tp, (tp[0][0], f(tp[0][0])), (tp[-1][0], f(tp[-1][0])))
    ctx.check((tuple(l[0]), tuple(l[1])) == ((x0, y0), (x1, y1)), '{}: the ends of line {} are {} and {}', what, tup(l), l[0], l[1])
    if y0 == y1:
        ctx.check(l.x(y0) == x0 and l.x(y0 + 1) is None, '{}: level line {} has x({}) = {}, x({}) = {}', what, tup(l), y0, l.x(y0), y0 + 1, l.x(y0 + 1))
    for x in (x0 - 1, x0, (x0 + x1) / 2, x1 + 2.5):
        ctx.check(close(l.y(x), f(x), 1e-8, scale), '{}: line {} has y({}) = {}', what, tup(l), x, l.y(x))
        if abs(f(x1) - f(x0)) > 1e-3:
            ctx.check(close(l.x(l.y(x)), x, 1e-6, 20), '{}: line {} has x(y({})) = {}', what, tup(l), x, l.x(l.y(x)))
    s = p['search']
    i = l.search_interval
    got = (i.start, i.end, bool(i.start_open), bool(i.end_open))
    exp = (x0, x1, False, False) if s == 0 else (x0, x0 + w * (10 if s is None else s), False, True)
    ctx.check(got == exp, '{}: line {} looks at {}, expected {}', what, tup(l), got, exp)
    for q in tup(l.intersections):
        ctx.check(l.search_interval.contains(q[0]) and pts[0][0] <= q[0] <= pts[-1][0], '{}: intersection {} of line {} outside of the series', what, q, tup(l))
        before = [s for s in pts if s[0] <= q[0]]
        after = [s for s in pts if s[0] >= q[0]]
        side = lambda s: s[1] - l.y(s[0])
        ctx.check(any(side(a) * side(b) <= 1e-9 for a in before for b in after), '{}: the series does not cross line {} around {}', what, tup(l), q)
    for q in tup(l.tangent_points):
        ctx.check(q in have, '{}: tangent point {} is not in the series', what, q)
    for q in tup(l.extremas):
        ctx.check(q in have, '{}: extrema {} is not in the series', what, q)
    if not through_zero(pts, p):
        verify_interest(ctx, l, pts, what)
        verify_prediction(ctx, l, pts, p, what)
    for mult, most in ((2, None), (1.5, w * 1.25), (None, w / 2), (0.5, w * 3), (None, None)):
        xe = x0 + w * (1 if mult is None else mult)
        if most is not None:
            xe = min(xe, x0 + most)
        e = tup(l.line_extended(width_mult=mult, width_max=most))
        ctx.check(close(e[0], (x0, y0), 1e-9, scale) and close(e[1], (xe, f(xe)), 1e-8, scale), '{}: line {} extended by {} up to {} is {}', what, tup(l), mult, most, e)
    xs = [q[0] for q in l.intersections]
    for k in (0, 1, -1, 5):
        if xs == sorted(xs):
            xe = x1
            if xs:
                j = max(0, len(xs) + k) if k < 0 else min(k, len(xs) - 1)
                xe = max(x1, xs[j])
                if k >= 0 and j + 1 < len(xs):
                    xe = min(xe, xs[j + 1])
                elif k < 0 and j + 1 < len(xs):
                    xe = min(xe, xs[j + 1])
            e = tup(l.line_extended(intersection_index=k))
            ctx.check(close(e[1], (xe, f(xe)), 1e-8, scale), '{}: line {} extended to intersection {} of {} is {}', what, tup(l), k, xs, e)


def verify_interest(ctx, l, pts, what):
    """Of every run of points on the line the closest one, of every run off it
    on one side the most extreme one, and the places between the sides."""
    touches, crossings, extremes = [], [], []
    on, off, last = [], [], None

    def end_off():
        if off:
            # the latest of equals
            sign = 1 if off[-1][1] > l.y(off[-1][0]) else -1
            extremes.append([q for q in off if q[1] * sign == max(r[1] * sign for r in off)][-1])
            off.clear()

    def end_on():
        if on:
            near = min(abs(l.y(x) - y) for x, y in on)
            touches.append([q for q in on if abs(l.y(q[0]) - q[1]) <= near + 1e-9])
            on.clear()

    for q in pts:
        if not l.search_interval.contains(q[0]):
            continue
        if l.is_point_on_trend(q):
            end_off()
            on.append(q)
            continue
        end_on()
        d = q[1] - l.y(q[0])
        if last is not None and d * last[1] < 0:
            end_off()
            # where the step from one side to the other meets the line
            u = last[1] / (last[1] - d)
            x = last[0][0] + u * (q[0] - last[0][0])
            crossings.append((x, l.y(x)))
        off.append(q)
        last = q, d
    end_on()
    end_off()
    got = tup(l.tangent_points)
    ctx.check(len(got) == len(touches) and all(g in t for g, t in zip(got, touches)), '{}: line {} touches {}, expected {}', what, tup(l), got, touches)
    got = tup(l.extremas)
    ctx.check(got == extremes, '{}: line {} has extremas {}, expected {}', what, tup(l), got, extremes)
    got = tup(l.intersections)
    ctx.check(len(got) == len(crossings) and all(close(g, c, 1e-6, 50) for g, c in zip(got, crossings)), '{}: line {} is crossed at {}, expected {}', what, tup(l), got, crossings)


def verify_prediction(ctx, l, pts, p, what):
    """What holds for every prediction, however it came about"""
    g = lambda k: getattr(l, 'prediction_' + k)
    phase, origin, cross, ext = g('phase'), tup(l)[0], g('intersection'), g('extrema')
    ks = ('phase', 'failed', 'succeeded', 'intersection', 'extrema', 'retest_point', 'success_point', 'y', 'x_max')
    what = f'{what}: prediction { {k: g(k) for k in ks} } of line {tup(l)} crossed at {tup(l.intersections)}, touched at {tup(l.tangent_points)}'
    eq = lambda a, b: close(a, b, 1e-7, 100)
    ctx.check(g('origin') is not None and eq(tuple(g('origin')), origin), '{}: origin {}', what, g('origin'))
    ctx.check(not (g('failed') and g('succeeded')) and bool(g('succeeded')) == (phase == 4), '{}: failed {}, succeeded {}', what, g('failed'), g('succeeded'))
    ctx.check((cross is not None) == (phase >= 1) and (g('retest_point') is not None) == (phase >= 2) and (g('success_point') is not None) == (phase == 4), '{}: not its stage', what)
    xs = [q[0] for q in tup(l.intersections)]
    if phase == 0:
        ctx.check(bool(g('failed')) or not xs, '{}: the crossing is not told', what)
        before = sum(q[0] <= xs[0] for q in l.tangent_points) if xs else 0
        ctx.check(not g('failed') or before < l.min_points, '{}: failed before', what)
        return
    first = tup(l.intersections)[0]
    ctx.check(eq(tuple(cross), first) and sum(q[0] <= first[0] for q in l.tangent_points) >= l.min_points, '{}: not the first crossing after enough touches', what)
    latest = cross[0] + (cross[0] - origin[0]) / GOLD
    ctx.check(eq(g('retest_x_max'), latest), '{}: latest return {}', what, g('retest_x_max'))
    end = (latest, l.y(latest))
    if ext is not None:
        t, v = p['tol']
        y = cross[1] + (ext[1] - cross[1]) * GOLD ** 2
        end = ext[0] + (ext[0] - origin[0]) * GOLD
        end = (end, l.y(end))
        ctx.check(tuple(ext) in pts and ext[0] >= cross[0] and (ext[1] > l.y(ext[0])) == l.is_upper_trend, '{}: not an extreme beyond the line', what)
        ctx.check(eq(g('y'), y) and eq(g('x_max'), end[0]) and eq(g('x_min'), ext[0]) and g('y_min') <= g('y') <= g('y_max'), '{}: not the target', what)
        tol = min(v[0], v[1] * abs(y)) if t == 'both' else v * abs(y) if t != 'y_tol_abs' else v
        ctx.check(eq(g('y_min'), y - tol) and eq(g('y_max'), y + tol), '{}: target between {} and {}', what, g('y_min'), g('y_max'))
        ctx.check(eq(tup(g('line')), [(ext[0], y), (end[0], y)]) and eq(tup(g('confirmation_line')), [origin, tuple(ext)]) and bool(g('valid')) == (y > 0),
                  '{}: lines {}, {}', what, g('line'), g('confirmation_line'))
    else:
        ctx.check(phase == 1, '{}: no extreme', what)
    ctx.check(eq(tup(g('trend_line')), [origin, end]), '{}: trend line {}', what, g('trend_line'))
    if phase >= 2:
        r = tuple(g('retest_point'))
        ctx.check(r in pts and cross[0] <= r[0] <= latest + 1e-9 and l.is_point_on_trend(r), '{}: not a return', what)
    if phase == 4:
        s = tuple(g('success_point'))
        ctx.check(s in pts and (s[1] >= g('y_min') if l.is_upper_trend else s[1] <= g('y_max')), '{}: not a success', what)
    x = pts[-1][0]
    if l.search_interval.contains(x) and not g('failed') and not g('succeeded'):
        ctx.check(x < (end[0] if phase >= 2 else latest), '{}: late at {}', what, x)


def verify_reported(ctx, t, x, what):
    """upper, lower and y tell the lines which look at x"""
    everything = t.lines
    up, lo = split(everything)
    ctx.check(same(snap(everything), snap(lo) + snap(up)), '{}: lines are {}', what, snap(everything))
    got = t.upper(x), t.lower(x)
    exp = tuple([l for l in ls if l.search_interval.contains(x)] for ls in (up, lo))
    for g, e, n in zip(got, exp, ('upper', 'lower')):
        ctx.check(same(snap(g), snap(e)), '{}: {}({}) is {}, expected {}', what, n, x, snap(g), snap(e))
    if t.domain.contains(x):
        ctx.check(same(snap(t.y(x)), snap(exp[1] + exp[0])), '{}: y({}) is not the lower and upper lines there', what, x)
    else:
        ctx.check(t.y(x) is None, '{}: y({}) before the series is {}', what, x, t.y(x))
    return len(everything)


def st_any():
    return st.fixed_dictionaries({'pts': st_points(), 'p': st_params(), 'q': gen.positions(14, 1, 4),
                                  'first': st.one_of(st.none(), gen.pos(14)), 'how': st.sampled_from(['upper', 'lower', 'y']),
                                  'sx': st.sampled_from([4, 0.5, 0.25]), 'sy': st.sampled_from([2, 0.5, 0.125])})


@facet('any series', st_any, weight=2)
def any_series(case, ctx):
    pts = tup(case['pts'])
    p = case['p']
    what = f'trend of {pts} {p}'
    c, t = make(pts, p)
    xs = [x for x, _ in pts]
    if case['first'] is not None:
        ctx.sut('y', t.y, gen.resolve(xs, case['first']))
    ctx.sut('upper', read_all, t, c, case.get('how', 'upper'))
    for l in t.lines:
        verify_line(ctx, l, pts, p, what)
    if p['min_points'] == 2 and len(pts) > 1 and xs[1] - xs[0] >= max(p['width'], p['dist']):
        # the first two points are a line already
        for side in split(t.lines):
            ctx.check(any(tup(l.trend_points)[:2] == pts[:2] for l in side), '{}: no line from the first two points', what)
    n = 0
    for q in case['q']:
        x = gen.resolve(xs, q)
        if pts and x >= xs[0]:
            n = verify_reported(ctx, t, x, what)
    up, lo = map(snap, split(t.lines))
    # a mirrored series has the mirrored lines on the other side
    # (a relative tolerance of exactly 0.01 some generated values meet)
    if p['tol'][0] in ('y_tol_abs', 'y_tol_rel') and pts and not through_zero(pts, p):
        c2, t2 = make([(x, -y) for x, y in pts], p)
        ctx.sut('mirrored', read_all, t2, c2)
        up2, lo2 = split(t2.lines)
        got = snap(lo2, 1, -1), snap(up2, 1, -1)
        ctx.check(same(got, (up, lo)), '{}: the upper and lower lines are {}, those of the mirrored series {}', what, (up, lo), got)
    # a copied line tells the same
    ctx.check(same(snap([ctx.sut('copy', l.copy) for l in t.lines]), lo + up), '{}: copies of the lines {} are {}', what, lo + up, snap([l.copy() for l in t.lines]))
    for l in t.lines:
        twin = l.copy()
        for q in pts:
            ctx.check(twin.is_point_on_trend(q) == l.is_point_on_trend(q), '{}: a copy of line {} has {} on it, unlike the line', what, tup(l), q)
    # in other units the lines are the same
    sx, sy = case['sx'], case['sy']
    c3, t3 = make([(x * sx, y * sy) for x, y in pts], p, sx, sy)
    ctx.sut('scaled', read_all, t3, c3)
    got = tuple(snap(ls, 1 / sx, 1 / sy) for ls in split(t3.lines))
    ctx.check(not pts or through_zero(pts, p) or same(got, (up, lo)), '{}: the upper and lower lines are {}, in units of {} and {} they are {}', what, (up, lo), sx, sy, got)
    ctx.nontrivial(n > 0)
    ctx.label('lines %d' % min(n, 4), 'tolerance %s' % p['tol'][0])


def st_source():
    return st.fixed_dictionaries({'pts': st_points(), 'p': st_params(), 'form': st.sampled_from(['absent', 'absent', 'mapped', 'offset', 'step']),
                                  'gone': st.lists(st.integers(0, 15), max_size=4), 'd': st.sampled_from([1, -4, 100]), 'ms': st.sampled_from([1, 2, 3])})


@facet('sources', st_source, weight=1)
def sources(case, ctx):
    """A trend sees the points its curve steps through."""
    from curvepy import Points, Trend
    pts = tup(case['pts'])
    p = case['p']
    k = case['form']
    shift = 0
    c, t = make(pts, p)
    kw = {a: getattr(t, a) for a in ('min_points', 'min_point_distance', 'search_length_rel', 'y_tol_rel', 'y_tol_abs')}
    if k == 'absent':
        gone = {g % max(1, len(pts)) for g in case['gone']}
        src = Points([(x, None if i in gone else y) for i, (x, y) in enumerate(pts)], uniform=False)
        seen = [q for i, q in enumerate(pts) if i not in gone]
    elif k == 'step':
        src = Points(pts, uniform=False)
        seen = pts[:1]
        for q in pts[1:]:
            if q[0] - seen[-1][0] >= case['ms']:
                seen.append(q)
        kw['min_step'] = case['ms']
    else:
        base = Points(pts, uniform=False)
        src = base.map(lambda y: y) if k == 'mapped' else base.offset(case['d'])
        shift = 0 if k == 'mapped' else case['d']
        seen = [(x + shift, y) for x, y in pts]
    t = ctx.sut('Trend', Trend, src, p['width'], **kw)
    ctx.sut('upper', read_all, t, src)
    c2, t2 = make(seen, p)
    read_all(t2, c2)
    ctx.check(same(snap(t.lines), snap(t2.lines)), 'the lines of a trend over {} ({}) with {} are {}, over the points {} they are {}',
              pts, k, kw, snap(t.lines), seen, snap(t2.lines))
    ctx.nontrivial(bool(t2.lines))
    ctx.label(k)


def st_history():
    op = st.one_of(st.tuples(st.just('edit'), edits.st_edit(st.integers(1, 5), starts=[0, 0, 1, -3])),
                   st.tuples(st.just('edit'), edits.st_edit(st.integers(1, 5), starts=[0, 0, 1, -3])),
                   st.tuples(st.just('append'), st.lists(st.integers(1, 5), min_size=1, max_size=4)),
                   st.tuples(st.sampled_from(['upper', 'lower', 'y', 'early']), gen.pos(14))).map(list)
    return st.fixed_dictionaries({'pts': st_points(), 'p': st_params(), 'read': st.sampled_from([True, True, False]), 'ops': st.lists(op, min_size=1, max_size=7)})


@facet('histories', st_history, weight=2)
def history(case, ctx):
    """After any edits and reads the lines are those of a trend built afresh."""
    p = case['p']
    state = tup(case['pts'])
    c, t = make(state, p)
    reported = edited = False
    if case['read']:
        ctx.sut('upper', read_all, t, c)
        reported = bool(t.lines)
    for k, a in case['ops']:
        if k == 'append':
            for y in a:
                q = (state[-1][0] + 1 if state else 0, y)
                ctx.sut('append', c.append, q)
                state = state + [q]
            edited = edited or reported
            continue
        if k == 'edit':
            e = edits.resolve(a, state)
            new = edits.apply_model(e, state, False)
            if new is None or new == edits.REJECT:
                continue
            ctx.sut(f'edit {e}', edits.perform, e, c)
            edited = edited or reported and new != state
            state = new
            continue
        x = gen.resolve([x for x, _ in state], a)
        if k == 'early':
            x = min(x, state[0][0] if state else 0) - 1
            k = 'upper'
        ctx.sut(k, getattr(t, k), x)
        reported = reported or bool(t.lines)
    ctx.sut('upper', read_all, t, c)
    c2, t2 = make(state, p)
    read_all(t2, c2)
    ctx.check(same(snap(t.lines), snap(t2.lines)), 'after {} the lines of {} {} are {}, built afresh they are {}', case['ops'], state, p, snap(t.lines), snap(t2.lines))
    ctx.nontrivial(edited)
    ctx.label('lines %d' % min(len(t2.lines), 4))


def st_story(tail):
    """A crossing, returns to the line and steps away from it"""
    f = st.integers(0, 14)
    return st.tuples(st.integers(0, 2), st.booleans(), st.lists(st.tuples(st.booleans(), f), min_size=1, max_size=4), st.lists(tail, max_size=2)).map(
        lambda a: [['cross', 1]] * a[1] + [['cross', a[0]], ['touch', 0]] + [e for t, k in a[2] for e in ([['cross', k]] + [['touch', 0]] * t)] + a[3])


def st_zigzag():
    tail = st.one_of(st.tuples(st.just('cross'), st.integers(0, 5)), st.tuples(st.just('cross'), st.integers(0, 5)),
                     st.tuples(st.just('same'), st.integers(1, 2)),
                     st.tuples(st.just('touch'), st.integers(0, 5)), st.tuples(st.just('touch'), st.integers(0, 5))).map(list)
    return st.fixed_dictionaries({
        'up': st.booleans(), 'slope': st.sampled_from([0, 0.5, -0.5, 1, 0.25]),
        'touches': st.integers(3, 6), 'offs': st.lists(st.sampled_from([2, 3, 4, 6]), min_size=6, max_size=6),
        'gaps': st.lists(st.sampled_from([1, 1, 2]), min_size=4, max_size=4),
        'dist': st.sampled_from([0, 0, 1]),
        'min_points': st.sampled_from([3, 3, 4]), 'width': st.sampled_from([1, 2, 4, 6, 9]), 'tol': st.sampled_from([0.2718281, 0.1618, 0.0915]),
        'tail': st.one_of(st.lists(tail, max_size=7), st_story(tail)), 'live': st.booleans()})


@facet('zigzag', st_zigzag, weight=3)
def zigzag(case, ctx):
    """A series which returns to a straight line from one side: the line is
    found, and what comes after is told relative to it."""
    from curvepy import Points, Trend
    up = case['up']
    m, base = case['slope'], 40
    line = lambda x: base + m * x
    away = -1 if up else 1          # the side of the points between touches
    x = 0
    pts, touches, offs = [], [], []
    for i in range(case['touches']):
        pts.append((x, line(x)))
        touches.append(pts[-1])
        x += case['gaps'][i % 4]
        if i < case['touches'] - 1:
            pts.append((x, line(x) + away * case['offs'][i]))
            offs.append([pts[-1]])
            x += case['gaps'][-1 - i % 4]
    body = len(pts)
    w = touches[-1][0]
    found = len(touches) >= case['min_points'] and w >= case['width']
    # the tail: one event after the other
    side = away
    last = 'touch'
    events = [('touch', q) for q in touches]
    for i, q in enumerate(offs):
        events.insert(1 + 2 * i, ('extrema', q[0]))
    crossings = []
    prev = offs[-1][0]
    for kind, k in case['tail']:
        if kind == 'touch':
            if last == 'touch':
                continue
            pts.append((x, line(x)))
            events.append(('touch', pts[-1]))
        elif kind == 'same':
            if last == 'touch':
                continue
            # less extreme than the point before, on the same side
            y = prev[1] - side * 0.5
            if abs(y - line(x)) < 1 or (y - line(x)) * side < 0:
                continue
            pts.append((x, y))
            prev = pts[-1]
        else:
            q = (x, line(x) + (side if last == 'touch' else -side) * (k + 1))
            if last != 'touch':
                # where the step from one side to the other meets the line
                a, b = prev[1] - line(prev[0]), q[1] - line(x)
                u = a / (a - b)
                cx = prev[0] + u * (x - prev[0])
                crossings.append((cx, line(cx)))
                events.append(('cross', crossings[-1]))
                side = -side
            pts.append(q)
            prev = q
            events.append(('extrema', q))
        last = 'touch' if kind == 'touch' else 'off'
        x += case['gaps'][x % 4]
    if pts[-1][0] >= 9 * w:
        return
    what = f'trend of {pts} along {(m, base)}'
    kw = dict(min_points=case['min_points'], y_tol_abs=case['tol'])
    if case.get('dist'):
        # (a line through points closer than that may be lost on the way)
        kw['min_point_distance'] = 1
    c = Points(pts[:body] if case['live'] else pts, uniform=False)
    t = Trend(c, case['width'], **kw)
    read_all(t, c)
    copies = [l.copy() for l in t.lines]
    told = snap(copies)
    if case['live']:
        for q in pts[body:]:
            ctx.sut('append', c.append, q)
            ctx.sut('upper', t.upper, q[0])
    ctx.check(same(snap(copies), told), '{}: copies made at {} told {}, later {}', what, pts[body - 1], told, snap(copies))
    mine = [l for l in t.lines if l.is_upper_trend == up and tuple(l.trend_points[0]) == touches[0]]
    mine = [l for l in mine if close(l.y(0), base, 1e-9) and close(l.y(w), line(w), 1e-9)]
    all_touches = [q for k, q in events if k == 'touch']
    if not found:
        if case['width'] > pts[-1][0]:
            ctx.check(not t.lines, '{}: a line although the series is shorter than {}', what, case['width'])
        return
    ctx.check(len(mine) == 1, '{}: {} lines found, expected one; all {}', what, len(mine), [(tup(l), l.is_upper_trend) for l in t.lines])
    l = mine[0]
    near = lambda got, exp: len(got) == len(exp) and all(close(g, e, 1e-7, 50) for g, e in zip(got, exp))
    ctx.check(near(tup(l.trend_points), all_touches), '{}: trend points {}, expected {}', what, tup(l.trend_points), all_touches)
    ctx.check(near(tup(l.tangent_points), all_touches), '{}: tangent points {}, expected {}', what, tup(l.tangent_points), all_touches)
    ctx.check(near(tup(l.intersections), crossings), '{}: intersections {}, expected {}', what, tup(l.intersections), crossings)
    ext = [q for k, q in events if k == 'extrema']
    ctx.check(near(tup(l.extremas), ext), '{}: extremas {}, expected {}', what, tup(l.extremas), ext)
    exp = predict(events, pts, up, line, case['min_points'], case['tol'])
    got = {k: getattr(l, 'prediction_' + k) for k in exp}
    ok = all(close(got[k], exp[k], 1e-7, 50) if not isinstance(exp[k], bool) else bool(got[k]) == exp[k] for k in exp)
    ctx.check(ok, '{}: prediction {}, expected {}; events {}', what, got, exp, events)
    ctx.nontrivial()
    ctx.label('phase %d' % exp['phase'], 'failed' if exp['failed'] else 'succeeded' if exp['succeeded'] else 'open', 'appended' if case['live'] else 'at once')


def predict(events, pts, up, line, min_points, tol):
    """The story of a break through a trend line: the crossing, the return to the
    line, the confirmation beyond the ray from the start of the line through the
    last extreme, and the target."""
    s = {'phase': 0, 'failed': False, 'succeeded': False, 'intersection': None, 'extrema': None, 'retest_point': None, 'y': None,
         'success_point': None, 'x_max': None}
    origin = pts[0]
    sign = 1 if up else -1
    own = {'seen': None, 'retest_max': None, 'touches': 0}

    def target():
        ext, cross = own['seen'], s['intersection']
        s['extrema'] = ext
        s['y'] = cross[1] + (ext[1] - cross[1]) * GOLD ** 2
        s['x_max'] = ext[0] + (ext[0] - origin[0]) * GOLD

    def event(kind, q):
        if s['failed'] or s['succeeded']:
            return
        if s['phase'] == 0:
            if kind == 'touch':
                own['touches'] += 1
            elif kind == 'cross':
                if own['touches'] < min_points:
                    s['failed'] = True
                    return
                s['phase'] = 1
                s['intersection'] = q
                own['retest_max'] = q[0] + (q[0] - origin[0]) / GOLD
            return
        if kind == 'cross':
            s['failed'] = True
        elif kind == 'touch':
            if q[0] > own['retest_max']:
                s['failed'] = True
                return
            target()
            s['phase'] = 2
            s['retest_point'] = q
        elif (q[1] - line(q[0])) * sign > 0:
            own['seen'] = q
            if s['phase'] == 1:
                target()
            if s['phase'] == 2:
                ray = origin[1] + (s['extrema'][1] - origin[1]) / (s['extrema'][0] - origin[0]) * (q[0] - origin[0])
                if (q[1] - ray) * sign >= tol:
                    s['phase'] = 3
            if s['phase'] == 3:
                if (q[1] - s['y']) * sign >= -tol:
                    s['phase'] = 4
                    s['succeeded'] = True
                    s['success_point'] = q
                elif q[0] >= s['x_max']:
                    s['failed'] = True

    def late(x):
        if s['failed'] or s['succeeded']:
            return
        if s['phase'] >= 2 and x >= s['x_max'] or s['phase'] == 1 and x >= own['retest_max']:
            s['failed'] = True

    # the story is told anew at every touch of the line
    start = [q for k, q in events if k == 'touch'][-1][0]
    for k, q in events:
        if q[0] <= start:
            event(k, q)
    late(start)
    x0 = start
    for x, _ in pts:
        if x > start:
            for k, q in events:
                if x0 < q[0] <= x:
                    event(k, q)
            late(x)
            x0 = x
    return s


FACETS = [any_series, sources, history, zigzag]
