"""Constructing curves from JSON, and observing them through the public API."""
import math
from intervalpy import Interval
from curvepy import Points


def points(s, **kw):
    """Points from a series case. Lists of lists, as read from JSON."""
    pts = [tuple(p) for p in s['pts']]
    make = lambda pts: Points(pts, interpolation=s.get('interp', 0), uniform=s.get('uniform', True), **kw)
    if not s.get('past') or not pts:
        return make(pts)
    start, edits = history(pts, s['past'][0], s['past'][1])
    p = make(start)
    p.vf_past = (edits, s['past'][2], pts)
    return p


def history(pts, kind, k):
    """-> (points before, the edits leading to `pts`)"""
    n = len(pts)
    xs = [x for x, _ in pts]
    if kind in ('append', 'extend'):
        k = min(k, n)
        if kind == 'append':
            return pts[:n - k], [lambda p, q=q: p.append(q) for q in pts[n - k:]]
        return pts[:n - k], [lambda p: p.append_list(pts[n - k:])]
    if kind == 'value':
        i = -k % n
        return [(x, pts[(j + 1) % n][1] if j == i else y) for j, (x, y) in enumerate(pts)], [lambda p: p.replace(pts[i])]
    if kind == 'set':
        return [(x, y) for (x, _), (_, y) in zip(pts, pts[::-1])], [lambda p: p.set(list(pts))]
    gap = xs[1] - xs[0] if n > 1 else 1
    if kind == 'other':
        return [(xs[0] + (i - k) * gap, y) for i, (_, y) in enumerate(pts[::-1] + pts[:2])], [lambda p: p.set(list(pts))]
    if kind == 'tail':
        gap = xs[-1] - xs[-2] if n > 1 else 1
        return pts + [(xs[-1] + (i + 1) * gap, pts[i % n][1]) for i in range(k)], [lambda p: p.reset(Interval(xs[-1], math.inf, start_open=True, end_open=True))]
    if kind == 'head':
        return [(xs[0] - (k - i) * gap, pts[i % n][1]) for i in range(k)] + pts, [lambda p: p.reset(Interval(-math.inf, xs[0], start_open=True, end_open=True))]
    return [(x, y) for (x, _), (_, y) in zip(pts, pts[1:] + pts[:1])], [lambda p: p.reset(), lambda p: p.append_list(list(pts))]


class Slopes:
    """The slopes of a curve, to be read"""

    def __init__(self, c):
        self.c = c
        self.domain = Interval.empty()

    def y(self, x):
        return self.c.d_y(x), self.c.d_y(x, forward=True)


class Tolerant:
    """A curve whose arithmetic may fail on the way"""

    def __init__(self, c):
        self.c = c
        self.domain = Interval.empty()

    def y(self, x):
        try:
            return self.c.y(x)
        except (ArithmeticError, ValueError, TypeError):
            return None


def settle(ctx, p, *curves):
    """Read `curves`, derived from the series `p` with a past, and then let `p`
    reach its points. -> whether it had a past"""
    past = p.__dict__.pop('vf_past', None) if p is not None else None
    if past is None:
        return False
    edits, how, pts = past
    xs = [x for x, _ in pts]
    gap = xs[1] - xs[0] if len(xs) > 1 else 1
    qs = [xs[0] - gap] + xs + [xs[-1] + gap / 2, xs[-1] + gap, xs[-1] + 2 * gap]
    qs = {'up': qs, 'down': qs[::-1], 'some': qs[len(qs) // 2:len(qs) // 2 + 1]}[how]

    def read(c):
        for x in qs:
            c.y(x)
        d = c.domain
        if how != 'some' and not d.is_empty and d.is_finite:
            c.sample_points()
            c.x_next(xs[0])
            c.x_previous(xs[-1])

    for c in curves:
        ctx.sut('reads before the last edits', read, c)
    for f in edits:
        ctx.sut('edit', f, p)
        if how == 'down':
            for c in curves:
                ctx.sut('reads between edits', c.y, xs[-1])
    ctx.label('edited')
    return True


def pts_of(c, **kw):
    return [(p[0], p[1]) for p in c.sample_points(**kw)]


def dom(c):
    """None when empty, else (start, end, start_open, end_open)"""
    return iv_tuple(c.domain)


def iv_tuple(d):
    if d.is_empty:
        return None
    return (d.start, d.end, bool(d.start_open), bool(d.end_open))


def closed_dom(xs):
    return (xs[0], xs[-1], False, False) if xs else None


def same_iv(a, b, tol=1e-9):
    if a is None or b is None:
        return a is None and b is None
    return a[2:] == b[2:] and all(p == q or abs(p - q) <= tol * max(1.0, abs(p), abs(q)) for p, q in zip(a[:2], b[:2]))


def interval(t):
    return Interval(t[0], t[1], start_open=t[2], end_open=t[3])


def enc(x):
    """JSON-able form of a possibly infinite number"""
    return x
