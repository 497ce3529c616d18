"""Reference models: plain lists of (x, y), no code shared with curvepy."""
from fractions import Fraction as F
import math


def lookup(pts, x, mode):
    """Value of a point series at x. mode -1 previous, 0 linear, 1 next."""
    if not pts or x is None or x < pts[0][0] or x > pts[-1][0]:
        return None
    for i, (px, py) in enumerate(pts):
        if px == x:
            return py
        if px > x:
            (x0, y0), (x1, y1) = pts[i - 1], pts[i]
            break
    if mode == -1:
        return y0
    if mode == 1:
        return y1
    if y0 is None or y1 is None:
        return None
    u = F(x - x0) / F(x1 - x0) if isinstance(x, F) else F(F(x) - F(x0)) / (F(x1) - F(x0))
    return float((1 - u) * F(y0) + u * F(y1))


def scale_of(pts):
    return max([1.0] + [abs(y) for _, y in pts if y is not None])


def step_next(xs, x, min_step):
    """Least point at least min_step after x."""
    for p in xs:
        if p >= x + min_step:
            return p
    return None


def step_prev(xs, x, min_step):
    for p in reversed(xs):
        if p <= x - min_step:
            return p
    return None


def inside(x, iv):
    a, b, ao, bo = iv
    if x < a or (ao and x == a):
        return False
    if x > b or (bo and x == b):
        return False
    return True


def evenly_spaced(xs, interval=None):
    if len(xs) < 2:
        return True
    if interval is None:
        interval = xs[1] - xs[0]
    return all(abs((q - p) - interval) <= 1e-9 * abs(interval) for p, q in zip(xs, xs[1:]))


def integral(pts, const=0, mode=0):
    """Accumulated area at every point; None until the first present value."""
    out = []
    acc = None
    for i, (x, y) in enumerate(pts):
        if y is not None:
            if acc is None:
                acc = F(0)
            if i > 0 and pts[i - 1][1] is not None:
                x0, y0 = pts[i - 1]
                dx = F(x) - F(x0)
                if mode == 0:
                    acc += dx * (F(y0) + F(y)) / 2
                elif mode == -1:
                    acc += dx * F(y0)
                else:
                    acc += dx * F(y)
        out.append((x, None if acc is None else float(acc + F(const))))
    return out


def mean_over(pts, i, j):
    """Time-weighted mean of the straight lines joining points i..j."""
    if i == j:
        return float(pts[i][1])
    area = F(0)
    for k in range(i, j):
        (x0, y0), (x1, y1) = pts[k], pts[k + 1]
        area += (F(x1) - F(x0)) * (F(y0) + F(y1)) / 2
    return float(area / (F(pts[j][0]) - F(pts[i][0])))


def sma_degree(pts, n):
    return [(pts[j][0], mean_over(pts, j - n + 1, j)) for j in range(n - 1, len(pts))]


def sma_period(pts, p):
    """Window: the points less than p before the evaluated one. The first is
    the last point less than p after the first point of the series."""
    if not pts:
        return []
    out = []
    first = max(j for j in range(len(pts)) if pts[j][0] < pts[0][0] + p)
    for j in range(first, len(pts)):
        i = min(k for k in range(j + 1) if pts[k][0] > pts[j][0] - p)
        out.append((pts[j][0], mean_over(pts, i, j)))
    return out


def ema(pts, alpha=None, period=None, init=None):
    out = []
    cur = None
    for i, (x, y) in enumerate(pts):
        if y is not None:
            if cur is None:
                cur = y if init is None else init(x)
            else:
                a = alpha if alpha is not None else (x - pts[i - 1][0]) / period
                cur = cur + a * (y - cur)
        out.append((x, cur))
    return out


def window_degree(pts, n, j):
    return [y for _, y in pts[max(0, j - n + 1):j + 1]]


def window_period(pts, p, j):
    return [y for x, y in pts[:j + 1] if x >= pts[j][0] - p]
