"""Reference geometry: exact signed distances of the graphical primitives.

sd(prim, P) < 0 inside, > 0 outside, |sd| = distance to the outline.
Nothing here is shared with the implementation.
"""

from __future__ import annotations

import math

import numpy as np

# ---------------------------------------------------------------- similarity transforms


def ident():
    return (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)  # a b c d tx ty ; x' = a x + b y + tx


def compose(m, n):
    """m after n."""
    a, b, c, d, e, f = m
    A, B, C, D, E, F = n
    return (a * A + b * C, a * B + b * D, c * A + d * C, c * B + d * D,
            a * E + b * F + e, c * E + d * F + f)


def translate(x, y):
    return (1.0, 0.0, 0.0, 1.0, x, y)


def scale(s):
    return (s, 0.0, 0.0, s, 0.0, 0.0)


def mirror(mx, my):
    return (-1.0 if mx else 1.0, 0.0, 0.0, -1.0 if my else 1.0, 0.0, 0.0)


def rotate(deg):
    k = deg % 360
    exact = {0: (1, 0), 90: (0, 1), 180: (-1, 0), 270: (0, -1)}
    c, s = exact.get(k, (math.cos(math.radians(k)), math.sin(math.radians(k))))
    return (c, -s, s, c, 0.0, 0.0)


def apply(m, p):
    a, b, c, d, e, f = m
    return (a * p[0] + b * p[1] + e, c * p[0] + d * p[1] + f)


def factor(m):
    return math.sqrt(abs(m[0] * m[3] - m[1] * m[2]))


def flips(m):
    return (m[0] * m[3] - m[1] * m[2]) < 0


def _tr_arc(m, cx, cy, a0, sweep):
    ccx, ccy = apply(m, (cx, cy))
    px, py = apply(m, (cx + math.cos(math.radians(a0)), cy + math.sin(math.radians(a0))))
    a = math.degrees(math.atan2(py - ccy, px - ccx))
    return ccx, ccy, a, (-sweep if flips(m) else sweep)


def transform(m, prim):
    kind = prim[0]
    k = factor(m)
    if kind == "circle":
        x, y = apply(m, (prim[1], prim[2]))
        return ("circle", x, y, prim[3] * k)
    if kind == "poly":
        return ("poly", [apply(m, p) for p in prim[1]])
    if kind == "capsule":
        return ("capsule", *apply(m, prim[1:3]), *apply(m, prim[3:5]), prim[5] * k)
    if kind == "arcstroke":
        _, cx, cy, R, a0, sweep, half = prim
        x, y, a, s = _tr_arc(m, cx, cy, a0, sweep)
        return ("arcstroke", x, y, R * k, a, s, half * k)
    if kind == "contour":
        out = []
        for seg in prim[1]:
            if seg[0] == "L":
                out.append(("L", *apply(m, seg[1:3]), *apply(m, seg[3:5])))
            else:
                _, cx, cy, R, a0, sweep = seg
                x, y, a, s = _tr_arc(m, cx, cy, a0, sweep)
                out.append(("A", x, y, R * k, a, s))
        return ("contour", out)
    if kind in ("and", "or", "sub"):
        return (kind, *[transform(m, q) for q in prim[1:]])
    raise ValueError(kind)


# ------------------------------------------------------------------------ constructors


def circle(x, y, d):
    return ("circle", x, y, d / 2)


def rect(x, y, w, h):
    return ("poly", [(x - w / 2, y - h / 2), (x + w / 2, y - h / 2),
                     (x + w / 2, y + h / 2), (x - w / 2, y + h / 2)])


def obround(x, y, w, h):
    if w <= h:
        o = (h - w) / 2
        return ("capsule", x, y - o, x, y + o, w / 2)
    o = (w - h) / 2
    return ("capsule", x - o, y, x + o, y, h / 2)


def regular(x, y, d, n, rot):
    return ("poly", [(x + d / 2 * math.cos(math.radians(rot + 360 * k / n)),
                      y + d / 2 * math.sin(math.radians(rot + 360 * k / n)))
                     for k in range(n)])


def butt_line(x0, y0, x1, y1, w):
    dx, dy = x1 - x0, y1 - y0
    n = math.hypot(dx, dy) or 1.0
    px, py = -dy / n * w / 2, dx / n * w / 2
    return ("poly", [(x0 + px, y0 + py), (x1 + px, y1 + py), (x1 - px, y1 - py), (x0 - px, y0 - py)])


def arc_params(start, end, center, cw):
    """R, a0, signed sweep of arc; equal end points make a full circle."""
    R = math.hypot(start[0] - center[0], start[1] - center[1])
    a0 = math.degrees(math.atan2(start[1] - center[1], start[0] - center[0]))
    a1 = math.degrees(math.atan2(end[1] - center[1], end[0] - center[0]))
    if math.hypot(start[0] - end[0], start[1] - end[1]) < 1e-9:
        sweep = -360.0 if cw else 360.0
    elif cw:
        sweep = -((a0 - a1) % 360)
    else:
        sweep = (a1 - a0) % 360
    return R, a0, sweep


def arc_stroke(start, end, center, cw, w):
    R, a0, sweep = arc_params(start, end, center, cw)
    return ("arcstroke", center[0], center[1], R, a0, sweep, w / 2)


# --------------------------------------------------------------------- signed distance


def _seg_dist(P, x0, y0, x1, y1):
    d = np.array([x1 - x0, y1 - y0])
    L2 = float(d @ d)
    v = P - np.array([x0, y0])
    t = np.zeros(len(P)) if L2 == 0 else np.clip((v @ d) / L2, 0, 1)
    return np.hypot(v[:, 0] - t * d[0], v[:, 1] - t * d[1])


def _arc_dist(P, cx, cy, R, a0, sweep):
    vx, vy = P[:, 0] - cx, P[:, 1] - cy
    rad = np.hypot(vx, vy)
    if abs(sweep) >= 360:
        return np.abs(rad - R)
    ang = np.degrees(np.arctan2(vy, vx))
    rel = (ang - a0) % 360 if sweep >= 0 else (a0 - ang) % 360
    on = rel <= abs(sweep)
    a1 = math.radians(a0 + sweep)
    a0 = math.radians(a0)
    d0 = np.hypot(vx - R * math.cos(a0), vy - R * math.sin(a0))
    d1 = np.hypot(vx - R * math.cos(a1), vy - R * math.sin(a1))
    return np.where(on, np.abs(rad - R), np.minimum(d0, d1))


def _even_odd(P, pts):
    inside = np.zeros(len(P), bool)
    x, y = P[:, 0], P[:, 1]
    n = len(pts)
    for k in range(n):
        x0, y0 = pts[k]
        x1, y1 = pts[(k + 1) % n]
        cond = (y0 > y) != (y1 > y)
        if y1 != y0:
            xi = x0 + (y - y0) * (x1 - x0) / (y1 - y0)
            inside ^= cond & (x < xi)
    return inside


def sd(prim, P):
    kind = prim[0]
    if kind == "circle":
        return np.hypot(P[:, 0] - prim[1], P[:, 1] - prim[2]) - prim[3]
    if kind == "poly":
        pts = prim[1]
        d = np.full(len(P), np.inf)
        for k in range(len(pts)):
            d = np.minimum(d, _seg_dist(P, *pts[k], *pts[(k + 1) % len(pts)]))
        return np.where(_even_odd(P, pts), -d, d)
    if kind == "capsule":
        return _seg_dist(P, *prim[1:5]) - prim[5]
    if kind == "arcstroke":
        return _arc_dist(P, *prim[1:6]) - prim[6]
    if kind == "contour":
        d = np.full(len(P), np.inf)
        pts = []
        for seg in prim[1]:
            if seg[0] == "L":
                d = np.minimum(d, _seg_dist(P, *seg[1:5]))
                pts.append(seg[1:3])
            else:
                _, cx, cy, R, a0, sweep = seg
                d = np.minimum(d, _arc_dist(P, cx, cy, R, a0, sweep))
                n = max(2, int(abs(sweep)))
                pts.extend((cx + R * math.cos(math.radians(a0 + sweep * k / n)),
                            cy + R * math.sin(math.radians(a0 + sweep * k / n)))
                           for k in range(n))
        return np.where(_even_odd(P, pts), -d, d)
    if kind == "and":
        return np.max([sd(q, P) for q in prim[1:]], axis=0)
    if kind == "or":
        return np.min([sd(q, P) for q in prim[1:]], axis=0)
    if kind == "sub":
        return np.maximum(sd(prim[1], P), -sd(prim[2], P))
    raise ValueError(kind)


# ----------------------------------------------------------------------------- pictures


def paint(objects, P):
    """objects: [(dark, [(dark, prim), ...]), ...] painted in order.

    Returns (inside, margin): margin is the distance to the nearest outline of anything
    painted, below which a probe is not decided.
    """
    inside = np.zeros(len(P), bool)
    margin = np.full(len(P), np.inf)
    for dark, layer in objects:
        cover = np.zeros(len(P), bool)
        for ldark, prim in layer:
            s = sd(prim, P)
            margin = np.minimum(margin, np.abs(s))
            cover = np.where(s < 0, ldark, cover)
        inside = np.where(cover, dark, inside)
    return inside, margin


def extent(objects):
    """Bounding box of all primitives (dark and clear)."""
    xs, ys = [], []

    def add(prim):
        k = prim[0]
        if k == "circle":
            xs.extend((prim[1] - prim[3], prim[1] + prim[3]))
            ys.extend((prim[2] - prim[3], prim[2] + prim[3]))
        elif k == "poly":
            xs.extend(p[0] for p in prim[1])
            ys.extend(p[1] for p in prim[1])
        elif k == "capsule":
            xs.extend((prim[1] - prim[5], prim[1] + prim[5], prim[3] - prim[5], prim[3] + prim[5]))
            ys.extend((prim[2] - prim[5], prim[2] + prim[5], prim[4] - prim[5], prim[4] + prim[5]))
        elif k == "arcstroke":
            _, cx, cy, R, a0, sw, h = prim
            n = max(8, int(abs(sw)))
            for j in range(n + 1):
                a = math.radians(a0 + sw * j / n)
                xs.extend((cx + R * math.cos(a) - h, cx + R * math.cos(a) + h))
                ys.extend((cy + R * math.sin(a) - h, cy + R * math.sin(a) + h))
        elif k == "contour":
            for seg in prim[1]:
                if seg[0] == "L":
                    xs.extend((seg[1], seg[3]))
                    ys.extend((seg[2], seg[4]))
                else:
                    _, cx, cy, R, a0, sw = seg
                    n = max(8, int(abs(sw)))
                    for j in range(n + 1):
                        a = math.radians(a0 + sw * j / n)
                        xs.append(cx + R * math.cos(a))
                        ys.append(cy + R * math.sin(a))
        elif k == "sub":
            add(prim[1])
        else:
            for q in prim[1:]:
                add(q)

    for _, layer in objects:
        for _, prim in layer:
            add(prim)
    if not xs:
        return None
    return min(xs), min(ys), max(xs), max(ys)


def grid(x0, y0, x1, y1, step):
    """Probe grid, deliberately off lattice so that probes avoid round coordinates."""
    xs = np.arange(x0 + step * 0.37, x1, step)
    ys = np.arange(y0 + step * 0.41, y1, step)
    gx, gy = np.meshgrid(xs, ys)
    return np.column_stack([gx.ravel(), gy.ravel()])
