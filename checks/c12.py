"""C12: geometry toolkit: transformations compose, boxes bound, shapes are what they are called."""

from __future__ import annotations

import itertools
import math

import numpy as np

from mc import geom, impl, oracle
from mc.core import Mismatch, Obs, expect, expect_eq

PROPERTY = "C12"
BATCH = 1
ASSUMPTIONS = ["similarity transformations (rotation, reflection, uniform scale, translation); arcs with equal radii at both ends",
               "bounding box of an arc may include its centre"]

GEN = [("r", 0), ("r", 15), ("r", 75), ("r", 90), ("r", 30), ("r", 60), ("r", 210), ("r", -45), ("r", 180), ("r", 270),
       ("m", 0, 0), ("m", 1, 0), ("m", 0, 1), ("m", 1, 1), ("s", 2.0), ("s", 0.5), ("t", 1.5, -2.25), ("t", 0, 3.0)]
PTS = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (-1.5, 2.25), (3.0, -4.0)]
ANG = list(range(0, 360, 15))


def ref(g):
    if g[0] == "r":
        return geom.rotate(g[1])
    if g[0] == "m":
        return geom.mirror(g[1], g[2])
    if g[0] == "s":
        return geom.scale(g[1])
    return geom.translate(g[1], g[2])


def real(g):
    from pygerber.vm.types import Matrix3x3

    if g[0] == "r":
        return Matrix3x3.new_rotate(g[1])
    if g[0] == "m":
        return Matrix3x3.new_reflect(x=bool(g[1]), y=bool(g[2]))
    if g[0] == "s":
        return Matrix3x3.new_scale(g[1], g[1])
    return Matrix3x3.new_translate(g[1], g[2])


def close(a, b, tol=1e-9):
    return all(abs(x - y) <= tol * max(1, abs(y)) for x, y in zip(a, b))


def chain(gs):
    m, r = real(gs[0]), ref(gs[0])
    for g in gs[1:]:
        m = m @ real(g)
        r = geom.compose(r, ref(g))
    return m, r


def shapes():
    """(name, shape, reference primitive)"""
    from pygerber.vm.commands import Shape

    out = []
    for c in ((0.0, 0.0), (1.25, -0.5)):
        x, y = c
        for neg in (False,):
            out.append((f"circle{c}", [Shape.new_circle(c, 1.4, is_negative=neg)], geom.circle(x, y, 1.4)))
            for w, h in ((2.0, 1.0), (0.8, 2.2)):
                out.append((f"rect{c}{w}", [Shape.new_rectangle(c, w, h, is_negative=neg)], geom.rect(x, y, w, h)))
                out.append((f"obround{c}{w}", [Shape.new_obround(c, w, h, is_negative=neg)], geom.obround(x, y, w, h)))
            out.append((f"obround{c}sq", [Shape.new_obround(c, 1.5, 1.5, is_negative=neg)], geom.circle(x, y, 1.5)))
            for n in (3, 4, 5, 6, 8, 12):
                for rot in (0, 20, 90, 130, 200, 359, -30):
                    out.append((f"polygon{c}{n},{rot}", [Shape.new_polygon(c, 2.0, n, rot, is_negative=neg)],
                                geom.regular(x, y, 2.0, n, rot)))
            out.append((f"ring{c}", list(Shape.new_ring(c, 3.0, 1.6, is_negative=neg)),
                        ("sub", geom.circle(x, y, 3.0), geom.circle(x, y, 1.6))))
            pts = [(x, y), (x + 2, y + 0.5), (x + 1, y + 2), (x + 0.75, y + 1)]
            out.append((f"points{c}", [Shape.new_connected_points(*pts, is_negative=neg)], ("poly", pts)))
            out.append((f"points{c}closed", [Shape.new_connected_points(*pts, pts[0], is_negative=neg)], ("poly", pts)))
            for a in range(0, 360, 30):
                e = (x + 2 * math.cos(math.radians(a)), y + 2 * math.sin(math.radians(a)))
                out.append((f"line{c}{a}", [Shape.new_line(c, e, 0.6, is_negative=neg)], geom.butt_line(x, y, *e, 0.6)))
    return out


FACTORIES = {
    "circle": lambda S, c, k, **a: [S.new_circle(c, 1.4 * k, **a)],
    "rectangle": lambda S, c, k, **a: [S.new_rectangle(c, 2.0 * k, 1.0 * k, **a)],
    "obround": lambda S, c, k, **a: [S.new_obround(c, 2.0 * k, 0.8 * k, **a)],
    "obround2": lambda S, c, k, **a: [S.new_obround(c, 0.7 * k, 2.2 * k, **a)],
    "polygon": lambda S, c, k, **a: [S.new_polygon(c, 2.0 * k, 7, 33, **a)],
    "line": lambda S, c, k, **a: [S.new_line(c, (c[0] + 2 * k, c[1] - k), 0.6 * k, **a)],
    "cw": lambda S, c, k, **a: [S.new_cw_arc((c[0] + 2 * k, c[1]), (c[0], c[1] + 2 * k), c, 0.6 * k, **a)],
    "ccw": lambda S, c, k, **a: [S.new_ccw_arc((c[0] + 2 * k, c[1]), (c[0], c[1] + 2 * k), c, 0.6 * k, **a)],
    "ring": lambda S, c, k, **a: list(S.new_ring(c, 3.0 * k, 1.6 * k, **a)),
    "points": lambda S, c, k, **a: [S.new_connected_points(c, (c[0] + 2 * k, c[1] + k / 2), (c[0] + k, c[1] + 2 * k), **a)],
}


def reference(name, c, k):
    x, y = c
    return {
        "circle": lambda: geom.circle(x, y, 1.4 * k), "rectangle": lambda: geom.rect(x, y, 2.0 * k, k),
        "obround": lambda: geom.obround(x, y, 2.0 * k, 0.8 * k), "obround2": lambda: geom.obround(x, y, 0.7 * k, 2.2 * k),
        "polygon": lambda: geom.regular(x, y, 2.0 * k, 7, 33), "line": lambda: geom.butt_line(x, y, x + 2 * k, y - k, 0.6 * k),
        "cw": lambda: arc_sector([(x + 2 * k, y), (x, y + 2 * k)], c, True, 0.6 * k),
        "ccw": lambda: arc_sector([(x + 2 * k, y), (x, y + 2 * k)], c, False, 0.6 * k),
        "ring": lambda: ("sub", geom.circle(x, y, 3.0 * k), geom.circle(x, y, 1.6 * k)),
        "points": lambda: ("poly", [c, (x + 2 * k, y + k / 2), (x + k, y + 2 * k)]),
    }[name]()


def run_factory(name):
    """Polarity, attributes, and sizes from tiny to huge, near and far."""
    from pygerber.vm import RVMC
    from pygerber.vm.commands import EndLayer, Shape, StartLayer
    from pygerber.vm.types import LayerID

    n, states = 0, set()
    for neg, meta in itertools.product((False, True), (None, {}, {"a": "1", "b": ""})):
        args = {"is_negative": neg} if meta is None else {"is_negative": neg, "metadata": meta}
        for sh in FACTORIES[name](Shape, (0.5, -0.25), 1.0, **args):
            for m in (None, ("r", 30), ("m", 1, 0), ("s", 2.0), ("t", 1, 2)):
                s = sh if m is None else sh.transform(real(m))
                expect_eq((s.is_negative, s.metadata), (neg, meta), f"polarity and attributes of {name} {neg} {meta} {m}")
                n += 1
    for k, c in itertools.product((0.001, 0.01, 0.1, 1.0, 10.0, 500.0), ((0.0, 0.0), (1.0, -2.0), (-250.0, 30.0))):
        c = (c[0] * max(k, 0.01), c[1] * max(k, 0.01))
        lst = FACTORIES[name](Shape, c, k, is_negative=False)
        objs = [(True, [(True, reference(name, c, k))])]
        P = oracle.probes(objs, 0.6 * k, 500)
        rvmc = RVMC(commands=[StartLayer(id=LayerID(id="%main%")), *lst, EndLayer()])
        oracle.compare(objs, P, oracle.shapely_contains(impl.run_shapely(rvmc), P), 0.02 * k, f"{name} of size {k} at {c}")
        box = lst[0].outer_box
        for s in lst[1:]:
            box = box + s.outer_box
        oracle.box_contains(box, geom.extent(objs), 0.01 * k, f"box of {name} of size {k} at {c}")
        n += 1
        states.add((name, k, c))
    return Obs(states=states, transitions=n, traces=n, outcome=name)


def arcs():
    from pygerber.vm.commands import Shape

    for c in ((0.0, 0.0), (-1.0, 0.5)):
        for a0, a1 in itertools.product(range(0, 360, 30), repeat=2):
            if a0 == a1:
                continue
            p = [(c[0] + 2 * math.cos(math.radians(a)), c[1] + 2 * math.sin(math.radians(a))) for a in (a0, a1)]
            for cw in (True, False):
                f = Shape.new_cw_arc if cw else Shape.new_ccw_arc
                yield f"arc{c}{a0}-{a1}{'cw' if cw else 'ccw'}", f(p[0], p[1], c, 0.6, is_negative=False), p, c, cw


def picture(shape_list, prim, what, tr=None):
    from pygerber.vm import RVMC
    from pygerber.vm.commands import EndLayer, StartLayer
    from pygerber.vm.types import LayerID

    objs = [(True, [(True, prim)])]
    rvmc = RVMC(commands=[StartLayer(id=LayerID(id="%main%")), *shape_list, EndLayer()])
    P = oracle.probes(objs, 0.6, 500)
    try:
        oracle.compare(objs, P, oracle.shapely_contains(impl.run_shapely(rvmc), P), 0.03, "vector")
        res = impl.run_pillow(rvmc)
        oracle.compare(objs, P, oracle.pillow_contains(oracle.pillow_mask(res), res.main_box, 20, P), 0.13, "raster")
    except Mismatch as e:
        e.what = f"{what}: {e.what}"
        raise
    ext = geom.extent(objs)
    box = shape_list[0].outer_box
    for s in shape_list[1:]:
        box = box + s.outer_box
    oracle.box_contains(box, ext, 0.02, f"{what}: bounding box")


def arc_sector(p, c, cw, w):
    """Annular sector with straight ends: stroke of an arc without its caps."""
    R, a0, sweep = geom.arc_params(p[0], p[1], c, cw)
    ro, ri = R + w / 2, R - w / 2
    a1 = a0 + sweep
    at = lambda r, a: (c[0] + r * math.cos(math.radians(a)), c[1] + r * math.sin(math.radians(a)))  # noqa: E731
    return ("contour", [("A", *c, ro, a0, sweep), ("L", *at(ro, a1), *at(ri, a1)), ("A", *c, ri, a1, -sweep),
                        ("L", *at(ri, a0), *at(ro, a0))])


def cases(tier):
    for g in GEN:
        yield ["matrix", list(g)]
    for k in range(4):
        yield ["vector", k]
    yield ["box"]
    for a in ANG:
        yield ["arcbox", a]
    n = len(shapes_count())
    for k in range(n):
        yield ["shape", k]
    for k in range(0, 528, 8):
        yield ["arc", k]
    for f in FACTORIES:
        yield ["factory", f]
    yield ["color"]


def shapes_count():
    return range(2 * (1 + 4 + 1 + 42 + 1 + 2 + 12))


_S = {}


def run_case(case):
    from pygerber.vm.commands import Arc, Line, Shape
    from pygerber.vm.types import Box, Matrix3x3, Vector

    kind = case[0]
    if kind == "factory":
        return run_factory(case[1])
    n = 0
    states = set()
    if kind == "matrix":
        first = tuple(case[1])
        for d in (0, 1, 2):
            for rest in itertools.product(GEN, repeat=d):
                gs = (first, *rest)
                m, r = chain(gs)
                for p in PTS:
                    v = Vector(x=p[0], y=p[1])
                    want = geom.apply(r, p)
                    expect(close((m @ v).xy, want), f"{gs} @ {p}", want, (m @ v).xy)
                    expect(close(v.transform(m).xy, want), f"transform by {gs} of {p}", want, v.transform(m).xy)
                # an arc keeps being the image of the arc
                arc = Arc.from_tuples((2.0, 1.0), (1.0, 2.0), (1.0, 1.0), clockwise=False).transform(m)
                expect_eq(arc.clockwise, geom.flips(r), f"direction of arc transformed by {gs}")
                for name, p in (("start", (2.0, 1.0)), ("end", (1.0, 2.0)), ("center", (1.0, 1.0))):
                    expect(close(getattr(arc, name).xy, geom.apply(r, p)), f"{name} of arc transformed by {gs}")
                line = Line.from_tuples((2.0, 1.0), (-1.0, 2.0)).transform(m)
                expect(close((*line.start.xy, *line.end.xy), (*geom.apply(r, (2.0, 1.0)), *geom.apply(r, (-1.0, 2.0)))),
                       f"line transformed by {gs}")
                if d < 2:
                    sh = Shape.new_rectangle((1.0, 0.5), 2.0, 1.0, is_negative=True, metadata={"a": "b"})
                    _ = sh.outer_box
                    t = sh.transform(m)
                    corners = [geom.apply(r, p) for p in ((0.0, 0.0), (2.0, 0.0), (2.0, 1.0), (0.0, 1.0))]
                    b = t.outer_box
                    want = (min(c[0] for c in corners), min(c[1] for c in corners), max(c[0] for c in corners), max(c[1] for c in corners))
                    expect(close((b.min_x, b.min_y, b.max_x, b.max_y), want), f"box of rectangle transformed by {gs}", want, b)
                    expect_eq((t.is_negative, t.metadata), (True, {"a": "b"}), "polarity and attributes of transformed shape")
                    states.add(repr(want))
                n += 1
        states.add(repr(first))
    elif kind == "vector":
        vals = [-2.5, -1.0, 0.0, 0.5, 3.0]
        grid = list(itertools.product(vals, repeat=2))
        for a, b in itertools.product(grid, repeat=2):
            va, vb = Vector(x=a[0], y=a[1]), Vector.from_tuple(b)
            if case[1] == 0:
                expect_eq((va + vb).xy, (a[0] + b[0], a[1] + b[1]), f"{a}+{b}")
                expect_eq((va - vb).xy, (a[0] - b[0], a[1] - b[1]), f"{a}-{b}")
                expect_eq((va * vb).xy, (a[0] * b[0], a[1] * b[1]), f"{a}*{b}")
                if b[0] and b[1]:
                    expect_eq((va / vb).xy, (a[0] / b[0], a[1] / b[1]), f"{a}/{b}")
                for s in (2, 0.5, -1.5):
                    expect_eq((va + s).xy, (a[0] + s, a[1] + s), f"{a}+{s}")
                    expect_eq((va - s).xy, (a[0] - s, a[1] - s), f"{a}-{s}")
                    expect_eq((va * s).xy, (a[0] * s, a[1] * s), f"{a}*{s}")
                    expect_eq((va / s).xy, (a[0] / s, a[1] / s), f"{a}/{s}")
                expect_eq((-va).xy, (-a[0], -a[1]), f"-{a}")
            elif case[1] == 1:
                expect_eq(va == vb, a == b, f"{a}=={b}")
                expect_eq(va != vb, a != b, f"{a}!={b}")
                expect_eq(va < vb, a[0] < b[0] and a[1] < b[1], f"{a}<{b}")
                expect_eq(va > vb, a[0] > b[0] and a[1] > b[1], f"{a}>{b}")
                expect_eq(va <= vb, a[0] <= b[0] and a[1] <= b[1], f"{a}<={b}")
                expect_eq(va >= vb, a[0] >= b[0] and a[1] >= b[1], f"{a}>={b}")
            elif case[1] == 2:
                expect(abs(va.length() - math.hypot(*a)) < 1e-12, f"length of {a}")
                u = va.normalized()
                if a != (0.0, 0.0):
                    expect(abs(u.length() - 1) < 1e-12 and close((u * va.length()).xy, a), f"normalized {a}")
            else:
                if a != (0.0, 0.0) and b != (0.0, 0.0):
                    # counter clockwise angle from a to b, whole turns ignored
                    want = math.degrees(math.atan2(b[1], b[0]) - math.atan2(a[1], a[0])) % 360
                    cc = va.angle_between_cc(vb)
                    cw = va.angle_between(vb)
                    expect(min(abs(cc - want) % 360, 360 - abs(cc - want) % 360) < 1e-9, f"angle {a} to {b}", want, cc)
                    expect(min((cc + cw) % 360, 360 - (cc + cw) % 360) < 1e-9, f"angles {a} to {b} complement", 360, (cc, cw))
                    expect(0 <= cc <= 360 and 0 <= cw <= 360, f"angle {a} to {b} in range", None, (cc, cw))
            n += 1
            states.add(repr((case, a, b)))
    elif kind == "box":
        ivals = [(-2.0, -1.0), (-1.0, 0.5), (0.0, 0.0), (0.5, 3.0)]
        boxes = [(a[0], b[0], a[1], b[1]) for a, b in itertools.product(ivals, repeat=2)]

        def mk(t):
            return Box(min_x=t[0], min_y=t[1], max_x=t[2], max_y=t[3])

        def tup(b):
            return (b.min_x, b.min_y, b.max_x, b.max_y)

        for s, t in itertools.product(boxes, repeat=2):
            a, b = mk(s), mk(t)
            want = (min(s[0], t[0]), min(s[1], t[1]), max(s[2], t[2]), max(s[3], t[3]))
            expect_eq(tup(a + b), want, f"{s}+{t}")
            c = mk(s)
            c += b
            expect_eq(tup(c), want, f"{s}+={t}")
            expect_eq(tup(Box() + a), s, f"empty + {s}")
            states.add(repr(want))
            n += 1
            for v in PTS:
                vec = Vector(x=v[0], y=v[1])
                expect_eq(tup(a + vec), (s[0] + v[0], s[1] + v[1], s[2] + v[0], s[3] + v[1]), f"{s}+{v}")
                expect_eq(tup(a - vec), (s[0] - v[0], s[1] - v[1], s[2] - v[0], s[3] - v[1]), f"{s}-{v}")
            expect_eq((a.width, a.height, a.center.xy), (s[2] - s[0], s[3] - s[1], ((s[0] + s[2]) / 2, (s[1] + s[3]) / 2)),
                      f"size of {s}")
        for k in (1, 2, 3):
            for ps in itertools.product(PTS, repeat=k):
                b = Box.from_vectors(*(Vector(x=p[0], y=p[1]) for p in ps))
                want = (min(p[0] for p in ps), min(p[1] for p in ps), max(p[0] for p in ps), max(p[1] for p in ps))
                expect_eq(tup(b), want, f"box of {ps}")
                n += 1
        for c, w, h in itertools.product(PTS, (0.5, 2.0), (1.0, 3.5)):
            expect_eq(tup(Box.from_center_width_height(c, w, h)), (c[0] - w / 2, c[1] - h / 2, c[0] + w / 2, c[1] + h / 2),
                      f"box at {c} of {w}x{h}")
            n += 1
    elif kind == "arcbox":
        a0 = case[1]
        for a1, cw, c, R in itertools.product(ANG, (True, False), ((0.0, 0.0), (3.0, -2.0)), (1.0, 2.5)):
            p0 = (c[0] + R * math.cos(math.radians(a0)), c[1] + R * math.sin(math.radians(a0)))
            p1 = (c[0] + R * math.cos(math.radians(a1)), c[1] + R * math.sin(math.radians(a1)))
            arc = Arc.from_tuples(p0, p1, c, clockwise=cw)
            sweep = (a0 - a1) % 360 if cw else (a1 - a0) % 360
            sweep = sweep or 360
            ts = np.radians(a0 + (-1 if cw else 1) * np.linspace(0, sweep, 361))
            xs, ys = c[0] + R * np.cos(ts), c[1] + R * np.sin(ts)
            b = arc.outer_box
            what = f"box of arc {a0}->{a1} {'cw' if cw else 'ccw'} at {c} radius {R}"
            tol = 1e-4 * R
            expect(b.min_x <= xs.min() + tol and b.max_x >= xs.max() - tol and b.min_y <= ys.min() + tol
                   and b.max_y >= ys.max() - tol, what, (xs.min(), ys.min(), xs.max(), ys.max()), b)
            lo = (min(xs.min(), c[0]), min(ys.min(), c[1]), max(xs.max(), c[0]), max(ys.max(), c[1]))
            # an end point a rounding error before an axis may count as past it
            if not (sweep == 360 or a1 % 90 == 0 or a0 % 90 == 0):
                expect(b.min_x >= lo[0] - tol and b.min_y >= lo[1] - tol and b.max_x <= lo[2] + tol and b.max_y <= lo[3] + tol,
                       what + " is too large", lo, b)
            expect(abs(arc.get_radius() - R) < 1e-9, f"radius: {what}")
            expect(close(arc.get_relative_start_point().xy, (p0[0] - c[0], p0[1] - c[1]), 1e-12), f"relative start: {what}")
            expect(close(arc.get_relative_end_point().xy, (p1[0] - c[0], p1[1] - c[1]), 1e-12), f"relative end: {what}")
            n += 1
            states.add(repr((a0, a1, cw, c, R)))
    elif kind == "shape":
        all_shapes = _S.setdefault("s", shapes())
        name, lst, prim = all_shapes[case[1]]
        trs = [None, *[(g,) for g in GEN], *[(GEN[1], GEN[2]), (GEN[11], GEN[4]), (GEN[4], GEN[11]), (GEN[5], GEN[6])]]
        for t in trs:
            if t is None:
                picture(lst, prim, name)
            else:
                m, r = chain(t)
                picture([s.transform(m) for s in lst], geom.transform(r, prim), f"{name} transformed by {t}")
            n += 2
            states.add(repr((name, t)))
    elif kind == "arc":
        every = _S.setdefault("a", list(arcs()))
        for name, shape, p, c, cw in every[case[1]:case[1] + 8]:
            prim = arc_sector(p, c, cw, 0.6)
            for t in (None, (GEN[1],), (GEN[11],), (GEN[2], GEN[12])):
                if t is None:
                    picture([shape], prim, name)
                else:
                    m, r = chain(t)
                    picture([shape.transform(m)], geom.transform(r, prim), f"{name} transformed by {t}")
                n += 2
                states.add(repr((name, t)))
    elif kind == "color":
        import colorsys

        from pygerber.vm.types import Color

        for r, g, b, a in itertools.product((0, 1, 15, 16, 127, 128, 255), repeat=4):
            c = Color.from_rgba(r, g, b, a)
            h = f"#{r:02x}{g:02x}{b:02x}{a:02x}"
            expect_eq(c.to_hex(), h, f"hex of {(r, g, b, a)}")
            for s in (h, h[1:], h.upper()):
                expect_eq(Color.from_hex(s).as_rgba_int(), (r, g, b, a), f"colour {s}")
            expect_eq(Color.from_hex(h[:7]).as_rgba_int(), (r, g, b, 255), f"colour {h[:7]}")
            expect_eq(c.as_rgb_int(), (r, g, b), "rgb")
            expect(close(c.as_rgba_float(), (r / 255, g / 255, b / 255, a / 255)), "float channels")
            n += 1
        for h, k, a in itertools.product(range(0, 360, 30), (-2, -1, 1, 2), (0, 128, 255)):
            expect_eq(Color.from_hsv(h + 360 * k, 70, 80, a), Color.from_hsv(h, 70, 80, a), f"hue {h + 360 * k}")
            expect_eq(Color.from_hsv(h, 70, 80, a).alpha, a, "opacity of hsv colour")
        for h, s, v in itertools.product(range(0, 360, 5), range(0, 101, 10), range(0, 101, 10)):
            c = Color.from_hsv(h, s, v)
            want = [x * 255 for x in colorsys.hsv_to_rgb(h / 360, s / 100, v / 100)]
            expect(all(abs(x - y) <= 0.5 + 1e-6 for x, y in zip(c.as_rgb_int(), want)), f"hsv {(h, s, v)}", want, c)
            n += 1
            states.add(repr(c.as_rgb_int()))
    return Obs(states=states, transitions=n, traces=n, outcome=repr(sorted(states))[:3000])


def bounds(tier):
    return (f"all products of up to 3 of {len(GEN)} generator matrices on points, lines, arcs and shapes; all arcs between "
            "multiples of 15 degrees in both directions; every shape factory x 22 transformations in both renderers, "
            "x polarities, attributes and 18 sizes and places; "
            "boxes and vectors over value grids; colour grids")
