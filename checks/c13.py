"""C13: Gerber builder: the code built by any history of calls denotes exactly the objects asked for."""

from __future__ import annotations

import itertools
import json

from mc import geom, gmodel, impl, render
from mc.core import Mismatch, Obs, expect, expect_eq

PROPERTY = "C13"
BATCH = 40
ASSUMPTIONS = ["points closer than 0.03 (vector) to an outline are not decided", "region creators are finished once"]

T = geom.transform
R = geom.rotate


def k1(_):
    return [(True, T(R(20), geom.circle(0.5, 0.2, 1.2))), (False, geom.circle(0.4, 0.4, 0.4)),
            (True, T(R(30), geom.rect(-0.6, 0.1, 1.0, 0.4)))]


def k2(_):
    return [(True, T(R(-40), geom.butt_line(-0.8, 0.0, 0.9, 0.3, 0.4))),
            (True, T(R(10), ("poly", [(0.0, 0.0), (1.2, 0.1), (0.9, 1.1), (0.2, 0.8)]))),
            (False, T(R(15), geom.regular(0.6, 0.4, 0.5, 5, 0)))]


def k3(_):
    t = [(True, geom.circle(0.3, 0.0, 1.8)), (False, geom.circle(0.3, 0.0, 0.9)),
         (False, geom.rect(0.3, 0.0, 3.0, 0.3)), (False, geom.rect(0.3, 0.0, 0.3, 3.0))]
    return [*[(d, T(R(25), p)) for d, p in t],
            (True, T(R(5), geom.regular(-0.9, 0.6, 0.8, 6, 0))),
            (False, T(R(50), geom.butt_line(-0.9, -0.4, -0.3, -0.7, 0.2))),
            (False, T(R(35), geom.rect(-0.1, 0.9, 0.5, 0.3))),
            (False, ("poly", [(-1.2, 0.6), (-0.9, 0.5), (-0.9, 0.9)])),
            (True, geom.circle(-1.0, -0.9, 0.5))]


MACROS = {"K1": k1, "K2": k2, "K3": k3}
PADS = {
    "C": ("C", [1.1]), "Ch": ("C", [1.5, 0.5]), "R": ("R", [1.6, 0.7]), "Rh": ("R", [0.9, 1.4, 0.35]),
    "O": ("O", [1.8, 0.8]), "Oh": ("O", [0.7, 1.6, 0.3]), "P": ("P", [1.7, 3, 10]), "Ph": ("P", [1.8, 5, -25, 0.6]),
    "K1": ("K1", []), "K2": ("K2", []), "K3": ("K3", []),
}


def make_pad(b, name):
    kind, p = PADS[name]
    n = b.new_pad()
    if kind == "C":
        return n.circle(*p)
    if kind == "R":
        return n.rectangle(*p)
    if kind == "O":
        return n.rounded_rectangle(*p)
    if kind == "P":
        return n.regular_polygon(*p)
    c = n.custom()
    if kind == "K1":
        c.add_circle(1.2, (0.5, 0.2), 20).cut_circle(0.4, (0.4, 0.4)).add_center_line(1.0, 0.4, (-0.6, 0.1), 30)
    elif kind == "K2":
        c.add_vector_line(0.4, (-0.8, 0.0), (0.9, 0.3), -40).add_outline(
            [(0.0, 0.0), (1.2, 0.1), (0.9, 1.1), (0.2, 0.8)], 10).cut_polygon(5, (0.6, 0.4), 0.5, 15)
    else:
        c.add_thermal((0.3, 0.0), 1.8, 0.9, 0.3, 25).add_polygon(6, (-0.9, 0.6), 0.8, 5)
        c.cut_vector_line(0.2, (-0.9, -0.4), (-0.3, -0.7), 50).cut_center_line(0.5, 0.3, (-0.1, 0.9), 35)
        c.cut_outline([(-1.2, 0.6), (-0.9, 0.5), (-0.9, 0.9)]).add_circle(0.5, (-1.0, -0.9))
    return c.create()


# symbols: flashes (pad, at, kwargs), traces and regions; "$t" last trace, "$p" last pad, "$0" first draw
SYMS = {
    "C": ["pad", "C", (0.0, 0.0), {}],
    "Rr": ["pad", "R", (2.0, 1.0), {"rotation": 30}],
    "Pm": ["pad", "P", (-2.0, 1.0), {"mirror_x": True, "scale": 1.5}],
    "K1": ["pad", "K1", (1.0, -2.0), {"mirror_y": True, "rotation": 90}],
    "K2": ["pad", "K2", (-1.5, -1.5), {"mirror_x": True, "mirror_y": True}],
    "K3": ["pad", "K3", (0.5, 1.5), {"scale": 0.75}],
    "Ot": ["pad", "O", "$t", {"rotation": -45}],
    "Ch": ["pad", "Ch", (0.25, 0.5), {}],
    "Ph": ["pad", "Ph", (1.25, 0.125), {"mirror_y": True}],
    "xC": ["cut", "C", (0.5, 0.25), {}],
    "xK1": ["cut", "K1", (0.25, 0.5), {"rotation": 180, "scale": 1.25}],
    "xRt": ["cut", "Rh", "$t", {"mirror_x": True}],
    "xO": ["cut", "Oh", (-1.0, 0.5), {"rotation": 60}],
    "l1": ["line", 0.4, (-3.0, -2.0), (1.0, 0.5)],
    "l2": ["line", 0.4, "$t", (2.0, 2.5)],
    "l3": ["line", 0.7, "$p", "$0"],
    "l4": ["line", 0.4, (0.0, 0.0), "$t"],
    "a1": ["cw", 0.4, (-1.0, 0.0), (1.0, 0.0), (0.0, 0.0)],
    "a2": ["ccw", 0.5, (1.0, 0.0), (-1.0, 2.0), (-1.0, 0.0)],
    "a3": ["ccw", 0.4, (2.0, 0.0), (2.0, 0.0), (1.0, 0.5)],
    "a4": ["cw", 0.4, "$p", None, None],
    "r1": ["reg", (0.0, 0.0), [("L", (2.0, 0.0)), ("L", (1.5, 1.5)), ("L", (0.0, 0.0))]],
    "r2": ["reg", (-1.0, -1.0), [("L", (1.0, -1.0)), ("ccw", (-1.0, 1.0), (-1.0, -1.0)), ("L", (-1.5, 0.0))]],
    "r3": ["reg", (0.5, 0.5), [("cw", (2.5, 0.5), (1.5, 0.5)), ("L", (2.0, -1.0)), ("L", (0.75, -0.75))]],
    "get": ["get"],
    "new": ["new"],
    "att": ["att", 0],
    "att3": ["att", 2],
    "att5": ["att", 4],
    "atd": ["atd"],
}
NEEDS_T, NEEDS_P = {"Ot", "xRt", "l2", "l4"}, {"l3", "a4"}
ATTR = [("fn", "ViaPad"), ("fne", "ComponentPad"), ("tol", 0.01, 0.02), ("tol", 0.0, 0.05), ("usr", "MyAttr", "a", "b"), ("usr", "Other")]
OBJ = [("N", "Net1"), ("C", "R1"), ("usr", "Mine")]


def valid(word):
    t = p = False
    for s in word:
        if (s in NEEDS_T and not t) or (s in NEEDS_P and not (p or (s == "l3" and False))):
            return False
        k = SYMS[s][0]
        t = t or k in ("line", "cw", "ccw")
        p = p or k in ("pad", "cut")
    return True


class Model:
    def __init__(self):
        self.defs, self.ops, self.ids = [], [], {}

    def ap(self, key, kind, params):
        if key not in self.ids:
            self.ids[key] = 100 + len(self.ids)
            self.defs.append(["AD", self.ids[key], kind, params])
        return ["D", self.ids[key]]

    def flash(self, name, at, dark, rotation=0.0, mirror_x=False, mirror_y=False, scale=1.0):
        mir = ("X" if mirror_x else "") + ("Y" if mirror_y else "") or "N"
        self.ops += [self.ap(name, *PADS[name]), ["LP", "D" if dark else "C"], ["LM", mir], ["LR", rotation],
                     ["LS", scale], ["D03", *at]]

    def plain(self):
        self.ops += [["LP", "D"], ["LM", "N"], ["LR", 0.0], ["LS", 1.0]]

    def trace(self, mode, width, begin, end, center=None):
        self.plain()
        self.ops += [self.ap(width, "C", [width]), ["D02", *begin], [mode]]
        if center:
            self.ops.append(["D01", *end, center[0] - begin[0], center[1] - begin[1]])
        else:
            self.ops.append(["D01", *end])

    def region(self, begin, segs):
        self.plain()
        self.ops += [["G36"], ["D02", *begin]]
        cur = begin
        for s in segs:
            if s[0] == "L":
                self.ops += [["G01"], ["D01", *s[1]]]
            else:
                self.ops += [["G02" if s[0] == "cw" else "G03"], ["D01", *s[1], s[2][0] - cur[0], s[2][1] - cur[1]]]
            cur = s[1]
        if cur != begin:
            self.ops += [["G01"], ["D01", *begin]]
        self.ops.append(["G37"])


def execute(word):
    """Drive the builder and the model through the same history."""
    from pygerber.builder.gerber import GerberX3Builder

    b, m = GerberX3Builder(), Model()
    pads = {}
    attrs = {}
    last_t = last_p = first = None  # (draw object, begin, end)
    codes = []
    n_att = 0
    draws = []  # (draw object, object attributes given to it)

    def pad(name):
        if name not in pads:
            pads[name] = make_pad(b, name)
        return pads[name]

    def ref(v, begin):
        if v == "$t":
            return last_t[0], (last_t[2] if begin else last_t[1])
        if v == "$p":
            return last_p[0], last_p[1]
        if v == "$0":
            return first[0], (first[2] if begin else first[1])
        return v, v

    for s in word:
        sym = SYMS[s] if isinstance(s, str) else s
        k = sym[0]
        if k in ("pad", "cut"):
            obj, at = ref(sym[2], True)
            d = (b.add_pad if k == "pad" else b.add_cutout_pad)(pad(sym[1]), obj, **sym[3])
            m.flash(sym[1], at, k == "pad", **sym[3])
            draws.append((d, {}))
            last_p = (d, at, at)
            first = first or last_p
        elif k in ("line", "cw", "ccw"):
            begin_obj, begin = ref(sym[2], True)
            if s == "a4":
                end_obj = end = (begin[0] + 1.5, begin[1] + 1.5)
                center = (begin[0] + 1.5, begin[1])
            else:
                end_obj, end = ref(sym[3], False)
                center = sym[4] if k != "line" else None
            if k == "line":
                if begin == end:
                    return None
                d = b.add_line_trace(sym[1], begin_obj, end_obj)
                m.trace("G01", sym[1], begin, end)
            elif k == "cw":
                d = b.add_clockwise_arc_trace(sym[1], begin_obj, end_obj, center)
                m.trace("G02", sym[1], begin, end, center)
            else:
                d = b.add_counter_clockwise_arc_trace(sym[1], begin_obj, end_obj, center)
                m.trace("G03", sym[1], begin, end, center)
            draws.append((d, {}))
            last_t = (d, begin, end)
            first = first or last_t
        elif k == "reg":
            c = b.new_region(sym[1])
            for seg in sym[2]:
                if seg[0] == "L":
                    c = c.add_line(seg[1])
                elif seg[0] == "cw":
                    c = c.add_clockwise_arc(seg[1], seg[2])
                else:
                    c = c.add_counterclockwise_arc(seg[1], seg[2])
            draws.append((c.create(), {}))
            m.region(sym[1], sym[2])
        elif k == "get":
            codes.append((b.get_code(), list(m.defs), list(m.ops)))
        elif k == "new":
            make_pad(b, "K1")
            make_pad(b, "Ph")
        elif k == "atd":
            if not draws:
                return None
            node, name, value = object_attribute(OBJ[len(draws[-1][1]) % len(OBJ)])
            draws[-1][0].attributes.append(node)
            draws[-1][1][name] = value
        elif k == "att":
            name = ["C", "K1", "R"][n_att % 3]
            p = pad(name)
            a = ATTR[(sym[1] + n_att) % len(ATTR)]
            n_att += 1
            cur = attrs.setdefault(str(p.aperture_id), {})
            if a[0] in ("fn", "fne"):
                from pygerber.gerber.ast.nodes.enums import AperFunction

                p.set_aperture_function(a[1] if a[0] == "fn" else AperFunction(a[1]))
                cur[".AperFunction"] = a[1]
            elif a[0] == "tol":
                p.set_drill_tolerance(a[1], a[2])
                cur[".DrillTolerance"] = a[1:]
            else:
                p.set_custom_attribute(a[1], *a[2:])
                cur[a[1]] = list(a[2:])
    codes.append((b.get_code(), list(m.defs), list(m.ops)))
    return codes, attrs, pads, [a for _, a in draws]


def object_attribute(a):
    from pygerber.gerber.ast.nodes import TO_C, TO_N, TO_UserName

    if a[0] == "N":
        return TO_N(net_names=[a[1]]), ".N", [a[1]]
    if a[0] == "C":
        return TO_C(refdes=a[1]), ".C", [a[1]]
    return TO_UserName(user_name=a[1], fields=["x", "y"]), a[1], ["x", "y"]


def object_value(node):
    k = type(node).__name__
    return list(node.net_names) if k == "TO_N" else [node.refdes] if k == "TO_C" else list(node.fields)


def _Objects():
    from pygerber.gerber.ast.state_tracking_visitor import StateTrackingVisitor

    class V(StateTrackingVisitor):
        """Object attributes in force at each object: one flash, one draw outside regions, one region."""

        def __init__(self):
            super().__init__()
            self.got = []
            self.inside = False

        def note(self):
            self.got.append({n: object_value(a) for n, a in self.state.attributes.object_attributes.items()})

        def on_d01(self, node):
            if not self.inside:
                self.note()
            return super().on_d01(node)

        def on_d03(self, node):
            self.note()
            return super().on_d03(node)

        def on_g36(self, node):
            self.inside = True
            return super().on_g36(node)

        def on_g37(self, node):
            self.note()
            self.inside = False
            return super().on_g37(node)

    return V()


def attr_value(node):
    k = type(node).__name__
    if k == "TA_AperFunction":
        return node.function.value
    if k == "TA_DrillTolerance":
        return (node.plus_tolerance, node.minus_tolerance)
    return list(node.fields)


def check_attrs(src, attrs, pads, objects):
    from pygerber.gerber.ast.state_tracking_visitor import StateTrackingVisitor

    v = StateTrackingVisitor()
    render.parser()(src).visit(v)
    got = {str(k): {n: attr_value(a) for n, a in d.items()} for k, d in v.state.apertures.per_aperture_attributes.items() if d}
    expect_eq(got, attrs, f"attributes of apertures in\n{src}")
    o = _Objects()
    tree = render.parser()(src)
    tree.visit(o)
    expect_eq(o.got, objects, f"object attributes in force at each object of\n{src}")
    kinds = [type(n).__name__ for n in tree.nodes]
    expect(kinds.count("M02") == 1 and kinds[-1] == "M02", f"code does not end with one M02\n{src}")
    for p in pads.values():
        expect(p.aperture_id in v.state.apertures.apertures, f"pad {p.aperture_id} is not defined in\n{src}")


def run_case(case):
    kind, word = case[0], case[1]
    if kind == "errors":
        return check_errors()
    if kind == "numbers":
        return check_numbers(word)
    if kind == "near":
        return check_near(word)
    if kind == "many":
        word = many(case[1], case[2])
    out = execute(word)
    if out is None:
        return Obs(states=[], transitions=0, traces=0)
    codes, attrs, pads, objects = out
    obs = None
    states = []
    n = 0
    for code, defs, ops in codes:
        src = code.dumps()
        try:
            obs = render.check_program(defs + ops, MACROS, src=src, pillow=False, count=500, box=False)
        except gmodel.Invalid:
            continue
        states += obs.states
        n += obs.traces
        expect(code.dumps() == src, "writing the code twice gives different text")
    src = codes[-1][0].dumps()
    check_attrs(src, attrs, pads, objects)
    if kind == "raw":
        # the tree handed out is the program written
        a, b = codes[-1][0].raw, render.parser()(src)
        expect_eq([type(x).__name__ for x in a.nodes], [type(x).__name__ for x in b.nodes], "commands of the tree")
        ra, rb = impl.compile_ast(a), impl.compile_ast(b)
        expect_eq(len(ra.commands), len(rb.commands), "commands compiled from tree and text")
    return Obs(states=[str(s) for s in states], transitions=len(word), traces=n,
               outcome=obs.outcome if obs else None, skipped=obs.skipped if obs else 0)


def check_errors():
    from pygerber.builder.gerber import GerberX3Builder, InvalidRegionOutlineError, NotAPadError

    n = 0
    for f in ("add_pad", "add_cutout_pad"):
        b = GerberX3Builder()
        for bad in (b.new_pad(), b.new_pad().custom(), None, "D10"):
            try:
                getattr(b, f)(bad, (0, 0))
            except NotAPadError:
                n += 1
                continue
            raise Mismatch(f"{f} accepted {bad!r}", "NotAPadError")
        expect("D03" not in b.get_code().dumps(), "refused pad was added")
    for k in range(3):
        b = GerberX3Builder()
        c = b.new_region((0, 0))
        for i in range(k):
            c.add_line((i + 1.0, i * 2.0))
        try:
            c.create()
        except InvalidRegionOutlineError:
            n += 1
        else:
            raise Mismatch(f"region of {k} segments accepted", "InvalidRegionOutlineError")
    line = [(0, 0), (1, 0), (1, 1)]
    uses = {
        "add_circle": (1.0, (0, 0)), "cut_circle": (1.0, (0, 0)), "add_vector_line": (0.2, (0, 0), (1, 1)),
        "cut_vector_line": (0.2, (0, 0), (1, 1)), "add_center_line": (1, 2, (0, 0)), "cut_center_line": (1, 2, (0, 0)),
        "add_outline": (line,), "cut_outline": (line,), "add_polygon": (5, (0, 0), 1.0), "cut_polygon": (5, (0, 0), 1.0),
        "add_thermal": ((0, 0), 2.0, 1.0, 0.2), "create": (),
    }
    for name, args in uses.items():
        b = GerberX3Builder()
        c = b.new_pad().custom()
        c.add_circle(1.0, (0, 0)).create()
        text = b.get_code().dumps()
        try:
            getattr(c, name)(*args)
        except RuntimeError:
            n += 1
        else:
            raise Mismatch(f"finished custom pad accepted {name}", "RuntimeError")
        expect_eq(b.get_code().dumps(), text, f"code after refused {name}")
    for name in ("add_outline", "cut_outline"):
        for k in range(3):
            c = GerberX3Builder().new_pad().custom()
            try:
                getattr(c, name)(line[:k])
            except AssertionError:
                n += 1
                continue
            raise Mismatch(f"{name} of {k} points accepted", "AssertionError")
    return Obs(states=["errors"], transitions=n, traces=n, outcome="errors")


VALUES = [0.0, 0.1 + 0.2, 1e-6, -1e-6, 2.5e-6, 1 / 3, -2 / 3, 9999.999999, -9999.999999, 1234.567891, 0.000001, 100, -7, 5.0000004]


def check_numbers(k):
    """Coordinates and sizes survive into the code."""
    from pygerber.builder.gerber import GerberX3Builder

    n = 0
    x = VALUES[k]
    for y in VALUES:
        b = GerberX3Builder()
        size = [0.1 + 0.2, 1e-6 * (k + 1), 1 / 3, 12345.678, 1e-4, 100, 7e-5][k % 7]
        b.add_pad(b.new_pad().rectangle(size, size * 2), (x, y), rotation=1 / 3, scale=0.1 + 0.2)
        ast = render.parser()(b.get_code().dumps())
        ad = next(a for a in ast.nodes if type(a).__name__ == "ADR")
        expect(abs(ad.width - size) <= 1e-9 * size and abs(ad.height - 2 * size) <= 2e-9 * size, "size of the pad",
               (size, size * 2), (ad.width, ad.height))
        lr = next(a for a in ast.nodes if type(a).__name__ == "LR")
        ls = next(a for a in ast.nodes if type(a).__name__ == "LS")
        expect(abs(lr.rotation - 1 / 3) < 1e-9 and abs(ls.scale - 0.3) < 1e-9, "rotation and scale", None, (lr, ls))
        v = _Flashes()
        ast.visit(v)
        expect_eq(len(v.got), 1, "flashes")
        gx, gy = v.got[0]
        expect(abs(gx - x) <= 5.1e-7 and abs(gy - y) <= 5.1e-7, "location of the pad", (x, y), (gx, gy))
        n += 1
    return Obs(states=[f"v{k}"], transitions=n, traces=n, outcome=("numbers", k))


NEAR = [0.1, 0.01, 0.001, 0.0001, 1e-5, 1e-6, -0.1, -0.001, -1e-6]


def check_near(k):
    """Values which differ by little are different values: widths, places, rotations and scales."""
    from pygerber.builder.gerber import GerberX3Builder

    n = 0
    for base in (0.4, 0.05, 1.0, 0.25, 2.5):
        for order in itertools.product((0, 1), repeat=3):
            d = NEAR[k] if NEAR[k] > 0 or base + NEAR[k] > 0 else -NEAR[k]
            b = GerberX3Builder()
            pad = b.new_pad().rectangle(1.0, 2.0)
            want = []
            place = 0.0
            for step, o in enumerate(order):
                v = base + d * o
                # trace joined to the last one, or a hair away from its end
                begin = (place + d * o * (step > 0), 1.0)
                end = (place + 1.0, 1.0 + d * o)
                how = (k + step) % 3
                if how == 0:
                    b.add_line_trace(v, begin, end)
                elif how == 1:
                    b.add_clockwise_arc_trace(v, begin, end, (place + 0.5, 1.0))
                else:
                    b.add_counter_clockwise_arc_trace(v, begin, end, (place + 0.5, 1.0))
                want.append(("trace", v, *begin, *end))
                place += 1.0
                b.add_pad(pad, (v, -v), rotation=v, scale=1.0 + v)
                want.append(("flash", v, -v, v, 1.0 + v))
                n += 1
            v = _Near()
            src = b.get_code().dumps()
            render.parser()(src).visit(v)
            expect_eq([g[0] for g in v.got], [w[0] for w in want], f"objects of\n{src}")
            for g, w in zip(v.got, want):
                expect(all(abs(x - y) <= 6e-7 for x, y in zip(g[1:], w[1:])), f"object in\n{src}", w, g)
    return Obs(states=[f"near{k}"], transitions=n, traces=n, outcome=("near", k))


def _Near():
    from pygerber.gerber.ast.state_tracking_visitor import StateTrackingVisitor

    class V(StateTrackingVisitor):
        def __init__(self):
            super().__init__()
            self.got = []

        def on_d01(self, node):
            x, y = self.coordinate_x, self.coordinate_y
            r = super().on_d01(node)
            ap = self.state.apertures.apertures[self.state.current_aperture_id]
            self.got.append(("trace", float(ap.diameter), float(x), float(y), float(self.coordinate_x), float(self.coordinate_y)))
            return r

        def on_d03(self, node):
            r = super().on_d03(node)
            t = self.state.transform
            self.got.append(("flash", float(self.coordinate_x), float(self.coordinate_y), float(t.rotation), float(t.scaling)))
            return r

    return V()


def _Flashes():
    from pygerber.gerber.ast.state_tracking_visitor import StateTrackingVisitor

    class V(StateTrackingVisitor):
        got = None

        def on_flash_rectangle(self, node, aperture):
            self.got = [*(self.got or []), (self.coordinate_x, self.coordinate_y)]

    return V()


def many(kind, n):
    """Histories with n calls of a kind, as symbols."""
    if kind == "pads":  # n different pads; more than ninety pass the code D99
        for k in range(n):
            PADS[f"g{k}"] = [("C", [0.3 + 0.01 * k]), ("R", [0.3 + 0.01 * k, 0.5]), ("O", [0.6, 0.3 + 0.01 * k])][k % 3]
        return [["pad", f"g{(k * 7) % n if n % 7 else k}", (2.0 * (k % 10), 2.0 * (k // 10)), {}] for k in range(n)]
    if kind == "widths":
        return [["line", round(0.1 + 0.01 * k, 3), (0.0, 2.0 * k), (3.0, 2.0 * k + 0.5)] for k in range(n)]
    if kind == "same":
        return [["line", 0.3, (1.0 * k, 0.0), (1.0 * k + 0.7, 1.0)] for k in range(n)]
    if kind == "joined":
        return [["line", 0.3, (0.0, 0.0), (1.0, 0.0)]] + [["line", 0.3, "$t", (1.0 + 0.5 * k, 0.4 * (k % 4) + 0.3)] for k in range(n)]
    if kind == "corners":
        import math

        pts = [(round((2 + k % 2) * math.cos(2 * math.pi * k / (n + 2)), 4), round((2 + k % 2) * math.sin(2 * math.pi * k / (n + 2)), 4))
               for k in range(n + 2)]
        return [["reg", pts[0], [("L", q) for q in pts[1:]] + [("L", pts[0])]], ["line", 0.4, (0.0, 0.0), (5.0, 0.0)]]
    if kind == "regions":
        return [["reg", (1.0 * k, 0.0), [("L", (1.0 * k + 0.7, 0.0)), ("L", (1.0 * k + 0.7, 0.6)), ("L", (1.0 * k, 0.3))]] for k in range(n)]
    if kind == "arcs":
        return [[("cw", "ccw")[k % 2], 0.2, (1.0 * k, 0.0), (1.0 * k + 1, 0.0), (1.0 * k + 0.5, 0.0)] for k in range(n)]
    if kind == "turned":
        return [[("pad", "cut")[k % 4 == 3], ("K1", "R", "Ph")[k % 3], (2.0 * (k % 6), 2.0 * (k // 6)),
                 {"rotation": 15.0 * k, "mirror_x": k % 2 == 1, "mirror_y": k % 5 == 2, "scale": 1.0 + (k % 3) * 0.25}] for k in range(n)]
    if kind == "vertices":
        PADS[f"v{n}"] = ("P", [2.0, max(3, n), 7])
        PADS[f"w{n}"] = ("P", [2.0, max(3, n), -400, 0.4])
        return [["pad", f"v{n}", (0.0, 0.0), {}], ["pad", f"w{n}", (3.0, 0.0), {"mirror_x": True}]]
    raise ValueError(kind)


MANY = {"pads": 120, "widths": 30, "same": 20, "joined": 20, "corners": 40, "regions": 20, "arcs": 20, "turned": 30, "vertices": 12}


def many_cases(tier):
    for kind, top in MANY.items():
        for n in [*range(1, min(top, 12)), *range(12, top + 1, 6 if tier == "quick" else 1)]:
            yield ["many", kind, n]


def cases(tier):
    yield from many_cases(tier)
    yield ["errors", None]
    for k in range(len(VALUES)):
        yield ["numbers", k]
    for k in range(len(NEAR)):
        yield ["near", k]
    names = list(SYMS)
    depth = 3 if tier == "quick" else 4
    for n in range(1, depth + 1):
        pool = names
        if n == 3 and tier == "quick":
            pool = ["C", "Rr", "Pm", "K1", "Ot", "xK1", "xC", "l1", "l2", "l3", "a1", "a2", "a4", "r1", "r2", "get", "att", "att5", "atd", "new"]
        if n == 4:
            pool = ["C", "Pm", "K1", "xK1", "l1", "l2", "a1", "a4", "r1", "r2", "get"]
        for word in itertools.product(pool, repeat=n):
            if valid(word):
                yield ["raw" if n <= 2 else "word", list(word)]


def bounds(tier):
    return (f"all histories of up to {2 if tier == 'quick' else 3} of {len(SYMS)} builder calls, "
            f"up to {3 if tier == 'quick' else 4} over a core of calls; {len(VALUES) ** 2} pairs of numbers; "
            f"{len(NEAR)} small differences of width, place, rotation and scale in 3 traces and pads; "
            f"up to {max(MANY.values())} pads, widths, traces, corners, regions, arcs and vertices")
