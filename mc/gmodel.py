"""Reference interpreter of Gerber programs given as abstract operation lists.

An operation is a JSON list; `text` writes the program as Gerber source and `interpret`
gives the picture the Gerber specification assigns to it, as objects of mc.geom.paint.
Written from the specification; shares no code with the implementation.
"""

from __future__ import annotations

import math

from mc import geom


def num(v):
    """Plain decimal, no exponent."""
    s = f"{v:.8f}".rstrip("0").rstrip(".")
    return "0" if s in ("-0", "") else s


def coord(v, dec=6):
    return str(int(round(v * 10**dec)))


def op_text(op, dec=6):
    k = op[0]
    if k == "AD":
        _, code, kind, params = op
        p = "X".join(num(v) for v in params)
        return f"%ADD{code}{kind}{',' + p if p else ''}*%"
    if k == "AM":
        return f"%AM{op[1]}*" + "".join(f"{line}*" for line in op[2]) + "%"
    if k == "D":
        return f"D{op[1]}*"
    if k in ("D01", "D02", "D03"):
        s = ""
        for axis, v in zip("XYIJ", op[1:]):
            if v is not None:
                s += f"{axis}{coord(v, dec)}"
        return f"{s}{k}*"
    if k in ("LP", "LM"):
        return f"%{k}{op[1]}*%"
    if k in ("LR", "LS"):
        return f"%{k}{num(op[1])}*%"
    if k == "AB":
        return f"%ABD{op[1]}*%"
    if k == "AB]":
        return "%AB*%"
    if k == "SR":
        return f"%SRX{op[1]}Y{op[2]}I{num(op[3])}J{num(op[4])}*%"
    if k == "SR]":
        return "%SR*%"
    if k == "RAW":
        return op[1]
    return f"{k}*"


def text(ops, unit="MM", dec=6, integ=4, end=True, sep="\n"):
    parts = [f"%FSLAX{integ}{dec}Y{integ}{dec}*%", f"%MO{unit}*%", "G75*"]
    parts += [op_text(o, dec) for o in ops]
    if end:
        parts.append("M02*")
    return sep.join(parts)


class Invalid(Exception):
    """The program has no meaning in the specification (not enumerated)."""


def aperture_layer(kind, p, macros):
    """[(dark, prim)] of aperture in its own coordinates."""
    hole = None
    if kind == "C":
        prim = geom.circle(0, 0, p[0])
        hole = p[1] if len(p) > 1 else None
    elif kind == "R":
        prim = geom.rect(0, 0, p[0], p[1])
        hole = p[2] if len(p) > 2 else None
    elif kind == "O":
        prim = geom.obround(0, 0, p[0], p[1])
        hole = p[2] if len(p) > 2 else None
    elif kind == "P":
        prim = geom.regular(0, 0, p[0], int(p[1]), p[2] if len(p) > 2 else 0)
        hole = p[3] if len(p) > 3 else None
    else:
        return macros[kind](p)
    layer = [(True, prim)]
    if hole:
        layer.append((False, geom.circle(0, 0, hole)))
    return layer


def simple(contour):
    import shapely as sh

    pts = []
    first = last = None
    for seg in contour:
        if seg[0] == "L":
            start, end = seg[1:3], seg[3:5]
            pts.append(start)
        else:
            _, cx, cy, R, a0, sw = seg
            n = max(2, int(abs(sw) / 5))
            arc = [(cx + R * math.cos(math.radians(a0 + sw * k / n)),
                    cy + R * math.sin(math.radians(a0 + sw * k / n))) for k in range(n + 1)]
            start, end = arc[0], arc[-1]
            pts.extend(arc[:-1])
        if last is not None and math.dist(last, start) > 1e-6:
            return False
        first = first or start
        last = end
    if math.dist(first, last) > 1e-6 or len(pts) < 3:
        return False
    poly = sh.Polygon(pts)
    return poly.is_valid and poly.area > 1e-3


MIRROR = {"N": (0, 0), "X": (1, 0), "Y": (0, 1), "XY": (1, 1)}


class Machine:
    def __init__(self, macros=None):
        self.macros = macros or {}
        self.ap = {}
        self.blocks = {}
        self.cur = None
        self.x = self.y = 0.0
        self.mode = "G01"
        self.pol = True
        self.mir, self.rot, self.scl = "N", 0.0, 1.0
        self.region = False
        self.contour = []
        self.out = [[]]  # stack of object lists
        self.frames = []
        self.stopped = False

    def state(self):
        return (self.cur, self.x, self.y, self.mode, self.pol, self.mir, self.rot, self.scl,
                self.region, len(self.contour), tuple(f[0] for f in self.frames), self.stopped)

    def emit(self, layer, dark=None):
        self.out[-1].append((self.pol if dark is None else dark, layer))

    def flush(self):
        if self.contour:
            if not simple(self.contour):
                raise Invalid  # the specification requires closed, non self-intersecting contours
            self.emit([(True, ("contour", self.contour))])
        self.contour = []

    def matrix(self):
        m = geom.compose(geom.mirror(*MIRROR[self.mir]), geom.scale(self.scl))
        return geom.compose(geom.rotate(self.rot), m)

    def step(self, op):
        if self.stopped:
            return
        k = op[0]
        if k == "AD":
            self.ap[op[1]] = aperture_layer(op[2], op[3], self.macros), op[2], op[3]
            self.blocks.pop(op[1], None)
        elif k == "AM" or k in ("G04", "RAW", "G75"):
            pass
        elif k == "D":
            if op[1] not in self.ap and op[1] not in self.blocks:
                raise Invalid
            self.cur = op[1]
        elif k in ("G01", "G02", "G03"):
            self.mode = k
        elif k == "LP":
            self.pol = op[1] == "D"
        elif k == "LM":
            self.mir = op[1]
        elif k == "LR":
            self.rot = op[1]
        elif k == "LS":
            self.scl = op[1]
        elif k == "G36":
            if self.region:
                raise Invalid
            self.region = True
            self.contour = []
        elif k == "G37":
            if not self.region:
                raise Invalid
            self.flush()
            self.region = False
        elif k == "D02":
            x, y = self.target(op)
            if self.region:
                self.flush()
            self.x, self.y = x, y
        elif k == "D01":
            x, y = self.target(op)
            i = op[3] if len(op) > 3 and op[3] is not None else 0.0
            j = op[4] if len(op) > 4 and op[4] is not None else 0.0
            self.draw(x, y, i, j)
            self.x, self.y = x, y
        elif k == "D03":
            if self.region or self.cur is None:
                raise Invalid
            x, y = self.target(op)
            m = geom.compose(geom.translate(x, y), self.matrix())
            if self.cur in self.blocks:
                for dark, layer in self.blocks[self.cur]:
                    self.emit([(d, geom.transform(m, p)) for d, p in layer], dark == self.pol)
            else:
                layer = self.ap[self.cur][0]
                self.emit([(d, geom.transform(m, p)) for d, p in layer])
            self.x, self.y = x, y
        elif k == "AB":
            if self.region:
                raise Invalid
            self.frames.append(("AB", op[1]))
            self.out.append([])
        elif k == "AB]":
            if self.region or not self.frames or self.frames[-1][0] != "AB":
                raise Invalid
            _, code = self.frames.pop()
            self.blocks[code] = self.out.pop()
            self.ap.pop(code, None)
        elif k == "SR":
            if self.region or self.frames:
                raise Invalid
            self.frames.append(("SR", *op[1:]))
            self.out.append([])
        elif k == "SR]":
            if self.region or not self.frames or self.frames[-1][0] != "SR":
                raise Invalid
            _, nx, ny, dx, dy = self.frames.pop()
            objs = self.out.pop()
            for a in range(nx):
                for b in range(ny):
                    m = geom.translate(a * dx, b * dy)
                    for dark, layer in objs:
                        self.emit([(d, geom.transform(m, p)) for d, p in layer], dark)
        elif k in ("M02", "M00"):
            if self.frames or self.region:
                raise Invalid
            self.stopped = True
        else:
            raise ValueError(op)

    def target(self, op):
        x = op[1] if len(op) > 1 and op[1] is not None else self.x
        y = op[2] if len(op) > 2 and op[2] is not None else self.y
        return x, y

    def draw(self, x, y, i, j):
        c = (self.x + i, self.y + j)
        if self.region:
            if self.mode == "G01":
                self.contour.append(("L", self.x, self.y, x, y))
            else:
                self.check_arc(x, y, c)
                R, a0, sweep = geom.arc_params((self.x, self.y), (x, y), c, self.mode == "G02")
                self.contour.append(("A", *c, R, a0, sweep))
            return
        if self.cur is None or self.cur in self.blocks:
            raise Invalid
        _, kind, p = self.ap[self.cur]
        if kind != "C":
            raise Invalid  # strokes are specified for circular apertures only
        w = p[0] * self.scl
        if self.mode == "G01":
            self.emit([(True, ("capsule", self.x, self.y, x, y, w / 2))])
        else:
            self.check_arc(x, y, c)
            R = math.hypot(i, j)
            if R <= w / 2:
                raise Invalid
            self.emit([(True, geom.arc_stroke((self.x, self.y), (x, y), c, self.mode == "G02", w))])

    def check_arc(self, x, y, c):
        r0 = math.hypot(self.x - c[0], self.y - c[1])
        r1 = math.hypot(x - c[0], y - c[1])
        if r0 < 1e-6 or abs(r0 - r1) > 1e-5:
            raise Invalid


def interpret(ops, macros=None):
    """(objects, states visited). Raises Invalid for meaningless programs."""
    m = Machine(macros)
    states = [m.state()]
    for op in ops:
        m.step(op)
        states.append(m.state())
    if m.frames or m.region:
        raise Invalid
    return m.out[0], states
