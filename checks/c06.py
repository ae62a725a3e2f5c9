"""C06: the picture of any command sequence is the one the specification assigns to it."""

from __future__ import annotations

import itertools
import math

from mc import gmodel, render

PROPERTY = "C06"
BATCH = 60
ASSUMPTIONS = [
    "strokes use circular apertures; multi quadrant (G75) arcs; arc radius larger than half stroke width",
    "points closer than 0.03 (vector) / 0.13 (raster, 20 dpmm) to an outline are not decided",
]
PTS = {"a": (0.0, 0.0), "b": (3.0, 0.0), "c": (3.0, 3.0), "e": (0.0, 3.0)}
CENTER = (1.5, 1.5)
PREFIX = [
    ["AD", 10, "C", [0.8]],
    ["AD", 11, "C", [1.2, 0.5]],
    ["AD", 12, "R", [1.6, 0.8]],
    ["AD", 13, "R", [4.0, 7.0]],
    ["D", 13],
    ["D03", 4.0, 1.5],  # dark plate under the right half, so that clear objects show
    ["D", 10],
    ["D02", 0.0, 0.0],
]
ALPHABET = [
    "D02b", "D01a", "D01b", "D01c", "D01e", "D03a", "D03c", "D01x", "D01y",
    "G01", "G02", "G03", "LPC", "LPD", "D11", "D12", "G36", "G37", "G36D02a",
]
PAINT = {"D01a", "D01b", "D01c", "D01e", "D01x", "D01y", "D03a", "D03c", "G37"}


def concretize(symbols, prefix=PREFIX):
    """Resolve symbols against the model state (arc centres are relative to it)."""
    m = gmodel.Machine()
    ops = []

    def do(op):
        m.step(op)
        ops.append(op)

    for op in prefix:
        do(op)
    for s in symbols:
        if s[:3] in ("D01", "D02", "D03"):
            t = s[3]
            if t == "x":  # only X given
                tx, ty = 3.0 - m.x if m.mode == "G01" else m.x, None
            elif t == "y":
                tx, ty = None, 3.0 - m.y if m.mode == "G01" else m.y
            else:
                tx, ty = PTS[t]
            if s[:3] == "D01" and m.mode != "G01":
                do(["D01", tx, ty, CENTER[0] - m.x, CENTER[1] - m.y])
            else:
                do([s[:3], tx, ty])
        elif s.startswith("LP"):
            do(["LP", s[2]])
        elif s in ("D11", "D12"):
            do(["D", int(s[1:])])
        elif s == "G36D02a":
            do(["G36"])
            do(["D02", 0.0, 0.0])
        else:
            do([s])
    if m.region:
        do(["G37"])
    return ops


def well_formed(symbols):
    """Prune sequences the specification gives no meaning to, or which repeat others."""
    region = False
    drawn = 0
    for k, s in enumerate(symbols):
        if s.startswith("G36"):
            if region:
                return False
            region, drawn = True, 0
        elif s == "G37":
            if not region:
                return False
            region = False
        elif region and (s.startswith("D03") or s in ("D11", "D12", "LPC", "LPD")):
            return False
        if k and s in ("G01", "G02", "G03") and symbols[k - 1] in ("G01", "G02", "G03"):
            return False
        if k and s[:2] == "LP" and symbols[k - 1][:2] == "LP":
            return False
    return symbols[-1] in PAINT or region


def depth(tier):
    return 4 if tier == "quick" else 5


def cases(tier):
    for n in range(1, depth(tier) + 1):
        for symbols in itertools.product(ALPHABET, repeat=n):
            if not well_formed(symbols):
                continue
            if n >= 4 and not any(s[0] == "L" or s[:2] in ("G0", "G3") for s in symbols[:-1]):
                continue  # longer histories of plain operations add no new interaction
            try:
                concretize(symbols)
            except gmodel.Invalid:
                continue
            yield list(symbols)
    # regions: closed contours of lines and arcs, several contours, polarity
    segs = ["G01", "G02", "G03"]
    pts = ["a", "b", "c", "e"]
    for m1, m2, m3 in itertools.product(segs, repeat=3):
        for path in itertools.permutations(pts, 3):
            for pol in ("LPD", "LPC"):
                sym = [pol, "G36", "D02" + path[0], m1, "D01" + path[1], m2, "D01" + path[2],
                       m3, "D01" + path[0], "G37"]
                more = sym[:-1] + ["D02b", "G01", "D01c", "D01e", "D01b", "G37", "D03a"]
                for s in (sym, more):
                    try:
                        concretize(s)
                    except gmodel.Invalid:
                        continue
                    yield s
    for case in geo_cases(tier):
        try:
            gmodel.interpret(geo_program(case))
        except gmodel.Invalid:
            continue
        yield case


def polar(c, r, a):
    return round(c[0] + r * math.cos(math.radians(a)), 6), round(c[1] + r * math.sin(math.radians(a)), 6)


PLATES = [["AD", 10, "C", [0.4]], ["AD", 11, "C", [0.2]], ["AD", 13, "R", [30.0, 30.0]]]


def geo_cases(tier):
    """Arcs of every start, end, direction and size; lines of every direction; many objects of each kind."""
    step = 30 if tier == "quick" else 15
    angles = range(0, 360, step)
    for r, centre in ((1.0, (0.0, 0.0)), (2.7, (-4.0, 1.25))) if tier == "quick" else (
            (0.5, (0.0, 0.0)), (1.0, (0.0, 0.0)), (2.7, (-4.0, 1.25)), (9.0, (11.0, -20.0))):
        for a, b in itertools.product(angles, repeat=2):
            for mode in ("G02", "G03"):
                for kind in ("arc", "sector"):
                    yield [kind, r, list(centre), a, b, mode, "D" if (a + b) % 60 else "C"]
    for a, b in ((0, 1), (359, 1), (359.5, 0.5), (0, 359), (89.9, 90.1), (180.2, 179.8), (270.3, 270), (44, 46), (5, 355)):
        for mode in ("G02", "G03"):
            for kind in ("arc", "sector"):
                for r in (1.0, 2.7, 8.0):
                    yield [kind, r, [0.5, -3.0], a, b, mode, "D"]
    for r in (0.05, 0.6, 3.0, 12.0):
        for a in range(0, 360, 15):
            for pol in "DC":
                yield ["line", r, [1.0, -2.0], a, pol]
    for kind in MANY:
        for n in range(1, 41 if tier == "quick" else 121, 1 if tier == "quick" else 3):
            yield ["many", kind, n]


MANY = ["flashes", "alternating", "apertures", "contours", "corners", "chain", "scallops", "moves", "erased", "shared"]


def many(kind, n):
    ops = list(PLATES)
    if kind in ("flashes", "alternating"):
        ops += [["D", 13], ["D03", 0.0, 0.0], ["D", 10]]
        for k in range(n):
            ops += [["LP", "C" if kind == "flashes" or k % 2 == 0 else "D"],
                    ["D03", round(-6 + k * 0.3, 6), round(0.7 * (k % 5), 6)]]
    elif kind == "apertures":
        ops += [["AD", 20 + k, "CROP"[k % 3], [[0.3 + 0.01 * k], [0.3, 0.2 + 0.01 * k], [0.2 + 0.01 * k, 0.4]][k % 3]]
                for k in range(n)]
        for k in range(n):
            ops += [["D", 20 + k], ["D03", round((k % 10) * 1.0, 6), float(k // 10)]]
        ops += [["D", 20], ["D03", -2.0, -2.0]]
    elif kind == "contours":
        ops += [["D", 13], ["D03", 0.0, 0.0], ["LP", "C"], ["G36"]]
        for k in range(n):
            x, y = float(k % 8), float(k // 8)
            ops += [["D02", x, y], ["D01", x + 0.7, y], ["D01", x + 0.7, y + 0.6], ["D01", x, y]]
        ops += [["G37"]]
    elif kind == "corners":
        pts = [polar((0, 0), 3 if k % 2 else 2, 360 * k / (n + 2)) for k in range(n + 2)]
        ops += [["G36"], ["D02", *pts[-1]], *[["D01", *q] for q in pts], ["G37"]]
    elif kind == "chain":
        ops += [["D", 10], ["D02", 0.0, 0.0]]
        for k in range(n):
            ops += [["D01", round((k + 1) * 0.5, 6), round(((k * 7) % 5) * 0.4, 6)]]
    elif kind == "scallops":
        ops += [["D", 11], ["D02", 0.0, 0.0]]
        for k in range(n):
            ops += [["G02" if k % 3 else "G03"], ["D01", float(k + 1), 0.0, 0.5, 0.0]]
    elif kind == "moves":
        ops += [["D", 10]]
        for k in range(n):
            ops += [["D02", round(k * 0.3, 6), 1.0]]
        ops += [["D01", 1.0, 4.0]]
    elif kind == "erased":  # dark objects under one clear object
        ops += [["D", 10]]
        for k in range(n):
            ops += [["D03", round(0.3 * (k % 7), 6), round(0.3 * (k // 7), 6)]]
        ops += [["LP", "C"], ["D02", -1.0, 0.5], ["D01", 3.0, 0.5]]
    elif kind == "shared":  # the same aperture at many places, each copy erased in part
        ops += [["AD", 14, "R", [0.8, 0.8]]]
        for k in range(n):
            x = round(1.0 * (k % 10), 6)
            ops += [["LP", "D"], ["D", 14], ["D03", x, float(k // 10)], ["LP", "C"], ["D", 10],
                    ["D03", x, round(k // 10 + 0.2, 6)]]
    return ops


def geo_program(case):
    kind = case[0]
    if kind == "many":
        return many(case[1], case[2])
    if kind == "line":
        _, r, c, a, pol = case
        ops = [*PLATES, *([["D", 13], ["D03", *c], ["LP", "C"]] if pol == "C" else []), ["D", 10]]
        return [*ops, ["D02", *c], ["D01", *polar(c, r, a)], ["D02", *polar(c, 14, a + 90)], ["D01", *polar(c, 13.5, a + 90)]]
    _, r, c, a, b, mode, pol = case
    ops = [*PLATES, *([["D", 13], ["D03", *c], ["LP", "C"]] if pol == "C" else []), ["D", 10]]
    s, e = polar(c, r, a), polar(c, r, b)
    draw = ["D01", *e, round(c[0] - s[0], 6), round(c[1] - s[1], 6)]
    if kind == "arc":
        return [*ops, ["D02", *s], [mode], draw]
    if a == b:
        return [*ops, ["G36"], ["D02", *s], [mode], draw, ["G37"]]
    return [*ops, ["G36"], ["D02", *c], ["G01"], ["D01", *s], [mode], draw, ["G01"], ["D01", *c], ["G37"]]


def run_case(symbols):
    if symbols[0] in ("arc", "sector", "line", "many"):
        ops = geo_program(symbols)
        return render.check_program(ops, count=2500)
    ops = concretize(symbols)
    return render.check_program(ops, pillow=len(symbols) <= 3 or len(symbols) > 5)


def bounds(tier):
    return (f"all meaningful sequences of up to {depth(tier)} commands over {len(ALPHABET)} symbols after a "
            "fixed prefix; all 3-segment contours over 4 points x 3 interpolations x polarity; arcs and sectors between all multiples of "
            f"{30 if tier == 'quick' else 15} degrees, short and almost full arcs, lines in 24 directions; ten kinds of programs with "
            f"1 to {40 if tier == 'quick' else 120} objects")
