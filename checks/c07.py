"""C07: aperture transformations (LM, LR, LS, LP) act on every kind of aperture as specified."""

from __future__ import annotations

import itertools

from mc import geom, gmodel, render

PROPERTY = "C07"
BATCH = 60
ASSUMPTIONS = [
    "points closer than 0.03 (vector) / 0.13 (raster) to an outline are not decided",
    "aperture sizes between 0.3 and 4 units",
]


def macro_flag(p):
    """Asymmetric macro: L shape with hole and a rotated bar."""
    w = p[0]
    return [
        (True, geom.rect(0.5 * w, 0.25, w, 0.5)),
        (True, geom.transform(geom.rotate(30), geom.rect(0.2, 0.9, 0.4, 1.4))),
        (False, geom.circle(0.6 * w, 0.25, 0.3)),
    ]


def macro_thermal(p):
    ring = [(True, geom.circle(1.0, 0.0, 2.0)), (False, geom.circle(1.0, 0.0, 1.0)),
            (False, geom.rect(1.0, 0.0, 3.0, 0.3)), (False, geom.rect(1.0, 0.0, 0.3, 3.0))]
    return [*ring, (True, geom.rect(-0.8, 0.5, 0.6, 0.4))]


MACROS = {"FLAG": macro_flag, "THRM": macro_thermal}
FLAG_TEXT = ["AM", "FLAG", ["21,1,$1,0.5,$1/2,0.25,0", "21,1,0.4,1.4,0.2,0.9,30", "1,0,0.3,$1x0.6,0.25,0"]]
THRM_TEXT = ["AM", "THRM", ["7,1,0,2,1,0.3,0", "21,1,0.6,0.4,-0.8,0.5,0"]]

KINDS = {
    "C": [["AD", 20, "C", [1.2]]],
    "Ch": [["AD", 20, "C", [1.6, 0.7]]],
    "R": [["AD", 20, "R", [2.0, 0.8]]],
    "Rh": [["AD", 20, "R", [1.2, 1.8, 0.6]]],
    "Ow": [["AD", 20, "O", [2.4, 1.0]]],
    "Oh": [["AD", 20, "O", [0.9, 2.2, 0.4]]],
    "P3": [["AD", 20, "P", [2.2, 3]]],
    "P3r": [["AD", 20, "P", [2.2, 3, 100]]],
    "P4r": [["AD", 20, "P", [2.4, 4, -75, 0.5]]],
    "P5": [["AD", 20, "P", [2.2, 5, 200]]],
    "P7h": [["AD", 20, "P", [2.4, 7, 10, 0.8]]],
    "P12": [["AD", 20, "P", [2.4, 12, 350]]],
    "FLAG": [FLAG_TEXT, ["AD", 20, "FLAG", [1.4]]],
    "THRM": [THRM_TEXT, ["AD", 20, "THRM", []]],
    "AB": [
        ["AD", 21, "R", [1.6, 0.6]], ["AD", 22, "C", [0.5]], FLAG_TEXT, ["AD", 23, "FLAG", [1.0]],
        ["AB", 20], ["D", 21], ["D03", 0.8, 0.3], ["D", 22], ["D02", 0.0, 0.0], ["G01"],
        ["D01", 0.0, 1.6], ["LP", "C"], ["D03", 1.2, 0.3], ["LP", "D"], ["D", 23], ["D03", -1.5, 0.4],
        ["AB]"],
    ],
    "ABarc": [
        ["AD", 22, "C", [0.4]],
        ["AB", 20], ["D", 22], ["D02", 1.0, 0.0], ["G03"], ["D01", 0.0, 1.0, -1.0, 0.0], ["G01"],
        ["G36"], ["D02", -1.0, 0.0], ["D01", -0.2, 0.0], ["G02"], ["D01", -1.0, -0.8, 0.0, -0.8], ["G01"],
        ["D01", -1.0, 0.0], ["G37"], ["AB]"],
    ],
}
MIR = ["N", "X", "Y", "XY"]
ROT = [0, 30, 90, 135, 180, 270, -45]
SCL = [1, 0.5, 1.5]
TR = list(itertools.product(MIR, ROT, SCL))


def setters(t, order):
    m, r, s = t
    ops = {"M": ["LM", m], "R": ["LR", r], "S": ["LS", s]}
    return [ops[k] for k in order]


def cases(tier):
    for kind, (which, delta, size), base, mir in itertools.product("RMB", NEAR, (0.0, 37.0, 90.0, 180.0), ("", "X", "XY")):
        yield ["near", kind, which, delta, size, base, mir]
    # every kind under every transformation, dark and as clear cut-out
    for kind in KINDS:
        for t in TR:
            for pol in "DC":
                yield [kind, pol, [[list(t), "MRS"]]]
    # the order in which transformations are set is irrelevant
    for kind in ("FLAG", "AB", "P3r"):
        for t in itertools.product(MIR[1:3], (30, 90), (0.5,)):
            for order in itertools.permutations("MRS"):
                yield [kind, "D", [[list(t), "".join(order)]]]
    # histories: flashes of one aperture under two different transformations do not interfere
    pool = [t for t in TR if t[1] in (0, 30, 90, 180) and t[2] in (1, 0.5)] if tier == "quick" else TR
    for kind in ("FLAG", "AB", "Rh", "THRM") if tier == "quick" else KINDS:
        for t, u in itertools.product(pool, repeat=2):
            yield [kind, "D", [[list(t), "MRS"], [list(u), "SRM"]]]
    # every angle and scale
    for kind in ("R", "P3", "FLAG", "AB") if tier == "quick" else KINDS:
        for r in [*range(0, 360, 15), 1, 0.5, 7.3, 45.5, 89, 91, 359, 359.5, 360, 361, 405, 450, 720, -15, -90, -180, -359, -360, -450]:
            for m in MIR:
                yield [kind, "D", [[[m, r, 1], "MRS"]]]
        for sc in (0.2, 0.25, 0.75, 0.9, 1.1, 1.25, 2, 2.54, 3, 3.5):
            for m, r in (("N", 0), ("X", 0), ("N", 90), ("Y", 200)):
                yield [kind, "D", [[[m, r, sc], "SRM"]]]
    # modal: any sequence of settings, flashes of different apertures and strokes
    d = 4 if tier == "quick" else 5
    for seq in itertools.product(MODAL, repeat=d):
        if seq[-1] in "abcl" and any(c not in "abcl" for c in seq):
            yield ["modal", "".join(seq)]
    # redefinition of polarity between flashes
    for kind in KINDS:
        for t, u in itertools.product([("N", 0, 1), ("X", 90, 0.5), ("Y", 30, 1.5)], repeat=2):
            yield [kind, "DC", [[list(t), "MRS"], [list(u), "RSM"]]]


MODAL = {"X": ["LM", "X"], "N": ["LM", "N"], "R": ["LR", 90], "r": ["LR", 0], "S": ["LS", 0.5], "s": ["LS", 1],
         "a": ["D", 21], "b": ["D", 23], "c": ["D", 24], "l": ["D", 22]}
MODAL_DEFS = [["AD", 21, "R", [1.6, 0.6]], ["AD", 22, "C", [0.5]], FLAG_TEXT, ["AD", 23, "FLAG", [1.0]],
              ["AB", 24], ["D", 21], ["D03", 0.8, 0.3], ["D", 22], ["D03", -0.6, 0.0], ["AB]"]]


def modal(seq):
    ops = [*MODAL_DEFS, ["D02", -3.0, 0.0]]
    for k, c in enumerate(seq):
        ops.append(MODAL[c])
        if c in "abc":
            ops.append(["D03", 4.0 * k, 0.5])
        elif c == "l":
            ops.append(["D01", 4.0 * k, 3.0])
    return ops


NEAR = [("R", 1.0, 20), ("R", 0.1, 200), ("R", 0.01, 2000), ("R", 0.001, 20000),
        ("S", 0.01, 20), ("S", 0.001, 200), ("S", 0.0001, 2000)]


def check_near(kind, which, delta, size, base, mir):
    """Two transformations that differ only a little give two different images."""
    import numpy as np

    from mc import impl, oracle
    from mc.core import Obs, expect

    w = 0.1
    defs = {
        "R": f"%ADD20R,{size}X{w}*%",
        "M": f"%AMBAR*21,1,{size},{w},0,0,0*%%ADD20BAR*%",
        "B": f"%ADD21R,{size}X{w}*%%ABD20*%D21*X0Y0D03*%AB*%",
    }[kind]
    ts = [(base, 1.0), (base + delta, 1.0) if which == "R" else (base, 1.0 + delta), (base, 1.0)]
    src = "%FSLAX66Y66*%%MOMM*%" + defs + "D20*"
    if mir:
        src += f"%LM{mir}*%"
    inside, outside = [], []
    for k, (rot, scl) in enumerate(ts):
        x0 = k * 3.0 * size
        src += f"%LR{rot:.4f}*%%LS{scl:.5f}*%X{round(x0 * 10**6)}Y0D03*"
        m = geom.compose(geom.translate(x0, 0.0), geom.compose(
            geom.rotate(rot), geom.compose(geom.mirror("X" in mir, "Y" in mir), geom.scale(scl))))
        half = size / 2 * scl
        for sx in (-1, 1):
            inside.append(geom.apply(m, (sx * (half - 0.03) / scl, 0.0)))
            outside.append(geom.apply(m, (sx * (half + 0.03) / scl, 0.0)))
            outside.extend(geom.apply(m, (sx * 0.49 * size, sy * 0.09)) for sy in (-1, 1))
    res = impl.run_shapely(impl.rvmc_of(src + "M02*"))
    got_in = oracle.shapely_contains(res, np.array(inside))
    got_out = oracle.shapely_contains(res, np.array(outside))
    expect(got_in.all(), "flash misses points of the transformed aperture", inside, f"{got_in} {src}")
    expect(not got_out.any(), "flash covers points outside of the transformed aperture", outside, f"{got_out} {src}")
    return Obs(states=[repr((kind, which, delta, base, mir))], transitions=3, traces=1, outcome=(kind, which, delta))


def run_case(case):
    if case[0] == "near":
        return check_near(*case[1:])
    if case[0] == "modal":
        return render.check_program(modal(case[1]), MACROS, pillow=False, count=700)
    kind, pol, flashes = case
    ops = [["AD", 30, "R", [9.0, 9.0]], *KINDS[kind]]
    if "C" in pol:
        ops += [["D", 30], ["D03", 0.0 if pol == "C" else 6.0, 0.0]]
    ops.append(["D", 20])
    for k, (t, order) in enumerate(flashes):
        ops += setters(tuple(t), order)
        ops.append(["LP", pol[k] if k < len(pol) else "D"])
        ops.append(["D03", 0.3 + 6.0 * k, -0.2])
    return render.check_program(ops, MACROS, pillow=len(flashes) == 1, count=1200)


def bounds(tier):
    return (f"{3 * len(NEAR) * 12} pairs of close transformations (differences down to 0.001 degree and 0.0001 of scale); "
            f"{len(KINDS)} aperture kinds x {len(TR)} transformations x 2 polarities; all orders of setting; "
            "all ordered pairs of transformations on one aperture for selected kinds; 43 angles, 10 scales; all sequences of "
            f"{4 if tier == 'quick' else 5} of 10 settings, flashes and strokes")
