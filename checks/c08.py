"""C08: block apertures and step and repeat replicate exactly their content."""

from __future__ import annotations

import itertools

from mc import gmodel, render
from checks.c07 import MACROS, FLAG_TEXT

PROPERTY = "C08"
BATCH = 40
ASSUMPTIONS = [
    "step and repeat is not nested in another block (the format forbids it)",
    "points closer than 0.03 (vector) / 0.13 (raster) to an outline are not decided",
]
DEFS = [
    ["AD", 10, "C", [0.5]], ["AD", 11, "R", [1.0, 0.5]], FLAG_TEXT, ["AD", 12, "FLAG", [0.8]],
    ["AD", 19, "R", [14.0, 3.0]],
]
PLATE = [["D", 19], ["D03", 3.0, 0.5]]
# content pieces of a block; each leaves graphics state as it likes
PIECE = {
    "f": [["D", 10], ["D03", 0.0, 0.0]],
    "r": [["D", 11], ["D03", 0.9, 0.3]],
    "m": [["D", 12], ["D03", -0.9, 0.2]],
    "l": [["D", 10], ["D02", -0.5, 0.9], ["D01", 0.8, 0.9]],
    "a": [["D", 10], ["D02", 1.4, 0.0], ["G03"], ["D01", 0.0, 1.4, -1.4, 0.0], ["G01"]],
    "g": [["G36"], ["D02", -0.4, -0.9], ["D01", 0.6, -0.9], ["D01", 0.6, -0.4], ["D01", -0.4, -0.9], ["G37"]],
    "c": [["LP", "C"], ["D", 10], ["D03", 0.9, 0.3], ["LP", "D"]],
    "C": [["LP", "C"], ["D", 11], ["D03", 0.1, 0.1]],  # leaves clear polarity behind
    "t": [["LR", 90], ["D", 11], ["D03", 0.0, 0.5], ["LR", 0]],
    "T": [["LM", "X"], ["LS", 1.5], ["D", 12], ["D03", 0.0, 0.0]],  # leaves transforms behind
}
RESET = [["LP", "D"], ["LM", "N"], ["LR", 0], ["LS", 1], ["G01"]]


def block(code, pieces):
    ops = [["AB", code]]
    for p in pieces:
        ops += PIECE[p]
    return [*ops, ["AB]"]]


def seqs(n):
    for k in range(1, n + 1):
        yield from itertools.product(PIECE, repeat=k)


TRANSFORMS = [[], [["LM", "X"]], [["LR", 90]], [["LS", 0.5]], [["LM", "Y"], ["LR", 30], ["LS", 1.5]], [["LP", "C"]],
              [["LP", "C"], ["LM", "X"]]]
SRS = [(1, 1, 0, 0), (2, 1, 3.0, 0), (1, 2, 0, 2.5), (3, 2, 3.2, 2.6), (2, 3, 1.0, 0.5), (4, 1, 0.7, 0.0)]


def grid_cases(tier):
    """Grids of every size; many objects; deep nesting; many blocks."""
    top = 12 if tier == "quick" else 25
    for a in range(1, top + 1):
        for b in (1, 2, top, 13 - a) if a < 13 else (1, 2):
            if b >= 1:
                yield ["GRID", "fc"[a % 2] + "r", [a, b, 0.9, 0.7]]
    for dx, dy in itertools.product((0.0, 0.25, 1.0, 2.54, 0.001), repeat=2):
        for nx, ny in ((1, 1), (2, 2), (3, 1), (1, 3)):
            yield ["GRID", "rc", [nx, ny, dx, dy]]
    for depth in range(1, 8 if tier == "quick" else 12):
        for t in range(len(TRANSFORMS)):
            for piece in "rmCa":
                yield ["DEEP", piece, depth, t]
    for n in range(1, 25 if tier == "quick" else 81):
        yield ["BIG", "", n]
        yield ["BLOCKS", "", n]
        yield ["REUSE", "", n]


def cases(tier):
    yield from grid_cases(tier)
    n = 2 if tier == "quick" else 3
    for s in seqs(n):
        s = "".join(s)
        for t in range(len(TRANSFORMS)):
            yield ["AB", s, t]
        for k in range(len(SRS)):
            yield ["SR", s, k]
    for s in seqs(1 if tier == "quick" else 2):
        s = "".join(s)
        for p in seqs(1):
            for t, u in itertools.product(range(len(TRANSFORMS)), repeat=2):
                yield ["ABAB", s, p[0], t, u]  # block defined and flashed inside a block
        for t in range(len(TRANSFORMS)):
            for k in range(len(SRS)):
                yield ["SRAB", s, t, k]  # step and repeat of block flashes
                yield ["SRdefAB", s, t, k]  # block defined inside step and repeat
    for a, b in itertools.product(SRS[1:], repeat=2):
        for s in ("f", "C", "T", "gc"):
            yield ["SRSR", s, list(a), list(b)]  # two statements in a row
    for s in seqs(2):
        yield ["AFTER", "".join(s)]  # state left behind by blocks flows on as specified
    for s in PIECE:
        for t, u in itertools.product(range(len(TRANSFORMS)), repeat=2):
            yield ["TWICE", s, t, u]


def build(case):
    kind, s = case[0], case[1]
    if kind == "AB":
        return [*DEFS, *block(40, s), *RESET, *PLATE, *TRANSFORMS[case[2]], ["D", 40], ["D03", 3.0, 0.5],
                *RESET, ["D", 10], ["D03", 3.0, -3.0]]
    if kind == "GRID":
        return [*DEFS, *PLATE, ["SR", *case[2]], *[o for p in s for o in PIECE[p]], ["SR]"], *RESET, ["D", 10], ["D03", 1.0, -3.0]]
    if kind == "DEEP":  # every level flashes the one below, moved and transformed
        ops = [*DEFS, *block(40, s), *RESET]
        for k in range(case[2]):
            ops += [["AB", 41 + k], ["D", 10], ["D03", round(0.3 * k, 6), 1.0], *TRANSFORMS[case[3]], ["D", 40 + k],
                    ["D03", 0.4, 0.2], *RESET, ["AB]"]]
        return [*ops, *PLATE, ["D", 40 + case[2]], ["D03", 2.0, 0.5], *RESET, ["D", 11], ["D03", 5.0, -4.0]]
    if kind == "BIG":  # one block of many objects
        ops = [*DEFS, ["AB", 40]]
        for k in range(case[2]):
            ops += [["LP", "DC"[k % 2]], ["D", 10 + k % 3], ["D03", round(0.35 * (k % 9), 6), round(0.4 * (k // 9), 6)]]
        return [*ops, ["AB]"], *RESET, *PLATE, ["LR", 90], ["D", 40], ["D03", 3.0, 0.0], ["LP", "C"], ["LR", 0],
                ["D03", -2.0, 0.0]]
    if kind == "BLOCKS":
        ops = [*DEFS]
        for k in range(case[2]):
            ops += [["AB", 40 + k], ["D", 10], ["D03", 0.0, 0.0], ["D", 11], ["D03", round(0.05 * k, 6), 0.4], ["AB]"]]
        for k in range(case[2]):
            ops += [["D", 40 + (k * 5) % case[2]], ["D03", round(1.4 * (k % 8), 6), round(1.2 * (k // 8), 6)]]
        return ops
    if kind == "REUSE":  # one block many times, transformation kept and changed
        ops = [*DEFS, *block(40, "m"), *RESET, ["D", 40]]
        for k in range(case[2]):
            if k % 3 == 1:
                ops += [["LR", 30 * k % 360]]
            if k % 4 == 2:
                ops += [["LM", "NXY"[k % 3]]]
            ops += [["D03", round(2.5 * (k % 6), 6), round(2.5 * (k // 6), 6)]]
        return ops
    if kind == "TWICE":
        return [*DEFS, *block(40, s), *RESET, *PLATE, *TRANSFORMS[case[2]], ["D", 40], ["D03", -1.5, 0.5],
                *RESET, *TRANSFORMS[case[3]], ["D03", 4.5, 0.5]]
    if kind == "SR":
        return [*DEFS, *PLATE, ["SR", *SRS[case[2]]], *[o for p in s for o in PIECE[p]], ["SR]"],
                *RESET, ["D", 10], ["D03", 1.0, -3.0]]
    if kind == "ABAB":
        inner = [["AB", 41], *PIECE[case[2]], ["AB]"]]
        return [*DEFS, ["AB", 40], *inner, *RESET, *[o for p in s for o in PIECE[p]], *RESET,
                *TRANSFORMS[case[3]], ["D", 41], ["D03", 1.5, 1.0], ["AB]"], *RESET, *PLATE,
                *TRANSFORMS[case[4]], ["D", 40], ["D03", 3.0, 0.5], *RESET, ["D", 41], ["D03", -2.5, -3.0]]
    if kind == "SRAB":
        return [*DEFS, *block(40, s), *RESET, *PLATE, ["SR", *SRS[case[3]]], *TRANSFORMS[case[2]],
                ["D", 40], ["D03", 0.5, 0.5], ["SR]"], *RESET, ["D", 10], ["D03", 1.0, -3.0]]
    if kind == "SRdefAB":
        return [*DEFS, *PLATE, ["SR", *SRS[case[3]]], *block(40, s), *RESET, *TRANSFORMS[case[2]],
                ["D", 40], ["D03", 0.5, 0.5], ["SR]"], *RESET, ["D", 40], ["D03", 1.0, -3.0]]
    if kind == "SRSR":
        body = [o for p in s for o in PIECE[p]]
        return [*DEFS, *PLATE, ["SR", *case[2]], *body, ["SR]"], ["SR", *case[3]], *RESET,
                ["D", 10], ["D03", -2.0, -3.0], *body, ["SR]"]]
    if kind == "AFTER":
        return [*DEFS, *PLATE, *block(40, s), ["D", 10], ["D03", 3.0, 0.5], ["SR", 2, 1, 1.5, 0.0],
                *[o for p in s[::-1] for o in PIECE[p]], ["SR]"], ["D", 12], ["D03", 5.0, 0.5]]
    raise ValueError(kind)


def run_case(case):
    ops = build(case)
    if case[0] in ("GRID", "DEEP", "BIG", "BLOCKS", "REUSE"):
        return render.check_program(ops, MACROS, pillow=case[0] != "DEEP", count=3500)
    return render.check_program(ops, MACROS, pillow=case[0] in ("AB", "SR", "AFTER") and len(case[1]) <= 1,
                                count=1500)


def bounds(tier):
    n = 2 if tier == "quick" else 3
    return (f"all block contents of up to {n} of {len(PIECE)} pieces x {len(TRANSFORMS)} flash transformations / "
            f"{len(SRS)} repeat grids; nested blocks, blocks in repeats, consecutive repeats; "
            "grids of up to 12 x 12 copies, 25 steps, nesting up to 7 (11) deep, up to 24 (80) objects, blocks and flashes")
