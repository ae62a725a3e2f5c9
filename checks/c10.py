"""C10: layer programs: every program of layers, shapes and copies gives the picture its meaning assigns."""

from __future__ import annotations

import itertools

import numpy as np

from mc import geom, impl, oracle
from mc.core import Mismatch, Obs, expect, expect_eq

PROPERTY = "C10"
BATCH = 40
ASSUMPTIONS = [
    "layers of explicit size contain what is drawn on them; main layer has its origin at zero",
    "points closer than 0.03 (vector) / 0.15 (raster) to an outline are not decided",
]
MAIN = "%main%"
BOX = (-6.0, -6.0, 9.0, 6.0)
ORIGINS = {"0": (0.0, 0.0), "1": (1.0, -0.5)}
SHAPES = {
    "r": (True, geom.rect(0.0, 0.0, 3.0, 2.0)),
    "c": (False, geom.circle(0.5, 0.25, 0.6 * 2)),
    "o": (True, geom.circle(1.5, 0.5, 0.5 * 2)),
    "x": (False, geom.rect(1.0, 0.0, 0.8, 4.0)),
}
PASTE = {"p": (2.0, 0.75, False), "n": (0.5, 0.25, True), "q": (-1.0, -0.5, False)}


def origin_of(o):
    return ORIGINS[o] if isinstance(o, str) else tuple(o)


def shape_of(k):
    """Named shape, or [dark, x, y, width, height]."""
    return SHAPES[k] if isinstance(k, str) else (bool(k[0]), geom.rect(*k[1:]))


def paste_of(k):
    return PASTE[k] if isinstance(k, str) else (k[0], k[1], bool(k[2]))


class Err(Exception):
    pass


def meaning(prog, strict):
    """Model: runs the program, returns (picture of main or None, error name or None, states)."""
    done = {}  # id -> (origin, content) or None when empty
    started = set()
    stack = []  # [id, box?, origin, content, pending copies]
    states = []
    for c in prog:
        k = c[0]
        if k == "S":
            _, lid, box, org = c
            if lid in started:
                return None, "LayerAlreadyExistsError", states
            started.add(lid)
            stack.append([lid, box, origin_of(org), []])
        elif k == "E":
            if not stack:
                return None, "NoLayerSetError", states
            lid, box, org, content = stack.pop()
            if not box:
                out = []
                for item in content:
                    if item[0] == "paste":
                        src = item[1]
                        if src in done:
                            if not item[5]:
                                raise Err  # copied before it was finished: no meaning assigned
                            if done[src] is not None:
                                out.append(item)
                        elif any(s[0] == src for s in stack) or src == lid:
                            if src == lid or not next(s for s in stack if s[0] == src)[1]:
                                return None, "PasteDeferredLayerNotAllowedError", states
                            raise Err  # copy of an unfinished sized layer: no meaning assigned
                        else:
                            return None, "LayerNotFoundError", states
                    else:
                        out.append(item)
                content = out
                if not content:
                    if strict:
                        return None, "EmptyAutoSizedLayerNotAllowedError", states
                    done[lid] = None
                    states.append(repr((sorted(done), len(stack))))
                    continue
            # resolve copies now
            done[lid] = (org, [("paste", done[i[1]], i[2], i[3], i[4]) if i[0] == "paste" else i for i in content])
        elif k == "D":
            if not stack:
                return None, "NoLayerSetError", states
            stack[-1][3].append(("shape", *shape_of(c[1])))
        elif k == "P":
            _, src, how = c
            x, y, neg = paste_of(how)
            if src in done and done[src] is None:
                pass  # copy of nothing, wherever it is
            elif not stack:
                return None, ("NoLayerSetError" if src in done else "LayerNotFoundError"
                              if src not in started else "unspecified"), states
            else:
                if stack[-1][1]:  # sized layers copy at once
                    if src not in done:
                        if src not in started:
                            return None, "LayerNotFoundError", states
                        s = next(s for s in stack if s[0] == src)
                        if not s[1]:
                            return None, "PasteDeferredLayerNotAllowedError", states
                        raise Err
                    stack[-1][3].append(("paste", src, x, y, neg, src in done))
                else:
                    stack[-1][3].append(("paste", src, x, y, neg, src in done))
        states.append(repr((sorted(done), [(s[0], s[1], len(s[3])) for s in stack])))
    if stack:
        raise Err
    if MAIN not in done or done[MAIN] is None:
        return None, ("NoMainLayerError" if strict else None), states
    return done[MAIN], None, states


def paint(content, P):
    inside = np.zeros(len(P), bool)
    margin = np.full(len(P), np.inf)
    for item in content:
        if item[0] == "shape":
            s = geom.sd(item[2], P)
            margin = np.minimum(margin, np.abs(s))
            inside = np.where(s < 0, item[1], inside)
        else:
            _, (org, sub), x, y, neg = item
            off = np.array([x - org[0], y - org[1]])
            cov, m = paint(sub, P - off)
            margin = np.minimum(margin, m)
            inside = np.where(cov, not neg, inside)
    return inside, margin


def extent(content):
    boxes = []
    for item in content:
        if item[0] == "shape":
            boxes.append(geom.extent([(True, [(True, item[2])])]))
        else:
            _, (org, sub), x, y, _ = item
            b = extent(sub)
            if b:
                dx, dy = x - org[0], y - org[1]
                boxes.append((b[0] + dx, b[1] + dy, b[2] + dx, b[3] + dy))
    if not boxes:
        return None
    return (min(b[0] for b in boxes), min(b[1] for b in boxes), max(b[2] for b in boxes), max(b[3] for b in boxes))


_CMD = {}


def command(c):
    key = repr(c)
    if key not in _CMD:
        from pygerber.vm.commands import EndLayer, PasteLayer, Shape, StartLayer
        from pygerber.vm.types import Box, LayerID, Vector

        if c[0] == "S":
            b = BOX if c[2] == 1 else c[2]
            box = Box(min_x=b[0], min_y=b[1], max_x=b[2], max_y=b[3]) if c[2] else None
            o = origin_of(c[3])
            _CMD[key] = StartLayer(id=LayerID(id=c[1]), box=box, origin=Vector(x=o[0], y=o[1]))
        elif c[0] == "E":
            _CMD[key] = EndLayer()
        elif c[0] == "P":
            x, y, neg = paste_of(c[2])
            _CMD[key] = PasteLayer.new(c[1], (x, y), is_negative=neg)
        else:
            dark, prim = shape_of(c[1])
            if prim[0] == "circle":
                _CMD[key] = Shape.new_circle((prim[1], prim[2]), prim[3] * 2, is_negative=not dark)
            else:
                xs = [p[0] for p in prim[1]]
                ys = [p[1] for p in prim[1]]
                _CMD[key] = Shape.new_rectangle(((min(xs) + max(xs)) / 2, (min(ys) + max(ys)) / 2), max(xs) - min(xs),
                                                max(ys) - min(ys), is_negative=not dark)
    return _CMD[key]


DPMM = 20


def execute(prog, strict):
    from pygerber.vm import RVMC

    try:
        want, err, states = meaning(prog, strict)
    except Err:
        return None
    if err == "unspecified":
        return None
    rvmc = RVMC(commands=[command(c) for c in prog])
    sigs = []
    for backend in ("shapely", "pillow"):
        kw = {"fail_on_empty_auto_sized_layer": True} if strict else {}
        run = impl.run_shapely if backend == "shapely" else impl.run_pillow
        try:
            res = run(rvmc, **kw)
        except Exception as e:  # noqa: BLE001 - kind of error is compared with the model
            if type(e).__name__ != err:
                raise Mismatch(f"{backend}: program raised {type(e).__name__}: {e}", err or "a picture", prog) from e
            sigs.append(err)
            continue
        expect(err is None, f"{backend}: meaningless program was accepted", err, prog)
        content = want[1] if want else []
        ext = extent(content) or (0.0, 0.0, 0.0, 0.0)
        if want is None:
            b = res.main_box
            expect_eq((b.width, b.height), (0, 0), f"{backend}: size of empty picture")
        P = geom.grid(ext[0] - 0.5, ext[1] - 0.5, ext[2] + 0.5, ext[3] + 0.5, 0.31)
        dark, margin = paint(content, P)
        if backend == "shapely":
            got, tol = oracle.shapely_contains(res, P), 0.03
        else:
            if want is None:
                expect(not oracle.pillow_mask(res).any(), "raster of empty picture is not empty")
                continue
            got, tol = oracle.pillow_contains(oracle.pillow_mask(res), res.main_box, DPMM, P), 0.15
        if ext[2] > ext[0]:
            oracle.box_contains(res.main_box, ext, 0.02, f"{backend}: image box misses drawn objects")
        bad = (margin > tol) & (dark != got)
        if bad.any():
            i = int(np.argmax(bad))
            raise Mismatch(f"{backend}: point {P[i].round(3).tolist()} is {'dark' if got[i] else 'clear'}, "
                           f"{int(bad.sum())} of {int((margin > tol).sum())} wrong", "dark" if dark[i] else "clear",
                           f"{prog}\n" + oracle.ascii_map(P, dark, got, margin > tol))
        sigs.append(np.packbits(dark).tobytes())
    return states, sigs


def alphabet(ids, boxes, origins, shapes, pastes):
    out = [["E"]]
    out += [["S", i, b, o] for i in ids for b in boxes for o in (origins if i != MAIN else ["0"])]
    out += [["D", s] for s in shapes]
    out += [["P", i, p] for i in ids if i != MAIN for p in pastes]
    return out


def programs(length, ids, boxes, origins, shapes, pastes, first=()):
    """All programs up to length whose every prefix is meaningful, plus each first error."""
    alpha = alphabet(ids, boxes, origins, shapes, pastes)

    def rec(prog, stack, started, finished):
        for c in alpha:
            k = c[0]
            left = length - len(prog) - 1
            if k == "S":
                if c[1] in started:
                    if len(prog) <= 3:
                        yield prog + [c]
                    continue
                if len(stack) + 1 > left:
                    continue
                if c[1] == "B" and "A" not in started:
                    continue  # names are interchangeable
                yield from rec(prog + [c], stack + [c[1]], started | {c[1]}, finished)
            elif k == "E":
                if not stack:
                    if len(prog) <= 3:
                        yield prog + [c]
                    continue
                fin = finished | {stack[-1]}
                p = prog + [c]
                if len(stack) == 1 and MAIN in fin:
                    yield p
                    continue  # what follows main is decided by shorter programs
                if left >= max(len(stack) - 1, 0) + (0 if MAIN in started else 2):
                    yield from rec(p, stack[:-1], started, fin)
            else:
                if not stack:
                    if len(prog) <= 3:
                        yield prog + [c]
                    continue
                if len(stack) > left:
                    continue
                yield from rec(prog + [c], stack, started, finished)

    yield from rec([], [], frozenset(), frozenset())


def configs(tier):
    q = tier == "quick"
    yield 7 if q else 8, dict(ids=["A", MAIN], boxes=[0, 1], origins=["0", "1"], shapes=["r", "c"], pastes=["p", "n"])
    yield 8 if q else 10, dict(ids=["A", MAIN], boxes=[0], origins=["1"], shapes=["r", "x"], pastes=["p", "n"])
    yield 9 if q else 10, dict(ids=["A", "B", MAIN], boxes=[0], origins=["0"], shapes=["r"], pastes=["p", "n"])
    yield 8 if q else 9, dict(ids=["A", "B", MAIN], boxes=[0, 1], origins=["1"], shapes=["o"], pastes=["q"])


def many(kind, n):
    """Programs with n of something."""
    main = ["S", MAIN, 0, "0"]
    if kind == "nested":  # layer in layer in layer, each copied by the one around it
        out = [main]
        for k in range(n):
            out.append(["S", f"L{k}", [-15.0, -15.0, 25.0, 25.0] if k % 3 == 2 else 0, [0.1 * k, 0.0]])
        for k in reversed(range(n)):
            out += [["D", [1, 0.2 * k, 0.3 * k, 1.0, 0.4]]]
            if k < n - 1:
                out.append(["P", f"L{k + 1}", [0.5, 0.25, k % 2]])
            out.append(["E"])
        return [*out, ["D", "o"], ["P", "L0", [1.0, 0.0, 0]], ["E"]]
    if kind == "chain":  # one after another, each copies the previous one
        out = []
        for k in range(n):
            out += [["S", f"L{k}", 0, [0.25, 0.0]], ["D", [1, 0.1 * k, 0.2 * k, 1.0, 0.5]]]
            if k:
                out += [["P", f"L{k - 1}", [0.5, 0.4, 0]]]
            if k % 3 == 2:
                out += [["D", "c"]]
            out.append(["E"])
        return [*out, main, ["P", f"L{n - 1}", [0.0, 0.0, 0]], ["E"]]
    if kind == "shapes":
        return [main, *[["D", [1 - k % 2, 0.4 * (k % 7), 0.5 * (k // 7), 1.1, 0.7]] for k in range(n)], ["E"]]
    if kind == "copies":
        return [["S", "A", 0, "1"], ["D", "r"], ["D", "c"], ["E"], main,
                *[["P", "A", [1.7 * (k % 6), 1.3 * (k // 6), k % 4 == 3]] for k in range(n)], ["E"]]
    if kind == "layers":
        out = []
        for k in range(n):
            out += [["S", f"layer {k}/é%", 0, [0.0, 0.5]], ["D", [1, 0.0, 0.0, 0.5 + 0.05 * k, 0.8]], ["E"]]
        return [*out, main, *[["P", f"layer {(k * 3) % n if n % 3 else k}/é%", [1.2 * (k % 8), 1.2 * (k // 8), 0]] for k in range(n)], ["E"]]
    if kind == "empty":  # empty layers between the others
        out = []
        for k in range(n):
            out += [["S", f"E{k}", 0, "0"], ["E"]]
        return [*out, ["S", "A", 0, "0"], *[["P", f"E{k}", "p"] for k in range(n)], ["D", "r"], ["E"], main, ["P", "A", "q"],
                *[["P", f"E{k}", "n"] for k in range(n)], ["E"]]
    raise ValueError(kind)


MANY = ["nested", "chain", "shapes", "copies", "layers", "empty"]


def geometry(tier):
    """Boxes, origins and offsets of copies."""
    boxes = [0, [-2.0, -2.0, 3.0, 2.0], [-1.8, -1.3, 8.0, 2.6]]
    coords = [(0.0, 0.0), (1.0, -0.5), (-3.0, 2.0), (10.0, 7.0), (0.35, 0.15)]
    for box, org, at in itertools.product(boxes, coords, coords):
        for neg in (0, 1):
            for mainbox in (0, [-20.0, -20.0, 25.0, 25.0]):
                yield ["prog", [["S", "A", box, list(org)], ["D", "r"], ["D", "c"], ["E"], ["S", MAIN, mainbox, "0"],
                                ["D", [1, 0.5, 0.25, 4.0, 1.5]], ["P", "A", [*at, neg]], ["E"]]]
    for org, at, org2, at2 in itertools.product(coords[:4], coords[:3], coords[:3], coords[:4]):
        yield ["prog", [["S", "A", 0, list(org)], ["D", "r"], ["D", "x"], ["E"], ["S", "B", 0, list(org2)], ["P", "A", [*at, 0]],
                        ["D", "o"], ["E"], ["S", MAIN, 0, "0"], ["P", "B", [*at2, 0]], ["D", "c"], ["E"]]]


def cases(tier):
    yield from geometry(tier)
    for kind in MANY:
        for n in range(1, (16 if tier == "quick" else 41) if kind in ("nested", "chain") else 33 if tier == "quick" else 101):
            yield ["prog", many(kind, n)]
    for n, kw in configs(tier):
        for p in programs(n, **kw):
            yield p


def run_case(prog):
    if prog and prog[0] == "prog":
        prog = prog[1]
    states, n, sig = set(), 0, []
    for strict in (False, True):
        r = execute(prog, strict)
        if r is not None:
            states.update(r[0])
            sig.append(r[1])
            n += 2
    return Obs(states=states, transitions=len(prog) * n, traces=n, outcome=repr(sig))


def bounds(tier):
    return ("all layer programs of up to " + ", ".join(str(n) for n, _ in configs(tier)) + " commands over four alphabets: "
            "nested and consecutive layers, auto and explicit size, origins, dark and clear shapes and copies; both "
            "renderers; tolerant and strict about empty layers; errors after every short prefix; boxes x origins x offsets of copies "
            "on one and two levels; up to 15 (40) nested or chained layers, 32 (100) shapes, copies, layers, empty layers")
