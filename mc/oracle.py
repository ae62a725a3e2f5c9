"""Comparison of rendered pictures with the reference picture."""

from __future__ import annotations

import numpy as np

from mc import geom
from mc.core import Mismatch

SHAPELY_TOL = 0.03


def probes(objects, pad=0.6, count=900):
    box = geom.extent(objects) or (-1.0, -1.0, 1.0, 1.0)
    x0, y0, x1, y1 = box[0] - pad, box[1] - pad, box[2] + pad, box[3] + pad
    step = max(((x1 - x0) * (y1 - y0) / count) ** 0.5, 0.02)
    return geom.grid(x0, y0, x1, y1, step)


def ascii_map(P, expected, got, decided):
    """Compact map of the disagreement for the report."""
    xs, ys = sorted(set(P[:, 0])), sorted(set(P[:, 1]), reverse=True)
    idx = {(x, y): k for k, (x, y) in enumerate(map(tuple, P))}
    rows = []
    for y in ys:
        row = ""
        for x in xs:
            k = idx[(x, y)]
            e, g, d = expected[k], got[k], decided[k]
            row += "?" if not d else ("#" if e and g else "." if not e and not g else "-" if e else "+")
        rows.append(row)
    return "\n".join(rows)


def compare(objects, P, got, tol, what):
    expected, margin = geom.paint(objects, P)
    decided = margin > tol
    bad = decided & (expected != got)
    if bad.any():
        k = int(np.argmax(bad))
        raise Mismatch(
            f"{what}: point ({P[k][0]:.4f}, {P[k][1]:.4f}) is "
            f"{'dark' if got[k] else 'clear'}, {int(bad.sum())} probes of {int(decided.sum())} wrong",
            expected="dark" if expected[k] else "clear",
            got="map ('-' missing, '+' extra):\n" + ascii_map(P, expected, got, decided),
        )
    sig = np.packbits(expected & decided).tobytes()
    return int((~decided).sum()), sig


def shapely_contains(result, P):
    import shapely as sh

    shape = result.shape
    if shape.is_empty:
        return np.zeros(len(P), bool)
    sh.prepare(shape)
    return sh.contains_xy(shape, P[:, 0], P[:, 1])


def pillow_contains(mask, box, dpmm, P):
    """Sample binary raster (top-down image of layer box) at points P."""
    w, h = mask.shape[1], mask.shape[0]
    px = np.floor((P[:, 0] - box.min_x) * dpmm).astype(int)
    py = h - 1 - np.floor((P[:, 1] - box.min_y) * dpmm).astype(int)
    ok = (px >= 0) & (px < w) & (py >= 0) & (py < h)
    out = np.zeros(len(P), bool)
    out[ok] = mask[py[ok], px[ok]]
    return out


def pillow_mask(result):
    """Dark pixels of PillowResult, through its public image with an unambiguous style."""
    from pygerber.vm.types.color import Color as RGBA
    from pygerber.vm.types import Style

    img = result.get_image(style=Style(foreground=RGBA.from_hex("#FFFFFFFF"),
                                       background=RGBA.from_hex("#000000FF")))
    return np.array(img.convert("L")) > 127


def box_close(box, expected, tol, what):
    got = (box.min_x, box.min_y, box.max_x, box.max_y)
    if any(abs(a - b) > tol for a, b in zip(got, expected)):
        raise Mismatch(what, expected, got)


def box_contains(box, inner, tol, what):
    if (box.min_x > inner[0] + tol or box.min_y > inner[1] + tol
            or box.max_x < inner[2] - tol or box.max_y < inner[3] - tol):
        raise Mismatch(what, inner, (box.min_x, box.min_y, box.max_x, box.max_y))
