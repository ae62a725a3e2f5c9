"""C11: images have the requested scale, units, orientation, colours and encoding."""

from __future__ import annotations

import io
import itertools
import re
import tempfile
import xml.etree.ElementTree as ET
from pathlib import Path

import numpy as np

from mc import geom, gmodel
from mc.core import Mismatch, Obs, expect, expect_eq
from mc.oracle import ascii_map

PROPERTY = "C11"
BATCH = 4
ASSUMPTIONS = [
    "pixels closer than 2.6 pixels (plus 0.03 mm) to an outline are not decided",
    "JPEG and WebP are lossy: colours are compared with tolerance",
]
OFFSETS = [(0.0, 0.0), (5.0, 3.0), (-9.0, 2.5), (-8.3, -7.7), (4.4, -6.25), (0.0, 20.0), (31.7, 0.0)]
DPMM = [4, 10, 20, 37, 60]
FORMATS = ["png", "PNG", "bmp", "tiff", "jpeg", "webp", "Jpeg"]
# every picture is asymmetric in both axes
PICTURES = {
    "L": [(True, geom.rect(0.0, 0.0, 4.0, 1.0)), (True, geom.rect(-1.5, 1.5, 1.0, 2.0)), (False, geom.circle(1.0, 0.1, 0.7))],
    "dots": [(True, geom.circle(0.0, 0.0, 1.5)), (True, geom.circle(2.25, 0.5, 1.0)), (True, geom.circle(0.5, 3.125, 1.0))],
    "one": [(True, geom.rect(0.0, 0.0, 3.3, 1.7))],
    "plate": [(True, geom.rect(0.0, 0.0, 6.0, 4.0)), (False, geom.rect(1.5, 1.0, 2.0, 1.0)), (True, geom.circle(1.3, 1.0, 0.6))],
}


def picture(name):
    """Named picture, or an asymmetric one of the given size: WxH."""
    if name in PICTURES:
        return PICTURES[name]
    w, h = (float(v) for v in name.split("x"))
    return [(True, geom.rect(0.0, 0.0, w, h)), (False, geom.rect(w / 4, h / 8, w / 4, h / 4)), (True, geom.rect(w * 0.55, -h / 4, w / 5, h / 5))]


def program(name, off, unit):
    """Text of the picture, moved; sizes in file units so that the picture in mm is the same."""
    k = 1.0 if unit == "MM" else 25.4
    ops = []
    for n, (dark, prim) in enumerate(picture(name)):
        d = 10 + n
        if prim[0] == "circle":
            x, y = prim[1], prim[2]
            ops.append(["AD", d, "C", [round(prim[3] * 2 / k, 8)]])
        else:
            xs, ys = [p[0] for p in prim[1]], [p[1] for p in prim[1]]
            x, y = (min(xs) + max(xs)) / 2, (min(ys) + max(ys)) / 2
            ops.append(["AD", d, "R", [round((max(xs) - min(xs)) / k, 8), round((max(ys) - min(ys)) / k, 8)]])
        ops += [["LP", "D" if dark else "C"], ["D", d], ["D03", (x + off[0]) / k, (y + off[1]) / k]]
    return gmodel.text(ops, unit=unit)


def reference(name, off):
    m = geom.translate(*off)
    return [(dark, [(True, geom.transform(m, p))]) for dark, p in picture(name)]


def style_of(k):
    from pygerber.gerber.api import Color, Style

    if k == "odd":
        return Style(foreground=Color.from_hex("#12345678"), background=Color.from_hex("#fe02a980"))
    return getattr(Style.presets, k)


STYLES = ["COPPER", "COPPER_ALPHA", "SILK", "SILK_ALPHA", "PASTE_MASK", "PASTE_MASK_ALPHA", "SOLDER_MASK",
          "SOLDER_MASK_ALPHA", "DEFAULT_GRAYSCALE", "DEBUG_1", "DEBUG_1_ALPHA", "BLACK_WHITE", "BLACK_WHITE_ALPHA", "odd"]


def probes(box, px):
    x0, y0, x1, y1 = box
    step = max(px, ((x1 - x0) * (y1 - y0) / 1200) ** 0.5)
    return geom.grid(x0 + px, y0 + px, x1 - px, y1 - px, step)


def pixel_check(arr, box, dpmm, objects, fg, bg, tol, what):
    P = probes(box, 1.0 / dpmm)
    dark, margin = geom.paint(objects, P)
    decided = margin > 2.6 / dpmm + 0.03
    col = np.clip(((P[:, 0] - box[0]) * dpmm).astype(int), 0, arr.shape[1] - 1)
    row = np.clip(((box[3] - P[:, 1]) * dpmm).astype(int), 0, arr.shape[0] - 1)
    got = arr[row, col].astype(int)
    is_fg = (np.abs(got - np.array(fg)) <= tol).all(axis=1)
    is_bg = (np.abs(got - np.array(bg)) <= tol).all(axis=1)
    ok = np.where(dark, is_fg, is_bg) | ~decided
    if not ok.all():
        k = int(np.argmin(ok))
        raise Mismatch(f"{what}: pixel at {P[k].round(3).tolist()} mm has colour {got[k].tolist()}, {int((~ok).sum())} wrong",
                       (fg if dark[k] else bg), ascii_map(P, dark, is_fg, decided))
    expect(dpmm < 10 or int(decided.sum()) > 20, f"{what}: too few decided pixels")
    return int((~decided).sum())


def paint_of(el, opacity):
    """Colour channels an element is painted with; its outline must be invisible."""
    h = el.get("fill").lstrip("#")
    expect(re.fullmatch(r"[0-9a-fA-F]{6}|[0-9a-fA-F]{8}", h), f"fill of a path: {el.get('fill')}")
    ch = [int(h[k:k + 2], 16) for k in range(0, len(h), 2)]
    stroke = el.get("stroke", "none")
    expect(stroke == "none" or float(el.get("stroke-width", 1)) == 0 or (len(stroke) == 9 and stroke.endswith("00")),
           f"outline of a path is painted: {stroke}")
    return (*ch[:3], round((ch[3] if len(ch) == 4 else 255) * opacity))


def svg_polys(data, what):
    """[(rings in user space)] of every path, root transform applied."""
    root = ET.fromstring(data)
    out, fills = [], set()

    def rec(el, mats, group=1.0):
        t = el.get("transform")
        group *= float(el.get("opacity", 1)) * float(el.get("fill-opacity", 1))
        if t:
            a, b, c, d, e, f = (float(v) for v in re.match(r"matrix\(([^)]*)\)", t).group(1).split(","))
            mats = mats + [(a, b, c, d, e, f)]
        if el.tag.endswith("path"):
            rings = []
            for part in re.split(r"z", el.get("d").strip(), flags=re.I):
                nums = [float(v) for v in re.findall(r"-?\d+\.?\d*(?:[eE][-+]?\d+)?", part)]
                if not nums:
                    continue
                pts = np.array(nums).reshape(-1, 2)
                for a, b, c, d, e, f in reversed(mats):
                    pts = np.column_stack([a * pts[:, 0] + c * pts[:, 1] + e, b * pts[:, 0] + d * pts[:, 1] + f])
                rings.append(pts)
            out.append(rings)
            fills.add(paint_of(el, group))
        for ch in el:
            rec(ch, mats, group)

    rec(root, [])
    return root, out, fills


def check_svg(data, objects, extent_units, k, style, what):
    root, polys, fills = svg_polys(data, what)
    vb = [float(v) for v in root.get("viewBox").split()]
    x0, y0, x1, y1 = extent_units
    for got, want, n in zip(vb, (x0, y0, x1 - x0, y1 - y0), ("x", "y", "width", "height")):
        expect(abs(got - want) < 0.02 / k + 0.002, f"{what}: {n} of view box", want, got)
    for n, want in (("width", x1 - x0), ("height", y1 - y0)):
        expect(abs(float(root.get(n)) - want) < 0.02 / k + 0.002, f"{what}: {n}", want, root.get(n))
    expect_eq(fills, {style.foreground.as_rgba_int()}, f"{what}: fill colour")
    P = geom.grid(x0 * k, y0 * k, x1 * k, y1 * k, max(0.13, ((x1 - x0) * (y1 - y0)) ** 0.5 * k / 60))
    dark, margin = geom.paint(objects, P)
    # svg y grows downwards within the view box: point (x, y) appears at (x, y0 + y1 - y)
    Q = np.column_stack([P[:, 0] / k, y0 + y1 - P[:, 1] / k])
    got = np.zeros(len(P), bool)
    for rings in polys:
        cov = np.zeros(len(P), bool)
        for r in rings:
            cov ^= geom._even_odd(Q, [tuple(p) for p in r])
        got |= cov
    bad = (margin > 0.04) & (dark != got)
    if bad.any():
        i = int(np.argmax(bad))
        raise Mismatch(f"{what}: point {P[i].round(3).tolist()} mm is {'dark' if got[i] else 'clear'}",
                       "dark" if dark[i] else "clear", ascii_map(P, dark, got, margin > 0.04))


def check_space(sp, ext_mm, unit, dpmm, what):
    k = 1.0 if unit == "MM" else 25.4
    expect_eq(sp.units.value, unit, f"{what}: units")
    for n, want in zip(("min_x", "min_y", "max_x", "max_y"), ext_mm):
        expect(abs(getattr(sp, n) - want / k) < 2e-3, f"{what}: {n}", want / k, getattr(sp, n))
        mm = getattr(sp, n + "_mm")
        expect(abs(mm - want) < 2e-2, f"{what}: {n}_mm", want, mm)
        if dpmm:
            expect(abs(getattr(sp, n + "_pixels") - mm * dpmm) <= 1, f"{what}: {n}_pixels", mm * dpmm, getattr(sp, n + "_pixels"))
    for n, a, b in (("width_mm", 2, 0), ("height_mm", 3, 1)):
        expect(abs(getattr(sp, n) - (ext_mm[a] - ext_mm[b])) < 3e-2, f"{what}: {n}")
    for n, a, b in (("center_x_mm", 0, 2), ("center_y_mm", 1, 3)):
        expect(abs(getattr(sp, n) - (ext_mm[a] + ext_mm[b]) / 2) < 2e-2, f"{what}: {n}")
    expect_eq(sp.dpmm, dpmm, f"{what}: dpmm")


def check_colours(lo, hi):
    """Every notation of a colour denotes the same channels."""
    import colorsys

    from pygerber.gerber.api import Color

    n, sigs = 0, []
    vals = (0, 1, 9, 16, 127, 128, 171, 255)
    for r in range(lo, hi):
        for g, b, a in itertools.product(vals, repeat=3):
            want = (r, g, b, a)
            h = "%02x%02x%02x%02x" % want
            got = [Color.from_hex(h), Color.from_hex("#" + h.upper()), Color.from_rgba(*want),
                   Color(red=r, green=g, blue=b, alpha=a)]
            if a == 255:
                got += [Color.from_hex(h[:6]), Color.from_hex("#" + h[:6]), Color.from_rgba(r, g, b)]
            for c in got:
                expect_eq(c.as_rgba_int(), want, f"channels of colour {h}")
                expect_eq(c.as_rgb_int(), want[:3], f"rgb channels of colour {h}")
                expect_eq(c, got[0], "equal colours")
            expect_eq(got[0].to_hex().lower(), "#" + h, "hexadecimal text of colour")
            expect(all(abs(x - y / 255) < 1e-9 for x, y in zip(got[0].as_rgba_float(), want)), f"fractions of {h}")
            n += len(got)
    for hue in range(lo * 2, hi * 2):
        for sat, val in itertools.product((0, 25, 50, 100), repeat=2):
            want = [255 * v for v in colorsys.hsv_to_rgb((hue % 360) / 360, sat / 100, val / 100)]
            got = Color.from_hsv(hue, sat, val, 77).as_rgba_int()
            expect(all(abs(x - y) <= 1 for x, y in zip(got, want)) and got[3] == 77, f"hsv {hue} {sat} {val}", want, got)
            n += 1
        sigs.append(hue)
    for bad in ("", "#", "12345", "#1234567", "12345g", "#12 456", "#123456789"):
        try:
            c = Color.from_hex(bad)
        except ValueError:
            continue
        raise Mismatch(f"text {bad!r} was accepted as a colour", "ValueError", c)
    return Obs(states=[f"hue{s}" for s in sigs], transitions=n, traces=n, outcome=("colours", lo))


WAYS = ["text", "path", "file", "buffer"]


def machine_result(src, backend, **options):
    from pygerber.gerber.compiler import compile
    from pygerber.gerber.parser import parse
    from pygerber.vm import render

    return render(compile(parse(src)), backend=backend, **options)


def saved(dest, way, savers):
    """Bytes written by each saver, the destination given in one of the ways."""
    out = []
    for save in savers:
        if way == "buffer":
            buf = io.BytesIO()
            save(buf)
            out.append(buf.getvalue())
            continue
        if way == "file":
            with dest.open("wb") as fp:
                save(fp)
        else:
            dest.write_bytes(b"old content which is longer " * 4000)
            save(str(dest) if way == "text" else dest)
        out.append(dest.read_bytes())
        dest.unlink()
    return out


def run_case(case):
    if case[0] == "colours":
        return check_colours(case[1], case[2])
    from PIL import Image

    from pygerber.gerber.api import GerberFile

    kind, name, oi, unit = case[:4]
    off = OFFSETS[oi] if isinstance(oi, int) else tuple(oi)
    src = program(name, off, unit)
    objects = reference(name, off)
    ext = geom.extent(objects)
    k = 1.0 if unit == "MM" else 25.4
    n = sk = 0
    sigs = []
    file = GerberFile.from_str(src)
    if kind == "raster":
        for dpmm in case[4] if len(case) > 4 else DPMM:
            img = file.render_with_pillow(style_of("odd"), dpmm=dpmm)
            check_space(img.get_image_space(), ext, unit, dpmm, f"{src}\nspace")
            pic = img.get_image()
            w, h = (ext[2] - ext[0]) * dpmm, (ext[3] - ext[1]) * dpmm
            expect(abs(pic.size[0] - w) <= 1.5 and abs(pic.size[1] - h) <= 1.5, f"size at {dpmm} dpmm of {src}", (w, h), pic.size)
            arr = np.asarray(pic.convert("RGBA"))
            sk += pixel_check(arr, ext, dpmm, objects, (0x12, 0x34, 0x56, 0x78), (0xFE, 0x02, 0xA9, 0x80), 0,
                              f"{dpmm} dpmm {src}")
            sigs.append(pic.size)
            n += 1
    elif kind == "styles":
        for sname in STYLES:
            st = style_of(sname)
            expect(not sname.endswith("_ALPHA") or st.background.alpha == 0, f"background of {sname} is transparent")
            pic = file.render_with_pillow(st, dpmm=10).get_image()
            arr = np.asarray(pic.convert("RGBA"))
            sk += pixel_check(arr, ext, 10, objects, st.foreground.as_rgba_int(), st.background.as_rgba_int(), 0,
                              f"style {sname} {src}")
            n += 1
            sigs.append(st.foreground.as_rgba_int())
    elif kind == "formats":
        result = machine_result(src, "pillow", dpmm=20)
        expect(result.is_success(), "result with an image")
        with tempfile.TemporaryDirectory() as tmp:
            for fmt, sname, path in itertools.product(FORMATS, ["COPPER", "COPPER_ALPHA", "BLACK_WHITE"], WAYS):
                st = style_of(sname)
                img = file.render_with_pillow(st, dpmm=20)
                datas = saved(Path(tmp) / f"x{n}.{fmt}", path, [
                    lambda d: img.save(d, fmt), getattr(img, f"save_{fmt.lower()}"),
                    # a machine counts in units of the file
                    *([lambda d: result.save(d, fmt, st), lambda d: getattr(result, f"save_{fmt.lower()}")(d, st)]
                      if unit == "MM" else [])])
                data = datas[0]
                expect(all(d == data for d in datas), f"{fmt} of {src}: saved images differ by the way of saving")
                back = Image.open(io.BytesIO(data))
                expect_eq(back.format, fmt.upper(), "encoding of saved image")
                expect_eq(back.size, img.get_image().size, "size of saved image")
                lossy = fmt.lower() in ("jpeg", "webp")
                if lossy or fmt == "bmp":  # no transparency
                    arr = np.asarray(back.convert("RGB"))
                    fg, bg = st.foreground.as_rgb_int(), st.background.as_rgb_int()
                else:
                    arr = np.asarray(back.convert("RGBA"))
                    fg, bg = st.foreground.as_rgba_int(), st.background.as_rgba_int()
                if not lossy:
                    same = np.asarray(img.get_image().convert("RGBA"))[:, :, :arr.shape[2]]
                    expect((arr == same).all(), f"{fmt} altered the image")
                sk += pixel_check(arr, ext, 20, objects, fg, bg, 60 if lossy else 0, f"{fmt} {sname} {src}")
                n += 1
                sigs.append(fmt)
    elif kind == "svg":
        result = machine_result(src, "shapely")
        with tempfile.TemporaryDirectory() as tmp:
            for sname in STYLES:
                st = style_of(sname)
                img = file.render_with_shapely(st)
                check_space(img.get_image_space(), ext, unit, 0, f"{src}\nspace")
                datas = []
                for way in WAYS:
                    datas += saved(Path(tmp) / f"{sname}-{way}.svg", way, [
                        img.save, img.save_svg, lambda d: result.save(d, "Svg", st), lambda d: result.save_svg(d, st)])
                n += len(datas)
                expect(all(d == datas[0] for d in datas), "saved drawings differ by the way of saving")
                dark_only = geom.extent([o for o in objects if o[0]])
                check_svg(datas[0], objects, tuple(v / k for v in dark_only), k, st, f"svg {sname} {src}")
                sigs.append(sname)
    return Obs(states=[repr((case, s)) for s in sigs], transitions=n, traces=n, outcome=repr(sigs), skipped=sk)


def cases(tier):
    for lo in range(0, 256, 32):
        yield ["colours", lo, lo + 32]
    for kind in ("raster", "svg", "styles", "formats"):
        for name in PICTURES:
            for oi in range(len(OFFSETS)):
                if tier == "quick" and kind in ("styles", "formats") and oi not in (0, 3):
                    continue
                for unit in ("MM", "IN"):
                    yield [kind, name, oi, unit]


    # sizes, places and resolutions
    t = tier == "thorough"
    for n, unit in itertools.product(range(1, 121 if t else 61), ("MM", "IN")):
        yield ["raster", list(PICTURES)[n % 4], n % len(OFFSETS), unit, [n]]
    for k, w in enumerate((0.8, 1.3, 2.54, 7.0, 12.7, 25.4, 50.0, 101.6, 180.0)):
        for h in (0.9, 2.54, 10.0, 33.3, 100.0, 254.0):
            unit = ("MM", "IN")[k % 2]
            big = max(w, h)
            yield ["raster", f"{w}x{h}", k % len(OFFSETS), unit, [d for d in (3, 8, 21, 50) if 600 < big * d * 20 and big * d < (4000 if t else 1200)]]
            yield ["svg", f"{w}x{h}", k % len(OFFSETS), ("IN", "MM")[k % 2]]
    for x, y in itertools.product((-1000.0, -99.99, -12.5, 0.01, 8.0, 77.7, 640.0), repeat=2):
        yield ["raster", "L", [x, y], ("MM", "IN")[int(x) % 2], [10, 25]]
        yield ["svg", "dots", [x, y], ("IN", "MM")[int(y) % 2]]


def bounds(tier):
    return (f"{len(PICTURES)} asymmetric pictures x {len(OFFSETS)} positions around the origin x both units x {len(DPMM)} "
            f"resolutions; {len(STYLES)} styles, {len(FORMATS)} encodings, files and buffers, vector drawings; "
            f"resolutions 1 to {120 if tier == 'thorough' else 60}, 54 sizes from 0.8 to 254 mm, 49 places up to 1 m away; "
            "colour notations: 256 x 8^3 channel values, 512 hues x 16")
