"""C16: views of several files: alignment, stacking order, colours; projects read from job files."""

from __future__ import annotations

import io
import itertools
import json
import math
import tempfile
from pathlib import Path

import numpy as np

from mc import geom, gmodel
from mc.core import Mismatch, Obs, expect, expect_eq

PROPERTY = "C16"
BATCH = 6
ASSUMPTIONS = ["every file of a view draws something", "pixels closer than 2.6 pixels (plus 0.03 mm) to an outline or to the edge of "
               "the image of one file are not decided", "file functions of a job are those drawn in views: copper, solder mask, paste, legend, profile"]

# name -> (type, unit, shapes [(dark, prim)])
LAYERS = {
    "plate": ("COPPER", "MM", [(True, geom.rect(0.0, 0.0, 6.0, 4.0)), (False, geom.rect(1.0, 0.5, 1.5, 1.0))]),
    "inch": ("SILK", "IN", [(True, geom.circle(3.0, 1.5, 3.0)), (True, geom.rect(-1.0, 0.5, 2.0, 0.8))]),
    "far": ("OTHER", "MM", [(True, geom.rect(-7.35, -5.25, 2.1, 1.3)), (True, geom.circle(-5.0, -3.0, 1.5))]),
    "glass": ("SOLDERMASK", "MM", [(True, geom.rect(1.0, -1.0, 5.0, 3.5)), (False, geom.circle(2.0, -1.0, 1.2))]),
    "high": ("PASTE", "IN", [(True, geom.rect(9.6, 8.4, 1.7, 1.9)), (True, geom.circle(6.0, 2.0, 2.4))]),
}
# (foreground, background) of a type; the first map is opaque over nothing, the second has all kinds of transparency
MAPS = {
    "a": {"COPPER": ("00a000ff", "00000000"), "SILK": ("ffffffff", "00000000"), "OTHER": ("c01020ff", "303040ff"),
          "SOLDERMASK": ("2040ffff", "00000000"), "PASTE": ("808080ff", "00000000")},
    "b": {"COPPER": ("00a000ff", "102030ff"), "SILK": ("ff80ff80", "00000000"), "OTHER": ("c0102040", "303040c0"),
          "SOLDERMASK": ("2040ff80", "00000020"), "PASTE": ("808080ff", "00000000")},
}
_FILES = {}


def rgba(h):
    return [int(h[i:i + 2], 16) for i in (0, 2, 4, 6)]


def source(name):
    _, unit, shapes = LAYERS[name]
    k = 1.0 if unit == "MM" else 25.4
    ops = []
    for n, (dark, prim) in enumerate(shapes):
        if prim[0] == "circle":
            x, y = prim[1], prim[2]
            ops.append(["AD", 10 + n, "C", [round(prim[3] * 2 / k, 8)]])
        else:
            xs, ys = [p[0] for p in prim[1]], [p[1] for p in prim[1]]
            x, y = (min(xs) + max(xs)) / 2, (min(ys) + max(ys)) / 2
            ops.append(["AD", 10 + n, "R", [round((max(xs) - min(xs)) / k, 8), round((max(ys) - min(ys)) / k, 8)]])
        ops += [["LP", "D" if dark else "C"], ["D", 10 + n], ["D03", x / k, y / k]]
    return gmodel.text(ops, unit=unit)


def the_file(name):
    from pygerber.gerber.api import FileTypeEnum, GerberFile

    if name not in _FILES:
        _FILES[name] = GerberFile.from_str(source(name), FileTypeEnum[LAYERS[name][0]])
    return _FILES[name]


def over(dst, src, where):
    """Porter-Duff 'over' of one colour on an array of straight colours, at the selected points."""
    sa = src[..., 3:] / 255.0
    da = dst[..., 3:] / 255.0
    oa = sa + da * (1 - sa)
    safe = np.where(oa > 0, oa, 1.0)
    rgb = (src[..., :3] * sa + dst[..., :3] * da * (1 - sa)) / safe
    out = np.concatenate([rgb, oa * 255.0], axis=-1)
    return np.where(where[:, None], out, dst)


def check_view(names, mapname, dpmm, how):
    from pygerber.gerber.api import Color, CompositeView, FileTypeEnum, Style

    cmap = {FileTypeEnum[t]: Style(foreground=Color.from_hex(f), background=Color.from_hex(b)) for t, (f, b) in MAPS[mapname].items()}
    view = CompositeView(the_file(n) for n in names) if how == "gen" else CompositeView([the_file(n) for n in names])
    expect_eq(len(view), len(names), "number of files")
    expect(view.set_color_map(cmap) is view, "set_color_map returns the view")
    expect(all(a is the_file(b) for a, b in zip(view.files, names)), "files of the view in order")
    res = view.render_with_pillow(*([dpmm] if dpmm != 20 else []))
    img = res.get_image()
    arr = np.asarray(img.convert("RGBA")).astype(float)
    objs = {n: [(dark, [(True, p)]) for dark, p in LAYERS[n][2]] for n in names}
    ext = {n: geom.extent(objs[n]) for n in names}
    box = (min(e[0] for e in ext.values()), min(e[1] for e in ext.values()), max(e[2] for e in ext.values()), max(e[3] for e in ext.values()))
    w, h = (box[2] - box[0]) * dpmm, (box[3] - box[1]) * dpmm
    expect(abs(arr.shape[1] - w) <= 2 and abs(arr.shape[0] - h) <= 2, "size of the image", (w, h), arr.shape)
    tol = 2.6 / dpmm + 0.03
    step = max(1.0 / dpmm, ((box[2] - box[0]) * (box[3] - box[1]) / 2500) ** 0.5)
    P = geom.grid(box[0] + 1 / dpmm, box[1] + 1 / dpmm, box[2] - 1 / dpmm, box[3] - 1 / dpmm, step)
    want = np.zeros((len(P), 4))
    decided = np.ones(len(P), bool)
    for n in names:
        e = ext[n]
        d = np.minimum(np.minimum(P[:, 0] - e[0], e[2] - P[:, 0]), np.minimum(P[:, 1] - e[1], e[3] - P[:, 1]))
        decided &= np.abs(d) > tol
        dark, margin = geom.paint(objs[n], P)
        decided &= (margin > tol) | (d < -tol)
        fg, bg = (np.array(rgba(c), float) for c in MAPS[mapname][LAYERS[n][0]])
        src = np.where(dark[:, None], fg, bg)
        want = over(want, src, d > 0)
    col = np.clip(((P[:, 0] - box[0]) * dpmm).astype(int), 0, arr.shape[1] - 1)
    row = np.clip(((box[3] - P[:, 1]) * dpmm).astype(int), 0, arr.shape[0] - 1)
    got = arr[row, col]
    near = np.abs(got - want)
    # colour of nearly transparent pixels is rounded coarsely
    lim = np.where(want[:, 3:] > 40, 4.0, 12.0)
    ok = ((near[:, 3] <= 3) & ((want[:, 3] < 1) | (near[:, :3] <= lim).all(axis=1))) | ~decided
    if not ok.all():
        k = int(np.argmin(ok))
        raise Mismatch(f"view of {names} ({mapname}, {dpmm} dpmm): pixel at {P[k].round(3).tolist()} mm, {int((~ok).sum())} of {int(decided.sum())} wrong",
                       want[k].round(1).tolist(), got[k].tolist())
    expect(int(decided.sum()) > 50, "too few decided pixels")
    # parts: one image per file, in order, each the picture of the file alone
    subs = res.get_sub_images()
    expect_eq(len(subs), len(names), "number of parts")
    for n, s in zip(names, subs):
        own = the_file(n).render_with_pillow(dpmm=dpmm)
        expect(np.array_equal(np.asarray(own.get_image()), np.asarray(s.get_image())), f"part {n} of view {names}")
        sp = s.get_image_space()
        for a, b in zip((sp.min_x_mm, sp.min_y_mm, sp.max_x_mm, sp.max_y_mm), ext[n]):
            expect(abs(a - b) < 0.02, f"space of part {n}", ext[n], str(sp))
    buf = io.BytesIO()
    res.save(buf, "png")
    from PIL import Image

    expect(np.array_equal(np.asarray(Image.open(buf).convert("RGBA")), arr.astype(np.uint8)), "saved image differs")
    return int((~decided).sum())


def run_view(case):
    _, names, mapname = case
    n = sk = 0
    for dpmm, how in ((10, "list"), (23, "gen"), (20, "list")) if len(names) < 3 else ((10, "gen"),):
        sk += check_view(names, mapname, dpmm, how)
        n += 1
    return Obs(states=[(tuple(names[:k]), mapname) for k in range(1, len(names) + 1)], transitions=n * len(names), traces=n,
               outcome=(tuple(names), mapname), skipped=sk)


# ---------------------------------------------------------------- job files
ENTRIES = {
    "tc": ("top-cu.gbr", "Copper,L1,Top"), "tm": ("sub/mask.gbr", "Soldermask,Top"), "tp": ("tp.gbr", "SolderPaste,Top"), "tl": ("tl.gto", "Legend,Top"),
    "bc": ("b.gbl", "Copper,L4,Bot"), "bm": ("bmask.gbs", "SolderMask,Bot"), "bp": ("bpaste.x", "Paste,Bot"), "bl": ("bl.gbo", "Legend,Bot"),
    "i2": ("in2.g2", "Copper,L2,Inr"), "i10": ("in10.gbr", "Copper,L10,Inr"), "i3": ("in3.gp1", "Copper,L3,Inr"),
    "pr": ("edge.gm1", "Profile,NP"), "dr": ("drill.gbr", "Plated,1,4,PTH"),
}
OLD = {"tk": ("tk.gbr", "Mask,Top"), "ts": ("ts.gbr", "SILK,Top"), "bk": ("sub/bk.gbr", "mask,Bot"), "bs": ("bs.gbr", "Silk,Bot")}
FILES = {**ENTRIES, **OLD}
RANK = {"c": 0, "k": 1, "m": 2, "p": 3, "s": 4, "l": 5, "r": 6}
TYPE = {"tc": "COPPER", "tm": "SOLDERMASK", "tp": "PASTE", "tl": "LEGEND", "bc": "COPPER", "bm": "SOLDERMASK", "bp": "PASTE", "bl": "LEGEND",
        "i2": "COPPER", "i10": "COPPER", "i3": "COPPER", "pr": "PROFILE", "tk": "MASK", "ts": "SILK", "bk": "MASK", "bs": "SILK"}


def job_text(keys):
    return json.dumps({
        "Header": {"CreationDate": "2024-01-01T00:00:00", "GenerationSoftware": {"Vendor": "v", "Application": "a", "Version": "1"}},
        "GeneralSpecs": {"ProjectId": {"Name": "n", "GUID": "g", "Revision": "r"}, "Size": {"X": 10.5, "Y": 20.25}, "LayerNumber": 4,
                         "BoardThickness": 1.6, "Finish": "None"},
        "FilesAttributes": [{"Path": FILES[k][0], "FileFunction": FILES[k][1], "FilePolarity": "Positive"} for k in keys],
        "MaterialStackup": [{"Name": "x", "Type": "Copper", "Thickness": 0.035}],
    })


def views(keys):
    """Reference: files of each view, bottom up."""
    prof = ["pr"] if "pr" in keys else []

    def side(s):
        return sorted((k for k in keys if k[0] == s), key=lambda k: RANK[k[1]]) + prof

    inner = [[k, *prof] for k in sorted((k for k in keys if k[0] == "i"), key=lambda k: int(k[1:]))]
    return side("t"), inner, side("b")


def src_of(key):
    n = list(FILES).index(key)
    return f"G04 {key}*%FSLAX34Y34*%%MOMM*%%ADD10R,{1 + n * 0.1:.1f}X0.5*%D10*X{n * 5000}Y0D03*M02*"


def run_job(case):
    from pygerber.gerber.api import GerberJobFile
    from pygerber.gerber.api._errors import GerberX3APIError

    _, lists = case
    n, states = 0, []
    with tempfile.TemporaryDirectory() as tmp:
        root = Path(tmp) / "board"
        (root / "sub").mkdir(parents=True)
        for k, (path, _fn) in FILES.items():
            (root / path).write_text(src_of(k), encoding="utf-8")
        job = root / "x.gbrjob"
        for keys in lists:
            job.write_text(job_text(keys), encoding="utf-8")
            if n % 3 < 2:
                j = GerberJobFile.from_file(job if n % 3 else str(job))
                p = j.to_project()
            else:  # not loaded from disk: has to be told where it belongs
                j = GerberJobFile.model_validate_json(job_text(keys)) if n % 2 else GerberJobFile.model_validate(json.loads(job_text(keys)))
                try:
                    j.to_project()
                except GerberX3APIError:
                    pass
                else:
                    raise Mismatch("project of a job file without location", "an API error")
                p = j.to_project(path=job)
            back = {src_of(k): k for k in FILES}
            got = ([back[f.source_code] for f in p.top.files], [[back[f.source_code] for f in v.files] for v in p.inner],
                   [back[f.source_code] for f in p.bottom.files])
            expect_eq(got, views(keys), f"views of job with {keys}")
            for v in (p.top, *p.inner, p.bottom):
                for f in v.files:
                    expect_eq(f.file_type.name, TYPE[back[f.source_code]], f"type of {back[f.source_code]} in job {keys}")
            expect_eq((j.general_specs.size.x, j.general_specs.size.y, j.general_specs.layer_number, j.general_specs.board_thickness),
                      (10.5, 20.25, 4, 1.6), "specifications of the job")
            expect_eq([(a.path, a.file_function) for a in j.files_attributes], [FILES[k] for k in keys], "files of the job")
            states.append(repr(got))
            n += 1
    return Obs(states=states, transitions=n, traces=n, outcome=tuple(states))


def run_inner(case):
    """A job with many inner layers, listed in the given order: one view per inner layer, in the order of the stack."""
    from pygerber.gerber.api import GerberJobFile

    _, count, step = case
    layers = list(range(2, 2 + count))
    order = [layers[(k * step) % count] for k in range(count)]
    expect_eq(sorted(order), layers, "the listed order is a permutation")
    with tempfile.TemporaryDirectory() as tmp:
        root = Path(tmp)
        text = json.loads(job_text(["tc", "bc", "pr"]))
        extra = []
        for k in order:
            (root / f"in{k}.gbr").write_text(f"G04 inner {k}*%FSLAX34Y34*%%MOMM*%%ADD10C,1*%D10*X0Y0D03*M02*", encoding="utf-8")
            extra.append({"Path": f"in{k}.gbr", "FileFunction": f"Copper,L{k},Inr", "FilePolarity": "Positive"})
        for k in ("tc", "bc", "pr"):
            (root / FILES[k][0]).parent.mkdir(exist_ok=True)
            (root / FILES[k][0]).write_text(src_of(k), encoding="utf-8")
        half = count // 2
        text["FilesAttributes"] = extra[:half] + text["FilesAttributes"] + extra[half:]
        text["GeneralSpecs"]["LayerNumber"] = count + 2
        job = root / "x.gbrjob"
        job.write_text(json.dumps(text), encoding="utf-8")
        p = GerberJobFile.from_file(job).to_project()
        prof = src_of("pr")
        got = [[f.source_code.split("*")[0] for f in v.files] for v in p.inner]
        expect_eq(got, [[f"G04 inner {k}", prof.split("*")[0]] for k in layers], f"inner views of a job with {count} inner layers listed as {order}")
        expect_eq([f.source_code for v in (p.top, p.bottom) for f in v.files], [src_of(k) for k in ("tc", "pr", "bc", "pr")], "outer views")
    return Obs(states=[(count, k) for k in order], transitions=count, traces=1, outcome=(count, step))


def run_case(case):
    return {"view": run_view, "job": run_job, "inner": run_inner}[case[0]](case)


def chunks(it, size):
    it = iter(it)
    while c := list(itertools.islice(it, size)):
        yield c


def cases(tier):
    top = 4 if tier == "quick" else 5
    for n in range(1, top + 1):
        for names in itertools.product(LAYERS, repeat=n):
            if n >= 4 and len(set(names)) < (4 if tier == "quick" else n - 1):
                continue
            for m in MAPS:
                yield ["view", list(names), m]
    for n in range(5, 13 if tier == "quick" else 25):
        for first in range(len(LAYERS)):
            names = [list(LAYERS)[(first + k * (1 + n % 2)) % len(LAYERS)] for k in range(n)]
            yield ["view", names, "ab"[n % 2]]
            yield ["view", [list(LAYERS)[first]] * n, "ab"[(n + 1) % 2]]
    for count in range(2, 21 if tier == "quick" else 41):
        for step in range(1, count):
            if math.gcd(step, count) == 1:
                yield ["inner", count, step]
    keys = list(ENTRIES)
    subsets = [list(c) for r in range(len(keys) + 1) for c in itertools.combinations(keys, r)]
    yield from (["job", c] for c in chunks(subsets, 40))
    yield from (["job", [list(reversed(s)) for s in c]] for c in chunks([s for s in subsets if len(s) > 1], 40))
    old = ["tc", "tk", "tm", "ts", "tl", "pr", "bk", "bs", "bl", "bp"]
    sub = [list(c) for r in range(1, len(old) + 1) for c in itertools.combinations(old, r)]
    yield from (["job", [s[::-1] if n % 2 else s for n, s in enumerate(c)]] for c in chunks(sub, 40))
    pick = ["tl", "i10", "pr", "tc", "i2", "bm"] if tier == "quick" else ["tl", "i10", "pr", "tc", "i2", "bm", "bc", "tp"]
    yield from (["job", [list(p) for p in c]] for c in chunks(itertools.permutations(pick), 60))


def bounds(tier):
    t = tier == "thorough"
    return (f"all stacks of at most 3 of {len(LAYERS)} files in both units around the origin and of {'4 or 5 with at most one repeated' if t else '4 different ones'}, "
            f"cyclic stacks and stacks of one file of up to {24 if t else 12} files, jobs of up to {40 if t else 20} inner layers listed in every cyclic order; "
            f"x {len(MAPS)} colour maps x up to 3 resolutions; job files with all subsets of {len(ENTRIES)} entries in both directions and of ten with mask and silk files, "
            f"all orders of {8 if t else 6} entries")
