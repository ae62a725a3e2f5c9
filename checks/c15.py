"""C15: file objects: type inference, colours by type, and histories of settings and results on one object."""

from __future__ import annotations

import hashlib
import io
import itertools
import tempfile
from pathlib import Path

import numpy as np

from checks.c11 import check_space, check_svg, pixel_check
from mc import geom
from mc.core import Mismatch, Obs, expect, expect_eq

PROPERTY = "C15"
BATCH = 8
ASSUMPTIONS = ["files end with a program stop and use one unit", "extensions other than the known ones carry no type"]

FUNCTIONS = ["Copper", "Plated", "NonPlated", "Profile", "Soldermask", "Legend", "Component", "Paste", "Glue", "Carbonmask",
             "Goldmask", "Heatsinkmask", "Peelablemask", "Silvermask", "Tinmask", "Depthrout", "Vcut", "Viafill", "Pads",
             "Other", "Drillmap", "FabricationDrawing", "Vcutmap", "AssemblyDrawing", "ArrayDrawing", "OtherDrawing"]
EXT = {".gto": "SILK", ".gbo": "SILK", ".gpt": "PADS", ".gpb": "PADS", ".gts": "SOLDERMASK", ".gbs": "SOLDERMASK",
       ".gtl": "COPPER", ".gbl": "COPPER", ".gtp": "PASTE", ".gbp": "PASTE", ".g1": "COPPER", ".g12": "COPPER",
       ".gp1": "COPPER", ".gp22": "COPPER", ".gm1": "COPPER", ".gm13": "COPPER", ".gbr": "@", ".grb": "@",
       ".GTL": "COPPER", ".Gto": "SILK", ".GBR": "@", ".txt": None, "": None, ".ger": None, ".gko": None, ".pho": None}
FIRST = ["COPPER", "MASK", "PASTE", "SILK"]
INFER = ["INFER", "INFER_FROM_EXTENSION", "INFER_FROM_ATTRIBUTES"]
# preset of the role of a type in the default colour maps
ROLE = {"COPPER": "COPPER", "MASK": "SOLDER_MASK", "SOLDERMASK": "SOLDER_MASK", "PASTE": "PASTE_MASK", "SILK": "SILK",
        "LEGEND": "SILK", "PROFILE": "SILK"}


def colour_map():
    """A colour of its own for every type."""
    from pygerber.gerber.api import Color, FileTypeEnum, Style

    out = {}
    for n, t in enumerate(FileTypeEnum):
        if t.name not in INFER:
            out[t] = Style(foreground=Color.from_rgba(5 + 6 * n, 250 - 7 * n, 10 + n, 255), background=Color.from_rgba(n, 3, 7, 255))
    return out


def of_function(fn):
    return None if fn is None else {"SOLDERPASTE": "PASTE", "NONPLATED": "NON_PLATED"}.get(fn.upper(), fn.upper())


def expected_type(declared, ext, fn):
    """ext is None for text and buffers."""
    by_attr = of_function(fn) or "UNDEFINED"
    by_ext = None if ext is None else EXT[ext]
    if declared == "INFER_FROM_ATTRIBUTES":
        return by_attr
    if declared == "INFER_FROM_EXTENSION":
        return by_attr if by_ext == "@" else by_ext or "UNDEFINED"
    if declared == "INFER":
        return by_attr if by_ext in ("@", None) else by_ext
    return declared


def type_source(fns):
    tf = "".join(f"%TF.FileFunction,{f}{',L1,Top' if f == 'Copper' else ',Top'}*%" for f in fns)
    return f"{tf}%FSLAX34Y34*%%MOMM*%%ADD10R,1X0.5*%D10*X0Y0D03*X20000Y0D03*M02*"


def make(how, ext, src, declared, tmp):
    from pygerber.gerber.api import FileTypeEnum, GerberFile

    args = [] if declared is None else [FileTypeEnum[declared]]
    if how == "str":
        return GerberFile.from_str(src, *args)
    if how == "buffer":
        return GerberFile.from_buffer(io.StringIO(src), *args)
    path = Path(tmp) / f"file{ext}"
    path.write_text(src, encoding="utf-8")
    return GerberFile.from_file(path if how == "path" else str(path), *args)


def run_types(case):
    from pygerber.gerber.api import FileTypeEnum

    _, how, ext, declared = case
    n, states = 0, []
    cmap = colour_map()
    fsets = [()] + [(f,) for f in FUNCTIONS] + [("Copper", "Legend"), ("Legend", "Paste", "Copper")]
    if declared not in (None, *INFER) or ext not in (None, ".gbr", ".txt", ".gtl"):
        fsets = [(), ("Copper",), ("Legend",)]
    with tempfile.TemporaryDirectory() as tmp:
        for fns in fsets:
            src = type_source(fns)
            fn = fns[-1] if fns else None
            want = expected_type(declared or "INFER", ext, fn)
            f = make(how, ext, src, declared, tmp)
            expect_eq(f.source_code, src, "source of the file")
            f.set_color_map(cmap)
            what = f"{how} {ext} declared {declared} functions {fns}"
            style = cmap[FileTypeEnum[want]]
            got = np.asarray(f.render_with_pillow(dpmm=4).get_image().convert("RGBA"))
            colours = {tuple(int(v) for v in c) for c in got.reshape(-1, 4)}
            expect_eq(colours, {style.foreground.as_rgba_int(), style.background.as_rgba_int()}, f"colours of {want}: {what}")
            buf = io.BytesIO()
            f.render_with_shapely().save(buf)
            expect(style.foreground.to_hex() in buf.getvalue().decode(), f"vector colour of {want}: {what}", style.foreground.to_hex(), buf.getvalue()[:600])
            expect_eq(f.file_type.name, want, f"type: {what}")
            states.append((how, ext, declared, fns, want))
            n += 2
    return Obs(states=states, transitions=n, traces=n, outcome=tuple(states))


def run_tables(_case):
    from pygerber.gerber.api import DEFAULT_ALPHA_COLOR_MAP, DEFAULT_COLOR_MAP, FileTypeEnum, Style

    n = 0
    for ext, want in EXT.items():
        name = {"@": "INFER_FROM_ATTRIBUTES", None: "UNDEFINED"}.get(want, want)
        expect_eq(FileTypeEnum.infer_from_extension(ext).name, name, f"type by extension {ext}")
        n += 1
    for k in range(200):
        for pre in (".g", ".gp", ".gm", ".G", ".GP", ".Gm"):
            expect_eq(FileTypeEnum.infer_from_extension(f"{pre}{k}").name, "COPPER", f"type by extension {pre}{k}")
            n += 1
    for fn in [*FUNCTIONS, "SolderPaste", "Mask", "Silk"]:
        for text in (fn, fn.upper(), fn.lower(), fn + ",L1,Top", fn + ",Bot"):
            expect_eq(FileTypeEnum.infer_from_attributes(text).name, of_function(fn), f"type by function {text}")
            n += 1
    for text in (None, "", "Something", "Unknown,L1"):
        expect_eq(FileTypeEnum.infer_from_attributes(text).name, "UNDEFINED", f"type by function {text}")
        n += 1
    for cmap, suffix in ((DEFAULT_COLOR_MAP, ""), (DEFAULT_ALPHA_COLOR_MAP, "_ALPHA")):
        for t in FileTypeEnum:
            if t.name in INFER:
                continue
            expect(t in cmap, f"default colours of {t.name}")
            if t.name in ROLE:
                expect_eq(cmap[t], getattr(Style.presets, ROLE[t.name] + suffix), f"default colours of {t.name}")
            n += 1
    return Obs(states=[f"table{k}" for k in range(n)], transitions=n, traces=n, outcome="tables")


# ---------------------------------------------------------------- histories
STOP_OBJ = [(True, geom.rect(0.0, 0.0, 3.0, 1.0))]
LATE_OBJ = [(True, geom.circle(0.5, 3.0, 1.5))]
SRC = {
    "copper": ("%TF.FileFunction,Copper,L1,Top*%%FSLAX34Y34*%%MOMM*%%ADD10R,3X1*%%ADD11C,1.5*%D10*X0Y0D03*M02*D11*X5000Y30000D03*M02*",
               "MM", False, "COPPER"),
    "inch": ("%FSLAX36Y36*%%MOIN*%%ADD10R,0.118110236X0.0393700787*%%ADD11C,0.0590551181*%D10*X0Y0D03*M02*D11*X19685Y118110D03*M02*",
             "IN", False, "UNDEFINED"),
    "broken": ("%TF.FileFunction,Legend,Top*%%FSLAX34Y34*%%MOMM*%%ADD10R,3X1*%%ADD11C,1.5*%\n%QQ1*%\nD10*X0Y0D03*M02*D11*X5000Y30000D03*M02*",
               "MM", True, "LEGEND"),
    "silk": ("%TF.FileFunction,Copper,L1,Top*%%FSLAX34Y34*%%MOMM*%%ADD10R,3X1*%%ADD11C,1.5*%D10*X0Y0D03*M02*D11*X5000Y30000D03*M02*",
             "MM", False, "SILK"),
}
OPS = ["p10", "p", "p13s", "v", "vs", "f", "fo", "F", "t", "h", "m1", "m2", "r1", "r0", "i1", "i0"]
OBSERVE = ["p10", "p", "p13s", "v", "vs", "f", "fo", "F", "t", "h"]
CORE = ["p10", "p13s", "v", "f", "m1", "m2", "r1", "r0", "i1", "i0"]
_OK = {}


def styles():
    from pygerber.gerber.api import Color, FileTypeEnum, Style

    S = lambda a, b: Style(foreground=Color.from_hex(a), background=Color.from_hex(b))  # noqa: E731
    m1 = {t: S("#%02x2030" % (100 + 3 * n), "#00000000") for n, t in enumerate(FileTypeEnum)}
    m2 = {t: S("#0040%02x80" % (90 + 2 * n), "#%02x0102ff" % n) for n, t in enumerate(FileTypeEnum)}
    return S("#a1b2c3", "#01020304"), m1, m2


def once(key, data, check):
    """Validate data against the model once; the same bytes need no second look."""
    h = hashlib.blake2b(data, digest_size=16).digest()
    if _OK.get(key) != h:
        check()
        _OK[key] = h


class Session:
    """One file object and the model of its settings."""

    def __init__(self, name, maps):
        from pygerber.gerber.api import DEFAULT_ALPHA_COLOR_MAP, FileTypeEnum, GerberFile

        self.name = name
        self.src, self.unit, self.broken, self.ftype = SRC[name]
        self.own, self.m1, self.m2 = maps
        self.f = GerberFile.from_str(self.src, *([FileTypeEnum.SILK] if name == "silk" else []))
        self.cmap, self.resilient, self.ignore, self.read = DEFAULT_ALPHA_COLOR_MAP, False, False, False
        self.outcome = []

    def state(self):
        return (self.name, self.resilient, self.ignore, "1" if self.cmap is self.m1 else "2" if self.cmap is self.m2 else "d", self.read)

    def step(self, op, what):
        from pygerber.gerber.api import FileTypeEnum
        from pygerber.gerber.formatter import Options, formats
        from pygerber.gerber.parser import parse

        f, name, src, broken, ftype = self.f, self.name, self.src, self.broken, self.ftype
        if op in ("m1", "m2"):
            self.cmap = self.m1 if op == "m1" else self.m2
            expect(f.set_color_map(self.cmap) is f, f"{what} returns the file")
        elif op in ("r1", "r0"):
            self.resilient = op == "r1"
            expect(f.set_parser_options(**({"resilient": True} if self.resilient else {})) is f, f"{what} returns the file")
        elif op in ("i1", "i0"):
            self.ignore = op == "i1"
            expect(f.set_compiler_options(**({"ignore_program_stop": True} if self.ignore else {})) is f, f"{what} returns the file")
        elif op == "t":
            want = {ftype} if name == "silk" or self.read else {ftype, *INFER}
            expect(f.file_type.name in want, what, want, f.file_type.name)
        elif op == "h":
            h = hashlib.sha256(src.encode()).hexdigest()
            expect_eq(f.sha256, h, what)
            expect_eq(f.source_code, src, what)
            expect(h in str(f), what, h, str(f))
        else:
            try:
                res = _observe(f, op, self.own, Options)
            except Exception as e:
                if broken and not self.resilient:
                    self.outcome.append((op, "rejected"))
                    return
                raise Mismatch(f"{what}: {type(e).__name__}: {e}", "a result", src) from e
            expect(not (broken and not self.resilient), f"{what}: malformed file was accepted")
            if op in ("p10", "p", "p13s", "v"):
                self.read = self.read or op != "p13s"
            objs = [STOP_OBJ] + ([LATE_OBJ] if self.ignore else [])
            objects = [(True, o) for o in objs]
            ext = geom.extent(objects)
            st = self.own if op in ("p13s", "vs") else self.cmap[FileTypeEnum[ftype]]
            if op[0] == "p":
                dpmm = {"p10": 10, "p": 20, "p13s": 13}[op]
                img, space = res
                arr = np.asarray(img.convert("RGBA"))
                fg, bg = st.foreground.as_rgba_int(), st.background.as_rgba_int()
                once((name, op, self.ignore, fg, bg), arr.tobytes() + str(arr.shape).encode(),
                     lambda: pixel_check(arr, ext, dpmm, objects, fg, bg, 0, what))
                expect(abs(arr.shape[1] - (ext[2] - ext[0]) * dpmm) <= 1.5 and abs(arr.shape[0] - (ext[3] - ext[1]) * dpmm) <= 1.5,
                       f"{what}: size", ext, arr.shape)
                check_space(space, ext, self.unit, dpmm, what)
            elif op[0] == "v":
                data, space = res
                u = 1.0 if self.unit == "MM" else 25.4
                once((name, op, self.ignore, st.foreground.to_hex()), data,
                     lambda: check_svg(data, objects, tuple(v / u for v in ext), u, st, what))
                check_space(space, ext, self.unit, 0, what)
            else:
                key = ("fmt", name, op, self.resilient)
                if key not in _OK:
                    _OK[key] = formats(parse(src, resilient=self.resilient), _options(op, Options))
                expect_eq(res, _OK[key], what)
            self.outcome.append((op, self.resilient, self.ignore, self.cmap is self.m1))


def run_word(case):
    """Operations on one file, or on two files (op marked with ') and then on a new one."""
    from pygerber.gerber.api import DEFAULT_ALPHA_COLOR_MAP, DEFAULT_COLOR_MAP

    _, name, word = case
    maps = styles()
    shared = [DEFAULT_COLOR_MAP, DEFAULT_ALPHA_COLOR_MAP, *maps[1:]]
    before = [dict(m) for m in shared]
    names = name.split("+")
    files = [Session(n, maps) for n in names]
    states = []
    for k, op in enumerate(word):
        s = files[op.endswith("'")]
        s.step(op.rstrip("'"), f"{name} after {word[:k]}: {op}")
        states.append(tuple(x.state() for x in files))
    if len(files) > 1:
        for n in ("copper", "silk"):
            s = Session(n, maps)
            for op in ("p10", "v", "f"):
                s.step(op, f"new file {n} after {word}: {op}")
    for m, was, what in zip(shared, before, ("DEFAULT_COLOR_MAP", "DEFAULT_ALPHA_COLOR_MAP", "given map 1", "given map 2")):
        expect(m == was, f"{what} changed by {word} on {name}")
    return Obs(states=states, transitions=len(word), traces=1, outcome=tuple(tuple(s.outcome) for s in files))


def _options(op, Options):
    return None if op != "fo" else Options(float_decimal_places=3, d03_indent=2, line_end="\r\n")


def _observe(f, op, own, Options):
    if op[0] == "p":
        img = {"p10": lambda: f.render_with_pillow(dpmm=10), "p": lambda: f.render_with_pillow(),
               "p13s": lambda: f.render_with_pillow(own, dpmm=13)}[op]()
        return img.get_image(), img.get_image_space()
    if op[0] == "v":
        img = f.render_with_shapely(*([own] if op == "vs" else []))
        buf = io.BytesIO()
        img.save(buf)
        return buf.getvalue(), img.get_image_space()
    if op == "F":
        out = io.StringIO()
        f.format(out, None)
        return out.getvalue()
    return f.formats(_options(op, Options))


def run_case(case):
    return {"types": run_types, "tables": run_tables, "word": run_word}[case[0]](case)


def cases(tier):
    yield ["tables"]
    declared = [None, *INFER, *FIRST, "LEGEND", "UNDEFINED", "OTHER", "PROFILE", "SOLDERMASK"]
    for d in declared:
        yield ["types", "str", None, d]
        yield ["types", "buffer", None, d]
        for ext in EXT:
            for how in ("path", "text") if tier == "thorough" or ext in (".gto", ".gbr", ".txt") else ("path",):
                yield ["types", how, ext, d]
    for depth in range(1, 4 + (tier == "thorough")):
        full = depth < 3 or (tier == "thorough" and depth == 3)
        for name in SRC if full else ("copper", "broken"):
            ops = OPS if full else CORE
            for w in itertools.product(ops, repeat=depth):
                if w[-1] in OBSERVE:
                    yield ["word", name, list(w)]
    two = ["m1", "m2'", "r1'", "i1", "i1'", "p10", "p10'", "v", "v'", "f'"]
    for depth in (2, 3) if tier == "quick" else (2, 3, 4):
        for name in ("copper+copper", "copper+broken") if depth < 4 else ("copper+broken",):
            for w in itertools.product(two, repeat=depth):
                yield ["word", name, list(w)]
    for n in range(5, 13 if tier == "quick" else 33):  # long histories
        for step in (1, 3, 5, 7, 11, 13):
            for name in SRC:
                yield ["word", name, [OPS[(n + k * step) % len(OPS)] for k in range(n)]]
    if tier == "quick":  # a setting, a look, another setting, another look
        sets, looks = ["m1", "m2", "r1", "r0", "i1", "i0"], ["p10", "v", "f", "p13s"]
        for name in ("copper", "broken"):
            for w in itertools.product(sets, looks, sets, looks):
                yield ["word", name, list(w)]


def bounds(tier):
    n, c = (3, 4) if tier == "thorough" else (2, 3)
    return (f"all histories of at most {n} of {len(OPS)} settings and observations on {len(SRC)} files and at most {c} of "
            f"{len(CORE)} on two of them, at most {c} of 10 on two files at once and then a new one{'' if tier == 'thorough' else ' (with set, look, set, look)'}; periodic histories of up to {32 if tier == 'thorough' else 12} operations; {len(EXT)} extensions and numbered ones up to 199, {len(FUNCTIONS)} file functions, declared types, text, buffer, path")
