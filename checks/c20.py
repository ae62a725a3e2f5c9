"""C20: command line: every command does what the library does for the same files and options, failures destroy nothing."""

from __future__ import annotations

import io
import itertools
import json
import os
import subprocess
import sys
import tempfile
from pathlib import Path

from checks import c17
from mc.core import REPO_SRC, Mismatch, Obs, expect, expect_eq

PROPERTY = "C20"
BATCH = 6
ASSUMPTIONS = ["commands run inside scratch directories", "pictures themselves are decided by C06 to C16: here only equality with the library"]

PIC = {
    "a.gtl": "%FSLAX34Y34*%%MOMM*%%ADD10R,1X0.5*%D10*X0Y0D03*X20000Y10000D03*M02*",
    "b.gbr": "%TF.FileFunction,Soldermask,Top*%%FSLAX24Y24*%%MOIN*%%ADD10C,0.05*%D10*X100Y200D03*X1000Y200D01*M02*",
    "c.txt": "%TF.FileFunction,Legend,Top*%%FSLAX34Y34*%%MOMM*%%ADD10C,1*%G75*D10*X-10000Y0D02*G03X10000Y0I10000J0D01*M02*",
}
BAD = {"bad.gbr": "%FSLAX34Y34*%%MOMM*%oops D10*", "noap.gbr": "%FSLAX34Y34*%%MOMM*%D77*X0Y0D03*M02*"}
KINDS = {"png": "output.png", "jpeg": "output.jpg", "tiff": "output.tiff", "bmp": "output.bmp", "webp": "output.webp", "svg": "output.svg"}


def write_all(tmp):
    for n, s in {**PIC, **BAD}.items():
        (tmp / n).write_text(s, encoding="utf-8")


class scratch:
    def __enter__(self):
        self.old = os.getcwd()
        self.tmp = tempfile.TemporaryDirectory(prefix="c20-")
        os.chdir(self.tmp.name)
        p = Path(self.tmp.name)
        write_all(p)
        return p

    def __exit__(self, *_):
        os.chdir(self.old)
        self.tmp.cleanup()


def cli(args):
    from click.testing import CliRunner

    from pygerber.console.commands import main

    r = CliRunner().invoke(main, [str(a) for a in args])
    return r.exit_code, r.output, r.exception


def options(kind):
    """name -> list of (arguments, settings)."""
    from pygerber.gerber.api import FileTypeEnum, Style

    out = {"type": [([], {})], "style": [([], {})], "output": [([], {})]}
    for n in FileTypeEnum.__members__:
        out["type"].append((["-t", n], {"type": n}))
        out["type"].append((["--file-type", n.lower()], {"type": n}))
    for n in Style.presets.get_styles():
        out["style"].append((["-s", n], {"style": n}))
        out["style"].append((["--style", n.lower()], {"style": n}))
    out["style"] += [
        (["-s", "CUSTOM", "-f", "#102030", "-b", "C0D0E0"], {"custom": ((16, 32, 48, 255), (192, 208, 224, 255))}),
        (["--style", "custom", "--background", "#01020304", "--foreground", "FFEEDDCC"], {"custom": ((255, 238, 221, 204), (1, 2, 3, 4))}),
    ]
    out["output"].append((["-o", "sub.dir.out"], {"output": "sub.dir.out"}))
    out["output"].append((["--output", "output.gbr"], {"output": "output.gbr"}))
    if kind != "svg":
        out["dpmm"] = [([], {})] + [(["-d", d], {"dpmm": d}) for d in (1, 7, 40)] + [(["--dpmm", 13], {"dpmm": 13})]
    if kind in ("jpeg", "webp"):
        out["quality"] = [([], {}), (["-q", 10], {"quality": 10}), (["--quality", 60], {"quality": 60})]
    if kind == "webp":
        out["lossless"] = [([], {}), (["-l"], {"lossless": True}), (["--lossless"], {"lossless": True})]
    if kind == "tiff":
        out["compression"] = [([], {})] + [(["-c", c], {"compression": c}) for c in ("packbits", "tiff_lzw", "tiff_adobe_deflate")]
        out["compression"].append((["--compression", "lzma"], {"compression": "lzma"}))
        out["compression"].append((["-c", "jpeg"], {"compression": "jpeg"}))
        out["quality"] = [([], {}), (["-q", 10], {"quality": 10}), (["--quality", 60], {"quality": 60})]
    out["implementation"] = [([], {}), (["-i", "shapely" if kind == "svg" else "pillow"], {}), (["-i", "SHAPELY" if kind == "svg" else "Pillow"], {})]
    return out


def style_of(cfg):
    from pygerber.gerber.api import Color, Style

    if "custom" in cfg:
        fg, bg = cfg["custom"]
        return Style(foreground=Color.from_rgba(*fg), background=Color.from_rgba(*bg))
    if "style" in cfg:
        return getattr(Style.presets, cfg["style"])
    return None


def reference(kind, name, cfg):
    from pygerber.gerber.api import FileTypeEnum, GerberFile

    f = GerberFile.from_file(name, file_type=FileTypeEnum[cfg.get("type", "INFER")])
    buf = io.BytesIO()
    if kind == "svg":
        f.render_with_shapely(style_of(cfg)).save(buf)
        return buf.getvalue()
    r = f.render_with_pillow(style_of(cfg), cfg.get("dpmm", 100))
    if kind == "png":
        r.save_png(buf)
    elif kind == "bmp":
        r.save_bmp(buf)
    elif kind == "jpeg":
        r.save_jpeg(buf, quality=cfg.get("quality", 95))
    elif kind == "webp":
        r.save_webp(buf, lossless=cfg.get("lossless", False), quality=cfg.get("quality", 80))
    elif kind == "tiff":
        compression = cfg.get("compression", "lzma")
        r.save_tiff(buf, compression=compression, **({"quality": cfg.get("quality", 95)} if compression == "jpeg" else {}))
    return buf.getvalue()


def same(kind, got, want, what):
    if got == want:
        return
    if kind != "svg":
        import numpy as np
        from PIL import Image

        a, b = Image.open(io.BytesIO(got)), Image.open(io.BytesIO(want))
        expect_eq((a.format, a.size), (b.format, b.size), f"image: {what}")
        if np.array_equal(np.asarray(a.convert("RGBA")), np.asarray(b.convert("RGBA"))) and kind not in ("jpeg", "webp", "tiff"):
            return
    raise Mismatch(f"file written differs from the library: {what}", len(want), len(got))


def run_convert(case):
    """case: kind, fixed option name+index, varied option name: all its values x sources."""
    _, kind, fixed, vary = case
    opts = options(kind)
    n = 0
    with scratch() as tmp:
        for args_v, cfg_v in opts[vary]:
            if fixed is None:
                args, cfg = list(args_v), dict(cfg_v)
            else:
                a, c = opts[fixed[0]][fixed[1]]
                args, cfg = [*a, *args_v], {**c, **cfg_v}
            if "dpmm" not in cfg and kind != "svg" and vary != "dpmm":
                args, cfg = [*args, "-d", 9], {**cfg, "dpmm": 9}
            for i, name in enumerate(PIC):
                if fixed is not None and i != (n % len(PIC)):
                    continue
                order = [[name, *args], [*args, name]][n % 2]
                out = tmp / cfg.get("output", KINDS[kind])
                before = {p.name for p in tmp.iterdir()}
                code, text, exc = cli(["gerber", "convert", kind, *order])
                what = f"convert {kind} {name} {args}"
                expect_eq((code, repr(exc)), (0, "None"), f"{what}: exit code")
                expect(out.exists(), f"{what}: nothing written to {out.name}")
                expect_eq({p.name for p in tmp.iterdir()} - before, {out.name} - before, f"{what}: files written")
                same(kind, out.read_bytes(), reference(kind, name, cfg), what)
                expect_eq((tmp / name).read_text(encoding="utf-8"), PIC[name], f"{what}: source file")
                out.unlink()
                n += 1
    return Obs(states=[(kind, vary, str(fixed))], transitions=n, traces=n, outcome=kind)


def run_number(case):
    """Every value of a numeric option."""
    _, kind, what, lo, size = case
    n = 0
    with scratch() as tmp:
        for k in range(lo, lo + size):
            name = list(PIC)[k % len(PIC)]
            cfg = {what: k, **({"dpmm": 9} if what != "dpmm" else {})}
            args = [name, "-d", cfg["dpmm"], *(["-q", k] if what == "quality" else [])]
            code, _text, exc = cli(["gerber", "convert", kind, *args])
            expect_eq((code, repr(exc)), (0, "None"), f"convert {kind} {args}: exit code")
            same(kind, (tmp / KINDS[kind]).read_bytes(), reference(kind, name, cfg), f"convert {kind} {args}")
            n += 1
    return Obs(states=[(kind, what, lo + k) for k in range(n)], transitions=n, traces=n, outcome=(kind, what))


# on these the options make a difference
RICH = ("%FSLAX34Y34*%%MOMM*%%AMm*$2=$1+1x2*1,1,$2,0.123456,0*4,1,3,0,0,1,0,1,1,0,0,0*%%ADD10C,0.50000*%%ADD11m,0.25*%%ABD12*%D10*X0Y0D03*%AB*%"
        "G54D10*G55X0Y0D03*G01X1Y1D01*%LPC*%X5Y5D02*%SRX2Y2I1J1*%X7Y7D03*%SR*%%LPD*%M02*")


def format_options():
    """No option, every option at several values, and all of them at once."""
    import enum
    import typing

    from pygerber.gerber import formatter

    out = [None, {}]
    several = {}
    for name, f in formatter.Options.model_fields.items():
        t = f.annotation
        if isinstance(t, type) and issubclass(t, enum.Enum):
            vals = [m.value for m in t]
        elif typing.get_origin(t) is typing.Literal:
            vals = list(typing.get_args(t))
        elif t is int:
            vals = [2, 4]
        else:
            vals = [3, "  "]
        for v in vals:
            try:
                formatter.Options(**{name: v})
            except ValueError:
                continue
            out.append({name: v})
            several[name] = v
    return [*out, several]


def run_format(case):
    from pygerber.gerber import formatter
    from pygerber.gerber.api import GerberFile

    _, how, inplace = case
    n = 0
    with scratch() as tmp:
        for opt in format_options():
            for name, src in {"rich.gbr": RICH, **(PIC if opt is None else {})}.items():
                write_all(tmp)
                (tmp / "rich.gbr").write_text(RICH, encoding="utf-8")
                args = [name]
                if opt is not None:
                    if how == "inline":
                        args += ["-i", json.dumps(opt)]
                    elif how == "inline-long":
                        args = ["--inline-config", json.dumps(opt), *args]
                    else:
                        (tmp / "cfg.json").write_text(json.dumps(opt), encoding="utf-8")
                        args += ["-c" if how == "config" else "--config", "cfg.json"]
                out = {"default": "output.gbr", "inplace": name, "other": "x.y"}[inplace]
                if inplace != "default":
                    args += ["-o", out]
                code, text, exc = cli(["gerber", "format", *args])
                what = f"format {args}"
                expect_eq((code, repr(exc)), (0, "None"), f"{what}: exit code")
                want = GerberFile.from_str(src).formats(None if opt is None else formatter.Options(**opt))
                with (tmp / out).open(newline="") as f:
                    got = f.read()
                expect_eq(got, want, f"{what}: formatted code")
                if out != name:
                    expect_eq((tmp / name).read_text(encoding="utf-8"), src, f"{what}: source")
                    (tmp / out).unlink()
                n += 1
    return Obs(states=[(how, inplace)], transitions=n, traces=n, outcome="format")


def run_merge(case):
    from pygerber.gerber.api import CompositeView, FileTypeEnum, GerberFile

    _, kind, names = case
    n = 0
    with scratch() as tmp:
        for ftype, dpmm, outname in (("INFER", 8, None), ("COPPER", 5, "o.img"), ("paste", 8, None)):
            args = list(names) + ["-d", dpmm]
            if ftype != "INFER":
                args += ["-t", ftype]
            if outname:
                args = ["-o", outname, *args]
            out = tmp / (outname or KINDS[kind])
            code, text, exc = cli(["gerber", "merge-convert", kind, *args])
            what = f"merge-convert {kind} {args}"
            expect_eq((code, repr(exc)), (0, "None"), f"{what}: exit code")
            view = CompositeView(GerberFile.from_file(x, file_type=FileTypeEnum[ftype.upper()]) for x in names)
            buf = io.BytesIO()
            getattr(view.render_with_pillow(dpmm), f"save_{kind}")(buf)
            same(kind, out.read_bytes(), buf.getvalue(), what)
            out.unlink()
            n += 1
    return Obs(states=[(kind, tuple(names))], transitions=n, traces=n, outcome="merge")


LINT_WORDS = [["54d"], ["1", "1"], ["55f", "n", "2", "2d"], ["d"], ["1", "n", "n", "s", "54d", "1"]]
LINT_RULES = [[], ["-r", "DEP001"], ["-r", "DEP001,GRB001"], ["--rules", "GRB001", "-r", "DEP002"], ["-r", "DEP002,DEP001,GRB001"]]


def run_lint(case):
    _, picks = case
    n = 0
    with scratch() as tmp:
        built = {}
        for i, w in enumerate(LINT_WORDS):
            text, marks = c17.build(w)
            (tmp / f"l{i}.gbr").write_text(text, newline="", encoding="utf-8")
            built[i] = (text, c17.model(marks))
        for rules in LINT_RULES:
            chosen = {r for a in rules if not a.startswith("-") for r in a.split(",")}
            names = [f"l{i}.gbr" for i in picks]
            for args in ([*names, *rules], [*rules, *names]):
                code, text, exc = cli(["gerber", "lint", *args])
                expect_eq((code, repr(exc)), (0, "None"), f"lint {args}: exit code")
                want = []
                for i in picks:
                    src, marks = built[i]
                    for rule, off, _code in marks:
                        if not chosen or rule in chosen:
                            line, col = c17.position(src, off)
                            want.append(((tmp / f"l{i}.gbr").resolve().as_posix(), line, col, rule))
                got = []
                for ln in text.splitlines():
                    loc, rest = ln.split(" ", 1)
                    path, line, col = loc.rsplit(":", 2)
                    got.append((path, int(line), int(col), rest.split(":")[0]))
                expect_eq(got, want, f"lint {args}: report")
                n += 1
    return Obs(states=[tuple(picks)], transitions=n, traces=n, outcome="lint")


def failures():
    for kind in KINDS:
        for bad in (*BAD, "missing.gbr"):
            yield ["gerber", "convert", kind, bad], KINDS[kind]
        yield ["gerber", "convert", kind, "a.gtl", "-s", "CUSTOM"], KINDS[kind]
        yield ["gerber", "convert", kind, "a.gtl", "-s", "CUSTOM", "-f", "#000000"], KINDS[kind]
        yield ["gerber", "convert", kind, "a.gtl", "-s", "CUSTOM", "-b", "#000000"], KINDS[kind]
        yield ["gerber", "convert", kind, "a.gtl", "-s", "CUSTOM", "-b", "#00000", "-f", "#000000"], KINDS[kind]
        yield ["gerber", "convert", kind, "a.gtl", "-s", "CUSTOM", "-b", "#000000", "-f", "red"], KINDS[kind]
        yield ["gerber", "convert", kind, "a.gtl", "-s", "NOSUCH"], KINDS[kind]
        yield ["gerber", "convert", kind, "a.gtl", "-t", "NOSUCH"], KINDS[kind]
        yield ["gerber", "convert", kind, "a.gtl", "-i", "nosuch"], KINDS[kind]
        yield ["gerber", "convert", kind], KINDS[kind]
    yield ["gerber", "format", "bad.gbr"], "output.gbr"
    yield ["gerber", "format", "missing.gbr"], "output.gbr"
    yield ["gerber", "format", "bad.gbr", "-o", "bad.gbr"], "bad.gbr"
    yield ["gerber", "format", "bad.gbr", "-o", "a.gtl"], "a.gtl"
    yield ["gerber", "format", "a.gtl", "-o", "a.gtl", "-i", "{"], "a.gtl"
    yield ["gerber", "format", "a.gtl", "-o", "a.gtl", "-i", "[]"], "a.gtl"
    yield ["gerber", "format", "a.gtl", "-o", "a.gtl", "-c", "missing.json"], "a.gtl"
    yield ["gerber", "format", "a.gtl", "-o", "a.gtl", "-c", "b.gbr"], "a.gtl"
    yield ["gerber", "format", "a.gtl", "-o", "a.gtl", "-c", "c.json", "-i", "{}"], "a.gtl"
    yield ["gerber", "format", "a.gtl", "-o", "a.gtl", "-i", '{"float_decimal_places": "x"}'], "a.gtl"
    for kind in ("png", "jpeg"):
        for names in (["a.gtl", "bad.gbr"], ["bad.gbr", "a.gtl"], ["a.gtl", "missing.gbr"], ["noap.gbr", "a.gtl"]):
            yield ["gerber", "merge-convert", kind, *names], KINDS[kind]
    # pictures which the encoding cannot hold
    for c in ("group3", "group4", "tiff_ccitt", "tiff_raw_16", "tiff_sgilog", "tiff_thunderscan"):
        yield ["gerber", "convert", "tiff", "a.gtl", "-d", "5", "-c", c], KINDS["tiff"]
    yield ["gerber", "convert", "webp", "long.gbr", "-d", "100"], KINDS["webp"]
    yield ["gerber", "convert", "jpeg", "long.gbr", "-d", "400"], KINDS["jpeg"]
    yield ["gerber", "merge-convert", "jpeg", "long.gbr", "a.gtl", "-d", "400"], KINDS["jpeg"]
    yield ["gerber", "lint"], "output.gbr"
    yield ["gerber", "lint", "missing.gbr"], "output.gbr"
    yield ["gerber", "lint", "a.gtl", "-r", "NOSUCH"], "output.gbr"
    yield ["gerber", "lint", "bad.gbr"], "output.gbr"
    yield ["gerber", "nosuch"], "output.gbr"


LONG = "%FSLAX34Y34*%%MOMM*%%ADD10C,0.1*%D10*X0Y0D02*X1700000Y0D01*M02*"


def run_failure(case):
    _, args, out, existing = case
    with scratch() as tmp:
        (tmp / "c.json").write_text("{}", encoding="utf-8")
        (tmp / "long.gbr").write_text(LONG, encoding="utf-8")
        if existing and not (tmp / out).exists():
            (tmp / out).write_text("precious", encoding="utf-8")
        before = {p.name: p.read_bytes() for p in tmp.iterdir()}
        code, text, exc = cli(args)
        expect(code != 0, f"{args}: failure is not reported", "exit code other than 0", (code, text[:200]))
        after = {p.name: p.read_bytes() for p in tmp.iterdir()}
        for name, data in before.items():
            expect(after.get(name) == data, f"{args}: failing command altered {name}", data[:80], (after.get(name) or b"<gone>")[:80])
    return Obs(states=[tuple(args)], transitions=1, traces=1, outcome="failure")


def run_misc(_case):
    from pygerber.gerber.linter.rules import RULE_REGISTRY

    code, text, _ = cli(["gerber", "list-lint-rules", "-q"])
    expect_eq((code, text.split()), (0, list(RULE_REGISTRY)), "list of rules")
    code, text, _ = cli(["gerber", "list-lint-rules"])
    expect_eq([ln.split(":")[0] for ln in text.splitlines()], list(RULE_REGISTRY), "list of rules")
    import pygerber
    from pygerber.gerber.language_server.status import is_language_server_available

    code, text, _ = cli(["--version"])
    expect(code == 0 and pygerber.__version__ in text, "version", pygerber.__version__, text)
    code, text, _ = cli(["is-language-server-available"])
    expect_eq((code, "not available" in text), (0, not is_language_server_available()), "language server is reported")
    env = {**os.environ, "PYTHONPATH": str(REPO_SRC), "PYTHONDONTWRITEBYTECODE": "1"}
    with scratch() as tmp:
        r = subprocess.run([sys.executable, "-m", "pygerber", "gerber", "convert", "png", "a.gtl", "-d", "7"], cwd=tmp, env=env, capture_output=True, check=False)
        expect_eq(r.returncode, 0, f"module entry point: {r.stderr[-300:]}")
        same("png", (tmp / "output.png").read_bytes(), reference("png", "a.gtl", {"dpmm": 7}), "module entry point")
        r = subprocess.run([sys.executable, "-m", "pygerber", "gerber", "convert", "png", "bad.gbr"], cwd=tmp, env=env, capture_output=True, check=False)
        expect(r.returncode != 0, "module entry point reports failure", "not 0", r.returncode)
    return Obs(states=["misc"], transitions=4, traces=4, outcome="misc")


LOCALES = {"utf-8": {"LC_ALL": "C.UTF-8", "PYTHONUTF8": "0"}, "ascii": {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
           "utf-8 mode": {"LC_ALL": "C", "PYTHONUTF8": "1"}}
LETTERS = ["plain", "caf\u00e9", "\u6f22\u5b57 \u00b5m", "\U0001f600"]


def run_locale(case):
    """Texts are UTF-8 whatever the locale of the process."""
    from pygerber.gerber.api import GerberFile

    _, locale, letters, command = case
    env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHONIOENC"))}
    env.update(PYTHONPATH=str(REPO_SRC), PYTHONDONTWRITEBYTECODE="1", **LOCALES[locale])
    src = f"G04 {LETTERS[letters]}*\n%TFx,{LETTERS[letters]}*%\n" + PIC["a.gtl"].replace("D10*X0", "G54D10*X0")
    with scratch() as tmp:
        (tmp / "t.gbr").write_text(src, encoding="utf-8")
        (tmp / "o.opts.json").write_text('{"empty_line_before_polarity_switch": true}', encoding="utf-8")

        def run(*args):
            r = subprocess.run([sys.executable, "-m", "pygerber", "gerber", *args], cwd=tmp, env=env, capture_output=True, check=False)
            expect_eq(r.returncode, 0, f"{args} in locale {locale}: {r.stderr[-300:]}")
            return r.stdout

        if command == "format":
            for args in ((), ("-o", "t.gbr")):
                before = GerberFile.from_str((tmp / "t.gbr").read_text(encoding="utf-8")).formats(None)
                run("format", "t.gbr", *args)
                expect_eq((tmp / (args[1] if args else "output.gbr")).read_bytes(), before.encode("utf-8"), f"formatted file in locale {locale}")
        elif command == "lint":
            out = run("lint", "t.gbr")
            expect_eq(len(out.splitlines()), 1, f"reports in locale {locale}")
        else:
            run("convert", command, "t.gbr", *(("-d", "5") if command == "png" else ()))
            same(command, (tmp / KINDS[command]).read_bytes(), reference(command, "t.gbr", {"dpmm": 5}), f"locale {locale}")
    return Obs(states=[str(case)], transitions=2, traces=1, outcome=f"locale:{command}")


def run_case(case):
    return {"locale": run_locale, "convert": run_convert, "format": run_format, "merge": run_merge, "lint": run_lint, "failure": run_failure,
            "number": run_number, "misc": run_misc}[case[0]](case)


def cases(tier):
    yield ["misc"]
    for locale in LOCALES:
        for letters in range(len(LETTERS)):
            for command in ("format", "lint", "png", "svg"):
                yield ["locale", locale, letters, command]
    for kind in KINDS:
        opts = options(kind)
        for name in opts:
            yield ["convert", kind, None, name]
        for a, b in itertools.combinations(opts, 2):
            small, large = sorted((a, b), key=lambda x: len(opts[x]))
            if tier == "quick" and (len(opts[small]) > 6 or (kind not in ("png", "svg") and len(opts[large]) > 6)):
                continue
            for i in range(1, len(opts[small])):
                yield ["convert", kind, [small, i], large]
    for how in ("inline", "inline-long", "config", "config-long"):
        for inplace in ("default", "inplace", "other"):
            yield ["format", how, inplace]
    names = list(PIC)
    for k in (1, 2, 3):
        for kind in ("png", "jpeg"):
            for pick in itertools.product(names, repeat=k):
                yield ["merge", kind, list(pick)]
    for k in range(4, 9 if tier == "quick" else 17):
        for kind in ("png", "jpeg"):
            yield ["merge", kind, [names[(k + i * (1 + k % 2)) % len(names)] for i in range(k)]]
        yield ["lint", [(k + i * 2) % len(LINT_WORDS) for i in range(k)]]
    for kind in KINDS:
        for n in range(1, 41 if tier == "quick" else 101, 5):
            if kind != "svg":
                yield ["number", kind, "dpmm", n, 5]
            if kind in ("jpeg", "webp"):
                yield ["number", kind, "quality", n, 5]
    for k in (1, 2) if tier == "quick" else (1, 2, 3):
        for pick in itertools.product(range(len(LINT_WORDS)), repeat=k):
            yield ["lint", list(pick)]
    for args, out in failures():
        for existing in (True, False):
            yield ["failure", args, out, existing]


def bounds(tier):
    return ("every command; every value of every option, all pairs of values of different options"
            + ("" if tier == "thorough" else " (png and svg; other encodings: options other than type and style; types x styles only in thorough)")
            + f"; resolutions and qualities up to {40 if tier == 'quick' else 100}; every option of formatting at every kind of value"
            + f"; all stacks of at most 3 files and periodic ones of up to {8 if tier == 'quick' else 16}; all lists of at most "
            + ("2" if tier == "quick" else "3") + " of 5 files to lint x 5 rule selections; every failure with and without existing output; 4 commands x 3 locales x 4 sets of letters in separate processes")
