"""C14: drawing programs: builder histories, serialised form, determinism."""

from __future__ import annotations

import contextlib
import hashlib
import itertools
import json
import os
import subprocess
import sys

import numpy as np

from checks.c10 import extent, paint
from mc import geom, impl, oracle
from mc.core import REPO_SRC, Mismatch, Obs, expect, expect_eq

PROPERTY = "C14"
BATCH = 20
ASSUMPTIONS = ["points closer than 0.03 to an outline are not decided", "sized layers contain what is drawn on them",
               "hash randomisation of the interpreter is the only source of scheduling freedom of a single process"]

# token -> list of model items and builder call
SHAPES = {
    "c": ([(True, geom.circle(0.5, 0.25, 1.4))], lambda b: b.circle((0.5, 0.25), 1.4, is_negative=False)),
    "r-": ([(False, geom.rect(0.25, 0.0, 0.8, 2.2))], lambda b: b.rectangle((0.25, 0.0), 0.8, 2.2, is_negative=True)),
    "r": ([(True, geom.rect(0.0, 0.5, 2.6, 1.2))], lambda b: b.rectangle((0.0, 0.5), 2.6, 1.2, is_negative=False)),
    "o": ([(True, geom.obround(-0.5, 0.0, 0.7, 2.0))], lambda b: b.obround((-0.5, 0.0), 0.7, 2.0, is_negative=False)),
    "o-": ([(False, geom.obround(0.5, 0.5, 2.0, 0.6))], lambda b: b.obround((0.5, 0.5), 2.0, 0.6, is_negative=True)),
    "p": ([(True, geom.regular(0.75, -0.5, 1.6, 3, 20))], lambda b: b.polygon((0.75, -0.5), 1.6, 3, 20, is_negative=False)),
    "p-": ([(False, geom.regular(0.0, 0.5, 1.2, 5, 10))], lambda b: b.polygon((0.0, 0.5), 1.2, 5, 10, is_negative=True)),
    "l": ([(True, geom.butt_line(-1.5, -1.0, 1.0, 0.5, 0.5))], lambda b: b.line((-1.5, -1.0), (1.0, 0.5), 0.5, is_negative=False)),
    "l-": ([(False, geom.butt_line(-1.0, 1.0, 1.5, 0.0, 0.4))], lambda b: b.line((-1.0, 1.0), (1.5, 0.0), 0.4, is_negative=True)),
    "+": ([(True, geom.rect(0.5, 0.0, 2.0, 0.5)), (True, geom.rect(0.5, 0.0, 0.5, 1.5))],
          lambda b: b.cross((0.5, 0.0), 2.0, 1.5, 0.5, is_negative=False)),
    "+-": ([(False, geom.rect(0.0, 0.0, 1.0, 0.4)), (False, geom.rect(0.0, 0.0, 0.4, 2.0))],
           lambda b: b.cross((0.0, 0.0), 1.0, 2.0, 0.4, is_negative=True)),
    "x": ([(True, geom.butt_line(0.75, 1.0, -0.75, -0.5, 0.4)), (True, geom.butt_line(-0.75, 1.0, 0.75, -0.5, 0.4))],
          lambda b: b.x((0.0, 0.25), 1.5, 0.4, is_negative=False)),
    "x-": ([(False, geom.butt_line(1.0, 0.5, 0.0, -0.5, 0.3)), (False, geom.butt_line(0.0, 0.5, 1.0, -0.5, 0.3))],
           lambda b: b.x((0.5, 0.0), 1.0, 0.3, is_negative=True)),
}
BOX = (-8.0, -8.0, 12.0, 8.0)
ORIGIN = (0.75, -0.5)
OPEN = ("[", "[b", "[o", "[x")  # plain, with box and origin, with origin only, with box only


def execute(word, main_box):
    """Drive a builder through the word; returns (rvmc, model content)."""
    from pygerber.builder.rvmc import LockedBuilderError, RvmcBuilder
    from pygerber.vm.types import Box

    box = Box(min_x=BOX[0], min_y=BOX[1], max_x=BOX[2], max_y=BOX[3])
    rb = RvmcBuilder()
    with contextlib.ExitStack() as outer:
        main = outer.enter_context(rb.layer(box=box if main_box else None))
        stack = [(main, [], (0.0, 0.0), None)]
        finished = []
        n = 0
        for t in word:
            b, content, _, _ = stack[-1]
            if t in SHAPES:
                SHAPES[t][1](b)
                content += [("shape", d, p) for d, p in SHAPES[t][0]]
            elif t in OPEN:
                cm = contextlib.ExitStack()
                n += 1
                org = ORIGIN if t in ("[b", "[o") else (0.0, 0.0)
                child = cm.enter_context(b.layer(f"L{n}", box if t in ("[b", "[x") else None, org if t in ("[b", "[o") else None))
                stack.append((child, [], org, cm))
            elif t == "]":
                if len(stack) == 1:
                    return None
                child, sub, org, cm = stack.pop()
                cm.close()
                finished.append((child, sub, org))
            elif t in ("P", "N", "Q"):
                if not finished:
                    return None
                src, sub, org = finished[0 if t == "Q" else -1]
                at = {"P": (2.0, 0.75), "N": (0.5, 0.25), "Q": (-1.0, -0.5)}[t]
                b.paste(src, at, is_negative=t == "N")
                content.append(("paste", (org, list(sub)), at[0], at[1], t == "N"))
            elif t == "late":
                if not finished:
                    return None
                for k, f in enumerate([*(s[1] for s in SHAPES.values()), lambda q: q.paste(q, (0, 0), is_negative=False),
                                       lambda q: q.layer("zz").__enter__()]):
                    try:
                        f(finished[-1][0])
                    except RuntimeError:
                        continue
                    raise Mismatch(f"finished layer accepted call {k}", "RuntimeError", word)
            elif t == "dbl":
                if len(stack) < 2:
                    return None
                try:
                    stack[-2][0].layer("zz").__enter__()
                except RuntimeError:
                    continue
                raise Mismatch("layer with an open child accepted another child", "RuntimeError", word)
            elif t == "^":
                if len(stack) < 2:
                    return None
                pb, pc, _, _ = stack[-2]
                SHAPES["c"][1](pb)
                pc += [("shape", d, p) for d, p in SHAPES["c"][0]]
        if len(stack) != 1:
            return None
        content = stack[0][1]
    rvmc = rb.get_rvmc()
    try:
        rb.layer().__enter__()
    except LockedBuilderError:
        pass
    else:
        raise Mismatch("builder accepted a layer after its program was taken", "LockedBuilderError", word)
    return rvmc, content


def prune(content):
    """Copies of layers without content add nothing."""
    out = []
    for i in content:
        if i[0] == "paste":
            sub = prune(i[1][1])
            if sub:
                out.append(("paste", (i[1][0], sub), *i[2:]))
        else:
            out.append(i)
    return out


def probes(ext):
    x = np.linspace(ext[0] - 0.3, ext[2] + 0.3, 30)
    y = np.linspace(ext[1] - 0.3, ext[3] + 0.3, 26)
    return np.array([(a + 0.013, b + 0.007) for a in x for b in y])


def decode(d):
    """Rebuild a command from its serialised form, independently of the package."""
    from pygerber.vm import commands as C
    from pygerber.vm import types as T

    if isinstance(d, list):
        return [decode(v) for v in d]
    if not isinstance(d, dict) or "__class_qualname__" not in d:
        return d
    name = d["__class_qualname__"]
    cls = getattr(C, name, None) or getattr(T, name)
    return cls(**{k: decode(v) for k, v in d.items() if k != "__class_qualname__" and k in cls.model_fields})


def same(a, b):
    """Structural comparison of pydantic trees (fields only)."""
    if type(a) is not type(b):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b
    if hasattr(type(a), "model_fields"):
        return all(same(getattr(a, f), getattr(b, f)) for f in type(a).model_fields)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def check_json(rvmc, what):
    text = rvmc.to_json()
    data = json.loads(text)
    expect_eq(len(data["commands"]), len(rvmc.commands), f"{what}: serialised commands")
    expect_eq(data["metadata"], rvmc.metadata, f"{what}: serialised metadata")
    for d, c in zip(data["commands"], rvmc.commands):
        back = decode(d)
        expect(same(back, c), f"{what}: serialised command", c, d)
    expect_eq(rvmc.to_json(), text, f"{what}: serialising twice")
    return text


def run_word(case):
    _, main_box, word = case
    out = execute(word, main_box)
    if out is None:
        return Obs(states=[], transitions=0, traces=0)
    rvmc, content = out
    content = prune(content)
    ext = extent(content)
    res = impl.run_shapely(rvmc)
    sk = 0
    sig = b""
    if ext is None:
        expect(res.shape.is_empty, "picture of nothing", None, res.shape.wkt)
    else:
        P = probes(ext)
        inside, margin = paint(content, P)
        got = oracle.shapely_contains(res, P)
        bad = (got != inside) & (margin > oracle.SHAPELY_TOL)
        sk = int((margin <= oracle.SHAPELY_TOL).sum())
        if bad.any():
            k = int(np.argmax(bad))
            raise Mismatch(f"point {P[k].round(3).tolist()} is {'dark' if got[k] else 'clear'} after {word}",
                           "dark" if inside[k] else "clear", f"{bad.sum()} probes wrong")
        sig = hashlib.md5(got.tobytes()).digest()
    check_json(rvmc, f"{word}")
    return Obs(states=[repr(content)], transitions=len(word), traces=1, outcome=sig, skipped=sk)


HEAD = "%FSLAX34Y34*%%MOMM*%%TF.Part,Single*%%TF.FileFunction,Copper,L1,Top*%G75*"
MAC = "%AMMA*21,1,$1,0.5,0,0,30*7,0,0,2,1,0.3,15*1,0,0.3,0.5,0*%%AMMB*6,0,0,3,0.2,0.2,3,0.1,3,20*4,1,3,0,0,1,0,1,1,0,0,0*%"
ADS = "".join(f"%ADD{10 + k}C,{0.1 * (k + 1):.1f}*%" for k in range(12)) + "%ADD30MA,1.5*%%ADD31MB*%%ADD32R,1X2X0.3*%%ADD33O,1X2*%%ADD34P,2X5X10*%"
BLOCK = ("%ABD40*%D30*X0Y0D03*D32*X20000Y0D03*%LPC*%D12*X20000Y0D03*%LPD*%%AB*%"
         "%ABD41*%D40*X0Y0D03*%LR90*%X50000Y0D03*%LR0*%D31*X0Y50000D03*%AB*%")
BODY = "".join(f"D{10 + k}*X{k}0000Y{k}0000D03*" for k in range(12))
SOURCES = {
    "flashes": HEAD + MAC + ADS + BODY + "D30*X0Y0D03*D31*X90000Y0D03*%LR45*%D30*X0Y90000D03*%LMX*%X5Y5D03*",
    "blocks": HEAD + MAC + ADS + BLOCK + "D41*X0Y0D03*%LS0.5*%D41*X100000Y0D03*%LMY*%%LR30*%D40*X0Y200000D03*D41*X1Y1D03*",
    "sr": HEAD + MAC + ADS + BLOCK + "%SRX2Y3I5J6*%D40*X0Y0D03*D33*X10000Y0D03*D34*X0Y10000D03*%SR*%" + BODY,
    "draws": HEAD + MAC + ADS + "D12*X0Y0D02*G01*X50000Y0D01*G02*X70000Y20000I0J20000D01*G36*X0Y0D02*G01*X10000Y0D01*X10000Y10000D01*X0Y0D01*G37*" + BODY,
    "attrs": HEAD + "%TA.AperFunction,ViaPad*%%TAUser,1,2*%" + MAC + ADS + "%TO.N,Net1*%%TO.C,R1*%%TO.P,U1,2*%" + BODY + "%TD.N*%" + BODY,
}


def trace_of(name):
    """Everything derived from one source in one process."""
    from pygerber.gerber.compiler.compiler import Compiler
    from pygerber.gerber.formatter import Formatter
    from pygerber.vm import render

    src = SOURCES[name] + "M02*"
    ast = impl.parse(src)
    plain = impl.compile_ast(ast)
    meta = Compiler(include_metadata=True).compile(impl.parse(src))
    img = render(plain, backend="pillow", dpmm=5)
    vec = render(plain, backend="shapely")
    parts = [plain.to_json(), meta.to_json(), Formatter().formats(ast), img.get_image().tobytes().hex(), vec.shape.wkt,
             ast.model_dump_json(serialize_as_any=True)]
    return [hashlib.sha256(p.encode()).hexdigest() for p in parts]


def run_hash(case):
    _, name, seeds = case
    want = None
    n = 0
    for seed in seeds:
        env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=f"{REPO_SRC}:{os.path.dirname(os.path.dirname(__file__))}")
        r = subprocess.run([sys.executable, "-c", f"from checks.c14 import trace_of; import json; print(json.dumps(trace_of({name!r})))"],
                           env=env, capture_output=True, text=True, timeout=50)
        expect(r.returncode == 0, "process failed", None, r.stderr[-1500:])
        got = json.loads(r.stdout.strip().splitlines()[-1])
        want = want or got
        for what, a, b in zip(("program", "program with metadata", "formatted text", "raster", "vector", "tree"), want, got):
            expect_eq(b, a, f"{what} of {name} depends on hash seed ({seeds[0]} and {seed})")
        n += 1
    expect_eq(trace_of(name), want, f"results of {name} differ between processes")
    return Obs(states=[f"{name}{s}" for s in seeds], transitions=n, traces=n, outcome=want[0])


def run_programs(case):
    """Serialised form of compiled programs."""
    from pygerber.gerber.compiler.compiler import Compiler

    n = 0
    for name, src in SOURCES.items():
        for meta in (False, True):
            ast = impl.parse(src + "M02*")
            before = ast.model_dump_json(serialize_as_any=True)
            a = Compiler(include_metadata=meta).compile(ast)
            text = check_json(a, name)
            b = Compiler(include_metadata=meta).compile(ast)
            expect_eq(b.to_json(), text, f"compiling {name} twice")
            expect_eq(ast.model_dump_json(serialize_as_any=True), before, f"compiling changed the tree of {name}")
            for backend, opt in (("shapely", {}), ("pillow", {"dpmm": 5})):
                from pygerber.vm import render

                one, two = render(a, backend=backend, **opt), render(a, backend=backend, **opt)
                expect_eq(a.to_json(), text, "running a program changed it")
                if backend == "shapely":
                    expect(one.shape.equals_exact(two.shape, 0), f"running {name} twice")
                else:
                    expect(one.get_image().tobytes() == two.get_image().tobytes(), f"running {name} twice")
                n += 2
    return Obs(states=list(SOURCES), transitions=n, traces=n, outcome="programs")


def run_frozen(_case):
    """No field of a command, or of what it is made of, can be assigned."""
    from pygerber.vm import commands as C
    from pygerber.vm import types as T

    box = T.Box(min_x=0, min_y=0, max_x=1, max_y=1)
    v = T.Vector(x=1.0, y=2.0)
    lid = T.LayerID(id="a")
    things = [box, v, lid, T.Color.from_rgba(1, 2, 3), T.Style.presets.COPPER, C.Line(start=v, end=v), C.Arc(start=v, end=v, center=v, clockwise=True),
              C.Shape.new_rectangle((0, 0), 1, 2, is_negative=False), C.PasteLayer(source_layer_id=lid, center=v, is_negative=False),
              C.StartLayer(id=lid), C.StartLayer(id=lid, box=box, origin=v), C.EndLayer()]
    n = 0
    for t in things:
        before = repr(t)
        for f in type(t).model_fields:
            try:
                setattr(t, f, getattr(t, f))
            except (ValueError, TypeError, AttributeError):
                n += 1
                continue
            raise Mismatch(f"{f} of {type(t).__name__} can be assigned", "an error", before)
        expect_eq(repr(t), before, "refused assignment changed the object")
    return Obs(states=[type(t).__name__ for t in things], transitions=n, traces=n, outcome="frozen")


def run_case(case):
    return {"frozen": run_frozen, "word": run_word, "hash": run_hash, "programs": run_programs}[case[0]](case)


def many(kind, n):
    names = list(SHAPES)
    if kind == "shapes":
        return [names[(k * 5) % len(names)] for k in range(n)]
    if kind == "nested":
        return [*[OPEN[k % 4] for k in range(n)], "c", *[t for k in range(n) for t in ("]", "P" if k % 2 else "l")]]
    if kind == "layers":
        return [t for k in range(n) for t in (OPEN[k % 3], "r", "p", "]", "P", "c")]
    if kind == "copies":
        return ["[o", "c", "r-", "]", *["PNQ"[k % 3] for k in range(n)], "+"]
    raise ValueError(kind)


def cases(tier):
    for kind in ("shapes", "nested", "layers", "copies"):
        for n in range(1, 17 if tier == "quick" else 49):
            yield ["word", n % 2 == 0, many(kind, n)]
    yield ["programs"]
    yield ["frozen"]
    seeds = list(range(1, 7 if tier == "quick" else 33))
    for name in SOURCES:
        for part in range(0, len(seeds), 3):
            yield ["hash", name, [0, *seeds[part:part + 3]]]
    full = [*SHAPES, *OPEN, "]", "P", "N", "Q", "late", "dbl", "^"]
    core = ["c", "r-", "l", "[", "[b", "[o", "]", "P", "N", "Q", "^", "late", "dbl"]
    small = ["c", "r-", "[", "[b", "]", "P", "N", "Q"]
    plan = [(full, 1, 3), (core, 4, 5 if tier == "quick" else 5), (small, 6, 6 if tier == "quick" else 7)]
    for pool, lo, hi in plan:
        for n in range(lo, hi + 1):
            for word in itertools.product(pool, repeat=n):
                if shape_ok(word):
                    for main_box in ((True, False) if n <= 4 else (n % 2 == 0,)):
                        yield ["word", main_box, list(word)]


def shape_ok(word):
    depth = done = 0
    for t in word:
        if t in OPEN:
            depth += 1
        elif t == "]":
            depth -= 1
            done += 1
            if depth < 0:
                return False
        elif t in ("P", "N", "Q", "late") and not done or t in ("dbl", "^") and depth < 1:
            return False
    return depth == 0


def bounds(tier):
    return ("all builder histories: 3 calls of 24, 5 of 13, 6 of 8 (thorough: 7 of 8); 5 programs x "
            f"{7 if tier == 'quick' else 33} hash seeds in separate processes; up to 16 (48) shapes, nested layers, consecutive layers, copies")
