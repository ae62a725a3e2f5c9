"""C02: formatting changes layout only: the result parses to the same program, for all options."""

from __future__ import annotations

import itertools

from mc import forms, impl
from mc.core import Mismatch, Obs, expect, expect_eq
from checks.c01 import parser
from checks.c09 import evaluate, expressions, ok_expr

PROPERTY = "C02"
BATCH = 1
ASSUMPTIONS = ["sources are programs the parser accepts; numbers are compared after rounding to requested places"]

DOMAIN = {
    "indent_character": [" ", "\t"],
    "macro_body_indent": [0, 2, "\t", " "],
    "macro_param_indent": [0, 3, "\t"],
    "macro_split_mode": ["SplitOnPrimitives", "NoSplit", "SplitOnParameters"],
    "macro_end_in_new_line": ["No", "Yes"],
    "block_aperture_body_indent": [0, 4, "\t"],
    "step_and_repeat_body_indent": [0, 2, " "],
    "float_decimal_places": [-1, 0, 1, 3, 6, 12],
    "float_trim_trailing_zeros": ["Yes", "No"],
    "d01_indent": [0, 2, "\t"],
    "d02_indent": [0, 1, "  "],
    "d03_indent": [0, 4, "\t "],
    "line_end": ["\n", "\r\n"],
    "empty_line_before_polarity_switch": ["No", "Yes"],
    "keep_non_standalone_codes": ["Keep", "SeparateCodes"],
    "remove_g54": ["Keep", "Remove"],
    "remove_g55": ["Keep", "Remove"],
    "explicit_parenthesis": ["KeepOriginal", "AddExplicit"],
    "strip_whitespace": ["Default", "StripAll"],
}
SETTINGS = [(k, v) for k, d in DOMAIN.items() for v in d[1:]]
PRESETS = ["extra_indent", "balanced", "small_indent"]


def formatter(opts):
    import pygerber.gerber.formatter as F

    if isinstance(opts, str):
        return F.Formatter(getattr(F, opts)), getattr(F, opts)
    options = F.Options(**opts)
    return F.Formatter(options), options


def sources():
    out = {}
    for f in forms.catalogue():
        out[f.name] = "\n".join(t for t, _ in f.instances())
    comp = {}
    for name, text, _ in forms.composites():
        comp.setdefault(name, []).append(text)
    for name, texts in comp.items():
        out[name] = "\n".join(texts)
    merged = {}
    for name, text, _ in forms.merged():
        merged.setdefault("merged" + name.split("+")[0], []).append(text)
    for name, texts in merged.items():
        out[name] = "\n".join(texts)
    lines = [f"%AME{k}*\n21,1,1,1,{''.join(e)},0,0*\n$9={''.join(e)}*\n%"
             for k, e in enumerate(light_expressions())]
    for k in range(0, len(lines), 40):
        out[f"expr{k // 40}"] = "\n".join(lines[k:k + 40])
    return out


def light_expressions():
    """Expressions up to two operators; all nestings of signs."""
    seen, out = set(), []
    for e in expressions("quick"):
        s = "".join(e)
        if s.count("(") > 1 or len(e) > 9 or s in seen:
            continue
        seen.add(s)
        out.append(e)
    for a, b, c in itertools.product(["", "-", "+"], repeat=3):
        e = [t for t in [a, "(", b, "(", c, "$1", ")", ")"] if t]
        out.append(e)
        out.append(["2", "-", *[t for t in [a, "(", b, "$1", "-", c, "3", ")"] if t]])
    keep = []
    for e in out:
        try:
            parser()(f"%AMX*$9={''.join(e)}*%")
        except Exception:  # noqa: BLE001 - not in the language (e.g. -+$1)
            continue
        keep.append(e)
    return keep


_SRC = None


def src_of(name):
    global _SRC
    if _SRC is None:
        _SRC = {k: v + "\nM02*" for k, v in sources().items()}
        _SRC["mixed"] = mixed()
    return _SRC[name]


def mixed():
    parts = [f.full()[0] for f in forms.catalogue()]
    seen = set()
    for name, text, _ in forms.composites():
        if name not in seen:
            seen.add(name)
            parts.append(text)
    for name, text, _ in forms.merged():
        if name not in seen:
            seen.add(name)
            parts.append(text)
    parts.append("%AMX*$4=($1+2)x(3-$2)/4*21,1,$4,1.23456789,-$1,0,0*%")
    parts.append("%SRX2Y1I5J0*%%ABD20*%X1D03*%ABD21*%Y1D01*%AB*%X2D02*%AB*%X3D03*%SR*%")
    return "\n".join(parts)


# ---------------------------------------------------------------------------- comparison


def kids(node):
    fields = getattr(type(node), "model_fields", {})
    return {k: getattr(node, k) for k in fields if k not in ("source_info", "is_standalone")}


def is_expr(node):
    import pygerber.gerber.ast.nodes as N

    return isinstance(node, N.Expression)


def value(node, env, places):
    n = type(node).__name__
    if n == "Constant":
        return float(f"{node.constant:.{places}f}") if places >= 0 else node.constant
    if n == "Variable":
        return env.get(node.variable, 1.75)
    if n == "Parenthesis":
        return value(node.inner, env, places)
    if n in ("Neg", "Pos"):
        v = value(node.operand, env, places)
        return -v if n == "Neg" else v
    v = value(node.head, env, places)
    for t in node.tail:
        w = value(t, env, places)
        v = {"Add": v + w, "Sub": v - w, "Mul": v * w, "Div": v / w if w else 7e77}[n]
    return v


ENV = {"$1": 3.0, "$2": 0.5, "$3": 1.25}


def same(a, b, opt, path="file"):
    if is_expr(a) and is_expr(b) and (opt["explicit"] or opt["places"] >= 0):
        x, y = value(a, ENV, opt["places"]), value(b, ENV, -1)
        return None if abs(x - y) <= 1e-9 * max(1, abs(x)) else f"{path}: value {y} instead of {x}"
    if type(a) is not type(b):
        return f"{path}: {type(b).__name__} instead of {type(a).__name__}"
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: {len(b)} items instead of {len(a)}"
        for k, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, opt, f"{path}[{k}]")
            if d:
                return d
        return None
    if hasattr(type(a), "model_fields"):
        if not opt["regroup"] and getattr(a, "is_standalone", None) != getattr(b, "is_standalone", None):
            return f"{path}: merged code was separated or joined"
        ka, kb = kids(a), kids(b)
        for k in ka:
            d = same(ka[k], kb[k], opt, f"{path}.{type(a).__name__}.{k}")
            if d:
                return d
        return None
    if isinstance(a, float) and opt["places"] >= 0:
        want = float(f"{a:.{opt['places']}f}")
        return None if b == want else f"{path}: {b} instead of {want}"
    return None if a == b else f"{path}: {b!r} instead of {a!r}"


def effective(options):
    return {
        "explicit": options.explicit_parenthesis.value == "AddExplicit",
        "places": options.float_decimal_places,
        "regroup": options.keep_non_standalone_codes.value != "Keep" or options.remove_g54.value == "Remove"
        or options.remove_g55.value == "Remove",
        "drop": {n for n, f in (("G54", options.remove_g54), ("G55", options.remove_g55)) if f.value == "Remove"},
    }


def filtered(nodes, drop):
    return [n for n in nodes if type(n).__name__ not in drop]


_AST = {}


def ast_of(name):
    if name not in _AST:
        _AST.clear()
        _AST[name] = parser()(src_of(name))
    return _AST[name]


def check_roundtrip(name, opts):
    tree = ast_of(name)
    before = tree.model_dump_json()
    fmt, options = formatter(opts)
    text = fmt.formats(tree)
    expect_eq(tree.model_dump_json(), before, "formatting changed the tree it formats")
    opt = effective(options)
    try:
        back = parser()(text)
    except Exception as e:
        raise Mismatch(f"formatted program does not parse: {e}", "a program", text) from e
    d = same(filtered(tree.nodes, opt["drop"]), filtered(back.nodes, opt["drop"]), opt)
    if d:
        raise Mismatch(f"formatting changed the program: {d}", src_of(name)[:2000], text)
    if opt["drop"]:
        bad = [type(n).__name__ for n in back.nodes if type(n).__name__ in opt["drop"]]
        expect(not bad, f"codes requested to be removed are still there: {bad}", None, text)
    if options.keep_non_standalone_codes.value != "Keep":
        bad = [n for n in back.nodes if getattr(n, "is_standalone", True) is False]
        expect(not bad, "merged codes were requested to be separated", None, text)
    expect_eq(fmt.formats(tree), text, "formatter gives another result when used again")
    again = fmt.formats(back)
    if opt["drop"]:  # an operation which loses its prefix may gain its own indentation
        expect_eq(again.split(), text.split(), f"formatting is not idempotent with {opts}")
    else:
        expect_eq(again, text, f"formatting is not idempotent with {opts}")
    if len(opts) < 2 or isinstance(opts, str):  # commands formatted one by one add up to the program
        parts = "".join("".join(fmt.formats_node(n) for n in tree.nodes).split())
        expect_eq(parts, "".join(text.split()), f"commands formatted alone with {opts}")
    strip = options.strip_whitespace.value == "StripAll"
    if strip:
        expect("\n" not in text and "\r" not in text, "line breaks present though stripped", None, text)
    elif options.line_end == "\r\n":
        expect_eq(text.count("\n"), text.count("\r\n"), "line ends differ from requested")
    else:
        expect("\r" not in text, "line ends differ from requested", None, text)
    return text


# -------------------------------------------------------------------------------- layout


def run_layout(opts):
    """Exact lines: indentation of operations and of nested bodies adds up."""
    def ind(k):
        v = opts.get(k, 0)
        return v if isinstance(v, str) else opts.get("indent_character", " ") * v

    strip = opts.get("strip_whitespace") == "StripAll"
    body = [("X1D02*", "d02_indent"), ("X2Y3D01*", "d01_indent"), ("D03*", "d03_indent"), ("G01*", None), ("D10*", None)]
    src, lines = "", []

    def emit(text, base, extra=None):
        nonlocal src
        src += text
        lines.append(base + (ind(extra) if extra else "") + text)

    def ops(base):
        for t, k in body:
            emit(t, base, k)

    ab, sr = ind("block_aperture_body_indent"), ind("step_and_repeat_body_indent")
    ops("")
    emit("%ABD20*%", "")
    ops(ab)
    emit("%ABD21*%", ab)
    ops(ab + ab)
    emit("%AB*%", ab)
    ops(ab)
    emit("%AB*%", "")
    ops("")
    emit("%SRX2Y2I1J1*%", "")
    ops(sr)
    emit("%ABD22*%", sr)
    ops(sr + ab)
    emit("%AB*%", sr)
    ops(sr)
    emit("%SR*%", "")
    ops("")
    if strip:
        want = "".join(x.strip() for x in lines)
    else:
        lf = opts.get("line_end", "\n")
        want = "".join(x + lf for x in lines)
    got = formatter(opts)[0].formats(parser()(src))
    expect_eq(got, want, f"layout with {opts}")


NUMBERS = ["0", "1", "0.5", "1.25", "0.1", "0.0000001", "0.00000012345", "123456789.125", "12345678901234567890",
           "0.30000000000000004", "-0.5", "-0.0000001", "99.9999996", "1.0000005", "0.05", "-12.345", "1e-0"[:1]]


def run_numbers(opts):
    fmt, options = formatter(opts)
    places = options.float_decimal_places
    for s in NUMBERS:
        src = (f"%LR{s}*%%LS{s}*%%ADD10C,{s}X{s}*%%ADD11R,{s}X{s}X{s}*%%ADD13P,{s}X4X{s}X{s}*%%ADD12M,{s}X{s}*%"
               f"%OFA{s}B{s}*%%SFA{s}B{s}*%%TO.CRot,{s}*%%TO.CHgt,{s}*%%TA.DrillTolerance,{s},{s}*%%AMQ*$4={s}*1,1,{s},0,0*%")
        text = fmt.formats(parser()(src))
        back = parser()(text)
        want = float(s) if places < 0 else float(f"{float(s):.{places}f}")
        n = {type(x).__name__: x for x in back.nodes}
        got = [n["LR"].rotation, n["LS"].scale, n["ADC"].diameter, n["ADC"].hole_diameter, n["ADR"].width,
               n["ADR"].height, n["ADR"].hole_diameter, n["ADP"].outer_diameter, n["ADP"].rotation,
               n["ADP"].hole_diameter, *n["ADmacro"].params, n["OF"].a_offset, n["OF"].b_offset, n["SF"].a_scale,
               n["SF"].b_scale, n["TO_CRot"].angle, n["TO_CHgt"].height, n["TA_DrillTolerance"].plus_tolerance,
               n["TA_DrillTolerance"].minus_tolerance]
        expect(all(g == want for g in got), f"number {s} written with {opts}", want, (got, text))
        lr = text[text.index("%LR") + 3:text.index("*")]
        frac = lr.split(".")[1] if "." in lr else ""
        if places >= 0:
            if options.float_trim_trailing_zeros.value == "No":
                expect_eq(len(frac), places, f"decimal places of {lr}")
            else:
                expect(len(frac) <= places and not frac.endswith("0") and not lr.endswith("."),
                       f"decimal places of {lr}", places, lr)


PARTS = 6


def cases(tier):
    names = [*sources(), "mixed"]
    for name in names:
        for part in range(PARTS):
            yield ["single", name, part]
    for k in range(len(SETTINGS)):
        yield ["pairs", k]
    ks = ["block_aperture_body_indent", "step_and_repeat_body_indent", "d01_indent", "d02_indent", "d03_indent"]
    for vals in itertools.product(*[DOMAIN[k] for k in ks]):
        yield ["layout", dict(zip(ks, vals))]
    for p in DOMAIN["float_decimal_places"]:
        for t in DOMAIN["float_trim_trailing_zeros"]:
            yield ["numbers", {"float_decimal_places": p, "float_trim_trailing_zeros": t}]
    if tier == "thorough":
        for a, b in itertools.combinations(range(len(SETTINGS)), 2):
            yield ["triples", a, b]
        for name in names:
            for k in range(len(SETTINGS) - 1):
                yield ["allpairs", name, k]


def run_case(case):
    kind = case[0]
    n = 0
    states = set()
    if kind == "single":
        texts = set()
        for opts in [{}, *[{k: v} for k, v in SETTINGS], *PRESETS][case[2]::PARTS]:
            texts.add(check_roundtrip(case[1], opts))
            n += 1
        states = texts
    elif kind in ("pairs", "triples", "allpairs"):
        name, head = (case[1], case[2:]) if kind == "allpairs" else ("mixed", case[1:])
        combos = [(*(SETTINGS[k] for k in head), SETTINGS[k]) for k in range(head[-1] + 1, len(SETTINGS))]
        for combo in combos:
            if len({k for k, _ in combo}) < len(combo):
                continue
            states.add(check_roundtrip(name, dict(combo)))
            n += 1
    elif kind == "layout":
        for ch, lf, st in itertools.product([" ", "\t"], ["\n", "\r\n"], ["Default", "StripAll"]):
            opts = {**case[1], "indent_character": ch, "line_end": lf, "strip_whitespace": st}
            run_layout(opts)
            states.add(repr(opts))
            n += 1
    elif kind == "numbers":
        run_numbers(case[1])
        n = len(NUMBERS)
        states.add(repr(case))
    return Obs(states=states, transitions=n, traces=n, outcome=repr(sorted(states))[:2000])


def bounds(tier):
    return (f"every command form instance and macro expression x each of {len(SETTINGS)} option values and 3 presets; "
            "all pairs (thorough: triples; and pairs on every source) of option values on a program containing every "
            "command; all indentation combinations; number grid x decimal places")
