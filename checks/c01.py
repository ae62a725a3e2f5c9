"""C01: the parser reads every command as written, keeps order and position, drops nothing."""

from __future__ import annotations

import itertools
import re

from mc import forms, impl
from mc.core import Mismatch, Obs, expect, expect_eq

PROPERTY = "C01"
BATCH = 1
ASSUMPTIONS = ["strings have no leading or trailing white space (white space between tokens is insignificant)"]

SEPS = ["\n", "", " ", "\r\n", "\n\n", "\t", " \n\t "]
CAT = {f.name: f for f in forms.catalogue()}


def units():
    """Canonical program pieces: (name, text, [expected nodes])."""
    out = [(f.name, *_one(f.full())) for f in CAT.values()]
    comp = {}
    for name, text, e in forms.composites():
        comp.setdefault(name, (name, text, [e]))
    out += list(comp.values())
    seen = set()
    for name, text, es in forms.merged():
        g = name.split("+")[1]
        if g not in seen:
            seen.add(g)
            out.append((name, text, es))
    return out


def _one(te):
    return te[0], [te[1]]


UNITS = None


def get_units():
    global UNITS
    if UNITS is None:
        UNITS = units()
    return UNITS


_P = {}


def parser(resilient=False):
    """One parser per worker, reused: its history must not matter."""
    if resilient not in _P:
        try:
            from pygerber.gerber.parser.pyparsing.parser import Parser

            _P[resilient] = Parser(resilient=resilient).parse
        except ImportError:
            _P[resilient] = lambda s, **kw: impl.parse(s, resilient=resilient, **kw)
    return _P[resilient]


def check_tree(src, pieces, fresh=False, resilient=False):
    """pieces: [(offset, text, [expected nodes])]"""
    try:
        file = (impl.parse(src, resilient=resilient) if fresh else parser(resilient)(src))
    except Exception as e:
        raise Mismatch(f"valid program rejected: {type(e).__name__}: {e}", "a tree", src) from e
    want = [(off, text, e) for off, text, es in pieces for e in es]
    got = list(file.nodes)
    names = [type(n).__name__ for n in got]
    if len(got) != len(want):
        raise Mismatch("number of commands differs", [e[0] for _, _, e in want], (names, src))
    seen = set()
    for node, (off, text, exp) in zip(got, want):
        d = forms.diff(node, exp)
        if d:
            raise Mismatch(f"command {text!r} read as something else: {d}", exp, (repr(node), src))
        info = node.source_info
        expect(info is not None, f"command {text!r} has no source position")
        expect_eq(info.source, src, "source attached to command is not the text parsed")
        if off not in seen:  # first node of the piece
            seen.add(off)
            expect_eq(info.location, off, f"position of command {text!r} in {src!r}")
            before = src[:off]
            expect_eq(info.line, before.count("\n") + 1, f"line of command {text!r} in {src!r}")
            expect_eq(info.column, off - (before.rfind("\n") + 1) + 1, f"column of command {text!r} in {src!r}")
        check_inside(node, src, off + len(text))
    return names


CODE = {"Assignment": r"\$", "Code0": "0", "Code1": "1", "Code2": "2,", "Code20": "20", "Code21": "21", "Code22": "22", "Code4": "4", "Code5": "5",
        "Code6": "6", "Code7": "7", "ABopen": "%ABD", "ABclose": "%AB[*]", "SRopen": "%SR[XYIJ]", "SRclose": "%SR[*]", "AMopen": "%AM", "AMclose": "%",
        "Neg": "-", "Pos": "[+]", "Parenthesis": "[(]", "AB": "%ABD", "SR": "%SR", "AM": "%AM"}
NUMBER = r"[+-]?(?:\d+\.?\d*|\.\d+)"


def check_inside(node, src, end):
    """Parts of a command are placed where they are written, in order, inside of the command."""
    kids = list(children(node))
    at = node.source_info.location
    for k, c in enumerate(kids):
        name = type(c).__name__
        info = c.source_info
        expect(info is not None, f"{name} has no source position in {src!r}")
        loc = info.location
        expect(at <= loc < end, f"{name} is placed at {loc}, outside of the place it is written at in {src!r}", (at, end), loc)
        nxt = kids[k + 1].source_info.location if k + 1 < len(kids) else end
        before = src[:loc]
        expect_eq((info.line, info.column), (before.count("\n") + 1, loc - (before.rfind("\n") + 1) + 1), f"line and column of {name} at {loc} in {src!r}")
        if name.startswith("Coordinate"):
            m = re.match(rf"{name[-1]}([+-]?\d+)", src[loc:])
            expect(m is not None and m.group(1) == str(c.value), f"{name} {c.value} is placed at {src[loc:loc + 8]!r}")
        elif name == "Constant":
            m = re.match(NUMBER, src[loc:])
            expect(m is not None and float(m.group()) == float(c.constant), f"constant {c.constant} is placed at {src[loc:loc + 8]!r}")
        elif name == "Variable":
            expect_eq((re.match(r"\$\d+", src[loc:]) or [None])[0], c.variable, f"variable is placed at {src[loc:loc + 8]!r}")
        elif name in CODE:
            expect(re.match(CODE[name], src[loc:]), f"{name} is placed at {src[loc:loc + 8]!r}")
        elif type(node).__name__ in ("AB", "SR") and getattr(c, "is_standalone", True) is not False:
            again = parser()(src[loc:nxt]).nodes
            expect(repr(again[0]) == repr(c), f"{name} is placed at {src[loc:loc + 12]!r}", repr(c), repr(again))
        check_inside(c, src, nxt)
        at = loc


def children(node):
    for name in type(node).model_fields:
        if name == "source_info":
            continue
        value = getattr(node, name)
        for v in value if isinstance(value, (list, tuple)) else [value]:
            if hasattr(v, "visit"):
                yield v


def assemble(items, seps, lead="", trail=""):
    src, pieces = lead, []
    for k, (text, es) in enumerate(items):
        if k:
            src += seps[(k - 1) % len(seps)]
        pieces.append((len(src), text, es))
        src += text
    return src + trail, pieces


# pieces for deeper sequences: at least one of each command family
SEQ = ["ADC", "ADmacro", "TA_UserName", "TD", "TF_Part", "TO_N", "D01", "D01bare", "D02", "Dnn", "G01", "G04", "M02",
       "LP", "FS", "AB.flash", "SR.flash", "AM.Code1", "G01+D01"]

GARBAGE = ["?", "QQQ", "%XX1*%", "G99*", "M77*", "%ADD10*%", "%LPX*%", "%FSLAX26*%", "X1Y1D09*", "D5*",
           "%AMX*9,1*%", "%ABD10*%", "%SRX2Y2*%", "%AB*%", "%SR*%", "%TA.Nope*%", "%TO.Zz,1*%", "%",
           "%TF.MD5,zz*%", "%TF.Part,Nope*%", "%MOCM*%", "%IPMAYBE*%", "X-D01*", "%TA.DrillTolerance,abc*%", "%LRabc*%",
           "%ADD9C,1*%", "%ADD10C,abc*%"]


def cases(tier):
    U = get_units()
    index = {u[0]: k for k, u in enumerate(U)}
    for name in CAT:
        yield ["form", name]
    comp = sorted({c[0] for c in forms.composites()})
    for name in comp:
        yield ["composite", name]
    for g in sorted({m[0].split("+")[0] for m in forms.merged()}):
        yield ["merged", g]
    for name in CAT:
        yield ["override", name]
    for a in range(len(U)):
        yield ["pairs", a]
    for a in range(len(U)):
        yield ["cut", a]
    for g in range(len(GARBAGE)):
        yield ["garbage", g]
    for name in CAT:
        yield ["inside", name]
    top = 40 if tier == "quick" else 120
    for kind in LONG:
        for lo in range(1, top, 10):
            yield ["long", kind, lo, lo + 10]
    for n in range(1, top):
        yield ["spoiled", n]
    for c, b, m in itertools.product((True, False), repeat=3):
        yield ["grammar", c, b, m]
    names = [n for n in SEQ if n in index]
    for a, b in itertools.product(names, repeat=2):
        yield ["triples", a, b]
    if tier == "thorough":
        for a in names:
            for b, c in itertools.product(names, repeat=2):
                yield ["quads", a, b, c]
        for a in range(len(U)):
            for b in range(len(U)):
                yield ["alltriples", a, b]


def run_case(case):
    U = get_units()
    kind = case[0]
    states, n = set(), 0
    if kind == "form":
        f = CAT[case[1]]
        for text, exp in f.instances():
            for lead, trail in [("", ""), ("\n ", "\n"), ("G04 before*\n", "\nM02*")]:
                pieces = []
                src = lead
                if lead.startswith("G04"):
                    pieces.append((0, "G04 before*", [["G04", {"string": " before"}]]))
                pieces.append((len(lead), text, [exp]))
                src = lead + text + trail
                if "M02" in trail:
                    pieces.append((src.index("M02*", len(lead) + len(text)), "M02*", [["M02", {}]]))
                check_tree(src, pieces, fresh=n == 0)
                check_tree(src, pieces, resilient=True)
                n += 2
            states.add(text)
    elif kind in ("composite", "merged"):
        for name, text, exp in (forms.composites() if kind == "composite" else forms.merged()):
            if (name if kind == "composite" else name.split("+")[0]) != case[1]:
                continue
            es = [exp] if kind == "composite" else exp
            src, pieces = assemble([("G01*", [["G01", {}]]), (text, es), ("D02*", [["D02", {}]])], ["\n"])
            check_tree(src, pieces, fresh=n == 0)
            check_tree(src, pieces, resilient=True)
            states.add(text)
            n += 2
    elif kind == "long":
        return run_long(case)
    elif kind in ("inside", "spoiled", "grammar"):
        n = {"inside": lambda: run_inside(case[1]), "spoiled": lambda: run_spoiled(case), "grammar": lambda: run_grammar(case)}[kind]()
        states.add(tuple(case))
    elif kind == "override":
        n = run_override(case[1])
    elif kind == "pairs":
        a = U[case[1]]
        for b in U:
            for sep in SEPS:
                src, pieces = assemble([a[1:], b[1:]], [sep])
                check_tree(src, pieces)
                n += 1
            states.add((a[0], b[0]))
    elif kind in ("triples", "quads", "alltriples"):
        by = {u[0]: u for u in U}
        head = [by[x] if isinstance(x, str) else U[x] for x in case[1:]]
        for c in (U if kind == "alltriples" else [by[x] for x in SEQ if x in by]):
            src, pieces = assemble([u[1:] for u in [*head, c]], ["\n", ""])
            check_tree(src, pieces)
            states.add(src)
            n += 1
    elif kind == "cut":
        n = run_cut(U[case[1]])
        states.add(U[case[1]][0])
    elif kind == "garbage":
        n = run_garbage(GARBAGE[case[1]])
        states.add(GARBAGE[case[1]])
    return Obs(states=states, transitions=n, traces=n, outcome=repr(case[:2]))


LONG = ("rows", "string", "fields", "digits", "nested", "prims", "points", "params", "sum", "blank", "zeros", "body")


def long_program(kind, n):
    """(text, [(piece, expected)]) growing with n."""
    U = get_units()
    E = forms.expr
    if kind == "rows":
        return [U[(n + k * 7) % len(U)][1:] for k in range(n)]
    if kind == "body":
        flat = [u for u in U if len(u[2]) == 1 and u[2][0][0] not in ("AB", "SR", "AM")]
        body = [flat[(n + k * 11) % len(flat)] for k in range(n)]
        text = "%ABD12*%" + "\n".join(u[1] for u in body) + "%AB*%"
        return [(text, [["AB", {"open": ["ABopen", {}], "nodes": [u[2][0] for u in body], "close": ["ABclose", {}]}]])]
    if kind == "string":
        txt = ("ab c,.1-" * n)[:n * 3].strip()
        return [(f"G04 {txt}*", [["G04", {"string": " " + txt}]]), (f"%LN{txt}*%", [["LN", {"name": txt}]]), (f"%IN{txt}*%", [["IN", {"name": txt}]])]
    if kind == "fields":
        f = [f"f{k}" if k % 5 else "" for k in range(1, n + 1)]
        return [(f"%T{c}User,{','.join(f)}*%", [[f"T{c}_UserName", {"user_name": "User", "fields": f}]]) for c in "AFO"] + [
            (f"%TO.N,{','.join(f)}*%", [["TO_N", {"net_names": f}]])]
    if kind == "digits":
        num = ("9081726354" * n)[:n]
        return [(f"X{num}Y-{num}D02*", [["D02", {"x": ["CoordinateX", {"value": num}], "y": ["CoordinateY", {"value": "-" + num}]}]]),
                (f"%ADD1{num}C,{num}.{num}*%", [["ADC", {"aperture_id": f"D1{num}", "diameter": float(f"{num}.{num}")}]]),
                (f"D1{num}*", [["Dnn", {"aperture_id": f"D1{num}"}]])]
    if kind == "zeros":
        z = "0" * n
        return [(f"X1D{z}1*", [["D01", {}]]), (f"X1D{z}2*", [["D02", {}]]), (f"X1D{z}3*", [["D03", {}]]), (f"G{z}1*", [["G01", {}]]), (f"G{z}75*", [["G75", {}]]),
                (f"G{z}4 c*", [["G04", {}]]), (f"M{z}2*", [["M02", {}]]), (f"M{z}0*", [["M00", {}]])]
    if kind == "nested":
        n = min(n, 8)
        text, exp = "X1D03*", ["D03", {}]
        for k in range(n):
            text = f"%ABD{12 + k}*%\n{text}\nX{k}D02*%AB*%"
            exp = ["AB", {"open": ["ABopen", {"aperture_id": f"D{12 + k}"}], "nodes": [exp, ["D02", {}]], "close": ["ABclose", {}]}]
        return [(text, [exp])]
    if kind == "prims":
        ps = [["Code1", {"exposure": E("1"), "diameter": E(f"{k}"), "center_x": E(f"${k + 1}"), "center_y": E("0"), "rotation": None}] for k in range(n)]
        return [("%AMm*" + "\n".join(f"1,1,{k},${k + 1},0*" for k in range(n)) + "%", [["AM", {"primitives": ps}]])]
    if kind == "points":
        ps = [["Point", {"x": E(f"{k}"), "y": E(f"{k * 2}")}] for k in range(n)]
        return [(f"%AMm*4,1,{n},7,8," + ",".join(f"{k},{k * 2}" for k in range(n)) + ",5*%", [["AM", {"primitives": [["Code4", {"points": ps, "rotation": E("5")}]]}]])]
    if kind == "params":
        v = [k / 4 for k in range(n)]
        return [("%ADD10mac," + "X".join(map(str, v)) + "*%", [["ADmacro", {"name": "mac", "params": v}]])]
    if kind == "sum":
        t = "1" + "".join(f"+{k}x$1" for k in range(n))
        return [(f"%AMm*1,1,{t},0,0*%", [["AM", {"primitives": [["Code1", {"diameter": [
            "Add", {"head": E("1"), "tail": [["Mul", {"head": E(f"{k}"), "tail": [E("$1")]}] for k in range(n)]}]}]]}]])]
    return [("G01*" + "\n" * n + " " * n + "X1Y1D02*", [["G01", {}], ["D02", {}]])]


def run_long(case):
    _, kind, lo, hi = case
    n, states = 0, []
    for k in range(lo, hi):
        for sep in ("\n", ""):
            items = long_program(kind, k)
            src, pieces = assemble(items, [sep], lead="\n" * (k % 3), trail="\n" * (k % 2))
            check_tree(src, pieces)
            check_tree(src, pieces, resilient=True)
            n += 2
        states.append((kind, k))
    return Obs(states=states, transitions=n, traces=n, outcome=kind)


def run_inside(name):
    """Every form of a command can stand in the body of a block."""
    n = 0
    for text, exp in CAT[name].instances():
        for sep in ("", "\n"):
            blocks = [(f"%ABD12*%{sep}{text}{sep}%AB*%", [["AB", {"nodes": [exp]}]]), (f"%SRX2Y1I1J0*%{sep}G01*{text}{sep}%SR*%", [["SR", {"nodes": [["G01", {}], exp]}]])]
            src, pieces = assemble(blocks, ["\n"])
            check_tree(src, pieces)
            n += 1
    return n


def run_spoiled(case):
    """Resilient mode: lines which cannot be read, anywhere and any number of them, cost no other line."""
    _, n = case
    good = [("G01*", "G01"), ("%LPC*%", "LP"), ("X1Y2D01*", "D01"), ("%ADD10C,1*%", "ADC"), ("G04 x*", "G04"), ("%TO.N,a*%", "TO_N")]
    bad = [g for g in GARBAGE if g != "%" and not g.startswith(("%AB", "%SR", "%TF.MD5", "%TF.Part", "%AM"))]
    count = 0
    for step in (1, 2, 3):
        lines, want, lost = [], [], []
        for k in range(n):
            t, name = good[(k + step) % len(good)]
            lines.append(t)
            want.append(name)
            if k % step == 0:
                lines.append(bad[(n + k * step) % len(bad)])
                lost.append(lines[-1])
        lines.append("M02*")
        src = "\n".join(lines)
        file = parser(True)(src)
        expect_eq([type(x).__name__ for x in file.nodes if type(x).__name__ != "Invalid"], [*want, "M02"], f"commands read from {src!r}")
        expect_eq("".join(x.string for x in file.nodes if type(x).__name__ == "Invalid"), "".join(lost), f"unreadable text kept from {src!r}")
        for x in file.nodes:
            expect_eq(x.source_info.line, src[:x.source_info.location].count("\n") + 1, "line of a command after unreadable ones")
        count += 1
    return count


def run_grammar(case):
    """Settings of the grammar: comments left out on request, tolerated spellings refused on request, nothing else changes."""
    from pygerber.gerber.parser.pyparsing.grammar import Grammar, Optimization, SyntaxSwitches

    _, comments, bare, merged = case
    root = Grammar({}, SyntaxSwitches(allow_d01_without_code=bare, allow_non_standalone_d_codes=merged),
                   optimization=Optimization.DISCARD_COMMENTS if not comments else 0).build()
    n = 0
    for name, text, es in get_units():
        src = f"G75*\n{text}\nX1D02*"
        names = [e[0] for e in es]
        refused = (name == "D01bare" and not bare) or ("+" in name and not merged)
        if not comments and any(x == "G04" for x in names):
            names = [x for x in names if x != "G04"]
        try:
            file = root.parse_string(src, parse_all=True)["root_node"]
        except Exception as e:  # noqa: BLE001
            expect(refused, f"{text!r} is refused with settings {case[1:]}", names, repr(e)[:200])
            n += 1
            continue
        expect(not refused, f"{text!r} is accepted with settings {case[1:]}", "an error", [type(x).__name__ for x in file.nodes])
        expect_eq([type(x).__name__ for x in file.nodes], ["G75", *names, "D02"], f"commands of {src!r} with settings {case[1:]}")
        n += 1
    return n


def run_override(name):
    """Requested node classes are used for the nodes they replace and no other."""
    import pygerber.gerber.ast.nodes as N

    text, exp = CAT[name].full()
    cls = getattr(N, exp[0])
    custom = type("Custom" + exp[0], (cls,), {})
    file = impl.parse(f"G04 x*\n{text}\nM02*", ast_node_class_overrides={exp[0]: custom})
    expect_eq(len(file.nodes), 3, f"override of {exp[0]} changed number of commands")
    for node in file.nodes:
        base = type(node).__mro__[1].__name__ if type(node) is custom else type(node).__name__
        expect_eq(type(node) is custom, base == exp[0], f"override of {exp[0]} used for {text!r}")
    return 1


def run_cut(u):
    """A command with one delimiter missing is an error, never silently something else."""
    name, text, es = u
    n = 0
    for k, ch in enumerate(text):
        if ch not in "*%":
            continue
        broken = text[:k] + text[k + 1:]
        for lead, trail in [("G01*\n", "\nG75*\nM02*"), ("", "")]:
            src = lead + broken + trail
            n += 1
            try:
                file = parser()(src)
            except Exception:  # noqa: BLE001 - rejecting is right
                continue
            if explains(file, src):
                continue
            raise Mismatch("program with missing delimiter accepted, part of the text vanished",
                           "an error", (src, [type(x).__name__ for x in file.nodes]))
    return n


def explains(file, src):
    """The tree accounts for all delimiters of the text (e.g. a comment swallowed the rest)."""
    def text_of(node):
        out = ""
        for k in ("string", "name"):
            v = getattr(node, k, None)
            if isinstance(v, str):
                out += v
        for k in ("nodes", "primitives"):
            for c in getattr(node, k, None) or []:
                out += text_of(c)
        return out
    blob = "".join(text_of(x) for x in file.nodes)
    commands = sum(_commands(x) for x in file.nodes)
    return commands + blob.count("*") == src.count("*")


def _commands(node):
    """Number of '*' terminated blocks a node stands for."""
    n = type(node).__name__
    if n in ("AB", "SR"):
        return 2 + sum(_commands(c) for c in node.nodes)
    if n == "AM":
        return 1 + sum(_commands(c) for c in node.primitives)
    if n.startswith("G") and not getattr(node, "is_standalone", True):
        return 0
    return 1


def run_garbage(g):
    """Meaningless line: strict mode refuses, prefix mode stops there, resilient mode keeps the rest."""
    lead = ["G01*", "%LPC*%", "X1Y2D01*"]
    tail = ["D02*", "%LPD*%", "M02*"]
    src = "\n".join([*lead, g, *tail])
    try:
        file = parser()(src)
    except Exception:  # noqa: BLE001
        file = None
    expect(file is None, f"meaningless text {g!r} accepted", "an error", file and [type(x).__name__ for x in file.nodes])
    if not g.startswith(("%TF.MD5", "%TF.Part")):  # value errors stop the parser altogether
        part = parser()(src, strict=False)
        expect_eq([type(x).__name__ for x in part.nodes], ["G01", "LP", "D01"], f"commands before {g!r}")
        file = parser(True)(src)
        names = [type(x).__name__ for x in file.nodes]
        expect_eq(names[:3], ["G01", "LP", "D01"], f"resilient: commands before {g!r}")
        good = [x for x in names if x != "Invalid"]
        if g != "%" and not g.startswith(("%AB", "%SR")):
            expect_eq(good, ["G01", "LP", "D01", "D02", "LP", "M02"], f"resilient: commands around {g!r}")
            bad = [x.string for x in file.nodes if type(x).__name__ == "Invalid"]
            expect_eq("".join(bad), g, f"resilient: unreadable text is kept, got {names}")
    return 3


def bounds(tier):
    return (f"{len(CAT)} command forms x every value of every parameter x every subset of optional parameters, all "
            f"ordered pairs of {len(get_units())} pieces x {len(SEPS)} separators, all triples over {len(SEQ)} pieces "
            "(thorough: quadruples, and triples over all pieces), each command with each delimiter removed, each form inside blocks, "
            f"{len(LONG)} kinds of programs growing up to {40 if tier == 'quick' else 120} times, up to that many unreadable lines, 8 settings of the grammar, "
            f"{len(GARBAGE)} meaningless commands")
