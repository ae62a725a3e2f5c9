"""C18: tree walks: every node of every tree is visited exactly once, in source order, and no consumer alters the tree."""

from __future__ import annotations

import itertools

from checks.c01 import get_units, parser
from checks.c09 import expressions
from mc import forms
from mc.core import Mismatch, Obs, expect, expect_eq

PROPERTY = "C18"
BATCH = 2
ASSUMPTIONS = ["order of nodes inside one command is the order of its parameters in the format", "expressions nested at most 12 deep"]
BASE = {"ad": ("ADC", "ADR", "ADO", "ADP", "ADmacro"), "expression": ("Add", "Sub", "Mul", "Div", "Neg", "Pos", "Constant", "Variable", "Parenthesis"),
        "coordinate": ("CoordinateX", "CoordinateY", "CoordinateI", "CoordinateJ")}
HEAD = "%FSLAX34Y34*%%MOMM*%%ADD10C,0.5*%%ADD11C,0.5*%%AMNAME*1,1,1,0,0*%%ADD12NAME*%D10*"


def children(node):
    for name in type(node).model_fields:
        if name == "source_info":
            continue
        value = getattr(node, name)
        for v in value if isinstance(value, (list, tuple)) else [value]:
            if hasattr(v, "visit"):
                yield v


def preorder(node):
    yield node
    for c in children(node):
        yield from preorder(c)


def snapshot(node):
    """Deep value of a tree, with identity of every node."""
    return [(id(n), type(n).__name__, [(k, repr(getattr(n, k))) for k in type(n).model_fields if k != "source_info"],
             None if n.source_info is None else (n.source_info.location, n.source_info.length)) for n in preorder(node)]


def recorder(failing=None):
    """Visitor which records every callback, in order; fails at the given node."""
    from pygerber.gerber.ast import AstVisitor

    def hook(name):
        base = getattr(AstVisitor, name)

        def on(self, node):
            self.log.append((name, node))
            if node is failing and norm(name[3:]) == norm(type(node).__name__):
                raise Boom
            return base(self, node)

        return on

    def on_exception(self, node, exception):
        self.calls.append((type(exception).__name__, id(node)))
        return AstVisitor.on_exception(self, node, exception) if self.verdict is None else self.verdict

    names = [n for n in dir(AstVisitor) if n.startswith("on_")]
    v = type("Recorder", (AstVisitor,), {**{n: hook(n) for n in names}, "on_exception": on_exception})()
    v.log, v.calls, v.verdict = [], [], None
    return v


def norm(name):
    return name.lower().replace("_", "")


def base_of(cls):
    for b, kinds in BASE.items():
        if cls in kinds:
            return b
    return next((p.lower() for p in ("TA_", "TF_", "TO_") if cls.startswith(p)), "").rstrip("_") or None


def check_walk(ast, src):
    nodes = list(preorder(ast))
    before = snapshot(ast)
    rec = recorder()
    out = ast.visit(rec)
    expect(out is ast, "visit of a file returns the file")
    main, general = [], {}
    for name, node in rec.log:
        short = norm(name[3:])
        if short == norm(type(node).__name__):
            main.append(node)
        elif short == "endoffile":
            expect(node is ast, "end of file is about the file")
            main.append("end")
        else:
            general.setdefault(id(node), []).append(short)
    if main[-1:] != ["end"] or main.count("end") != 1:
        raise Mismatch(f"end of file is announced once, at the end\n{src!r}", "end last", [getattr(type(m), "__name__", m) for m in main])
    main.pop()
    if [id(a) for a in main] != [id(b) for b in nodes]:
        raise Mismatch(f"nodes visited differ\n{src!r}", [type(n).__name__ for n in nodes], [type(n).__name__ for n in main])
    for n in nodes:
        want = base_of(type(n).__name__)
        expect_eq(general.get(id(n), []), [want] if want else [], f"general callbacks of {type(n).__name__} in {src!r}")
    # callbacks handed out by nodes are those used by visit
    for n in nodes:
        rec.log.clear()
        n.get_visitor_callback_function(rec)(n)
        a = [(x, id(y)) for x, y in rec.log]
        rec.log.clear()
        expect(n.visit(rec) is n, f"visit of {type(n).__name__} returns the node")
        expect_eq([(x, id(y)) for x, y in rec.log], a, f"callback of {type(n).__name__}")
    # listeners
    from pygerber.gerber.linter import EventAstVisitor

    got = []
    ev = EventAstVisitor()
    for t in {type(n) for n in nodes}:
        ev.register_listener(t, lambda n, t=t: got.append((t, n)))
    ast.visit(ev)
    expect_eq([(t.__name__, id(n)) for t, n in got], [(type(n).__name__, id(n)) for n in nodes], f"listener calls of {src!r}")
    only = type(nodes[-1])
    twice = []
    ev = EventAstVisitor()
    ev.register_listener(only, lambda n: twice.append(("a", id(n))))
    ev.register_listener(only, lambda n: twice.append(("b", id(n))))
    ast.visit(ev)
    expect_eq(twice, [(k, id(n)) for n in nodes if type(n) is only for k in "ab"], "two listeners of one type")
    expect(snapshot(ast) == before, f"walking changed the tree of {src!r}")
    return nodes


def consumers():
    from pygerber.gerber.ast import get_final_state
    from pygerber.gerber.compiler import compile as comp
    from pygerber.gerber.formatter import Options, formats
    from pygerber.gerber.linter import lint

    opts = Options(float_decimal_places=2, remove_g54="Remove", remove_g55="Remove", keep_non_standalone_codes="SeparateCodes",
                   explicit_parenthesis="AddExplicit", strip_whitespace="StripAll")
    return {"lint": lambda a: list(lint(a)), "format": lambda a: formats(a), "format options": lambda a: formats(a, opts),
            "state": get_final_state, "compile": comp}


def check_pure(ast, src):
    before = snapshot(ast)
    n = 0
    for name, f in consumers().items():
        try:
            f(ast)
        except Exception:  # noqa: BLE001 - programs here need not make sense; only purity is decided
            pass
        n += 1
        after = snapshot(ast)
        if after != before:
            d = next((a, b) for a, b in itertools.zip_longest(before, after) if a != b)
            raise Mismatch(f"{name} changed the tree of {src!r}", d[0], d[1])
    return n


class Boom(Exception):
    pass


def run_exceptions(case):
    """A visitor failing at command k: on_exception decides; end of file is always announced."""
    _, a = case
    U = get_units()
    states, n = [], 0
    src = "\n".join(U[(a + d) % len(U)][1] for d in (0, 1, 2))
    ast = parser()(src)
    tops = list(ast.nodes)
    for k, target in enumerate(tops):
        for verdict in (True, False, None):
            rec = recorder(target)
            log = rec.log
            calls = []
            if verdict is not None:
                rec.verdict = verdict
            rec.calls = calls
            raised = False
            try:
                ast.visit(rec)
            except Boom:
                raised = True
            what = f"failure at command {k} of {src!r}, verdict {verdict}"
            expect_eq(raised, verdict is not False, f"{what}: raised")
            expect_eq(calls, [("Boom", id(target))], f"{what}: on_exception")
            want = [id(t) for t in (tops if verdict is False else tops[:k + 1])]
            ids = {id(t) for t in tops}
            main = [id(node) for name, node in log if id(node) in ids and norm(name[3:]) == norm(type(node).__name__)]
            expect_eq(main, want, f"{what}: commands visited")
            expect_eq([name for name, node in log if node is ast], ["on_file", "on_end_of_file"], f"{what}: end of file")
            states.append((type(target).__name__, k, verdict))
            n += 1
    return Obs(states=states, transitions=n, traces=n, outcome=(a, len(tops)))


def long_text(kind, n):
    """Trees which grow with n, in each way a tree can."""
    U = get_units()
    if kind == "rows":
        return "\n".join(U[(k * 7 + n) % len(U)][1] for k in range(n))
    if kind == "same":
        return "\n".join([U[n * 5 % len(U)][1]] * n)
    if kind == "prims":
        return "%AMMANY*" + "".join(f"$%d=$1+%d*1,1,$%d,%d,0*" % (k + 2, k, k + 2, k) for k in range(n)) + "%"
    if kind == "vertices":
        return f"%AMMANY*4,1,{n}," + ",".join(f"{k},{k * k}" for k in range(n)) + ",0,0,30*%"
    if kind == "parens":
        return "%AMMANY*1,1," + "(" * n + "$1" + ")" * n + ",0,0*%"
    if kind == "sum":
        return "%AMMANY*1,1," + "+".join(f"${k + 1}" for k in range(n)) + ",0,0*%"
    if kind == "product":
        return "%AMMANY*1,1," + "x".join(["2", "(1-$1)"] * n) + ",0,0*%"
    if kind == "signs":
        return "%AMMANY*1,1," + "-(" * n + "1" + ")" * n + ",0,0*%"
    if kind == "nested":
        return "".join(f"%ABD{20 + k}*%X{k}Y{k}D03*" for k in range(n)) + "%AB*%" * n
    if kind == "steps":
        return "".join(f"%SRX2Y1I{k + 1}J0*%X{k}Y{k}D03*%SR*%" for k in range(n))
    if kind == "params":
        return "%ADD20NAME," + "X".join(str(k) for k in range(1, n + 1)) + "*%"
    if kind == "fields":
        return "%TFUser," + ",".join(f"f{k}" for k in range(n)) + "*%%TAMine," + ",".join(f"f{k}" for k in range(n)) + "*%"
    raise AssertionError(kind)


LONG = ("rows", "same", "prims", "vertices", "parens", "sum", "product", "signs", "nested", "steps", "params", "fields")


def run_listeners(case):
    """Any number of listeners on any types: called in the order of registration, for every node of their type."""
    from pygerber.gerber.linter import EventAstVisitor

    _, n = case
    ast = parser()(HEAD + long_text("rows", 12) + "\n" + long_text("prims", 3))
    nodes = list(preorder(ast))
    types = sorted({type(x) for x in nodes}, key=lambda t: t.__name__)
    ev, got, regs = EventAstVisitor(), [], []
    for k in range(n):
        t = types[(k * 3) % len(types)] if k % 4 else types[0]
        regs.append((k, t))
        ev.register_listener(t, lambda node, k=k: got.append((k, id(node))))
    for again in (1, 2):
        got.clear()
        ast.visit(ev)
        expect_eq(got, [(k, id(x)) for x in nodes for k, t in regs if type(x) is t], f"calls of {n} listeners, walk {again}")
    return Obs(states=[(k, t.__name__) for k, t in regs], transitions=len(got), traces=2, outcome=(n, len(got)))


def run_case(case):
    if case[0] == "listeners":
        return run_listeners(case)
    if case[0] == "exceptions":
        return run_exceptions(case)
    U = get_units()
    n, states, sig = 0, [], 0
    if case[0] == "form":
        cat = {f.name: f for f in forms.catalogue()}
        texts = [t for t, _ in cat[case[1]].instances()]
    elif case[0] == "composite":
        texts = [t for name, t, _ in forms.composites() if name == case[1]]
    elif case[0] == "merged":
        texts = [t for name, t, _ in forms.merged() if name.split("+")[0] == case[1]]
    elif case[0] == "pairs":
        texts = [U[case[1]][1] + "\n" + u[1] for u in U]
    elif case[0] == "expr":
        texts = [f"%AMNAME*$5={e}*1,1,{e},0,0*%" for e in case[1]]
    elif case[0] == "long":
        texts = [long_text(case[1], n) for n in case[2]]
    for t in texts:
        src = HEAD + t if case[0] != "pairs" else t
        ast = parser()(src)
        nodes = check_walk(ast, src)
        n += 1 + check_pure(ast, src)
        states += [(type(x).__name__, type(y).__name__) for x, y in zip(nodes, nodes[1:])]
        sig += len(nodes)
    return Obs(states=sorted(set(states)), transitions=n, traces=n, outcome=(repr(case)[:200], sig))


def cases(tier):
    for f in forms.catalogue():
        yield ["form", f.name]
    for name in sorted({c[0] for c in forms.composites()}):
        yield ["composite", name]
    for g in sorted({m[0].split("+")[0] for m in forms.merged()}):
        yield ["merged", g]
    ex = ["".join(map(str, e)) for e in expressions(tier)]
    for k in range(0, len(ex), 60):
        yield ["expr", ex[k:k + 60]]
    top = 24 if tier == "quick" else 60
    for kind in LONG:
        for lo in range(1, top + 1, 6):
            yield ["long", kind, [n for n in range(lo, min(lo + 6, top + 1)) if not (kind in ("nested", "parens", "signs") and n > 12)]]
    for n in range(1, 30 if tier == "quick" else 80):
        yield ["listeners", n]
    U = get_units()
    for a in range(len(U)):
        yield ["exceptions", a]
    for a in range(len(U)):
        yield ["pairs", a]


def bounds(tier):
    return (f"all command forms with all subsets of optional parameters, all composite statements, all merged codes, all expressions "
            f"of up to {4 if tier == 'quick' else 5} operands, all pairs of {len(get_units())} commands; {len(LONG)} kinds of trees growing up to "
            f"{24 if tier == 'quick' else 60} times, up to {29 if tier == 'quick' else 79} listeners; failure at every command x all verdicts")
