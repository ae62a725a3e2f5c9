"""C17: the linter reports exactly the offending commands, where they are; removing them changes nothing drawn."""

from __future__ import annotations

import itertools

from mc import impl
from mc.core import Mismatch, Obs, expect, expect_eq
from mc.render import parser

PROPERTY = "C17"
BATCH = 40
ASSUMPTIONS = ["rules are those of the registry on the unchanged tree: G54, G55, repeated interpolation codes",
               "end offsets of violations are not decided"]

HEAD = "%FSLAX34Y34*%%MOMM*%%ADD10C,0.5*%%ADD11R,1X0.5*%D10*G75*"
# symbol -> (text, [(offset in text, code)])
SYMS = {
    "1": ("G01*", [(0, "G01")]), "2": ("G02*", [(0, "G02")]), "3": ("G03*", [(0, "G03")]),
    "1d": ("G01X10000Y0D01*", [(0, "G01")]), "2d": ("G02X10000Y10000I5000J5000D01*", [(0, "G02")]),
    "3d": ("G03X0Y10000I5000J-5000D01*", [(0, "G03")]), "1n": ("G01*\nX3000Y5000D01*", [(0, "G01")]),
    "54": ("G54*", [(0, "G54")]), "54d": ("G54D11*", [(0, "G54")]), "55": ("G55*", [(0, "G55")]),
    "55f": ("G55X20000Y0D03*", [(0, "G55")]),
    "d": ("X5000Y7000I100J200D01*", []), "f": ("X9000Y1000D03*", []), "m": ("X1Y2D02*", []), "D": ("D10*", []),
    "c": ("G04 G01 G54*", []), "[": ("%ABD20*%", []), "]": ("%AB*%", []), "(": ("%SRX2Y1I3J0*%", []), ")": ("%SR*%", []),
    "r": ("G36*", []), "q": ("G37*", []), "F": ("D20*X30000Y30000D03*D10*", []),
    "n": ("\n", []), "s": ("  ", []), "w": ("\r\n\r\n", []),
}
SUBSETS = [None, [], ["DEP001"], ["DEP002"], ["GRB001"], ["GRB001", "DEP001"], ["DEP002", "DEP001", "GRB001"]]
RULE = {"G54": "DEP001", "G55": "DEP002"}


def build(word):
    text, marks = HEAD, []
    for s in word:
        t, codes = SYMS[s]
        marks += [(len(text) + off, code) for off, code in codes]
        if s == "]":
            marks.append((len(text), "end"))
        text += t
    return text + "M02*", marks


def model(marks):
    """[(rule, offset, code)] in source order."""
    last, out = None, []
    for off, code in marks:
        if code == "end":
            last = None
        elif code in RULE:
            out.append((RULE[code], off, code))
        else:
            if code == last:
                out.append(("GRB001", off, code))
            last = code
    return out


def position(text, off):
    return text.count("\n", 0, off) + 1, off - (text.rfind("\n", 0, off) + 1) + 1


def observed(vs):
    return [(v.rule_id, v.start_offset, (v.line, v.column)) for v in vs]


def valid(word):
    """Brackets balanced, blocks not nested in repeats, nothing odd inside contours."""
    stack, contour, defined = [], False, False
    for s in word:
        if s == "[":
            if stack or contour:
                return False
            stack.append("[")
        elif s == "]":
            if not stack or stack.pop() != "[" or contour:
                return False
            defined = True
        elif s == "(":
            if stack or contour:
                return False
            stack.append("(")
        elif s == ")":
            if not stack or stack.pop() != "(" or contour:
                return False
        elif s == "r":
            if contour:
                return False
            contour = True
        elif s == "q":
            if not contour:
                return False
            contour = False
        elif s == "F" and not defined:
            return False
    return not stack and not contour


def strip(text, reported):
    """Text without the reported commands."""
    for _, off, code in sorted(reported, key=lambda r: -r[1]):
        end = off + len(code)
        if text[end] == "*":
            end += 1
        text = text[:off] + text[end:]
    return text


def run_word(case):
    from pygerber.gerber.linter import RULE_REGISTRY, Linter, lint

    word = case[1]
    text, marks = build(word)
    want_all = model(marks)
    ast = parser()(text)
    n = 0
    for sub in SUBSETS if len(word) < 3 or case[0] == "all" else (None, ["GRB001"]):
        want = [(r, o, position(text, o)) for r, o, _ in want_all if not sub or r in sub]
        got = list(lint(ast, sub) if sub is not None else lint(ast))
        expect_eq(observed(got), want, f"violations with rules {sub} of {text!r}")
        for v, (_, _, code) in zip(got, [w for w in want_all if not sub or w[0] in sub]):
            expect(code in v.title, f"title of violation of {code}", code, v.title)
            expect(bool(v.description), "description of violation")
        n += 1
    linter = Linter([r() for r in RULE_REGISTRY.values()])
    first = observed(linter.lint(ast))
    other = parser()(HEAD + "G03*G54*G03*M02*")
    linter.lint(other)
    expect_eq(observed(linter.lint(ast)), first, f"second report of one linter on {text!r}")
    expect_eq(first, [(r, o, position(text, o)) for r, o, _ in want_all], f"report of a linter object on {text!r}")
    if want_all and any(s in word for s in ("d", "f", "1d", "2d", "3d", "1n", "55f", "F", "q")):
        less = strip(text, want_all)
        a, b = impl.compile_ast(ast), impl.compile_ast(parser()(less))
        expect_eq(canon(b), canon(a), f"drawing without the reported commands\n{text!r}\n{less!r}")
        expect_eq(observed(lint(parser()(less))), [], f"violations left in {less!r}")
        n += 1
    return Obs(states=[tuple(word[:k]) for k in range(1, len(word) + 1)], transitions=len(word), traces=n,
               outcome=tuple((r, c) for r, _, c in want_all))


def canon(rvmc):
    return repr(rvmc.commands)


def run_errors(_case):
    from pygerber.gerber.linter import RULE_REGISTRY, lint

    ast = parser()(HEAD + "G54*M02*")
    for bad in (["NOPE"], ["DEP001", "dep002x"]):
        try:
            list(lint(ast, bad))
        except KeyError:
            continue
        raise Mismatch(f"unknown rule {bad} was accepted", "KeyError", None)
    expect(set(RULE_REGISTRY) >= {"DEP001", "DEP002", "GRB001"}, "rules", None, sorted(RULE_REGISTRY))
    return Obs(states=["rules"], traces=2, outcome="errors")


def run_case(case):
    return run_errors(case) if case[0] == "errors" else run_word(case)


def many(n):
    """Long texts: many reports, far lines and columns."""
    yield ["1"] * (n + 1)
    yield ["54d"] * n
    yield [t for k in range(n) for t in ("55f", "1", "n")]
    yield ["n"] * n + ["54d", "1", "1"]
    yield ["s"] * n + ["55", "2", "2d"]
    yield ["c"] * n + ["3", "3"]
    yield [t for k in range(n) for t in ("123"[k % 3], "d", "123"[(k + k // 4) % 3])]
    yield [t for k in range(n) for t in ("[" if k == 0 else "c", "1", "1d")] + ["]", "1", "54d"]


def cases(tier):
    for n in range(1, 31 if tier == "quick" else 121):
        for w in many(n):
            yield ["all", w]
    yield ["errors"]
    for w in itertools.chain.from_iterable(itertools.product(SYMS, repeat=k) for k in (1, 2)):
        if valid(w):
            yield ["all", list(w)]
    core = ["1", "2", "3", "1d", "2d", "54d", "55f", "d", "f", "[", "]", "(", ")", "r", "q", "n", "F", "c"]
    for w in itertools.product(SYMS if tier == "thorough" else core, repeat=3):
        if valid(w):
            yield ["some", list(w)]
    small = ["1", "2d", "1d", "54d", "d", "[", "]", "(", ")", "r", "q"] if tier == "quick" else core
    for w in itertools.product(small, repeat=4):
        if valid(w):
            yield ["some", list(w)]
    deep = ["1", "2", "1d", "d", "[", "]", "F"]
    for k in (5, 6) if tier == "quick" else (5, 6, 7):
        for w in itertools.product(deep, repeat=k):
            if valid(w) and "[" in w:
                yield ["some", list(w)]


def bounds(tier):
    t = tier == "thorough"
    return (f"all valid sequences of at most 2 of {len(SYMS)} commands and separators with all rule subsets; of 3 over {len(SYMS) if t else 18}, "
            f"of 4 over {18 if t else 11}, of 5 to {7 if t else 6} with a block aperture over 7; texts with up to {120 if t else 30} repetitions")
