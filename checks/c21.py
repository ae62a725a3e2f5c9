"""C21: highlighting keeps the text and classifies commands; text positions are totally ordered."""

from __future__ import annotations

import itertools
import operator
import os

from mc.core import Mismatch, Obs, expect, expect_eq

PROPERTY = "C21"
BATCH = 30
ASSUMPTIONS = ["class of punctuation and of free text is not decided", "line breaks are given as LF"]
CHARS = "%*GDXYM01-.,$A \n"
# text -> [(offset, length, class)] of the pieces with an assigned class
PIECES = {
    "G01*": [(0, 3, "Keyword")], "G2*": [(0, 2, "Keyword")], "G75*": [(0, 3, "Keyword")], "M02*": [(0, 3, "Keyword")],
    "D10*": [(0, 3, "Name.Variable")], "D123*": [(0, 4, "Name.Variable")],
    "D01*": [(0, 3, "Keyword")], "D2*": [(0, 2, "Keyword")], "D003*": [(0, 4, "Keyword")],
    "X10Y20D01*": [(0, 1, "Keyword"), (1, 2, "Literal.Number"), (3, 1, "Keyword"), (4, 2, "Literal.Number"), (6, 3, "Keyword")],
    "X-10Y+20I-3J4D02*": [(0, 1, "Keyword"), (1, 3, "Literal.Number"), (4, 1, "Keyword"), (5, 3, "Literal.Number"), (8, 1, "Keyword"), (9, 2, "Literal.Number"),
                          (11, 1, "Keyword"), (12, 1, "Literal.Number"), (13, 3, "Keyword")],
    "%FSLAX24Y24*%": [(1, 2, "Keyword"), (3, 2, "Keyword.Constant"), (5, 1, "Keyword"), (6, 2, "Literal.Number"), (8, 1, "Keyword"), (9, 2, "Literal.Number")],
    "%MOMM*%": [(1, 2, "Keyword"), (3, 2, "Keyword.Constant")], "%MOIN*%": [(1, 2, "Keyword"), (3, 2, "Keyword.Constant")],
    "%ADD10C,0.5*%": [(1, 2, "Keyword"), (3, 3, "Name.Variable"), (6, 1, "Name.Class"), (8, 3, "Literal.Number")],
    "%ADD100mac,1X2.5*%": [(1, 2, "Keyword"), (3, 4, "Name.Variable"), (7, 3, "Name.Class"), (11, 1, "Literal.Number"), (13, 3, "Literal.Number")],
    "%AMm*1,1,$1,-0.5,0*%": [(1, 2, "Keyword"), (3, 1, "Name.Class"), (9, 2, "Name.Variable"), (12, 4, "Literal.Number")],
    "%ABD12*%": [(1, 2, "Keyword"), (3, 3, "Name.Variable")], "%AB*%": [(1, 2, "Keyword")],
    "%SRX2Y3I1J1*%": [(1, 2, "Keyword"), (3, 1, "Keyword"), (4, 1, "Literal.Number")], "%SR*%": [(1, 2, "Keyword")],
    "%TA.AperFunction,ViaPad*%": [(1, 2, "Keyword")], "%TO.N,x*%": [(1, 2, "Keyword")], "%TF.Part,Single*%": [(1, 2, "Keyword")],
    "%TD*%": [(1, 2, "Keyword")],
    "D1*": [(0, 2, "Keyword")], "D001*": [(0, 4, "Keyword")], "D0001*": [(0, 5, "Keyword")], "D02*": [(0, 3, "Keyword")], "D0002*": [(0, 5, "Keyword")],
    "D3*": [(0, 2, "Keyword")], "D03*": [(0, 3, "Keyword")], "D0003*": [(0, 5, "Keyword")], "D010*": [(0, 4, "Name.Variable")], "D11*": [(0, 3, "Name.Variable")],
    "D12*": [(0, 3, "Name.Variable")], "D13*": [(0, 3, "Name.Variable")], "D20*": [(0, 3, "Name.Variable")], "D1000*": [(0, 5, "Name.Variable")],
    "G0001*": [(0, 5, "Keyword")], "G36*": [(0, 3, "Keyword")], "G54D10*": [(0, 3, "Keyword"), (3, 3, "Name.Variable")], "M00*": [(0, 3, "Keyword")],
    "X1D01*": [(0, 1, "Keyword"), (1, 1, "Literal.Number"), (2, 3, "Keyword")], "Y-5D3*": [(0, 1, "Keyword"), (1, 2, "Literal.Number"), (3, 2, "Keyword")],
    "I7J-8D1*": [(0, 1, "Keyword"), (1, 1, "Literal.Number"), (2, 1, "Keyword"), (3, 2, "Literal.Number"), (5, 2, "Keyword")],
    "X0010Y0D0001*": [(0, 1, "Keyword"), (1, 4, "Literal.Number"), (5, 1, "Keyword"), (6, 1, "Literal.Number"), (7, 5, "Keyword")],
    "%ADD999.x_1Y*%": [(1, 2, "Keyword"), (3, 4, "Name.Variable"), (7, 5, "Name.Class")],
    "%ADD12$m,-1*%": [(1, 2, "Keyword"), (3, 3, "Name.Variable"), (6, 2, "Name.Class"), (9, 2, "Literal.Number")],
    "%AM$a.B_9*$1=1.5x$23*%": [(1, 2, "Keyword"), (3, 6, "Name.Class"), (10, 2, "Name.Variable"), (13, 3, "Literal.Number"), (17, 3, "Name.Variable")],
    "%IPPOS*%": [(1, 2, "Keyword")], "%IR90*%": [(1, 2, "Keyword"), (3, 2, "Literal.Number")], "%OFA1.5B-2*%": [(1, 2, "Keyword")],
    "%ASAXBY*%": [(1, 2, "Keyword")], "%MIA0B1*%": [(1, 2, "Keyword")], "%INname*%": [(1, 2, "Keyword")], "%SFA1B2*%": [(1, 2, "Keyword")],
    "%FSTIX36Y36*%": [(1, 2, "Keyword"), (3, 2, "Keyword.Constant"), (5, 1, "Keyword"), (6, 2, "Literal.Number")],
    "%FSTAX36Y36*%": [(1, 2, "Keyword"), (3, 2, "Keyword.Constant")], "%FSLIX36Y36*%": [(1, 2, "Keyword"), (3, 2, "Keyword.Constant")],
}


def lex(text, lexer=None):
    from pygerber.gerber.pygments import GerberLexer

    return list((lexer or GerberLexer(stripnl=False, ensurenl=False)).get_tokens_unprocessed(text))


def check_cover(toks, text, what):
    pos = 0
    for i, _t, v in toks:
        expect_eq(i, pos, f"{what}: tokens are not adjacent in {text!r}")
        expect(text.startswith(v, pos), f"{what}: token {v!r} is not the text", text[pos:pos + 10], v)
        pos += len(v)
    expect_eq(pos, len(text), f"{what}: tokens do not cover {text!r}")


def run_raw(case):
    _, first, n = case
    count = 0
    for rest in itertools.product(CHARS, repeat=n - 1):
        text = first + "".join(rest)
        check_cover(lex(text), text, "lexer")
        count += 1
    return Obs(states=[(first, n)], transitions=count, traces=count, outcome="raw")


def run_pieces(case):
    _, words, sep = case
    text, want = "", []
    for w in words:
        want += [(len(text) + o, n, c) for o, n, c in PIECES[w]]
        text += w + sep
    check_pieces(text, want)
    return Obs(states=[tuple(words)], transitions=len(words), traces=1, outcome="pieces")


def check_pieces(text, want):
    toks = lex(text)
    check_cover(toks, text, "lexer")
    cls = {}
    for i, t, v in toks:
        for k in range(i, i + len(v)):
            cls[k] = str(t).replace("Token.", "")
    for o, n, c in want:
        got = {cls[k] for k in range(o, o + n)}
        expect_eq(got, {c}, f"class of {text[o:o + n]!r} at {o} in {text!r}")


def grown(kind, n):
    """(text, pieces) of a command which grows with n."""
    num = "1234567890" * n
    if kind == "D":
        return f"D{num[:n + 1]}*", [(0, n + 2, "Name.Variable")]
    if kind == "D0":
        return f"D{'0' * n}1*", [(0, n + 2, "Keyword")]
    if kind == "G0":
        return f"G{'0' * n}1*", [(0, n + 2, "Keyword")]
    if kind == "X":
        return f"X{num[:n]}Y-{num[:n]}D01*", [(0, 1, "Keyword"), (1, n, "Literal.Number"), (n + 1, 1, "Keyword"), (n + 2, n + 1, "Literal.Number"), (2 * n + 3, 3, "Keyword")]
    if kind == "AD":
        return f"%ADD10C,{num[:n]}.{num[:n]}*%", [(1, 2, "Keyword"), (3, 3, "Name.Variable"), (6, 1, "Name.Class"), (8, 2 * n + 1, "Literal.Number")]
    if kind == "ADD":
        return f"%ADD{num[:n + 1]}C,1*%", [(1, 2, "Keyword"), (3, n + 2, "Name.Variable"), (n + 5, 1, "Name.Class"), (n + 7, 1, "Literal.Number")]
    if kind == "name":
        return f"%ADD10{('Mac_x.' * n)[:n + 1]},1*%", [(1, 2, "Keyword"), (3, 3, "Name.Variable"), (6, n + 1, "Name.Class"), (n + 8, 1, "Literal.Number")]
    if kind == "params":
        text = "%ADD10m," + "X".join(["1.5"] * n) + "*%"
        return text, [(8 + 4 * k, 3, "Literal.Number") for k in range(n)]
    if kind == "prims":
        text, want = "%AMm*", []
        for k in range(n):
            body = f"1,1,${k + 1},2.5,0*"
            want.append((len(text) + 4, len(str(k + 1)) + 1, "Name.Variable"))
            want.append((len(text) + 6 + len(str(k + 1)), 3, "Literal.Number"))
            text += body
        return text + "%", want
    words = list(PIECES)
    text, want = "", []
    for k in range(n):
        w = words[(n + k * 5) % len(words)]
        want += [(len(text) + o, m, c) for o, m, c in PIECES[w]]
        text += w + ("\n" if k % 3 else "")
    return text, want


GROWN = ("D", "D0", "G0", "X", "AD", "ADD", "name", "params", "prims", "rows")


def run_grown(case):
    _, kind, n, after = case
    text, want = grown(kind, n)
    check_pieces(text + after, want)
    return Obs(states=[(kind, n)], transitions=len(want), traces=1, outcome="grown")


DOCS = ["GerberX3Builder", "new_pad", "x", "dumps", "Pad", "load_example", "(", ")", ".", "=", "1", '"s"', "\n", " ", "def", "# c\n"]


def run_docs(case):
    _, words, mode = case
    from pygerber.gerber.pygments import PyGerberDocsLexer
    from pygments.lexers.python import PythonLexer

    text = " ".join(words)
    old = os.environ.get("MKDOCS_MODE")
    try:
        if mode is None:
            os.environ.pop("MKDOCS_MODE", None)
        else:
            os.environ["MKDOCS_MODE"] = mode
        lx = PyGerberDocsLexer(stripnl=False, ensurenl=False)
        toks = lex(text, lx)
        ref = lex(text, PythonLexer(stripnl=False, ensurenl=False))
        check_cover(toks, text, "docs lexer")
        expect_eq([(i, v) for i, _, v in toks], [(i, v) for i, _, v in ref], "docs lexer splits as Python")
        for (i, t, v), (_, rt, _) in zip(toks, ref):
            special = mode == "1" and str(rt) == "Token.Name" and v in lx.EXTRA_SYMBOLS
            expect_eq(str(t), str(lx.EXTRA_SYMBOLS[v] if special else rt), f"class of {v!r}")
    finally:
        os.environ.pop("MKDOCS_MODE", None)
        if old is not None:
            os.environ["MKDOCS_MODE"] = old
    return Obs(states=[(tuple(words), mode)], transitions=len(words), traces=1, outcome="docs")


def run_positions(_case):
    from pygerber.common.position import Position

    n = 0
    grid = [(a, b) for a in range(1, 6) for b in range(1, 6)]
    for p in grid:
        P = Position(*p)
        expect_eq((P.to_lspt().line, P.to_lspt().character), (p[0] - 1, p[1] - 1), "conversion to editor position")
        expect_eq(Position.from_vscode_position(p[0] - 1, p[1] - 1), P, "conversion from editor position")
        for other in (None, p, 3, "1:1"):
            expect_eq((P == other, P != other), (False, True), f"{P} compared with {other!r}")
            for op in (operator.lt, operator.le, operator.gt, operator.ge):
                for a, b in ((P, other), (other, P)):
                    try:
                        r = op(a, b)
                    except TypeError:
                        n += 1
                        continue
                    raise Mismatch(f"{op.__name__}({a!r}, {b!r})", "TypeError", r)
        for q in grid:
            Q = Position(*q)
            got = (P < Q, P <= Q, P > Q, P >= Q, P == Q, P != Q)
            expect_eq(got, (p < q, p <= q, p > q, p >= q, p == q, p != q), f"order of {p} and {q}")
            o = P.offset(q[0] - 3, q[1] - 3)
            expect_eq((o.line, o.column), (p[0] + q[0] - 3, p[1] + q[1] - 3), "offset")
            expect_eq((P.line, P.column), p, "offset leaves the position alone")
            n += 1
    return Obs(states=grid, transitions=n, traces=n, outcome="positions")


def run_case(case):
    return {"grown": run_grown, "raw": run_raw, "pieces": run_pieces, "docs": run_docs, "positions": run_positions}[case[0]](case)


def cases(tier):
    t = tier == "thorough"
    yield ["positions"]
    for n in (1, 2, 3, 4) if t else (1, 2, 3):
        for a in CHARS:
            yield ["raw", a, n]
    for k in (1, 2, 3) if t else (1, 2):
        for w in itertools.product(PIECES, repeat=k):
            for sep in ("\n", "", " ") if k < 3 else ("",):
                yield ["pieces", list(w), sep]
    for kind in GROWN:
        for n in range(1, 101 if t else 31):
            for after in ("", "\n", "G01*", "\n%LPD*%"):
                yield ["grown", kind, n, after]
    for k in (1, 2, 3):
        for w in itertools.product(DOCS if k < 3 or t else DOCS[:9], repeat=k):
            for mode in (None, "0", "1"):
                yield ["docs", list(w), mode]


def bounds(tier):
    return (f"all texts of at most {4 if tier == 'thorough' else 3} of {len(CHARS)} characters; all sequences of at most {3 if tier == 'thorough' else 2} of "
            f"{len(PIECES)} commands; {len(GROWN)} kinds of commands growing up to {100 if tier == 'thorough' else 30} times; all sequences of at most 3 Python words x 3 settings; all pairs of 25 positions")
