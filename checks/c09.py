"""C09: macro apertures: expressions, variables and primitives mean what the format says."""

from __future__ import annotations

import itertools
import math

from mc import geom, gmodel, impl, render
from mc.core import Mismatch, Obs, expect
from mc.gmodel import num

PROPERTY = "C09"
BATCH = 3
ASSUMPTIONS = [
    "expressions use defined variables, no division by zero; values below 1e4",
    "points closer than 0.03 (vector) / 0.13 (raster) to an outline are not decided",
]

# ------------------------------------------------------------------------- expressions
OPS = ["+", "-", "x", "X", "/"]
PARAMS = [3.0, 0.5, 1.25]


def evaluate(tokens, env):
    """Recursive descent evaluation, standard precedence, left associative."""
    pos = 0

    def peek():
        return tokens[pos] if pos < len(tokens) else None

    def expr():
        nonlocal pos
        v = term()
        while peek() in ("+", "-"):
            op = tokens[pos]
            pos += 1
            w = term()
            v = v + w if op == "+" else v - w
        return v

    def term():
        nonlocal pos
        v = factor()
        while peek() in ("x", "X", "/"):
            op = tokens[pos]
            pos += 1
            w = factor()
            v = v * w if op != "/" else v / w
        return v

    def factor():
        nonlocal pos
        t = tokens[pos]
        pos += 1
        if t == "(":
            v = expr()
            pos += 1
            return v
        if t in ("-", "+"):
            v = factor()
            return -v if t == "-" else v
        if t.startswith("$"):
            return env[t]
        return float(t)

    return expr()


def shapes(n):
    """All ways to parenthesise n operands with explicit groups of 2..n-1 consecutive ones."""
    spans = [(i, j) for i in range(n) for j in range(i + 1, n) if not (i == 0 and j == n - 1)]
    yield ()
    for s in spans:
        yield (s,)
    for s, t in itertools.combinations(spans, 2):
        nested = (s[0] <= t[0] and t[1] <= s[1]) or (t[0] <= s[0] and s[1] <= t[1])
        disjoint = s[1] < t[0] or t[1] < s[0]
        if nested or disjoint:
            yield (s, t)


def write(operands, ops, groups):
    out = []
    for k, operand in enumerate(operands):
        out += ["("] * sum(1 for g in groups if g[0] == k)
        out += operand
        out += [")"] * sum(1 for g in groups if g[1] == k)
        if k < len(ops):
            out.append(ops[k])
    return out


def expressions(tier):
    atoms = [["7"], ["2.5"], ["$1"], ["$2"]]
    signs = [[], ["-"], ["+"]]
    for a in [["0"], ["10"], ["0.001"], ["-3"], [".5"], ["$1"], ["$2"], ["$3"], ["4."]]:
        yield a
    for a, s in itertools.product(atoms, signs):
        yield [*s, *a]
        yield [*s, "(", *a, ")"]
    for a, b in itertools.product(atoms, repeat=2):
        for o in OPS:
            for s in signs:
                yield write([[*s, *a], b], [o], ())
            yield [*"(", *write([a, b], [o], ()), ")"]
            yield ["-", "(", *write([a, b], [o], ()), ")"]
            yield write([a, ["(", "-", *b, ")"]], [o], ())
    three = [[["7"], ["2.5"], ["$1"]], [["$2"], ["$1"], ["4"]]]
    for abc in three:
        for o in itertools.product(OPS, repeat=2):
            for g in shapes(3):
                for s in signs[:2]:
                    yield write([[*s, *abc[0]], abc[1], abc[2]], list(o), g)
    ops = ["+", "-", "x", "/"]
    four = [["9"], ["$1"], ["2"], ["$2"]]
    for o in itertools.product(ops, repeat=3):
        for g in shapes(4):
            yield write(four, list(o), g)
    if tier == "thorough":
        five = [["9"], ["$1"], ["2"], ["$2"], ["5"]]
        for o in itertools.product(ops, repeat=4):
            for g in shapes(5):
                yield write(five, list(o), g)


def ok_expr(tokens):
    env = {f"${k + 1}": v for k, v in enumerate(PARAMS)}
    try:
        v = evaluate(tokens, env)
    except ZeroDivisionError:
        return None
    return v if abs(v) < 1e4 else None


def run_exprs(exprs):
    """One macro per expression; the value shows as the position of a unit square."""
    env = {f"${k + 1}": v for k, v in enumerate(PARAMS)}
    ops = []
    for k, e in enumerate(exprs):
        # the value is used as a primitive parameter (odd) or through an assignment (even)
        if k % 2:
            lines = [f"21,1,1,1,{''.join(e)},0,0"]
        else:
            lines = [f"$9={''.join(e)}", "21,1,1,1,$9,0,0"]
        ops.append(["AM", f"E{k}", lines])
        ops.append(["AD", 10 + k, f"E{k}", PARAMS])
        ops += [["D", 10 + k], ["D03", 0.0, 5.0 * k]]
    src = gmodel.text(ops)
    res = impl.run_shapely(impl.compile_ast(render.parser()(src)))
    got = {}
    for g in getattr(res.shape, "geoms", [res.shape]):
        b = g.bounds
        got[round((b[1] + 0.5) / 5.0)] = (b[0] + b[2]) / 2
    for k, e in enumerate(exprs):
        want = evaluate(e, env)
        expect(k in got and abs(got[k] - want) <= 1e-6 * max(1, abs(want)),
               f"value of expression {''.join(e)}", want, got.get(k))
    return Obs(states=["".join(e) for e in exprs], transitions=sum(map(len, exprs)), traces=len(exprs),
               outcome=repr(sorted(got.items())))


# ------------------------------------------------------------------------- assignments
ASSIGN = ["$1=$2", "$4=$1+1", "$1=$1x2", "$5=$4-$2", "$4=$5", "$2=7", "$3=$3/2"]


PARAMS2 = [-2.0, 6.0, 0.75]


def run_assign(seq):
    envs = [{f"${k + 1}": v for k, v in enumerate(p)} for p in (PARAMS, PARAMS2)]
    lines, want = [], []
    for k, a in enumerate(seq):
        name, e = a.split("=")
        tokens = tokenize(e)
        if any(t.startswith("$") and t not in envs[0] for t in tokens):
            return Obs(transitions=0, traces=0)
        lines.append(a)
        for n, env in enumerate(envs):
            env[name] = evaluate(tokens, env)
        # every value in scope is observed after every assignment
        for j, var in enumerate(sorted(envs[0])):
            y = 5.0 * (k * 6 + j)
            lines.append(f"21,1,1,1,{var},{num(y)},0")
            want += [(y + n * 500.0, env[var]) for n, env in enumerate(envs)]
    ops = [["AM", "V", lines], ["AD", 10, "V", PARAMS], ["AM", "W", ["21,1,1,1,$1,-10,0"]],
           ["AD", 11, "W", [4.0]], ["AD", 12, "V", PARAMS2], ["D", 10], ["D03", 0.0, 0.0], ["D", 11], ["D03", 0.0, 0.0],
           ["D", 12], ["D03", 0.0, 500.0]]
    want.append((-10.0, 4.0))  # variables of one macro never reach another, nor another aperture of the same macro
    res = impl.run_shapely(impl.compile_ast(render.parser()(gmodel.text(ops))))
    got = {round(g.bounds[1] + 0.5, 3): (g.bounds[0] + g.bounds[2]) / 2
           for g in getattr(res.shape, "geoms", [res.shape])}
    for y, v in want:
        expect(y in got and abs(got[y] - v) < 1e-6, f"variable after {seq}", want, got)
    expect(len(got) == len(want), f"number of squares after {seq}", want, got)
    return Obs(states=[tuple(want)], transitions=len(seq), outcome=tuple(want))


def tokenize(s):
    out, cur = [], ""
    for ch in s:
        if ch in "+-xX/()":
            if cur:
                out.append(cur)
            out.append(ch)
            cur = ""
        else:
            cur += ch
    return [*out, cur] if cur else out


# -------------------------------------------------------------------------- primitives


def prim(code, p):
    """Layer entries [(dark, prim)] of primitive, before rotation; rotation is last parameter."""
    if code == 1:
        e, d, x, y = p[:4]
        r = p[4] if len(p) > 4 else 0
        q = [(bool(e), geom.circle(x, y, d))]
    elif code in (2, 20):
        e, w, x0, y0, x1, y1, r = p
        q = [(bool(e), geom.butt_line(x0, y0, x1, y1, w))]
    elif code == 21:
        e, w, h, x, y, r = p
        q = [(bool(e), geom.rect(x, y, w, h))]
    elif code == 22:
        e, w, h, x, y, r = p
        q = [(bool(e), geom.rect(x + w / 2, y + h / 2, w, h))]
    elif code == 4:
        e, n = p[0], int(p[1])
        pts = [(p[2 + 2 * k], p[3 + 2 * k]) for k in range(n + 1)]
        r = p[-1]
        q = [(bool(e), ("poly", pts[:-1]))]
    elif code == 5:
        e, n, x, y, d, r = p
        q = [(bool(e), geom.regular(x, y, d, int(n), 0))]
    elif code == 6:
        x, y, d, thk, gap, rings, ct, cl, r = p
        q = []
        o = d
        for _ in range(int(rings)):
            if o <= 0:
                break
            i = o - 2 * thk
            q.append((True, ("sub", geom.circle(x, y, o), geom.circle(x, y, i)) if i > 0
                      else geom.circle(x, y, o)))
            if i <= 0:
                break
            o = i - 2 * gap
        if ct > 0 and cl > 0:
            q += [(True, geom.rect(x, y, cl, ct)), (True, geom.rect(x, y, ct, cl))]
    elif code == 7:
        x, y, od, idm, gap, r = p
        base = geom.circle(x, y, od)
        if idm > 0:
            base = ("sub", base, geom.circle(x, y, idm))
        base = ("sub", base, geom.rect(x, y, od * 3, gap))
        q = [(True, ("sub", base, geom.rect(x, y, gap, od * 3)))]
        if idm >= od or gap * math.sqrt(2) >= od:
            q = []
    else:
        raise ValueError(code)
    m = geom.rotate(r)
    return [(d, geom.transform(m, s)) for d, s in q]


ROT = [0, 30, 45, 90, 180, 200, -60]
EXP = [1, 0]


def primitive_cases(tier):
    rot = ROT
    for r, e in itertools.product(rot, EXP):
        for d, x, y in [(1.0, 0, 0), (2.0, 1.0, -0.5), (0.6, -1.2, 0.8)]:
            yield 1, [e, d, x, y, r]
            if r == 0:
                yield 1, [e, d, x, y]
        for w, ln in [(0.5, (-1, 0, 1.5, 0)), (0.8, (0, -1, 0, 2)), (0.4, (-1, -1, 1.2, 0.7)), (0.6, (1.5, 1, -0.5, 1))]:
            yield 20, [e, w, *ln, r]
            yield 2, [e, w, *ln, r]
        for w, h, x, y in [(2, 1, 0, 0), (0.6, 1.8, 1.0, 0.5), (1.2, 0.4, -0.8, -0.9)]:
            yield 21, [e, w, h, x, y, r]
            yield 22, [e, w, h, x, y, r]
        for pts in [
            [(0, 0), (2, 0), (0, 1.5)],
            [(-1, -1), (1, -1), (1.2, 1), (0, 0.2), (-1.2, 1)],
            [(0.5, 0.5), (1.5, 0.5), (1.5, 1.5), (0.5, 1.5)],
        ]:
            flat = [c for pt in [*pts, pts[0]] for c in pt]
            yield 4, [e, len(pts), *flat, r]
        for n, x, y, d in [(3, 0, 0, 2.0), (4, 0.8, 0.3, 1.6), (5, -0.5, 0.9, 1.8), (8, 0, 1, 2.4), (12, 0, 0, 2)]:
            yield 5, [e, n, x, y, d, r]
    for r in rot:
        for x, y in [(0, 0), (0.9, -0.4)]:
            for d, thk, gap, rings, ct, cl in [
                (4, 0.4, 0.3, 2, 0.2, 5), (3, 0.3, 0.3, 9, 0, 0), (3, 0.5, 0.5, 1, 0.3, 2), (3, 0.8, 0.2, 2, 0.3, 4),
                (2.4, 0.3, 0.4, 3, 0.2, 1), (3, 0.5, 0.3, 0, 0.3, 3), (3, 1.5, 0.3, 2, 0.3, 4), (2, 1.2, 0.2, 3, 0, 0),
                (3, 0.4, 2, 3, 0.2, 3.4), (3, 0.4, 0.4, 2, 0, 4), (3, 0.4, 0.4, 2, 0.3, 0),
            ]:
                yield 6, [x, y, d, thk, gap, rings, ct, cl, r]
            for od, idm, gap in [(3, 2, 0.4), (3, 1, 0.8), (2.4, 0.4, 0.3), (3, 2, 1.6), (2, 0, 0.5), (3, 2.4, 0.2), (3, 1.5, 0),
                                 # nothing is left of these
                                 (3, 3, 0.4), (2, 3, 0.4), (3, 2, 2.2), (3, 1, 3.5)]:
                yield 7, [x, y, od, idm, gap, r]


def run_prims(spec, base):
    """Macro of the given primitives over an optional base plate, flashed over other objects."""
    layer, lines = [], []
    if base:
        lines.append("21,1,5,3,0.5,0.2,0")
        layer.append((True, geom.rect(0.5, 0.2, 5, 3)))
    for code, p in spec:
        lines.append(f"{code}," + ",".join(num(v) for v in p))
        layer += prim(code, p)
    # the macro is one layer: what it clears shows what was painted below it
    macros = {"M": lambda _p: layer}
    ops = [["AD", 11, "R", [9.0, 1.0]], ["D", 11], ["D03", 0.5, 1.2], ["AM", "M", lines], ["AD", 10, "M", []],
           ["D", 10], ["D03", 0.4, 0.1]]
    return render.check_program(ops, macros, count=1600)


def run_vars(code, p):
    """Every parameter of a primitive comes from its own variable; the aperture is defined twice."""
    mask = [k not in FIXED.get(code, ()) for k in range(len(p))]
    refs, values, n = [], [], 0
    for v, free in zip(p, mask):
        if free:
            n += 1
            refs.append(f"${n}" if n % 2 else f"(${n}+2)-2")
            values.append(v)
        else:
            refs.append(num(v))
    lines = ["21,1,5,3,0.5,0.2,0", f"{code}," + ",".join(refs)]

    def layer(q):
        it = iter(q)
        full = [next(it) if free else v for v, free in zip(p, mask)]
        return [(True, geom.rect(0.5, 0.2, 5, 3)), *prim(code, full)]

    last = values[:-1] + [values[-1] + 40]
    ops = [["AD", 11, "R", [9.0, 1.0]], ["D", 11], ["D03", 0.5, 1.2], ["AM", "M", lines], ["AD", 10, "M", values],
           ["AD", 12, "M", last], ["D", 10], ["D03", 0.4, 0.1], ["D", 12], ["D03", 8.4, 0.1]]
    return render.check_program(ops, {"M": layer}, count=1600)


FIXED = {4: (1,)}  # number of vertices decides how the primitive is read
SEQ = [
    (1, [1, 1.6, 0.4, 0, 0]), (1, [0, 1.0, 0, 0.3, 0]), (20, [1, 0.5, -1.5, 0, 1.5, 0.6, 0]),
    (21, [0, 1.2, 0.6, 0.3, -0.3, 20]), (4, [1, 3, 0, 0, 2, 0, 0, 2, 0, 0, 30]), (5, [0, 6, -0.6, 0.2, 1.4, 10]),
    (7, [0.6, 0.3, 2.4, 1.4, 0.4, 45]), (7, [-0.7, 0.2, 2.0, 1.0, 0.3, 0]), (6, [0, 0, 3, 0.4, 0.3, 2, 0.2, 3.6, 15]),
    (22, [1, 1, 0.7, -1.2, -0.8, 0]),
]


# ------------------------------------------------------------------------- many of everything
MANY = {"params": 24, "chain": 24, "prims": 24, "points": 40, "verts": 12, "paren": 10, "sum": 24, "alternate": 24, "defs": 30,
        "macros": 30, "rings": 12, "far": 12, "numbers": 12, "scaled": 12}


def squares(lines, params=(), extra=()):
    """Positions x of unit squares of a macro by their y."""
    ops = [["AM", "M", lines], ["AD", 10, "M", list(params)], *extra, ["D", 10], ["D03", 0.0, 0.0]]
    res = impl.run_shapely(impl.compile_ast(render.parser()(gmodel.text(ops))))
    return {round(g.bounds[1] + 0.5, 3): (g.bounds[0] + g.bounds[2]) / 2
            for g in getattr(res.shape, "geoms", [res.shape])}


def run_many(kind, n):
    want = None
    if kind == "params":
        vals = [round(1.5 + 0.75 * ((k * 7) % n), 3) for k in range(n)]
        got = squares([f"21,1,1,1,${k + 1},{3 * k},0" for k in range(n)], vals)
        want = {3.0 * k: vals[k] for k in range(n)}
    elif kind == "chain":
        lines = [f"${k + 2}=${k + 1}+{k + 1}" for k in range(n)] + [f"21,1,1,1,${k + 1},{3 * k},0" for k in range(n + 1)]
        got = squares(lines, [0.5])
        want = {3.0 * k: 0.5 + k * (k + 1) / 2 for k in range(n + 1)}
    elif kind == "paren":
        e, v = "$1", 2.0
        for k in range(n):
            e, v = (f"({e}+{k + 1})", v + k + 1) if k % 2 else (f"({k + 3}-{e})", k + 3 - v)
        got, want = squares([f"21,1,1,1,{e},0,0"], [2.0]), {0.0: v}
    elif kind == "sum":
        e = "100" + "".join(f"-{k + 1}" if k % 3 else f"+{k + 2}" for k in range(n))
        got, want = squares([f"21,1,1,1,{e},0,0"]), {0.0: float(eval(e))}  # noqa: S307
    elif kind == "alternate":
        e = "$1" + "".join("x2" if k % 2 == 0 else "/4" for k in range(n)) + "+1-$1/2x3"
        got, want = squares([f"21,1,1,1,{e},0,0"], [64.0]), {0.0: float(eval(e.replace("x", "*").replace("$1", "64.0")))}  # noqa: S307
    elif kind == "defs":
        ops = [["AM", "M", ["$3=$1+$2", "21,1,1,1,$3,0,0"]]]
        ops += [["AD", 10 + k, "M", [float(k), 0.5 * k]] for k in range(n)]
        for k in range(n):
            ops += [["D", 10 + (k * 7) % n if n % 7 else 10 + k], ["D03", 0.0, 3.0 * k]]
        ids = [(k * 7) % n if n % 7 else k for k in range(n)]
        res = impl.run_shapely(impl.compile_ast(render.parser()(gmodel.text(ops))))
        got = {round(g.bounds[1] + 0.5, 3): (g.bounds[0] + g.bounds[2]) / 2 for g in getattr(res.shape, "geoms", [res.shape])}
        want = {3.0 * k: 1.5 * ids[k] for k in range(n)}
    elif kind == "macros":
        ops = []
        for k in range(n):
            ops += [["AM", f"M{k}", [f"$1=$1x{k + 1}", "21,1,1,1,$1,0,0"]]]
        ops += [["AD", 10 + k, f"M{n - 1 - k}", [2.0]] for k in range(n)]
        for k in range(n):
            ops += [["D", 10 + k], ["D03", 0.0, 3.0 * k]]
        res = impl.run_shapely(impl.compile_ast(render.parser()(gmodel.text(ops))))
        got = {round(g.bounds[1] + 0.5, 3): (g.bounds[0] + g.bounds[2]) / 2 for g in getattr(res.shape, "geoms", [res.shape])}
        want = {3.0 * k: 2.0 * (n - k) for k in range(n)}
    elif kind == "far":  # variables with large numbers
        name = f"${10 ** (n % 6) + n}"
        got = squares([f"{name}=$1+{n}", f"21,1,1,1,{name},0,0"], [1.0])
        want = {0.0: 1.0 + n}
    elif kind == "numbers":  # counts given by arithmetic that is not exact
        v = n % 10 + 3
        layer = prim(5, [1, v, 0.2, 0.1, 3.0, 0])
        ops = [["AM", "M", ["5,1,$1/$2,0.2,0.1,3,0"]], ["AD", 10, "M", [v / 10, 0.1]], ["D", 10], ["D03", 0.0, 0.0]]
        return render.check_program(ops, {"M": lambda _p: layer}, count=2500)
    elif kind == "scaled":
        v = n % 6 + 1
        layer = prim(6, [0, 0, 6.0, 0.2, 0.2, v, 0.1, 7.0, 0])
        ops = [["AM", "M", ["6,0,0,6,0.2,0.2,$1/$2,0.1,7,0"]], ["AD", 10, "M", [v / 10, 0.1]], ["D", 10], ["D03", 0.0, 0.0]]
        return render.check_program(ops, {"M": lambda _p: layer}, count=4000)
    if want is not None:
        expect(set(got) == set(want) and all(abs(got[y] - want[y]) < 1e-6 * max(1, abs(want[y])) for y in want),
               f"{n} of {kind}", want, got)
        return Obs(states=[(kind, n)], transitions=n, outcome=repr(sorted(want.items())))
    if kind == "prims":
        return run_prims([(1, [(k + 1) % 2, 1.2, -2 + 0.25 * k, 0.3 * (k % 3), 0]) for k in range(n)], True)
    if kind == "points":
        pts = [(round((2 + k % 2) * math.cos(2 * math.pi * k / (n + 2)), 6),
                round((2 + k % 2) * math.sin(2 * math.pi * k / (n + 2)), 6)) for k in range(n + 2)]
        return run_prims([(4, [1, len(pts), *[c for q in [*pts, pts[0]] for c in q], 15])], False)
    if kind == "verts":
        return run_prims([(5, [1, max(n, 3), 0.3, 0.2, 3.0, 10])], False)
    if kind == "rings":
        return run_prims([(6, [0, 0, 8.0, 0.25, 0.2, n, 0.1, 9.0, 20])], False)
    raise ValueError(kind)


def cases(tier):
    for kind, top in MANY.items():
        for n in range(1, top * (1 if tier == "quick" or kind in ("paren", "verts") else 3) + 1):
            yield ["many", kind, n]
    chunk = []
    for e in expressions(tier):
        if ok_expr(e) is None:
            continue
        chunk.append(e)
        if len(chunk) == 8:
            yield ["expr", chunk]
            chunk = []
    if chunk:
        yield ["expr", chunk]
    for n in range(1, 4 if tier == "quick" else 5):
        for seq in itertools.product(ASSIGN, repeat=n):
            yield ["assign", list(seq)]
    for code, p in primitive_cases(tier):
        exposed = code in (6, 7) or p[0] == 1
        for base in ([True, False] if exposed else [True]):
            yield ["prim", [[code, p]], base]
    for code, p in SEQ:
        yield ["vars", code, p]
    for a, b in itertools.product(SEQ, repeat=2):
        yield ["prim", [[a[0], a[1]], [b[0], b[1]]], True]
    if tier == "thorough":
        for s in itertools.product(SEQ, repeat=3):
            yield ["prim", [[a[0], a[1]] for a in s], True]


def run_case(case):
    if case[0] == "expr":
        return run_exprs(case[1])
    if case[0] == "assign":
        return run_assign(case[1])
    if case[0] == "many":
        return run_many(*case[1:])
    if case[0] == "vars":
        return run_vars(*case[1:])
    obs = run_prims([(c, p) for c, p in case[1]], case[2])
    obs.states = [repr(case)]
    return obs


def bounds(tier):
    return ("all expressions over 5 operators with up to 3 (thorough 4) binary operators, every parenthesisation with up "
            "to two groups, signs; all assignment sequences up to 3 (4); every primitive over parameter grids x "
            f"{len(ROT)} rotations x exposure x base; all ordered pairs (triples) of primitives; 1 to 40 "
            "parameters, variables, primitives, points, vertices, nested parentheses, terms, apertures, macros")
