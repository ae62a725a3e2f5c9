"""C03: coordinate numbers are decoded exactly by the declared format and encoding inverts decoding."""

from __future__ import annotations

import itertools
from fractions import Fraction

from mc.core import Mismatch, Obs, expect, expect_eq
from checks.c01 import parser

PROPERTY = "C03"
BATCH = 2
ASSUMPTIONS = ["formats have at least one integer and one decimal digit (all the format allows in practice)"]

ZEROS = ["L", "T", ""]


def decode(s, zeros, integral, decimal):
    sign = -1 if s.startswith("-") else 1
    digits = s.lstrip("+-")
    n = integral + decimal
    digits = digits.ljust(n, "0") if zeros == "T" else digits.rjust(n, "0")
    return float(sign * Fraction(int(digits), 10 ** decimal))


def patterns(n):
    seen = []
    for length in range(1, n + 1):
        for p in ["1" + "0" * (length - 1), "0" * (length - 1) + "1", "9" * length, "0" * length,
                  "1234567890123456"[:length], ("50" * 9)[:length], ("05" * 9)[:length], ("07090" * 4)[:length]]:
            for sign in ("", "-", "+"):
                if sign + p not in seen:
                    seen.append(sign + p)
    return seen


def positions(src):
    """Current point after every operation, and I, J offsets, as an AST visitor sees them."""
    from pygerber.gerber.ast.state_tracking_visitor import StateTrackingVisitor

    out = []

    class Reader(StateTrackingVisitor):
        def on_d01(self, node):
            super().on_d01(node)
            out.append((self.state.current_x, self.state.current_y, self.state.coordinate_i, self.state.coordinate_j))
            return node

        def on_d02(self, node):
            super().on_d02(node)
            out.append((self.state.current_x, self.state.current_y))
            return node

    Reader().on_file(parser()(src))
    return out


def same_sign_zero(a, b):
    return a == b


def run_decode(zeros, xi, xd, yi, yd):
    xs, ys = patterns(xi + xd), patterns(yi + yd)
    n = max(len(xs), len(ys))
    pairs = [(xs[k % len(xs)], ys[k % len(ys)]) for k in range(n)]
    src = f"%FS{zeros}AX{xi}{xd}Y{yi}{yd}*%%MOMM*%" + "".join(f"X{x}Y{y}D02*" for x, y in pairs)
    src += "G75*G02*" + "".join(f"X{x}Y{y}I{u}J{v}D01*" for (x, y), (u, v) in zip(pairs, pairs[::-1])) + "M02*"
    got = positions(src)
    want = [(decode(x, zeros, xi, xd), decode(y, zeros, yi, yd)) for x, y in pairs]
    want += [(decode(x, zeros, xi, xd), decode(y, zeros, yi, yd), decode(u, zeros, xi, xd), decode(v, zeros, yi, yd))
             for (x, y), (u, v) in zip(pairs, pairs[::-1])]
    for p, g, w in zip([*pairs, *pairs], got, want):
        expect_eq(tuple(g), w, f"coordinates {p} in format {zeros}X{xi}{xd}Y{yi}{yd}")
    expect_eq(len(got), len(want), "number of operations")
    # omitted coordinates keep the value
    src = f"%FS{zeros}AX{xi}{xd}Y{yi}{yd}*%%MOMM*%" + "".join(f"X{x}D02*Y{y}D02*D02*" for x, y in pairs[:40]) + "M02*"
    cx = cy = 0.0
    want = []
    for x, y in pairs[:40]:
        cx = decode(x, zeros, xi, xd)
        want.append((cx, cy))
        cy = decode(y, zeros, yi, yd)
        want += [(cx, cy), (cx, cy)]
    expect_eq(positions(src), want, f"omitted coordinates in format {zeros}X{xi}{xd}Y{yi}{yd}")
    # digits which do not fit the format are refused, not misread
    for axis, n in (("X", xi + xd), ("Y", yi + yd)):
        for bad in ("1" * (n + 1), "-" + "0" * (n + 1), "9" * (n + 4)):
            try:
                r = positions(f"%FS{zeros}AX{xi}{xd}Y{yi}{yd}*%%MOMM*%{axis}{bad}D02*M02*")
            except Exception:  # noqa: BLE001
                continue
            raise Mismatch(f"{axis}{bad} does not fit {zeros}X{xi}{xd}Y{yi}{yd} but was read", "an error", r)
    return len(pairs) * 2 + 120 + 6


def fmt(zeros, xi, xd, yi, yd):
    from pygerber.gerber.ast.state_tracking_visitor import CoordinateFormat
    from pygerber.gerber.ast.nodes import Zeros

    return CoordinateFormat(zeros=Zeros(zeros), x_integral=xi, x_decimal=xd, y_integral=yi, y_decimal=yd)


def grid(integral, decimal, tier):
    top = 10 ** (integral + decimal)
    limit = 3000 if tier == "quick" else 200000
    if top <= limit:
        return range(top)
    vals = set(range(200)) | set(range(top - 100, top))
    for e in range(integral + decimal):
        for m in (1, 2, 5, 9, 11, 25, 99, 101, 123, 999, 12345):
            for o in (-1, 0, 1):
                v = m * 10 ** e + o
                if 0 <= v < top:
                    vals.add(v)
    return sorted(vals)


def run_encode(zeros, xi, xd, yi, yd, tier):
    f = fmt(zeros, xi, xd, yi, yd)
    n = 0
    for pack, unpack, i, d, axis in ((f.pack_x, f.unpack_x, xi, xd, "x"), (f.pack_y, f.unpack_y, yi, yd, "y")):
        for k in grid(i, d, tier):
            for sign in (1, -1):
                v = float(Fraction(sign * k, 10 ** d))
                s = str(pack(v))
                digits = s.lstrip("+-")
                n += 1
                if not (digits.isdigit() and len(digits) <= i + d and len(s) - len(digits) <= 1):
                    raise Mismatch(f"{v} encoded by {zeros}{i}{d} is no coordinate", None, s)
                expect_eq(decode(s, zeros, i, d), v, f"{v} encoded as {s} by {zeros}{i}.{d} means another value ({axis})")
                expect_eq(unpack(s), v, f"{v} encoded as {s} by {zeros}{i}.{d} is decoded differently ({axis})")
        # values between grid points go to a nearest one
        for k in list(grid(i, d, "quick"))[:: max(1, 10 ** (i + d) // 500 if 10 ** (i + d) <= 3000 else 7)]:
            for num, den in ((1, 4), (3, 4), (-1, 4), (49, 100)):
                exact = Fraction(k, 10 ** d) + Fraction(num, den * 10 ** d)
                if exact < 0 or exact + Fraction(1, 2 * 10 ** d) >= 10 ** i:
                    continue
                s = str(pack(float(exact)))
                n += 1
                want = float(Fraction(k + (1 if num / den > 0.5 else 0), 10 ** d))
                expect_eq(decode(s, zeros, i, d), want, f"{float(exact)} encoded as {s} by {zeros}{i}.{d} is not nearest")
        for v in (10.0 ** i, 10.0 ** i + 1, -(10.0 ** i)):
            try:
                s = pack(v)
            except Exception:  # noqa: BLE001
                n += 1
                continue
            raise Mismatch(f"{v} does not fit {zeros}{i}.{d} but was encoded", "an error", str(s))
    return n


def cases(tier):
    dims = list(itertools.product(range(1, 7), range(1, 8)))
    yield ["refused"]
    for z in ZEROS:
        for k, (i, d) in enumerate(dims):
            yield ["decode", z, i, d, i, d]
            yi, yd = dims[(k * 5 + 3) % len(dims)]
            yield ["decode", z, i, d, yi, yd]
    for z in ZEROS:
        for k, (i, d) in enumerate(dims):
            yi, yd = dims[(k * 5 + 3) % len(dims)]
            yield ["encode", z, i, d, yi, yd, tier]
    if tier == "thorough":
        for z in ZEROS:
            for (i, d), (yi, yd) in itertools.product(dims, repeat=2):
                yield ["decode", z, i, d, yi, yd]
        for z in ("L", "T"):
            for i, d in [(1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (3, 1)]:
                yield ["alldigits", z, i, d]


def run_refused():
    """Nothing is read without digits or without a format."""
    from pygerber.gerber.ast.errors import AstError

    n = 0
    for z, i, d in itertools.product(ZEROS, range(1, 7), range(1, 8)):
        f = fmt(z, i, d, i, d)
        for bad, unpack in itertools.product(("", "+", "-"), (f.unpack_x, f.unpack_y)):
            try:
                r = unpack(bad)
            except AstError:
                n += 1
                continue
            raise Mismatch(f"no digits ({bad!r}) were read in {z}{i}{d}", "an error", r)
    for k in range(1, 16):
        axes = "".join(f"{a}1000" for b, a in enumerate("XYIJ") if k >> b & 1)
        for op, head in itertools.product(("D01", "D02", "D03"), ("", "%MOMM*%", "%MOIN*%G75*G03*", "%MOMM*%%ADD10C,1*%D10*")):
            if op != "D01" and k > 3:
                continue
            try:
                r = positions(f"{head}{axes}{op}*%FSLAX24Y24*%M02*")
            except AstError:
                n += 1
                continue
            raise Mismatch(f"{axes}{op} was read without a format", "an error", r)
    return n


def run_case(case):
    if case[0] == "decode":
        n = run_decode(*case[1:])
    elif case[0] == "refused":
        n = run_refused()
    elif case[0] == "alldigits":
        _, z, i, d = case
        f = fmt(z, i, d, i, d)
        n = 0
        for length in range(1, i + d + 1):
            for t in itertools.product("0123456789", repeat=length):
                for sign in ("", "-", "+"):
                    s = sign + "".join(t)
                    expect_eq(f.unpack_x(s), decode(s, z, i, d), f"{s} in {z}{i}{d}")
                    n += 1
    else:
        n = run_encode(*case[1:])
    return Obs(states=[repr(case)], transitions=n, traces=n, outcome=repr(case))


def bounds(tier):
    return ("all formats 1-6 integer x 1-7 decimal digits x 3 zero omission modes, independent formats for X and Y; digit "
            "patterns of every length; every representable value of short formats (up to 3000, thorough 200000 values), "
            "boundary values of long ones")
