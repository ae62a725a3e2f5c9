"""C04: graphics state: every command changes exactly the state the format says, objects see the state in force."""

from __future__ import annotations

import itertools

from mc import impl
from mc.core import Mismatch, Obs, expect, expect_eq

PROPERTY = "C04"
BATCH = 1
ASSUMPTIONS = ["coordinate format is declared once, absolute notation; block bodies are decided by C08"]

# name -> (text, effect on model)
HEAD = "%FSLAX34Y34*%%MOMM*%"
DEFS = ("%AMM*1,1,1,0,0*%%ADD10C,0.5*%%ADD11R,1X0.5*%%ADD12O,1X0.5*%%ADD13P,1X5*%%ADD14M*%"
        "%ABD15*%G04 body*%AB*%")
SYMS = {
    "D10": "D10*", "D11": "D11*", "D12": "D12*", "D13": "D13*", "D14": "D14*", "D15": "D15*", "D16": "D16*",
    "G01": "G01*", "G02": "G02*", "G03": "G03*", "G36": "G36*", "G37": "G37*", "G74": "G74*", "G75": "G75*",
    "G70": "G70*", "G71": "G71*", "MOIN": "%MOIN*%", "MOMM": "%MOMM*%", "G54": "G54*", "G55": "G55*", "G04": "G04 x*",
    "G90": "G90*",
    "LMX": "%LMX*%", "LMXY": "%LMXY*%", "LMN": "%LMN*%", "LPC": "%LPC*%", "LPD": "%LPD*%", "LR": "%LR90*%",
    "LR-": "%LR-30.5*%", "LS": "%LS1.5*%", "LS1": "%LS1*%", "LN": "%LNname*%",
    "d1xy": "X20000Y-30000D01*", "d1x": "X15000D01*", "d1y": "Y5000D01*", "d1": "D01*",
    "d1ij": "X40000Y10000I10000J-20000D01*", "d1i": "X1Y2I30000D01*", "d1j": "J-5000D01*",
    "d2xy": "X70000Y80000D02*", "d2x": "X-10000D02*", "d2y": "Y90000D02*", "d2": "D02*",
    "d3xy": "X110000Y120000D03*", "d3x": "X5D03*", "d3y": "Y-7D03*", "d3": "D03*",
    "M00": "M00*", "M02": "M02*", "M01": "M01*",
    "AS": "%ASAYBX*%", "IN": "%INpic*%", "IPN": "%IPNEG*%", "IPP": "%IPPOS*%", "IR": "%IR90*%", "MI": "%MIA1B0*%",
    "MIB": "%MIA0B1*%", "OF": "%OFA1.5B-2*%", "SF": "%SFA2B0.5*%",
    "AD10": "%ADD10R,2X2*%", "AD16": "%ADD16C,3*%",
}
CORE = ["D10", "D11", "D15", "G01", "G02", "G03", "G36", "G37", "G75", "G74", "LPC", "LPD", "LMX", "LR", "LS",
        "d1xy", "d1x", "d1ij", "d1j", "d2xy", "d2y", "d3xy", "d3", "M02"]
DEEP = ["D10", "D14", "G01", "G02", "G36", "G37", "G75", "d1xy", "d1ij", "d1", "d2x", "d3y", "LPC", "M00"]
KIND = {"ADC": "circle", "ADR": "rectangle", "ADO": "obround", "ADP": "polygon", "ADmacro": "macro", "AB": "block"}
HOOKS = ["on_draw_line", "on_draw_cw_arc_sq", "on_draw_cw_arc_mq", "on_draw_ccw_arc_sq", "on_draw_ccw_arc_mq",
         "on_in_region_draw_line", "on_in_region_draw_cw_arc_sq", "on_in_region_draw_cw_arc_mq",
         "on_in_region_draw_ccw_arc_sq", "on_in_region_draw_ccw_arc_mq"]
FLASH = ["on_flash_circle", "on_flash_rectangle", "on_flash_obround", "on_flash_polygon", "on_flash_macro",
         "on_flash_block"]


def coords(text):
    out, num, axis = {}, "", None
    for ch in text.split("D")[0]:
        if ch in "XYIJ":
            axis = ch
            out[axis] = ""
        else:
            out[axis] += ch
    return {k: int(v) / 1e4 for k, v in out.items()}


OPS = {k: (k[1], coords(t)) for k, t in SYMS.items() if k[0] == "d"}
INIT = dict(unit="MM", fmt=None, plot="LINEAR", quad="SINGLE_QUADRANT", ap=None, x=0.0, y=0.0, lp="D", lm="N", lr=0.0,
            ls=1.0, region=False, ip="POS", ir=0.0, mi=(0, 0), of=(0, 0), sf=(0, 0), inn=None, ln=None, axis="AXBY",
            fmtmode=None)


def model(seq, ignore_stop, defs=True, head=True):
    """Run the reference machine; returns (state, aperture table, events, error name)."""
    s = dict(INIT)
    aps = {}
    events = []
    if head:
        s["fmt"] = True
    if defs:
        aps = {"D10": "circle", "D11": "rectangle", "D12": "obround", "D13": "polygon", "D14": "macro", "D15": "block"}
    for k in seq:
        t = SYMS[k]
        if k in OPS:
            op, c = OPS[k]
            if c and not s["fmt"]:
                return s, aps, events, "CoordinateFormatNotSetError"
            x, y = c.get("X", s["x"]), c.get("Y", s["y"])
            if op == "3":
                if s["ap"] is None:
                    return s, aps, events, "ApertureNotSelectedError"
                events.append((f"on_flash_{s['apk']}", x, y, *tr(s)))
            elif op == "1":
                name = {"LINEAR": "line", "ARC": "cw_arc", "CCW_ARC": "ccw_arc"}[s["plot"]]
                if name != "line":
                    name += {"SINGLE_QUADRANT": "_sq", "MULTI_QUADRANT": "_mq"}[s["quad"]]
                pre = "on_in_region_draw_" if s["region"] else "on_draw_"
                events.append((pre + name, s["x"], s["y"], x, y, c.get("I", 0.0), c.get("J", 0.0), *tr(s)))
            elif s["region"]:
                events.append(("flush",))
            s["x"], s["y"] = x, y
        elif k[0] == "D":
            s["ap"] = k
            if k not in aps:
                return s, aps, events, "ApertureNotFoundError"
            s["apk"] = aps[k]
        elif k in ("G01", "G02", "G03"):
            s["plot"] = {"G01": "LINEAR", "G02": "ARC", "G03": "CCW_ARC"}[k]
        elif k in ("G74", "G75"):
            s["quad"] = "SINGLE_QUADRANT" if k == "G74" else "MULTI_QUADRANT"
        elif k == "G36":
            s["region"] = True
        elif k == "G37":
            events.append(("flush",))
            s["region"] = False
        elif k in ("G70", "MOIN"):
            s["unit"] = "IN"
        elif k in ("G71", "MOMM"):
            s["unit"] = "MM"
        elif k == "G90":
            s["fmt"] = True
        elif k.startswith("LM"):
            s["lm"] = k[2:]
        elif k.startswith("LP"):
            s["lp"] = k[2:]
        elif k.startswith("LR"):
            s["lr"] = float(t[3:-2])
        elif k.startswith("LS"):
            s["ls"] = float(t[3:-2])
        elif k == "LN":
            s["ln"] = "name"
        elif k in ("M00", "M02"):
            if not ignore_stop:
                break
        elif k == "AS":
            s["axis"] = "AYBX"
        elif k == "IN":
            s["inn"] = "pic"
        elif k.startswith("IP"):
            s["ip"] = {"N": "NEG", "P": "POS"}[k[2]]
        elif k == "IR":
            s["ir"] = 90.0
        elif k.startswith("MI"):
            s["mi"] = (1, 0) if k == "MI" else (0, 1)
        elif k == "OF":
            s["of"] = (1.5, -2.0)
        elif k == "SF":
            s["sf"] = (2.0, 0.5)
        elif k.startswith("AD"):
            aps["D" + k[2:]] = "rectangle" if k == "AD10" else "circle"
    return s, aps, events, None


def tr(s):
    return (s["lp"], s["lm"], s["lr"], s["ls"], s["ap"])


_NODES = {}
_CLS = None


def node_of(text):
    if text not in _NODES:
        _NODES[text] = impl.parse(text).nodes
    return _NODES[text]


def recorder():
    global _CLS
    if _CLS is None:
        from pygerber.gerber.ast import StateTrackingVisitor

        def snap(v):
            t = v.state.transform
            return (t.polarity.value, t.mirroring.value, t.rotation, t.scaling, v.state.current_aperture_id)

        def draw(name):
            def hook(self, node):
                if not getattr(self, "armed", False):
                    return
                s = self.state
                self.events.append((name, s.current_x, s.current_y, self.coordinate_x, self.coordinate_y,
                                    self.coordinate_i, self.coordinate_j, *snap(self)))
            return hook

        def flash(name):
            def hook(self, node, aperture):
                if getattr(self, "armed", False):
                    self.events.append((name, self.coordinate_x, self.coordinate_y, *snap(self)))
            return hook

        def flush(self):
            self.events.append(("flush",))

        ns = {n: draw(n) for n in HOOKS}
        ns |= {n: flash(n) for n in FLASH}
        ns["on_flush_region"] = flush
        _CLS = type("Recorder", (StateTrackingVisitor,), ns)
    return _CLS


def run_impl(seq, ignore_stop, defs=True, head=True):
    from pygerber.gerber.ast.nodes import File

    nodes = []
    for k in seq:
        nodes.extend(node_of(SYMS[k]))
    pre = []
    if head:
        pre += node_of(HEAD)
    if defs:
        pre += node_of(DEFS)
    v = recorder()(ignore_program_stop=ignore_stop)
    v.events = []
    err = None
    try:
        File(nodes=pre).visit(v)
        v.armed = True
        v.events.clear()
        File(nodes=nodes).visit(v)
    except Exception as e:  # noqa: BLE001 - the kind of error is compared with the model
        err = type(e).__name__
    return v, err


def compare(seq, ignore_stop, defs=True, head=True):
    s, aps, events, err = model(seq, ignore_stop, defs, head)
    v, got_err = run_impl(seq, ignore_stop, defs, head)
    what = f"ignore_stop={ignore_stop} {[SYMS[k] for k in seq]}"
    expect_eq(got_err, err, f"error after {what}")
    if v.events != events:
        raise Mismatch(f"drawing events after {what}", events, v.events)
    st = v.state
    got = (st.unit_mode.value, st.plot_mode.name, st.arc_interpolation.name, st.current_aperture_id, st.current_x,
           st.current_y, st.transform.polarity.value, st.transform.mirroring.value, st.transform.rotation,
           st.transform.scaling, st.is_region)
    want = (s["unit"], s["plot"], s["quad"], s["ap"], s["x"], s["y"], s["lp"], s["lm"], s["lr"], s["ls"], s["region"])
    if got != want:
        raise Mismatch(f"state after {what}", want, got)
    im = st.image_attributes
    got2 = (im.polarity.value, im.rotation, (im.a_axis_mirroring, im.b_axis_mirroring),
            (im.a_axis_offset, im.b_axis_offset), (im.a_axis_scale, im.b_axis_scale), im.image_name, im.file_name,
            im.axis_correspondence.value)
    want2 = (s["ip"], s["ir"], s["mi"], s["of"], s["sf"], s["inn"], s["ln"], s["axis"])
    if got2 != want2:
        raise Mismatch(f"image attributes after {what}", want2, got2)
    expect_eq(sorted([*st.apertures.apertures, *st.apertures.blocks]), sorted(aps), f"apertures after {what}")
    return repr((want, want2, err)), events


def compiled_stop(seq):
    """Nothing after a program stop is drawn."""
    from pygerber.gerber.ast.nodes import File
    from pygerber.gerber.compiler import compile as comp

    pre = node_of(HEAD) + node_of(DEFS) + node_of("G75*D10*")
    body = [n for k in seq for n in node_of(SYMS[k])]
    ref = comp(File(nodes=pre + body)).model_dump_json(serialize_as_any=True)
    for stop in ("M00", "M02"):
        for tail in ("d3xy", "d1xy", "LPC", "D11"):
            end = node_of(SYMS[stop]) + node_of(SYMS[tail])
            full = File(nodes=pre + body + end)
            expect_eq(comp(full).model_dump_json(serialize_as_any=True), ref, f"{stop} does not end the drawing: {seq} {tail}")
            ign = comp(full, ignore_program_stop=True).model_dump_json(serialize_as_any=True)
            plain = comp(File(nodes=pre + body + node_of(SYMS[tail]))).model_dump_json(serialize_as_any=True)
            expect_eq(ign, plain, f"ignored {stop} changes the drawing: {seq} {tail}")


def cases(tier):
    yield ["short"]
    for what in VALUES:
        yield ["values", what]
    for a in SYMS:
        for count in (6, 9, 16, 33) if tier == "quick" else range(6, 70):
            yield ["long", a, count]
    for a in SYMS:
        yield ["full", 3 if tier == "quick" else 4, [a]]
    depth = 4 if tier == "quick" else 5
    for a in CORE:
        for b in (CORE if tier != "quick" else [None]):
            yield ["core", depth, [a] if b is None else [a, b]]
    depth = 5 if tier == "quick" else 6
    for a, b in itertools.product(DEEP, repeat=2):
        yield ["deep", depth, [a, b]]
    for a in STOPSYMS:
        yield ["stop", 3 if tier == "quick" else 4, [a]]


VALUES = ["LR", "LS", "D", "X", "Y", "I", "J", "OF", "SF", "IR"]


def run_values(case):
    """Every value a command can carry reaches the state as it is."""
    _, what = case
    n, states = 0, []
    for k in range(-720, 721, 9) if what in ("LR", "IR") else range(-60, 61) if what in ("X", "Y", "I", "J", "OF") else range(1, 200):
        v = k / 2 if what == "LR" else k / 8 if what in ("LS", "OF", "SF") else k
        if what == "D":
            code = (9 + k) if k < 120 else (9 + k) * 37
            text = f"%ADD{code}C,0.{k:03}1*%%ADD{code + 1}R,1X2*%D{code}*X1Y1D03*"
        elif what in "XYIJ":
            num = k * abs(k) * 167
            text = {"X": f"X{num}Y7D02*", "Y": f"X7Y{num}D02*", "I": f"X5Y5I{num}D01*", "J": f"X5Y5J{num}D01*"}[what]
            text = ("G75*G02*" if what in "IJ" else "") + text
        else:
            text = {"LR": f"%LR{v}*%", "LS": f"%LS{v}*%", "OF": f"%OFA{v}B{-v}*%", "SF": f"%SFA{v}B{2 * v}*%",
                    "IR": f"%IR{k // 9 * 90}*%"}[what]
            if what == "IR" and not 0 <= k // 9 * 90 <= 270:
                continue
        v2 = recorder()()
        v2.events = []
        impl.parse(HEAD + DEFS + text).visit(v2)
        st = v2.state
        im = st.image_attributes
        if what == "D":
            expect_eq(st.current_aperture_id, f"D{code}", f"aperture selected by {text}")
            expect_eq([str(a) for a in st.apertures.apertures if str(a) in (f"D{code}", f"D{code + 1}")], [f"D{code}", f"D{code + 1}"], f"apertures of {text}")
            expect_eq(float(st.apertures.apertures[f"D{code}"].diameter), float(f"0.{k:03}1"), f"aperture selected by {text}")
        elif what in "XY":
            expect_eq((st.current_x, st.current_y), (num / 1e4, 7 / 1e4) if what == "X" else (7 / 1e4, num / 1e4), f"point after {text}")
        elif what in "IJ":
            expect_eq((st.coordinate_i or 0, st.coordinate_j or 0), (num / 1e4, 0) if what == "I" else (0, num / 1e4), f"offset after {text}")
        else:
            got = {"LR": st.transform.rotation, "LS": st.transform.scaling, "OF": (im.a_axis_offset, im.b_axis_offset),
                   "SF": (im.a_axis_scale, im.b_axis_scale), "IR": im.rotation}[what]
            expect_eq(got, {"LR": v, "LS": v, "OF": (v, -v), "SF": (v, 2 * v), "IR": k // 9 * 90}[what], f"state after {text}")
        n += 1
        states.append(text)
    return Obs(states=states, transitions=n, traces=n, outcome=("values", what))


def run_long(case):
    """Periodic sequences: long runs of every command, followed by every other one."""
    _, a, count = case
    states, n, steps = set(), 0, 0
    for b in CORE:
        for seq in ([a] * count + [b], [b] + [a] * count, [a, b] * (count // 2 + 1)):
            for ign in (False, True) if "M02" in seq else (False,):
                st, _ = compare(tuple(seq), ign)
                states.add(st)
                n += 1
                steps += len(seq)
    return Obs(states=states, transitions=steps, traces=n, outcome=(a, count))


STOPSYMS = ["D10", "D11", "d1xy", "d2x", "d3xy", "LPC", "LMX", "G02", "d1ij"]


def run_case(case):
    states, n, steps = set(), 0, 0
    outs = set()
    if case[0] == "values":
        return run_values(case)
    if case[0] == "long":
        return run_long(case)
    if case[0] == "short":
        # machine without declared format or apertures: errors are those of the format
        for d in range(0, 4):
            for seq in itertools.product(["D10", "D14", "D16", "d1xy", "d1", "d2y", "d3", "d3x", "G54", "M02", "G36"], repeat=d):
                for defs, head in ((False, False), (True, False), (False, True)):
                    st, ev = compare(seq, False, defs, head)
                    states.add(st)
                    n += 1
                    steps += d
        return Obs(states=states, transitions=steps, traces=n, outcome=repr(sorted(states))[:2000])
    _, depth, first = case
    if case[0] == "stop":
        for seq in itertools.product(STOPSYMS, repeat=depth - 1):
            compiled_stop((*first, *seq))
            n += 16
            steps += depth
            states.add(repr((first, seq)))
        return Obs(states=states, transitions=steps, traces=n, outcome=repr(case))
    alphabet = {"full": list(SYMS), "core": CORE, "deep": DEEP}[case[0]]
    if case[0] == "full":
        for ign in (False, True):
            compare(first, ign)
            n += 1
    for rest in itertools.product(alphabet, repeat=depth - len(first)):
        seq = (*first, *rest)
        for ign in ((False, True) if "M02" in seq or "M00" in seq else (False,)):
            st, ev = compare(seq, ign)
            states.add(st)
            n += 1
            steps += depth
            if len(outs) < 400:
                outs.add(repr(ev))
    return Obs(states=states, transitions=steps, traces=n, outcome=repr(sorted(outs))[:4000])


def bounds(tier):
    a, b, c = (3, 4, 5) if tier == "quick" else (4, 5, 6)
    return (f"all sequences of {a} commands over {len(SYMS)} commands, {b} over {len(CORE)}, {c} over {len(DEEP)}; "
            f"runs and alternations of up to {33 if tier == 'quick' else 69} commands; sweeps of the values of {len(VALUES)} parameters; "
            "undeclared formats and apertures; program stop after every prefix")
