"""Catalogue of every Gerber command form: text, and the tree the text denotes.

Written from the format specification; used by the syntax level checks.
A form instance is (text, expected) with expected = [class name, {field: value}].
"""

from __future__ import annotations

import itertools
from enum import Enum

DOUBLES = ["1", "0", "1.5", ".5", "2.", "-3", "+0.25", "0.001", "100000", "00.10", "-0.00001"]
POSITIVES = ["1", "0.5", "1.25", ".75", "2.", "0.000001", "12.7000", "+3"]
INTS = ["1", "0", "-1", "+2", "000150", "-000150", "123456789", "99"]
IDS = ["D10", "D11", "D99", "D100", "D010", "D2147483647", "D1000"]
NAMES = ["A", "ROUND", "_x", "a.b", "$n", "Box_1.2", "Cx", "R", "P1"]
STRINGS = ["a", "hello world", "x,y;z", "zażółć", "1.0", "D03", "M02", "%"[:0] + "#!@", "tab\tinside", "(c)"]
FIELDS = ["", "a", "b c", "1.5", "żó", "D10", "#1", "A;B"]


class Lit(str):
    """A field value kept as text."""


def fl(s):
    return float(s)


def expr(s):
    return ["Variable", {"variable": s}] if s.startswith("$") else ["Constant", {"constant": float(s)}]


class Form:
    """Template with named slots; each slot is (domain, convert, optional)."""

    def __init__(self, name, cls, build, slots, expected):
        self.name, self.cls, self.build, self.slots, self.expected = name, cls, build, slots, expected

    def make(self, **v):
        return self.build(v), [self.cls, self.expected(v)]

    def default(self):
        return self.make(**{k: (d[0] if not opt else None) for k, (d, opt) in self.slots.items()})

    def full(self):
        return self.make(**{k: d[0] for k, (d, _) in self.slots.items()})

    def instances(self):
        """Default; all subsets of optional slots; every value of every slot alone."""
        seen = set()
        names = list(self.slots)
        base = {k: d[0] for k, (d, _) in self.slots.items()}
        optional = [k for k in names if self.slots[k][1]]
        out = []
        for pres in itertools.product([True, False], repeat=len(optional)):
            v = dict(base)
            for k, p in zip(optional, pres):
                if not p:
                    v[k] = None
            out.append(v)
        for k in names:
            for val in self.slots[k][0]:
                out.append({**base, k: val})
        for v in out:
            v = self.normal(v)
            if v is None:
                continue
            text, exp = self.make(**v)
            if text in seen:
                continue
            seen.add(text)
            yield text, exp

    def normal(self, v):
        return v


def S(domain, opt=False):
    return (domain, opt)


def o(v, k, pre=""):
    return "" if v[k] is None else pre + v[k]


def ofl(x):
    return None if x is None else float(x)


class Chain(Form):
    """Optional slots can only be present when those before them are."""

    def normal(self, v):
        out, missing = {}, False
        for k in self.slots:
            if self.slots[k][1]:
                missing = missing or v[k] is None
                out[k] = None if missing else v[k]
            else:
                out[k] = v[k]
        return out


def fields_domain():
    return [["f1", "f2"], [], [""], ["a", "", "b"], ["żó", "x y"], ["1", "2", "3", "4", "5"], *[[f] for f in FIELDS[1:]]]


def commas(fs):
    return "".join("," + f for f in fs)


def catalogue():
    F = []

    def add(name, cls, build, slots, expected, kind=Form):
        F.append(kind(name, cls, build, slots, expected))

    # ---- aperture definitions
    add("ADC", "ADC", lambda v: f"%AD{v['id']}C,{v['d']}{o(v, 'h', 'X')}*%",
        {"id": S(IDS), "d": S(POSITIVES), "h": S(POSITIVES, True)},
        lambda v: {"aperture_id": v["id"], "diameter": fl(v["d"]), "hole_diameter": ofl(v["h"])})
    for sym, cls in (("R", "ADR"), ("O", "ADO")):
        add(cls, cls, lambda v, sym=sym: f"%AD{v['id']}{sym},{v['w']}X{v['hh']}{o(v, 'h', 'X')}*%",
            {"id": S(IDS), "w": S(POSITIVES), "hh": S(POSITIVES), "h": S(POSITIVES, True)},
            lambda v: {"aperture_id": v["id"], "width": fl(v["w"]), "height": fl(v["hh"]),
                       "hole_diameter": ofl(v["h"])})
    add("ADP", "ADP", lambda v: f"%AD{v['id']}P,{v['d']}X{v['n']}{o(v, 'r', 'X')}{o(v, 'h', 'X')}*%",
        {"id": S(IDS), "d": S(POSITIVES), "n": S(["3", "4", "12", "5"]), "r": S(DOUBLES, True),
         "h": S(POSITIVES, True)},
        lambda v: {"aperture_id": v["id"], "outer_diameter": fl(v["d"]), "vertices": fl(v["n"]),
                   "rotation": ofl(v["r"]), "hole_diameter": ofl(v["h"])}, Chain)
    add("ADmacro", "ADmacro",
        lambda v: f"%AD{v['id']}{v['name']}" + ("," + "X".join(v["p"]) if v["p"] else "") + "*%",
        {"id": S(IDS), "name": S(["MAC", "Cx", "RR", "P1", "OB", "_a", "a.b", "$q", "Thermal.80"]),
         "p": S([["1"], ["1", "-2.5"], ["1", "2", "3", "4", "5"], *[[d] for d in DOUBLES], []])},
        lambda v: {"aperture_id": v["id"], "name": v["name"],
                   "params": [fl(p) for p in v["p"]] if v["p"] else None})
    # ---- attributes
    for T in ("TA", "TF", "TO"):
        add(f"{T}_UserName", f"{T}_UserName", lambda v, T=T: f"%{T}{v['n']}{commas(v['f'])}*%",
            {"n": S(["Name", "_n", "a.b", "$x", "N", "C", "P", "Part", "MD5"]), "f": S(fields_domain())},
            lambda v: {"user_name": v["n"], "fields": v["f"]})
    funcs = ["ViaDrill", "BackDrill", "ComponentDrill", "MechanicalDrill", "CastellatedDrill", "OtherDrill",
             "ComponentPad", "SMDPad", "BGAPad", "ConnectorPad", "HeatsinkPad", "ViaPad", "TestPad",
             "CastellatedPad", "FiducialPad", "ThermalReliefPad", "WasherPad", "AntiPad", "OtherPad", "Conductor",
             "EtchedComponent", "NonConductor", "CopperBalancing", "Border", "OtherCopper", "ComponentMain",
             "ComponentOutline", "ComponentPin", "Profile", "Material", "NonMaterial", "Other"]
    add("TA_AperFunction", "TA_AperFunction", lambda v: f"%TA.AperFunction{o(v, 'fn', ',')}{commas(v['f'] or [])}*%",
        {"fn": S(funcs, True), "f": S([["CuDef"], ["IPC-4761", "Filled"], []], True)},
        lambda v: {"function": v["fn"], "fields": v["f"] or []}, Chain)
    add("TA_DrillTolerance", "TA_DrillTolerance", lambda v: f"%TA.DrillTolerance{o(v, 'p', ',')}{o(v, 'm', ',')}*%",
        {"p": S(DOUBLES, True), "m": S(DOUBLES, True)},
        lambda v: {"plus_tolerance": ofl(v["p"]), "minus_tolerance": ofl(v["m"])}, Chain)
    add("TA_FlashText", "TA_FlashText",
        lambda v: f"%TA.FlashText,{v['s']},{v['m']},{v['r']},{v['font']},{v['size']}{commas(v['c'])}*%",
        {"s": S(["txt", "a b", "żó", "1"]), "m": S(["B", "C"]), "r": S(["R", "M"]), "font": S(["Font", "x y"]),
         "size": S(["1", "2.5mm"]), "c": S([[], ["c1"], ["c1", "c2"]])},
        lambda v: {"string": v["s"], "mode": v["m"], "mirroring": v["r"], "font": v["font"], "size": v["size"],
                   "comments": v["c"]})
    add("TD", "TD", lambda v: f"%TD{o(v, 'n')}*%", {"n": S([".AperFunction", "Name", ".N", "_x", ".CMPN"], True)},
        lambda v: {"name": v["n"]})
    add("TF_Part", "TF_Part", lambda v: f"%TF.Part,{v['p']}{commas(v['f'])}*%",
        {"p": S(["Single", "Array", "FabricationPanel", "Coupon", "Other"]), "f": S([[], ["x"], ["x", "y z"]])},
        lambda v: {"part": v["p"], "fields": v["f"]})
    ffs = ["Copper", "Plated", "NonPlated", "Profile", "Soldermask", "Legend", "Component", "Paste", "Glue",
           "Carbonmask", "Goldmask", "Heatsinkmask", "Peelablemask", "Silvermask", "Tinmask", "Depthrout", "Vcut",
           "Viafill", "Pads", "Other", "Drillmap", "FabricationDrawing", "Vcutmap", "AssemblyDrawing",
           "ArrayDrawing", "OtherDrawing"]
    add("TF_FileFunction", "TF_FileFunction", lambda v: f"%TF.FileFunction,{v['p']}{commas(v['f'])}*%",
        {"p": S(ffs), "f": S([["L1", "Top"], [], ["1", "2", "PTH", "Drill"]])},
        lambda v: {"file_function": v["p"], "fields": v["f"]})
    add("TF_FilePolarity", "TF_FilePolarity", lambda v: f"%TF.FilePolarity,{v['p']}*%",
        {"p": S(["Positive", "Negative"])}, lambda v: {"polarity": v["p"]})
    add("TF_SameCoordinates", "TF_SameCoordinates", lambda v: f"%TF.SameCoordinates{o(v, 'p', ',')}*%",
        {"p": S(["id-1", "f81d4fae-7dec-11d0-a765-00a0c91e6bf6"], True)}, lambda v: {"identifier": v["p"]})
    add("TF_CreationDate", "TF_CreationDate", lambda v: f"%TF.CreationDate,{v['p']}*%",
        {"p": S(["2019-11-08T14:25:09+01:00", "2024-02-29T23:59:59+00:00", "1999-12-31T00:00:00-05:00"])},
        lambda v: {"creation_date": v["p"]})
    add("TF_GenerationSoftware", "TF_GenerationSoftware",
        lambda v: f"%TF.GenerationSoftware{o(v, 'a', ',')}{o(v, 'b', ',')}{o(v, 'c', ',')}*%",
        {"a": S(["Vendor", "V x"], True), "b": S(["App", "A-1"], True), "c": S(["1.0", "v 2"], True)},
        lambda v: {"vendor": v["a"], "application": v["b"], "version": v["c"]}, Chain)
    add("TF_ProjectId", "TF_ProjectId",
        lambda v: f"%TF.ProjectId{o(v, 'a', ',')}{o(v, 'b', ',')}{o(v, 'c', ',')}*%",
        {"a": S(["Proj", "P x"], True), "b": S(["guid-1"], True), "c": S(["rev1", "2"], True)},
        lambda v: {"name": v["a"], "guid": v["b"], "revision": v["c"]}, Chain)
    add("TF_MD5", "TF_MD5", lambda v: f"%TF.MD5,{v['p']}*%", {"p": S(["6ab9e892830469cdff7e3e346331d404"])},
        lambda v: {"md5": v["p"]})
    add("TO_N", "TO_N", lambda v: f"%TO.N{commas(v['f'])}*%",
        {"f": S([["Net1"], ["A", "B"], [""], ["N/C"], ["+5V", "GND", "żó"], []])}, lambda v: {"net_names": v["f"]})
    add("TO_P", "TO_P", lambda v: f"%TO.P,{v['a']},{v['b']}{o(v, 'c', ',')}*%",
        {"a": S(["U1", "R 1"]), "b": S(["1", "A13"]), "c": S(["VCC", "TXD"], True)},
        lambda v: {"refdes": v["a"], "number": v["b"], "function": v["c"]})
    for name, cls, field, dom in [
        ("C", "TO_C", "refdes", STR2 := ["R1", "U 2", "żó"]), ("CMfr", "TO_CMfr", "manufacturer", STR2),
        ("CMPN", "TO_CMNP", "part_number", STR2), ("CVal", "TO_CVal", "value", ["10k", "1.5", "żó"]),
        ("CMnt", "TO_CMnt", "mount", ["SMD", "TH", "Pressfit", "Fiducial", "Other"]),
        ("CFtp", "TO_CFtp", "footprint", STR2), ("CPgN", "TO_CPgN", "name", STR2),
        ("CPgD", "TO_CPgD", "description", STR2), ("CLbN", "TO_CLbN", "name", STR2),
        ("CLbD", "TO_CLbD", "description", STR2),
    ]:
        add(cls, cls, lambda v, name=name: f"%TO.{name},{v['a']}*%", {"a": S(dom)},
            lambda v, field=field: {field: v["a"]})
    add("TO_CRot", "TO_CRot", lambda v: f"%TO.CRot,{v['a']}*%", {"a": S(DOUBLES)}, lambda v: {"angle": fl(v["a"])})
    add("TO_CHgt", "TO_CHgt", lambda v: f"%TO.CHgt,{v['a']}*%", {"a": S(DOUBLES)}, lambda v: {"height": fl(v["a"])})
    add("TO_CSup", "TO_CSup", lambda v: f"%TO.CSup,{v['a']},{v['b']}{commas(v['c'])}*%",
        {"a": S(["SN"]), "b": S(["SP 1"]), "c": S([[], ["SN2", "SP2"], ["a", "b", "c", "d"]])},
        lambda v: {"supplier": v["a"], "supplier_part": v["b"], "other_suppliers": v["c"]})
    # ---- operations and codes
    coord = {"X": "CoordinateX", "Y": "CoordinateY", "I": "CoordinateI", "J": "CoordinateJ"}

    def coords(v, keys):
        return {k.lower(): None if v[k] is None else [coord[k], {"value": v[k]}] for k in keys}

    for zeros in ("0", "", "00"):
        add(f"D{zeros}1", "D01",
            lambda v, z=zeros: "".join(o(v, k, k) for k in "XYIJ") + f"D{z}1*",
            {k: S(INTS, True) for k in "XYIJ"}, lambda v: {**coords(v, "XYIJ"), "is_standalone": True})
        for n in "23":
            add(f"D{zeros}{n}", f"D0{n}", lambda v, z=zeros, n=n: "".join(o(v, k, k) for k in "XY") + f"D{z}{n}*",
                {k: S(INTS, True) for k in "XY"}, lambda v: {**coords(v, "XY"), "is_standalone": True})
    add("D01bare", "D01", lambda v: "".join(o(v, k, k) for k in "XYIJ") + "*",
        {"X": S(INTS), "Y": S(INTS, True), "I": S(INTS, True), "J": S(INTS, True)},
        lambda v: {**coords(v, "XYIJ"), "is_standalone": True})
    add("Dnn", "Dnn", lambda v: f"{v['id']}*", {"id": S(IDS)}, lambda v: {"aperture_id": v["id"], "is_standalone": True})
    for g in ("01", "02", "03", "36", "37", "54", "55", "70", "71", "74", "75", "90", "91"):
        cls = f"G{g}"
        spell = [f"G{g}", f"G{int(g)}", f"G00{int(g)}"]
        add(cls, cls, lambda v: v["c"] + "*", {"c": S(spell)}, lambda v: {"is_standalone": True})
    add("G04", "G04", lambda v: f"{v['c']}{o(v, 's', ' ')}*",
        {"c": S(["G04", "G4"]), "s": S(["a", "hello world", "x,y;z", "zażółć", "D03", "#@!$&()", "X1Y2", "a\tb"], True)},
        lambda v: {"string": None if v["s"] is None else " " + v["s"], "is_standalone": True})
    for m in ("00", "01", "02"):
        add(f"M{m}", f"M{m}", lambda v: v["c"] + "*", {"c": S([f"M{m}", f"M{int(m)}", f"M0{m}"])}, lambda v: {})
    # ---- load
    add("LN", "LN", lambda v: f"%LN{v['s']}*%", {"s": S(["name", "a b", "żó,1"])}, lambda v: {"name": v["s"]})
    add("LP", "LP", lambda v: f"%LP{v['s']}*%", {"s": S(["D", "C"])}, lambda v: {"polarity": v["s"]})
    add("LM", "LM", lambda v: f"%LM{v['s']}*%", {"s": S(["N", "X", "Y", "XY"])}, lambda v: {"mirroring": v["s"]})
    add("LR", "LR", lambda v: f"%LR{v['s']}*%", {"s": S(DOUBLES)}, lambda v: {"rotation": fl(v["s"])})
    add("LS", "LS", lambda v: f"%LS{v['s']}*%", {"s": S(DOUBLES)}, lambda v: {"scale": fl(v["s"])})
    # ---- properties
    add("FS", "FS", lambda v: f"%FS{v['z']}{v['m']}X{v['x']}Y{v['y']}*%",
        {"z": S(["L", "T", ""]), "m": S(["A", "I"]), "x": S(["26", "36", "15", "44", "66"]),
         "y": S(["26", "36", "24", "66"])},
        lambda v: {"zeros": v["z"], "coordinate_mode": v["m"], "x_integral": fl(v["x"][0]),
                   "x_decimal": fl(v["x"][1]), "y_integral": fl(v["y"][0]), "y_decimal": fl(v["y"][1])})
    add("MO", "MO", lambda v: f"%MO{v['s']}*%", {"s": S(["MM", "IN"])}, lambda v: {"mode": v["s"]})
    add("IP", "IP", lambda v: f"%IP{v['s']}*%", {"s": S(["POS", "NEG"])}, lambda v: {"polarity": v["s"]})
    add("IR", "IR", lambda v: f"%IR{v['s']}*%", {"s": S(["0", "90", "180", "270"])},
        lambda v: {"rotation_degrees": fl(v["s"])})
    add("AS", "AS", lambda v: f"%AS{v['s']}*%", {"s": S(["AXBY", "AYBX"])}, lambda v: {"correspondence": v["s"]})
    add("IN", "IN", lambda v: f"%IN{v['s']}*%", {"s": S(["name", "a b,c", "żó"])}, lambda v: {"name": v["s"]})
    add("OF", "OF", lambda v: f"%OF{o(v, 'a', 'A')}{o(v, 'b', 'B')}*%", {"a": S(DOUBLES, True), "b": S(DOUBLES, True)},
        lambda v: {"a_offset": ofl(v["a"]), "b_offset": ofl(v["b"])})
    add("MI", "MI", lambda v: f"%MI{o(v, 'a', 'A')}{o(v, 'b', 'B')}*%", {"a": S(["1", "0"], True), "b": S(["1", "0"], True)},
        lambda v: {"a_mirroring": float(v["a"] or 0), "b_mirroring": float(v["b"] or 0)})
    add("SF", "SF", lambda v: f"%SF{o(v, 'a', 'A')}{o(v, 'b', 'B')}*%", {"a": S(POSITIVES, True), "b": S(POSITIVES, True)},
        lambda v: {"a_scale": float(v["a"] or 1), "b_scale": float(v["b"] or 1)})
    return F


def composites():
    """(name, text, expected) of statements which contain other statements."""
    out = []
    body = {
        "none": [],
        "flash": [("X1Y2D03*", ["D03", {}])],
        "mix": [("D10*", ["Dnn", {"aperture_id": "D10"}]), ("X1Y1D02*", ["D02", {}]), ("%LPC*%", ["LP", {}]),
                ("G36*", ["G36", {}]), ("X2D01*", ["D01", {}]), ("G37*", ["G37", {}]), ("%TO.N,A*%", ["TO_N", {}])],
        "defs": [("%ADD12C,1*%", ["ADC", {}]), ("%AMM*1,1,1,0,0*%", ["AM", {}]), ("%TF.Part,Single*%", ["TF_Part", {}]),
                 ("G04 x*", ["G04", {}]), ("%MOMM*%", ["MO", {}])],
    }
    for sep in ("", "\n"):
        for k, b in body.items():
            inner = sep.join(t for t, _ in b)
            nodes = [e for _, e in b]
            for i in IDS[:4]:
                out.append((f"AB.{k}", f"%AB{i}*%{sep}{inner}{sep}%AB*%",
                            ["AB", {"open": ["ABopen", {"aperture_id": i}], "nodes": nodes, "close": ["ABclose", {}]}]))
            for pres in itertools.product([0, 1], repeat=4):
                vals = [("X", "2"), ("Y", "3"), ("I", "1.5"), ("J", "-0.25")]
                text = "".join(a + b_ for (a, b_), p in zip(vals, pres) if p)
                if not text:
                    continue
                exp = {a.lower(): (b_ if p else None) for (a, b_), p in zip(vals, pres)}
                num = {"x_repeats": float(exp["x"] or 1), "y_repeats": float(exp["y"] or 1),
                       "x_delta": float(exp["i"] or 0), "y_delta": float(exp["j"] or 0)}
                out.append((f"SR.{k}", f"%SR{text}*%{sep}{inner}{sep}%SR*%",
                            ["SR", {"open": ["SRopen", {**exp, **num}], "nodes": nodes, "close": ["SRclose", {}]}]))
        blk = ["AB", {"open": ["ABopen", {"aperture_id": "D13"}], "nodes": [["D03", {}]], "close": ["ABclose", {}]}]
        tx = f"%ABD13*%{sep}X1D03*{sep}%AB*%"
        out.append(("AB.nested", f"%ABD12*%{sep}{tx}{sep}D13*{sep}{tx}{sep}%AB*%",
                    ["AB", {"open": ["ABopen", {"aperture_id": "D12"}],
                            "nodes": [blk, ["Dnn", {"aperture_id": "D13"}], blk], "close": ["ABclose", {}]}]))
        out.append(("SR.block", f"%SRX2Y2I1J1*%{sep}{tx}{sep}%SR*%",
                    ["SR", {"open": ["SRopen", {"x": "2", "y": "2", "i": "1", "j": "1"}], "nodes": [blk],
                            "close": ["SRclose", {}]}]))
    E = expr
    prims = [
        ("0 comment, x=1*", ["Code0", {"string": " comment, x=1"}]),
        ("1,1,1.5,0,-1*", ["Code1", {"exposure": E("1"), "diameter": E("1.5"), "center_x": E("0"),
                                     "center_y": E("-1"), "rotation": None}]),
        ("1,$1,$2,0,-1,$3*", ["Code1", {"exposure": E("$1"), "diameter": E("$2"), "center_x": E("0"),
                                        "center_y": E("-1"), "rotation": E("$3")}]),
        ("2,1,.5,0,1,2,3,45*", ["Code2", {"exposure": E("1"), "width": E(".5"), "start_x": E("0"), "start_y": E("1"),
                                          "end_x": E("2"), "end_y": E("3"), "rotation": E("45")}]),
        ("20,1,.5,0,1,2,3,45*", ["Code20", {"exposure": E("1"), "width": E(".5"), "start_x": E("0"),
                                            "start_y": E("1"), "end_x": E("2"), "end_y": E("3"), "rotation": E("45")}]),
        ("21,0,3,2,1,4,30*", ["Code21", {"exposure": E("0"), "width": E("3"), "height": E("2"), "center_x": E("1"),
                                         "center_y": E("4"), "rotation": E("30")}]),
        ("22,0,3,2,1,4,30*", ["Code22", {"exposure": E("0"), "width": E("3"), "height": E("2"),
                                         "x_lower_left": E("1"), "y_lower_left": E("4"), "rotation": E("30")}]),
        ("4,1,3,1,2,3,4,5,6,1,2,$4*",
         ["Code4", {"exposure": E("1"), "number_of_points": E("3"), "start_x": E("1"), "start_y": E("2"),
                    "points": [["Point", {"x": E("3"), "y": E("4")}], ["Point", {"x": E("5"), "y": E("6")}],
                               ["Point", {"x": E("1"), "y": E("2")}]], "rotation": E("$4")}]),
        ("5,1,6,1,2,3,4*", ["Code5", {"exposure": E("1"), "number_of_vertices": E("6"), "center_x": E("1"),
                                      "center_y": E("2"), "diameter": E("3"), "rotation": E("4")}]),
        ("6,1,2,9,.1,.2,4,.3,8,15*",
         ["Code6", {"center_x": E("1"), "center_y": E("2"), "outer_diameter": E("9"), "ring_thickness": E(".1"),
                    "gap_between_rings": E(".2"), "max_ring_count": E("4"), "crosshair_thickness": E(".3"),
                    "crosshair_length": E("8"), "rotation": E("15")}]),
        ("7,1,2,3,2.5,.2,45*", ["Code7", {"center_x": E("1"), "center_y": E("2"), "outer_diameter": E("3"),
                                          "inner_diameter": E("2.5"), "gap_thickness": E(".2"), "rotation": E("45")}]),
        ("$4=$1*", ["Assignment", {"variable": E("$4"), "expression": E("$1")}]),
        ("$10=2.5*", ["Assignment", {"variable": E("$10"), "expression": E("2.5")}]),
    ]
    for sep in ("", "\n", "\r\n"):
        for t, e in prims:
            out.append(("AM." + e[0], f"%AMNAME*{sep}{t}{sep}%",
                        ["AM", {"open": ["AMopen", {"name": "NAME"}], "primitives": [e], "close": ["AMclose", {}]}]))
    for (t, e), (u, f) in itertools.product(prims, repeat=2):
        out.append(("AM.pair", f"%AMNAME*\n{t}\n{u}\n%",
                    ["AM", {"open": ["AMopen", {"name": "NAME"}], "primitives": [e, f], "close": ["AMclose", {}]}]))
    for n in NAMES:
        out.append(("AM.name", f"%AM{n}*1,1,1,0,0*%", ["AM", {"open": ["AMopen", {"name": n}]}]))
    return out


def merged():
    """G codes sharing a block with an operation: one text, two nodes."""
    out = []
    for g in ("01", "02", "03", "36", "37", "54", "55", "70", "71", "74", "75", "90", "91"):
        for t, e in [("X1Y2D01*", ["D01", {"x": ["CoordinateX", {"value": "1"}], "is_standalone": False}]),
                     ("X1Y2I3J4D01*", ["D01", {"i": ["CoordinateI", {"value": "3"}], "is_standalone": False}]),
                     ("X1Y2D02*", ["D02", {"y": ["CoordinateY", {"value": "2"}], "is_standalone": False}]),
                     ("Y2D03*", ["D03", {"x": None, "is_standalone": False}]),
                     ("D10*", ["Dnn", {"aperture_id": "D10", "is_standalone": False}]),
                     ("D02*", ["D02", {"x": None, "y": None, "is_standalone": False}])]:
            for z in (g, str(int(g))):
                out.append((f"G{g}+{e[0]}", f"G{z}{t}", [[f"G{g}", {"is_standalone": False}], e]))
    return out


# ------------------------------------------------------------------- reading of the tree


def plain(value):
    import datetime

    if isinstance(value, Enum):
        return value.value
    if isinstance(value, bool) or value is None:
        return value
    if isinstance(value, (int, float)):
        return float(value)
    if isinstance(value, datetime.datetime):
        return value.isoformat()
    if isinstance(value, str):
        return str(value)
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    return value


def diff(node, expected, path=""):
    """First difference of implementation node and expected tree, or None."""
    cls, fields = expected
    if cls == "Constant":  # a sign may be kept as an operator
        value = _constant(node)
        return None if value == fields["constant"] else f"{path}: {node!r} instead of {fields['constant']}"
    got = type(node).__name__
    if got != cls:
        return f"{path or 'node'}: {got} instead of {cls}"
    for k, want in fields.items():
        have = getattr(node, k)
        here = f"{path}{cls}.{k}"
        d = _diff_value(have, want, here)
        if d:
            return d
    return None


def _constant(node):
    n = type(node).__name__
    if n == "Constant":
        return node.constant
    if n in ("Neg", "Pos"):
        v = _constant(node.operand)
        return None if v is None else (-v if n == "Neg" else v)
    return None


def _is_node(want):
    return isinstance(want, list) and len(want) == 2 and isinstance(want[0], str) and isinstance(want[1], dict)


def _diff_value(have, want, here):
    if _is_node(want):
        return diff(have, want, here + ":")
    if isinstance(want, list) and any(_is_node(w) for w in want):
        if len(have) != len(want):
            return f"{here}: {len(have)} items instead of {len(want)}"
        for k, (h, w) in enumerate(zip(have, want)):
            d = _diff_value(h, w, f"{here}[{k}]")
            if d:
                return d
        return None
    have = plain(have)
    if isinstance(want, (int, float)) and not isinstance(want, bool):
        want = float(want)
    if have != want:
        return f"{here}: {have!r} instead of {want!r}"
    return None
