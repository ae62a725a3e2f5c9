"""C05: attributes: dictionaries follow TF/TA/TO/TD, every aperture and object carries those in force at its creation."""

from __future__ import annotations

import hashlib
import itertools
import json

from mc.core import Obs, expect, expect_eq
from checks.c01 import parser

PROPERTY = "C05"
BATCH = 1
ASSUMPTIONS = ["aperture and object attributes have different names; no attribute commands between AB and its end",
               "draws carry object attributes only (an aperture's attributes stay with the aperture)"]

HEAD = ("%FSLAX34Y34*%%MOMM*%%AMM*1,1,1,0,0*20,1,0.3,0,0,1,0,0*%"
        "%AMQ*2,1,0.3,0,0,1,0,0*4,1,3,0,0,1,0,0,1,0,0,0*5,1,5,0,0,2,0*6,0,0,3,0.2,0.2,2,0.1,4,0*6,5,0,1,0.4,0.2,2,0.1,4,10*"
        "7,0,0,2,1,0.2,0*21,1,1,1,0,0,0*22,0,1,1,0,0,0*7,4,4,2,0,0.2,30*%")
PRE = "%ADD20C,0.3*%D20*"
SYMS = {
    "ta1": ("%TA.AperFunction,ViaPad*%", ("A", ".AperFunction", ["ViaPad"])),
    "ta2": ("%TA.AperFunction,Conductor*%", ("A", ".AperFunction", ["Conductor"])),
    "ta3": ("%TA.DrillTolerance,0.01,0.02*%", ("A", ".DrillTolerance", [0.01, 0.02])),
    "ta4": ("%TAUserA,v1,v2*%", ("A", "UserA", ["v1", "v2"])),
    "ta5": ("%TAUserA,w*%", ("A", "UserA", ["w"])),
    "ta6": ("%TA.FlashText,lbl,C,R,fnt,2,note*%", ("A", ".FlashText", ["lbl", "note"])),
    "to1": ("%TO.N,Net1*%", ("O", ".N", ["Net1"])),
    "to2": ("%TO.N,Net2*%", ("O", ".N", ["Net2"])),
    "to3": ("%TO.P,U1,7*%", ("O", ".P", ["U1", "7"])),
    "to4": ("%TO.C,R5*%", ("O", ".C", ["R5"])),
    "to5": ("%TOUserO,o*%", ("O", "UserO", ["o"])),
    "to6": ("%TO.CRot,45.5*%", ("O", ".CRot", [45.5])),
    "to7": ("%TO.CMfr,Acme*%", ("O", ".CMfr", ["Acme"])),
    "to8": ("%TO.CMPN,X-1*%", ("O", ".CMPN", ["X-1"])),
    "to9": ("%TO.CPkg,SOT*%", None),
    "to10": ("%TO.CMnt,SMD*%", ("O", ".CMnt", ["SMD"])),
    "to11": ("%TO.CFtp,f1*%", ("O", ".CFtp", ["f1"])),
    "to12": ("%TO.CPgN,p1*%", ("O", ".CPgN", ["p1"])),
    "to13": ("%TO.CPgD,p2*%", ("O", ".CPgD", ["p2"])),
    "to14": ("%TO.CHgt,1.5*%", ("O", ".CHgt", [1.5])),
    "to15": ("%TO.CLbN,l1*%", ("O", ".CLbN", ["l1"])),
    "to16": ("%TO.CLbD,l2*%", ("O", ".CLbD", ["l2"])),
    "to17": ("%TO.CSup,s1,s2*%", ("O", ".CSup", ["s1", "s2"])),
    "to18": ("%TO.CVal,220nF*%", ("O", ".CVal", ["220nF"])),
    "tf1": ("%TF.Part,Single*%", ("F", ".Part", ["Single"])),
    "tf2": ("%TF.Part,Array*%", ("F", ".Part", ["Array"])),
    "tf3": ("%TF.FileFunction,Copper,L1,Top*%", ("F", ".FileFunction", ["Copper"])),
    "tf4": ("%TFUserF,f*%", ("F", "UserF", ["f"])),
    "tf5": ("%TF.FilePolarity,Positive*%", ("F", ".FilePolarity", ["Positive"])),
    "tf6": ("%TF.SameCoordinates,id1*%", ("F", ".SameCoordinates", ["id1"])),
    "tf7": ("%TF.GenerationSoftware,ven,app,1.0*%", ("F", ".GenerationSoftware", ["ven", "app", "1.0"])),
    "tf8": ("%TF.CreationDate,2024-01-01T00:00:00*%", ("F", ".CreationDate", [])),
    "td": ("%TD*%", ("D", None)),
    "tdN": ("%TD.N*%", ("D", ".N")),
    "tdAF": ("%TD.AperFunction*%", ("D", ".AperFunction")),
    "tdUA": ("%TDUserA*%", ("D", "UserA")),
    "tdUO": ("%TDUserO*%", ("D", "UserO")),
    "tdP": ("%TD.P*%", ("D", ".P")),
    "tdX": ("%TDAbsent*%", ("D", "Absent")),
    "tdF": ("%TD.Part*%", ("D", ".Part")),
    "tdMPN": ("%TD.CMPN*%", ("D", ".CMPN")),
    "ad10": ("%ADD10C,0.5X0.2*%", ("AD", "D10")),
    "ad11": ("%ADD11R,0.5X0.7*%", ("AD", "D11")),
    "ad12": ("%ADD12O,0.5X0.7X0.1*%", ("AD", "D12")),
    "ad13": ("%ADD13P,0.5X5*%", ("AD", "D13")),
    "ad14": ("%ADD14M*%", ("AD", "D14")),
    "ad15": ("%ADD15Q*%", ("AD", "D15")),
    "f15": ("D15*X70000D03*", ("FL", "D15")),
    "ta7": ("%TA.AperFunction,ComponentDrill,PressFit*%", ("A", ".AperFunction", ["ComponentDrill", "PressFit"])),
    "to19": ("%TO.P,U2,8,SDA*%", ("O", ".P", ["U2", "8", "SDA"])),
    "to20": ("%TOUserO,b,a,,b,c d*%", ("O", "UserO", ["b", "a", "", "b", "c d"])),
    "tf9": ("%TFUserF,z,y,x*%", ("F", "UserF", ["z", "y", "x"])),
    "f10": ("D10*X10000Y0D03*", ("FL", "D10")),
    "f11": ("D11*X20000D03*", ("FL", "D11")),
    "f12": ("D12*Y20000D03*", ("FL", "D12")),
    "f13": ("D13*D03*", ("FL", "D13")),
    "f14": ("D14*D03*", ("FL", "D14")),
    "ln": ("D20*G01*X50000D01*", ("DR",)),
    "arc": ("D20*G75*G02*X0Y0D02*X20000Y0I10000J0D01*G01*", ("DR",)),
    "full": ("D20*G75*G03*X0Y0D02*X0Y0I10000J0D01*G01*", ("DR",)),
    "reg": ("G36*X0Y0D02*X10000D01*Y10000D01*X0Y0D01*G37*", ("RG",)),
    "reg2": ("G36*X0Y0D02*X10000D01*Y10000D01*X0Y0D01*X20000D02*X30000D01*Y10000D01*X20000Y0D01*G37*", ("RG", 2)),
    "sr": ("%SRX2Y1I3J0*%D20*X0Y0D03*%SR*%", ("SR",)),
    "ab": ("%ABD30*%D20*X0Y0D03*%AB*%", ("AB",)),
    "fb": ("D30*X30000D03*", ("FB",)),
}
for _k in [k for k, v in SYMS.items() if v[1] is None]:
    del SYMS[_k]
ATTR = [k for k, v in SYMS.items() if v[1][0] in "AOFD" and v[1][0] not in ("AD", "AB")]
CORE = ["ta1", "ta2", "ta4", "to1", "to2", "to3", "tf1", "td", "tdN", "tdAF", "tdP", "ad10", "f10", "ln", "reg", "sr",
        "fb", "ad14", "f14", "ad15", "f15"]
DEEP = ["ta1", "ta4", "to1", "to2", "td", "tdN", "tdAF", "ad10", "f10", "reg"]


def model(seq):
    """Reference machine: attribute dictionaries and attributes of apertures and objects."""
    d = {"A": {}, "O": {}, "F": {}}
    aps = {"D20": {}}
    block = None  # attributes of the object recorded in block D30
    objs = []
    for k in seq:
        e = SYMS[k][1]
        if e[0] in ("A", "O", "F"):
            d[e[0]] = {**d[e[0]], e[1]: e[2]}
        elif e[0] == "D":
            if e[1] is None:
                d["A"], d["O"] = {}, {}
            else:
                d["A"] = {n: v for n, v in d["A"].items() if n != e[1]}
                d["O"] = {n: v for n, v in d["O"].items() if n != e[1]}
        elif e[0] == "AD":
            if e[1] in aps:
                return None  # the format forbids redefinition
            aps[e[1]] = d["A"]
        elif e[0] == "FL":
            if e[1] not in aps:
                return None
            objs.append(("flash", d["O"], aps[e[1]]))
        elif e[0] == "DR":
            objs.append(("draw", d["O"]))
        elif e[0] == "RG":
            for _ in range(e[1] if len(e) > 1 else 1):
                objs.append(("region", {**d["O"], **d["A"]}))
        elif e[0] == "SR":
            objs += [("flash", d["O"], {})] * 2
        elif e[0] == "AB":
            if block is not None:
                return None
            block = ("flash", d["O"], {})
            aps["D30"] = d["A"]
        elif e[0] == "FB":
            if block is None:
                return None
            objs.append(block)
    return d, aps, objs


def leaves(x):
    if isinstance(x, dict):
        for v in x.values():
            yield from leaves(v)
    elif isinstance(x, list):
        for v in x:
            yield from leaves(v)
    else:
        yield x
def in_order(values, have):
    it = iter(have)
    return all(any(v == h for h in it) for v in values)


def content_of(layers, name):
    """Shapes of a layer, copies of other layers followed."""
    for c in layers[name]:
        if hasattr(c, "source_layer_id"):
            yield from content_of(layers, c.source_layer_id.id)
        else:
            yield c


def check_meta(got, want, what):
    got = dict(got or {})
    expect_eq(sorted(got), sorted(want), f"attributes of {what}")
    for name, values in want.items():
        have = list(leaves(json.loads(got[name])))
        expect(in_order(values, have), f"value of attribute {name} of {what}", values, have)


_NODES = {}


def node_of(text):
    if text not in _NODES:
        _NODES[text] = parser()(text).nodes
    return _NODES[text]


def check_nodes(got, want, what):
    expect_eq(sorted(got), sorted(want), f"{what} attributes in force")
    for name, node in got.items():
        have = list(leaves(json.loads(node.model_dump_json())))
        expect(in_order(want[name], have), f"value of {what} attribute {name}", want[name], have)


def compare(seq):
    want = model(seq)
    if want is None:
        return None
    from pygerber.gerber.ast import get_final_state
    from pygerber.gerber.ast.nodes import File
    from pygerber.gerber.compiler import Compiler
    from pygerber.vm.commands import EndLayer, PasteLayer, Shape, StartLayer

    d, aps, objs = want
    nodes = node_of(HEAD) + node_of(PRE)
    for k in seq:
        nodes = nodes + node_of(SYMS[k][0])
    tree = File(nodes=nodes)
    st = get_final_state(tree)
    check_nodes(st.attributes.aperture_attributes, d["A"], "aperture")
    check_nodes(st.attributes.object_attributes, d["O"], "object")
    check_nodes(st.attributes.file_attributes, d["F"], "file")
    per = st.apertures.per_aperture_attributes
    expect_eq(sorted(per), sorted(aps), "apertures with attributes")
    for a, want_a in aps.items():
        check_nodes(per[a], want_a, f"{a}'s")
    rvmc = Compiler(include_metadata=True).compile(tree)
    check_meta(rvmc.metadata, d["F"], "file")
    layers, cur, order = {}, None, []
    for c in rvmc.commands:
        if isinstance(c, StartLayer):
            cur = c.id.id
            layers[cur] = []
            order.append(cur)
        elif not isinstance(c, EndLayer):
            layers[cur].append(c)
    main = list(layers[order[-1]])
    runs = []  # expected: copies one by one, neighbouring shapes with equal attributes together
    for o in objs:
        if o[0] == "flash" or not runs or runs[-1][0] == "flash" or runs[-1][1] != o[1]:
            runs.append(o)
    pos = 0
    for o in runs:
        expect(pos < len(main), "an object is missing")
        if o[0] == "flash":
            c = main[pos]
            pos += 1
            expect(isinstance(c, PasteLayer), "flash is a copy of its aperture", None, type(c).__name__)
            check_meta(c.metadata, o[1], "flash")
            content = list(content_of(layers, c.source_layer_id.id))
            expect(len(content) > 0, "aperture has content")
            for shape in content:
                check_meta(shape.metadata, o[2], "shape of flashed aperture")
            continue
        first = main[pos].metadata
        check_meta(first, o[1], o[0])
        while pos < len(main) and isinstance(main[pos], Shape) and main[pos].metadata == first:
            pos += 1
    expect_eq(pos, len(main), "number of drawn commands")
    return repr((sorted((k, sorted(v.items(), key=repr)) for k, v in d.items()), sorted(aps, key=repr)))


def md5_case(which):
    """Attribute accepted exactly when it equals the hash of what precedes it, line breaks removed."""
    n, out = 0, []
    eols = ["", "\n", "\r\n", "\n\n", " \n", "\r"]
    bodies = ["", "G04 a*", "%FSLAX26Y26*%", "X1Y1D03*", "%MOMM*%", "G04 ąś €*", "%TF.Part,Single*%"]
    body = bodies[which]
    for e1, e2, e3 in itertools.product(eols, repeat=3):
        for tail in ("M02*", "\nM02*\n", ""):
            before = f"G04 start*{e1}{body}{e2}D01*{e3}"
            if not tail and not before:
                continue
            good = hashlib.md5(before.replace("\n", "").replace("\r", "").encode()).hexdigest()
            for md5, ok in ((good, True), ("0" * 32, False), (good[:-1] + ("0" if good[-1] != "0" else "1"), False),
                            (hashlib.md5(before.replace("\n", "").replace("\r", "")[:-1].encode()).hexdigest(), False),
                            (hashlib.md5((before + tail).encode()).hexdigest(), False),
                            (hashlib.md5((before + "%").replace("\n", "").replace("\r", "").encode()).hexdigest(), False)):
                if not ok and md5 == good:
                    continue
                text = f"{before}%TF.MD5,{md5}*%{tail}"
                tree = parser()(text)
                node = next(x for x in tree.nodes if type(x).__name__ == "TF_MD5")
                expect_eq(node.check_source_hash(), ok, f"hash check of {text!r}")
                n += 1
                out.append(ok)
    return Obs(states=[repr((which, k)) for k in range(n)], transitions=n, traces=n, outcome=f"{which}{sum(out)}")


def cases(tier):
    for k in range(7):
        yield ["md5", k]
    names = list(SYMS)
    for a in names:
        yield ["full", 3, [a]]
    for a in CORE:
        for b in CORE if tier != "quick" else [None]:
            yield ["core", 4 if tier == "quick" else 5, [a] if b is None else [a, b]]
    for a, b in itertools.product(DEEP, repeat=2):
        yield ["deep", 5 if tier == "quick" else 6, [a, b]]


def useful(seq):
    """Skip sequences which repeat a command (idempotent ones) back to back."""
    return all(a != b for a, b in zip(seq, seq[1:]))


def run_case(case):
    if case[0] == "md5":
        return md5_case(case[1])
    _, depth, first = case
    alphabet = {"full": list(SYMS), "core": CORE, "deep": DEEP}[case[0]]
    states, n, steps = set(), 0, 0
    lens = range(len(first), depth + 1) if case[0] == "full" else [depth]
    for L in lens:
        for rest in itertools.product(alphabet, repeat=L - len(first)):
            seq = (*first, *rest)
            if not useful(seq):
                continue
            st = compare(seq)
            if st is None:
                continue
            states.add(st)
            n += 1
            steps += L
    return Obs(states=states, transitions=steps, traces=n, outcome=repr(sorted(states))[:4000])


def bounds(tier):
    a, b = (4, 5) if tier == "quick" else (5, 6)
    return (f"all sequences of up to 3 of {len(SYMS)} commands, {a} of {len(CORE)}, {b} of {len(DEEP)}; MD5 attribute "
            "after 7 bodies x 216 line break patterns x 6 candidate hashes")
