"""C19: the language server answers from the current text of the asked document, and the answers are right."""

from __future__ import annotations

import base64
import io
import itertools
import re

from mc import forms, impl
from mc.core import Mismatch, Obs, expect, expect_eq
from mc.lsp import Client

PROPERTY = "C19"
BATCH = 10
ASSUMPTIONS = ["messages reach the server through its own JSON-RPC protocol object, transport is a stand-in",
               "client follows the protocol: changes and closes only open documents",
               "pictures of single quadrant arcs are not decided"]
URIS = ["file:///a.gbr", "file:///dir/b.gtl"]

# ------------------------------------------------------------------ hover content
HEAD = ["%FSLAX26Y26*%", "%MOMM*%", "%AMm*", "1,1,$1,0,0*%", "%ADD10C,0.5*%", "%TA.AperFunction,ViaPad*%", "%ADD11m,2*%",
        "%TD*%", "G75*", "D10*"]
CHUNKS = {
    "D10": ["D10*"], "D11": ["D11*"], "mv": ["X1000000Y2000000D02*"], "mx": ["X-3000000D02*"],
    "ln": ["X2000000Y500000D01*"], "ly": ["Y-1000000D01*"], "arc": ["X4000000Y3000000I1000000J2000000D01*"],
    "aj": ["X1500000Y1500000J1000000D01*"], "fl": ["X500000Y0D03*"], "fh": ["D03*"],
    "1": ["G01*"], "2": ["G02*"], "3": ["G03*"], "74": ["G74*"], "75": ["G75*"],
    "LPC": ["%LPC*%"], "LPD": ["%LPD*%"], "LR": ["%LR45*%"], "LS": ["%LS2*%"], "LM": ["%LMX*%"], "LMY": ["%LMXY*%"],
    "TON": ["%TO.N,net*%"], "TOC": ["%TO.C,R1*%"], "TOu": ["%TOuser,a,b*%"], "TA": ["%TA.AperFunction,SMDPad,CuDef*%"],
    "TDn": ["%TD.N*%"], "TD": ["%TD*%"],
    "ad": ["%ADD20R,1X2*%"], "D20": ["D20*"], "adO": ["%ADD21O,1X2X0.5*%"], "adP": ["%ADD22P,2X5X10*%"], "D22": ["D22*"],
    "z": ["%ADD23C,0*%", "D23*"],
    "AB": ["%ABD30*%", "D10*", "%LPC*%", "X700000Y300000D03*", "%LR10*%", "X900000Y100000D01*", "%LPD*%", "%AB*%"], "D30": ["D30*"],
    "SR": ["%SRX2Y1I5J0*%", "X100000Y200000D03*", "%LPC*%", "X300000Y400000D01*", "D11*", "%LPD*%", "%SR*%"],
    "rg": ["G36*", "X0Y0D02*", "X5000000Y0D01*", "X5000000Y5000000D01*", "X0Y0D01*", "G37*"],
}
NEEDS = {"D20": "ad", "D22": "adP", "D30": "AB"}
MIRROR = {"N": "No Mirroring", "X": "Mirroring X", "Y": "Mirroring Y", "XY": "Mirroring X and Y"}
MODE = {"G01": "Linear", "G02": "Clockwise Arc", "G03": "Counter-clockwise Arc"}
ATTRTEXT = {".N": "net", ".C": "R1"}


class Model:
    def __init__(self):
        self.x = self.y = 0.0
        self.ap, self.mode, self.quad, self.pol = None, "G01", "S", "D"
        self.lm, self.lr, self.ls = "N", 0.0, 1.0
        self.ta, self.to, self.ap_attrs = {}, {}, {}
        self.defs, self.blocks, self.fs = [], {}, False
        self.stack = []

    def step(self, cmd, lines=None, i=None):
        c = cmd.strip("%")
        if self.stack and not c.startswith("AB"):
            self.stack[-1][1].append(cmd)
        if c.startswith("FS"):
            self.fs = True
        elif c.startswith("AM") or re.match(r"1,1", c):
            if c.startswith("AM"):
                self.defs.append("%AMm*\n1,1,$1,0,0*%")
        elif c.startswith("AD"):
            code = c[2:5]
            self.defs = [d for d in self.defs if not d.startswith("%AD" + code)] + [cmd]
            self.ap_attrs[code] = dict(self.ta)
        elif c.startswith("ABD"):
            self.stack.append((c[2:5], [cmd]))
        elif c == "AB*":
            code, body = self.stack.pop()
            self.blocks[code] = [*body, cmd]
            self.ap_attrs[code] = dict(self.ta)
        elif c.startswith("TA"):
            name, *f = c[2:-1].split(",")
            self.ta[name] = f
        elif c.startswith("TO"):
            name, *f = c[2:-1].split(",")
            self.to[name] = f
        elif c.startswith("TD"):
            if c == "TD*":
                self.ta, self.to = {}, {}
            else:
                self.ta.pop(c[2:-1], None)
                self.to.pop(c[2:-1], None)
        elif c.startswith("LP"):
            self.pol = c[2]
        elif c.startswith("LM"):
            self.lm = c[2:-1]
        elif c.startswith("LR"):
            self.lr = float(c[2:-1])
        elif c.startswith("LS"):
            self.ls = float(c[2:-1])
        elif c in ("G01*", "G02*", "G03*"):
            self.mode = c[:-1]
        elif c in ("G74*", "G75*"):
            self.quad = "S" if c == "G74*" else "M"
        elif re.fullmatch(r"D[1-9]\d\*", c):
            self.ap = c[:-1]
        elif re.search(r"D0[123]\*$", c):
            self.x, self.y = self.target(c)

    def target(self, c):
        co = coords(c)
        return co.get("X", self.x), co.get("Y", self.y)


def coords(c):
    return {k: int(v) / 1e6 for k, v in re.findall(r"([XYIJ])(-?\d+)", c)}


def section(md, title):
    m = re.search(re.escape(title) + r"[^\n]*\n((?:\s*- [^\n]*\n)*)", md)
    if not m:
        return None
    return [re.findall(r"`([^`]*)`", ln) for ln in m.group(1).splitlines() if ln.strip()]


def point(md, label):
    m = re.search(re.escape(label) + r"[^\n]*_x =_ `([^`]*)` _y =_ `([^`]*)`", md)
    return (round(float(m.group(1)), 6), round(float(m.group(2)), 6)) if m else None


def r6(x, y):
    return round(x, 6), round(y, 6)


def reference_picture(m, extra):
    """Picture of the command alone: definitions, position, modes and the command, drawn dark."""
    src = ["%FSLAX26Y26*%", "%MOMM*%", *m.defs]
    for body in m.blocks.values():
        src += body
    src += ["%LPD*%", f"X{round(m.x * 1e6)}Y{round(m.y * 1e6)}D02*", m.mode + "*", "G75*" if m.quad == "M" else "G74*",
            f"%LM{m.lm}*%", f"%LS{m.ls:g}*%", f"%LR{m.lr:g}*%"]
    if m.ap:
        src.append(m.ap + "*")
    src += extra
    rvmc = impl.rvmc_of("\n".join(src))
    box = impl.run_pillow(rvmc, dpmm=1).main_box
    if max(box.width, box.height) == 0:
        return None
    from pygerber.vm.types.style import Style

    return impl.run_pillow(rvmc, dpmm=200 / max(box.width, box.height)).get_image(Style.presets.COPPER_ALPHA)


def picture_of(md):
    m = re.search(r'data:image/png;base64,([^"]*)"', md)
    if not m:
        return None
    from PIL import Image

    return Image.open(io.BytesIO(base64.b64decode(m.group(1))))


_PICS = {}


def check_picture(md, m, extra, where):
    key = repr((m.x, m.y, m.ap, m.mode, m.quad, m.lm, m.ls, m.lr, m.defs, m.blocks, extra))
    if key not in _PICS:
        try:
            _PICS[key] = ("ok", reference_picture(m, extra))
        except Exception as e:  # noqa: BLE001
            _PICS[key] = ("bad", repr(e))
        if len(_PICS) > 3000:
            _PICS.pop(next(iter(_PICS)))
    kind, want = _PICS[key]
    if kind == "bad":
        return
    got = picture_of(md)
    expect_eq(got is None, want is None, f"{where}: picture present")
    if want is not None:
        expect_eq(got.size, want.size, f"{where}: size of picture")
        expect(got.convert("RGBA").tobytes() == want.convert("RGBA").tobytes(), f"{where}: picture differs from the command drawn alone")


def check_attrs(md, m, ap, where):
    got = section(md, "### Aperture attributes")
    want = m.ap_attrs.get(ap, {}) if ap else {}
    expect_eq(bool(got), bool(want), f"{where}: aperture attributes shown")
    if want:
        expect_eq(sorted((g[0], tuple(g[1:])) for g in got), sorted((k, tuple(v)) for k, v in want.items()), f"{where}: aperture attributes")
    check_object_attrs(md, m, where)


def check_object_attrs(md, m, where):
    got = section(md, "### Object attributes")
    expect_eq(bool(got), bool(m.to), f"{where}: object attributes shown")
    if m.to:
        expect_eq(len(got), len(m.to), f"{where}: number of object attributes")
        flat = [set(re.findall(r"[^`\s(),:]+", " ".join(g))) for g in got]
        for k, v in m.to.items():
            expect(any(k in s and set(v) <= s for s in flat), f"{where}: object attribute {k}", v, got)


def check_state(md, m, where):
    words = re.findall(r"`([^`]*)`", md)
    want = [f"Aperture: {m.ap}", MODE[m.mode], "Dark polarity" if m.pol == "D" else "Clear polarity", MIRROR[m.lm]]
    if m.mode != "G01":
        want.append("Multi-quadrant" if m.quad == "M" else "Single-quadrant")
    for w in want:
        expect(w in words, f"{where}: state lacks {w}", want, words[:14])
    all_words = {*MODE.values(), "Dark polarity", "Clear polarity", *MIRROR.values(), "Multi-quadrant", "Single-quadrant"}
    expect_eq(sorted(set(words) & all_words), sorted(set(want) & all_words), f"{where}: state")
    rot = [float(w.split(":")[1]) for w in words if w.startswith("Rotation:")]
    sc = [float(w.split(":")[1]) for w in words if w.startswith("Scale:")]
    expect_eq((rot, sc), ([m.lr], [m.ls]), f"{where}: rotation and scale")


def check_hover(md, cmd, m, where):
    c = cmd.strip("%")
    block = re.match(r"```gerber\n(.*?)```", md, re.S)
    canon = None
    if re.search(r"D0[123]\*$", c):
        canon = c
    elif c.startswith(("TO", "TA", "TD")):
        canon = cmd
    elif re.fullmatch(r"D[1-9]\d\*", c):
        canon = c
    if canon is not None:
        expect(block is not None, f"{where}: command is not shown", canon, md[:200])
        expect_eq(block.group(1).strip(), canon, f"{where}: command shown")
    if c.endswith("D01*"):
        expect_eq(point(md, "Starts at:"), r6(m.x, m.y), f"{where}: start")
        expect_eq(point(md, "Ends at:"), r6(*m.target(c)), f"{where}: end")
        centre = point(md, "Arc center at:")
        if m.mode == "G01":
            expect_eq(centre, None, f"{where}: centre")
        else:
            co = coords(c)
            expect_eq(centre, r6(m.x + co.get("I", 0), m.y + co.get("J", 0)), f"{where}: centre")
        check_state(md, m, where)
        check_attrs(md, m, m.ap, where)
        if m.ap and (m.mode == "G01" or m.quad == "M"):
            check_picture(md, m, [cmd], where)
    elif c.endswith("D02*"):
        expect_eq(point(md, "Relocate to:"), r6(*m.target(c)), f"{where}: target")
    elif c.endswith("D03*"):
        expect_eq(point(md, "Flash at:"), r6(*m.target(c)), f"{where}: target")
        check_state(md, m, where)
        check_attrs(md, m, m.ap, where)
        check_picture(md, m, [cmd], where)
    elif re.fullmatch(r"D[1-9]\d\*", c):
        check_attrs(md, m, c[:-1], where)
        check_picture(md, m, [cmd, "X0Y0D03*"], where)
    elif c.startswith("AD"):
        code = c[2:5]
        got = [float(x) for x in re.findall(r"- (?:[\w ]+|parameter `\$\d+`): `([\d.]+)°?`", md)]
        vals = [float(v) for v in c[:-1].split(",")[1].split("X")]
        expect_eq([g for g in got if g in vals][: len(vals)], vals, f"{where}: parameters of aperture")
        check_picture(md, m, [cmd, f"{code}*", "X0Y0D03*"], where)


LAYOUTS = {"lines": "\n", "one": "", "spaced": "\n\n  ", "crlf": "\r\n"}


def assemble(cmds, layout):
    """Text and for every command its (line, first column, last column)."""
    text, spans = "", []
    for i, c in enumerate(cmds):
        sep = LAYOUTS[layout]
        if layout == "pairs":
            sep = "\n" if i % 2 else " "
        start = len(text)
        line = text.count("\n")
        col = start - (text.rfind("\n") + 1)
        spans.append((line, col, col + len(c) - 1))
        text += c + sep
    return text, spans


LAYOUTS["pairs"] = None


def run_doc(case):
    _, words, layout = case
    cmds = list(HEAD)
    first = len(cmds)
    for i, w in enumerate(words):
        if i == len(words) - 1:
            first = len(cmds)
        cmds += CHUNKS[w]
    last = len(cmds)
    cmds.append("M02*")
    text, spans = assemble(cmds, layout)
    m = Model()
    for c in cmds[:first]:
        m.step(c)
    client = Client()
    states = []
    try:
        client.send([client.m_open(URIS[0], text)])
        order = list(range(first, last))
        for i in order:
            line, a, b = spans[i]
            where = f"hover over {cmds[i]} (line {line + 1})"
            answers = [client.ask(client.m_hover(URIS[0], line, col)) for col in sorted({a, (a + b) // 2, b})]
            r = answers[0]
            if cmds[i].endswith("D01*") and m.ap not in (None, "D10", "D20", "D23"):
                expect("answers" not in r, f"{where}: no answer", "an answer", r)  # the format forbids such draws
                m.step(cmds[i])
                continue
            expect("result" in r and r["result"], f"{where}: no answer", "an answer", r)
            for o in answers[1:]:
                expect(o == r, f"{where}: answer depends on column inside the command", r["result"], o)
            expect_eq((r["result"]["range"]["start"]["line"], r["result"]["range"]["start"]["character"]), (line, a), f"{where}: position")
            check_hover(r["result"]["contents"]["value"], cmds[i], m, where)
            m.step(cmds[i])
            states.append((cmds[i], m.ap, m.mode, m.x, m.y, m.pol, m.lr, m.ls, m.lm))
    finally:
        client.close()
    return Obs(states=states, transitions=len(order), traces=1, outcome="hover")


# ------------------------------------------------------------------ hover over every form of command
SHOWN = ("D01", "D02", "D03", "Dnn", "AD", "TA", "TF", "TO", "TD")
PRIMITIVES = [
    ("1,{e},{a},{b},{c},{r}", "Code1"), ("1,{e},{a},{b},{c}", "Code1"), ("20,{e},{a},{b},{c},{a},{b},{r}", "Code20"),
    ("2,{e},{a},{b},{c},{a},{b},{r}", "Code2"), ("21,{e},{a},{b},{c},{a},{r}", "Code21"),
    ("5,{e},5,{b},{c},{a},{r}", "Code5"), ("7,{b},{c},3,2,{a},{r}", "Code7"),
    ("4,{e},3,{b},{c},1,0,0,1,{b},{c},{r}", "Code4"), ("0 some comment", "Code0"), ("$3={a}", "Assignment")]


def open_and_hover(text, points):
    client = Client()
    try:
        client.send([client.m_open(URIS[0], text)])
        return [client.ask(client.m_hover(URIS[0], line, col)) for line, col in points]
    finally:
        client.close()


def shown_command(md):
    blk = re.match(r"```gerber\n(.*?)```", md, re.S)
    return blk.group(1).strip() if blk else None


def shown_value(text, want):
    """Field of an attribute is shown, as text or as the number it is."""
    if want.replace("`", "'") in text:
        return True
    try:
        return any(abs(float(g) - float(want)) < 1e-9 for g in re.findall(r"[-+]?\d+\.?\d*(?:e-?\d+)?|[-+]?\.\d+", text))
    except ValueError:
        return False


def run_form(case):
    """Hover over each instance of a form, and over objects which carry it when it is an attribute."""
    form = next(f for f in forms.catalogue() if f.name == case[1])
    from checks.c01 import parser

    n = 0
    states = []
    pre = "%FSLAX36Y36*%\n%MOMM*%\n%AMMAC*\n1,1,0.5,0,0*%\n%ADD10C,0.5*%\nD10*\n"
    if case[1] == "ADmacro":
        pre += "".join(f"%AM{name}*\n1,1,0.5,0,0*%\n" for name in form.slots["name"][0] if name != "MAC")
    for text, want in form.instances():
        if "100000" in text and case[1] == "ADmacro":
            continue  # pictures of apertures of 100 m are beyond the bounds
        post, extra = "\nM02*", []
        if case[1] == "Dnn" and text != "D10*":
            pre2 = pre + f"%AD{text[:-1]}C,1*%\n"
        else:
            pre2 = pre
        if want[0].startswith("TO"):
            post, extra = "\nX0Y0D03*\nM02*", [(1, 1, "### Object attributes")]
        elif want[0].startswith("TA"):
            post, extra = "\n%ADD12C,1*%\nD12*\nX0Y0D03*\nM02*", [(2, 1, "### Aperture attributes"), (3, 1, "### Aperture attributes")]
        doc = pre2 + text + post
        line = pre2.count("\n")
        cols = sorted({0, len(text) // 2, len(text) - 1})
        rs = open_and_hover(doc, [(line, c) for c in cols] + [(line + d, c) for d, c, _ in extra])
        for r in rs:
            expect("result" in r and r["result"], f"hover over {text!r} or what follows", "an answer", r)
        first = rs[0]["result"]
        for r in rs[1:len(cols)]:
            expect(r["result"] == first, f"hover over {text!r}: answer depends on column", first, r["result"])
        where = f"hover over {text!r}"
        expect_eq(first["range"], {"start": {"line": line, "character": 0}, "end": {"line": line, "character": len(text)}}, f"{where}: range")
        shown = shown_command(first["contents"]["value"])
        if want[0].startswith(SHOWN):
            expect(shown is not None, f"{where}: command is not shown", text, first["contents"]["value"][:200])
            nodes = parser()(shown).nodes
            expect(len(nodes) == 1 and not forms.diff(nodes[0], want), f"{where}: another command is shown", text, shown)
        for r, (_, _, title) in zip(rs[len(cols):], extra):
            sec = section(r["result"]["contents"]["value"], title)
            expect(sec is not None and len(sec) == 1, f"{where}: attribute of the object below", text, r["result"]["contents"]["value"][:400])
            name, *fields = text.strip("%")[2:-1].split(",")
            flat = " ".join(sec[0])
            for f in [name, *(fields if want[0] != "TA_FlashText" else fields[:1])]:
                expect(not f or shown_value(flat, f), f"{where}: attribute of the object below lacks {f!r}", text, sec)
        n += len(rs)
        states.append(text)
    return Obs(states=states, transitions=n, traces=len(states), outcome=("form", case[1]))


def run_primitive(case):
    """Hover over each primitive of a macro."""
    from checks.c01 import parser

    _, k, e, vals = case
    body, cls = PRIMITIVES[k]
    prim = body.format(e=e, a=vals[0], b=vals[1], c=vals[2], r=vals[3])
    lines = ["%FSLAX26Y26*%", "%MOMM*%", "%AMm*", "1,1,7,8,9*", prim + "*", "21,1,7,8,9,10,11*", "%", "%ADD10m,1X2*%", "M02*"]
    rs = open_and_hover("\n".join(lines), [(4, 0), (4, len(prim) // 2), (4, len(prim) - 1)])
    for r in rs:
        expect("result" in r and r["result"], f"hover over primitive {prim}", "an answer", r)
        st = r["result"]["range"]["start"]
        expect_eq(st["line"], 4, f"hover over primitive {prim}: line")
    if cls in ("Code1", "Code2"):
        md = rs[0]["result"]["contents"]["value"]
        shown = shown_command(md)
        expect(shown is not None, f"primitive {prim} is not shown", prim, md[:300])
        node = parser()("\n".join(lines)).nodes[2].primitives[1]
        back = parser()(f"%AMm*\n{shown.rstrip('*')}*%").nodes[0].primitives[0]
        expect_eq(repr(back), repr(node), f"primitive {prim} is shown as {shown}")
        # values of the parameters, by name
        names = {"Code1": ["exposure", "diameter", "center_x", "center_y", "rotation"],
                 "Code2": ["exposure", "width", "start_x", "start_y", "end_x", "end_y", "rotation"]}[cls]
        for name in names:
            m = re.search(rf"- {name}: `\s*([^`]*)`", md)
            expect(m is not None, f"primitive {prim}: {name} is not shown", prim, md[:400])
            val = getattr(node, name)
            got = m.group(1).strip().rstrip("°").strip()
            if val is None:
                expect_eq(got, "None", f"primitive {prim}: {name}")
                continue
            again = parser()(f"%AMm*\n$1={got}*%").nodes[0].primitives[0].expression
            expect_eq(repr(again), repr(val), f"primitive {prim}: {name}")
    return Obs(states=[prim], transitions=3, traces=1, outcome=("primitive", cls))


SOLE = ["%ABD10*%\nX0Y0D02*\n%AB*%\n", "%SRX2Y2I1J1*%\nD10*\n%SR*%", "%AMm*\n1,1,1,0,0*\n1,1,2,0,0*%", "D10*", "  G01*"]
SOLE_AT = [(1, 1, (1, 0)), (1, 0, (1, 0)), (2, 0, (2, 0)), (0, 1, (0, 0)), (0, 3, (0, 2))]


def run_sole(case):
    """Documents of a single command or block."""
    client = Client()
    try:
        for text, (line, col, start) in zip(SOLE, SOLE_AT):
            client.send([client.m_open(URIS[0], text)])
            r = client.ask(client.m_hover(URIS[0], line, col))
            expect("result" in r and r["result"], f"hover in {text!r}", "an answer", r)
            st = r["result"]["range"]["start"]
            expect_eq((st["line"], st["character"]), start, f"command found in {text!r}")
            client.send([client.m_close(URIS[0])])
    finally:
        client.close()
    return Obs(states=["sole"], transitions=len(SOLE), traces=len(SOLE), outcome="sole")


def doc_ok(words):
    for i, w in enumerate(words):
        if w in NEEDS and NEEDS[w] not in words[:i]:
            return False
    return True


# ------------------------------------------------------------------ completion
GCODES = {"G01", "G02", "G03", "G04", "G36", "G37", "G54", "G55", "G74", "G75", "G90", "G91"}


def run_completion(case):
    _, defs, before, typed, after = case
    lines, m = list(HEAD[:2]), Model()
    for c in HEAD[:2]:
        m.step(c)
    codes = []

    def add(d):
        nonlocal lines
        if d[0] == "A":
            lines += [f"%ADD{d[1:]}C,1*%"]
        else:
            lines += [f"%ABD{d[1:]}*%", "X0Y0D02*", "%AB*%"]
        codes.append(d)

    for d in defs[:before]:
        add(d)
    at = len(lines)
    lines.append(typed)
    for d in defs[before:]:
        add(d)
    lines += after
    text = "\n".join(lines) + "\n"
    client = Client()
    try:
        client.send([client.m_open(URIS[0], text)])
        r = client.ask(client.m_complete(URIS[0], at, len(typed)))
        r2 = client.ask(client.m_complete(URIS[0], at, len(typed)))
        expect(r == r2, "asking twice gives different completions", r, r2)
    finally:
        client.close()
    expect("result" in r and r["result"] is not None, "no completions", typed, r)
    items = r["result"]["items"]
    labels = [i["label"] for i in items]
    if typed[0] == "G":
        expect_eq(sorted({lab[:3] for lab in labels}), sorted(GCODES), "completions of G")
    elif typed[0] == "D":
        expect_eq(sorted(labels), sorted({"D" + d[1:] for d in codes}), "completions of D")
        for i in items:
            d = next(x for x in codes if x[1:] == i["label"][1:])
            want = f"%ADD{d[1:]}C,1" if d[0] == "A" else f"%ABD{d[1:]}*%"
            expect(i["detail"].strip().startswith(want), f"definition shown for {i['label']}", want, i["detail"])
    else:
        offered = sorted({re.match(r"AD(D\d+)", lab).group(1) for lab in labels if re.match(r"ADD\d\d", lab)})
        expect(len(offered) == 1, "one free code is offered", None, offered)
        code = int(offered[0][1:])
        expect(code >= 10 and code not in {int(d[1:]) for d in codes}, "offered aperture code is already used", sorted(codes), code)
        templates = sorted({re.sub(r"^ADD\d+", "", lab)[0] for lab in labels if lab.startswith("ADD")})
        expect_eq(templates, ["C", "O", "P", "R"], "templates offered")
        expect({"FSLAX46Y46*", "MOMM*", "LPD*", "LPC*"} <= set(labels), "extended commands offered", None, labels)
    return Obs(states=[(tuple(defs), typed[0])], transitions=len(defs) + 1, traces=1, outcome="completion")


# ------------------------------------------------------------------ histories
TEXTS = [
    "%FSLAX26Y26*%\n%MOMM*%\n%ADD10C,1*%\nD10*\nX1000000Y0D03*\nD\nM02*\n",
    "%FSLAX35Y35*%\n%MOIN*%\n%ADD11R,1X1*%\n%ADD12C,1*%\nD11*\nX100000Y0D03*\n%\nX0Y0D01*\nM02*\n",
    "%FSLAX26Y26*%\n%MOMM*%\nD10*\nX0Y0D03*\nD9\nG\nM02*\n",
    " \n",
]
INSERT = "%LR90*%\n"
POSITIONS = [(2, 1), (3, 0), (4, 2), (5, 1), (6, 1)]
_FRESH = {}


def observe(client, uri):
    out = []
    for line, col in POSITIONS:
        out.append(client.ask(client.m_hover(uri, line, col)))
        out.append(client.ask(client.m_complete(uri, line, col)))
    return out


def fresh(text):
    if text not in _FRESH:
        c = Client()
        try:
            c.send([c.m_open(URIS[0], text)])
            _FRESH[text] = observe(c, URIS[0])
        finally:
            c.close()
    return _FRESH[text]


def apply_op(op, docs):
    """-> docs after the operation, or None when the client may not do it."""
    kind, u, *arg = op
    docs = list(docs)
    if kind == "open":
        if docs[u] is not None:
            return None
        docs[u] = TEXTS[arg[0]]
    elif kind in ("set", "ins", "del", "twice"):
        if docs[u] is None:
            return None
        if kind == "set":
            docs[u] = TEXTS[arg[0]]
        elif kind == "twice":
            docs[u] = INSERT + TEXTS[arg[0]]
        elif kind == "ins":
            docs[u] = insert_line(docs[u], 2)
        else:
            lines = docs[u].split("\n")
            if len(lines) < 5:
                return None
            docs[u] = "\n".join(lines[:3] + lines[4:])
    elif kind == "close":
        if docs[u] is None:
            return None
        docs[u] = None
    elif kind in ("hover", "complete") and docs[u] is None:
        return None
    return docs


def insert_line(text, at):
    lines = text.split("\n")
    if len(lines) <= at:
        return INSERT + text
    return "\n".join(lines[:at]) + "\n" + INSERT + "\n".join(lines[at:])


def message(client, op, docs_before):
    kind, u, *arg = op
    uri = URIS[u] if u < 2 else "file:///c.txt"
    if kind == "open":
        return client.m_open(uri, TEXTS[arg[0]])
    if kind == "other":
        return client.m_open(uri, "whatever")
    if kind == "set":
        return client.m_change(uri, [{"text": TEXTS[arg[0]]}])
    if kind == "twice":
        return client.m_change(uri, [{"text": TEXTS[arg[0]]}, {"range": rng(0, 0, 0, 0), "text": INSERT}])
    if kind == "ins":
        at = 2 if len(docs_before[u].split("\n")) > 2 else 0
        return client.m_change(uri, [{"range": rng(at, 0, at, 0), "text": INSERT}])
    if kind == "del":
        return client.m_change(uri, [{"range": rng(3, 0, 4, 0), "text": ""}])
    if kind == "close":
        return client.m_close(uri)
    if kind == "hover":
        return client.m_hover(uri, 3, 1)
    return client.m_complete(uri, 5, 1)


def rng(a, b, c, d):
    return {"start": {"line": a, "character": b}, "end": {"line": c, "character": d}}


def run_history(case):
    _, ops, cuts = case
    docs = [None, None]
    client = Client()
    try:
        chunk, asked = [], []
        for i, op in enumerate(ops):
            op = tuple(op)
            msg = message(client, op, docs)
            docs = apply_op(op, docs)
            if "id" in msg:
                asked.append((msg, docs[op[1]], op))
            chunk.append(msg)
            if i + 1 == len(ops) or cuts[i]:
                client.send(chunk)
                chunk = []
        for msg, _text, op in asked:
            a = client.answer(msg)
            expect("answers" not in a, f"{op[0]} request got {a.get('answers')} answers", 1, a)
        answers = [observe(client, URIS[u]) if text is not None else None for u, text in enumerate(docs)]
    finally:
        client.close()
    for u, text in enumerate(docs):
        if text is None:
            continue
        for (pos, kind), g, w in zip(itertools.product(POSITIONS, ("hover", "completion")), answers[u], fresh(text)):
            expect(g == w, f"{kind} at {pos} of document {u} differs from answer of a new server for the same text",
                   str(w)[:300], str(g)[:300])
    return Obs(states=[tuple(docs)], transitions=len(ops), traces=1, outcome="history")


def histories(ops, depth, start=()):
    def rec(done, docs):
        if done:
            yield list(done)
        if len(done) < depth:
            for op in ops:
                nd = apply_op(op, docs)
                if nd is not None:
                    yield from rec([*done, op], nd)
    docs = [None, None]
    for op in start:
        docs = apply_op(op, docs)
    for h in rec(list(start), docs):
        yield h


def all_ops(texts, uris=(0, 1)):
    out = []
    for u in uris:
        out += [("open", u, t) for t in texts] + [("set", u, t) for t in texts]
        out += [("ins", u), ("del", u), ("close", u), ("hover", u), ("complete", u)]
    return out


# ------------------------------------------------------------------ sizes
def run_long(case):
    """Hover over the last commands of a document of many groups."""
    _, n, step, layout = case
    keys = list(CHUNKS)
    words, have = [], set()
    for k in range(n):
        w = keys[(n + k * step) % len(keys)]
        if w in NEEDS and NEEDS[w] not in have:
            w = NEEDS[w]
        have.add(w)
        words.append(w)
    return run_doc(["doc", [*words, "D10", "1", ("fl", "ln", "mv", "TOC", "SR")[n % 5]], layout])


def run_documents(case):
    """Many open documents: each is answered from its own current text, whatever happens to the others."""
    _, n, step = case
    client = Client()
    texts = {}
    count = 0
    try:
        for k in range(n):
            uri = f"file:///d{k}.gbr"
            texts[uri] = TEXTS[k * step % len(TEXTS)]
            client.send([client.m_open(uri, texts[uri])])
        for k in range(0, n, 2):
            uri = f"file:///d{k}.gbr"
            texts[uri] = TEXTS[(k + step + 1) % len(TEXTS)]
            client.send([client.m_change(uri, [{"text": texts[uri]}])])
        for k in range(1, n, 4):
            uri = f"file:///d{k}.gbr"
            client.send([client.m_close(uri)])
            del texts[uri]
        seen = {uri: observe(client, uri) for uri in texts}
    finally:
        client.close()
    for uri, text in texts.items():
        count += len(seen[uri])
        for (pos, kind), g, w in zip(itertools.product(POSITIONS, ("hover", "completion")), seen[uri], fresh(text)):
            expect(g == w, f"{n} documents: {kind} at {pos} of {uri} differs from answer of a new server for the same text", str(w)[:300], str(g)[:300])
    return Obs(states=sorted(texts), transitions=count, traces=1, outcome=("documents", n))


def run_edits(case):
    """A document edited many times, one range at a time, is answered as its final text."""
    _, n, kind, cut = case
    client = Client()
    text = TEXTS[n % 2]
    try:
        msgs = [client.m_open(URIS[0], text)]
        for k in range(n):
            lines = text.split("\n")
            if kind == "type":  # characters of a command typed one after another
                ch = INSERT[k % len(INSERT)]
                at, col = (k // len(INSERT) + 2, k % len(INSERT))
                msgs.append(client.m_change(URIS[0], [{"range": rng(at, col, at, col), "text": ch}]))
                lines[at] = lines[at][:col] + ch + lines[at][col:]
                text = "\n".join(lines)
            elif kind == "lines":
                msgs.append(client.m_change(URIS[0], [{"range": rng(2, 0, 2, 0), "text": INSERT}]))
                text = insert_line(text, 2)
            elif kind == "undo":
                if k % 2 == 0:
                    msgs.append(client.m_change(URIS[0], [{"range": rng(3, 0, 3, 0), "text": INSERT}]))
                    text = insert_line(text, 3)
                else:
                    msgs.append(client.m_change(URIS[0], [{"range": rng(3, 0, 4, 0), "text": ""}]))
                    text = "\n".join(lines[:3] + lines[4:])
            if cut and k % cut == 0:
                msgs.append(client.m_hover(URIS[0], 3, 1))
        client.send(msgs)
        for msg in msgs:
            if "id" in msg:
                a = client.answer(msg)
                expect("answers" not in a, f"request got {a.get('answers')} answers", 1, a)
        answers = observe(client, URIS[0])
    finally:
        client.close()
    for (pos, k), g, w in zip(itertools.product(POSITIONS, ("hover", "completion")), answers, fresh(text)):
        expect(g == w, f"{k} at {pos} after {n} edits ({kind}) differs from answer of a new server for the same text {text!r}", str(w)[:300], str(g)[:300])
    return Obs(states=[text], transitions=n, traces=1, outcome=("edits", kind, n))


def run_case(case):
    more = {"long": run_long, "documents": run_documents, "edits": run_edits}
    if case[0] in more:
        return more[case[0]](case)
    return {"form": run_form, "primitive": run_primitive, "doc": run_doc, "sole": run_sole, "completion": run_completion, "history": run_history}[case[0]](case)


def cases(tier):
    t = tier == "thorough"
    yield ["sole"]
    for f in forms.catalogue():
        yield ["form", f.name]
    exprs = ["1", "0.5", "$1", "$1x2", "$1+$2x-3", "($1-1)/2", "-0.25"]
    for k in range(len(PRIMITIVES)):
        for e in ("1", "0", "$2"):
            for v in (itertools.product(exprs, repeat=4) if t else [exprs[i:] + exprs[:i] for i in range(len(exprs))]):
                yield ["primitive", k, e, list(v)[:4]]
    keys = list(CHUNKS)
    for w in keys:
        for lay in LAYOUTS:
            if doc_ok((w,)):
                yield ["doc", [w], lay]
    for n, w in enumerate(itertools.product(keys, repeat=2)):
        if doc_ok(w):
            lays = list(LAYOUTS) if t else [list(LAYOUTS)[n % len(LAYOUTS)]]
            for lay in lays:
                yield ["doc", list(w), lay]
    setup = ["D11", "mv", "3", "LPC", "LR", "TON", "TA", "ad", "AB", "SR", "rg", "adP"]
    final = ["arc", "fl", "D30", "D20", "D22", "SR", "AB", "ly", "ad"]
    if t:
        setup = keys
        final = ["arc", "fl", "D30", "D20", "D22", "SR", "AB", "ly", "ad", "adP", "rg", "fh"]
    for w in itertools.product(setup, setup, final):
        if doc_ok(w):
            yield ["doc", list(w), "lines"]
    afters = [["M02*"], []]
    kinds = ["A10", "A11", "B12", "A12", "A15", "B10"]
    for k in range(0, 4 if t else 3):
        for defs in itertools.permutations(kinds, k):
            if len({d[1:] for d in defs}) < len(defs):
                continue
            for before in range(k + 1):
                for typed in ("G", "G0", "D", "D1", "%", "%AD"):
                    for after in afters:
                        yield ["completion", list(defs), before, typed, after]
    for k in range(4, 41 if t else 25):
        for order in (1, -1, 7):
            if k % 7 == 0 and order == 7:
                continue
            codes = [10 + j * order % k * (1 if k % 3 else 5) for j in range(k)] if order > 0 else [9 + k - j for j in range(k)]
            defs = [("B" if c % 4 == 3 else "A") + str(c) for c in codes]
            yield ["completion", defs, k * (k % 3) // 2, ("D", "%", "%AD", "D1")[k % 4], ["M02*"]]
    for n in range(3, 61 if t else 41):
        for step in (1, 3, 7) if t else (1 + n % 3 * 2,):
            yield ["long", n, step, list(LAYOUTS)[n % len(LAYOUTS)]]
    for n in range(3, 21 if t else 11):
        for step in (1, 3) if t else (1,):
            yield ["documents", n, step]
    for n in range(1, 61 if t else 31):
        for kind in ("type", "lines", "undo"):
            for cut in (0, 1, 3) if t else (n % 3,):
                yield ["edits", n, kind, cut]
    ops = all_ops(range(len(TEXTS)))
    ops += [("other", 2), ("twice", 0, 1)]
    for h in histories(ops, 4 if t else 3):
        yield ["history", h, [True] * len(h)]
    # deliveries: every way to cut a history into chunks of bytes
    small = [("open", 0, 0), ("set", 0, 1), ("set", 0, 2), ("ins", 0), ("close", 0), ("hover", 0), ("open", 1, 1), ("set", 1, 0), ("close", 1)]
    if t:
        small += [("complete", 0), ("open", 0, 1)]
    depth = 5 if t else 4
    for h in histories(small, depth):
        if len(h) >= (4 if t else 3):
            for cuts in itertools.product([False, True], repeat=len(h) - 1):
                if not all(cuts) and (t or sum(cuts) <= 1):
                    yield ["history", h, list(cuts)]


def bounds(tier):
    t = tier == "thorough"
    return (f"hover over every command of the last of at most 2 of {len(CHUNKS)} groups of commands in {len(LAYOUTS)} layouts and of 3 groups; completion "
            f"for every order of at most {3 if t else 2} definitions around the cursor and for up to {40 if t else 24} definitions; documents of up to {60 if t else 40} groups, "
            f"up to {20 if t else 10} documents at once, up to {60 if t else 30} edits of one document; every history of at most {4 if t else 3} messages on two documents, "
            f"and every delivery in chunks of histories of {5 if t else 4} messages")
