"""Generates properties.jsonl and MANIFEST.json from one table (run after editing it)."""

from __future__ import annotations

import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent
PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, technique, note, observe=(), state=()):
    assert len(title) <= 80, title
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["src/pygerber/" + f for f in files],
            "state": [{"name": a, "meaning": b, "where": "src/pygerber/" + c} for a, b, c in state],
            "mechanism": [{"name": a, "where": "src/pygerber/" + b} for a, b in mechanism],
            "observe_at": list(observe), "hook_needed": None,
        },
        "_technique": technique, "_note": note,
    })


G = "gerber/"
TRUST = ("Trusts the independent reference model in /verif/mc, Python and the geometry kernels (numpy, shapely, Pillow "
         "primitives). Exhaustive within the stated bounds only; nothing beyond them is claimed. ")

P("C01", "Parsing yields exactly the commands written, in order, at their positions",
  "Parsing a Gerber text yields a syntax tree with exactly one node per command of the text, in source order, of the "
  "kind the command denotes, carrying every parameter value as written and the position where the command starts. "
  "This holds for every optional-parameter combination, every legal separator between commands and every adjacency of "
  "commands, including bodies of block apertures, step-and-repeats and macros. A text with a command that is malformed "
  "is rejected by the strict parser, and the resilient parser keeps every well-formed command around it and never "
  "loses text silently.",
  ["inputs", "programs"], "all command forms x parameter subsets x separators, all command adjacencies up to the bound",
  "Tests parse a few hand-picked files and compare with snapshots; they cannot reach every combination of optional "
  "parameters, separators and neighbours, and a grammar alternative that shadows another shows only for a specific one.",
  [G + "parser/pyparsing/grammar.py", G + "parser/pyparsing/parser.py", G + "parser/__init__.py", G + "ast/nodes"],
  [("ordered alternatives of the grammar", G + "parser/pyparsing/grammar.py"),
   ("source info attached by parse actions", G + "ast/nodes/base.py")],
  "explicit-state enumeration of all command sequences over a command-form model; each trace replayed on the real parser",
  TRUST + "The model is a catalogue of command forms with the tree each denotes, written from the Gerber specification.",
  ["pygerber.gerber.parser.parse", "pygerber.gerber.parser.parse (resilient=True)"])

P("C02", "Formatting never changes the program, whatever the options",
  "For every program the parser accepts and every combination of formatting options, the formatted text parses again "
  "and denotes the same sequence of commands with the same parameter values, where only numbers may differ and only by "
  "rounding to the requested count of decimal places and only codes requested to be removed are removed. Formatting is stable: formatting a formatted text with the same "
  "options gives the same text. Layout options (indentation, line ends, empty lines, splitting of macros) take effect "
  "as documented and the option which strips whitespace leaves none between commands.",
  ["inputs", "programs", "configurations"], "all command forms and macro expressions x all option values, all pairs of option values",
  "Tests compare a handful of outputs with snapshots, one option at a time; interactions of options with each command "
  "form and numbers outside the samples are never formatted and re-read.",
  [G + "formatter/formatter.py", G + "formatter/options.py", G + "formatter/presets.py", G + "formatter/__init__.py"],
  [("formatting visitor", G + "formatter/formatter.py"), ("number formatting", G + "formatter/formatter.py")],
  "exhaustive enumeration of programs x option configurations; format/parse transition checked against the source tree",
  TRUST + "Uses the real parser (decided by C01) to read the formatted text back.",
  ["pygerber.gerber.formatter.format", "pygerber.gerber.formatter.formats"])

P("C03", "Coordinate numbers are decoded exactly; encoding inverts decoding",
  "A coordinate written in a file denotes exactly the number given by the declared coordinate format: count of integer "
  "and decimal digits per axis, and which zeros are omitted, including sign and missing digits. Encoding a representable "
  "number in a coordinate format produces text that the format decodes to the same number, and the units of a file "
  "(inches or millimetres) scale the resulting picture and nothing else.",
  ["inputs", "configurations"], "all coordinate formats x zero omission x digit strings and representable values within bounds",
  "Tests use one or two formats; a slip for short strings, negative numbers, unequal axes or one zero mode needs the "
  "specific combination.",
  [G + "ast/nodes/types.py", G + "ast/nodes/other/coordinate.py", G + "ast/nodes/properties/FS.py", G + "ast/nodes/properties/MO.py", G + "compiler/compiler.py", "builder/gerber.py"],
  [("pack/unpack of coordinates", G + "ast/nodes/types.py")],
  "exhaustive enumeration of format x value space against exact rational arithmetic",
  TRUST, ["compiled drawing coordinates", "builder output"])

P("C06", "The picture of any command sequence is the one the format assigns to it",
  "Rendering a program of flashes, straight and circular draws, regions and polarity changes marks a point of the plane "
  "dark exactly when the Gerber format says it is dark: objects are applied in order, clear objects erase what is below "
  "them, and every object uses the aperture, interpolation, polarity and current point in force when it is created. "
  "This holds for the vector and the raster renderer alike and for every order of commands.",
  ["programs", "histories"], "all command sequences up to the bound over the drawing commands",
  "Tests render example boards and compare with stored images produced by the same code; the picture of an arbitrary "
  "order of commands has no oracle there.",
  [G + "compiler/compiler.py", G + "ast/state_tracking_visitor.py", "vm/vm.py", "vm/shapely/vm.py", "vm/pillow/vm.py", "vm/commands/shape.py"],
  [("compiler from commands to drawing program", G + "compiler/compiler.py"), ("virtual machines", "vm/vm.py")],
  "exhaustive command-sequence exploration; reference interpreter of the format replayed against both renderers at probe points",
  TRUST + "Points within a tolerance band around outlines are undecided and skipped (counted in the evidence).",
  ["pygerber.vm.render"])

P("C07", "Aperture transformations act on every kind of aperture as specified",
  "Mirroring, rotation and scaling change the image of every flashed aperture (circle, rectangle, obround, polygon, "
  "macro, block) about its origin in the order mirror, scale, rotate, never its position. They are modal: each stays in "
  "force until it is set again, whatever the order in which they were set and whichever apertures were used before, and "
  "never affects objects created earlier or later under other settings.",
  ["programs", "configurations", "histories"], "all aperture kinds x all transformations x all orders of setting them, pairs of transformations",
  "Tests cover single transformations on symmetric apertures, where a wrong order or a stale cached image is invisible.",
  [G + "compiler/compiler.py", G + "ast/state_tracking_visitor.py", "vm/commands/shape.py", "vm/types/matrix.py"],
  [("transformed aperture buffers", G + "compiler/compiler.py")],
  "exhaustive exploration of aperture x transformation space, reference picture compared on probe points",
  TRUST, ["pygerber.vm.render"])

P("C08", "Block apertures and step-and-repeat replicate exactly their content",
  "Flashing a block aperture adds exactly the objects of the block, moved to the flash point and transformed and "
  "polarity-toggled as a whole; step-and-repeat adds exactly the grid of copies of its content. Content of any kind and "
  "order, nesting of blocks and several blocks in a row give the picture the format assigns, and commands after a block "
  "are drawn as the format says.",
  ["programs", "histories"], "all block contents up to the bound x flash transformations x repeat grids x nesting",
  "Tests have a few fixed examples; leaks of state between a block and what surrounds it depend on the exact content.",
  [G + "compiler/compiler.py", G + "ast/state_tracking_visitor.py", G + "ast/nodes/aperture/AB.py", G + "ast/nodes/aperture/SR.py", "vm/vm.py"],
  [("block buffers and paste", G + "compiler/compiler.py")],
  "exhaustive exploration of block contents and grids, reference interpreter compared on probe points",
  TRUST, ["pygerber.vm.render"])

P("C09", "Macro apertures mean what the format says",
  "A macro aperture is drawn as the format defines: expressions follow the usual precedence and associativity, "
  "variables take the values passed by the aperture definition and are reassigned in order, each primitive has the "
  "shape, exposure and rotation about the macro origin the format gives it, and primitives are combined in order. "
  "Instances of one macro with different parameters are independent.",
  ["programs", "inputs"], "all expressions, assignment sequences, primitive parameter grids and primitive pairs within bounds",
  "Tests sample few expressions and one parameter set per primitive.",
  [G + "ast/expression_eval_visitor.py", G + "compiler/compiler.py", G + "parser/pyparsing/grammar.py", "vm/commands/shape.py"],
  [("macro evaluation", G + "compiler/compiler.py"), ("shape factories", "vm/commands/shape.py")],
  "exhaustive expression/primitive enumeration, reference evaluator and picture compared with implementation",
  TRUST, ["pygerber.vm.render"])


def main():
    try:
        from meta_more import more
        more(P, TRUST)
    except ImportError:
        pass
    PROPS.sort(key=lambda p: p["id"])
    checks, na, lines = [], [], []
    for p in PROPS:
        pub = {k: v for k, v in p.items() if not k.startswith("_")}
        lines.append(json.dumps(pub))
        mod = p["id"].lower()
        if (ROOT / "checks" / f"{mod}.py").exists():
            checks.append({
                "property": p["id"],
                "quick_cmd": f"/opt/venv/bin/python run.py {mod}",
                "thorough_cmd": f"/opt/venv/bin/python run.py {mod} --thorough",
                "technique": "model checking: " + p["_technique"],
                "level": "model_checking", "level_note": p["_note"].strip(),
            })
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    (ROOT / "properties.jsonl").write_text("\n".join(lines) + "\n")
    (ROOT / "MANIFEST.json").write_text(json.dumps({
        "version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
        "notes": "No hooks in /repo are needed; checks use the public API of the working tree."}, indent=1) + "\n")
    print(len(checks), "checks", len(na), "not claimed")


if __name__ == "__main__":
    main()
