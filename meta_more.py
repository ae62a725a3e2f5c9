"""Second half of the property table (see meta.py)."""

G = "gerber/"


def more(P, TRUST):
    P("C04", "Graphics state follows every command exactly, in any order",
      "Each command changes exactly the part of the graphics state the format gives to it (current aperture, current "
      "point, interpolation, region mode, quadrant mode, polarity, mirroring, rotation, scaling, units) and nothing else, "
      "for every history of commands. Every object is created with the state in force at its operation, deprecated codes "
      "have the effect of their modern equivalents, and nothing is processed after the program stop.",
      ["histories", "programs"], "all command histories up to the bound over 60 state-changing and drawing commands",
      "Tests run short fixed scripts; a leak between two pieces of state shows only after one specific pair or triple of "
      "commands followed by an object.",
      [G + "ast/state_tracking_visitor.py", G + "ast/ast_visitor.py", G + "compiler/compiler.py", G + "ast/nodes"],
      [("state tracking visitor", G + "ast/state_tracking_visitor.py")],
      "explicit-state exploration of all command sequences on a state model; every trace replayed on the real visitor",
      TRUST + "Absolute notation and one format statement per file.",
      ["StateTrackingVisitor object callbacks", "visitor state"])
    P("C05", "Attributes in force are attached to exactly the right apertures and objects",
      "File, aperture and object attribute dictionaries change exactly as TF, TA, TO and TD say, in any order and any "
      "number of times. Every aperture carries the aperture attributes in force when it was defined, every flash, draw, "
      "arc and region carries the attributes in force when it was created, values are kept as written, and later "
      "changes never reach earlier objects. The MD5 attribute is reported as matching exactly when it matches the file.",
      ["histories", "programs"], "all sequences of attribute, definition and object commands up to the bound",
      "Tests set one attribute and look it up; aliasing of dictionaries between objects and leftovers after deletion need "
      "a specific history.",
      [G + "ast/state_tracking_visitor.py", G + "ast/nodes/attribute", G + "compiler/compiler.py", "vm/commands"],
      [("attribute dictionaries", G + "ast/state_tracking_visitor.py"), ("metadata of drawing commands", G + "compiler/compiler.py")],
      "explicit-state exploration of all attribute histories on a dictionary model replayed on the real visitor and compiler",
      TRUST, ["visitor attributes", "metadata of compiled commands"])
    P("C10", "Layer programs of the virtual machine give the picture they denote",
      "Executing a drawing program marks a point dark exactly when its meaning says so: shapes go to the layer that is "
      "open, in order, clear shapes erase, a copy of a finished layer adds or erases exactly that layer's picture moved "
      "by the copy's offset, and layers that size themselves hold everything drawn on them. Layers nest in any way, both machines "
      "agree, and malformed programs raise the documented errors.",
      ["programs", "histories"], "all layer programs up to the bound: nesting, origins, sized and self-sized layers, copies, polarity",
      "Tests run a few fixed programs; bookkeeping of nested, empty, negative and repeated layers fails only for particular programs.",
      ["vm/vm.py", "vm/shapely/vm.py", "vm/pillow/vm.py", "vm/commands", "vm/types"],
      [("layer stack", "vm/vm.py"), ("deferred layers", "vm/vm.py")],
      "exhaustive enumeration of layer programs, reference semantics compared with both machines at probe points",
      TRUST, ["VirtualMachine.run results"])
    P("C11", "Images have the requested scale, units, orientation, colours and encoding",
      "A rendered image has one pixel per requested fraction of a millimetre, its rows run from the largest y down and its "
      "columns from the smallest x up, whatever the position of the picture on the plane; dark areas get the foreground and the rest the background "
      "of the requested style, and a colour given in any notation has the channels it denotes. Files saved in every supported encoding, to a path or a stream, hold that picture, and the vector file has the "
      "size, outline and colour of the picture.",
      ["inputs", "configurations"], "pictures x offsets x resolutions x styles x encodings x destinations",
      "Tests compare with images produced by the same code or only check that a file exists.",
      ["vm/pillow/vm.py", "vm/shapely/vm.py", "vm/types/style.py", "vm/types/color.py", "gerber/api"],
      [("coordinate to pixel mapping", "vm/pillow/vm.py"), ("image encoders", "vm/pillow/vm.py")],
      "exhaustive enumeration of picture x configuration; decoded images compared with a reference picture pixel by pixel",
      TRUST, ["PillowResult", "ShapelyResult", "GerberFile.render_with_pillow", "GerberFile.render_with_shapely"])
    P("C12", "Geometry: transformations compose, boxes bound, shapes are what they say",
      "Composing transformation matrices has the effect of applying them one after another, for any sequence; transforming a shape moves "
      "exactly its points, keeping the direction of arcs; the bounding box of a shape contains it and combining boxes gives the smallest common box; each shape "
      "factory (circle, rectangle, obround, polygon, line, arc, ring, connected points) draws the named figure at the given place, size, rotation and polarity.",
      ["inputs"], "all products of generator transformations up to the bound; parameter grids of every shape factory",
      "Tests check single rotations and a few shapes against stored images.",
      ["vm/types/matrix.py", "vm/types/vector.py", "vm/types/box.py", "vm/commands/shape.py"],
      [("matrix algebra", "vm/types/matrix.py"), ("shape factories", "vm/commands/shape.py")],
      "exhaustive enumeration of transformation words and shape parameter grids against exact reference geometry",
      TRUST, ["Matrix3x3", "Vector", "Box", "Shape"])
    P("C13", "Code written by the Gerber builder denotes exactly what was asked for",
      "Whatever sequence of calls is made on the Gerber builder - defining pads of any kind, placing them with any "
      "transformation and polarity, drawing traces, arcs and regions, setting attributes - the code it returns is valid "
      "and denotes exactly these objects: at the given places and sizes, in the order asked for, with the attributes given to them, "
      "with no state leaking from one call to the next. Building again returns the same code, and wrong use raises the documented errors.",
      ["histories", "configurations"], "all sequences of builder calls up to the bound",
      "Tests build a handful of fixed scripts and compare with stored text; a state the builder thinks is already set but "
      "is not needs a specific order of calls.",
      ["builder/gerber.py", G + "ast/nodes", G + "formatter/formatter.py"],
      [("cached graphics state of the builder", "builder/gerber.py")],
      "exhaustive enumeration of call histories; the code is rendered by the real renderer and compared with the reference picture of the calls",
      TRUST + "Uses the real parser and renderer, decided by C01 to C10.", ["GerberX3Builder", "GerberCode.dumps"])
    P("C14", "Drawing programs: builder histories, serialisation, determinism",
      "A drawing program made by any sequence of calls of the program builder draws exactly the shapes asked for on the "
      "layers asked for. Its serialised form read back is the same program, commands are immutable, and compiling or "
      "running a program never changes it. The same input gives the same program and the same picture every time, in "
      "any process.",
      ["histories", "schedules"], "all builder call sequences up to the bound, all program x repetition x process hash seeds in the bound",
      "Tests build each shape once in one process.",
      ["builder/rvmc.py", "vm/rvmc.py", "vm/commands", "vm/vm.py", G + "compiler/compiler.py"],
      [("layer contexts of the builder", "builder/rvmc.py"), ("command models", "vm/commands")],
      "exhaustive enumeration of builder call histories and repeated executions; program, serialised form and picture compared with the model",
      TRUST, ["RvmcBuilder", "RVMC.model_dump_json", "VirtualMachine.run"])

    P("C15", "File objects: type, colours and pictures depend only on text and settings",
      "A file object has the type it was declared with, or else the one told by its file function attribute or its name; "
      "its colours are those of that type in the colour map in force. Whatever sequence of settings and observations is made on one "
      "object - rendering to image or vector, formatting, hashing, changing options or colours - every observation equals that of a new "
      "object with the same text and settings, however the text was given (string, file, path, buffer), and the reported coordinates "
      "of the image are those of the picture.",
      ["histories", "configurations"], "all sequences of settings and observations up to the bound; all names and file function attributes",
      "Tests render each file once with one setting.",
      ["gerber/api"], [("lazy parsing and cached settings", "gerber/api/_gerber_file.py"), ("type inference", "gerber/api/_enums.py")],
      "exhaustive enumeration of histories of settings and observations on one object, each compared with a new object and a reference",
      TRUST, ["GerberFile"])
    P("C16", "Composite views stack aligned layers in order; job files give right views",
      "A view of several files is as large as all of them together; each file appears at its own coordinates, in its colours, over the "
      "files before it and under those after it, with transparency composed accordingly, whatever number of files, sizes, offsets and "
      "resolution. Views of a project and of a job file contain exactly the files of their side and kind, from the bottom up.",
      ["inputs", "configurations"], "all lists of layers x offsets x colours x resolutions, all job file layouts in the bound",
      "Tests only check that some image comes out.",
      ["gerber/api"], [("compositing", "gerber/api/_composite_view.py"), ("job files", "gerber/api/_gerber_job_file.py")],
      "exhaustive enumeration of layer lists and job files; the image compared with a reference compositor pixel by pixel",
      TRUST + "One pixel of rounding of positions is allowed.", ["CompositeView", "Project", "JobFile"])
    P("C17", "The linter reports exactly the offending commands, where they are",
      "For any program the linter reports every use of a deprecated code and every repeated interpolation code, once, in order, with the "
      "rule that applies and the line and column of the command, and nothing else. Any selection of rules reports exactly its own "
      "violations, one linter can check any number of programs, and removing reported commands leaves the drawing unchanged.",
      ["programs", "histories"], "all command sequences up to the bound x rule selections",
      "Tests contain one offending snippet per rule.",
      ["gerber/linter", "gerber/ast/event_ast_visitor.py"], [("rule state across commands", "gerber/linter")],
      "explicit-state exploration of all command sequences on a rule automaton, every trace replayed on the real linter",
      TRUST, ["lint", "Linter", "RuleViolation"])
    P("C18", "Walks of the syntax tree visit every node exactly once and change nothing",
      "A visitor, and every listener registered with an event visitor, gets every node of a program exactly once, in the order of the text, "
      "with the specific and the general handlers of its kind; failures of handlers go to the exception handler, which decides "
      "whether the walk goes on, and the end of the file is always announced. No consumer of the tree - formatter, linter, state tracking, compiler - alters it, so "
      "consumers can follow each other in any order.",
      ["programs", "histories"], "all programs up to the bound x visitors x listeners x failure points; all orders of consumers",
      "Tests do not count visits and use each tree once.",
      ["gerber/ast", "gerber/formatter", "gerber/linter", "gerber/compiler"],
      [("visitor dispatch", "gerber/ast/ast_visitor.py"), ("event dispatch", "gerber/ast/event_ast_visitor.py")],
      "exhaustive enumeration of programs, failure points and consumer orders; recorded visit sequences compared with the model",
      TRUST, ["AstVisitor", "EventBasedAstVisitor", "Node.visit"])
    P("C19", "The language server answers from the current text, correctly, always",
      "After any history of opening, editing, hovering, completing and closing of any number of documents, in any grouping of messages, "
      "every answer about a document is that of a new server which opened its current text; broken text or unsupported documents do not stop the "
      "server. Hovering reports the command under the cursor with the position, modes, transformation, attributes and picture in force at that "
      "command, inside of blocks and repeats too; completion offers exactly the codes of the format, the apertures defined in the document, "
      "and aperture codes that are not used yet.",
      ["histories", "schedules"], "all message histories up to the bound and their groupings into deliveries; all documents and cursor positions in the bound",
      "Language server tests of the repository are expected to fail and cover no history.",
      ["gerber/language_server", "gerber/ast/node_finder.py"],
      [("documents and caches", "gerber/language_server/_server/documents/gerber.py"), ("hover", "gerber/language_server/_server/hover/gerber.py")],
      "explicit-state exploration of message histories and deliveries on the real server under a controlled event loop, answers compared with a document model",
      TRUST + "Messages go through the real protocol object over a stand-in transport.", ["LSP hover, completion answers"])
    P("C20", "The command line does what the library does and failures destroy nothing",
      "Every command of the command line, with any combination of its options in any order and letter case, writes exactly the file or "
      "report which the library produces for the same files and settings, to the requested place and nowhere else, with the documented defaults. "
      "A command that cannot read, parse or render its input, or gets wrong options, reports failure by its exit code and leaves every existing file as it was.",
      ["configurations", "inputs"], "all commands x values of options x pairs of options; all lists of files up to the bound; all kinds of failure",
      "Tests run each command with a few options and check the exit code only.",
      ["console"], [("commands", "console/gerber.py")],
      "exhaustive enumeration of command lines; files written compared with the library's, directory compared before and after",
      TRUST, ["pygerber command line: exit code, output, files"])
    P("C21", "Highlighting keeps the text; text positions are totally ordered",
      "The lexers split any text into adjacent tokens that spell the text exactly, and give the code letters, numbers, aperture names and "
      "constants of Gerber commands their classes whatever surrounds them; the documentation lexer differs from that of Python only in the classes of known names. "
      "Text positions are totally ordered by line and column, consistently with equality, and convert to editor positions and back.",
      ["inputs"], "all short texts over an alphabet, all sequences of commands up to the bound, all pairs of positions",
      "There are no tests of lexers and positions.",
      ["gerber/pygments.py", "common/position.py"], [("lexer rules", "gerber/pygments.py")],
      "exhaustive enumeration of texts; tokens compared with the text and the model classes",
      TRUST, ["GerberLexer", "PyGerberDocsLexer", "Position"])
