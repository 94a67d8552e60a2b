#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because JSON lines are hard to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": None}})

D = "stl-to-ps/"
SCRIPT = "ScriptToPS(src, in, out): return value, bytes written, stderr"

p("C01", "No script or model contents can crash or hang a run",
  "Whatever bytes the script and the model files contain, a run ends by itself and reports success or failure. It never aborts, dies on an uncaught exception, hangs, or performs an invalid memory access or other undefined operation.",
  ["inputs"], "all scripts and model files: every single edit (byte and token level) of documents covering every construct, every short byte string, and extreme numeric literals in every numeric position",
  "The tests feed a dozen fixed, mostly valid documents; one odd byte, a missing vertex line or an over-long number is never tried, and memory errors are invisible without a sanitizer.",
  [D+"lexer.l", D+"parser.y", D+"parser.cc", D+"stl.cc", D+"stl-to-ps.cc", D+"ast.cc", D+"center.cc"],
  [("number and string token actions", D+"lexer.l"), ("facet assembly", D+"stl.cc STLFile::Make"), ("CHECK()s in the renderer", D+"stl.cc, stl-to-ps.cc")],
  observe=[SCRIPT, "process exit (ASan/UBSan build)"])

p("C02", "Success means the whole document was written; failure writes none of it",
  "A run reports success only if every input was read completely and the complete document reached the output. If the script is invalid, a model or the script cannot be read, or any directive on any page is invalid, the run reports failure and not one byte of the document is written; if writing the document fails at any point, the run reports failure.",
  ["fault_sequences", "inputs"], "every I/O operation of a run failing (error, or short transfer) one at a time and in pairs, and every placement of invalid directives among valid pages and blocks",
  "The tests look at one bad directive at a time and never make a read or a write fail.",
  [D+"stl-to-ps-main.cc", D+"stl-to-ps.cc", D+"stl.cc"],
  [("load, generate, then render", D+"stl-to-ps.cc ScriptToPS"), ("ok &= accumulation over pages, draws and dims", D+"stl-to-ps.cc GeneratePages/AddDims"), ("exit status", D+"stl-to-ps-main.cc main")],
  observe=["process exit status and output file of the stl-to-ps binary", SCRIPT])

p("C03", "The script language: exactly its sentences are accepted, and parsed as written",
  "A script parses successfully exactly when it is a sequence of load statements and page blocks of the script language (pages holding properties, draw blocks with dim/angle/dia/rad calls, and text blocks; values being strings, numbers, ratios of whole numbers, 2-d locations, 3-d points and nested point functions). A successful parse yields exactly the loads, pages, blocks, calls and properties that were written, in the order written.",
  ["inputs", "programs"], "all token sequences: every state of the language's automaton (point functions nested up to the bound), every one- and two- (thorough: three-) token continuation from it, each completed to a whole script",
  "Two fixed files exercise syntax errors; the space of token sequences, in particular wrong tokens at each grammar position, is untouched.",
  [D+"parser.y", D+"lexer.l", D+"parser.cc", D+"ast.h"],
  [("grammar rules and actions", D+"parser.y"), ("token rules", D+"lexer.l")],
  observe=["stl2ps::Parse() result and the Document it fills"])

p("C04", "Literals, comments and white space mean what is written",
  "Every number literal (optional sign, digits, optional fraction, or a leading dot) has its decimal value, every string literal has its content with \\n as newline and any other escaped character as itself, and adjacent string literals concatenate. Spaces, tabs, line ends and // comments may be added between any two tokens without changing the result, and characters or spellings outside these forms, and numbers too large to represent, are rejected, not skipped.",
  ["inputs"], "all strings up to a length bound over an alphabet covering every lexer character class, as numeric literal, as string literal and as separator between every two adjacent tokens",
  "The tests contain one escape test and a handful of numbers; combinations of signs, dots, escapes, quotes, NULs and comments are not reached.",
  [D+"lexer.l", D+"ast.cc", D+"parser.y"],
  [("token patterns", D+"lexer.l"), ("unescaping", D+"ast.cc NewQuote"), ("string_lit rule", D+"parser.y")],
  observe=["text shown and its position in the emitted PostScript", SCRIPT])

p("C05", "Every rejection is reported, at the file and line of what is wrong",
  "Whenever a run rejects a script or one of its directives, stderr carries a diagnostic of the form file:line that names the script and the line where the offending directive, property or token stands, including the name of an unexpected, duplicate or missing property. Several independent faults in one script (in different loads, or in different pages, draws, dimension calls and text blocks) are each reported in the same run, and so are several missing, several unexpected or several duplicate properties, or several points of the wrong type, of one directive; correct directives are not reported.",
  ["inputs", "histories"], "all single faults from a catalogue of every rejection the language has, and all pairs (thorough: triples) of them, at different places of a multi-page script and with different line offsets",
  "The .case files fix one arrangement per directive (and are not run by the reliable tests); line numbers after other layouts, or faults in combination across pages, are not covered.",
  [D+"stl-to-ps.cc", D+"ast.h", D+"ast.cc", D+"lexer.l", D+"parser.y", D+"parser_support.cc"],
  [("location tracking per token", D+"lexer.l YY_USER_ACTION"), ("node locations", D+"parser.y @n, ast.h Loc/NodeI"), ("SYM_ERROR", D+"ast.h"), ("continue after a fault", D+"stl-to-ps.cc GeneratePages/AddDims/LoadFiles")],
  observe=["stderr of ScriptToPS"])

p("C06", "Each directive accepts exactly its own properties, in any order",
  "A page, draw, text, dim, angle, dia or rad directive is accepted exactly when every required property is present, no property is repeated, unknown or of the wrong value type, and mutually exclusive ones are not combined; otherwise the run fails. The order in which properties are written never changes the output.",
  ["inputs"], "for every directive: all combinations of up to two (thorough: three) departures from a valid property list - absent, wrong type (each of the five value types), duplicated, alien or unknown name - and all orders of the valid list",
  "The unit tests cover a few single departures in one fixed order.",
  [D+"stl-to-ps.cc", D+"ast.h"],
  [("property map and Take()", D+"stl-to-ps.cc Flatten/Take"), ("typed access", D+"ast.h Meta::As/get"), ("required/exclusive checks", D+"stl-to-ps.cc operator()s")],
  observe=[SCRIPT])

p("C07", "Pages and blocks appear in script order and do not influence each other",
  "The output has one page per page block, in script order, numbered k of n, each holding exactly its own drawings, texts and title. What a block puts on its page depends only on that block and the model it names: it is the same whatever other blocks, pages or models precede or follow it, and however often a model is drawn; a block that is refused alone is refused wherever it stands. Likewise each dimension call of a draw adds to its drawing exactly what it adds as the only call.",
  ["histories", "inputs"], "all sequences of page layouts up to the depth bound over an alphabet of blocks chosen to differ in scale, offset, view, model, dimensions and text, and the pen a page is drawn with",
  "The tests render at most two pages with one block each, so state carried from one block or page to the next is never exposed.",
  [D+"stl-to-ps.cc", D+"stl-to-ps-impl.h", D+"ps.cc"],
  [("per-draw projection context", D+"stl-to-ps.cc operator()(const Draw&)"), ("working set re-initialised per draw", D+"stl-to-ps.cc AddDims"), ("page loop", D+"stl-to-ps.cc GeneratePages/RenderPages")],
  state=[("proj, points_, rotation_", "projection and point set of the draw being rendered", D+"stl-to-ps-impl.h DrawToPage")],
  observe=["pages of the emitted PostScript"])

p("C08", "Scale, offset and page furniture put things where the script says",
  "A draw with scale a:b (default 1:1) renders one model unit as 72*a/b points (a scale with a zero term is refused), and centres the bounding box of the visible faces at the page centre (396,306) moved by its offset in inches (or at the lower-left page corner if no offset is given); dimension geometry uses the same mapping. Text blocks start at the page centre moved by their offset, one line per newline 12 points apart with empty lines kept as gaps, and every page has its border, its title right-aligned in the lower right corner inside its box.",
  ["inputs"], "all combinations of scales, offsets, views, model sizes and positions, text line patterns and title lengths from small value sets; places up to the largest that PostScript numbers can hold",
  "Tests never inspect coordinates of a rendered page ('TODO check').",
  [D+"stl-to-ps.cc", D+"ps.cc", D+"stl.cc"],
  [("proj.scale/proj.d", D+"stl-to-ps.cc operator()(const Draw&), AddLines/AddArcs/AddText"), ("Limits", D+"stl.cc"), ("AddHeader, PageHeader", D+"stl-to-ps.cc, ps.cc"), ("text lines", D+"stl-to-ps.cc operator()(const Text&)")],
  observe=["coordinates in the emitted PostScript"])

p("C09", "Every view is a rigid rotation, the same for model and dimension points",
  "The six named views show the model from that side (X+ from the +X direction, and so on, with +Z up for the side views), and view [a,b] is the model turned by a degrees counter-clockwise about Z and then tilted by b degrees about the horizontal axis, so that [0,0] equals Z+ and [0,90] equals Y-. Every view preserves lengths, angles and handedness, and maps the points given in dimension calls with exactly the rotation used for the model.",
  ["inputs"], "all named views and all angle pairs from a grid including multiples of 90 and negative and >360 values, with probe points on all axes",
  "The tests check the identity, six fixed matrices and nothing end to end.",
  [D+"geo.cc", D+"geo.h", D+"ast.cc", D+"stl.cc", D+"stl-to-ps.cc", D+"ast.h"],
  [("Rotate", D+"geo.cc"), ("named matrices", D+"geo.h matrix"), ("GetMatrixByName/ByAng", D+"ast.cc"), ("Point::Rotate", D+"ast.h"), ("STLFile::Rotate", D+"stl.cc")],
  observe=["label positions and drawn lines in the emitted PostScript"])

p("C10", "Hidden lines are removed and visible lines are drawn",
  "For a closed solid, a draw shows exactly the visible parts of its feature edges as seen from the view direction: no point of a drawn line lies behind a face of the solid, and no visible point of a feature edge is missing.",
  ["inputs"], "all manifold solids made of the cells of a small voxel grid (and pairs of grid tetrahedra) times a set of named and oblique views",
  "No test checks any line of a drawing; occlusion depends on the relative position of every edge and face.",
  [D+"stl.cc", D+"stl.h"],
  [("EdgeCrosses", D+"stl.cc"), ("hidden spans per face", D+"stl.cc ToLines"), ("span subtraction", D+"stl.cc GenerateLines"), ("edge indices", D+"stl.cc Index")],
  state=[("edges/face_edge/unseen", "deduplicated edges, visible ones first, and the edges of each face", D+"stl.h STLFile")],
  observe=["line segments in the emitted PostScript"])

p("C11", "Feature edges: outlines and creases are drawn, smooth joins are not",
  "Of the faces turned to the viewer, an edge is drawn if it belongs to only one of them (an outline) or if the normals of the two faces sharing it differ by clearly more than 11.5 degrees (cosine 0.98), and is not drawn if they differ by clearly less; faces turned away or edge-on contribute nothing. An edge shared by two faces is drawn once.",
  ["inputs"], "all hinge angles from a grid around and away from the limit, all facings of the two faces, all vertex orders, and strips of several hinges with mixed smooth and sharp joins",
  "No test checks which edges are drawn.",
  [D+"stl.cc"],
  [("Index", D+"stl.cc min_ang, edge_face"), ("CullBackFace", D+"stl.cc"), ("Facet orientation", D+"stl.cc Facet::Facet")],
  observe=["line segments in the emitted PostScript"])

p("C12", "STL reading: every facet counts, anything that is not STL is refused",
  "A well-formed ASCII STL model (solid, facet, loop and vertex lines, freely indented, with numbers in decimal or exponent notation) is read with every facet whose normal is not zero, at its exact vertices and facing the side its normal names. A model with a line that is not of these forms, with a malformed number, with a vertex or facet end outside of a facet, or with a facet that does not have exactly three vertices is refused, never partially drawn.",
  ["inputs", "histories"], "all line sequences reachable by up to two (thorough: three) edits - insert, delete, duplicate, replace by any line of the alphabet - of well-formed files, all number spellings up to a length bound",
  "The tests read four fixed files and check that a result exists.",
  [D+"stl.cc"],
  [("line state machine", D+"stl.cc STLFile::Make"), ("Facet::Facet", D+"stl.cc")],
  state=[("norm, points", "normal and vertices of the facet being read", D+"stl.cc STLFile::Make")],
  observe=["line segments in the emitted PostScript", SCRIPT])

p("C13", "A drawing depends on the geometry only, not on how the file lists it",
  "Two model files that describe the same facets give the same picture, however the facets are ordered, with whichever vertex each facet starts and in whichever direction its vertices run, and whatever the length of its normal. Moving a model in space does not change its picture, and a model n times as large drawn at 1:n gives the same picture.",
  ["inputs"], "all facet permutations, vertex rotations and windings of a tetrahedron, all adjacent swaps of facets of non-convex solids, and all small translations and scalings, in several views",
  "Every tested model file is read in exactly one arrangement and no drawing is compared.",
  [D+"stl.cc", D+"stl-to-ps.cc", D+"geo.h"],
  [("Index (deduplication by value)", D+"stl.cc"), ("Facet orientation", D+"stl.cc"), ("span sorting", D+"stl.cc ToLines/GenerateLines"), ("centring", D+"stl-to-ps.cc operator()(const Draw&)")],
  observe=["line segments in the emitted PostScript"])

p("C14", "A dim call labels the measured distance and draws it to scale",
  "A dim label shows the distance between the two given points measured along the given direction, in model units, centred at the given position. The dimension line runs through that position along the direction between the feet of the two points, with arrow heads of fixed size at both feet and an extension line from each point past its foot. Where the label fits between the feet the line joins them, left open around the label; where it does not, short lines and arrow heads point at the feet from outside. No part of the dimension line crosses the label.",
  ["inputs"], "all combinations of from, to, at and dir from small point sets (including reversed, coincident and skew ones), scales, views and label lengths",
  "Tests check that valid calls are accepted; the label and the geometry are never looked at.",
  [D+"stl-to-ps.cc"],
  [("projection on dir, label, gap, arrows, extension lines", D+"stl-to-ps.cc operator()(const Dim&)")],
  observe=["label text, its anchor and the lines in the emitted PostScript"])

p("C15", "An angle call labels the enclosed angle and draws the arc between its arms",
  "An angle label shows, in degrees, the angle between the two arms given by directions or by points seen from the apex, whichever arm is named first. The arc is centred on the apex, has the distance from the apex to the label position as radius and runs counter-clockwise across the enclosed (less than 180 degree) angle from one arm to the other, with an arrow head at each end and an extension line along each arm; parallel or missing arms are refused.",
  ["inputs"], "all pairs of arm directions from a grid of directions (given as direction or as point), apexes, label positions, scales and planar views, in both orders",
  "Tests check acceptance only; no label, arc or line is inspected.",
  [D+"stl-to-ps.cc", D+"geo.h"],
  [("arm normalisation, ordering, acos, arc", D+"stl-to-ps.cc operator()(const Angle&)"), ("Arc from directions", D+"geo.h Arc")],
  observe=["label text, arcs and lines in the emitted PostScript"])

p("C16", "dia, rad and center() recover the circle nearest to the given point",
  "When the three vertices nearest to the given point (in the view plane) lie on one circle of the model, dia shows twice its radius, rad its radius and center() yields its centre, within rounding, using all vertices close to that circle. Leader lines and arrow heads lie on that circle and point along the given direction; a point set that does not determine a circle is refused rather than drawn.",
  ["inputs"], "all query points on a grid around models with one or two regular polygonal outlines of several sizes, orders of vertices, positions and views; all small point sets for the circle fit incl. collinear and coincident ones; parts of circles down to a few hundredths of a degree",
  "The unit tests fit four point sets and ask for one centre; which vertices are selected depends on their order, which is never varied.",
  [D+"center.cc", D+"ast.cc", D+"stl-to-ps.cc"],
  [("least-squares fit", D+"center.cc FindCircle"), ("nearest points, annulus", D+"ast.cc Closest/Between"), ("PointFunc::Center", D+"ast.cc"), ("GetCenter, RenderDia, RenderRad", D+"stl-to-ps.cc")],
  observe=["labels and lines in the emitted PostScript", "FindCircle()"])

p("C17", "near() yields the nearest visible vertex",
  "near(p) yields, in the view plane, the position of a vertex of the faces turned to the viewer that no other such vertex is closer to p; a point that is exactly such a vertex yields that vertex itself. If the model shows no vertex, the call is refused.",
  ["inputs"], "all query points on a grid finer than and reaching beyond the vertices of several models, in every view, with nested calls",
  "One unit test with a one-point set.",
  [D+"ast.cc", D+"stl.cc", D+"geo.h"],
  [("PointFunc::Near", D+"ast.cc"), ("STLFile::Points", D+"stl.cc"), ("point order", D+"geo.h Order")],
  observe=["dimension labels in the emitted PostScript"])

p("C18", "The output is well-formed PostScript that shows exactly the given texts",
  "Every successful run produces a document that a PostScript interpreter executes without error, with only finite numbers that a PostScript real holds (what lies further off is refused), one setpagedevice/showpage per page and nothing left on the stack. Every text, title, label and name appears exactly as given: no character sequence in a script string, label format, file name or option can alter, hide or add any other output, and centred labels are centred on their anchor.",
  ["inputs"], "all strings up to the length bound over PostScript's special characters in every place a string reaches the output, and all degenerate geometry arguments",
  "One test escapes one pair of parentheses; degenerate values and other places are not reached.",
  [D+"ps.cc", D+"ps.h", D+"stl-to-ps.cc"],
  [("TextToPs escaping, raw text", D+"ps.cc"), ("DocumentHeader/PageHeader/PageFooter", D+"ps.cc"), ("kPsDia raw label", D+"stl-to-ps.cc RenderDia"), ("CenterText procedure", D+"ps.cc")],
  observe=["a PostScript interpreter run over the emitted document"])

p("C19", "Model names resolve to the right file, once each",
  "A model is read from its path as given if that is absolute, and otherwise from the first of the current directory and the --load_path directories, in that order, where it can be opened - and from nowhere else. A name loaded twice, a file found in none of these places, and a file that cannot be read or parsed each make the run fail, and each draw shows the model its name was loaded from.",
  ["configurations", "inputs"], "all assignments of present / absent / unparsable files and directories to the current directory and up to two load-path directories, all load-path spellings, for one or two models",
  "The one test loads device files by absolute path; the load path is never set.",
  [D+"stl-to-ps.cc"],
  [("LoadFiles", D+"stl-to-ps.cc")],
  observe=["process exit status and drawn lines of the stl-to-ps binary"])

p("C20", "Options select exactly what they say and runs are reproducible",
  "--script and --output are required; --name and the script path appear in the document header; --timestamp and --number_pages independently add or remove exactly the date (local time, the same throughout a document) and the 'page k of n' in the lower left corner of each page and nothing else changes. Apart from the date, the same script and models always give the same bytes, whatever the output file held before.",
  ["configurations", "histories"], "all combinations of option values over several scripts, repeated runs, and pre-existing output contents",
  "The tests use the defaults and never run the program twice.",
  [D+"ps.cc", D+"stl-to-ps-main.cc"],
  [("flags", D+"ps.cc, stl-to-ps-main.cc"), ("PageHeader, DocumentHeader", D+"ps.cc")],
  observe=["process exit status and output file of the stl-to-ps binary"])

p("C21", "The build rules run the tools on the right files",
  "stl2pdf runs the drawing tool once on the given script with every dependency and the script as inputs, the rule's name, a load path consisting of each distinct non-empty root of those inputs once in order, and then converts exactly the produced PostScript into exactly the declared PDF. scad_binary runs OpenSCAD once on its source, with source and dependencies as inputs, producing exactly the declared output.",
  ["configurations"], "all assignments of up to three dependencies and the script to source, generated and external roots; many dependencies and many roots",
  "The analysis tests look at one target each and at output names only, and cannot be run here.",
  [D+"rule.bzl"], [("stl2pdf/scad_binary implementations", D+"rule.bzl")],
  observe=["actions declared by the rule implementations"])

p("C22", "Syntax-error reports state file, span and message exactly",
  "Every syntax-error report is one line on stderr that starts with 'error', and contains the file name (or ?? if there is none), the first line and column, the last line if it differs, the last column, and the message, each exactly as given; nothing in the file name or message is interpreted or lost. The position reported for a script is that of the token that is wrong, columns counted from 1 on every line.",
  ["inputs"], "all combinations of file names and messages (without NULs or line ends) over an alphabet with format characters up to the length bound, and of line and column values; every wrong token at every place of two scripts in several layouts",
  "The one existing test calls it twice and asserts nothing.",
  [D+"parser_support.cc", D+"parser_support.h"], [("error", D+"parser_support.cc")],
  observe=["stderr"])

p("C23", "fmt: a label format is honoured exactly or refused",
  "The fmt property of dim, angle, dia and rad accepts exactly the format strings with one floating-point conversion of kind %f (with any flags, width and precision, other text and %% allowed) and the label is that format applied to the measured value, with the label's own decoration (degrees, diameter sign, R). Any other format string makes the run fail; without fmt, lengths have three decimals and angles one.",
  ["inputs"], "all format strings up to the length bound over an alphabet of conversion characters, flags, digits and text, for each of the four calls",
  "Tests try %f, %.3f, %.0f and %n.",
  [D+"stl-to-ps.cc"], [("ParsedFormat use", D+"stl-to-ps.cc operator()(Angle/Dim), RenderDia, RenderRad")],
  observe=["label text in the emitted PostScript", SCRIPT])

p("C24", "Point and line orders are strict total orders consistent with equality",
  "For all finite points (and line segments) exactly one of a before b, b before a, a equal b holds, the order is transitive and depends on the coordinates in the order x, y, z, so that sets of points and edges hold each distinct point exactly once and lose none.",
  ["inputs"], "all pairs and triples of points and of segments with coordinates from a small value set including negative zero",
  "The tests compare two pairs of points.",
  [D+"geo.h"], [("Order, PointOrder, operator<, operator==", D+"geo.h")],
  observe=["geo::Order, geo::point_set, geo::Line comparison"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
