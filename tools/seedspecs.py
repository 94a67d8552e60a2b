"""Planted bugs, each written from a property's text and the code; see seed.py."""
S = "stl-to-ps/"
SPECS = []


def bug(ident, prop, edits, needs, breaks, demo):
    SPECS.append({"id": ident, "property": prop, "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})


bug("c01-stack-slots", "C01",
    [(S + "stl.cc", "PD hidden_points[5];", "PD hidden_points[3];  // in, out and a shared corner")],
    "an edge with an end behind a corner of a face, so that more than three of the five spots are taken",
    "writes past an array on the stack: the run may crash for some models",
    '''
exe = build(["-fsanitize=address", "-fno-omit-frame-pointer"])
import os
os.environ["ASAN_OPTIONS"] = "detect_leaks=0"
# a plate whose corner covers the end of a rod, and a rod along its diagonal
f = [((0, 0, 1), (4, 0, 1), (0, 4, 1))] + box((0, 0, 0), (2, 2, .5)) + box((-1, 0, -2), (4, 4, -1))
for view in ("Z+", "X+", "Y-"):
    r = run(exe, 'load m="m.stl";\\npage { draw m { @[0,0]; scale=1:1; view="%s"; } }' % view, {"m.stl": stl(f)})
    ok("AddressSanitizer" not in r.err and r.rc == 0, "crash: " + r.err[-300:])
''')

bug("c02-last-dim-wins", "C02",
    [(S + "stl-to-ps.cc", "    ok &= dim->VisitNode(this);\n", "    ok = dim->VisitNode(this);\n")],
    "an invalid dimension followed by a valid one in the same draw",
    "the run reports success and writes the document without the invalid dimension",
    '''
exe = build()
bad = "dim(at=[0,3,0], dir=[1,0,0], from=[0,0,0]);"
good = "dim(at=[0,3,0], dir=[1,0,0], from=[0,0,0], to=[1,0,0]);"
for a in ([bad], [bad, good], [good, bad], [good, bad, good]):
    r = run(exe, 'load m="m.stl";\\npage { draw m { @[0,0]; %s } }' % "".join(a), {"m.stl": stl(box((0, 0, 0), (1, 1, 1)))})
    ok(r.rc != 0 and not r.out, "an invalid dim was accepted: %s" % a)
''')

bug("c02-page-by-page", "C02",
    [(S + "stl-to-ps.cc", "      if (!draw->VisitNode(&visitor)) ok = false;\n", "      ok = draw->VisitNode(&visitor) && (ok || &draw != &doc_page.draws.front());\n")],
    "an invalid block at the start or middle of an earlier page and a later page that begins with a valid block",
    "the failure of an earlier page is forgotten when the next page starts",
    '''
exe = build()
m = {"m.stl": stl(box((0, 0, 0), (1, 1, 1)))}
good, bad = "draw m { @[0,0]; }", "draw nope { @[0,0]; }"
for pages in ([[bad]], [[good, bad]], [[bad], [good]], [[good, bad], []], [[bad, good], [good, good], [good]], [[good], [bad]]):
    r = run(exe, 'load m="m.stl";\\n' + "".join("page { %s }\\n" % "".join(p) for p in pages), m)
    ok(r.rc != 0 and not r.out, "an invalid block was accepted: %s" % pages)
''')

bug("c03-trailing-comma", "C03",
    [(S + "parser.y", "          | arg                { ($$ = new stl2ps::MetaList)->emplace_back($1); }",
      "          | dim_parts ','      { $$ = $1; }\n          | arg                { ($$ = new stl2ps::MetaList)->emplace_back($1); }")],
    "a comma before the closing bracket of a call's arguments",
    "texts that are not sentences of the language are accepted",
    '''
exe = build()
m = {"m.stl": stl(box((0, 0, 0), (1, 1, 1)))}
r = run(exe, 'load m="m.stl";\\npage { draw m { @[0,0]; dim(at=[0,3,0], dir=[1,0,0], from=[0,0,0], to=[1,0,0]); } }', m)
ok(r.rc == 0, "a valid script is refused: " + r.err)
for x in (",", ",,"):
    r = run(exe, 'load m="m.stl";\\npage { draw m { @[0,0]; dim(at=[0,3,0], dir=[1,0,0], from=[0,0,0], to=[1,0,0]%s); } }' % x, m)
    ok(r.rc != 0, "accepted with '%s' at the end" % x)
''')

bug("c03-at-equals", "C03",
    [(S + "parser.y", "    | '@' location\n", "    | '@' '=' location\n         { $$ = Meta::New<Eigen::RowVector2d>(\"@\", $3, @1).release(); }\n    | '@' location\n")],
    "a position written like other properties, with a '='",
    "texts that are not sentences of the language are accepted",
    '''
exe = build()
for at, good in (("@[1,2]", True), ("@=[1,2]", False), ("@ = [1,2]", False)):
    r = run(exe, 'page { text ["t"] { %s; } }' % at)
    ok((r.rc == 0) == good, "'%s': exit %s" % (at, r.rc))
''')

bug("c04-signed-fraction", "C04",
    [(S + "lexer.l", "[-+]?([0-9]+(\\.[0-9]*)?|\\.[0-9]+) {", "[-+]?[0-9]+(\\.[0-9]*)?|\\.[0-9]+ {")],
    "a number with a sign and no digit before the point",
    "-.5 is refused",
    '''
exe = build()
for n, x in ((".5", 36), ("-.5", -36), ("+.5", 36), ("-0.5", -36), ("5.", 360), ("-1.", -72)):
    r = run(exe, 'page { text ["t"] { @[%s,0]; } }' % n)
    ok(r.rc == 0, "%s is refused: %s" % (n, r.err))
    ok(any(abs(t[0] - 396 - x) < .01 for t in r.pages()[0].texts), "%s is drawn at %s" % (n, r.pages()[0].texts))
''')

bug("c04-comment-slash", "C04",
    [(S + "lexer.l", "\\/\\/.*      ;", "\\/\\/[^/\\n]*      ;")],
    "a comment with a single slash in it",
    "a comment ends at the next slash",
    '''
exe = build()
for c in ("// plain", "//", "// a // b", "// 1/2 inch", "////", "// http://x/y"):
    r = run(exe, c + chr(10) + 'page { text ["t"] { @[1,2]; ' + c + chr(10) + ' } }' + c)
    ok(r.rc == 0, "'%s' is not taken for a comment" % c)
''')

bug("c05-first-dim", "C05",
    [(S + "stl-to-ps.cc", "    ok &= dim->VisitNode(this);\n", "    ok = ok && dim->VisitNode(this);\n")],
    "two invalid dimension calls in one draw",
    "only the first of them is reported",
    '''
exe = build()
r = run(exe, chr(10).join(['load m="m.stl";', 'page {', ' draw m {', '  @[0,0];', '  dim();', '  angle();', '  rad();', ' }', '}']), {"m.stl": stl(box((0, 0, 0), (1, 1, 1)))})
ok(r.rc != 0, "accepted")
for n in (5, 6, 7):
    ok("script:%d:" % n in r.err, "line %d is not reported: %s" % (n, r.err))
''')

bug("c05-quiet-duplicate", "C05",
    [(S + "stl-to-ps.cc", "    if (!seen->emplace(i->name, i.get()).second) {\n",
      "    if (!seen->emplace(i->name, i.get()).second) {\n      if (!ok) continue;  // one is enough\n")],
    "two duplicated properties in one list",
    "only the first of several rejected properties is reported",
    '''
exe = build()
r = run(exe, 'page {\\n text ["t"] {\\n @[0,0];\\n @[1,0];\\n @[2,0];\\n }\\n}\\n')
ok(r.rc != 0, "accepted")
ok("script:4:" in r.err and "script:5:" in r.err, "both duplicates are to be reported: " + r.err)
''')

bug("c06-both-arms", "C06",
    [(S + "stl-to-ps.cc", "  if (p_to_dir && p_to_point) {\n    SYM_ERROR(*p_to_dir) << \"Both 'to_{dir,point}' provided\";\n    ok = false;\n  }",
      "  if (p_to_dir && p_to_point) {\n    SYM_ERROR(*p_to_dir) << \"Both 'to_{dir,point}' provided\";\n  }")],
    "an angle with both to_dir and to_point",
    "an angle call with contradictory arms is accepted",
    '''
exe = build()
m = {"m.stl": stl(box((0, 0, 0), (1, 1, 1)))}
for p in ("from_dir=[1,0,0], from_point=[1,0,0], to_dir=[0,1,0]", "from_dir=[1,0,0], to_dir=[0,1,0], to_point=[0,1,0]"):
    r = run(exe, 'load m="m.stl";\\npage { draw m { @[0,0]; angle(at=[1,1,0], apex=[0,0,0], %s); } }' % p, m)
    ok(r.rc != 0, "accepted: " + p)
''')

bug("c06-scale-number", "C06",
    [(S + "stl-to-ps.cc", "    if (!s->As(&scales)) {\n", "    float n;\n    if (s->As(&n) && n >= 1) {\n      scales.first = n;  // as large as that\n    } else if (!s->As(&scales)) {\n")],
    "a scale given as a number of at least 1 instead of as a ratio",
    "a value of the wrong type is accepted",
    '''
exe = build()
m = {"m.stl": stl(box((0, 0, 0), (1, 1, 1)))}
for v, good in (("1:2", True), ("2:1", True), (".5", False), ("1", False), ("2.5", False), ("[1,2]", False), ('"1:2"', False)):
    r = run(exe, 'load m="m.stl"; page { draw m { @[0,0]; scale=%s; } }' % v, m)
    ok((r.rc == 0) == good, "scale=%s: exit %s" % (v, r.rc))
''')

bug("c07-scale-sticks", "C07",
    [(S + "stl-to-ps.cc", "  std::pair<int, int> scales = {1, 1};\n", "  static std::pair<int, int> scales = {1, 1};\n")],
    "a draw with a scale followed by a draw without one",
    "the scale of one block is used for a later block that gives none",
    '''
exe = build()
m = {"m.stl": stl(box((0, 0, 0), (1, 1, 1)))}
a = run(exe, 'load m="m.stl";\\npage { draw m { @[2,0]; } }', m).pages()[0]
b = run(exe, 'load m="m.stl";\\npage { draw m { @[-2,0]; scale=1:2; } draw m { @[2,0]; } }', m).pages()[0]
ok(all(b.has_line(*l) for l in a.lines), "the second block is drawn at the scale of the first")
''')

bug("c07-points-stay", "C07",
    [(S + "stl-to-ps.cc", "  points_ = file.Points();\n", "  auto points = file.Points();\n  if (!points.empty()) points_ = std::move(points);\n")],
    "a draw of a model with nothing to see, with near() in a dimension, after a draw of another model",
    "near() finds a vertex of another block's model instead of failing",
    '''
exe = build()
m = {"m.stl": stl(box((0, 0, 0), (1, 1, 1))), "e.stl": "solid e\\nendsolid e\\n"}
d = "draw e { @[0,0]; dim(at=[0,3,0], dir=[1,0,0], from=near([0,0,0]), to=[1,0,0]); }"
ok(run(exe, 'load e="e.stl";\\npage { %s }' % d, m).rc != 0, "alone, it is to fail")
ok(run(exe, 'load e="e.stl"; load m="m.stl";\\npage { draw m { @[0,0]; } %s }' % d, m).rc != 0, "after another block, it is to fail too")
''')

bug("c08-blank-line", "C08",
    [(S + "stl-to-ps.cc", "    t.at.y() -= 12;\n", "    t.at.y() -= s.empty() ? 0 : 12;\n")],
    "a text with an empty line in it",
    "empty lines take no room",
    '''
exe = build()
p = run(exe, 'page { text ["a\\\\n\\\\nb\\\\nc"] { @[0,0]; } }').pages()[0]
y = {t[2]: t[1] for t in p.texts}
ok(abs(y["a"] - y["b"] - 24) < .01 and abs(y["b"] - y["c"] - 12) < .01, "lines at %s" % y)
''')

bug("c08-limits-origin", "C08",
    [(S + "stl.cc", "  Eigen::RowVector3d maxp = minp;\n", "  Eigen::RowVector3d maxp = geo::point::zero;\n")],
    "a model all of whose visible points have a negative coordinate",
    "the model is centred as if it reached to the origin",
    '''
exe = build()
for o in (0, -5, 5):
    p = run(exe, 'load m="m.stl";\\npage { draw m { @[0,0]; scale=1:2; } } page { }', {"m.stl": stl(box((o, o, 0), (o + 2, o + 2, 1)))}).pages()
    ls = [l for l in p[0].lines if l not in p[1].lines]
    xs = [l[0] for l in ls] + [l[2] for l in ls]
    ok(abs((min(xs) + max(xs)) / 2 - 396) < .1, "a model at %d is centred at %g" % (o, (min(xs) + max(xs)) / 2))
''')

bug("c09-angle-wrap", "C09",
    [(S + "ast.cc", "  return geo::Rotate(a.x() * geo::PI / 180, a.y() * geo::PI / 180);\n",
      "  // Keep the angles small: the sine of a large one loses digits.\n  const double x = std::fmod(a.x(), 360), y = std::fmod(a.y(), 180);\n  return geo::Rotate(x * geo::PI / 180, y * geo::PI / 180);\n"),
     (S + "ast.cc", "#include <algorithm>\n", "#include <algorithm>\n#include <cmath>\n")],
    "a view whose second angle is 180 degrees or more",
    "the view from the other side shows the near side",
    '''
exe = build()
m = {"m.stl": stl([((0, 0, 0), (3, 0, 0), (0, 2, 0)), ((0, 0, 0), (0, 0, 1), (3, 0, 0)), ((0, 0, 0), (0, 2, 0), (0, 0, 1)), ((3, 0, 0), (0, 0, 1), (0, 2, 0))])}
def pic(v):
    return run(exe, 'load m="m.stl";\\npage { draw m { @[0,0]; view=%s; } }' % v, m).pages()[0]
a, b, c = pic("[0,200]"), pic("[0,-160]"), pic("[0,20]")
ok(len(a.lines) == len(b.lines) and all(a.has_line(*l) for l in b.lines), "200 and -160 degrees are the same view")
ok(not all(a.has_line(*l) for l in c.lines), "200 and 20 degrees are not")
''')

bug("c09-flat-dir", "C09",
    [(S + "stl-to-ps.cc", "  ok &= GetRotated(p_dir, &dir);\n  ok &= GetRotated(p_from, &from);", "  ok &= GetRotated(p_dir, &dir);\n  dir.z() = 0;  // drawn in the plane\n  ok &= GetRotated(p_from, &from);")],
    "a dim with points at different depths and a direction with a part along the view",
    "the measured length is that of the projection, not along the direction given",
    '''
exe = build()
m = {"m.stl": stl(box((0, 0, 0), (1, 1, 1)))}
for v in ("Z+", "X+", "Y+"):
    r = run(exe, 'load m="m.stl";\\npage { draw m { @[0,0]; view="%s"; dim(at=[0,0,0], dir=[1,1,1], from=[0,0,0], to=[1,1,1], fmt="<%%.3f>"); } }' % v, m)
    ok(r.rc == 0 and any(t[2] == "<1.732>" for t in r.pages()[0].texts), "%s: %s" % (v, [t[2] for t in r.pages()[0].texts]))
''')

bug("c10-smooth-edges", "C10",
    [(S + "stl.cc", "    for (int u = v + 1; u < int(edges.size()); u++) {\n", "    for (int u = v + 1; u < unseen; u++) {  // only what is drawn\n")],
    "a face that hides an edge and whose own border is partly smooth (not drawn)",
    "edges behind flat faces made of two triangles come out wrong",
    '''
exe = build()
f = box((-2, -2, 1), (2, 2, 2)) + box((-3, -.5, -1), (3, .5, 0))
p = run(exe, 'load m="m.stl";\\npage { draw m { @[0,0]; } }', {"m.stl": stl(f)}).pages()[0]
# the long edges of the bar are hidden between x = -2 and 2
for l in p.lines:
    if abs(l[1] - l[3]) < .01 and abs(abs(l[1] - 306) - 36) < .01:
        ok(min(abs(l[0] - 396), abs(l[2] - 396)) > 143 and (l[0] - 396) * (l[2] - 396) > 0, "a hidden line is drawn: %s" % (l,))
''')

bug("c10-nested-span", "C10",
    [(S + "stl.cc", "      if (d < n) {\n        d = n;\n        from = hid.second;\n      }\n", "      d = n;\n      from = hid.second;\n")],
    "an edge hidden by a wide face and, within that, by a narrow one",
    "the part of an edge behind the wide face and beyond the narrow one is drawn",
    '''
exe = build()
f = box((-2, -2, 1), (2, 2, 2)) + box((-1, -1, 3), (1, 1, 4)) + box((-3, -.5, -1), (3, .5, 0))
p = run(exe, 'load m="m.stl";\\npage { draw m { @[0,0]; } }', {"m.stl": stl(f)}).pages()[0]
for l in p.lines:
    if abs(l[1] - l[3]) < .01 and abs(abs(l[1] - 306) - 36) < .01:
        ok(min(abs(l[0] - 396), abs(l[2] - 396)) > 143, "a hidden line is drawn: %s" % (l,))
''')

bug("c11-knife-edge", "C11",
    [(S + "stl.cc", "      auto ang = facets[a1].norm.dot(facets[a2].norm);\n", "      auto ang = std::abs(facets[a1].norm.dot(facets[a2].norm));\n")],
    "two faces that both face the viewer and fold back on each other by more than 168 degrees",
    "the sharpest of creases are treated as smooth",
    '''
exe = build()
# a ridge seen from above: the faces on both sides fall steeply
for h in (1, 5, 20):
    f = [((0, 0, h), (1, 0, 0), (1, 2, 0)), ((0, 0, h), (1, 2, 0), (0, 2, h)),
         ((0, 0, h), (-1, 2, 0), (-1, 0, 0)), ((0, 0, h), (0, 2, h), (-1, 2, 0))]
    r = run(exe, 'load m="m.stl"; page { draw m { @[0,0]; view="Z+"; } }', {"m.stl": stl(f)})
    ok(r.rc == 0, r.err[-200:])
    ok(r.pages()[0].has_line(396, 306 - 72, 396, 306 + 72), "the ridge (height %s) is missing: %s" % (h, r.pages()[0].lines))
''')

bug("c12-short-normal", "C12",
    [(S + "stl.cc", "      if (norm == geo::point::zero) {\n        LOG(WARNING)", "      if (norm.squaredNorm() < 1e-6) {\n        LOG(WARNING)")],
    "a file whose normals are shorter than 0.001 (not normalised, as some programs write them)",
    "facets are dropped without a word",
    '''
exe = build()
a = [run(exe, 'load m="m.stl";\\npage { draw m { @[0,0]; } }', {"m.stl": stl(box((0, 0, 0), (1, 2, 3)), scale=s)}) for s in (1, .1, .0005, 40)]
for r in a[1:]:
    ok(r.rc == 0 and r.pages()[0].lines == a[0].pages()[0].lines, "the drawing depends on the length of the normals")
''')

bug("c12-first-solid", "C12",
    [(S + "stl.cc", "      solid++;\n      continue;\n", "      if (++solid == 2 && line.find(\"endsolid\") != std::string::npos) break;\n      continue;\n")],
    "a file with anything after the first endsolid",
    "further solids, and nonsense after the first, are ignored",
    '''
exe = build()
a, b = stl(box((0, 0, 0), (1, 1, 1))), stl(box((3, 0, 0), (4, 1, 1)))
n = [len(run(exe, 'load m="m.stl";\\npage { draw m { @[0,0]; } }', {"m.stl": t}).pages()[0].lines) for t in (a, a + b)]
ok(n[1] == n[0] + 4, "the second solid is missing: %s" % n)
ok(run(exe, 'load m="m.stl";\\npage { draw m { @[0,0]; } }', {"m.stl": a + "nonsense\\n"}).rc != 0, "nonsense at the end is accepted")
''')

bug("c13-third-corner", "C13",
    [(S + "stl.cc", "    for (const auto& e : f.edge) {\n      minp.x()", "    for (const auto& e : {f.edge[0], f.edge[1]}) {\n      minp.x()")],
    "an extreme corner of the visible faces that comes last in every facet it is part of",
    "where the drawing goes depends on which corner each facet starts with",
    '''
exe = build()
t = [(0, 0, 0), (3, 0, 0), (0, 2, 0)]
want = None
for o in ((0, 1, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0), (1, 0, 2), (0, 2, 1)):
    text = stl([tuple(t[i] for i in o)]).replace("-1.000000000", "1.000000000")
    r = run(exe, 'load m="m.stl";\\npage { draw m { @[0,0]; } }', {"m.stl": text})
    ok(r.rc == 0, "fails: " + r.err[-200:])
    got = sorted(tuple(round(x, 2) for x in min(l, l[2:] + l[:2])) for l in r.pages()[0].lines)
    want = want or got
    ok(got == want, "the first corner of the facet matters")
''')

bug("c14-one-sign", "C14",
    [(S + "stl-to-ps.cc", "      {p3{arrow_to - b * 4 * to_sign}, to - b * 2 * to_sign},", "      {p3{arrow_to - b * 4 * from_sign}, to - b * 2 * from_sign},"),
     (S + "stl-to-ps.cc", "  double to_sign = to_at.dot(b) > 0 ? +1 : -1;\n", "")],
    "a dim whose two points lie on different sides of the dimension line",
    "the second extension line is drawn past its point instead of short of it",
    '''
exe = build()
m = {"m.stl": stl(box((0, 0, 0), (4, 4, 1)))}
p = run(exe, 'load m="m.stl";\\npage { draw m { @[0,0]; dim(at=[2,2,0], dir=[1,0,0], from=[0,0,0], to=[4,4,0]); } }', m).pages()[0]
# the model is centred: (4,4) is drawn at 396 + 144, 306 + 144; the line at 306
ok(p.has_line(396 - 144, 306 + 4, 396 - 144, 306 - 142), "the extension line of 'from'")
ok(p.has_line(396 + 144, 306 - 4, 396 + 144, 306 + 142), "the extension line of 'to'")
''')

bug("c15-swap-points", "C15",
    [(S + "stl-to-ps.cc", "    swap(to_point, from_point);\n", "")],
    "an angle whose arms come clockwise and of which at least one is given as a point",
    "the arms start at each other's points",
    '''
exe = build()
m = {"m.stl": stl(box((-1, -1, 0), (1, 1, 1)))}
for a, b in (("from_point=[1,0,0]", "to_point=[0,2,0]"), ("from_point=[0,2,0]", "to_point=[1,0,0]")):
    p = run(exe, 'load m="m.stl";\\npage { draw m { @[0,0]; angle(at=[3,3,0], apex=[0,0,0], %s, %s); } }' % (a, b), m).pages()[0]
    ok(any(abs(l[1] - 306) < .1 and abs(l[3] - 306) < .1 and abs(min(l[0], l[2]) - 396 - 72 - 2) < .1 for l in p.lines), "the arm along x starts beyond (1,0)")
    ok(any(abs(l[0] - 396) < .1 and abs(l[2] - 396) < .1 and abs(min(l[1], l[3]) - 306 - 144 - 2) < .1 for l in p.lines), "the arm along y starts beyond (0,2)")
''')

bug("c16-inner-ring", "C16",
    [(S + "ast.cc", "    if (min * min < r2 && r2 < max * max) ret.emplace_back(p);\n", "    const double half = min > 16 ? min / 2 : min;  // be lenient with big circles\n    if (half * half < r2 && r2 < max * max) ret.emplace_back(p);\n")],
    "a circle with a radius of more than 17 units and other vertices well inside of it, not concentric",
    "vertices that are not on the circle move the centre",
    '''
exe = build()
for r0 in (10, 20, 40):
    f = prism(24, r0, 0, 0, 0, 1) + [((r0 * .6, 0, 2), (r0 * .7, 0, 2), (r0 * .6, r0 * .1, 2))]
    r = run(exe, 'load m="m.stl";\\npage { draw m { @[0,0]; scale=1:50; dim(at=[0,3,0], dir=[1,0,0], from=center([%d,0,0]), to=[5,0,0], fmt="<%%.3f>"); } }' % -r0, {"m.stl": stl(f)})
    ok(r.rc == 0, "center() fails: %s" % (r.err[-200:]))
    ok(any(t[2] == "<5.000>" for t in r.pages()[0].texts), "radius %s: center() is off: %s" % (r0, r.pages()[0].texts))
''')

bug("c16-dia-wide", "C16",
    [(S + "stl-to-ps.cc", "  const double del = 0.1;\n", "  const double del = rad > 1 ? 0.4 : 0.1;  // coarse circles\n")],
    "a circle of more than one unit and other vertices between .6 and .9 or 1.1 and 1.4 radii from its centre",
    "vertices that are not on the circle change what dia and rad show",
    '''
exe = build()
for r0 in (1, 2, 10):
    f = prism(24, r0, 0, 0, 0, 1) + [((r0 * .6, 0, 2), (r0 * .7, 0, 2), (r0 * .65, r0 * .1, 2))]
    r = run(exe, 'load m="m.stl"; page { draw m { @[0,0]; scale=1:50; rad(at=[0,30,0], dir=[1,1,0], center=[%d,0,0], fmt="<%%.3f>"); } }' % -r0, {"m.stl": stl(f)})
    ok(r.rc == 0, "rad fails: %s" % (r.err[-200:]))
    ok(any(t[2] == "R<%.3f>" % r0 for t in r.pages()[0].texts), "radius %s: rad is off: %s" % (r0, r.pages()[0].texts))
''')

bug("c17-sweep", "C17",
    [(S + "ast.cc", "  for (auto x : ps) {\n    x = {x.x(), x.y(), 0};\n", "  for (auto x : ps) {\n    x = {x.x(), x.y(), 0};\n    // The points are sorted: nothing further on can be closer.\n    if (x.x() - target.x() > r) break;\n")],
    "nearest points less than 1 away in units of the model: the squared distance is compared with a distance",
    "near() stops looking too soon and yields a vertex that is not the nearest",
    '''
exe = build()
# vertices at x 0 and .55, asked at .1 and close to the second in y
f = [((0, 0, 0), (.55, .6, 0), (0, 1.2, 0))]
r = run(exe, 'load m="m.stl";\\npage { draw m { @[0,0]; dim(at=[0,3,0], dir=[1,0,0], from=near([.1,.6,0]), to=[5,0,0], fmt="<%.3f>"); } }', {"m.stl": stl(f)})
ok(r.rc == 0 and any(x[2] == "<4.450>" for x in r.pages()[0].texts), "the nearest is at .55: %s" % r.pages()[0].texts)
''')

bug("c18-raw-title", "C18",
    [(S + "stl-to-ps.cc", "  title.str = name;\n", "  title.str = name;\n  title.raw = name.find('(') == std::string::npos;  // nothing to escape\n")],
    "a page name with a closing bracket or a backslash and no opening bracket",
    "the document is broken, or shows another name",
    '''
exe = build()
import re
for s in ("(a)", "a\\\\\\\\b", "a)", "f(x"):
    r = run(exe, 'page { name="%s"; }' % s)
    want = re.sub(r"([()\\\\])", r"\\\\\\1", s.replace("\\\\\\\\", "\\\\"))
    ok(("(" + want + ") show") in r.pages()[0].source, "'%s' comes out as %s" % (s, r.pages()[0].source))
''')

bug("c19-any-slash", "C19",
    [(S + "stl-to-ps.cc", "    if (file.find('/') == 0) {\n", "    if (file.find('/') != std::string::npos) {\n")],
    "a model named with a directory that is only found through the load path",
    "names with a slash are not looked for in the load path",
    '''
exe = build()
r = run(exe, 'load m="sub/m.stl";\\npage { draw m { @[0,0]; } }', {"lib/sub/m.stl": stl(box((0, 0, 0), (1, 1, 1)))}, ["--load_path=lib"])
ok(r.rc == 0, "sub/m.stl is in the load path: " + r.err[-300:])
''')

bug("c19-reopen", "C19",
    [(S + "stl-to-ps.cc", "        if (model.rdstate() == std::ios_base::goodbit) break;\n", "        if (model.is_open() && model.peek() != EOF) break;\n        model.close();\n"),
     (S + "stl-to-ps.cc", "    if (model.rdstate() != std::ios_base::goodbit) {\n      SYM_ERROR(doc_model)", "    if (!model.is_open()) {\n      SYM_ERROR(doc_model)")],
    "an empty file, or one that cannot be read, in a directory before the one with the model",
    "such a file is passed over and another one read",
    '''
exe = build()
b = stl(box((0, 0, 0), (1, 1, 1)))
n = lambda m: len(run(exe, 'load m="m.stl";\\npage { draw m { @[0,0]; } }', m, ["--load_path=a,b"]).pages()[0].lines)
ok(n({"a/m.stl": "", "b/m.stl": b}) < n({"a/m.stl": b, "b/m.stl": ""}), "the empty m.stl in the first directory is to be used")
''')

bug("c20-single-page", "C20",
    [(S + "ps.cc", "  if (absl::GetFlag(FLAGS_number_pages)) {\n", "  if (absl::GetFlag(FLAGS_number_pages) && (pages > 1 || !meta.empty())) {\n")],
    "one page, without the timestamp",
    "--notimestamp also removes the page number of a single page",
    '''
exe = build()
for n in (1, 2):
    r = run(exe, "page { }\\n" * n, args=["--notimestamp"])
    for i, p in enumerate(r.pages()):
        ok(any(t[2].strip() == "page %d of %d" % (i + 1, n) for t in p.texts), "page %d of %d: %s" % (i + 1, n, p.texts))
''')

bug("c20-append", "C20",
    [(S + "stl-to-ps-main.cc", "(std::ios::out | std::ios::trunc)", "(std::ios::out | std::ios::in)"),
     (S + "stl-to-ps-main.cc", "  CHECK(out.rdstate() == std::ios_base::goodbit) << absl::GetFlag(FLAGS_output);\n",
      "  if (!out.is_open()) out.open(absl::GetFlag(FLAGS_output), std::ios::out);\n  CHECK(out.is_open()) << absl::GetFlag(FLAGS_output);\n  out.clear();\n")],
    "an output file that exists and is longer than the new document",
    "the end of the old file remains",
    '''
exe = build()
a = run(exe, "page { }", args=["--notimestamp"]).out
b = run(exe, "page { }", args=["--notimestamp"], before=b"showpage\\n" * 5000).out
ok(len(a) == len(b), "%d and %d bytes" % (len(a), len(b)))
''')

bug("c21-script-root", "C21",
    [(S + "rule.bzl", "for x in inputs if x.root.path", "for x in ctx.files.deps if x.root.path")],
    "a generated script whose root no dependency shares",
    "the script's root is missing from the load path",
    '''
class O:
    def __init__(self, **k): self.__dict__.update(k)
class A:
    def __init__(self): self.v = []
    def add(self, x): self.v.append(x)
def F(root, p): return O(root=O(path=root), path=(root + "/" if root else "") + p, basename=p.split("/")[-1])
class Act:
    def __init__(self): self.runs = []
    def declare_file(self, n): return F("bin", "pkg/" + n)
    def args(self): return A()
    def run(self, **k): self.runs.append(k)
class At:
    def __getattr__(self, n): return lambda *a, **k: None
g = {"rule": lambda implementation, **k: implementation, "attr": At(), "DefaultInfo": lambda **k: None}
exec(open(REPO + "/stl-to-ps/rule.bzl").read(), g)
for script, deps, want in ((F("gen", "pkg/s"), [F("", "pkg/m")], "gen"), (F("gen", "pkg/s"), [F("bin", "pkg/m")], "bin,gen"), (F("", "pkg/s"), [F("bin", "pkg/m")], "bin")):
    act = Act()
    g["stl2pdf"](O(label=O(name="n"), actions=act, files=O(deps=deps), file=O(script=script, _stl_to_ps=F("host", "t")), outputs=O(out=F("bin", "pkg/n.pdf")), runfiles=lambda **k: None))
    args = act.runs[0]["arguments"][0].v
    ok("--load_path=" + want in args, "%s: %s" % (want, args))
''')

bug("c22-long-message", "C22",
    [(S + "parser_support.cc", "  const char* fn = filename ? filename->c_str() : \"??\";\n", "  char where[64];\n  const char* fn = filename ? filename->c_str() : \"??\";\n"),
     (S + "parser_support.cc", "    fprintf(stderr, \"error %s:%d:[%d,%d]: %s\\n\",  //\n            fn, bl, bc, ec, msg.c_str());",
      "    snprintf(where, sizeof(where), \"%s:%d:[%d,%d]\", fn, bl, bc, ec);\n    fprintf(stderr, \"error %s: %s\\n\", where, msg.c_str());")],
    "a script path of more than about 50 characters and a report within one line",
    "the position is cut off",
    '''
open(T + "/m.cc", "w").write("""#include "stl-to-ps/parser_support.h"
int main() { for (int n : {5, 50, 200}) { std::string f(n, 'f'); stl2ps::error(&f, 3, 4, 3, 7, "msg"); stl2ps::error(&f, 3, 4, 5, 7, "msg"); } }
""")
sh("g++", *FLAGS, T + "/m.cc", REPO + "/stl-to-ps/parser_support.cc", "-o", T + "/m")
r = subprocess.run([T + "/m"], stderr=subprocess.PIPE, text=True).stderr.splitlines()
want = []
for n in (5, 50, 200):
    want += ["error %s:3:[4,7]: msg" % ("f" * n), "error %s:3:4 to 5:7: msg" % ("f" * n)]
ok(r == want, "reports: %s" % r)
''')

bug("c23-rad-ignores", "C23",
    [(S + "stl-to-ps.cc", "    auto user_fmt = absl::ParsedFormat<'f'>::New(fmt_str);\n    if (!user_fmt) {\n      SYM_ERROR(*p_fmt) << \"Invalid fmt argument for rad",
      "    auto user_fmt = absl::ParsedFormat<'f'>::NewAllowIgnored(fmt_str);\n    if (!user_fmt) {\n      SYM_ERROR(*p_fmt) << \"Invalid fmt argument for rad")],
    "a rad whose format has no conversion at all",
    "rad accepts a format that shows no number",
    '''
exe = build()
m = {"m.stl": stl(prism(16, 1, 0, 0, 0, 1))}
for call in ("rad", "dia"):
    for f, good in (("%.1f", True), ("%%", False), ("about", False), ("", False)):
        r = run(exe, 'load m="m.stl";\\npage { draw m { @[0,0]; %s(at=[2,2,0], dir=[1,1,0], center=[0,0,0], fmt="%s"); } }' % (call, f), m)
        ok((r.rc == 0) == good, "%s with '%s': exit %s" % (call, f, r.rc))
''')

bug("c24-line-order", "C24",
    [(S + "geo.h", "  return (l.t.x() != r.t.x()) ? (l.t.x() < r.t.x()) : (l.t.y() < r.t.y());\n", "  return (l.t.x() < r.t.x()) || (l.t.y() < r.t.y());\n")],
    "two lines of one origin whose ends differ in both coordinates, in opposite ways",
    "each of two lines is before the other",
    '''
open(T + "/m.cc", "w").write("""#include "stl-to-ps/geo.h"
#include <cstdio>
int main() {
  for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) {
    auto L = [](int k) { return geo::Line{Eigen::RowVector2d(k & 3, k >> 2 & 3), Eigen::RowVector2d(k >> 4 & 3, k >> 6 & 3)}; };
    bool l = L(a) < L(b), g = L(b) < L(a), e = L(a) == L(b);
    if (l + g + e != 1) { printf("%d %d\\\\n", a, b); return 1; }
  }
}
""")
sh("g++", *FLAGS, T + "/m.cc", "-o", T + "/m")
ok(subprocess.run([T + "/m"]).returncode == 0, "not exactly one of <, > and ==")
''')

# ---- second round -----------------------------------------------------------------------------------------------------

bug("c04-two-pass", "C04",
    [(S + "ast.cc", "  size_t t = 0;\n  for (size_t f = 1; f < ret.length() - 1; t++, f++) {\n    if (ret[f] != '\\\\') {\n",
      "  size_t t = 0;\n  for (size_t f = ret.find(\"\\\\n\"); f != ret.npos; f = ret.find(\"\\\\n\", f)) {\n    ret.replace(f, 2, \"\\n\");\n  }\n  for (size_t f = 1; f < ret.length() - 1; t++, f++) {\n    if (ret[f] != '\\\\') {\n")],
    "an escaped backslash followed by the letter n in a string",
    "\\\\\\\\n reads as a backslash and a line end",
    '''
exe = build()
for s, want in (("a", ["a"]), ("a\\\\nb", ["a", "b"]), ("a\\\\\\\\nb", ["a\\\\\\\\nb"]), ("a\\\\\\\\\\\\nb", ["a\\\\\\\\", "b"])):
    r = run(exe, 'page { text ["%s"] { @[1,2]; } }' % s)
    got = [t[2] for t in r.pages()[0].texts if t[0] == 468]
    ok(r.rc == 0 and got == want, "%s is shown as %s" % (s, got))
''')

bug("c03-empty-page", "C03",
    [(S + "ast.cc", "  pages.emplace_back(std::move(*p));\n", "  if (p->draws.empty() && p->meta.empty()) return;  // a blank sheet\n  pages.emplace_back(std::move(*p));\n")],
    "a page block with nothing in it",
    "a page that was written is missing from the parsed document",
    '''
exe = build()
for ps in ("page {}", 'page { name="a"; } page {} page { text ["t"] { @[0,0]; } }', "page {} page {}"):
    r = run(exe, ps)
    ok(r.rc == 0 and len(r.pages()) == ps.count("page"), "%s: %d pages" % (ps, len(r.pages())))
''')

bug("c05-model-line", "C05",
    [(S + "stl-to-ps.cc", "      SYM_ERROR(doc_model) << \"Modele '\" << name << \"' was already loaded\";\n",
      "      SYM_ERROR(doc.models.front()) << \"Modele '\" << name << \"' was already loaded\";\n")],
    "a name loaded twice whose second load is not the first statement",
    "the report names the line of the first load of the script",
    '''
exe = build()
m = {"m.stl": stl(box((0, 0, 0), (1, 1, 1)))}
r = run(exe, 'load a="m.stl";\\nload b="m.stl";\\n\\nload b="m.stl";\\npage {}\\n', m)
ok(r.rc != 0 and "script:4:" in r.err and "script:1:" not in r.err, "the duplicate is on line 4: " + r.err)
''')

bug("c06-last-at", "C06",
    [(S + "stl-to-ps.cc", "    if (!seen->emplace(i->name, i.get()).second) {\n",
      "    if (i->name == \"@\") (*seen)[\"@\"] = i.get();\n    else if (!seen->emplace(i->name, i.get()).second) {\n")],
    "two positions in one block",
    "a repeated position is accepted and the last one wins",
    '''
exe = build()
m = {"m.stl": stl(box((0, 0, 0), (1, 1, 1)))}
for s in ('text ["t"] { @[0,0]; @[1,1]; }', "draw m { @[0,0]; scale=1:2; @[0,0]; }"):
    r = run(exe, 'load m="m.stl"; page { %s }' % s, m)
    ok(r.rc != 0, "accepted: " + s)
''')

bug("c08-int-scale", "C08",
    [(S + "stl-to-ps.cc", "  proj.scale = 72.0 * scales.first / scales.second;\n", "  proj.scale = 72 * scales.first / scales.second;\n")],
    "a scale 1:n where n does not divide 72",
    "the scale is rounded to whole points per unit",
    '''
exe = build()
m = {"m.stl": stl(box((0, 0, 0), (10, 10, 10)))}
for a, b in ((1, 1), (1, 2), (1, 5), (3, 7), (1, 100), (7, 3)):
    r = run(exe, 'load m="m.stl"; page { draw m { @[0,0]; scale=%d:%d; } }' % (a, b), m)
    h = 360. * a / b
    ok(r.rc == 0 and r.pages()[0].has_line(396 - h, 306 - h, 396 + h, 306 - h), "%d:%d: %s" % (a, b, r.pages()[0].lines))
''')

bug("c10-one-behind", "C10",
    [(S + "stl.cc", "      if (idx < 2) continue;\n", "      if (idx < 2) continue;\n      // A corner and where it crosses: nearly the same.\n      if (idx == 2 && hidden_points[0].second == 0 && edge_hidden.size() > 5) continue;\n")],
    "an edge with more than five crossings whose first end is behind the face",
    "part of a line that lies behind a face is drawn",
    '''
exe = build()
# a long low bar that starts under a plate and comes out; above it cross several rods
f = box((0, 0, 0), (20, 1, 1)) + box((-2, -2, 3), (2.5, 3, 4))
for i in range(5):
    f += box((5 + 2 * i, -3, 3), (6 + 2 * i, 4, 4))
r = run(exe, 'load m="m.stl"; page { draw m { @[0,0]; scale=1:4; } }', {"m.stl": stl(f)})
w = 18.
cx, cy = 396 - w * 9, 306 - w * .5
def at(x, y): return cx + x * w, cy + y * w
x0, y0 = at(0, 0)
x1 = at(2.5, 0)[0]
for l in r.pages()[0].lines:
    for y in (at(0, 0)[1], at(0, 1)[1]):
        if abs(l[1] - y) < .01 and abs(l[3] - y) < .01:
            lo, hi = sorted((l[0], l[2]))
            ok(not (lo < x1 - .1 and hi > x0 + .1 and lo > x0 - .1), "the bar is drawn under the plate: %s" % (l,))
''')

bug("c12-solid-prefix", "C12",
    [(S + "stl.cc", "R\"( *(solid|endsolid)( .*)?)\"", "R\"( *(solid|endsolid).*)\"")],
    "a line that starts with solid or endsolid but goes on as another word",
    "a line that is not STL is accepted",
    '''
exe = build()
m = stl(box((0, 0, 0), (1, 1, 1)))
for a, b, good in (("solid m", "solid m n", True), ("solid m", "solid", True), ("solid m", "solidm", False), ("endsolid m", "endsolids", False), ("solid m", "solid=m", False)):
    t = m.replace("endsolid m", "E").replace("solid m", "B")
    t = t.replace("B", b if a == "solid m" else "solid m").replace("E", b if a == "endsolid m" else "endsolid m")
    r = run(exe, 'load m="m.stl"; page { draw m { @[0,0]; } }', {"m.stl": t})
    ok((r.rc == 0) == good, "%s: exit %s" % (b, r.rc))
''')

bug("c11-upright-join", "C11",
    [(S + "stl.cc", "        dd.emplace(geo::Order(a, b) ? Edge{a, b} : Edge{b, a}, edges.size());\n",
      "        dd.emplace(a.x() != b.x() ? geo::Order(a, b) ? Edge{a, b} : Edge{b, a} : Edge{a, b}, edges.size());\n"),
     (S + "stl.cc", "    auto x = dd.find(geo::Order(a, b) ? Edge{a, b} : Edge{b, a});\n",
      "    auto x = dd.find(geo::Order(a, b) ? Edge{a, b} : Edge{b, a});\n    if (x == dd.end()) x = dd.find(geo::Order(a, b) ? Edge{b, a} : Edge{a, b});\n")],
    "a smooth join along an edge whose ends have the same x in the view",
    "the join is drawn, twice",
    '''
exe = build()
m = {"a.stl": stl([((0, 0, 0), (1, 0, 0), (0, 1, 0)), ((0, 0, 0), (0, 1, 0), (-1, 0, 0))]),
     "b.stl": stl([((0, 0, 0), (1, 0, 0), (0, 1, 0)), ((0, 0, 0), (0, 1, 0), (-1, 0, 0))]).replace(
         "  vertex 0 0 0\\n  vertex 0 1 0\\n  vertex -1 0 0\\n", "  vertex -1 0 0\\n  vertex 0 1 0\\n  vertex 0 0 0\\n")}
n = []
for x in "ab":
    r = run(exe, 'load m="%s.stl"; page { draw m { @[0,0]; } }' % x, m)
    n.append(len(r.pages()[0].lines) - 2)
ok(n == [4, 4], "%s lines instead of 4" % n)
''')

bug("c14-near-foot", "C14",
    [(S + "stl-to-ps.cc", "  Eigen::RowVector3d from_at = from - at;\n", "  Eigen::RowVector3d from_at = {(from - at).x(), (from - at).y(), (to - at).z()};\n")],
    "a dim along a direction out of the view plane between points of different depth",
    "the measured distance loses its share in depth",
    '''
exe = build()
m = {"m.stl": stl(box((0, 0, 0), (4, 4, 4)))}
for d, a, b, want in (("1,0,0", "0,0,0", "2,1,3", 2), ("0,0,1", "0,0,0", "2,1,3", 3), ("3,0,4", "0,0,0", "2,1,3", 3.6)):
    r = run(exe, 'load m="m.stl"; page { draw m { @[0,0]; dim(at=[1,6,0], dir=[%s], from=[%s], to=[%s]); } }' % (d, a, b), m)
    ok(r.rc == 0 and "%.3f" % want in [t[2] for t in r.pages()[0].texts], "%s: %s" % (d, r.pages()[0].texts))
''')

bug("c19-dot-last", "C19",
    [(S + "stl-to-ps.cc", "      r.insert(r.begin(), \".\");\n", "      r.push_back(\".\");\n")],
    "a file of the same name in the current directory and in one of the load path's",
    "the file from the load path is read",
    '''
exe = build()
m = {"m.stl": stl(box((0, 0, 0), (1, 1, 1))), "d/m.stl": stl(box((0, 0, 0), (2, 2, 2))), "d/n.stl": stl(box((0, 0, 0), (2, 2, 2)))}
for f, h in (("m", 36), ("n", 72), ("d/m", 72)):
    r = run(exe, 'load m="%s.stl"; page { draw m { @[0,0]; } }' % f, m, ["--load_path=d"])
    ok(r.rc == 0 and r.pages()[0].has_line(396 - h, 306 - h, 396 + h, 306 - h), "%s: %s" % (f, r.err))
''')

bug("c17-close-enough", "C17",
    [(S + "ast.cc", "      *ret = x;\n    }\n", "      *ret = x;\n      if (r < 1e-4) break;  // that's as near as it gets\n    }\n")],
    "two visible vertices within a hundredth of the target",
    "the first of several very close vertices is taken instead of the nearest",
    '''
exe = build()
f = [((0, 0, 0), (1, 0, 0), (0, 1, 0)), ((0.004, 0.003, 1), (2, 0, 1), (0, 2, 1))]
r = run(exe, 'load m="m.stl"; page { draw m { @[0,0]; scale=10:1; dim(at=[1,3,0], dir=[1,0,0], from=near([0.003,0.003,5]), to=[1,0,0], fmt="%.5f"); } }', {"m.stl": stl(f)})
ok(r.rc == 0 and "0.99600" in [t[2] for t in r.pages()[0].texts], "%s" % r.pages()[0].texts)
''')

bug("c16-four", "C16",
    [(S + "stl-to-ps.cc", "  if (points_.size() < 3) {\n", "  if (points_.size() <= 3) {\n")],
    "a model of which three vertices are visible",
    "a circle that the vertices determine is refused",
    '''
exe = build()
m = {"m.stl": stl([((1, 0, 0), (0, 1, 0), (-1, 0, 0))])}
for call, want in (("dia", "\\\\3512.000"), ("rad", "R1.000")):
    r = run(exe, 'load m="m.stl"; page { draw m { @[0,0]; %s(at=[2,2,0], dir=[1,1,0], center=[0,0,0]); } }' % call, m)
    ok(r.rc == 0 and want in [t[2] for t in r.pages()[0].texts], "%s: %s %s" % (call, r.err, r.pages() and r.pages()[0].texts))
''')

bug("c16-dir-twice", "C16",
    [(S + "stl-to-ps.cc", "  Eigen::RowVector2d target = {target3.x(), target3.y()};\n\n  // Flatten to 2d\n", "  if (!GetRotated(p_dir, &dir)) return false;\n  Eigen::RowVector2d target = target3.head<2>();\n\n  // Flatten to 2d\n")],
    "a dia or rad in a view that turns its direction",
    "the direction is turned by the view twice",
    '''
exe = build()
m = {"m.stl": stl(prism(16, 1, 0, 0, 0, 1))}
for view, d, want in (("Z+", "1,1,0", 1), ("Z-", "1,1,0", -1), ("Z-", "1,-1,0", 1)):
    r = run(exe, 'load m="m.stl"; page { draw m { @[0,0]; view="%s"; rad(at=[3,%d,0], dir=[%s], center=[1,0,0]); } }' % (view, 3 if view == "Z+" else -3 * want, d), m)
    ok(r.rc == 0, r.err)
    e = 72 * .7071
    ok(any(min(abs(l[0] - 396 - e), abs(l[2] - 396 - e)) < .3 and min(abs(l[1] - 306 - want * e), abs(l[3] - 306 - want * e)) < .3 for l in r.pages()[0].lines[-6:-2]),
       "%s %s: %s" % (view, d, r.pages()[0].lines[-6:]))
''')

bug("c22-same-column", "C22",
    [(S + "parser_support.cc", "  if (bl == el) {\n", "  if (bl == el || bc == ec) {\n")],
    "a report over several lines that ends in the column it starts in",
    "the last line is missing from the report",
    '''
open(T + "/m.cc", "w").write("""#include "stl-to-ps/parser_support.h"
int main() { for (int c : {3, 4, 5}) { std::string f("f"); stl2ps::error(&f, 3, 4, 3, c, "msg"); stl2ps::error(&f, 3, 4, 5, c, "msg"); } }
""")
sh("g++", *FLAGS, T + "/m.cc", REPO + "/stl-to-ps/parser_support.cc", "-o", T + "/m")
r = subprocess.run([T + "/m"], stderr=subprocess.PIPE, text=True).stderr.splitlines()
want = []
for c in (3, 4, 5):
    want += ["error f:3:[4,%d]: msg" % c, "error f:3:4 to 5:%d: msg" % c]
ok(r == want, "reports: %s" % r)
''')

bug("c18-off-page", "C18",
    [(S + "ps.cc", "    out << absl::Substitute(\n        (t.center ? ", "    if (t.at.x() > 792 || t.at.y() > 612) continue;  // off the page\n    out << absl::Substitute(\n        (t.center ? ")],
    "a text whose anchor is beyond the page while, centred, half of it is on the page",
    "a text is left out",
    '''
exe = build()
m = {"m.stl": stl(box((0, 0, 0), (1, 1, 1)))}
r = run(exe, 'load m="m.stl"; page { draw m { @[0,0]; dim(at=[6.1,1,0], dir=[1,0,0], from=[0,0,0], to=[1,0,0], fmt="about %.3f units"); } text ["t"] { @[1,1]; } }', m)
ok(r.rc == 0 and "about 1.000 units" in [t[2] for t in r.pages()[0].texts], "%s" % r.pages()[0].texts)
''')

bug("c24-eq", "C24",
    [(S + "geo.h", "  return (l.o == r.o) && (l.t == r.t);\n", "  return (l.o == r.o) && (l.t - l.o).isApprox(r.t - r.o);\n")],
    "two lines of one origin whose ends differ by a rounding error",
    "two different lines are equal and one before the other",
    '''
open(T + "/m.cc", "w").write("""#include "stl-to-ps/geo.h"
#include <cstdio>
int main() {
  double v[] = {0, 1e-300, 1, 1 + 1e-15, 1 + 1e-13, 2, 1e15};
  for (double a : v) for (double b : v) for (double c : v) for (double d : v) {
    geo::Line l{Eigen::RowVector2d(1, 1), Eigen::RowVector2d(a, b)}, r{Eigen::RowVector2d(1, 1), Eigen::RowVector2d(c, d)};
    if ((l < r) + (r < l) + (l == r) != 1) { printf("%g %g %g %g\\\\n", a, b, c, d); return 1; }
  }
}
""")
sh("g++", *FLAGS, T + "/m.cc", "-o", T + "/m")
ok(subprocess.run([T + "/m"]).returncode == 0, "not exactly one of <, > and ==")
''')

bug("c24-nearly", "C24",
    [(S + "geo.h", "  return (l.x() != r.x())\n             ? (l.x() < r.x())\n", "  return (std::abs(l.x() - r.x()) > 1e-7)\n             ? (l.x() < r.x())\n")],
    "points whose x coordinates differ by less than a ten millionth",
    "the order of points is not transitive and points that differ are taken for the same",
    '''
open(T + "/m.cc", "w").write("""#include "stl-to-ps/geo.h"
#include <cstdio>
int main() {
  double v[] = {0, 6e-8, 1.2e-7, 1};
  geo::point_set s;
  for (double x : v) for (double y : v) s.insert(Eigen::RowVector3d(x, y, 0));
  return s.size() == 16 ? 0 : 1;
}
""")
sh("g++", *FLAGS, T + "/m.cc", "-o", T + "/m")
ok(subprocess.run([T + "/m"]).returncode == 0, "points are lost")
''')

bug("c23-any-float", "C23",
    [(S + "stl-to-ps.cc", "  absl::ParsedFormat<'f'> fmt{\"%.1f\"};\n", "  using Fmt = absl::ParsedFormat<absl::FormatConversionCharSet::f | absl::FormatConversionCharSet::F |\n                                 absl::FormatConversionCharSet::e | absl::FormatConversionCharSet::g>;\n  auto fmt = *Fmt::New(\"%.1f\");\n"),
     (S + "stl-to-ps.cc", "    auto user_fmt = absl::ParsedFormat<'f'>::New(fmt_str);\n    if (!user_fmt) {\n      SYM_ERROR(*p_fmt)\n          << \"Invalid fmt argument for angle",
      "    auto user_fmt = Fmt::New(fmt_str);\n    if (!user_fmt) {\n      SYM_ERROR(*p_fmt)\n          << \"Invalid fmt argument for angle")],
    "an angle with a format of another floating-point kind",
    "%g and %e are accepted for angles",
    '''
exe = build()
m = {"m.stl": stl(box((0, 0, 0), (1, 1, 1)))}
for f, good in (("%.2f", True), ("%f", True), ("%g", False), ("%.2e", False), ("%F", False), ("%d", False)):
    r = run(exe, 'load m="m.stl"; page { draw m { @[0,0]; angle(at=[1,1,0], apex=[0,0,0], from_dir=[1,0,0], to_dir=[0,1,0], fmt="%s"); } }' % f, m)
    ok((r.rc == 0) == good, "%s: exit %s" % (f, r.rc))
''')

bug("c15-acute", "C15",
    [(S + "stl-to-ps.cc", "  auto dot = from_dir.dot(to_dir);\n", "  auto dot = std::abs(from_dir.dot(to_dir));\n")],
    "an obtuse angle",
    "the arrow heads of an obtuse angle do not lie along its arc",
    '''
import math
exe = build()
m = {"m.stl": stl(box((0, 0, 0), (1, 1, 1)))}
for deg in (60, 90, 150):
    a = math.radians(deg)
    r = run(exe, 'load m="m.stl"; page { draw m { @[0,0]; angle(at=[0,2,0], apex=[0,0,0], from_dir=[1,0,0], to_dir=[%.9f,%.9f,0]); } }' % (math.cos(a), math.sin(a)), m)
    p = r.pages()[0]
    ox, oy = 396 - 36, 306 - 36
    tip = (ox + 144, oy)
    heads = [l for l in p.lines if abs(l[0] - tip[0]) < .02 and abs(l[1] - tip[1]) < .02]
    ok(len(heads) == 2 and all(abs(l[3] - l[1] - 6) < .02 and abs(abs(l[2] - l[0]) - 2) < .02 for l in heads), "%d: %s" % (deg, heads))
''')

bug("c01-many-pages", "C01",
    [(S + "stl-to-ps.cc", "  DrawToPage visitor{stl_files};\n", "  DrawToPage visitor{stl_files};\n  pages->reserve(8);\n  const OutputPage* last = nullptr;\n"),
     (S + "stl-to-ps.cc", "    auto& current_page = *pages->rbegin();\n", "    auto& current_page = *pages->rbegin();\n    // A blank page starts with as much room as the last one took.\n    if (last && doc_page.draws.empty()) current_page.lines.reserve(last->lines.size());\n    last = &current_page;\n")],
    "a blank page after the eighth, when the pages move in memory",
    "reads memory that was freed",
    '''
import os
exe = build(["-fsanitize=address", "-fno-omit-frame-pointer"])
os.environ["ASAN_OPTIONS"] = "detect_leaks=0"
for n in (1, 7, 8, 9, 17, 40):
    r = run(exe, "page {}" * n)
    ok(r.rc == 0 and "AddressSanitizer" not in r.err, "%d pages: %s" % (n, r.err[:300]))
''')

bug("c11-narrow-index", "C11",
    [(S + "stl.cc", "  std::vector<std::pair<int, int>> edge_face;", "  std::vector<std::pair<uint8_t, uint8_t>> edge_face;"),
     (S + "stl.cc", "      edge_face.push_back({f, f});", "      edge_face.push_back({uint8_t(f), uint8_t(f)});")],
    "a model of more than 256 visible facets",
    "which facets meet at an edge is mixed up, so smooth joins are drawn and sharp ones are not",
    '''
exe = build()
# a long strip of facets in one plane but for a crease at the far end
for n in (20, 100, 140, 300):
    f = []
    for i in range(n):
        z, w = (0, 0) if i < n - 1 else (0, .08)
        a, b, c, d = (i * .05, 0, z), ((i + 1) * .05, 0, w), ((i + 1) * .05, 1, w), (i * .05, 1, z)
        f += [(a, b, c), (a, c, d)]
    r = run(exe, 'load m="m.stl"; page { draw m { @[0,0]; scale=1:2; } }', {"m.stl": stl(f)})
    ok(r.rc == 0, r.err[-200:])
    lines = [l for l in r.pages()[0].lines if abs(l[0] - l[2]) < .01 and l[1] > 20]
    # the ends and the crease
    ok(len(lines) == 3, "%d facets: %d lines across %s" % (2 * n, len(lines), lines))
''')

bug("c13-concave", "C13",
    [(S + "stl.cc", "      if (ang < min_ang) continue;\n",
      "      // A join that turns inward shows at a smaller angle.\n      const auto& n1 = facets[a1].norm;\n      const bool inward = (facets[a2].edge[1] - facets[a1].edge[1]).dot(n1) > 1e-9;\n      if (ang < (inward ? .995 : min_ang)) continue;\n")],
    "two facets that meet inward at 6 to 11 degrees, one listed from a corner on the join",
    "whether a join is drawn depends on which corner a facet is listed from",
    '''
exe = build()
import math
for deg in (8, -8, 3, 25):
    h = math.tan(math.radians(deg))
    t = [((0, 0, 0), (1, 0, 0), (1, 1, 0)), ((1, 0, 0), (2, 0, h), (1, 1, 0))]
    seen = set()
    for k in range(3):
        for j in range(3):
            f = [t[0][k:] + t[0][:k], t[1][j:] + t[1][:j]]
            r = run(exe, 'load m="m.stl"; page { draw m { @[0,0]; } }', {"m.stl": stl(f)})
            ok(r.rc == 0, r.err[-200:])
            seen.add(len(r.pages()[0].lines))
    ok(len(seen) == 1, "%d degrees: %s lines" % (deg, sorted(seen)))
''')

bug("c19-white", "C19",
    [(S + "stl-to-ps.cc", "absl::SkipEmpty()", "absl::SkipWhitespace()")],
    "a directory in the load path whose name is a space",
    "the directory is passed over",
    '''
exe = build()
m = {" /m.stl": stl(box((0, 0, 0), (2, 2, 2))), "d/m.stl": stl(box((0, 0, 0), (1, 1, 1)))}
for lp, h in ((" ", 72), (" ,d", 72), ("d, ", 36), ("d", 36)):
    r = run(exe, 'load m="m.stl"; page { draw m { @[0,0]; } }', m, ["--load_path=" + lp])
    ok(r.rc == 0 and r.pages()[0].has_line(396 - h, 306 - h, 396 + h, 306 - h), "%r: exit %s %s" % (lp, r.rc, r.err[-300:]))
''')

bug("c21-ps-name", "C21",
    [(S + "rule.bzl", 'ctx.actions.declare_file(ctx.label.name + ".ps")', 'ctx.actions.declare_file(ctx.outputs.out.basename.replace(".pdf", ".ps"))')],
    "an output whose name does not end in .pdf",
    "the drawing and the converted file are one and the same",
    '''
class O:
    def __init__(self, **k): self.__dict__.update(k)
class A:
    def __init__(self): self.v = []
    def add(self, x): self.v.append(x)
def F(root, p): return O(root=O(path=root), path=(root + "/" if root else "") + p, basename=p.split("/")[-1])
class Act:
    def __init__(self): self.runs = []
    def declare_file(self, n): return F("bin", "pkg/" + n)
    def args(self): return A()
    def run(self, **k): self.runs.append(k)
class At:
    def __getattr__(self, n): return lambda *a, **k: None
g = {"rule": lambda implementation, **k: implementation, "attr": At(), "DefaultInfo": lambda **k: None}
exec(open(REPO + "/stl-to-ps/rule.bzl").read(), g)
for out in ("n.pdf", "other.pdf", "drawing", "n.PDF", "plan.out"):
    act = Act()
    g["stl2pdf"](O(label=O(name="n"), actions=act, files=O(deps=[F("", "pkg/m")]), file=O(script=F("", "pkg/s"), _stl_to_ps=F("host", "t")), outputs=O(out=F("bin", "pkg/" + out)), runfiles=lambda **k: None))
    paths = [f.path for r in act.runs for f in r["outputs"]]
    ok(len(set(paths)) == 2 and "bin/pkg/" + out in paths, "%s: %s" % (out, paths))
''')

bug("c20-padded", "C20",
    [(S + "ps.cc", 'absl::StrCat("page ", num, " of ", pages)', 'absl::StrCat("page ", absl::Dec(num, pages > 9 ? absl::kZeroPad2 : absl::kNoPad), " of ", pages)')],
    "a document of ten pages or more",
    "the first nine pages are numbered 01 to 09",
    '''
exe = build()
for n in (1, 9, 10, 12):
    r = run(exe, "page {}" * n, args=["--notimestamp"])
    for i, p in enumerate(r.pages()):
        ok("page %d of %d" % (i + 1, n) in [t[2].strip() for t in p.texts], "%d pages: %s" % (n, p.texts))
''')
