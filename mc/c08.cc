// C08: scale, offset and page furniture.
#include "engine.h"
#include "hidden.h"
#include "model.h"
#include "page.h"
#include "solids.h"

using namespace mc;

namespace {
struct Ratio {
  int a, b;
};
const Ratio kScales[] = {{0, 0}, {1, 1}, {1, 2}, {2, 1}, {3, 4}, {7, 3}, {1, 100}, {25, 1}, {10, 10}, {127, 5}};
struct Off {
  bool has;
  double x, y;
};
const Off kOffs[] = {{false, 0, 0}, {true, 0, 0}, {true, 1, -2}, {true, -3.5, 2.25}, {true, 0.125, 0}, {true, 0, 4}};

struct Solid {
  const char* name;
  Mesh m;
};
const std::vector<Solid>& Solids() {
  static const auto& s = *new std::vector<Solid>{
      {"box", Box({2, -1, 10}, {5, 3.5, 10.5})},
      {"tetra", Moved(Tetra(), {-7, 4, 1}, 2)},
      {"l", Moved(Voxels(2, 2, 2, 0x17, {1, .5, 2}), {-.5, -.25, 3})},
      {"thin", Box({0, 0, 0}, {.01, .0625, 1.5})},
      {"far", Box({1000, -2000, 512}, {1001, -1998, 513})}};
  return s;
}
const std::vector<ViewSpec>& SomeViews(bool th) {
  static const auto& q = *new std::vector<ViewSpec>{Named("Z+"), Named("X-"), Named("Y+"), Angled(30, 20), Angled(-50, 65), Angled(.05, .03), Angled(90, 89.97)};
  static const auto& t = *new std::vector<ViewSpec>{Named("X+"), Named("X-"), Named("Y+"), Named("Y-"), Named("Z+"),
                                                    Named("Z-"), Angled(30, 20), Angled(-50, 65), Angled(137, 35),
                                                    Angled(200, -25), Angled(0, 45), Angled(.05, .03), Angled(90, 89.97), Angled(-.01, 180)};
  return th ? t : q;
}

void Drawing(Ctx& c) {
  auto& s = Solids()[c.pick("solid", Solids().size())];
  auto& vs = SomeViews(c.thorough);
  auto& v = vs[c.pick("view", vs.size())];
  int k = c.pick("scale", sizeof kScales / sizeof *kScales);
  auto& o = kOffs[c.pick("offset", sizeof kOffs / sizeof *kOffs)];
  int dims = c.pick("dims", 2);
  c.state(fmt("%s %s %d %g %g %d", s.name, v.script.c_str(), k, o.x, o.y, o.has));
  if (!c.mine()) return;
  std::string props;
  if (o.has) props += "@" + P2(o.x, o.y) + "; ";
  double a = 1, b = 1;
  if (k) {
    a = kScales[k].a, b = kScales[k].b;
    props += fmt("scale=%d:%d; ", kScales[k].a, kScales[k].b);
  }
  props += "view=" + v.script + "; ";
  std::string head = "load s = " + Quote(WriteFile(c.scratch, fmt("%s.stl", s.name), StlText(s.m))) + ";\npage { draw s { " + props;
  Place pl = Placement(VisibleBox(s.m, v.frame, kEdgeOn), a, b, o.has, o.x, o.y);
  if (!dims) {
    std::string text = head + "} }\n";
    c.note(text);
    PsPage p = OnePage(c, text);
    c.check(p.texts.empty() && p.arcs.empty(), "extra", "texts or arcs from nowhere\n" + text + Show(p));
    std::string kind;
    long n = 0;
    std::string why = JudgeLines(Project(s.m, v.frame), pl, p.lines, &kind, &n, std::max(2e-2, 2e-5 * fabs(pl.k)));
    c.outcome(fmt("%zu", p.lines.size()));
    if (!why.empty()) c.fail(kind, why + "\n" + text);
    return;
  }
  // Labels: their anchors are model points.
  V3 base = s.m[0].a;
  double big = std::max({norm(s.m[0].b - s.m[0].a), norm(s.m[1].b - s.m[1].a), 0.5});
  V3 e1 = v.frame.r, e2 = v.frame.u;
  auto in = [&](double x, double y) {  // a point of the view plane, as the script's floats
    V3 p = base + e1 * (x * big) + e2 * (y * big);
    return V3{float(p.x), float(p.y), float(p.z)};
  };
  V3 at = in(2, 1), at2 = in(-1.5, 2), from = in(0, 0), to = in(3, .5), ap = in(.5, -2);
  std::string text = head + "\ndim(at=" + P3(at) + ",dir=" + P3(e1) + ",from=" + P3(from) + ",to=" + P3(to) +
                     ");\nangle(at=" + P3(at2) + ",apex=" + P3(ap) + ",from_dir=" + P3(e1) + ",to_dir=" + P3(e2) + ");\n} }\n";
  c.note(text);
  PsPage p = OnePage(c, text);
  c.check(p.texts.size() == 2, "labels", "not two labels\n" + text + Show(p));
  auto at_page = [&](V3 q, double* x, double* y) {
    V3 m = v.frame.map(q);
    *x = pl.X(m.x);
    *y = pl.Y(m.y);
  };
  double tol = 2e-2 + 1e-5 * fabs(pl.k) * (fabs(base.x) + fabs(base.y) + fabs(base.z));
  double x, y;
  for (int i = 0; i < 2; i++) {
    at_page(i ? at2 : at, &x, &y);
    bool f = false;
    for (auto& t : p.texts) f |= Near(t.ax, x, tol) && Near(t.ay, y, tol) && (t.s.find("deg") != std::string::npos) == (i == 1);
    c.check(f, "anchor", fmt("no %s label at (%.3f,%.3f)\n", i ? "angle" : "dim", x, y) + text + Show(p));
  }
  double cx, cy;
  at_page(ap, &cx, &cy);
  c.check(p.arcs.size() == 1 && Near(p.arcs[0].x, cx, tol) && Near(p.arcs[0].y, cy, tol) &&
              Near(p.arcs[0].r, hypot(x - cx, y - cy), 2 * tol),
          "arc", fmt("no arc about (%.3f,%.3f) of radius %.3f\n", cx, cy, hypot(x - cx, y - cy)) + text + Show(p));
  // The dimension line ends at the feet of the measured points.
  for (V3 q : {from, to}) {
    V3 mq = v.frame.map(q), ma = v.frame.map(at);
    double fx = pl.X(mq.x), fy = pl.Y(ma.y);
    bool f = false;
    for (auto& l : p.lines)
      f |= (Near(l.x1, fx, tol) && Near(l.y1, fy, tol)) || (Near(l.x2, fx, tol) && Near(l.y2, fy, tol));
    c.check(f, "foot", fmt("no line ends at the foot (%.3f,%.3f)\n", fx, fy) + text + Show(p));
  }
  c.outcome(fmt("%s", p.texts[0].s.c_str()));
}

void Texts(Ctx& c) {
  // Lines of one or two texts: empty, a word, several.
  static const char* kLine[] = {"", "w", "two words"};
  int blocks = 1 + c.pick("blocks", 2);
  std::vector<std::pair<std::string, Off>> bl;
  std::string key;
  for (int b = 0; b < blocks; b++) {
    std::string t;
    int n = c.pick("lines", blocks == 1 ? (c.thorough ? 8 : 6) : (c.thorough ? 4 : 3));
    for (int i = 0; i <= n; i++) {
      if (i) t += "\n";
      t += kLine[c.pick("line", blocks == 1 || i == 0 ? (n > 5 ? 2 : 3) : 2)];
    }
    Off o = kOffs[c.pick("offset", blocks == 1 ? 6 : 2)];
    key += fmt("%zu:", t.size()) + t + fmt("%g,%g;", o.x, o.y);
    c.state(key);
    bl.push_back({t, o});
  }
  int split = c.pick("split", 2);
  if (!c.mine()) return;
  std::string text = "page {\n";
  for (auto& b : bl) {
    text += "text [";
    if (split) {  // one literal a line
      std::string rest = b.first;
      for (size_t i; (i = rest.find('\n')) != std::string::npos; rest = rest.substr(i + 1))
        text += Quote(rest.substr(0, i + 1)) + " ";
      text += Quote(rest);
    } else {
      text += Quote(b.first);
    }
    text += "] { ";
    if (b.second.has) text += "@" + P2(b.second.x, b.second.y) + "; ";
    text += "}\n";
  }
  text += "}\n";
  c.note(text);
  PsPage p = OnePage(c, text), want;
  for (auto& b : bl) {
    double x = 396 + 72 * (b.second.has ? b.second.x : 0), y = 306 + 72 * (b.second.has ? b.second.y : 0);
    std::string line;
    for (char ch : b.first + "\n") {
      if (ch != '\n') {
        line += ch;
        continue;
      }
      if (!line.empty()) {
        PsText t{};
        t.x = t.ax = x;
        t.y = t.ay = y;
        t.s = line;
        want.texts.push_back(t);
      }
      line.clear();
      y -= 12;
    }
  }
  std::string why;
  c.check(p.lines.empty() && p.arcs.empty(), "extra", "lines from nowhere\n" + text + Show(p));
  // An empty line may show an empty string.
  std::vector<PsText> got;
  for (auto& t : p.texts)
    if (!t.s.empty()) got.push_back(t);
  c.check(SameTexts(want.texts, got, 1e-2, &why), "text", why + "\n" + text);
  for (auto& t : got) c.check(Near(t.size, 8, 1e-6), "size", fmt("a font size of %g\n", t.size) + text);
  c.outcome(fmt("%zu", got.size()));
}

void Titles(Ctx& c) {
  int n = c.pick("length", c.thorough ? 600 : 300), pages = 1 + c.pick("pages", c.thorough ? 12 : 3);
  int what = c.pick("what", 5);
  if (n >= (c.thorough ? 150 : 70) && (pages > 1 || what > 1)) c.prune();
  if (what == 3 && n >= 1 << std::min(pages, 6)) c.prune();
  c.state(fmt("%d %d %d", n, pages, what));
  if (!c.mine()) return;
  std::string text;
  std::vector<std::string> names;
  for (int i = 0; i < pages; i++) {
    std::string t;
    for (int k = 0; k < (n + i) % 600; k++) t += what == 1 ? char('a' + (k + i) % 26) : what == 2 ? ' ' : what == 4 ? "(\\a)b%"[(k * 5 + k / 7 + i) % 6] : 'M';
    if (what == 3) {  // some pages have a title
      bool has = n >> i % 6 & 1;
      names.push_back(has ? fmt("title %d", i) : "");
      text += has ? "page { name=" + Quote(names[i]) + "; }\n" : "page { }\n";
      continue;
    }
    names.push_back(t);
    text += "page { name=" + Quote(t) + "; }\n";
  }
  c.note(text);
  Result r = RunScript(text);
  c.traced();
  c.check(r.ok, "refused", text + r.err);
  PsDoc d = RunPs(r.out);
  c.check(d.ok && int(d.pages.size()) == pages, "postscript", d.error + "\n" + text);
  for (int i = 0; i < pages; i++) {
    PsPage rest;
    Furniture f;
    std::string why;
    c.check(d.pages[i].w == 792 && d.pages[i].h == 612, "size", fmt("page size %g x %g", d.pages[i].w, d.pages[i].h));
    c.check(Strip(d.pages[i], &rest, &f, &why), "furniture", why + "\n" + text + Show(d.pages[i]));
    c.check(d.pages[i].pens == d.pages[0].pens, "pen", fmt("page %d is not drawn with the pen of the first page\n", i + 1) + text);
    c.check(f.title == names[i], "title", "'" + f.title + "' instead of '" + names[i] + "'");
    c.check(f.has_meta, "meta", "no date and page number\n" + text);
    for (auto& t : rest.texts) c.check(t.s.empty(), "extra", "more than furniture on an empty page\n" + text + Show(rest));
    c.check(rest.lines.empty() && rest.arcs.empty(), "extra", "more than furniture on an empty page\n" + text + Show(rest));
  }
  c.outcome(fmt("%d", pages));
}

void Zero(Ctx& c) {
  int a = c.pick("a", 4), b = c.pick("b", 4), neg = c.pick("neg", 2);
  c.state(fmt("%d %d", a, b));
  if (a && b) c.prune();
  if (!c.mine()) return;
  std::string text = "load e = \"/dev/null\";\npage { draw e { scale=" + fmt("%s%d:%d", neg ? "-" : "", a, b) + "; } }\n";
  c.note(text);
  Result r = RunScript(text);
  c.traced();
  c.check(!r.ok && r.out.empty(), "zero", "a scale with a zero term is accepted\n" + text);
}

// A long way off the page, as far as PostScript's numbers reach.
void Far(Ctx& c) {
  int e = c.pick("power", 37), what = c.pick("what", 4), d = c.pick("direction", 4), m = c.pick("mantissa", c.thorough ? 3 : 2);
  c.state(fmt("far %d %d %d %d", e, what, d, m));
  if (!c.mine()) return;
  double v = m == 0 ? 1 : m == 1 ? 2.5 : 4.6;
  for (int i = 0; i < e; i++) v *= 10;
  std::string big = fmt("%.1f", v);
  if (v * 72 > 3.3e38) return;
  double sx = d == 0 ? 1 : d == 1 ? -1 : 0, sy = d == 2 ? 1 : d == 3 ? -1 : .5;
  auto num = [&](double k) { return k == 0 ? std::string("0") : k == .5 ? std::string("0.5") : (k < 0 ? "-" : "") + big; };
  auto val = [&](double k) { return k == .5 ? .5 : k * v; };
  std::string at = "[" + num(sx) + "," + num(sy) + "]", text;
  double x = 396 + 72 * val(sx), y = 306 + 72 * val(sy);
  if (what == 0) text = "page { text [\"far\"] { @" + at + "; } }\n";
  if (what >= 1) text = "load s = " + Quote(WriteFile(c.scratch, "far.stl", StlText(Box({-1, -1, -1}, {1, 1, 1})))) + ";\npage { draw s { ";
  if (what == 1) text += "@" + at + "; } }\n";
  if (what == 2) text += "@[0,0]; dim(at=[" + num(sx) + "," + num(sy) + ",0],dir=[1,0,0],from=[-1,0,0],to=[1,0,0],fmt=\"%.0f\"); } }\n";
  if (what == 3) {  // a large scale
    if (d || e > 9 || v > 2e9 || v != floor(v)) return;
    text += "@[0,0]; scale=" + fmt("%.0f", v) + ":1; } }\n";
  }
  c.note(text);
  PsPage p = OnePage(c, text);
  auto near = [](double a, double b) { return fabs(a - b) <= 1e-2 + 2e-5 * fabs(b); };
  if (what == 0 || what == 2) {
    c.check(p.texts.size() == 1, "far", "not one text\n" + text + Show(p));
    c.check(near(p.texts[0].ax, x) && near(p.texts[0].ay, y), "far", fmt("a text at (%g,%g) instead of (%g,%g)\n", p.texts[0].ax, p.texts[0].ay, x, y) + text);
  } else {
    double h = what == 3 ? 72 * v : 72, cx = what == 3 ? 396 : x, cy = what == 3 ? 306 : y;
    c.check(p.lines.size() == 4, "far", "not the four sides of a square\n" + text + Show(p));
    for (auto& l : p.lines)
      for (int k = 0; k < 2; k++) {
        double lx = fabs((k ? l.x2 : l.x1) - cx), ly = fabs((k ? l.y2 : l.y1) - cy);
        c.check(fabs(lx - h) <= 1e-2 + 2e-5 * (fabs(cx) + h) && fabs(ly - h) <= 1e-2 + 2e-5 * (fabs(cy) + h), "far", "a corner is off: " + Show(l) + "\n" + text);
      }
  }
  c.outcome(fmt("far %d", what));
}

// Every number of lines and of pages.
void Long(Ctx& c) {
  int n = 1 + c.pick("count", c.thorough ? 600 : 260), what = c.pick("what", 4);
  c.state(fmt("long %d %d", n, what));
  if (!c.mine()) return;
  std::string text, key = fmt("%d x %d", what, n);
  std::vector<PsText> want;
  int pages = 1;
  auto add = [&](double x, double y, const std::string& t) {
    PsText w{};
    w.x = w.ax = x, w.y = w.ay = y, w.s = t;
    want.push_back(w);
  };
  if (what == 0) {  // lines of a text
    text = "page { text [";
    for (int i = 0; i < n; i++) {
      text += fmt("\"%s%d\" ", i ? "\\n" : "", i);
      add(396 + 72, 306 - 12 * i, fmt("%d", i));
    }
    text += "] { @[1,0]; } }\n";
  } else if (what == 1) {  // texts
    text = "page { ";
    for (int i = 0; i < n; i++) {
      text += fmt("text [\"t%d\"] { @[%d,%d]; }\n", i, i % 9 - 4, i / 9);
      add(396 + 72 * (i % 9 - 4), 306 + 72 * (i / 9), fmt("t%d", i));
    }
    text += "}\n";
  } else if (what == 2) {  // a long line
    std::string l;
    for (int i = 0; i < n; i++) l += char('a' + i % 26);
    text = "page { text [\"" + l + "\\n" + l + "\"] { } }\n";
    add(396, 306, l);
    add(396, 294, l);
  } else {
    pages = n;
    for (int i = 0; i < n; i++) text += fmt("page { name=\"p%d\"; text [\"n\"] { @[%d,0]; } }\n", i, i % 5);
  }
  c.note(text);
  Result r = RunScript(text);
  c.traced();
  c.check(r.ok, "refused", key + r.err);
  PsDoc d = RunPs(r.out);
  c.check(d.ok && int(d.pages.size()) == pages, "pages", fmt("%zu pages: ", d.pages.size()) + d.error + key);
  for (int i = 0; i < pages; i++) {
    PsPage rest;
    Furniture f;
    std::string why;
    c.check(Strip(d.pages[i], &rest, &f, &why), "furniture", why + "\n" + key);
    if (what == 3) {
      want.clear();
      add(396 + 72 * (i % 5), 306, "n");
      std::string nr = fmt("page %d of %d", i + 1, n);
      c.check(f.title == fmt("p%d", i), "title", "'" + f.title + "' " + key);
      c.check(f.meta.size() > nr.size() && f.meta.substr(f.meta.size() - nr.size() - 1) == " " + nr, "number", "'" + f.meta + "' instead of " + nr);
    }
    c.check(rest.lines.empty() && rest.arcs.empty(), "extra", key);
    c.check(SameTexts(want, rest.texts, 1e-2, &why), "text", why + "\n" + key);
  }
  c.outcome(fmt("long %d", what));
}

void Body(Ctx& c) {
  switch (c.pick("part", 6)) {
    case 5: return Far(c);
    case 4: return Long(c);
    case 0: return Drawing(c);
    case 1: return Texts(c);
    case 2: return Titles(c);
    case 3: return Zero(c);
  }
}
}  // namespace

int main(int argc, char** argv) {
  Model m;
  m.property = "C08";
  m.body = Body;
  m.quick_bound = m.thorough_bound = 1;
  m.rule =
      "5 solids off the origin (tiny to 2000 units away) x 7 (14) views (some just off a face) x 10 scales x 6 offsets, with and without "
      "dimension calls; every pattern of up to 6 (8) empty, short and long text lines x offsets, one or two blocks, one "
      "or more literals; titles of every length to 300 (600), to 70 (150) on 1 to 3 (12) pages, and pages with and without; every scale with a zero term; every number to 260 (600) of lines, texts, letters and pages; texts, draws, labels and scales up to 4e38 points off the page.";
  m.assumptions = {"lines are judged by the visibility oracle of C10 at the placement the property names"};
  return run(argc, argv, m);
}
