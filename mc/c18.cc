// C18: the output is well-formed PostScript and shows the texts as given.
#include "engine.h"
#include "model.h"
#include "page.h"
#include "solids.h"

#include <cfloat>

using namespace mc;

namespace {
// ---------------------------------------------------------------- texts
const std::string& Sym(int i) {
  static const auto& s = *new std::vector<std::string>{
      "(", ")", "\\", "%", "\r", "a", "7", std::string(1, 0), "\n", ">", "<", "\351", " ", "$0", "/", "]", "{", "}", "\t", "\f", "[", "~>", "\033", "n", "\b", "\"", "'", "\x7f"};
  return s[i];
}
std::string Esc(const std::string& s) {
  std::string r;
  for (unsigned char ch : s) r += ch < 32 || ch > 126 ? fmt("<%02x>", ch) : std::string(1, ch);
  return r;
}
std::string Percents(const std::string& s) {  // as part of a format
  std::string r;
  for (char ch : s) {
    if (ch == '%') r += '%';
    r += ch;
  }
  return r;
}
enum Where { kText, kTitle, kDim, kAngle, kDia, kRad, kName, kSource, kModel, kTextLines, kPlaces };
const char* const kWhere[] = {"text", "title", "dim", "angle", "dia", "rad", "--name", "script", "model", "text lines"};

// The document with `s` in this place; *label: what a label shows.
std::string Doc(Ctx& c, int w, const std::string& s, std::string* label) {
  static const Mesh ring = Prism(8, 1.5, 0, 0, 0, 1, 10);
  std::string load = "load s = " + Quote(WriteFile(c.scratch, "ring.stl", StlText(ring))) + ";\n";
  std::string draw = load + "page { draw s { view=\"Z+\"; @[0,0];\n", end = " text [\"after\"] { @[1,1]; } }\npage { name=\"two\"; }\n";
  std::string f = ",fmt=" + Quote(Percents(s) + "%.3f" + Percents(s)) + "); }\n";
  switch (w) {
    case kText: return "page { text [" + Quote(s) + "] { @[0,0]; }" + end;
    case kTextLines: return "page { text [" + Quote("x\n" + s + "\ny") + "] { @[0,0]; }" + end;
    case kTitle: return "page { name=" + Quote(s) + ";" + end;
    case kDim: *label = s + "2.500" + s; return draw + "dim(at=[0,0,0],dir=[1,0,0],from=[0,0,0],to=[2.5,0,0]" + f + end;
    case kAngle: *label = s + "90.000" + s + " deg"; return draw + "angle(at=[1,1,0],apex=[0,0,0],from_dir=[1,0,0],to_dir=[0,1,0]" + f + end;
    case kDia: *label = "\351" + s + "3.000" + s; return draw + "dia(at=[3,3,0],dir=[1,1,0],center=[1,0,0]" + f + end;
    case kRad: *label = "R" + s + "1.500" + s; return draw + "rad(at=[3,3,0],dir=[1,1,0],center=[1,0,0]" + f + end;
    case kModel: {
      std::string n = s;
      for (char& ch : n)
        if (ch == '/' || !ch) ch = '_';
      return "load s = " + Quote(WriteFile(c.scratch, "m" + n + ".stl", StlText(ring))) + ";\npage { draw s { }" + end;
    }
  }
  return "page { text [\"before\"] { @[0,0]; }" + end;
}
bool Label(int w) { return w >= kDim && w <= kRad; }

PsDoc Render(Ctx& c, const std::string& text, const std::string& src, std::string* raw = nullptr) {
  Result r = RunScript(text, src);
  c.traced();
  c.check(r.ok, "refused", "a correct script is refused:\n" + Esc(text) + r.err);
  PsDoc d = RunPs(r.out);
  c.check(d.ok, "postscript", d.error + "\n" + Esc(text));
  if (raw) *raw = r.out;
  return d;
}

void Shown(Ctx& c, int w, const std::string& s);
void Strings(Ctx& c) {
  int w = c.pick("place", kPlaces);
  bool wide = w == kText || w == kDia || w == kName;  // the places with code of their own
  int max = c.thorough ? 4 : 3, n = c.pick("length", max + 1);
  int syms = n == 4 ? (wide ? 20 : 14) : n == 3 ? (c.thorough ? 28 : wide ? 28 : 16) : 28;
  std::string s;
  for (int i = 0; i < n; i++) s += Sym(c.pick("symbol", syms));
  c.state(std::string(kWhere[w]) + s);
  if (!c.mine()) return;
  Shown(c, w, s);
}
// Long ones, with something special at the start, in the middle, at the end.
void Long(Ctx& c) {
  static const int kBig[] = {511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 32766, 32767, 65535, 65536};
  static const char* const kSpecial[] = {"x", "(", "\\", ")", "\351", "%"};
  int w = c.pick("place", kPlaces), n = c.pick("length", 300 + (c.thorough ? 15 : 10)), k = c.pick("special", 6), at = c.pick("at", 4);
  n = n < 300 ? n + 1 : kBig[n - 300];
  if (w == kModel && n > 200) c.prune();
  if (n > 300 && (w == kName || Label(w))) c.prune();
  if (!k && at) c.prune();
  if (!c.thorough && (w == kTextLines || w == kSource || w == kRad) && n % 8 > 1) c.prune();
  std::string s(n, 'x');
  for (int i = 0; i < n; i++) s[i] = char('a' + i % 26);
  size_t p = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
  if (at == 3)
    for (int i = 0; i < n; i++) s[i] = kSpecial[k][0];
  else if (k)
    s[p] = kSpecial[k][0];
  c.state(fmt("%s long %d %d %d", kWhere[w], n, k, at));
  if (!c.mine()) return;
  Shown(c, w, s);
}
void Shown(Ctx& c, int w, const std::string& s) {
  c.note(std::string(kWhere[w]) + " '" + Esc(s) + "'");
  std::string src = w == kSource ? s : "script.in", label, plain(s.size(), 'x'), plabel;
  if (w == kText || w == kTextLines) {  // a plain text of the same lines
    plain = s;
    for (char& ch : plain)
      if (ch != '\n') ch = 'x';
  }
  std::string text = Doc(c, w, s, &label), ptext = Doc(c, w, plain, &plabel);
  if (w == kName) SetFlag("name", s);
  std::string raw;
  PsDoc d = Render(c, text, src, &raw);
  if (w == kName) SetFlag("name", w == kName ? plain : "");
  PsDoc b = Render(c, ptext, w == kSource ? plain : src);
  if (w == kName) SetFlag("name", "");
  auto head = [&](const std::string& m) { return m + "\n" + kWhere[w] + std::string(" '") + Esc(s) + "'"; };
  c.check(d.pages.size() == 2 && b.pages.size() == 2, "pages", head(fmt("%zu pages", d.pages.size())));
  for (int k = 0; k < 2; k++) {
    PsPage &x = d.pages[k], &y = b.pages[k];
    std::string why;
    c.check(x.device_sets == 1, "pages", head("not one setpagedevice on a page"));
    c.check(SameLines(x.lines, y.lines, 1e-6, &why), "lines", head("the lines differ from those of a plain text: " + why));
    c.check(SameArcs(x.arcs, y.arcs, 1e-6, &why), "arcs", head(why));
    c.check(x.texts.size() == y.texts.size(), "texts", head(fmt("%zu texts instead of %zu", x.texts.size(), y.texts.size())));
    for (size_t i = 0; i < x.texts.size(); i++) {
      PsText want = y.texts[i];
      const PsText& got = x.texts[i];
      bool meta = Near(want.x, 7, .01) && Near(want.y, 7, .01);
      if (k == 0) {
        if (Label(w) && want.s == plabel) want.s = label;
        if (w == kTitle && want.s == plain && want.ay < 9) want.s = s;
        if (w == kText || w == kTextLines) {
          // Which line of the text is it?
          int line = int(floor((306 - want.ay) / 12 + .5));
          std::string all = w == kText ? s : "x\n" + s + "\ny";
          std::vector<std::string> ls(1);
          for (char ch : all)
            if (ch == '\n')
              ls.push_back("");
            else
              ls.back() += ch;
          if (Near(want.ax, 396, .01) && line >= 0 && line < int(ls.size()) && Near(want.ay, 306 - 12 * line, .01)) want.s = ls[line];
        }
      }
      c.check(got.s == want.s || (meta && got.s.size() == want.s.size()), "text", head("'" + Esc(got.s) + "' is shown instead of '" + Esc(want.s) + "'"));
      c.check(Near(got.ax, want.ax, 1e-6) && Near(got.ay, want.ay, 1e-6) && Near(got.size, want.size, 1e-9), "place", head("'" + Esc(got.s) + "' is elsewhere"));
      c.check(Near(got.x, want.x, 1e-6) && Near(got.y, want.y, 1e-6), "place", head("'" + Esc(got.s) + "' is elsewhere"));
      if (Label(w) && k == 0 && want.s == label)  // centred across and along
        c.check(Near(got.cx(), got.ax, 1e-3) && Near(got.ay - got.y, .5 * got.size * .4, got.size * .2), "centre", head("a label is not centred on its anchor"));
    }
  }
  bool found = false;  // the text itself is there at all
  for (auto& t : d.pages[0].texts) found |= Label(w) ? t.s == label : w == kTitle ? t.s == s : true;
  c.check(found || s.empty(), "text", head("the text is not shown"));
  if (w == kName || w == kSource) {
    std::string l = w == kName ? "% Name: " : "% Source: ", one = s;
    for (char& ch : one)
      if (ch == '\n' || ch == '\r' || ch == '\f') ch = ' ';
    bool in = false;
    for (auto& x : d.comment_lines) in |= x == l + one;
    c.check(in, "comment", head("no comment '" + l + Esc(one) + "'\n" + Esc(d.comments.substr(0, 300))));
    c.check(d.comment_lines.size() == b.comment_lines.size(), "comment", head("more comments than with a plain text"));
  }
  c.outcome(kWhere[w]);
}

// ---------------------------------------------------------------- geometry
struct Model3 {
  const char* name;
  std::string path;
};
std::string ModelPath(Ctx& c, int m) {
  static const Mesh ring = Prism(8, 1.5, 0, 0, 0, 1, 10), box = Box({-1, -1, -1}, {1, 1, 1});
  if (m == 0) return "/dev/null";
  return m == 1 ? WriteFile(c.scratch, "box.stl", StlText(box)) : WriteFile(c.scratch, "ring.stl", StlText(ring));
}
const char* const kPoints[] = {"[0,0,0]",
                               "[1,0,0]",
                               "[0,-1,0]",
                               "[0,0,1]",
                               "[2,1,.5]",
                               "[.0000000000000000000000000000001,0,0]",
                               "[300000000000000000000000000000000000000,0,0]",
                               "[-300000000000000000000000000000000000000,300000000000000000000000000000000000000,300000000000000000000000000000000000000]",
                               "near([9,9,9])",
                               "[0,10000000000000000000000,0]",
                               "[1,.0000001,0]",
                               "center([1,0,0])"};
const int kNP = sizeof kPoints / sizeof *kPoints;
const char* const kScale[] = {"", "scale=1:2147483520;", "scale=2147483520:1;", "scale=-2:3;", "scale=1:1000000;"};
const char* const kAt[] = {"@[0,0];", "", "@[300000000000000000000000000000000000000,-300000000000000000000000000000000000000];", "@[.00000000000000000000000001,4];",
                           "@[4000000000000000000000000000000000000,0];"};
const char* const kView[] = {"view=\"Z+\";", "view=[30,20];", "view=[300000000000000000000000000000000000000,-300000000000000000000000000000000000000];", "view=[.000000001,90];"};

void WellFormed(Ctx& c, const std::string& text, int pages) {
  Result r = RunScript(text);
  c.traced();
  if (!r.ok) {
    c.check(r.out.empty(), "refused", "refused, but something is written\n" + text);
    c.check(!r.err.empty(), "silent", "refused without a word\n" + text);
    c.outcome("refused");
    return;
  }
  PsDoc d = RunPs(r.out);
  c.check(d.ok, "postscript", d.error + "\n" + text + r.out.substr(std::max(0, int(r.out.size()) - 1500)));
  c.check(int(d.pages.size()) == pages, "pages", text);
  auto fin = [&](double v) { c.check(std::isfinite(v), "finite", text); };
  for (auto& p : d.pages) {
    c.check(p.device_sets == 1, "pages", text);
    for (auto& l : p.lines) fin(l.x1), fin(l.y1), fin(l.x2), fin(l.y2);
    for (auto& a : p.arcs) fin(a.x), fin(a.y), fin(a.r), fin(a.a), fin(a.b);
    for (auto& t : p.texts) {
      fin(t.x), fin(t.y);
      c.check(t.s.find("nan") == std::string::npos && t.s.find("inf") == std::string::npos, "label", "'" + t.s + "' is no measure\n" + text);
    }
  }
  c.outcome("drawn");
}

void Calls(Ctx& c) {
  static const int kArgs[] = {4, 4, 4, 4, 4, 3, 3};  // dim, angle d d, d p, p d, p p; dia, rad
  static const int kBase[][4] = {{0, 1, 0, 4}, {4, 0, 1, 2}, {4, 0, 1, 2}, {4, 0, 1, 2}, {4, 0, 1, 2}, {4, 1, 1, 0}, {4, 1, 1, 0}};
  int kind = c.pick("call", 7), left = c.thorough ? 4 : 3;
  int p[4];
  for (int i = 0; i < kArgs[kind]; i++) {
    p[i] = kBase[kind][i];
    int k = left ? c.pick("point", kNP) : 0;
    if (k) left--, p[i] = (p[i] + k) % kNP;
  }
  auto ctx = [&](const char* what, int n) {
    int k = left ? c.pick(what, n) : 0;
    if (k) left--;
    return k;
  };
  int sc = ctx("scale", 5), at = ctx("at", 5), view = ctx("view", 4), model = ctx("model", 3), fm = ctx("fmt", 3);
  std::string call, f = fm == 0 ? "" : fm == 1 ? ",fmt=\"%200.99f\"" : ",fmt=\"(%f\"";
  std::string P[4];
  for (int i = 0; i < kArgs[kind]; i++) P[i] = kPoints[p[i]];
  if (kind == 0)
    call = "dim(at=" + P[0] + ",dir=" + P[1] + ",from=" + P[2] + ",to=" + P[3] + f + ");";
  else if (kind < 5)
    call = "angle(at=" + P[0] + ",apex=" + P[1] + (kind < 3 ? ",from_dir=" : ",from_point=") + P[2] + (kind % 2 ? ",to_dir=" : ",to_point=") + P[3] + f + ");";
  else
    call = std::string(kind == 5 ? "dia" : "rad") + "(at=" + P[0] + ",dir=" + P[1] + ",center=" + P[2] + f + ");";
  c.state(call + fmt(" %d %d %d %d", sc, at, view, model));
  if (!c.mine()) return;
  std::string text = "load m = " + Quote(ModelPath(c, (model + 2) % 3)) + ";\npage { draw m { " + kAt[at] + kScale[sc] + kView[view] + "\n" + call + " } }\npage { }\n";
  c.note(text);
  WellFormed(c, text, 2);
}

void Draws(Ctx& c) {
  int sc = c.pick("scale", 5), at = c.pick("at", 5), view = c.pick("view", 4), model = c.pick("model", 3), text = c.pick("text", 4), n = c.pick("pages", 3);
  c.state(fmt("draw %d %d %d %d %d %d", sc, at, view, model, text, n));
  if (!c.mine()) return;
  static const char* const kT[] = {"", "[\"\"]", "[\"a\\n\\n(b\"]", "[\"\\n\"]"};
  std::string s = "load m = " + Quote(ModelPath(c, model)) + ";\n";
  for (int i = 0; i < n; i++) {
    s += std::string("page { draw m { ") + kAt[at] + kScale[sc] + kView[view] + " }\n";
    if (text) s += std::string("text ") + kT[text] + " { " + kAt[(at + i) % 5] + " }\n";
    s += "}\n";
  }
  c.note(s);
  WellFormed(c, s, n);
}

// Models with numbers at the ends of what a number can be.
void Extremes(Ctx& c) {
  static const char* const kNum[] = {"0", "1e308", "-1e308", "1e200", "-1e155", "1e39", "1e-300", "4e-320", "-0", "1e18", "1e-160"};
  int nn = c.thorough ? 11 : 9;
  int shape = c.pick("shape", 3), left = 2, vert = 3;
  static const char* const kTri[] = {"0", "0", "1", "0", "0", "0", "1", "0", "0", "0", "1", "0"};
  std::string n[12];
  int used = 0;
  for (int i = 0; i < 12; i++) {
    n[i] = kTri[i];
    int k = left ? c.pick("number", nn + 1) : 0;
    if (k) left--, n[i] = kNum[k - 1], used |= 1 << i;
  }
  int sc = c.pick("scale", c.thorough ? 5 : 3), call = c.pick("call", 5), view = c.pick("view", 2);
  (void)vert;
  std::string facet = "facet normal " + n[0] + " " + n[1] + " " + n[2] + "\nouter loop\n";
  for (int v = 0; v < 3; v++) facet += "vertex " + n[3 + 3 * v] + " " + n[4 + 3 * v] + " " + n[5 + 3 * v] + "\n";
  facet += "endloop\nendfacet\n";
  std::string stl = "solid s\n" + facet;
  if (shape == 1) stl += "facet normal 0 0 1\nouter loop\nvertex -2 -2 -1\nvertex 2 -2 -1\nvertex 0 3 -1\nendloop\nendfacet\n";   // behind
  if (shape == 2) stl += "facet normal 0 0 1\nouter loop\nvertex -2 -2 1\nvertex 2 -2 1\nvertex 0 3 1.5\nendloop\nendfacet\n";  // before
  stl += "endsolid s\n";
  static const char* const kCall[] = {"", "dim(at=[0,0,0],dir=[1,1,0],from=near([0,0,0]),to=near([5,5,0]));", "dia(at=[3,3,0],dir=[1,1,0],center=[0,0,0]);",
                                      "rad(at=[3,3,0],dir=[1,1,0],center=[0,0,0]);", "angle(at=[1,2,0],apex=center([0,0,0]),from_dir=[1,0,0],to_point=near([9,9,0]));"};
  c.state(stl + fmt("%d %d %d", sc, call, view));
  if (!c.mine()) return;
  std::string text = "load m = " + Quote(WriteFile(c.scratch, "x.stl", stl)) + ";\npage { draw m { " + std::string(kScale[sc]) + kView[view] + " @[0,0];\n" + kCall[call] + " } }\n";
  c.note(text + stl);
  WellFormed(c, text, 1);
}

void Body(Ctx& c) {
  switch (c.pick("part", 5)) {
    case 4: return Long(c);
    case 0: return Strings(c);
    case 1: return Calls(c);
    case 2: return Draws(c);
    default: return Extremes(c);
  }
}
}  // namespace

int main(int argc, char** argv) {
  Model m;
  m.property = "C18";
  m.body = Body;
  m.quick_bound = m.thorough_bound = 1;
  m.rule =
      "10 places a string reaches the output (text, its lines, title, the four label formats, --name, script and model "
      "path) x every string of up to 3 (4) of 28 (16, 20) symbols - brackets, backslash, percent, line ends, NUL, digits, "
      "high bytes - against the same document with a plain text, and of every length to 300 (and some to 4096; 65536) with a special character or of these alone; dim, angle, dia and rad with up to 3 (4) departures from "
      "a valid call to degenerate, tiny and huge points, scales, offsets, views, models and formats; models with up to two "
      "extreme numbers. Every output is executed by a strict PostScript interpreter that knows a real's range.";
  m.assumptions = {"a PostScript real holds numbers up to 3.4e38"};
  return run(argc, argv, m);
}
