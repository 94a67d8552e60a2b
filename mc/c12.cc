// C12: STL reading.
#include <set>

#include "engine.h"
#include "hidden.h"
#include "model.h"
#include "page.h"
#include "solids.h"

#include <cstring>

using namespace mc;

namespace {
enum Verdict { kRead, kRefuse, kEither };

// What a list of lines means.  Lines are known to the model by kind.
struct Ln {
  enum Kind { kSolid, kEndSolid, kFacet, kLoop, kVertex, kEndLoop, kEndFacet, kJunk } k;
  V3 v;  // normal or vertex
  std::string text;
};
Verdict Read(const std::vector<Ln>& ls, Mesh* m) {
  bool in_facet = false, odd = false, in_loop = false, in_solid = false;
  V3 n;
  std::vector<V3> p;
  for (auto& l : ls) switch (l.k) {
      case Ln::kSolid:
        odd |= in_solid || in_facet;
        in_solid = true;
        break;
      case Ln::kEndSolid:
        odd |= !in_solid || in_facet;
        in_solid = false;
        break;
      case Ln::kFacet:
        if (in_facet) return kRefuse;
        odd |= !in_solid;
        in_facet = true;
        n = l.v;
        p.clear();
        break;
      case Ln::kLoop:
        odd |= !in_facet || in_loop || !p.empty();
        in_loop = true;
        break;
      case Ln::kVertex:
        if (!in_facet) return kRefuse;
        odd |= !in_loop;
        p.push_back(l.v);
        break;
      case Ln::kEndLoop:
        odd |= !in_loop || p.size() != 3;
        in_loop = false;
        break;
      case Ln::kEndFacet: {
        if (!in_facet || p.size() != 3) return kRefuse;
        odd |= in_loop;
        in_facet = in_loop = false;
        if (n.x == 0 && n.y == 0 && n.z == 0) break;
        Tri t{p[0], p[1], p[2]};
        if (dot(t.n(), n) < 0) std::swap(t.a, t.c);
        if (norm(t.n()) > 1e-12) m->push_back(t);
        break;
      }
      case Ln::kJunk: return kRefuse;
    }
  if (in_facet) return kRefuse;
  if (in_solid) odd = true;
  return odd ? kEither : kRead;
}

std::string Vec(V3 p) { return StlNum(p.x) + " " + StlNum(p.y) + " " + StlNum(p.z); }
Ln L(Ln::Kind k, V3 v = {}) {
  static const char* kT[] = {"solid x", "endsolid x", " facet normal ", "  outer loop", "   vertex ", "  endloop", " endfacet"};
  Ln l{k, v, kT[k]};
  if (k == Ln::kFacet || k == Ln::kVertex) l.text += Vec(v);
  return l;
}
Ln Junk(const std::string& s) { return {Ln::kJunk, {}, s}; }

void Judge(Ctx& c, const std::vector<Ln>& ls, const std::string& stl, const std::string& view = "Z+") {
  Mesh m;
  Verdict want = Read(ls, &m);
  std::string text = "load s = " + Quote(WriteFile(c.scratch, "s.stl", stl)) + ";\npage { draw s { @[0,0]; view=" + Quote(view) + "; } }\n";
  c.note(text + stl);
  Result r = RunScript(text);
  c.traced();
  if (want == kRefuse) {
    c.check(!r.ok && r.out.empty(), "accepted", "a model that is not STL is accepted\n" + stl);
    c.outcome("refused");
    return;
  }
  if (!r.ok) {
    c.check(want == kEither, "refused", "a well-formed model is refused\n" + stl + r.err);
    c.check(r.out.empty(), "partial", "output though the run failed\n" + stl);
    c.outcome("refused oddity");
    return;
  }
  PsDoc d = RunPs(r.out);
  c.check(d.ok && d.pages.size() == 1, "postscript", d.error + "\n" + text);
  PsPage p;
  Furniture f;
  std::string why, kind;
  c.check(Strip(d.pages[0], &p, &f, &why), "furniture", why);
  Frame fr = NamedView(view);
  View3 pv = Project(m, fr);
  long n = 0;
  why = JudgeLines(pv, Placement(VisibleBox(m, fr, kEdgeOn), 1, 1, true, 0, 0), p.lines, &kind, &n);
  c.outcome(fmt("drawn %zu", p.lines.size()));
  if (!why.empty()) c.fail(kind, why + "\n" + stl);
  if (pv.edges.empty()) {
    for (auto& l : p.lines) c.check(hypot(l.x1 - l.x2, l.y1 - l.y2) < .1, "lines from nowhere", stl + Show(l));
  }
}
std::string Join(const std::vector<Ln>& ls, const std::string& eol = "\n") {
  std::string s;
  for (auto& l : ls) s += l.text + eol;
  return s;
}

// The k-th vertex written: three to a triangle, triangles apart.
V3 Spot(int k) {
  static const double kX[] = {0, 1, .25}, kY[] = {0, .125, 1};
  int t = k / 3;
  return {kX[k % 3] + 1.5 * (t % 3), kY[k % 3] + 1.25 * (t / 3), .0625 * t};
}

std::vector<Ln> Base() {
  std::vector<Ln> b = {L(Ln::kSolid)};
  for (int i = 0; i < 2; i++) {
    b.push_back(L(Ln::kFacet, {0, 0, 1}));
    b.push_back(L(Ln::kLoop));
    for (int k = 0; k < 3; k++) b.push_back(L(Ln::kVertex, Spot(3 * i + k)));
    b.push_back(L(Ln::kEndLoop));
    b.push_back(L(Ln::kEndFacet));
  }
  b.push_back(L(Ln::kEndSolid));
  return b;
}
const std::vector<Ln>& Alphabet() {
  static const auto& a = *new std::vector<Ln>{
      L(Ln::kSolid), L(Ln::kEndSolid), L(Ln::kFacet, {0, 0, 1}), L(Ln::kFacet, {0, 0, -2}), L(Ln::kFacet, {0, 0, 0}),
      L(Ln::kLoop), L(Ln::kVertex, {2, 3, .5}), L(Ln::kVertex, {0, 0, 0}), L(Ln::kEndLoop), L(Ln::kEndFacet),
      Junk("junk"), Junk("vertex 1 2"), Junk("vertex 1 2 3 4"), Junk("vertex 1 2 x"), Junk("vertex 1 2 1e"),
      Junk("vertex 1,2,3"), Junk("facet normal 0 1"), Junk("facet normal 0 0 z"), Junk("facet"), Junk("facet 0 0 1"),
      Junk("outer"), Junk("loop"), Junk("outer loop outer loop"), Junk("endfacet x"), Junk("end"), Junk("solidx"),
      Junk("Vertex 1 2 3"), Junk("vertex 1 2 3 // x"), Junk("vertex1 2 3"), Junk("x vertex 1 2 3"), Junk("vertex 1 2 --3"),
      Junk("vertex 1 2 3.4.5"), Junk("vertex 1 2 -"), Junk("vertex . 1 2"), Junk("facet normal 1e999 0 1"),
      Junk("facet normal 0 0 1 endfacet"), Junk("vertex 0x1 0 0"), Junk("vertex nan 0 0"), Junk("vertex inf 0 0"), Junk("vertex 1 2 3\v"), Junk("endloop endfacet")};
  return a;
}

void Edits(Ctx& c) {
  auto ls = Base();
  int n = c.choose("edits", c.bound + 1, 0);
  std::string key;
  for (int e = 0; e < n; e++) {
    int op = c.pick("op", 5), at = c.pick("at", ls.size());
    switch (op) {
      case 0: ls.erase(ls.begin() + at); break;
      case 1: ls.insert(ls.begin() + at, ls[at]); break;
      case 2:
        if (at + 1 < int(ls.size())) std::swap(ls[at], ls[at + 1]);
        break;
      case 3: ls.insert(ls.begin() + at, Alphabet()[c.pick("line", Alphabet().size())]); break;
      case 4: ls[at] = Alphabet()[c.pick("line", Alphabet().size())]; break;
    }
    key = Join(ls);
    c.state(key);
  }
  int nl = c.pick("last newline", 2);
  if (!c.mine()) return;
  std::string t = Join(ls);
  if (nl && !t.empty()) t.pop_back();
  Judge(c, ls, t);
}

// Files cut short, at every byte.
void Cut(Ctx& c) {
  auto ls = Base();
  ls[2].text += " ", ls.back().text += " y";
  int line = c.pick("line", ls.size()), at = c.pick("byte", ls[line].text.size() + 1), nl = c.pick("last newline", 2);
  c.state(fmt("cut %d %d", line, at));
  if (!at && (nl || !line)) c.prune();  // a blank line, or nothing
  if (!c.mine()) return;
  ls.resize(line + 1);
  Ln& l = ls.back();
  std::string full = l.text;
  l.text.resize(at);
  auto trim = [](std::string x) { return x.substr(0, x.find_last_not_of(' ') + 1); };
  auto words = [](const std::string& x) {
    int n = 0;
    for (size_t i = 0; i < x.size(); i++) n += x[i] != ' ' && (!i || x[i - 1] == ' ');
    return n;
  };
  bool whole = trim(l.text) == trim(full);
  if (l.k == Ln::kSolid || l.k == Ln::kEndSolid) whole = l.text.compare(0, l.k == Ln::kSolid ? 5 : 8, l.k == Ln::kSolid ? "solid" : "endsolid") == 0;
  if (l.k == Ln::kVertex || l.k == Ln::kFacet) {  // other numbers, perhaps
    bool digit = !l.text.empty() && strchr("0123456789 ", l.text.back());
    if (words(l.text) == words(full) && (digit || l.text.back() == '.')) whole = true;
  }
  if (!whole) l = Junk(l.text);
  if (!at) ls.pop_back();
  std::string t = Join(ls);
  if (!nl && at) t.pop_back();
  Judge(c, ls, t);
}

void Words(Ctx& c) {
  static const Ln::Kind kK[] = {Ln::kFacet, Ln::kFacet, Ln::kVertex, Ln::kEndFacet, Ln::kSolid, Ln::kLoop, Ln::kEndLoop, Ln::kEndSolid};
  std::vector<Ln> ls;
  int depth = c.thorough ? 9 : 7, v = 0;
  std::string key = "w";
  // a solid, and a good facet first or not
  if (c.pick("start", 2)) {
    ls = Base();
    ls.resize(8);
    v = 3;
  }
  // Runs of three vertices count as one step.
  for (int i = 0; i < depth; i++) {
    int k = c.pick("line", i < depth - 3 ? 7 : 6);
    if (k == 0) break;
    k--;
    if (k == 5) {
      for (int j = 0; j < 3; j++) ls.push_back(L(Ln::kVertex, Spot(v++)));
    } else {
      static const int kMap[] = {0, 1, 2, 3, 4};
      Ln::Kind kk = kK[kMap[k]];
      V3 p{0, 0, k == 1 ? 0. : 1.};
      if (kk == Ln::kVertex) p = Spot(v++);
      ls.push_back(L(kk, p));
    }
    key += char('0' + k);
    c.state(key);
  }
  if (!c.mine()) return;
  Judge(c, ls, Join(ls));
}

// Is it a number, and which?  sign? (digits (. digits?)? | . digits) (e sign? digits)?
bool Number(const std::string& s, double* v, bool* sure) {
  size_t i = 0, d = 0;
  *sure = true;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++;
  while (i < s.size() && isdigit(s[i])) i++, d++;
  if (i < s.size() && s[i] == '.') {
    i++;
    while (i < s.size() && isdigit(s[i])) i++, d++;
  }
  if (!d) return false;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    i++;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++;
    size_t k = i;
    while (i < s.size() && isdigit(s[i])) i++;
    if (k == i) return false;
  }
  if (i != s.size()) return false;
  *v = strtod(s.c_str(), nullptr);
  if (!std::isfinite(*v)) return false;
  bool digit = s.substr(0, s.find_first_of("eE")).find_first_of("123456789") != std::string::npos;
  if ((fabs(*v) < 1e-300 && digit) || fabs(*v) > 900) *sure = false;  // out of a drawing's range
  return true;
}

void Numbers(Ctx& c) {
  static const char kCh[] = "-.e17+E0";
  int n = 1 + c.pick("length", c.thorough ? 6 : 5);
  std::string s;
  for (int i = 0; i < n; i++) s += kCh[c.pick("char", n > 5 ? 6 : 8)];
  int where = c.pick("where", 3);
  c.state(s + fmt(" %d", where));
  if (where == 2 && n > 3) c.prune();
  double v = 0;
  bool sure;
  bool ok = Number(s, &v, &sure);
  if (ok && !sure) c.prune();
  if (!c.mine()) return;
  V3 p[3] = {{0, 0, 0}, {4, 0, 0}, {.5, 3, 0}}, nn{0, 0, 1};
  if (where == 0) p[2].y = v;
  if (where == 1) nn.z = v;
  if (where == 2) p[1].x = v;
  std::vector<Ln> ls = {L(Ln::kSolid), L(Ln::kFacet, nn), L(Ln::kLoop), L(Ln::kVertex, p[0]), L(Ln::kVertex, p[1]), L(Ln::kVertex, p[2]), L(Ln::kEndLoop), L(Ln::kEndFacet), L(Ln::kEndSolid)};
  if (where == 0) ls[5].text = "vertex .5 " + s + " 0";
  if (where == 1) ls[1].text = "facet normal 0 0 " + s;
  if (where == 2) ls[4].text = "vertex " + s + " 0 0";
  if (!ok) ls[where == 0 ? 5 : where == 1 ? 1 : 4].k = Ln::kJunk;
  if (ok && where != 1 && fabs(v) < 1e-3 && v != 0) {  // too thin a triangle to judge: only read
    std::string text = "load s = " + Quote(WriteFile(c.scratch, "s.stl", Join(ls))) + ";\npage { draw s { @[0,0]; } }\n";
    c.note(text + Join(ls));
    Result r = RunScript(text);
    c.traced();
    c.check(r.ok, "refused", "a well-formed model is refused\n" + Join(ls) + r.err);
    return;
  }
  Judge(c, ls, Join(ls));
}

void Spaces(Ctx& c) {
  // Indentation, spaces between and after, names.
  auto ls = Base();
  int in = c.pick("indent", 4), gap = 1 + c.pick("gap", 3), tail = c.pick("tail", 3), name = c.pick("name", 6), nl = c.pick("last", 2), several = c.pick("solids", 2);
  c.state(fmt("sp %d %d %d %d %d %d", in, gap, tail, name, nl, several));
  if (!c.mine()) return;
  static const char* kName[] = {"", " ", " a name", " facet normal 0 0 1", "  (~!@#$%^&*)", " endsolid"};
  std::string s;
  if (several) {
    auto b = Base();
    for (auto& l : b) {
      if (l.k == Ln::kVertex) l = L(Ln::kVertex, l.v + V3{0, 2, 0});
      ls.push_back(l);
    }
  }
  int i = 0;
  for (auto& l : ls) {
    std::string t = l.text.substr(l.text.find_first_not_of(' '));
    if (l.k == Ln::kSolid) t = std::string("solid") + kName[name];
    if (l.k == Ln::kEndSolid) t = std::string("endsolid") + kName[name];
    if (l.k == Ln::kVertex || l.k == Ln::kFacet) {
      std::string head = l.k == Ln::kVertex ? "vertex" : "facet normal", g(gap, ' ');
      t = head + g + StlNum(l.v.x) + g + StlNum(l.v.y) + (gap == 3 ? " " : g) + StlNum(l.v.z);
    }
    s += std::string(in == 3 ? i++ % 9 : in * 2, ' ') + t + std::string(l.k == Ln::kSolid || l.k == Ln::kEndSolid ? 0 : tail, ' ') + "\n";
  }
  if (nl) s.pop_back();
  Judge(c, ls, s);
}

void Normals(Ctx& c) {
  // Facing: every normal from a small cube of directions, every winding.
  static const double kV[] = {0, 1, -1, .001, -3};
  V3 n{kV[c.pick("nx", 5)], kV[c.pick("ny", 5)], kV[c.pick("nz", 5)]};
  int ord = c.pick("order", 6), view = c.pick("view", 2), tri = c.pick("triangle", 2);
  c.state(fmt("n %g %g %g %d %d %d", n.x, n.y, n.z, ord, view, tri));
  static const int kP[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};
  V3 p[2][3] = {{{0, 0, 0}, {2, .5, 0}, {.25, 1.5, 0}}, {{0, 0, 0}, {2, .5, 1}, {.25, 1.5, -.5}}};
  std::vector<Ln> ls = {L(Ln::kSolid), L(Ln::kFacet, n), L(Ln::kLoop)};
  for (int k : kP[ord]) ls.push_back(L(Ln::kVertex, p[tri][k]));
  for (auto k : {Ln::kEndLoop, Ln::kEndFacet, Ln::kEndSolid}) ls.push_back(L(k));
  Tri t{p[tri][0], p[tri][1], p[tri][2]};
  if (norm(n) && fabs(dot(unit(t.n()), n)) < 1e-9) c.prune();  // names no side
  if (!c.mine()) return;
  Judge(c, ls, Join(ls), view ? "Z-" : "Z+");
}

// One long thing.
void Long(Ctx& c) {
  static const int kBig[] = {255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65535, 65536, 65537};
  int n = c.pick("length", 150 + 18), what = c.pick("what", 15), end = c.pick("end", 2);
  bool number = what >= 10;
  if (number && n >= 150) c.prune();
  n = n < 150 ? n + 1 : kBig[n - 150];
  c.state(fmt("long %d %d %d", what, n, end));
  if (!c.mine()) return;
  auto ls = Base();
  std::string z(n, '0'), sp(n, ' ');
  int seen = 0;
  for (auto& l : ls) {
    std::string& t = l.text;
    if (t[0] == ' ' && what == int(l.k)) t = sp + t.substr(t.find_first_not_of(' '));
    if (what == 0 && (l.k == Ln::kSolid || l.k == Ln::kEndSolid)) t = sp + t;
    if (what == 1 && l.k == (end ? Ln::kEndSolid : Ln::kSolid)) t += std::string(n, 'x');
    if (what == 7 && l.k == (end ? Ln::kFacet : Ln::kVertex)) t.replace(t.find(' ', t.find_first_of("0123456789")), 1, sp);
    if (what == 8 && l.k == (end ? Ln::kFacet : Ln::kVertex)) t.insert(t.find_first_of("0123456789"), sp);
    if (what == 9 && l.k != Ln::kSolid && l.k != Ln::kEndSolid) t += sp;
    if (!number || l.k != (end ? Ln::kFacet : Ln::kVertex)) continue;
    double v[3] = {l.v.x, l.v.y, l.v.z};
    t = end ? "facet normal" : "vertex";
    for (int i = 0; i < 3; i++) {
      std::string q = StlNum(v[i]);
      if (q.find('.') == std::string::npos) q += ".";
      if (i == seen % 3) {
        if (what == 10) q = z + q;
        if (what == 11) q += z;
        if (what == 12) q += "e+" + z;
        if (what == 13) q += "E-" + z;
        if (what == 14) q += "e0" + z;
      }
      t += " " + q;
    }
    seen++;
  }
  Judge(c, ls, Join(ls));
}

// Many facets: each is drawn.
void Many(Ctx& c) {
  static const int kBig[] = {127, 128, 129, 150, 199, 200, 255, 256, 257, 300, 400, 511, 512, 513, 600, 999, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049};
  int n = c.pick("count", 100 + (c.thorough ? 24 : 21)), form = c.pick("form", 4);
  n = n < 100 ? n + 1 : kBig[n - 100];
  if (n > 600 && form) c.prune();
  c.state(fmt("many %d %d", n, form));
  if (!c.mine()) return;
  int w = int(ceil(sqrt(double(n))));
  std::string s = "solid x\n";
  std::vector<PsLine> want;
  double cell = 8. / w, x1 = 0, y1 = 0;
  for (int i = 0; i < n; i++) {
    double x = i % w * cell, y = i / w * cell;
    V3 p[3] = {{x, y, 0}, {x + .75 * cell, y, 0}, {x, y + .75 * cell, 0}};
    x1 = std::max(x1, p[1].x), y1 = std::max(y1, p[2].y);
    if (form == 3 && i % 5 != 1) {  // turned away
      s += "facet normal 0 0 -1\nouter loop\n";
      for (auto& q : p) s += "vertex " + Vec({q.x + .01, q.y, q.z + .3 * (i % 3)}) + "\n";
      s += "endloop\nendfacet\n";
    }
    s += "facet normal 0 0 1\nouter loop\n";
    for (auto& q : p) s += "vertex " + Vec(q) + "\n";
    s += "endloop\nendfacet\n";
    if (form == 1 && i % 7 == 6) s += "endsolid x\nsolid y\n";
    if (form == 2) s += "facet normal 0 0 0\nouter loop\nvertex 0 0 0\nvertex 1 0 0\nvertex 9 9 9\nendloop\nendfacet\n";
    for (int k = 0; k < 3; k++) want.push_back({p[k].x, p[k].y, p[(k + 1) % 3].x, p[(k + 1) % 3].y});
  }
  s += "endsolid x\n";
  std::string text = "load s = " + Quote(WriteFile(c.scratch, "many.stl", s)) + ";\npage { draw s { @[0,0]; } }\n";
  c.note(fmt("%d facets in a grid of %d columns", n, w));
  PsPage p = OnePage(c, text);
  for (auto& l : want) {
    l.x1 = 396 + 72 * (l.x1 - x1 / 2), l.x2 = 396 + 72 * (l.x2 - x1 / 2);
    l.y1 = 306 + 72 * (l.y1 - y1 / 2), l.y2 = 306 + 72 * (l.y2 - y1 / 2);
  }
  std::string why;
  c.check(SameLines(want, p.lines, 1e-2, &why), "many", fmt("%d facets, %zu lines: ", n, p.lines.size()) + why);
  c.outcome("many");
}

void Body(Ctx& c) {
  switch (c.pick("part", 8)) {
    case 7: return Cut(c);
    case 6: return Long(c);
    case 5: return Many(c);
    case 0: return Edits(c);
    case 1: return Words(c);
    case 2: return Numbers(c);
    case 3: return Spaces(c);
    default: return Normals(c);
  }
}
}  // namespace

int main(int argc, char** argv) {
  Model m;
  m.property = "C12";
  m.body = Body;
  m.quick_bound = 1;
  m.thorough_bound = 2;
  m.rule =
      "every single edit (thorough: every two edits) - delete, double, swap, insert or replace by any of 41 lines - of a "
      "model of two facets, the last line ended or not; the model cut at every byte; every sequence of up to 7 (9) steps over {facet, facet without normal, vertex, three "
      "vertexes, endfacet, solid}; every spelling of up to 5 (6) characters of '-.e17+E0' as coordinate and as normal; "
      "indentations, gaps, names; indentations, gaps, tails and names of every length to 150 (and some to 65537), numbers of up "
      "to 150 digits; every normal from 5x5x5 directions x vertex orders x facing; every number of separate facets to 100 and some to 1500 (2049).";
  m.assumptions = {"numbers of some 200 characters may be refused", "files with loop or solid lines out of place may be refused or read in full"};
  return run(argc, argv, m);
}
