// C11: outlines and creases are drawn, smooth joins are not.
#include <algorithm>

#include "engine.h"
#include "hidden.h"
#include "model.h"
#include "page.h"
#include "solids.h"

using namespace mc;

namespace {
// Facets with their vertices listed in some order; the normal tells the side.
std::string Listed(const Mesh& m, const std::vector<int>& order, double len = 1) {
  std::string r = "solid x\n";
  for (size_t i = 0; i < m.size(); i++) {
    static const int kP[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};
    const V3* v[3] = {&m[i].a, &m[i].b, &m[i].c};
    auto vec = [](V3 p) { return StlNum(p.x) + " " + StlNum(p.y) + " " + StlNum(p.z); };
    r += "facet normal " + vec(unit(m[i].n()) * len) + "\nouter loop\n";
    for (int k : kP[order[i % order.size()]]) r += "vertex " + vec(*v[k]) + "\n";
    r += "endloop\nendfacet\n";
  }
  return r + "endsolid x\n";
}

void Judge(Ctx& c, const Mesh& m, const std::vector<int>& order, const ViewSpec& v, const std::string& what, double len = 1) {
  std::string stl = Listed(m, order, len);
  std::string text = "load s = " + Quote(WriteFile(c.scratch, "s.stl", stl)) + ";\npage { draw s { @[0,0]; view=" + v.script + "; } }\n";
  c.note(what + "\n" + text + stl);
  PsPage p = OnePage(c, text);
  View3 pv = Project(m, v.frame);
  Place pl = Placement(VisibleBox(m, v.frame, kEdgeOn), 1, 1, true, 0, 0);
  std::string kind;
  long n = 0;
  std::string why = JudgeLines(pv, pl, p.lines, &kind, &n);
  c.outcome(fmt("%zu", p.lines.size()));
  if (!why.empty()) c.fail(kind, why + "\n" + what + "\n" + text + stl);
  // Each edge once, where no two edges coincide.
  for (size_t i = 0; i < pv.edges.size(); i++) {
    auto& e = pv.edges[i];
    if (!e.sure) continue;
    V3 mid = e.a + (e.b - e.a) * .4321;
    double x = pl.X(mid.x), y = pl.Y(mid.y);
    bool alone = true;
    for (size_t k = 0; k < pv.edges.size(); k++) {
      auto& o = pv.edges[k];
      if (k != i && SegDist(x, y, pl.X(o.a.x), pl.Y(o.a.y), pl.X(o.b.x), pl.Y(o.b.y)) < .2) alone = false;
    }
    if (!alone) continue;
    int times = 0;
    for (auto& l : p.lines) times += PtSeg(x, y, l) < 2e-2 && hypot(l.x1 - l.x2, l.y1 - l.y2) > .05;
    c.check(times <= 1, "twice", fmt("an edge is drawn %d times at (%.3f,%.3f)\n", times, x, y) + what + "\n" + text + stl);
  }
}

// A sheet: a profile of unit steps in the x-z plane, extruded along y.
Mesh Sheet(const std::vector<double>& turn_deg, double first_deg, bool away, int diag, double wide = 1) {
  Mesh m;
  double x = 0, z = 0, a = first_deg * M_PI / 180;
  V3 p{0, 0, 0};
  for (size_t i = 0; i <= turn_deg.size(); i++) {
    x += cos(a), z += sin(a);
    V3 q{x, 0, z};
    V3 pu = p + V3{0, wide, 0}, qu = q + V3{0, wide, 0};
    if (diag >> (i % 4) & 1)
      Quad(&m, q, qu, pu, p);
    else
      Quad(&m, p, q, qu, pu);
    p = q;
    if (i < turn_deg.size()) a += turn_deg[i] * M_PI / 180;
  }
  if (away)
    for (auto& t : m) std::swap(t.b, t.c);
  return m;
}

const double kAngles[] = {0, .5, 2, 5, 8, 10, 11, 11.3, 11.44, 11.52, 11.7, 12, 13, 16, 20, 30, 45, 60, 80, 89, 100, 130, 160, 175};
const ViewSpec& SheetView(int i) {
  static const auto& v = *new std::vector<ViewSpec>{Named("Z+"), Angled(20, 15), Angled(-70, 30), Angled(115, -20), Angled(10, 50),
                                                    Named("Z-"), Angled(45, 180), Angled(200, -160)};
  return v[i];
}

void Hinge(Ctx& c) {
  int k = c.pick("angle", 2 * 24 - 1);
  double a = kAngles[(k + 1) / 2] * (k % 2 ? 1 : -1);
  int v = c.pick("view", 8), flip = c.pick("facing", 4), lay = c.pick("tilt", 3);
  int o1 = c.pick("order", 6), o2 = c.pick("order", 6);
  bool tri = c.pick("triangles", 2);
  c.state(fmt("hinge %g %d %d %d %d %d %d", a, v, flip, lay, o1, o2, tri));
  if (!c.thorough && tri && (o1 % 3 || o2 % 2)) c.prune();
  if (!c.thorough && !tri && o1 != o2 && (o1 + 1) % 6 != o2) c.prune();
  if (!c.mine()) return;
  static const double kTilt[] = {0, -25, 40};
  Mesh m = Sheet({a}, kTilt[lay] - a / 2, false, 0);
  if (tri) m = {{m[0].a, m[0].b, m[0].c}, {m[0].c, m[0].b, m[2].b}};  // the edge b-c, shared by two triangles
  size_t h = m.size() / 2;
  for (size_t i = 0; i < m.size(); i++)
    if (flip >> (i >= h) & 1) std::swap(m[i].b, m[i].c);
  Judge(c, m, tri ? std::vector<int>{o1, o2} : std::vector<int>{o1, o2, o2, o1}, SheetView(v),
        fmt("hinge of %g degrees, facing %d", a, flip));
}

void Strip(Ctx& c) {
  static const double kT[] = {6, 20, -20, -6, 70, 11.3, -11.7, 0};
  int n = 2 + c.pick("joins", c.thorough ? 4 : 3);
  std::vector<double> t;
  std::string key = "strip";
  for (int i = 0; i < n; i++) {
    t.push_back(kT[c.pick("turn", n > 4 ? 4 : n > 3 ? 6 : 8)]);
    key += fmt(" %g", t.back());
    c.state(key);
  }
  int v = c.pick("view", c.thorough ? 8 : 3), diag = c.pick("diagonals", 2), order = c.pick("order", c.thorough ? 3 : 1), away = c.pick("away", 2);
  if (!c.mine()) return;
  Mesh m = Sheet(t, -15, away, diag ? 5 : 0, 1.5);
  static const std::vector<int> kO[] = {{0, 3, 1, 4, 2, 5}, {5, 5, 0}, {2}};
  Judge(c, m, kO[order], SheetView(v), key + (away ? " away" : ""), diag ? 3 : .125);
}

void Round(Ctx& c) {
  // Prisms: at 31 sides the turn is 11.6 degrees, at 32 it is 11.25.
  int n = 3 + c.pick("sides", 46), v = c.pick("view", 8), cone = c.pick("cone", 3);
  c.state(fmt("round %d %d %d", n, v, cone));
  if (!c.mine()) return;
  static const auto& vs = *new std::vector<ViewSpec>{Named("X+"), Named("Z+"), Angled(20, 75), Angled(-10, 40), Angled(77, 110), Named("Y-"), Angled(3, 90), Angled(0, 0)};
  Mesh m;
  if (cone == 0) {
    m = Prism(n, 1.5, .25, -.5, 0, 1, 3);
  } else {
    for (int i = 0; i < n; i++) {
      auto P = [&](int k) {
        double a = 2 * M_PI * k / n + .05;
        return V3{1.5 * cos(a), 1.5 * sin(a), 0};
      };
      V3 p = P(i), q = P((i + 1) % n);
      m.push_back({p, q, {0, 0, cone == 1 ? 1. : 3.}});
      m.push_back({q, p, {0, 0, 0}});
    }
  }
  Judge(c, m, {0, 4, 2}, vs[v], fmt("%s of %d sides", cone ? "cone" : "prism", n));
}

// Many facets: long sheets with sharp and smooth joins in turn, balls.
void Big(Ctx& c) {
  static const int kN[] = {20, 40, 62, 63, 64, 65, 66, 84, 85, 86, 100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300, 400, 511, 512, 513, 700, 1023, 1025};
  int n = c.pick("size", 29 + 4), v = c.pick("view", c.thorough ? 8 : 4), order = c.pick("order", 4), away = c.pick("away", 2);
  c.state(fmt("big %d %d %d %d", n, v, order, away));
  if (!c.mine()) return;
  Mesh m;
  std::string what;
  if (n < 29) {
    std::vector<double> t;
    static const double kT[] = {20, -20, 6, 13, -6, -13, 9, -9};
    for (int i = 0; i < kN[n]; i++) t.push_back(kT[i % 8]);
    m = Moved(Sheet(t, 0, away, 5), {0, 0, 0}, std::min(1., 30. / kN[n]));  // on paper that six digits can place
    what = fmt("sheet of %d joins", kN[n]);
  } else {
    static const int kB[][2] = {{24, 12}, {30, 9}, {33, 17}, {60, 15}};
    m = Ball(kB[n - 29][0], kB[n - 29][1]);
    if (away)
      for (auto& t : m) std::swap(t.b, t.c);
    what = fmt("ball of %d by %d", kB[n - 29][0], kB[n - 29][1]);
  }
  if (order == 1) std::reverse(m.begin(), m.end());
  if (order == 2) std::rotate(m.begin(), m.begin() + m.size() / 2 + 1, m.end());
  if (order == 3) {  // neighbours far from each other
    Mesh a, b;
    for (size_t i = 0; i < m.size(); i++) (i % 2 ? b : a).push_back(m[i]);
    a.insert(a.end(), b.begin(), b.end());
    m = a;
  }
  Judge(c, m, {0, 4, 2}, SheetView(v == 3 ? 5 : v), what + (away ? " away" : ""));
}

void Body(Ctx& c) {
  switch (c.pick("part", 4)) {
    case 3: return Big(c);
    case 0: return Hinge(c);
    case 1: return Strip(c);
    default: return Round(c);
  }
}
}  // namespace

int main(int argc, char** argv) {
  Model m;
  m.property = "C11";
  m.body = Body;
  m.quick_bound = m.thorough_bound = 1;
  m.rule =
      "hinges of 47 angles (both ways, 0.04 degrees from the limit on each side) x 3 tilts x 8 views x facing of each "
      "side x vertex orders, as quads and as single triangles; strips of 2 to 4 (5) joins from 8 angles x views x "
      "diagonals; prisms and cones of 3 to 48 sides x 8 views; sheets of up to 1025 joins, sharp and smooth in turn, and balls of up to 1700 facets, in 4 facet orders x 4 (8) views.";
  m.assumptions = {"normals between cosines .9799 and .9801 may go either way"};
  return run(argc, argv, m);
}
