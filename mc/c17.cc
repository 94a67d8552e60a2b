// C17: near() finds the nearest vertex of the faces turned to the viewer.
#include <algorithm>

#include "engine.h"
#include "hidden.h"
#include "model.h"
#include "page.h"
#include "solids.h"

using namespace mc;

namespace {
struct Thing {
  const char* name;
  Mesh m;
};
Mesh Facing(V3 d, double k) {  // one triangle facing +Z
  return {{d, d + V3{k, 0, 0}, d + V3{0, k, 0}}};
}
const std::vector<Thing>& Things() {
  static const auto& t = *new std::vector<Thing>([] {
    std::vector<Thing> r;
    r.push_back({"box", Box({-1, -.5, -.25}, {1, .75, .5})});
    r.push_back({"tetra", Moved(Tetra(), {.5, -1, .25}, 2)});
    r.push_back({"frame", Moved(Frame3(), {-1, -1, 3})});
    r.push_back({"stairs", Voxels(2, 2, 2, 0x17, {1, .625, 1.375})});
    r.push_back({"ring", Prism(7, 1.5, .25, -.5, 0, 1, 11)});
    r.push_back({"far", Moved(Pyramid(), {300, -200, 120}, 4)});
    Mesh two = Box({0, 0, 0}, {1, 1, 1});
    for (auto& x : Moved(Wedge(), {2.5, -.5, -1}, 1.5)) two.push_back(x);
    r.push_back({"two", two});
    Mesh sheets = Facing({0, 0, 0}, 2);  // the same picture at several depths
    for (auto& x : Facing({0, 0, 1}, 2)) sheets.push_back(x);
    for (auto& x : Facing({1, 1, -3}, -2)) sheets.push_back(x);
    r.push_back({"sheets", sheets});
    // Coordinates are read as they are, so keep them exact as floats.
    for (auto& x : r)
      for (auto& q : x.m)
        for (V3* p : {&q.a, &q.b, &q.c}) *p = {float(p->x), float(p->y), float(p->z)};
    return r;
  }());
  return t;
}
V3 Fl(V3 p) { return {float(p.x), float(p.y), float(p.z)}; }

struct Vx {
  V3 model, view;
};
// The vertices of faces turned to the viewer; *sure: no face is nearly edge-on.
std::vector<Vx> Shown(const Mesh& m, const Frame& f) {
  std::vector<Vx> r;
  for (auto& t : m) {
    if (dot(unit(t.n()), f.w) < 1e-6) continue;
    for (V3 q : {t.a, t.b, t.c}) {
      bool dup = false;
      for (auto& o : r) dup |= norm(o.model - q) == 0;
      if (!dup) r.push_back({q, f.map(q)});
    }
  }
  return r;
}
double Planar(V3 a, V3 b) { return hypot(a.x - b.x, a.y - b.y); }

enum How { kFrom, kTo, kAt, kNearNear, kApex, kArm, kCount };

void Query(Ctx& c) {
  auto& th = Things()[c.pick("model", Things().size())];
  auto& v = Views(c.thorough)[c.pick("view", c.thorough ? 40 : Views(false).size())];
  const Frame& f = v.frame;
  std::vector<Vx> vs = Shown(th.m, f);
  if (vs.empty()) c.prune();
  double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300}, depth = 0;
  for (auto& x : vs) {
    lo[0] = std::min(lo[0], x.view.x), hi[0] = std::max(hi[0], x.view.x);
    lo[1] = std::min(lo[1], x.view.y), hi[1] = std::max(hi[1], x.view.y);
    depth = std::max(depth, x.view.z);
  }
  int kind = c.pick("query", 5), how = c.pick("how", kCount);
  V3 q;
  bool exact = false;
  std::string what;
  if (kind == 0 || kind == 1) {  // a grid over and around the model, in the view plane or before it
    int g = c.thorough ? 15 : 9;
    int x = c.pick("x", g), y = c.pick("y", g);
    double px = lo[0] + (hi[0] - lo[0]) * (2. * x / (g - 1) - .5), py = lo[1] + (hi[1] - lo[1]) * (2. * y / (g - 1) - .5);
    q = Fl(f.r * px + f.u * py + f.w * (kind ? depth + 1.7 : 0));
    what = fmt("grid %d %d", x, y);
    if (kind == 1 && how != kFrom) c.prune();
  } else if (kind == 4) {  // a long way off
    static const double kOff[] = {40, 700, 5e3, 3e4, 2e6, 1e8, 1e11, 1e15, 1e22};
    int o = c.pick("off", 9), a = c.pick("angle", c.thorough ? 24 : 8);
    if (how != kFrom && how != kNearNear && how != kAt) c.prune();
    double t = .3 + a * 2 * M_PI / (c.thorough ? 24 : 8);
    q = Fl(f.r * (kOff[o] * cos(t)) + f.u * (kOff[o] * sin(t)) + f.w * (a % 3 ? 0 : kOff[o] / 7));
    what = fmt("off %d %d", o, a);
  } else if (kind == 2) {  // every vertex, exactly
    int i = c.pick("vertex", 40);
    if (i >= int(vs.size())) c.prune();
    q = vs[i].model;
    exact = true;
    what = fmt("vertex %d", i);
  } else {  // every vertex of the model, shown or not, moved a little
    int i = c.pick("vertex", 40), d = c.pick("moved", 4);
    std::vector<V3> all;
    for (auto& t : th.m)
      for (V3 p : {t.a, t.b, t.c}) {
        bool dup = false;
        for (auto& o : all) dup |= norm(o - p) == 0;
        if (!dup) all.push_back(p);
      }
    if (i >= int(all.size())) c.prune();
    static const double kD[4][3] = {{.02, .01, 0}, {-.003, .002, .5}, {.0625, -.03, -2}, {0, 0, 3}};
    q = Fl(all[i] + f.r * kD[d][0] + f.u * kD[d][1] + f.w * kD[d][2]);
    what = fmt("by vertex %d %d", i, d);
  }
  c.state(std::string(th.name) + " " + v.script + fmt(" %d %d ", kind, how) + what);
  if (!c.mine()) return;
  V3 t = f.map(q);
  double best = 1e300;
  for (auto& x : vs) best = std::min(best, Planar(x.view, t));
  std::vector<Vx> cand;  // anything that rounding could make the nearest
  double eps = 1e-6 * (1 + fabs(t.x) + fabs(t.y));
  for (auto& x : vs)
    if (Planar(x.view, t) <= best + eps) cand.push_back(x);
  c.check(!cand.empty(), "harness", what);
  std::string fn = how == kNearNear ? "near(near(" + P3(q) + "))" : "near(" + P3(q) + ")";
  // Measure to a point so far off that the sign is known.
  V3 o = Fl(f.r * 1000 + f.u * 1000 + f.w * 1000), R = Fl(f.r), U = Fl(f.u), W = Fl(f.w);
  std::string load = "load s = " + Quote(WriteFile(c.scratch, std::string(th.name) + ".stl", StlText(th.m))) + ";\npage { draw s { view=" + v.script + "; scale=1:10; @[0,0];\n";
  std::string text = load;
  auto dim = [&](V3 d, const char* tag) {
    std::string a = how == kTo ? P3(o) : fn, b = how == kTo ? fn : P3(o);
    text += "dim(at=[0,0,0],dir=" + P3(d) + ",from=" + a + ",to=" + b + ",fmt=\"" + tag + " %.6f\");\n";
  };
  double tol = 2e-2;
  if (how == kAt) {  // where the label goes
    text += "dim(at=" + fn + ",dir=" + P3(R) + ",from=[0,0,0],to=" + P3(Fl(f.r * 3)) + ");\n} }\n";
    c.note(text);
    PsPage p = OnePage(c, text);
    Place pl = Placement(VisibleBox(th.m, f, kEdgeOn), .1, 1, true, 0, 0);
    c.check(p.texts.size() == 1, "label", text + Show(p));
    bool ok = false;
    for (auto& x : cand) ok |= Near(p.texts[0].ax, pl.X(x.view.x), tol) && Near(p.texts[0].ay, pl.Y(x.view.y), tol);
    c.check(ok, "nearest", fmt("the label at (%g,%g) is not at the nearest vertex\n", p.texts[0].ax, p.texts[0].ay) + text + Show(p));
    c.outcome("at");
    return;
  }
  if (how == kApex || how == kArm) {  // the corner or an arm of an angle
    V3 at = Fl(q + f.r * 5 + f.u * 7);
    V3 apex = Fl(q - f.r * 3 + f.u * 2);
    text += how == kApex ? "angle(at=" + P3(at) + ",apex=" + fn + ",from_dir=" + P3(R) + ",to_dir=" + P3(U) + ");\n} }\n"
                         : "angle(at=" + P3(at) + ",apex=" + P3(apex) + ",from_point=" + fn + ",to_dir=" + P3(U) + ",fmt=\"%.4f\");\n} }\n";
    c.note(text);
    V3 va = f.map(at), vp = f.map(apex), vu = f.map(U);
    bool skip = false;
    for (auto& x : cand) {
      V3 d = x.view - vp;
      double s = fabs(d.x * vu.y - d.y * vu.x) / (hypot(d.x, d.y) + 1e-9);
      if (how == kArm && (hypot(d.x, d.y) < .1 || s < .01)) skip = true;
      // "in the view plane": the depth of the apex is its own
    }
    if (skip) {
      c.outcome("arms");
      return;
    }
    PsPage p = OnePage(c, text);
    c.check(p.texts.size() == 1 && p.arcs.size() == 1, "label", text + Show(p));
    bool ok = false;
    if (how == kApex) {
      Place pl = Placement(VisibleBox(th.m, f, kEdgeOn), .1, 1, true, 0, 0);
      for (auto& x : cand) ok |= Near(p.arcs[0].x, pl.X(x.view.x), tol) && Near(p.arcs[0].y, pl.Y(x.view.y), tol);
      c.check(ok, "nearest", fmt("the arc about (%g,%g) is not about the nearest vertex\n", p.arcs[0].x, p.arcs[0].y) + text + Show(p));
      (void)va;
    } else {
      double got = atof(p.texts[0].s.c_str());
      std::string want;
      for (auto& x : cand)
        for (int keep = 0; keep < 2; keep++) {  // an exact vertex keeps its depth
          V3 d = x.view - vp;
          if (!keep) d.z = -vp.z;
          double w = acos(std::max(-1., std::min(1., dot(unit(d), unit(vu))))) * 180 / M_PI;
          ok |= fabs(got - w) < 2e-2;
          want += fmt(" %.4f", w);
        }
      c.check(ok, "nearest", "the angle is not one of" + want + "\n" + text + Show(p));
    }
    c.outcome("angle");
    return;
  }
  dim(R, "x");
  dim(U, "y");
  dim(W, "z");
  text += "} }\n";
  c.note(text);
  PsPage p = OnePage(c, text);
  double got[3] = {NAN, NAN, NAN};
  for (auto& x : p.texts)
    if (x.s.size() > 2 && x.s[0] >= 'x' && x.s[0] <= 'z') got[x.s[0] - 'x'] = atof(x.s.c_str() + 2);
  V3 g{1000 - got[0], 1000 - got[1], 1000 - got[2]};
  bool ok = false, deep = false;
  double dt = 2e-3;  // directions are rounded to floats
  for (auto& x : cand) {
    bool in = Near(g.x, x.view.x, dt) && Near(g.y, x.view.y, dt);
    ok |= in;
    if (in && norm(x.model - q) == 0) deep |= Near(g.z, x.view.z, dt);
  }
  std::string want;
  for (auto& x : cand) want += fmt(" (%g,%g,%g)", x.view.x, x.view.y, x.view.z);
  c.check(ok, "nearest", fmt("(%g,%g) is not the nearest vertex to (%g,%g): one of", g.x, g.y, t.x, t.y) + want + "\n" + text + Show(p));
  if (exact && how != kNearNear) c.check(deep, "vertex", fmt("depth %g of an exact vertex\n", g.z) + want + "\n" + text + Show(p));
  c.outcome(fmt("%zu candidates", cand.size()));
}

// Models that show no vertex.
void Nothing(Ctx& c) {
  int what = c.pick("model", 4), how = c.pick("call", 8), x = c.pick("x", 3);
  c.state(fmt("nothing %d %d %d", what, how, x));
  if (!c.mine()) return;
  std::string stl;
  if (what == 1) stl = StlText({});
  if (what == 2) stl = StlText({{{0, 0, 0}, {0, 1, 0}, {1, 0, 0}}});                            // facing away
  if (what == 3) stl = StlText({{{0, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {{0, 0, 0}, {1, 0, 0}, {0, 0, 1}}});  // edge-on
  static const V3 kQ[] = {{0, 0, 0}, {1, 0, 0}, {-3, 2, 5}};
  std::string n = "near(" + P3(kQ[x]) + ")", call;
  switch (how) {
    case 0: call = "dim(at=" + n + ",dir=[1,0,0],from=[0,0,0],to=[1,0,0]);"; break;
    case 1: call = "dim(at=[0,0,0],dir=[1,0,0],from=" + n + ",to=[1,0,0]);"; break;
    case 2: call = "dim(at=[0,0,0],dir=[1,0,0],from=[0,0,0],to=" + n + ");"; break;
    case 3: call = "dim(at=[0,0,0],dir=" + n + ",from=[0,0,0],to=[1,0,0]);"; break;
    case 4: call = "angle(at=" + n + ",apex=[0,0,0],from_dir=[1,0,0],to_dir=[0,1,0]);"; break;
    case 5: call = "angle(at=[1,1,0],apex=" + n + ",from_dir=[1,0,0],to_dir=[0,1,0]);"; break;
    case 6: call = "angle(at=[1,1,0],apex=[0,0,0],from_point=" + n + ",to_dir=[0,1,0]);"; break;
    case 7: call = "dim(at=[0,0,0],dir=[1,0,0],from=near(" + n + "),to=[1,0,0]);"; break;
  }
  std::string text = "load s = " + Quote(what ? WriteFile(c.scratch, fmt("n%d.stl", what), stl) : "/dev/null") + ";\npage { draw s { view=\"Z+\"; @[0,0];\n" + call + "\n} }\n";
  c.note(text + stl);
  Result r = RunScript(text);
  c.traced();
  c.check(!r.ok && r.out.empty(), "empty", "near() found a vertex where none is shown\n" + text + stl);
  c.check(r.err.find(":3") != std::string::npos, "report", "the refusal is not reported at its line\n" + text + r.err);
  c.outcome("refused");
}

// Vertices (and targets) very close to each other, or to the target.
void Close(Ctx& c) {
  static const double kStep[] = {.25, .03, 4e-3, 5e-4, 6e-5, 7e-6};
  static const struct {
    const char* view;
    V3 r, u, w;
  } kSides[] = {{"Z+", {1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {"Y-", {1, 0, 0}, {0, 0, 1}, {0, -1, 0}}, {"X+", {0, 1, 0}, {0, 0, 1}, {1, 0, 0}}};
  int k = c.pick("step", 6), side = c.pick("view", 3), where = c.pick("where", 3), first = c.pick("order", 5), x = c.pick("x", 9), y = c.pick("y", 9);
  bool center = c.pick("call", 2);
  double s = kStep[k];
  c.state(fmt("close %d %d %d %d %d %d %d", k, side, where, first, x, y, center));
  if (center && (first || side)) c.prune();
  if (!c.mine()) return;
  auto& f = kSides[side];
  static const double kO[][3] = {{0, 0, 0}, {.5, .25, 0}, {-3, 2, 1}};
  static const double kC[][2] = {{0, 0}, {1, 0}, {0, 1}, {1, 1}, {.5, .4375}};
  Mesh m;
  std::vector<V3> vs;
  auto At = [&](double a, double b, double d) { return f.r * a + f.u * b + f.w * d; };
  const double* o = kO[where];
  for (int i = 0; i < 5; i++) {  // each a corner of a face of its own, at its own depth
    auto& q = kC[(i + first) % 5];
    double d = o[2] + ((i + first) % 5) * .5;
    V3 a = At(o[0] + s * q[0], o[1] + s * q[1], d);
    m.push_back({a, At(o[0] + 9, o[1] - 1 - i, d), At(o[0] + 8, o[1] + 9 + i, d)});
    for (V3 p : {m.back().a, m.back().b, m.back().c}) vs.push_back(p);
  }
  V3 t = Fl(At(o[0] + s * (x * .25 - .5), o[1] + s * (y * .25 - .5), o[2] - 7));
  double best = 1e300, eps = 1e-12 + 1e-9 * s;
  auto Dist = [&](V3 p) { return hypot(dot(p - t, f.r), dot(p - t, f.u)); };
  for (V3 p : vs) best = std::min(best, Dist(p));
  std::string q = center ? "near(near(" + P3(t) + "))" : "near(" + P3(t) + ")";
  std::string text = "load s = " + Quote(WriteFile(c.scratch, "close.stl", StlText(m))) + ";\npage { draw s { view=\"" + f.view + "\"; scale=1:10; @[0,0];\n";
  V3 far = At(-8, -8, -8);
  for (int i = 0; i < 2; i++)
    text += "dim(at=[0,0,0],dir=" + P3(i ? f.u : f.r) + ",from=" + P3(far) + ",to=" + q + ",fmt=\"" + "xy"[i] + " %.10f\");\n";
  text += "} }\n";
  c.note(text);
  PsPage p = OnePage(c, text);
  double got[2] = {NAN, NAN};
  for (auto& l : p.texts)
    if (l.s.size() > 2 && (l.s[0] == 'x' || l.s[0] == 'y')) got[l.s[0] - 'x'] = atof(l.s.c_str() + 2) - 8;
  bool ok = false;
  std::string want;
  for (V3 v : vs) {
    if (Dist(v) > best + eps) continue;
    double a = dot(v, f.r), b = dot(v, f.u);
    ok |= Near(got[0], a, 1e-9) && Near(got[1], b, 1e-9);
    want += fmt(" (%.10f,%.10f)", a, b);
  }
  c.check(ok, "nearest", fmt("(%.10f,%.10f) is not the nearest vertex to (%.10f,%.10f): one of", got[0], got[1], dot(t, f.r), dot(t, f.u)) + want + "\n" + text + Show(p));
  c.outcome("close");
}

// Many vertices.
void Many(Ctx& c) {
  static const int kN[] = {5, 20, 21, 22, 42, 43, 50, 84, 85, 86, 100, 128, 170, 171, 172, 200, 256, 300, 341, 342, 400, 682, 683, 700, 1000};
  int n = kN[c.pick("facets", 25)], which = c.pick("facet", 9), v = c.pick("vertex", 3), rev = c.pick("order", 2), side = c.pick("view", 2);
  c.state(fmt("many %d %d %d %d %d", n, which, v, rev, side));
  if (!c.mine()) return;
  int i = which < 5 ? which * (n - 1) / 4 : which == 5 ? 1 : which == 6 ? n - 2 : which == 7 ? n / 3 : n * 5 / 7;
  Mesh m;
  int w = int(ceil(sqrt(double(n))));
  for (int k = 0; k < n; k++) {
    double x = k % w * .25, y = k / w * .25, z = k * 7 % 13 * .125;
    m.push_back({{x, y, z}, {x + .1875, y, z}, {x, y + .1875, z}});
    if (side)
      for (V3* p : {&m.back().a, &m.back().b, &m.back().c}) *p = {p->x, -p->z, p->y};
  }
  const Tri& t = m[i];
  V3 want = v == 0 ? t.a : v == 1 ? t.b : t.c;
  V3 q = Fl(want + (side ? V3{.02, -9, -.015} : V3{.02, -.015, 9}));
  if (rev) std::reverse(m.begin(), m.end());
  std::string text = "load s = " + Quote(WriteFile(c.scratch, "many.stl", StlText(m))) + ";\npage { draw s { view=\"" + (side ? "Y-" : "Z+") +
                     "\"; scale=1:10; @[0,0];\n";
  for (int k = 0; k < 2; k++)
    text += std::string("dim(at=[0,0,0],dir=") + (k ? side ? "[0,0,1]" : "[0,1,0]" : "[1,0,0]") + ",from=[-4,-4,-4],to=near(" + P3(q) + "),fmt=\"" + "xy"[k] + " %.6f\");\n";
  text += "} }\n";
  c.note(fmt("%d facets\n", n) + text);
  PsPage p = OnePage(c, text);
  double got[2] = {NAN, NAN};
  for (auto& l : p.texts)
    if (l.s.size() > 2 && (l.s[0] == 'x' || l.s[0] == 'y')) got[l.s[0] - 'x'] = atof(l.s.c_str() + 2) - 4;
  c.check(Near(got[0], want.x, 1e-5) && Near(got[1], side ? want.z : want.y, 1e-5), "nearest",
          fmt("of %d facets (%g,%g) is not the nearest vertex, (%g,%g)\n", n, got[0], got[1], want.x, side ? want.z : want.y) + text);
  c.outcome("many");
}

void Body(Ctx& c) {
  switch (c.pick("part", 4)) {
    case 3: return Many(c);
    case 0: return Query(c);
    case 1: return Nothing(c);
    case 2: return Close(c);
  }
}
}  // namespace

int main(int argc, char** argv) {
  Model m;
  m.property = "C17";
  m.body = Body;
  m.quick_bound = m.thorough_bound = 1;
  m.rule =
      "8 models (box, tetrahedron, frame, stairs, ring, far off, two solids, sheets over each other) x 18 (40) views x "
      "{a 9x9 (15x15) grid over and around the model in the view plane and before it, every shown vertex exactly, every "
      "vertex moved 4 ways} x 6 uses (from, to, at, near(near()), apex, arm); 4 models that show no vertex x 8 calls; 5 vertices 0.25 to 7e-6 apart (6 steps, 3 places, 3 views, 5 file "
      "orders), each on a face at its own depth, x a 9x9 grid of targets between and around them; 5 to 1000 facets apart from each other, a target by any vertex of 9 of them.";
  m.assumptions = {"vertices whose distances differ by less than 1e-6 are ties; either is accepted"};
  return run(argc, argv, m);
}
