// C16: dia, rad and center() find the circle next to the given point.
#include <cstring>

#include "engine.h"
#include "model.h"
#include "page.h"
#include "solids.h"
#include "stl-to-ps/center.h"
#include "stl-to-ps/eigen_wrap.h"

using namespace mc;

namespace {
V3 Fl(V3 p) { return {float(p.x), float(p.y), float(p.z)}; }

// ------------------------------------------------------------- the fit itself
void Fit(Ctx& c) {
  static const V3 kAt[] = {{0, 0, 0}, {500, -300, 0}, {-20000, 10000, 0}, {.375, 0, 0}};
  static const double kK[] = {1, .001, 64, .3};
  int n = c.pick("points", c.thorough ? 6 : 5);
  int g = n <= 3 ? 4 : 3;
  std::vector<std::pair<int, int>> p;
  std::string s = "fit";
  for (int i = 0; i < n; i++) {
    int k = c.pick("point", g * g);
    p.push_back({k % g, k / g});
    s += fmt(" %d,%d", k % g, k / g);
  }
  int at = c.pick("at", 4), kk = c.pick("size", 4);
  s += fmt(" at %d size %d", at, kk);
  c.state(s);
  if (!c.mine()) return;
  c.note(s);
  std::vector<Eigen::RowVector2d> v;
  for (auto& q : p) v.push_back({q.first * kK[kk] + kAt[at].x, q.second * kK[kk] + kAt[at].y});
  Eigen::RowVector2d ce(7, 7);
  double rad = 7;
  bool ok = stl2ps::FindCircle(v, &ce, &rad);
  c.traced();
  // On one line?
  bool line = true;
  int a = -1, b = -1;
  for (int i = 0; i < n && line; i++) {
    if (p[i] == p[0]) continue;
    if (a < 0) {
      a = i;
      continue;
    }
    int dx = p[a].first - p[0].first, dy = p[a].second - p[0].second;
    if ((p[i].first - p[0].first) * dy != (p[i].second - p[0].second) * dx) line = false, b = i;
  }
  if (line) {
    c.check(!ok, "degenerate", fmt("a circle of radius %g at %g,%g through points on one line: ", rad, ce.x(), ce.y()) + s);
    c.outcome("refused");
    return;
  }
  c.check(ok, "refused", "no circle: " + s);
  c.check(std::isfinite(rad) && std::isfinite(ce.x()) && std::isfinite(ce.y()), "finite", s);
  // The circle through p[0], p[a], p[b]; is everything on it?
  auto X = [&](int i) { return double(p[i].first); };
  auto Y = [&](int i) { return double(p[i].second); };
  double x1 = X(a) - X(0), y1 = Y(a) - Y(0), x2 = X(b) - X(0), y2 = Y(b) - Y(0), d = 2 * (x1 * y2 - x2 * y1);
  double q1 = x1 * x1 + y1 * y1, q2 = x2 * x2 + y2 * y2;
  double cx = X(0) + (y2 * q1 - y1 * q2) / d, cy = Y(0) + (x1 * q2 - x2 * q1) / d;
  double r = hypot(cx - X(0), cy - Y(0));
  for (int i = 0; i < n; i++)
    if (fabs(hypot(cx - X(i), cy - Y(i)) - r) > 1e-9) {
      c.outcome("no one circle");
      return;
    }
  double k = kK[kk], tol = 1e-6 * k * (1 + r);
  c.check(Near(rad, r * k, tol) && Near(ce.x(), cx * k + kAt[at].x, tol) && Near(ce.y(), cy * k + kAt[at].y, tol), "fit",
          fmt("radius %.9g at %.9g,%.9g instead of %.9g at %.9g,%.9g: ", rad, ce.x(), ce.y(), r * k, cx * k + kAt[at].x, cy * k + kAt[at].y) + s);
  c.outcome("circle");
}

// ------------------------------------------------------------- in a drawing
struct Ring {
  double x, y, r;
  int n;
  double phase;
  double z0, z1;  // a cylinder along the view
  double rough = 0;  // every other vertex in, and out, by this part of the radius
};
struct Plan {
  const char* name;
  std::vector<Ring> rings;
};
const std::vector<Plan>& Plans() {
  static auto& p = *new std::vector<Plan>{
      {"one", {{0, 0, 2, 8, 10, 0, 1}}},
      {"small far", {{300, -200, .75, 12, 3, 0, 1}}},
      {"two apart", {{0, 0, 2, 10, 0, 0, 1}, {5, 1, 1, 7, 5, 0, 2}}},
      {"step", {{0, 0, 3, 12, 0, 0, 1}, {.25, -.125, 1, 9, 4, 1, 2}}},  // a boss on a plate
      {"boss", {{0, 0, 1.5, 12, 15, 0, 1}, {0, 0, 1.5, 12, 15, 1.5, 2}, {0, 0, 4, 16, 1, -1, 0}}},  // the same ring at two depths
      {"big", {{20, 30, 48, 60, 0, 0, 5}}},
      {"tiny", {{.5, -.25, .0625, 6, 20, 0, 1}}},
      {"triangle", {{1, 1, 2, 3, 30, 0, 1}}},
      {"minute", {{.5, -.25, .0002, 24, 20, 0, .001}, {.501, -.25, .0003, 9, 3, 0, .002}}},
      {"rough", {{.5, .25, 2, 8, 10, 0, 1, .004}}},
      {"rough far", {{70, -20, 25, 10, 3, 0, 1, .003}}}};
  // Smaller circles well inside of a circle and outside of it.
  static bool once = [] {
    static const double kR[] = {.4, 1.2, 2.5, 18, 60};
    static const char* const kName[] = {"cluttered .4", "cluttered 1.2", "cluttered 2.5", "cluttered 18", "cluttered 60"};
    for (int i = 0; i < 5; i++) {
      double r = kR[i], x = 3 * r, y = -r;
      p.push_back({kName[i], {{x, y, r, 14, 3, 0, r},
                              {x + .75 * r, y, .08 * r, 5, 0, r, 1.5 * r},
                              {x - .3 * r, y + .2 * r, .2 * r, 6, 9, r, 1.5 * r},
                              {x - .2 * r, y + 1.24 * r, .08 * r, 5, 7, 0, .5 * r},
                              {x + 1.3 * r, y - .5 * r, .05 * r, 4, 1, 0, 1.25 * r}}});
    }
    // One among hundreds of vertices, first and last.
    Ring one = {0, 0, 2, 9, 4, 0, 1}, more[] = {{10, 0, 3, 90, 1, 0, 1}, {20, 0, 3, 100, 1, 0, 1}, {10, 15, 3, 120, 1, 0, 1}};
    p.push_back({"crowd first", {one, more[0], more[1], more[2]}});
    p.push_back({"crowd second", {more[0], one, more[1], more[2]}});
    p.push_back({"crowd third", {more[1], more[0], one, more[2]}});
    p.push_back({"crowd last", {more[0], more[1], more[2], one}});
    return true;
  }();
  (void)once;
  return p;
}
const std::vector<ViewSpec>& Vs() {
  static const auto& v = *new std::vector<ViewSpec>{Named("Z+"), Angled(0, 90), Named("X-"), Angled(30, 20), Angled(33, 0), Named("Y+"), Angled(-110, 75), Named("Z-"), Angled(45, 180)};
  return v;
}
Mesh Build(const Plan& p, const Frame& f) {
  Mesh m;
  for (auto& r : p.rings)
    for (auto& t : Prism(r.n, r.r, r.x, r.y, r.z0, r.z1, r.phase)) {
      auto map = [&](V3 q) {
        if (r.rough) {
          int i = int(floor((atan2(q.y - r.y, q.x - r.x) * 180 / M_PI - r.phase) / 360 * r.n + 1000.5));
          double s = 1 + (i % 2 ? r.rough : -r.rough);
          if (hypot(q.x - r.x, q.y - r.y) > .5 * r.r) q.x = r.x + (q.x - r.x) * s, q.y = r.y + (q.y - r.y) * s;
        }
        return f.r * q.x + f.u * q.y + f.w * q.z;
      };
      m.push_back({map(t.a), map(t.b), map(t.c)});
    }
  return m;
}

enum Kind { kDia, kRad, kCenter };
void Drawn(Ctx& c) {
  auto& plan = Plans()[c.pick("plan", Plans().size())];
  bool few = plan.rings.size() > 3 && !c.thorough;
  auto& v = Vs()[c.pick("view", c.thorough ? 9 : few ? 2 : 5)];
  int of = c.pick("of", plan.rings.size());  // targets about this ring
  int g = c.thorough ? 9 : few ? 5 : 7, gx = c.pick("x", g), gy = c.pick("y", g);
  auto& ring = plan.rings[of];
  V3 target = {ring.x + ring.r * 1.5 * (2. * gx / (g - 1) - 1) + .01 * ring.r, ring.y + ring.r * 1.5 * (2. * gy / (g - 1) - 1), 0};
  int on = c.pick("on", 4);
  if (on == 1) {  // exactly a vertex
    if (gx >= ring.n || gy) c.prune();
    double a = (ring.phase + 360. * gx / ring.n) * M_PI / 180;
    target = {ring.x + ring.r * cos(a), ring.y + ring.r * sin(a), 0};
  }
  if (on == 2) {  // exactly the centre
    if (gx || gy) c.prune();
    target = {ring.x, ring.y, 0};
  }
  if (on == 3) {  // a long way off
    static const double kOff[] = {12, 150, 1300, 9000};
    if (gx > 3 || gy > (ring.r < .01 ? 0 : ring.r > 10 ? 1 : 3)) c.prune();
    double a = 1 + gx * M_PI / 2;
    target = {ring.x + ring.r * kOff[gy] * cos(a), ring.y + ring.r * kOff[gy] * sin(a), 0};
  }
  Kind kind = Kind(c.pick("kind", 3));
  static const V3 kDir[] = {{1, 0, 0}, {0, 1, 0}, {-3, 1, 0}, {.5, -.25, 0}, {2e-5, 1e-5, 0}, {-1, -1, 0}, {0, -2, 1}, {-4e4, 3e4, 0}};
  int di = kind == kCenter ? c.pick("dir", 2) : c.pick("dir", c.thorough ? 8 : few ? 2 : 5);
  if (!c.thorough && di == 4 && on != 2 && (gx + gy) % 6) c.prune();  // the vector that gives it is short
  static const double kFar[] = {1.6, -1.003, .5, .9, 3.5, -2}, kSide[] = {.2, .012, .2, .2, .2, -.2};
  int fi = kind == kCenter ? 0 : c.pick("far", c.thorough ? 6 : few ? 3 : 5);
  if (on == 3 && (di > 1 || fi > 1)) c.prune();
  if (!strncmp(plan.name, "crowd", 5) && !c.thorough && (ring.n != 9 || di > 1 || (gx + gy) % 2)) c.prune();
  int fm = c.pick("fmt", c.thorough ? 2 : 1);
  c.state(fmt("%s %s %g %g %d %d %d %d", plan.name, v.script.c_str(), target.x, target.y, kind, di, fi, fm));
  if (!c.mine()) return;
  const Frame& f = v.frame;
  auto model = [&](V3 q) { return Fl(f.r * q.x + f.u * q.y + f.w * q.z); };
  Mesh m = Build(plan, f);
  V3 dir = kDir[di], side{-dir.y, dir.x, 0};
  V3 at = V3{ring.x, ring.y, 0} + dir * (kFar[fi] * ring.r / norm(dir)) + side * (kSide[fi] * ring.r / norm(side));
  V3 mt = model(target), md = model(dir), ma = model(at);
  bool minute = ring.r < .01;
  std::string num = minute ? "%.9f" : fm ? "%.1f mm" : "%.3f", call, fs = fm || minute ? ",fmt=\"" + num + "\"" : "";
  if (kind == kCenter)
    call = "dim(at=" + P3(ma) + ",dir=" + P3(md) + ",from=center(" + P3(mt) + "),to=" + P3(ma) + fs + ");";
  else
    call = std::string(kind == kDia ? "dia" : "rad") + "(at=" + P3(ma) + ",dir=" + P3(md) + ",center=" + P3(mt) + fs + ");";
  double k = ring.r > 20 ? .05 : minute ? 5000 : ring.r < .5 ? 8 : 1;
  std::string head = "load s = " + Quote(WriteFile(c.scratch, std::string(plan.name) + fmt("%d", int(&v - &Vs()[0])) + ".stl", StlText(m))) +
                     ";\npage { draw s { view=" + v.script + "; scale=" + (k == 1 ? "1:1" : k == 5000 ? "5000:1" : k > 1 ? "8:1" : "1:20") + "; @[0,0];\n";
  std::string text = head + call + "\n} }\n";
  c.note(text);
  // The nearest three vertices of the faces turned to the viewer.
  target = f.map(mt);
  target.z = 0;
  struct Vx {
    double d;
    V3 p;
    int ring;
  };
  std::vector<Vx> vs;
  for (auto& t : m) {
    if (dot(unit(t.n()), f.w) < 1e-6) continue;
    for (V3 q : {t.a, t.b, t.c}) {
      V3 w = f.map(q);
      w.z = 0;
      bool dup = false;
      for (auto& o : vs) dup |= norm(o.p - w) < 1e-7;
      if (dup) continue;
      int best = -1;
      for (size_t i = 0; i < plan.rings.size(); i++) {
        auto& r = plan.rings[i];
        if (fabs(hypot(w.x - r.x, w.y - r.y) - r.r) < 1e-6 + 2 * r.rough * r.r && best < 0) best = i;
      }
      vs.push_back({norm(w - target), w, best});
    }
  }
  std::sort(vs.begin(), vs.end(), [](auto& x, auto& y) { return x.d < y.d; });
  auto same = [&](int x, int y) {
    auto &a = plan.rings[x], &b = plan.rings[y];
    return a.x == b.x && a.y == b.y && a.r == b.r;
  };
  bool sure = vs.size() >= 3 && vs[0].ring >= 0;
  int ri = vs[0].ring;
  double third = vs.size() >= 3 ? vs[2].d : 0;
  for (auto& x : vs)
    if (x.d < third + 1e-6) sure = sure && same(x.ring, ri);
  auto& w = plan.rings[ri < 0 ? 0 : ri];
  for (auto& x : vs)  // nothing else close to the circle
    if (!same(x.ring, ri) && fabs(hypot(x.p.x - w.x, x.p.y - w.y) - w.r) < .11 * w.r) sure = false;
  Result r = RunScript(text);
  c.traced();
  if (!sure) {
    if (r.ok) {
      PsDoc d = RunPs(r.out);
      c.check(d.ok, "postscript", d.error + "\n" + text);
    }
    c.outcome(r.ok ? "unsure" : "unsure, refused");
    return;
  }
  c.check(r.ok, "refused", "a correct script is refused\n" + text + r.err);
  PsPage p = OnePage(c, text), base = OnePage(c, head + "} }\n");
  // Take the drawing itself off.
  auto lines = p.lines;
  for (auto& l : base.lines) TakeLine(&lines, l.x1, l.y1, l.x2, l.y2, 1e-3);
  c.check(p.texts.size() == 1 && p.arcs.empty(), "label", "not one label\n" + text + Show(p));
  at = f.map(ma), dir = f.map(md);
  dir.z = 0;
  dir = unit(dir);
  Place pl = Placement(VisibleBox(m, f, 1e-6), k, 1, true, 0, 0);
  double tol = 3e-2 + 2e-5 * pl.k * (fabs(w.x) + fabs(w.y)) * .1, loose = w.rough * w.rough * w.r * 2;
  tol += loose * pl.k;
  auto lab = [&](double val) {
    std::string pre = kind == kDia ? "\351" : kind == kRad ? "R" : "";
    bool ok = false;
    for (double e : {0., 1e-5, -1e-5, 1e-6, -1e-6}) {
      char b[80];
      snprintf(b, sizeof b, num.c_str(), fabs(val + e * (1 + fabs(val))));
      if (minute) {
        ok |= p.texts[0].s.rfind(pre, 0) == 0 && fabs(atof(p.texts[0].s.c_str() + pre.size()) - val) < 1e-7;
        continue;
      }
      ok |= p.texts[0].s == pre + b;
    }
    if (loose && !minute && p.texts[0].s.rfind(pre, 0) == 0) ok |= fabs(strtod(p.texts[0].s.c_str() + pre.size(), nullptr) - val) < loose + (fm ? .11 : .0011);
    char b[80];
    snprintf(b, sizeof b, num.c_str(), val);
    c.check(ok, "label", "'" + p.texts[0].s + "' instead of '" + pre + b + "'\n" + text);
  };
  const PsText& t = p.texts[0];
  if (kind == kCenter) {
    V3 d3 = unit(f.map(md));
    V3 ce{w.x, w.y, 0};
    V3 a3 = f.map(ma);
    lab(fabs(dot(a3 - ce, d3)));
    c.outcome("center");
    return;
  }
  lab(kind == kDia ? 2 * w.r : w.r);
  c.check(Near(t.x, pl.X(at.x) + (kind == kDia ? 2.4 : 4.8), tol) && Near(t.ay, pl.Y(at.y), tol), "place",
          fmt("the label is not just right of (%.3f,%.3f)\n", pl.X(at.x), pl.Y(at.y)) + text + Show(p));
  double ax = pl.X(w.x + dir.x * w.r), ay = pl.Y(w.y + dir.y * w.r), bx = pl.X(w.x - dir.x * w.r), by = pl.Y(w.y - dir.y * w.r);
  for (int sg : {-2, 2}) {
    bool ok = TakeLine(&lines, ax, ay, ax - 6 * dir.x - sg * dir.y, ay - 6 * dir.y + sg * dir.x, tol);
    if (kind == kDia) ok = TakeLine(&lines, bx, by, bx + 6 * dir.x - sg * dir.y, by + 6 * dir.y + sg * dir.x, tol) && ok;
    c.check(ok, "arrow", fmt("no arrow head at (%.3f,%.3f)\n", ax, ay) + text + Show(p));
  }
  double sx = kind == kDia ? bx : pl.X(w.x), sy = kind == kDia ? by : pl.Y(w.y), ex = pl.X(at.x), ey = pl.Y(at.y);
  // A line from the far side (the centre) through the near side, then one to the label.
  c.check(lines.size() == 2, "leader", fmt("%zu leader lines\n", lines.size()) + text + Show(p));
  bool ok = false;
  for (int i = 0; i < 2; i++) {
    auto &l = lines[i], &o = lines[1 - i];
    for (int rev = 0; rev < 2; rev++) {
      double x1 = rev ? l.x2 : l.x1, y1 = rev ? l.y2 : l.y1, x2 = rev ? l.x1 : l.x2, y2 = rev ? l.y1 : l.y2;
      if (!Near(x1, sx, tol) || !Near(y1, sy, tol)) continue;
      double al = (x2 - ax) * dir.x + (y2 - ay) * dir.y, off = (x2 - ax) * -dir.y + (y2 - ay) * dir.x;
      if (al < -tol || fabs(off) > tol) continue;
      std::vector<PsLine> one = {o};
      ok |= TakeLine(&one, x2, y2, ex, ey, tol);
    }
  }
  c.check(ok, "leader", fmt("the leader does not run from (%.3f,%.3f) through (%.3f,%.3f) to (%.3f,%.3f)\n", sx, sy, ax, ay, ex, ey) + text + Show(p));
  c.outcome(kind == kDia ? "dia" : "rad");
}

// Plates with one rounded side: a part of a circle, however short.
void Part(Ctx& c) {
  static const double kSpan[] = {.03, .5, 4, 30, 120, 180}, kR[] = {1, 40, 900, .2}, kTurn[] = {0, 37, 200, 90};
  static const V3 kAt[] = {{0, 0, 0}, {50, -20, 3}};
  int si = c.pick("span", 6), ri = c.pick("radius", c.thorough ? 4 : 3), ti = c.pick("turned", c.thorough ? 4 : 3), ai = c.pick("at", 2);
  int n = 2 + c.pick("pieces", c.thorough ? 14 : 7);
  auto& v = Vs()[c.pick("view", c.thorough ? 9 : 4)];
  Kind kind = Kind(c.pick("kind", 3));
  int near = c.pick("near", 4);
  c.state(fmt("part %d %d %d %d %d %s %d %d", si, ri, ti, ai, n, v.script.c_str(), kind, near));
  if (!c.mine()) return;
  double span = kSpan[si] * M_PI / 180, r = kR[ri], turn = kTurn[ti] * M_PI / 180;
  const Frame& f = v.frame;
  V3 ce = kAt[ai];
  auto on = [&](double a, double d) { return V3{ce.x + d * cos(turn + a), ce.y + d * sin(turn + a), ce.z}; };
  auto model = [&](V3 q) { return f.r * q.x + f.u * q.y + f.w * q.z; };
  Mesh m;
  V3 up{0, 0, -std::min(r, 3.)}, q = on(0, .4 * r);
  std::vector<V3> e = {q};
  for (int i = 0; i <= n; i++) e.push_back(on(span * (double(i) / n - .5), r));
  auto add = [&](V3 a, V3 b, V3 d) { m.push_back({model(a), model(b), model(d)}); };
  for (size_t i = 1; i + 1 < e.size(); i++) {
    add(e[0], e[i], e[i + 1]);
    add(e[0] + up, e[i + 1] + up, e[i] + up);
  }
  for (size_t i = 0; i < e.size(); i++) {
    V3 a = e[i], b = e[(i + 1) % e.size()];
    add(a, a + up, b);
    add(b, a + up, b + up);
  }
  // Next to the middle vertex, to an end, and outside.
  V3 target = near == 0 ? on(span * (double(n / 2) / n - .5), r) : near == 1 ? on(-span / 2, r) : near == 2 ? on(span / 9, r * 1.2) : on(span / 2, r * 1.02);
  // Only the rounded side may be near.
  double third;
  {
    std::vector<double> d;
    for (size_t i = 1; i < e.size(); i++) d.push_back(hypot(e[i].x - target.x, e[i].y - target.y));
    std::sort(d.begin(), d.end());
    third = d[2];
  }
  if (hypot(q.x - target.x, q.y - target.y) < third * 1.001) return;
  V3 at = on(.3, 1.5 * r), dir = on(.2, 1) - ce;
  std::string call, mt = P3(model(target)), md = P3(model(dir)), ma = P3(model(at));
  if (kind == kCenter)
    call = "dim(at=" + ma + ",dir=" + md + ",from=center(" + mt + "),to=" + mt + ",fmt=\"%.9f\");";
  else
    call = std::string(kind == kDia ? "dia" : "rad") + "(at=" + ma + ",dir=" + md + ",center=" + mt + ",fmt=\"%.9f\");";
  std::string text = "load s = " + Quote(WriteFile(c.scratch, "part.stl", StlText(m))) + ";\npage { draw s { view=" + v.script + "; scale=1:20; " + call + " } }\n";
  c.note(text);
  PsPage p = OnePage(c, text);
  c.check(p.texts.size() == 1, "label", "not one label\n" + text);
  std::string t = p.texts[0].s;
  double got = atof(t.c_str() + (kind == kCenter ? 0 : 1));
  // The script's numbers are floats.
  V3 d3 = f.map(Fl(model(dir))), tf = f.map(Fl(model(target)));
  double want = kind == kDia ? 2 * r : kind == kRad ? r : fabs((tf.x - ce.x) * d3.x + (tf.y - ce.y) * d3.y) / norm(d3);
  double tol = 2e-5 * r + (kind == kCenter ? 1e-5 * (r + fabs(ce.x)) : 0);
  c.check(fabs(got - want) <= tol, "part", fmt("'%s' instead of %.9f: %d pieces of %g degrees of a circle of radius %g\n", t.c_str(), want, n, kSpan[si], r) + text);
  c.outcome(kind == kCenter ? "part, center" : "part");
}

// Models whose vertices do not determine a circle.
void Line(Ctx& c) {
  int n = c.pick("model", 4), kind = c.pick("kind", 3), x = c.pick("x", 5), y = c.pick("y", 5);
  c.state(fmt("line %d %d %d %d", n, kind, x, y));
  if (!c.mine()) return;
  // Thin facets seen so that their vertices fall on a line (or into two points), and nothing at all.
  std::string stl = "solid s\n";
  auto facet = [&](V3 a, V3 b, V3 d) {
    auto vec = [](V3 p) { return StlNum(p.x) + " " + StlNum(p.y) + " " + StlNum(p.z); };
    stl += "facet normal 0 -1 1\nouter loop\nvertex " + vec(a) + "\nvertex " + vec(b) + "\nvertex " + vec(d) + "\nendloop\nendfacet\n";
  };
  std::string view = "\"Z+\"";
  if (n == 1) facet({0, 0, 0}, {2, 0, 0}, {1, 1e-13, 1});
  if (n == 2) facet({0, 0, 0}, {2, 1e-12, 0}, {1, 0, 2}), facet({5, 0, 0}, {7, 0, 0}, {6, 1e-13, 2});
  if (n == 3) facet({0, 0, 0}, {2, 0, 0}, {0, 1e-13, 3});
  stl += "endsolid s\n";
  std::string p = P3({x - 1., y - 2., 0});
  std::string call = kind == 0 ? "dia(at=[3,3,0],dir=[1,1,0],center=" + p + ");"
                     : kind == 1 ? "rad(at=[3,3,0],dir=[1,1,0],center=" + p + ");"
                                 : "dim(at=[3,3,0],dir=[1,0,0],from=center(" + p + "),to=[0,0,0]);";
  std::string text = "load s = " + Quote(WriteFile(c.scratch, "s.stl", stl)) + ";\npage { draw s { view=" + view + "; " + call + " } }\n";
  c.note(text + stl);
  Result r = RunScript(text);
  c.traced();
  c.check(!r.ok && r.out.empty(), "degenerate", "a circle through points on one line is drawn\n" + text + stl);
  c.outcome("refused");
}

void Body(Ctx& c) {
  switch (c.pick("part", 4)) {
    case 3: return Part(c);
    case 0: return Fit(c);
    case 1: return Drawn(c);
    default: return Line(c);
  }
}
}  // namespace

int main(int argc, char** argv) {
  Model m;
  m.property = "C16";
  m.body = Body;
  m.quick_bound = m.thorough_bound = 1;
  m.rule =
      "the fit over every list of up to 4 (5) points of a 3x3 (three: 4x4) grid, repeats included, x 4 places (to 20000 "
      "away) x 4 sizes; drawings of 20 models with rings (apart, stepped, the same at two depths, large, tiny, minute, far off, not quite round, with small circles inside and outside, among hundreds of vertices) "
      "x 5 (9) views x a 7x7 (9x9) grid of points about each ring, every vertex and the centre x dia, rad and center() "
      "points up to 9000 radii off, x 5 (8) directions (as short as 2e-5) x 5 (6) label places; models whose vertices fall on a line; parts of circles (.03 to 180 degrees, 2 to 8 (15) pieces, 3 (4) radii, turned and moved) x 4 (9) views x 4 query points.";
  m.assumptions = {"a drawing is judged where the three nearest vertices are on one ring and no other vertex is within 11% of it"};
  return run(argc, argv, m);
}
