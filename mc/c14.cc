// C14: dim calls.
#include "engine.h"
#include "model.h"
#include "page.h"
#include "solids.h"

using namespace mc;

namespace {
const std::vector<ViewSpec>& Vs() {
  static const auto& v = *new std::vector<ViewSpec>{Named("Z+"), Named("X-"), Angled(30, 20), Named("Y+"), Angled(-110, 75), Named("Z-"), Angled(45, 180)};
  return v;
}
struct P2d {
  double x, y;
};
const P2d kDirs[] = {{1, 0}, {0, 1}, {-1, 0}, {1, 1}, {3, 1}, {-.5, 2}, {0, -4}, {2, -2}, {-.125, -1}};
const P2d kPts[] = {{0, 0}, {2, 0}, {0, 1}, {-1.5, -1}, {1, 2}, {.0625, 0}, {3, -2.5}, {-2, 1.5}};
const P2d kAts[] = {{1, 1}, {-1, 3}, {0, 0}, {.5, -2}, {4, .25}, {.5, 0}, {-.25, .5}};
struct Ratio {
  const char* s;
  double k;
};
const Ratio kScales[] = {{"1:1", 1}, {"1:8", .125}, {"5:2", 2.5}, {"20:1", 20}, {"1:40", .025}, {"1000:1", 1000}, {"40:1", 40}, {"1:30", 1 / 30.}, {"1:1000", .001}};
const char* const kFmts[] = {"", "%.1f", "a long label of %.2f units", "%5.0f", "%.9f"};

// Runs it with an empty model, whose origin is at the page centre.
PsPage Dim(Ctx& c, const ViewSpec& v, const std::string& scale, const std::string& props, std::string* text) {
  *text = "load e = \"/dev/null\";\npage { draw e { @[0,0]; scale=" + scale + "; view=" + v.script + "; dim(" + props + "); } }\n";
  c.note(*text);
  return OnePage(c, *text);
}
V3 Fl(V3 p) { return {float(p.x), float(p.y), float(p.z)}; }

struct Case {
  V3 from, to, at, dir;  // in the view's axes
  int view, scale, fm;
  double size = 1;  // about the length of what's measured
};

void Judge(Ctx& c, const Case& k) {
  const ViewSpec& v = Vs()[k.view];
  auto model = [&](V3 p) { return Fl(v.frame.r * p.x + v.frame.u * p.y + v.frame.w * p.z); };
  V3 mf = model(k.from), mt = model(k.to), ma = model(k.at), md = model(k.dir);
  std::string text, f = kFmts[k.fm];
  PsPage p = Dim(c, v, kScales[k.scale].s,
                 "at=" + P3(ma) + ",dir=" + P3(md) + ",from=" + P3(mf) + ",to=" + P3(mt) + (f.empty() ? "" : ",fmt=" + Quote(f)), &text);
  // What the floats say.
  V3 from = v.frame.map(mf), to = v.frame.map(mt), at = v.frame.map(ma), dir = unit(v.frame.map(md));
  double s = 72 * kScales[k.scale].k;
  auto X = [&](V3 q) { return 396 + s * q.x; };
  auto Y = [&](V3 q) { return 306 + s * q.y; };
  double val = fabs(dot(to - from, dir));
  // Label
  c.check(p.texts.size() == 1 && p.arcs.empty(), "label", "not one label\n" + text + Show(p));
  const PsText& t = p.texts[0];
  bool said = false;
  std::string want;
  for (double e : {0., 2e-6, -2e-6, 1e-12, -1e-12}) {
    if (k.size != 1 && fabs(e) > 1e-9) continue;  // exact
    char b[100];
    snprintf(b, sizeof b, f.empty() ? "%.3f" : f.c_str(), fabs(val + e * (k.size == 1 ? 1 + val : val * 10)));
    if (e == 0) want = b;
    said |= t.s == b;
  }
  c.check(said, "label", "'" + t.s + "' instead of '" + want + "'\n" + text);
  double tol = 2e-2 + 1e-5 * s * k.size;
  c.check(Near(t.ax, X(at), tol) && Near(t.ay, Y(at), tol), "place",
          fmt("the label is not at (%.3f,%.3f)\n", X(at), Y(at)) + text + Show(p));
  c.check(Near(t.cx(), t.ax, .01), "centre", "the label is not centred\n" + text + Show(p));
  for (auto& l : p.lines)
    for (double q : {l.x1, l.y1, l.x2, l.y2}) c.check(std::isfinite(q), "finite", text + Show(p));
  if (val < 1e-5 * k.size) {
    c.outcome("nothing to measure");
    return;
  }
  V3 ff = at + dir * dot(from - at, dir), ft = at + dir * dot(to - at, dir);
  V3 u{ft.x - ff.x, ft.y - ff.y, 0};
  double on_page = norm(u) * s;
  if (on_page < 1e-4) {
    c.outcome("seen end on");
    return;
  }
  u = unit(u);
  V3 n{-u.y, u.x, 0};
  auto lines = p.lines;
  auto take = [&](double x1, double y1, double x2, double y2, const char* key) {
    if (hypot(x1 - x2, y1 - y2) < 2 * tol) {  // too short to be sure of
      TakeLine(&lines, x1, y1, x2, y2, tol);
      return;
    }
    if (TakeLine(&lines, x1, y1, x2, y2, tol)) return;
    c.fail(key, std::string(key) + ": no " + Show(PsLine{x1, y1, x2, y2}) + "\n" + text + Show(p));
  };
  // Does the label fit?
  double hw = 2.4 * t.s.size() + 1, hh = .333 * 8 + 1;
  double gap = std::min(hw / fabs(u.x), hh / fabs(u.y));
  if (fabs(gap * 2 - on_page) < 1e-3 * gap) {
    c.outcome("undecided");
    return;
  }
  bool fits = gap * 2 < on_page;
  double fx = X(ff), fy = Y(ff), tx = X(ft), ty = Y(ft), ax = X(at), ay = Y(at), in = 1;
  if (fits) {
    // Open around the label, which may be beyond one of the feet.
    double pf = (fx - ax) * u.x + (fy - ay) * u.y, pt = (tx - ax) * u.x + (ty - ay) * u.y;
    if (pf < -gap) take(fx, fy, ax - u.x * gap, ay - u.y * gap, "dimension line");
    if (pt > gap) take(ax + u.x * gap, ay + u.y * gap, tx, ty, "dimension line");
  } else {
    take(fx, fy, fx - u.x * 10, fy - u.y * 10, "outer line");
    take(tx, ty, tx + u.x * 10, ty + u.y * 10, "outer line");
    in = -1;
  }
  for (int sg : {-1, 1}) {
    take(fx, fy, fx + in * 6 * u.x + sg * 2 * n.x, fy + in * 6 * u.y + sg * 2 * n.y, "arrow");
    take(tx, ty, tx - in * 6 * u.x + sg * 2 * n.x, ty - in * 6 * u.y + sg * 2 * n.y, "arrow");
  }
  // Extension lines, from 2 points off the measured point to 4 past the foot.
  for (int i = 0; i < 4; i++) {  // first those that can only be on one side
    int e = i & 1;
    V3 q = e ? to : from;
    double x = e ? tx : fx, y = e ? ty : fy, off = dot(q - at, n);
    double sg = off > 0 ? 1 : -1;
    bool either = fabs(off) * s < 1e-3;
    if (either != (i > 1)) continue;
    if (either) {
      bool a = TakeLine(&lines, x - 4 * n.x, y - 4 * n.y, X(q) - 2 * n.x, Y(q) - 2 * n.y, tol) ||
               TakeLine(&lines, x + 4 * n.x, y + 4 * n.y, X(q) + 2 * n.x, Y(q) + 2 * n.y, tol);
      c.check(a, "extension line", fmt("no extension line at (%.3f,%.3f)\n", x, y) + text + Show(p));
      continue;
    }
    take(x - 4 * sg * n.x, y - 4 * sg * n.y, X(q) - 2 * sg * n.x, Y(q) - 2 * sg * n.y, "extension line");
  }
  for (auto& l : lines)
    c.check(hypot(l.x1 - l.x2, l.y1 - l.y2) < 2 * tol, "extra", "an extra " + Show(l) + "\n" + text + Show(p));
  c.outcome(fits ? "fits" : "outside");
}

void Body(Ctx& c) {
  Case k;
  auto pt = [&](const char* l, const P2d* a, int n, double z = 0) {
    auto& q = a[c.pick(l, n)];
    return V3{q.x, q.y, z};
  };
  int part = c.pick("part", 4);
  if (part == 0) {  // points in the view's plane
    k.dir = pt("dir", kDirs, 9);
    k.from = pt("from", kPts, c.thorough ? 8 : 5);
    k.to = pt("to", kPts, c.thorough ? 8 : 7);
    k.at = pt("at", kAts, c.thorough ? 7 : 5);
    k.view = c.pick("view", c.thorough ? 7 : 3);
    k.scale = c.pick("scale", c.thorough ? 5 : 3);
    k.fm = c.pick("fmt", c.thorough ? 4 : 3);
  } else if (part == 1) {  // points at other depths
    k.dir = pt("dir", kDirs, c.thorough ? 9 : 5);
    static const double kZ[] = {0, 1.5, -4};
    k.from = pt("from", kPts, 4, kZ[c.pick("from z", 3)]);
    k.to = pt("to", kPts, 5, kZ[c.pick("to z", 3)]);
    k.at = pt("at", kAts, 3, kZ[c.pick("at z", 3)]);
    k.view = c.pick("view", c.thorough ? 7 : 3);
    k.scale = c.thorough ? c.pick("scale", 3) : 0;
    k.fm = 0;
  } else if (part == 3) {  // short and long: what's measured, and the vector that gives the direction
    static const struct {
      double size;
      int scale;
    } kSizes[] = {{1, 0}, {1e-3, 5}, {1e-3, 0}, {.025, 6}, {.025, 0}, {30, 7}, {30, 8}, {1000, 8}};
    static const double kLong[] = {1, 1e-6, 1e-3, 200, 1e6};
    auto& z = kSizes[c.pick("size", 8)];
    int lg = c.pick("length", 5);
    k.size = z.size, k.scale = z.scale;
    k.dir = pt("dir", kDirs, c.thorough ? 9 : 6) * kLong[lg];
    k.from = pt("from", kPts, c.thorough ? 6 : 4) * k.size;
    k.to = pt("to", kPts, c.thorough ? 7 : 6) * k.size;
    k.at = pt("at", kAts, c.thorough ? 5 : 3) * k.size;
    k.view = c.pick("view", c.thorough ? 7 : 3);
    k.fm = k.size < .1 ? 4 : 0;
  } else {  // directions out of the view's plane
    static const V3 kD[] = {{1, 0, 1}, {0, 1, -2}, {1, 1, 1}, {0, 0, 1}, {-2, .5, .25}, {.01, 0, -3}};
    k.dir = kD[c.pick("dir", 6)];
    static const double kZ[] = {0, 1.5, -4};
    k.from = pt("from", kPts, 4, kZ[c.pick("from z", 3)]);
    k.to = pt("to", kPts, 5, kZ[c.pick("to z", 3)]);
    k.at = pt("at", kAts, 3);
    k.view = c.pick("view", 7);
    k.scale = c.pick("scale", 3);
    k.fm = c.pick("fmt", c.thorough ? 4 : 1);
  }
  auto sh = [](V3 p) { return fmt("%g,%g,%g ", p.x, p.y, p.z); };
  c.state(sh(k.dir) + sh(k.from) + sh(k.to) + sh(k.at) + fmt("%d %d %d", k.view, k.scale, k.fm));
  if (!c.mine()) return;
  Judge(c, k);
}
}  // namespace

int main(int argc, char** argv) {
  Model m;
  m.property = "C14";
  m.body = Body;
  m.quick_bound = m.thorough_bound = 1;
  m.rule =
      "9 directions x 5 (8) first x 7 (8) second points (coincident, reversed, skew, on and off the line) x 5 (7) label "
      "positions x 3 (7) views x 3 (5) scales x 3 (4) label lengths in the view's plane; points at three depths; "
      "directions out of the plane; 8 sizes of what is measured (1/1000 to 1000) x 5 lengths of the vector that gives the "
      "direction (1e-6 to 1e6). Every line of the page is accounted for.";
  m.assumptions = {"lengths under 1e-5 and directions seen end on have no lines to judge"};
  return run(argc, argv, m);
}
