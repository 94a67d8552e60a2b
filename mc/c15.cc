// C15: angle calls.
#include "engine.h"
#include "model.h"
#include "page.h"
#include "solids.h"

using namespace mc;

namespace {
const std::vector<ViewSpec>& Vs() {
  static const auto& v = *new std::vector<ViewSpec>{Named("Z+"), Named("X-"), Angled(30, 20), Named("Y+"), Angled(-110, 75), Named("Z-"), Angled(45, 180)};
  return v;
}
struct Ratio {
  const char* s;
  double k;
};
const Ratio kScales[] = {{"1:1", 1}, {"1:8", .125}, {"5:2", 2.5}, {"20:1", 20}};
const char* const kFmts[] = {"", "%.3f", "about %.0f"};
const double kDeg[] = {0, 30, 45, 90, 91, 135, 180, 200, 225, 270, 300, 359};
V3 Fl(V3 p) { return {float(p.x), float(p.y), float(p.z)}; }

std::string Props(V3 at, V3 apex, bool fp, V3 f, bool tp, V3 t, const std::string& fm) {
  return "at=" + P3(at) + ",apex=" + P3(apex) + (fp ? ",from_point=" : ",from_dir=") + P3(f) + (tp ? ",to_point=" : ",to_dir=") +
         P3(t) + (fm.empty() ? "" : ",fmt=" + Quote(fm));
}
std::string Script(const ViewSpec& v, const char* scale, const std::string& props) {
  return "load e = \"/dev/null\";\npage { draw e { @[0,0]; scale=" + std::string(scale) + "; view=" + v.script + "; angle(" + props + "); } }\n";
}
void Label(Ctx& c, const PsText& t, const std::string& f, double val, const std::string& text) {
  bool said = false;
  std::string want;
  for (double e : {0., 1e-4, -1e-4, 3e-5, -3e-5, 2e-6, -2e-6}) {
    char b[100];
    snprintf(b, sizeof b, f.empty() ? "%.1f" : f.c_str(), fabs(val + e));
    if (e == 0) want = b + std::string(" deg");
    said |= t.s == b + std::string(" deg");
  }
  if (!said && !f.empty() && f.find(".3") != std::string::npos) said = fabs(atof(t.s.c_str()) - val) < 2e-3 && t.s.size() > 4 && t.s.substr(t.s.size() - 4) == " deg";
  c.check(said, "label", "'" + t.s + "' instead of '" + want + "'\n" + text);
}

// Arms a bit apart or a bit off opposite, and directions given by short and long vectors (`thin`).
void Flat(Ctx& c, bool thin) {
  int nd = thin ? 13 : 12;
  static const double kThin[] = {0, .02, 30, 30.1, 135, 179.97, 225, 210.4, 90.1, 120.2, 75.05, .004, 179.995};
  auto deg = thin ? kThin : kDeg;
  double a = deg[c.pick("from", nd)], b = deg[c.pick("to", nd)];
  int how = c.pick("how", 4), far = c.pick("far", thin ? 3 : c.thorough ? 3 : 2), at_i = c.pick("at", c.thorough ? 6 : thin ? 2 : 4), ap_i = c.pick("apex", 2);
  int view = c.pick("view", c.thorough ? 7 : 3), sc = c.pick("scale", c.thorough ? 4 : thin ? 2 : 3), fm = c.pick("fmt", c.thorough ? 3 : 2);
  c.state(fmt("%g %g %d %d %d %d %d %d %d %d", a, b, how, far, at_i, ap_i, view, sc, fm, thin));
  if (!c.mine()) return;
  auto& v = Vs()[view];
  static const V3 kApex[] = {{0, 0, 0}, {-1.5, .75, 0}};
  static const V3 kAt[] = {{1, 1, 0}, {-2, .5, 0}, {.25, -3, 0}, {.03, -.02, 0}, {.125, 0, 0}, {3, 0, 0}};
  static const double kLen[] = {1, 2.5, .125};
  auto model = [&](V3 p) { return Fl(v.frame.r * p.x + v.frame.u * p.y + v.frame.w * p.z); };
  auto dir = [&](double d, double l) { return V3{l * cos(d * M_PI / 180), l * sin(d * M_PI / 180), 0}; };
  bool fp = how & 1, tp = how & 2;
  V3 apex = kApex[ap_i], at = kAt[at_i] + apex;
  static const double kLong[] = {1e-5, 1, 2e4};
  double l1 = (thin && !fp ? kLong : kLen)[far], l2 = (thin && !tp ? kLong : kLen)[(far + 1) % 3];
  V3 mf = model((fp ? apex : V3{}) + dir(a, l1)), mt = model((tp ? apex : V3{}) + dir(b, l2)), ma = model(at), mx = model(apex);
  std::string f = kFmts[fm], text = Script(v, kScales[sc].s, Props(ma, mx, fp, mf, tp, mt, f));
  c.note(text);
  double diff = fabs(remainder(a - b, 360));
  if (diff < .001 || diff > 179.999) {
    Result r = RunScript(text);
    c.traced();
    // The script's numbers are floats: they may be a bit off parallel.
    V3 u = unit(v.frame.map(fp ? mf - mx : mf)), w = unit(v.frame.map(tp ? mt - mx : mt));
    bool exact = fabs(u.x * w.y - u.y * w.x) < 1e-13;
    if (exact) c.check(!r.ok && r.out.empty(), "parallel", "parallel arms are accepted\n" + text);
    c.outcome("parallel");
    return;
  }
  PsPage p = OnePage(c, text);
  at = v.frame.map(ma), apex = v.frame.map(mx);
  V3 from = v.frame.map(mf), to = v.frame.map(mt);
  V3 u = unit(fp ? from - apex : from), w = unit(tp ? to - apex : to);
  V3 fpnt = fp ? from : apex, tpnt = tp ? to : apex;
  if (u.x * w.y - u.y * w.x < 0) std::swap(u, w), std::swap(fpnt, tpnt);
  double s = 72 * kScales[sc].k, tol = 2e-2 + 1e-5 * s;
  c.check(p.texts.size() == 1 && p.arcs.size() == 1, "label", "not one label and one arc\n" + text + Show(p));
  auto X = [&](V3 q) { return 396 + s * q.x; };
  auto Y = [&](V3 q) { return 306 + s * q.y; };
  double val = acos(std::max(-1., std::min(1., dot(u, w)))) * 180 / M_PI;
  Label(c, p.texts[0], f, val, text);
  c.check(Near(p.texts[0].ax, X(at), tol) && Near(p.texts[0].ay, Y(at), tol) && Near(p.texts[0].cx(), p.texts[0].ax, .01), "place",
          fmt("the label is not centred at (%.3f,%.3f)\n", X(at), Y(at)) + text + Show(p));
  double l = norm(at - apex), lp = l * s;
  auto& arc = p.arcs[0];
  auto ang = [](V3 d) { return atan2(d.y, d.x) * 180 / M_PI; };
  auto off = [](double x, double y) { return fabs(remainder(x - y, 360)); };
  c.check(Near(arc.x, X(apex), tol) && Near(arc.y, Y(apex), tol) && Near(arc.r, lp, tol), "arc",
          fmt("the arc is not about (%.3f,%.3f) with radius %.3f\n", X(apex), Y(apex), lp) + text + Show(p));
  c.check(off(arc.a, ang(u)) < .01 && off(arc.b, ang(w)) < .01, "arc", fmt("the arc does not run from %.3f to %.3f\n", ang(u), ang(w)) + text + Show(p));
  auto lines = p.lines;
  auto take = [&](V3 p1, double x1, double y1, V3 p2, double x2, double y2, const char* key) {
    x1 += X(p1), y1 += Y(p1), x2 += X(p2), y2 += Y(p2);
    if (TakeLine(&lines, x1, y1, x2, y2, tol)) return;
    if (hypot(x1 - x2, y1 - y2) < 2 * tol) return;
    c.fail(key, std::string("no ") + key + " " + Show(PsLine{x1, y1, x2, y2}) + "\n" + text + Show(p));
  };
  V3 pu = apex + u * l, pw = apex + w * l;
  // Along each arm: from 2 points past what it is given by to 4 past the arc.
  take(fpnt, 2 * u.x, 2 * u.y, pu, 4 * u.x, 4 * u.y, "extension line");
  take(tpnt, 2 * w.x, 2 * w.y, pw, 4 * w.x, 4 * w.y, "extension line");
  // Arrow heads: along the arc, into the angle.
  for (int sg : {-2, 2}) {
    take(pu, 0, 0, pu, sg * u.x - 6 * u.y, sg * u.y + 6 * u.x, "arrow");
    take(pw, 0, 0, pw, sg * w.x + 6 * w.y, sg * w.y - 6 * w.x, "arrow");
  }
  for (auto& x : lines) c.check(hypot(x.x1 - x.x2, x.y1 - x.y2) < 2 * tol, "extra", "an extra " + Show(x) + "\n" + text + Show(p));
  c.outcome(fmt("%.0f", val));
}

// Arms out of the view's plane: the angle between them all the same.
void Deep(Ctx& c) {
  static const V3 kD[] = {{1, 0, 0}, {0, 1, 0}, {1, 1, 1}, {-1, 2, .5}, {0, 1, -2}, {-3, 0, 1}, {.5, -.5, 4}};
  V3 f = kD[c.pick("from", 7)], t = kD[c.pick("to", 7)], ap{c.pick("apex", 2) * 1.5, 0, -1};
  int how = c.pick("how", 4), view = c.pick("view", 7), fm = c.pick("fmt", 3);
  c.state(fmt("deep %g %g %g %g %g %g %d %d %d", f.x, f.y, f.z, t.x, t.y, t.z, how, view, fm));
  V3 n = cross(f, t);
  auto& v = Vs()[view];
  if (fabs(dot(n, v.frame.w)) < 1e-3) c.prune();
  if (!c.mine()) return;
  std::string fs = kFmts[fm], text = Script(v, "1:1", Props({2, 2, 2}, ap, how & 1, how & 1 ? f + ap : f, how & 2, how & 2 ? t + ap : t, fs));
  c.note(text);
  PsPage p = OnePage(c, text);
  c.check(p.texts.size() == 1, "label", "not one label\n" + text + Show(p));
  Label(c, p.texts[0], fs, acos(dot(unit(f), unit(t))) * 180 / M_PI, text);
  c.outcome("deep");
}

// Missing and parallel arms.
void None(Ctx& c) {
  static const V3 kD[] = {{0, 0, 0}, {1, 0, 0}, {-2, 0, 0}, {.5, .25, 0}, {2, 1, 0}, {-4, -2, 0}, {3, 7, 0}, {-.375, -.875, 0}};
  int i = c.pick("from", 8), j = c.pick("to", 8), how = c.pick("how", 4), view = c.pick("view", 4), ax = c.pick("apex", 2);
  static const char* kV[] = {"\"Z+\"", "[0,0]", "\"Z-\"", "[37,0]"};
  V3 n = cross(kD[i], kD[j]);
  c.state(fmt("none %d %d %d %d %d", i, j, how, view, ax));
  if (norm(n) != 0) c.prune();
  if (!c.mine()) return;
  V3 ap{ax * .5, ax * -1.25, 0};
  std::string text = Script({kV[view], {}}, "1:1", Props({1, 2, 0}, ap, how & 1, how & 1 ? kD[i] + ap : kD[i], how & 2, how & 2 ? kD[j] + ap : kD[j], ""));
  c.note(text);
  Result r = RunScript(text);
  c.traced();
  c.check(!r.ok && r.out.empty(), "parallel", "parallel or missing arms are accepted\n" + text);
  c.outcome("refused");
}

void Body(Ctx& c) {
  switch (c.pick("part", 4)) {
    case 0: return Flat(c, false);
    case 1: return Deep(c);
    case 3: return Flat(c, true);
    default: return None(c);
  }
}
}  // namespace

int main(int argc, char** argv) {
  Model m;
  m.property = "C15";
  m.body = Body;
  m.quick_bound = m.thorough_bound = 1;
  m.rule =
      "12 x 12 arm directions (acute, right, obtuse, 1 and 359 degrees, across 180, parallel) each given as direction or "
      "point, x 2 (3) arm lengths x 3 (5) label positions x 2 apexes x 3 (7) views x 3 (4) scales x formats; arms out of "
      "the view's plane (label only); arms 0.004 to 0.02 degrees apart, 0.001 to 0.03 off opposite and 0.1 off right angles, directions given by vectors 1e-5 to "
      "2e4 long; parallel, opposite and zero arms. Every line of the page is accounted for.";
  m.assumptions = {"labels may round either way within 1e-4 degrees: the script's numbers are floats"};
  return run(argc, argv, m);
}
