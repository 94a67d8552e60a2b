// C09: every view is the named rotation, for the model and for points alike.
#include "engine.h"
#include "hidden.h"
#include "model.h"
#include "page.h"
#include "solids.h"

using namespace mc;

namespace {
const V3 kProbe[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 2, .5}, {.25, -.5, -1.5}, {0, 0, 0}};

const Mesh& Solid(int i) {
  static const auto& s = *new std::vector<Mesh>{Moved(Tetra(), {-.5, .25, .125}, 1.5), Voxels(2, 2, 2, 0x17, {1, .6, 1.4}),
                                                Moved(Wedge(), {.5, -1, 0}, 1.25)};
  return s[i];
}

void View(Ctx& c, const ViewSpec& v, const std::string& name) {
  int part = c.pick("part", 4);
  c.state(name + fmt(" %d", part));
  if (!c.mine()) return;
  if (part < 3) {
    const Mesh& m = Solid(part);
    std::string text = "load s = " + Quote(WriteFile(c.scratch, fmt("v%d.stl", part), StlText(m))) + ";\npage { draw s { @[0,0]; " +
                       (v.script.empty() ? "" : "view=" + v.script + "; ") + "} }\n";
    c.note(text);
    PsPage p = OnePage(c, text);
    Place pl = Placement(VisibleBox(m, v.frame, kEdgeOn), 1, 1, true, 0, 0);
    std::string kind;
    long n = 0;
    std::string why = JudgeLines(Project(m, v.frame), pl, p.lines, &kind, &n);
    c.outcome(fmt("%zu", p.lines.size()));
    if (!why.empty()) c.fail("model", why + "\n" + text);
    return;
  }
  // Points: with a model without faces the origin is at the page centre.
  std::string text = "load e = \"/dev/null\";\npage { draw e { @[0,0]; " + (v.script.empty() ? "" : "view=" + v.script + "; ") + "\n";
  int n = sizeof kProbe / sizeof *kProbe;
  for (int i = 0; i < n; i++) {
    V3 a = kProbe[i], b = kProbe[(i + 1) % n], d = kProbe[(i + 2) % n];
    if (norm(d) == 0) d = {1, 2, 3};
    text += "dim(at=" + P3(a) + ",dir=" + P3(d) + ",from=" + P3(a) + ",to=" + P3(b) + ",fmt=\"" + fmt("p%d ", i) + "%.4f\");\n";
  }
  text += "} }\n";
  c.note(text);
  PsPage p = OnePage(c, text);
  c.check(int(p.texts.size()) == n, "labels", "labels are missing\n" + text + Show(p));
  for (int i = 0; i < n; i++) {
    V3 a = kProbe[i], b = kProbe[(i + 1) % n], d = kProbe[(i + 2) % n], q = v.frame.map(a);
    if (norm(d) == 0) d = {1, 2, 3};
    std::string want = fmt("p%d %.4f", i, fabs(dot(b - a, unit(d))));
    bool f = false, at = false;
    for (auto& t : p.texts) {
      // the last digit may round either way
      bool same = t.s.compare(0, 3, want, 0, 3) == 0 && fabs(atof(t.s.c_str() + 3) - atof(want.c_str() + 3)) < 1.5e-4;
      f |= same;
      at |= same && Near(t.ax, 396 + 72 * q.x, 2e-2) && Near(t.ay, 306 + 72 * q.y, 2e-2);
    }
    c.check(f, "length", "no label '" + want + "'\n" + text + Show(p));
    c.check(at, "point", "label '" + want + fmt("' is not at (%.3f,%.3f)\n", 396 + 72 * q.x, 306 + 72 * q.y) + text + Show(p));
  }
  c.outcome("points");
}

// A right angle in the view plane stays one, and turns the same way.
void Turn(Ctx& c, const ViewSpec& v, const std::string& name) {
  int k = c.pick("arms", 4);
  c.state(name + fmt(" turn %d", k));
  if (!c.mine()) return;
  double al = (k * 90 + 20) * M_PI / 180;
  auto in = [&](double t) {
    V3 p = v.frame.r * (2 * cos(t)) + v.frame.u * (2 * sin(t));
    return V3{float(p.x), float(p.y), float(p.z)};
  };
  std::string text = "load e = \"/dev/null\";\npage { draw e { @[0,0]; " + (v.script.empty() ? "" : "view=" + v.script + "; ") +
                     "angle(at=" + P3(in(al + .5)) + ",apex=[0,0,0],from_dir=" + P3(in(al)) + ",to_point=" + P3(in(al + 1)) +
                     ",fmt=\"%.2f\"); } }\n";
  c.note(text);
  PsPage p = OnePage(c, text);
  c.check(p.texts.size() == 1 && p.arcs.size() == 1, "angle", "no angle\n" + text + Show(p));
  c.check(p.texts[0].s == "57.30 deg", "angle", "'" + p.texts[0].s + "' instead of 57.30\n" + text);
  auto turn = [](double a, double b) { return fabs(remainder(a - b, 360)); };
  double a = al * 180 / M_PI;
  c.check(turn(p.arcs[0].a, a) < .05 && turn(p.arcs[0].b, a + 180 / M_PI) < .05, "arc",
          fmt("the arc does not run from %.2f to %.2f\n", a, a + 180 / M_PI) + text + Show(p));
  c.outcome("turn");
}

void Body(Ctx& c) {
  static const char* kNames[] = {"X+", "X-", "Y+", "Y-", "Z+", "Z-"};
  switch (c.pick("kind", 3)) {
    case 0: {
      int i = c.pick("name", 7);
      ViewSpec v = i == 6 ? ViewSpec{"", NamedView("Z+")} : Named(kNames[i]);
      if (c.pick("turn", 2)) return Turn(c, v, kNames[i % 6]);
      return View(c, v, i == 6 ? "none" : kNames[i]);
    }
    case 1: {
      int step = c.thorough ? 9 : 15, lim = c.thorough ? 720 : 450;
      static const double kOdd[] = {0.5, 89.75, -123.25, 1000, 44.984375};
      int n = 2 * lim / step + 1, i = c.pick("a", n + 5), j = c.pick("b", n + 5);
      double a = i < n ? i * step - lim : kOdd[i - n], b = j < n ? j * step - lim : kOdd[j - n];
      ViewSpec v = Angled(a, b);
      if (c.pick("turn", 2)) return Turn(c, v, v.script);
      return View(c, v, v.script);
    }
    default: {
      // Anything else is no view.
      static const char kCh[] = "XYZxz+- ";
      std::string s;
      for (int i = c.pick("length", c.thorough ? 5 : 4); i > 0; i--) s += kCh[c.pick("char", 8)];
      for (auto* n : kNames)
        if (s == n) c.prune();
      c.state(s);
      if (!c.mine()) return;
      std::string text = "load e = \"/dev/null\";\npage { draw e { view=" + Quote(s) + "; } }\n";
      c.note(text);
      Result r = RunScript(text);
      c.traced();
      c.check(!r.ok && r.out.empty(), "name", "an unknown view is accepted\n" + text);
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  Model m;
  m.property = "C09";
  m.body = Body;
  m.quick_bound = m.thorough_bound = 1;
  m.rule =
      "no view, the 6 named views and every pair of angles from a grid of 15 degrees to +-450 (9 degrees to +-720) "
      "plus 5 odd ones, each with three asymmetric solids, six labelled probe points with a length each, and an angle in "
      "four positions; every other name of up to 3 (4) characters is refused.";
  m.assumptions = {"lines are judged by the visibility oracle of C10"};
  return run(argc, argv, m);
}
