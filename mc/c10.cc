// C10: hidden lines are removed, visible ones drawn.
#include <set>

#include "engine.h"
#include "hidden.h"
#include "model.h"
#include "psdoc.h"
#include "run.h"
#include "solids.h"

using namespace mc;

namespace {
void Body(Ctx& c) {
  Mesh m;
  std::string what;
  ViewSpec v;
  if (c.pick("big", 2)) {  // many facets
    int k = c.pick("solid", BigSolids());
    static const auto& vs = *new std::vector<ViewSpec>{Angled(5, 80), Named("Y-"), Angled(30, 20), Angled(-35, 70), Named("Z+"), Named("Z-"), Angled(160, 65), Angled(77, 110)};
    v = vs[c.pick("view", c.thorough ? 8 : 6)];
    int order = c.pick("order", 3), turn = c.pick("turned", c.thorough ? 3 : 1);
    m = BigSolid(k, &what);
    if (order == 1) std::reverse(m.begin(), m.end());
    if (order == 2) std::rotate(m.begin(), m.begin() + m.size() / 3, m.end());
    m = Turned(m, turn);
    what += fmt(" order %d turned %d", order, turn);
  } else {
    if (!PickSolid(c, &m, &what)) c.prune();
    v = PickView(c);
  }
  // the same drawing of a model of another size
  static const int kSize[] = {1, 1000, -1000, 20};
  int size = what.find("touching") != std::string::npos ? kSize[c.pick("size", 4)] : 1;
  if (size != 1) what += fmt(" size %d", size);
  c.state(what + v.script);
  if (!c.mine()) return;
  std::string stl = StlText(Moved(m, {0, 0, 0}, size < 0 ? -1. / size : size));
  std::string path = WriteFile(c.scratch, "s.stl", stl);
  std::string scale = size == 1 ? "" : size < 0 ? fmt(" scale=%d:1;", -size) : fmt(" scale=1:%d;", size);
  std::string text = "load s = " + Quote(path) + ";\npage { draw s { @[0,0]; view=" + v.script + ";" + scale + " } }\n";
  c.note(what + "\n" + text + stl);
  Result r = RunScript(text);
  c.traced();
  c.check(r.ok, "refused", "a correct script is refused:\n" + r.err);
  PsDoc d = RunPs(r.out);
  c.check(d.ok, "postscript", d.error);
  PsPage rest;
  Furniture f;
  std::string why;
  c.check(d.pages.size() == 1 && Strip(d.pages[0], &rest, &f, &why), "furniture", why);
  View3 pv = Project(m, v.frame);
  Place pl = Placement(VisibleBox(m, v.frame, kEdgeOn), 1, 1, true, 0, 0);
  std::string kind;
  long n = 0;
  why = JudgeLines(pv, pl, rest.lines, &kind, &n);
  c.outcome(fmt("%zu %ld", rest.lines.size(), n));
  if (!why.empty()) c.fail(kind + " " + what + " " + v.script, why + "\n" + what + "\n" + text);
}
}  // namespace

int main(int argc, char** argv) {
  Model m;
  m.property = "C10";
  m.body = Body;
  m.quick_bound = 1;
  m.thorough_bound = 2;
  m.rule = SolidRule();
  m.assumptions = {"decided at points clear of projected edges by a margin; coinciding edges count as visible if one of them is"};
  return run(argc, argv, m);
}
