// One page out of one script.
#ifndef MC_PAGE_H_
#define MC_PAGE_H_
#include "engine.h"
#include "model.h"
#include "psdoc.h"
#include "run.h"

namespace mc {
namespace {
// Runs a correct script of one page; returns what is on it besides furniture.
inline PsPage OnePage(Ctx& c, const std::string& text, Furniture* fu = nullptr) {
  Result r = RunScript(text);
  c.traced();
  c.check(r.ok, "refused", "a correct script is refused:\n" + text + r.err);
  PsDoc d = RunPs(r.out);
  c.check(d.ok, "postscript", d.error + "\n" + text);
  c.check(d.pages.size() == 1, "pages", fmt("%zu pages instead of one:\n", d.pages.size()) + text);
  PsPage rest;
  Furniture f;
  std::string why;
  c.check(Strip(d.pages[0], &rest, &f, &why), "furniture", why + "\n" + text + Show(d.pages[0]));
  if (fu) *fu = f;
  return rest;
}
inline bool Near(double a, double b, double tol) { return fabs(a - b) <= tol; }
// Removes the line with these ends (either way round).
inline bool TakeLine(std::vector<PsLine>* l, double x1, double y1, double x2, double y2, double tol) {
  for (size_t i = 0; i < l->size(); i++) {
    auto& s = (*l)[i];
    bool a = Near(s.x1, x1, tol) && Near(s.y1, y1, tol) && Near(s.x2, x2, tol) && Near(s.y2, y2, tol);
    bool b = Near(s.x1, x2, tol) && Near(s.y1, y2, tol) && Near(s.x2, x1, tol) && Near(s.y2, y1, tol);
    if (a || b) {
      l->erase(l->begin() + i);
      return true;
    }
  }
  return false;
}
inline double PtSeg(double x, double y, const PsLine& s) {
  double dx = s.x2 - s.x1, dy = s.y2 - s.y1, n = dx * dx + dy * dy;
  double t = n > 0 ? ((x - s.x1) * dx + (y - s.y1) * dy) / n : 0;
  t = std::min(1.0, std::max(0.0, t));
  return hypot(x - s.x1 - t * dx, y - s.y1 - t * dy);
}
// Is every point of the segment inked by one of the lines?
inline bool Inked(const std::vector<PsLine>& l, double x1, double y1, double x2, double y2, double tol, int n = 16) {
  for (int i = 0; i <= n; i++) {
    double t = double(i) / n, x = x1 + t * (x2 - x1), y = y1 + t * (y2 - y1), b = 1e300;
    for (auto& s : l) b = std::min(b, PtSeg(x, y, s));
    if (b > tol) return false;
  }
  return true;
}
}  // namespace
}  // namespace mc
#endif
