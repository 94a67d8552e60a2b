// Which parts of a solid's feature edges are visible: an oracle by intervals.
#ifndef MC_HIDDEN_H_
#define MC_HIDDEN_H_
#include <algorithm>
#include <array>
#include <map>
#include <string>
#include <vector>

#include "model.h"

namespace mc {
namespace {
struct Edge3 {
  V3 a, b;                 // in view space (x right, y up, z to the viewer)
  int faces = 0;           // faces turned to the viewer it belongs to
  double min_dot = 1;      // of their normals
  double max_dot = -1;
  bool sure = false, maybe = false;  // drawn; drawn or not
};
struct View3 {
  std::vector<std::array<V3, 3>> tri;  // all faces, view space
  std::vector<V3> n;                   // unit normals
  std::vector<char> front;
  std::vector<std::array<double, 4>> box;  // x1, y1, x2, y2
  std::vector<Edge3> edges;
};
constexpr double kEdgeOn = 1e-6;

View3 Project(const Mesh& m, const Frame& f) {
  View3 v;
  using K = std::array<double, 6>;
  std::map<K, Edge3> e;
  std::map<K, std::vector<V3>> ns;
  for (auto& t : m) {
    std::array<V3, 3> p = {f.map(t.a), f.map(t.b), f.map(t.c)};
    V3 n = f.map(unit(t.n()));
    v.tri.push_back(p);
    v.n.push_back(n);
    v.front.push_back(n.z > kEdgeOn);
    v.box.push_back({std::min({p[0].x, p[1].x, p[2].x}), std::min({p[0].y, p[1].y, p[2].y}),
                     std::max({p[0].x, p[1].x, p[2].x}), std::max({p[0].y, p[1].y, p[2].y})});
    if (n.z <= kEdgeOn) continue;
    const V3* q[3] = {&t.a, &t.b, &t.c};
    for (int i = 0; i < 3; i++) {
      V3 a = *q[i], b = *q[(i + 1) % 3];
      K k = {a.x, a.y, a.z, b.x, b.y, b.z}, r = {b.x, b.y, b.z, a.x, a.y, a.z};
      if (r < k) k = r, std::swap(a, b);
      Edge3& x = e[k];
      x.a = f.map(a);
      x.b = f.map(b);
      x.faces++;
      ns[k].push_back(n);
    }
  }
  for (auto& [k, x] : e) {
    auto& l = ns[k];
    for (size_t i = 0; i < l.size(); i++)
      for (size_t j = i + 1; j < l.size(); j++) {
        x.min_dot = std::min(x.min_dot, dot(l[i], l[j]));
        x.max_dot = std::max(x.max_dot, dot(l[i], l[j]));
      }
    x.sure = x.faces == 1 || (x.faces == 2 && x.min_dot < .9799);
    x.maybe = x.sure || (x.faces == 2 ? x.min_dot < .9801 : x.min_dot < .9801);
    if (x.maybe) v.edges.push_back(x);
  }
  return v;
}

double Cross2(V3 a, V3 b, double x, double y) { return (b.x - a.x) * (y - a.y) - (b.y - a.y) * (x - a.x); }

// The faces turned to the viewer that could hide a part of an edge.
std::vector<int> Near(const View3& v, const Edge3& e) {
  std::vector<int> r;
  const double g = 1e-3;
  for (size_t i = 0; i < v.tri.size(); i++) {
    auto& b = v.box[i];
    if (v.front[i] && b[0] < std::max(e.a.x, e.b.x) + g && b[2] > std::min(e.a.x, e.b.x) - g &&
        b[1] < std::max(e.a.y, e.b.y) + g && b[3] > std::min(e.a.y, e.b.y) - g)
      r.push_back(i);
  }
  return r;
}
// Is the point behind a face (by more than the depth margin)?
bool Behind(const View3& v, const std::vector<int>& near, double x, double y, double z, double margin) {
  for (int i : near) {
    auto& b = v.box[i];
    if (x < b[0] || x > b[2] || y < b[1] || y > b[3]) continue;
    auto& t = v.tri[i];
    if (Cross2(t[0], t[1], x, y) < 0 || Cross2(t[1], t[2], x, y) < 0 || Cross2(t[2], t[0], x, y) < 0) continue;
    V3 n = v.n[i];
    double zp = t[0].z - (n.x * (x - t[0].x) + n.y * (y - t[0].y)) / n.z;
    if (zp - z > margin) return true;
  }
  return false;
}
enum Vis { kVisible, kHidden, kUnsure };
Vis Visible(const View3& v, const std::vector<int>& near, V3 p) {
  const double e = 1e-6;
  int h = 0;
  for (int i = 0; i < 8; i++) {
    double a = i * M_PI / 4 + 0.3;
    h += Behind(v, near, p.x + e * cos(a), p.y + e * sin(a), p.z, 1e-3);
  }
  return h == 0 ? kVisible : h == 8 ? kHidden : kUnsure;
}

// Parameters along an edge where something may change.
std::vector<double> Cuts(const View3& v, const std::vector<int>& near, const Edge3& e) {
  std::vector<double> c = {0, 1};
  V3 d = e.b - e.a;
  for (int i : near) {
    auto& t = v.tri[i];
    for (int k = 0; k < 3; k++) {
      V3 p = t[k], q = t[(k + 1) % 3], u = q - p;
      double det = d.x * u.y - d.y * u.x;
      for (V3 w : {p, q}) {  // where an end of it comes nearest
        double s = d.x * d.x + d.y * d.y;
        if (s > 0) c.push_back(((w.x - e.a.x) * d.x + (w.y - e.a.y) * d.y) / s);
      }
      if (fabs(det) < 1e-12) continue;
      c.push_back(((p.x - e.a.x) * u.y - (p.y - e.a.y) * u.x) / det);
    }
    double dn = dot(d, v.n[i]);
    if (fabs(dn) > 1e-12) c.push_back(dot(t[0] - e.a, v.n[i]) / dn);
  }
  std::vector<double> r;
  std::sort(c.begin(), c.end());
  for (double x : c)
    if (x >= 0 && x <= 1 && (r.empty() || x - r.back() > 1e-9)) r.push_back(x);
  return r;
}

std::string fmt_at(double x, double y) {
  char b[80];
  snprintf(b, sizeof b, " at (%.3f,%.3f)", x, y);
  return b;
}

double SegDist(double x, double y, double x1, double y1, double x2, double y2) {
  double dx = x2 - x1, dy = y2 - y1, s = dx * dx + dy * dy;
  double t = s > 0 ? ((x - x1) * dx + (y - y1) * dy) / s : 0;
  t = std::min(1.0, std::max(0.0, t));
  return hypot(x - x1 - t * dx, y - y1 - t * dy);
}

// Outside the box of a segment by more than g?
bool Apart(double x, double y, double x1, double y1, double x2, double y2, double g) {
  return (x < x1 - g && x < x2 - g) || (x > x1 + g && x > x2 + g) || (y < y1 - g && y < y2 - g) || (y > y1 + g && y > y2 + g);
}

// Compares a drawing (page lines) with the oracle.  Empty: agrees.
std::string JudgeLines(const View3& v, const Place& pl, const std::vector<PsLine>& lines, std::string* kind,
                       long* checked, double tol = 2e-2 /* points */) {
  struct Piece {
    double x1, y1, x2, y2;
    Vis vis;
    bool sure;
  };
  std::vector<Piece> pieces;
  for (auto& e : v.edges) {
    auto near = Near(v, e);
    auto cs = Cuts(v, near, e);
    V3 d = e.b - e.a;
    double len = hypot(d.x, d.y);
    for (size_t i = 0; i + 1 < cs.size(); i++) {
      double w = (cs[i + 1] - cs[i]) * len;
      V3 mid = e.a + d * ((cs[i] + cs[i + 1]) / 2);
      V3 p = e.a + d * cs[i], q = e.a + d * cs[i + 1];
      Vis s = w < 0.02 ? kUnsure : Visible(v, near, mid);
      pieces.push_back({pl.X(p.x), pl.Y(p.y), pl.X(q.x), pl.Y(q.y), s, e.sure});
    }
  }
  // Every visible piece is inked: at its middle and near its ends.
  for (auto& p : pieces) {
    if (!p.sure || p.vis != kVisible) continue;
    double l = hypot(p.x2 - p.x1, p.y2 - p.y1), m = std::min(0.25, 0.2 / l);
    for (double t : {0.5, m, 1 - m}) {
      double x = p.x1 + (p.x2 - p.x1) * t, y = p.y1 + (p.y2 - p.y1) * t, best = 1e300;
      for (auto& s : lines)
        if (!Apart(x, y, s.x1, s.y1, s.x2, s.y2, tol)) best = std::min(best, SegDist(x, y, s.x1, s.y1, s.x2, s.y2));
      ++*checked;
      if (best > tol) {
        *kind = "missing";
        return "nothing is drawn on the visible part " + Show(PsLine{p.x1, p.y1, p.x2, p.y2});
      }
    }
  }
  // Everything inked is some piece that is not hidden.
  for (auto& s : lines) {
    double l = hypot(s.x2 - s.x1, s.y2 - s.y1);
    if (l < 0.5) continue;
    // between the places where pieces end on it
    std::vector<double> c = {0, 1};
    for (auto& p : pieces)
      for (int k = 0; k < 2; k++) {
        double x = k ? p.x2 : p.x1, y = k ? p.y2 : p.y1;
        if (Apart(x, y, s.x1, s.y1, s.x2, s.y2, .1) || SegDist(x, y, s.x1, s.y1, s.x2, s.y2) > 0.1) continue;
        c.push_back(((x - s.x1) * (s.x2 - s.x1) + (y - s.y1) * (s.y2 - s.y1)) / (l * l));
      }
    std::sort(c.begin(), c.end());
    for (size_t i = 0; i + 1 < c.size(); i++) {
      if (c[i] < 0 || c[i + 1] > 1 || (c[i + 1] - c[i]) * l < 0.5) continue;
      double t = (c[i] + c[i + 1]) / 2, x = s.x1 + (s.x2 - s.x1) * t, y = s.y1 + (s.y2 - s.y1) * t;
      bool edge = false, shown = false;
      for (auto& p : pieces) {
        if (Apart(x, y, p.x1, p.y1, p.x2, p.y2, tol) || SegDist(x, y, p.x1, p.y1, p.x2, p.y2) > tol) continue;
        edge = true;
        shown |= p.vis != kHidden;
      }
      ++*checked;
      if (!edge) {
        *kind = "not an edge";
        return "drawn where there is no feature edge: " + Show(s) + fmt_at(x, y);
      }
      if (!shown) {
        *kind = "hidden";
        return "drawn though hidden: " + Show(s) + fmt_at(x, y);
      }
    }
  }
  return "";
}
}  // namespace
}  // namespace mc
#endif
