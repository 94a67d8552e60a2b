// Closed solids and views to look at them from.
#ifndef MC_SOLIDS_H_
#define MC_SOLIDS_H_
#include "engine.h"
#include "model.h"

namespace mc {
namespace {
struct ViewSpec {
  std::string script;
  Frame frame;
};
ViewSpec Named(const char* n) { return {Quote(n), NamedView(n)}; }
ViewSpec Angled(double a, double b) { return {P2(a, b), AngleView(float(a), float(b))}; }
const std::vector<ViewSpec>& Views(bool thorough) {
  static const auto& q = *new std::vector<ViewSpec>{
      Named("X+"), Named("X-"), Named("Y+"), Named("Y-"), Named("Z+"), Named("Z-"),
      Angled(30, 20), Angled(-50, 65), Angled(137, 35), Angled(200, -25), Angled(45, 60), Angled(20, 0),
      Angled(0, 90), Angled(90, 90), Angled(45, 90), Angled(0, 45), Angled(180, 30), Angled(10, 110)};
  static const auto& t = *new std::vector<ViewSpec>([] {
    auto r = q;
    for (double a : {0., 15., 45., 60., 75., 120., 225., 300.})
      for (double b : {10., 35., 55., 80., -40., 145.}) r.push_back(Angled(a, b));
    return r;
  }());
  return thorough ? t : q;
}
ViewSpec PickView(Ctx& c) {
  auto& v = Views(c.thorough);
  return v[c.pick("view", v.size())];
}

// A union of unit cubes, every outer unit face as two triangles.
Mesh Voxels(int nx, int ny, int nz, unsigned bits, V3 step = {1, 1, 1}, int diag = 0) {
  Mesh m;
  auto in = [&](int x, int y, int z) {
    if (x < 0 || y < 0 || z < 0 || x >= nx || y >= ny || z >= nz) return false;
    return bool(bits >> (x + nx * (y + ny * z)) & 1);
  };
  auto P = [&](int x, int y, int z) { return V3{x * step.x, y * step.y, z * step.z}; };
  auto quad = [&](V3 a, V3 b, V3 p, V3 d) {
    if (diag)
      Quad(&m, b, p, d, a);
    else
      Quad(&m, a, b, p, d);
  };
  for (int z = 0; z < nz; z++)
    for (int y = 0; y < ny; y++)
      for (int x = 0; x < nx; x++) {
        if (!in(x, y, z)) continue;
        V3 p[8];
        for (int i = 0; i < 8; i++) p[i] = P(x + (i & 1), y + (i >> 1 & 1), z + (i >> 2 & 1));
        if (!in(x, y, z - 1)) quad(p[0], p[2], p[3], p[1]);
        if (!in(x, y, z + 1)) quad(p[4], p[5], p[7], p[6]);
        if (!in(x, y - 1, z)) quad(p[0], p[1], p[5], p[4]);
        if (!in(x, y + 1, z)) quad(p[2], p[6], p[7], p[3]);
        if (!in(x - 1, y, z)) quad(p[0], p[4], p[6], p[2]);
        if (!in(x + 1, y, z)) quad(p[1], p[3], p[7], p[5]);
      }
  return m;
}
Mesh Moved(Mesh m, V3 d, double k = 1) {
  for (auto& t : m)
    for (V3* p : {&t.a, &t.b, &t.c}) *p = *p * k + d;
  return m;
}
// Turned so that no face keeps a simple plane.
Mesh Turned(Mesh m, int how) {
  if (!how) return m;
  double a = how == 1 ? .6 : std::sin(.7), b = how == 1 ? .8 : std::cos(.7);
  double e = how == 1 ? 5. / 13 : std::sin(1.1), f = how == 1 ? 12. / 13 : std::cos(1.1);
  for (auto& t : m)
    for (V3* p : {&t.a, &t.b, &t.c}) {
      V3 q{p->x * b - p->y * a, p->x * a + p->y * b, p->z};
      *p = V3{q.x, q.y * f - q.z * e, q.y * e + q.z * f} + V3{.3173, -.2111, .1393};
    }
  return m;
}
Mesh Wedge() {
  Mesh w;
  V3 p[6] = {{0, 0, 0}, {1, 0, 0}, {0, 0, 1}, {0, 1, 0}, {1, 1, 0}, {0, 1, 1}};
  w.push_back({p[0], p[1], p[2]});
  w.push_back({p[3], p[5], p[4]});
  Quad(&w, p[0], p[3], p[4], p[1]);
  Quad(&w, p[1], p[4], p[5], p[2]);
  Quad(&w, p[0], p[2], p[5], p[3]);
  return w;
}
Mesh Pyramid() {
  Mesh w;
  V3 a{0, 0, 0}, b{1, 0, 0}, c{1, 1, 0}, d{0, 1, 0}, t{.5, .5, 1};
  Quad(&w, a, d, c, b);
  w.push_back({a, b, t});
  w.push_back({b, c, t});
  w.push_back({c, d, t});
  w.push_back({d, a, t});
  return w;
}
Mesh Tetra() {
  V3 a{0, 0, 0}, b{1, .2, .1}, c{.3, 1, 0}, d{.4, .3, 1.1};
  return {{a, c, b}, {a, b, d}, {b, c, d}, {c, a, d}};
}
// A plate with a square hole right through.
Mesh Frame3() {
  return Voxels(3, 3, 1, 0b111101111);
}
struct Prim {
  const char* name;
  Mesh m;
};
const std::vector<Prim>& Prims() {
  static const auto& p = *new std::vector<Prim>{
      {"box", Box({0, 0, 0}, {1, 1, 1})}, {"wedge", Wedge()}, {"pyramid", Pyramid()}, {"tetra", Tetra()},
      {"prism", Prism(6, .5, .5, .5, 0, 1, 7)}, {"frame", Moved(Frame3(), {0, 0, 0}, 1. / 3)}};
  return p;
}

bool PickSolid(Ctx& c, Mesh* m, std::string* what) {
  int mode = c.pick("solid", 5);
  if (mode == 0) {
    unsigned bits = 1 + c.pick("voxels", 255);
    *m = Voxels(2, 2, 2, bits);
    *what = fmt("voxels 2x2x2 %02x", bits);
    // Turned, with the few digits that other programs write.
    if (int turn = c.pick("turned", 3)) {
      *m = Turned(*m, turn);
      for (auto& t : *m)
        for (V3* p : {&t.a, &t.b, &t.c})
          for (double* x : {&p->x, &p->y, &p->z}) *x = atof(fmt("%g", *x).c_str());
      *what += fmt(" turned %d", turn);
    }
  } else if (mode == 1) {
    // a row of columns of different heights, not unit sized
    int k = c.thorough ? 4095 : 255;
    unsigned b = 1 + c.pick("voxels", k);
    if (c.thorough) {
      *m = Voxels(3, 2, 2, b, {1, .7, 1.3}, 1);
      *what = fmt("voxels 3x2x2 %03x", b);
    } else {
      *m = Voxels(2, 1, 4, b, {1, .7, .6}, 1);
      *what = fmt("voxels 2x1x4 %02x", b);
    }
  } else if (mode == 2) {
    // two solids apart
    auto& p = Prims();
    int i = c.pick("first", p.size()), j = c.pick("second", p.size());
    int n = 27, k = c.pick("place", n);
    static const double kAt[] = {-1.25, 0.15, 1.4};
    V3 d{kAt[k % 3], kAt[k / 3 % 3], kAt[k / 9]};
    if (k == 13) return false;
    // clear of each other along some axis
    *m = p[i].m;
    for (auto& t : Moved(p[j].m, d)) m->push_back(t);
    *what = fmt("%s and %s at %g,%g,%g", p[i].name, p[j].name, d.x, d.y, d.z);
  } else if (mode == 3) {
    // one standing on a box (or the box on it): faces touch
    auto& p = Prims();
    int j = c.pick("second", p.size() - 2);  // tetra has no base; frame's last
    if (j == 3) j = 5;
    static const V3 kOn[] = {{.2, .3, 1}, {0, 0, 1}, {.5, .25, 1}, {.31, .17, -1}, {.5, .5, 1}};
    int k = c.pick("where", 5), z = c.pick("size", 2);
    double s = z ? 1 : .4;
    V3 d = kOn[k];
    if (d.z < 0) d.z = -s;
    *m = Box({0, 0, 0}, {1, 1, 1});
    Mesh b = Moved(p[j].m, d, s);
    if (kOn[k].z < 0)  // its top has to be flat
      b = Moved(Box({0, 0, 0}, {1, .5, 1}), d, s);
    for (auto& t : b) m->push_back(t);
    int turn = c.pick("turned", 3);
    *m = Turned(*m, turn);
    *what = fmt("box and touching %s %d %d turned %d", p[j].name, k, z, turn);
  } else {
    // a small one before a large one
    auto& p = Prims();
    int i = c.pick("first", p.size()), j = c.pick("second", p.size());
    int k = c.pick("side", 6);
    double s = 0.31;
    static const V3 kD[] = {{-.6, .2, .3}, {1.3, .3, .4}, {.2, -.7, .3}, {.37, 1.4, .3}, {.3, .33, -.8}, {.31, .3, 1.7}};
    *m = p[i].m;
    for (auto& t : Moved(p[j].m, kD[k], s)) m->push_back(t);
    *what = fmt("%s and small %s %d", p[i].name, p[j].name, k);
  }
  return true;
}
// Models of many facets.  The first listed face looks down.
Mesh Comb(int posts) {  // a bar behind many posts
  Mesh m = Box({0, 0, 0}, {posts * .5 + .25, .5, .4});
  for (int i = 0; i < posts; i++)
    for (auto& t : Box({i * .5 + .25, -.4 - .1 * (i % 3), -.2}, {i * .5 + .45, -.2 - .1 * (i % 3), .7 + .1 * (i % 4)})) m.push_back(t);
  return m;
}
Mesh City(int n) {  // blocks of many heights
  Mesh m;
  int w = int(std::ceil(std::sqrt(double(n))));
  for (int k = 0; k < n; k++) {
    double x = k % w * .5, y = k / w * .5;
    for (auto& t : Box({x, y, 0}, {x + .3 + .05 * (k % 3), y + .35, .2 + .17 * (k * 7 % 11)})) m.push_back(t);
  }
  return m;
}
Mesh Ball(int n, int k, double r = 2) {  // meridians, parallels
  Mesh m;
  auto P = [&](int i, int j) {
    if (j == 0) return V3{0, 0, -r};
    if (j == k) return V3{0, 0, r};
    double a = 2 * M_PI * (i % n) / n + .07, b = M_PI * j / k - M_PI / 2;
    return V3{r * std::cos(b) * std::cos(a), r * std::cos(b) * std::sin(a), r * std::sin(b)};
  };
  for (int j = 0; j < k; j++)
    for (int i = 0; i < n; i++) {
      if (j > 0) m.push_back({P(i, j), P(i + 1, j), P(i, j + 1)});
      if (j < k - 1) m.push_back({P(i + 1, j), P(i + 1, j + 1), P(i, j + 1)});
    }
  return m;
}
Mesh Terrain(int n) {  // a rough sheet
  Mesh m;
  auto P = [&](int i, int j) { return V3{i * .4, j * .4, .1 * ((i * 7 + j * 5 + i * j) % 7)}; };
  for (int j = 0; j < n; j++)
    for (int i = 0; i < n; i++) Quad(&m, P(i, j), P(i + 1, j), P(i + 1, j + 1), P(i, j + 1));
  return m;
}
int BigSolids() { return 29; }
Mesh BigSolid(int k, std::string* what) {
  static const int kComb[] = {8, 15, 16, 17, 20, 24, 25, 32, 33, 50, 64, 65, 100};
  static const int kCity[] = {9, 21, 22, 25, 26, 43, 64, 90};
  static const int kTerrain[] = {8, 11, 12, 16, 23, 40};
  if (k < 13) return *what = fmt("comb of %d posts", kComb[k]), Comb(kComb[k]);
  k -= 13;
  if (k < 8) return *what = fmt("city of %d blocks", kCity[k]), City(kCity[k]);
  k -= 8;
  if (k < 6) return *what = fmt("terrain %dx%d", kTerrain[k], kTerrain[k]), Terrain(kTerrain[k]);
  return *what = k == 6 ? "coarse ball" : "fine ball", k == 6 ? Ball(24, 12) : Ball(40, 20);
}
const char* SolidRule() {
  return "every union of cells of a 2x2x2 and a 2x1x4 (thorough: 3x2x2) block, the former also turned and of numbers of 6 digits, every ordered pair of six solids (box, "
         "wedge, pyramid, tetrahedron, prism, frame with a hole) at 26 relative places and as a small one by a large "
         "one on 6 sides, and touching pairs (sharing planes, edges or parts of faces; upright and turned by two rotations), x 18 (66) views: named, turned, tilted and degenerate; 29 solids of up to 3200 facets (combs of up to 100 posts before a bar, blocks, terrains, balls) in 3 facet orders x 6 (8) views. Drawn lines are compared with an "
         "interval oracle of the visible parts of the feature edges.";
}
}  // namespace
}  // namespace mc
#endif
