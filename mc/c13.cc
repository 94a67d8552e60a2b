// C13: a drawing depends on the geometry only.
#include <algorithm>
#include <map>
#include <numeric>

#include "engine.h"
#include "model.h"
#include "page.h"
#include "solids.h"

using namespace mc;

namespace {
const int kP[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};

// How a file lists a mesh.
struct Listing {
  std::vector<int> facets;  // order
  std::vector<int> verts;   // of each facet as listed: an index into kP
  std::vector<double> len;  // of the normals, cyclic
  bool sections = false;    // a solid of its own for every facet
  std::string show;
};
std::string Write(const Mesh& m, const Listing& l) {
  auto vec = [](V3 p) { return StlNum(p.x) + " " + StlNum(p.y) + " " + StlNum(p.z); };
  std::string r = l.sections ? "" : "solid s\n";
  for (size_t i = 0; i < m.size(); i++) {
    const Tri& t = m[l.facets.empty() ? i : l.facets[i]];
    double k = l.len.empty() ? 1 : l.len[i % l.len.size()];
    if (l.sections) r += "solid s\n";
    r += " facet normal " + vec(unit(t.n()) * k) + "\n  outer loop\n";
    const V3* v[3] = {&t.a, &t.b, &t.c};
    for (int j : kP[l.verts.empty() ? 0 : l.verts[i % l.verts.size()]]) r += "   vertex " + vec(*v[j]) + "\n";
    r += "  endloop\n endfacet\n";
    if (l.sections) r += "endsolid s\n";
  }
  return r + (l.sections ? "" : "endsolid s\n");
}

PsPage Draw(Ctx& c, const std::string& stl, const std::string& props, const std::string& name) {
  std::string text = "load s = " + Quote(WriteFile(c.scratch, name, stl)) + ";\npage { draw s { @[0,0]; " + props + " } }\n";
  return OnePage(c, text);
}

// Is all of a's ink on b's?
std::string Covered(const std::vector<PsLine>& a, const std::vector<PsLine>& b, double tol) {
  for (auto& l : a) {
    double len = hypot(l.x1 - l.x2, l.y1 - l.y2);
    if (len < 4 * tol) continue;
    int n = std::min(40.0, 3 + len / 2);
    double e = 2 * tol / len;
    for (int i = 0; i <= n; i++) {
      double t = e + (1 - 2 * e) * i / n, x = l.x1 + (l.x2 - l.x1) * t, y = l.y1 + (l.y2 - l.y1) * t, best = 1e300;
      for (auto& s : b) {
        if (!(x < std::min(s.x1, s.x2) - tol || x > std::max(s.x1, s.x2) + tol || y < std::min(s.y1, s.y2) - tol || y > std::max(s.y1, s.y2) + tol))
          best = std::min(best, PtSeg(x, y, s));
      }
      if (best > tol) return fmt("ink at (%.3f,%.3f) of %s", x, y, Show(l).c_str());
    }
  }
  return "";
}
void Same(Ctx& c, const PsPage& a, const PsPage& b, double tol, const std::string& what) {
  std::string w = Covered(a.lines, b.lines, tol);
  if (!w.empty()) c.fail("lost", "only the plain listing has " + w + "\n" + what);
  w = Covered(b.lines, a.lines, tol);
  if (!w.empty()) c.fail("gained", "only the other listing has " + w + "\n" + what);
}

const std::vector<ViewSpec>& Vs() {
  static const auto& v = *new std::vector<ViewSpec>{Angled(30, 20), Named("Z+"), Angled(-50, 65), Named("Y-"), Angled(45, 60), Angled(200, -25)};
  return v;
}
struct Body13 {
  std::string name;
  Mesh m;
};
const std::vector<Body13>& Bodies() {
  static const auto& b = *new std::vector<Body13>([] {
    std::vector<Body13> r;
    r.push_back({"tetra", Tetra()});
    r.push_back({"box", Box({0, 0, 0}, {1, 2, .5})});
    r.push_back({"l", Voxels(2, 2, 2, 0x17, {1, .6, 1.4})});
    r.push_back({"c", Voxels(3, 1, 3, 0b111001111, {1, .8, .7}, 1)});
    r.push_back({"frame", Frame3()});
    Mesh two = Box({0, 0, 0}, {1, 1, 1});
    for (auto& t : Moved(Wedge(), {.31, -.7, 1.4}, .7)) two.push_back(t);
    r.push_back({"two", two});
    Mesh st = Voxels(3, 2, 2, 0b000001011111, {1, 1, 1});
    r.push_back({"stairs", st});
    Mesh pyr = Pyramid();
    for (auto& t : Moved(Prism(7, .3, .5, .5, 0, 2, 5), {0, -1.5, .2})) pyr.push_back(t);
    r.push_back({"pyramid", pyr});
    // joins that turn a little inward and outward, one after the other
    Mesh sh;
    double x = 0, z = 0, deg = 0;
    static const double kTurn[] = {8, -8, -8, 14, 3, -10, 25, -14, -3, 10, -30};
    for (int i = 0; i <= 11; i++) {
      double nx = x + .4 * cos(deg * M_PI / 180), nz = z + .4 * sin(deg * M_PI / 180);
      Quad(&sh, {x, 0, z}, {nx, 0, nz}, {nx, 1.5, nz}, {x, 1.5, z});
      x = nx, z = nz;
      if (i < 11) deg += kTurn[i];
    }
    for (auto& t : Box({0, 2, 0}, {1, 2.5, .4})) sh.push_back(t);  // something to see from all sides
    r.push_back({"joins", sh});
    return r;
  }());
  return b;
}
const PsPage& Plain(Ctx& c, int b, int v) {
  static auto& memo = *new std::map<std::pair<int, int>, PsPage>;
  auto k = std::make_pair(b, v);
  auto i = memo.find(k);
  if (i != memo.end()) return i->second;
  PsPage p = Draw(c, Write(Bodies()[b].m, {}), "view=" + Vs()[v].script + ";", "plain.stl");
  c.check(!p.lines.empty(), "empty", "nothing drawn");
  return memo[k] = p;
}

void All(Ctx& c) {  // the tetrahedron, every listing
  std::vector<int> o = {0, 1, 2, 3}, f;
  for (int n = 4; n; n--) {
    int k = c.pick("facet", n);
    f.push_back(o[k]);
    o.erase(o.begin() + k);
  }
  std::vector<int> v;
  for (int i = 0; i < 4; i++) v.push_back(c.pick("order", 6));
  int view = c.pick("view", c.thorough ? 6 : 2);
  std::string s = fmt("tetra %d%d%d%d %d%d%d%d view %d", f[0], f[1], f[2], f[3], v[0], v[1], v[2], v[3], view);
  c.state(s);
  if (!c.mine()) return;
  Listing l{f, v, {}, false, s};
  std::string stl = Write(Tetra(), l);
  c.note(s + "\n" + stl);
  PsPage p = Draw(c, stl, "view=" + Vs()[view].script + ";", "s.stl");
  c.outcome(fmt("%zu", p.lines.size()));
  Same(c, Plain(c, 0, view), p, .02, s + "\n" + stl);
}

void Orders(Ctx& c) {
  int b = 1 + c.pick("solid", Bodies().size() - 1), view = c.pick("view", c.thorough ? 6 : 4);
  const Mesh& m = Bodies()[b].m;
  int n = m.size();
  std::vector<int> f(n);
  std::iota(f.begin(), f.end(), 0);
  Listing l;
  std::string s = Bodies()[b].name + fmt(" view %d", view);
  switch (c.pick("how", 6)) {
    case 0: {  // one swap
      int i = c.pick("i", n - 1), j = c.thorough ? c.pick("j", n) : i + 1;
      if (i == j) c.prune();
      std::swap(f[i], f[j]);
      s += fmt(" facets %d and %d swapped", i, j);
      break;
    }
    case 1: {  // one to the front or the back
      int i = c.pick("i", n), back = c.pick("back", 2);
      int x = f[i];
      f.erase(f.begin() + i);
      f.insert(back ? f.end() : f.begin(), x);
      s += fmt(" facet %d %s", i, back ? "last" : "first");
      break;
    }
    case 2: {  // turned round, or backwards
      int i = c.pick("i", n);
      std::rotate(f.begin(), f.begin() + i, f.end());
      if (c.pick("back", 2)) std::reverse(f.begin(), f.end()), s += " backwards";
      s += fmt(" from facet %d", i);
      break;
    }
    case 3: {  // by every stride
      int k = 1 + c.pick("stride", n - 1), g = c.pick("from", 2);
      if (std::gcd(k, n) != 1) c.prune();
      for (int i = 0; i < n; i++) f[i] = (g + i * k) % n;
      s += fmt(" every %dth facet from %d", k, g);
      break;
    }
    case 4: {  // sorted by depth or place
      int key = c.pick("key", 6), back = c.pick("back", 2);
      auto val = [&](int i) {
        V3 q = m[i].a + m[i].b + m[i].c;
        return key == 0 ? q.x : key == 1 ? q.y : key == 2 ? q.z : key == 3 ? norm(m[i].n()) : key == 4 ? m[i].n().z : m[i].n().y;
      };
      std::stable_sort(f.begin(), f.end(), [&](int x, int y) { return back ? val(x) > val(y) : val(x) < val(y); });
      s += fmt(" sorted by %d %d", key, back);
      break;
    }
    case 5: break;
  }
  l.facets = f;
  static const std::vector<int> kV[] = {{0}, {1}, {2}, {3}, {4}, {5}, {0, 3}, {3, 0}, {0, 1, 2, 3, 4, 5}, {5, 2, 3}};
  int vo = c.pick("vertices", c.thorough ? 10 : 4);
  l.verts = c.thorough ? kV[vo] : vo == 0 ? kV[0] : kV[6 + vo];
  static const std::vector<double> kL[] = {{1}, {.001}, {1000}, {.5, 1, 3e4, 1e-6}};
  int ln = c.pick("lengths", 2);
  l.len = ln ? kL[1 + (vo + view) % 3] : kL[0];
  l.sections = ln;
  s += fmt(" vertices %d lengths %d", vo, ln);
  c.state(s);
  if (!c.mine()) return;
  std::string stl = Write(m, l);
  c.note(s + "\n" + stl);
  PsPage p = Draw(c, stl, "view=" + Vs()[view].script + ";", "s.stl");
  c.outcome(fmt("%zu", p.lines.size()));
  Same(c, Plain(c, b, view), p, .02, s + "\n" + stl);
}

void Moves(Ctx& c) {
  int b = c.pick("solid", Bodies().size()), view = c.pick("view", 6);
  static const double kD[] = {0, .1, -1, 7.3, -1000};
  V3 d{kD[c.pick("dx", 5)], kD[c.pick("dy", 5)], kD[c.pick("dz", 5)]};
  static const int kK[] = {1, 2, 3, 10, 25, 64};
  int k = c.pick("times", 7), inv = 0;
  if (k == 6) inv = 4;  // a quarter of the size at 4:1
  int rev = c.pick("order", 2);
  std::string s = Bodies()[b].name + fmt(" view %d by %g,%g,%g times %d %d", view, d.x, d.y, d.z, k, rev);
  c.state(s);
  if (!c.mine()) return;
  double kk = inv ? .25 : kK[k];
  Mesh m = Moved(Moved(Bodies()[b].m, d), {0, 0, 0}, kk);
  Listing l;
  if (rev) {
    for (int i = m.size(); i--;) l.facets.push_back(i);
    l.verts = {1, 4, 2};
  }
  std::string stl = Write(m, l);
  c.note(s + "\n" + stl);
  PsPage p = Draw(c, stl, "view=" + Vs()[view].script + "; scale=" + (inv ? "4:1" : fmt("1:%d", kK[k])) + ";", "s.stl");
  c.outcome(fmt("%zu", p.lines.size()));
  Same(c, Plain(c, b, view), p, .02, s + "\n" + stl);
}

void Big(Ctx& c) {  // many facets
  int b = c.pick("solid", BigSolids()), view = c.pick("view", c.thorough ? 6 : 3), how = c.pick("how", 7), vo = c.pick("vertices", 2);
  std::string s;
  Mesh m = BigSolid(b, &s);
  int n = m.size();
  if (n > 2000 && !c.thorough) c.prune();
  s += fmt(" view %d how %d vertices %d", view, how, vo);
  c.state(s);
  if (!c.mine()) return;
  Listing l;
  for (int i = 0; i < n; i++) l.facets.push_back(i);
  auto& f = l.facets;
  switch (how) {
    case 0: break;
    case 1: std::reverse(f.begin(), f.end()); break;
    case 2: std::rotate(f.begin(), f.begin() + 1, f.end()); break;
    case 3: std::rotate(f.begin(), f.begin() + n / 2, f.end()); break;
    case 4: std::stable_partition(f.begin(), f.end(), [](int i) { return i % 2; }); break;
    case 5: std::stable_sort(f.begin(), f.end(), [&](int x, int y) { return m[x].a.z < m[y].a.z; }); break;
    case 6: std::stable_sort(f.begin(), f.end(), [&](int x, int y) { return m[x].a.x + m[x].a.y > m[y].a.x + m[y].a.y; }); break;
  }
  if (vo) l.verts = {0, 1, 2, 3, 4, 5}, l.len = {1, 3, .2};
  if (how == 0 && !vo) c.prune();
  static auto& memo = *new std::map<std::pair<int, int>, PsPage>;
  std::string props = "view=" + Vs()[view].script + ";";
  if (!memo.count({b, view})) memo[{b, view}] = Draw(c, Write(m, {}), props, "plain.stl");
  c.note(s);
  PsPage p = Draw(c, Write(m, l), props, "s.stl");
  c.outcome(fmt("%zu", p.lines.size()));
  c.check(!p.lines.empty(), "empty", "nothing drawn");
  Same(c, memo[{b, view}], p, .02, s);
}

void Body(Ctx& c) {
  switch (c.pick("part", 4)) {
    case 3: return Big(c);
    case 0: return All(c);
    case 1: return Orders(c);
    default: return Moves(c);
  }
}
}  // namespace

int main(int argc, char** argv) {
  Model m;
  m.property = "C13";
  m.body = Body;
  m.quick_bound = m.thorough_bound = 1;
  m.rule =
      "a tetrahedron in all 24 facet orders x 6^4 vertex orders x 2 (6) views; 8 other solids (convex, notched, with a "
      "hole, in two parts, of shallow joins) with every adjacent (thorough: any) swap, every facet first and last, every rotation, "
      "reversal, stride and sort order x vertex orders x normal lengths; all 9 moved by 5^3 vectors, 1/4 to 64 times "
      "as large at the inverse scale; 28 (29) solids of up to 1600 (3200) facets in 7 orders x 2 vertex orders x 3 (6) views. The ink is compared with the plain listing's.";
  m.assumptions = {"what the plain listing shows is judged by C10 and C11"};
  return run(argc, argv, m);
}
