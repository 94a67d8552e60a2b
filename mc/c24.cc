// C24: the orders of points and of lines.
#include <limits>
#include <set>

#include "engine.h"
#include "model.h"
#include "stl-to-ps/eigen_wrap.h"
#include "stl-to-ps/geo.h"

using namespace mc;

namespace {
const double kVals[] = {0., -0., 1., -1., 1 + 2.3e-16, 1e-310, -1e-310, 1e300, -1e300, .1 + .2, .3, 5e-324};
const int kN = sizeof kVals / sizeof *kVals;

using P = Eigen::RowVector3d;
P Pt(const int* i) { return {kVals[i[0]], kVals[i[1]], kVals[i[2]]}; }
geo::Line Ln(const int* i) { return {Eigen::RowVector2d{kVals[i[0]], kVals[i[1]]}, Eigen::RowVector2d{kVals[i[2]], kVals[i[3]]}}; }
// -1, 0, 1 by the coordinates in order.
int Cmp(const int* a, const int* b, int n) {
  for (int i = 0; i < n; i++) {
    double x = kVals[a[i]], y = kVals[b[i]];
    if (x < y) return -1;
    if (x > y) return 1;
  }
  return 0;
}
std::string Str(const int* a, int n) {
  std::string s = "(";
  for (int i = 0; i < n; i++) s += fmt("%s%.17g", i ? "," : "", kVals[a[i]]);
  return s + ")";
}
void Digits(long k, int base, int n, int* out) {
  for (int i = 0; i < n; i++, k /= base) out[i] = k % base;
}
long Pow(long b, int n) { return n ? b * Pow(b, n - 1) : 1; }

template <class T>
void Pair(Ctx& c, const int* a, const int* b, int n, const T& x, const T& y, bool lt, bool gt, bool eq, const char* what) {
  int w = Cmp(a, b, n);
  if (lt == (w < 0) && gt == (w > 0) && eq == (w == 0)) return;
  c.fail(what, fmt("%s %s %s: before %d, after %d, equal %d instead of %d, %d, %d", what, Str(a, n).c_str(), Str(b, n).c_str(), lt, gt, eq,
                   w < 0, w > 0, w == 0));
}

// One point (line) against every other.
void Pairs(Ctx& c, bool line) {
  int n = line ? 4 : 3, base = line && !c.thorough ? 7 : kN;
  int a[4];
  for (int i = 0; i < n; i++) a[i] = c.pick("coordinate", base);
  c.state(fmt("pairs %d ", line) + Str(a, n));
  if (!c.mine()) return;
  c.note(Str(a, n));
  long all = Pow(base, n);
  geo::PointOrder po;
  for (long k = 0; k < all; k++) {
    int b[4];
    Digits(k, base, n, b);
    if (line) {
      geo::Line x = Ln(a), y = Ln(b);
      Pair(c, a, b, n, x, y, x < y, y < x, x == y, "line");
    } else {
      P x = Pt(a), y = Pt(b);
      bool same = !geo::Order(x, y) && !geo::Order(y, x);
      Pair(c, a, b, n, x, y, geo::Order(x, y), geo::Order(y, x), x == y, "point");
      Pair(c, a, b, n, x, y, po(x, y), po(y, x), same, "set order");
    }
  }
  c.traced();
  c.outcome(line ? "line" : "point");
}

// Transitivity, for one pair and every third.
void Triples(Ctx& c, bool line) {
  int n = line ? 4 : 3, base = line ? (c.thorough ? 4 : 3) : c.thorough ? 7 : 4;
  long all = Pow(base, n), i = c.pick("first", all);
  c.state(fmt("triples %d %ld", line, i));
  if (!c.mine()) return;
  int a[4], b[4], d[4];
  Digits(i, base, n, a);
  c.note(Str(a, n));
  for (long j = 0; j < all; j++) {
    Digits(j, base, n, b);
    bool ab = line ? Ln(a) < Ln(b) : geo::Order(Pt(a), Pt(b)), ba = line ? Ln(b) < Ln(a) : geo::Order(Pt(b), Pt(a));
    for (long k = 0; k < all; k++) {
      Digits(k, base, n, d);
      bool bd = line ? Ln(b) < Ln(d) : geo::Order(Pt(b), Pt(d)), ad = line ? Ln(a) < Ln(d) : geo::Order(Pt(a), Pt(d));
      bool db = line ? Ln(d) < Ln(b) : geo::Order(Pt(d), Pt(b)), da = line ? Ln(d) < Ln(a) : geo::Order(Pt(d), Pt(a));
      std::string s;
      if (ab && bd && !ad) s = "a < b < c but not a < c";
      if (!ab && !ba && !bd && !db && (ad || da)) s = "a ~ b ~ c but not a ~ c";
      if (!s.empty()) c.fail("transitive", s + ": " + Str(a, n) + Str(b, n) + Str(d, n));
    }
  }
  c.traced();
  c.outcome(line ? "line triples" : "point triples");
}

// Sets of points (of lines) keep each distinct one once, in whatever order they come.
void Sets(Ctx& c) {
  static const int kPts[][4] = {{0, 0, 0, 0}, {1, 0, 0, 0}, {0, 1, 1, 1}, {2, 0, 0, 2}, {0, 2, 0, 3}, {0, 0, 2, 0},
                                {2, 2, 3, 0}, {3, 2, 2, 9}, {4, 0, 0, 10}, {9, 3, 0, 2}, {10, 3, 0, 2}, {11, 0, 5, 6}};
  bool line = c.pick("line", 2);
  int max = c.thorough ? 6 : 5, n = c.pick("length", max + 1), syms = n >= 6 ? 8 : n == 5 ? 10 : 12, dim = line ? 4 : 3;
  std::vector<const int*> seq;
  std::string s;
  for (int i = 0; i < n; i++) {
    int k = c.pick("point", syms);
    seq.push_back(kPts[k]);
    s += fmt(" %d", k);
  }
  c.state(fmt("set %d", line) + s);
  if (!c.mine()) return;
  c.note("set" + s);
  geo::point_set ps;
  std::set<geo::Line> ls;
  std::vector<const int*> want;
  for (auto p : seq) {
    bool dup = false;
    for (auto q : want) dup |= Cmp(p, q, dim) == 0;
    bool in = line ? ls.insert(Ln(p)).second : ps.insert(Pt(p)).second;
    c.check(in == !dup, "insert", Str(p, dim) + (dup ? " is in twice:" : " is lost:") + s);
    if (!dup) want.push_back(p);
  }
  c.traced();
  c.check((line ? ls.size() : ps.size()) == want.size(), "size", s);
  std::sort(want.begin(), want.end(), [&](auto a, auto b) { return Cmp(a, b, dim) < 0; });
  size_t i = 0;
  if (line)
    for (auto& x : ls) c.check(x == Ln(want[i++]), "sorted", s);
  else
    for (auto& x : ps) c.check(x == Pt(want[i++]), "sorted", s);
  for (auto p : kPts) {
    bool is = false;
    for (auto q : want) is |= Cmp(p, q, dim) == 0;
    c.check((line ? ls.count(Ln(p)) : ps.count(Pt(p))) == size_t(is), "find", Str(p, dim) + " in" + s);
  }
  c.outcome("set");
}

void Body(Ctx& c) {
  switch (c.pick("part", 5)) {
    case 0: return Pairs(c, false);
    case 1: return Pairs(c, true);
    case 2: return Triples(c, false);
    case 3: return Triples(c, true);
    default: return Sets(c);
  }
}
}  // namespace

int main(int argc, char** argv) {
  Model m;
  m.property = "C24";
  m.body = Body;
  m.quick_bound = m.thorough_bound = 1;
  m.rule =
      "every pair of points with coordinates from 12 values (both zeros, neighbours, subnormal, huge) and of lines with "
      "coordinates from 7 (12); every triple of points over 4 (7) and of lines over 3 (4) values; every sequence of up to 5 "
      "(6) insertions into a set of points or lines. Compared with the lexicographic order of the coordinates.";
  return run(argc, argv, m);
}
