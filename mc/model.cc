#include "model.h"

#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <algorithm>

namespace mc {
const char* const kTokName[] = {"{", "}", "[", "]", "(", ")", "=", ";", ":", ",", "@",
                                "angle", "dia", "dim", "draw", "load", "page", "rad", "text",
                                "ID", "NUM", "STR", "END", "BAD"};

namespace {
struct Rd {
  const std::vector<Token>& t;
  size_t i = 0;
  struct Stop {};
  Tok at() const { return i < t.size() ? t[i].t : tEnd; }
  const Token& need(Tok k) {
    if (at() != k) throw Stop{};
    return t[i++];
  }
  int line() const { return i < t.size() ? t[i].line : 0; }
  // [ NUM , NUM ( , NUM )? ]
  void Brack(AVal* v, bool point_ok, bool loc_ok) {
    need(tLBrack);
    double x = need(tNum).num;
    need(tComma);
    double y = need(tNum).num;
    if (at() == tComma && point_ok) {
      need(tComma);
      double z = need(tNum).num;
      need(tRBrack);
      v->k = AVal::kPoint;
      v->p.x = x;
      v->p.y = y;
      v->p.z = z;
      return;
    }
    if (!loc_ok) throw Stop{};
    need(tRBrack);
    v->k = AVal::kLoc;
    v->a = x;
    v->b = y;
  }
  void Point(AVal* v, bool loc_ok) {
    if (at() == tId) {
      v->k = AVal::kPoint;
      v->p.funcs.push_back(need(tId).text);
      need(tLPar);
      Point(v, false);
      need(tRPar);
      v->k = AVal::kPoint;
      return;
    }
    Brack(v, true, loc_ok);
  }
  AProp Arg() {
    AProp p;
    p.line = line();
    if (at() == tAt) {
      i++;
      p.name = "@";
      Brack(&p.v, false, true);
      return p;
    }
    p.name = need(tId).text;
    need(tEq);
    if (at() == tStr) {
      p.v.k = AVal::kStr;
      while (at() == tStr) p.v.s += t[i++].text;
    } else if (at() == tNum) {
      p.v.k = AVal::kNum;
      p.v.a = t[i++].num;
      if (at() == tColon) {
        i++;
        p.v.k = AVal::kRatio;
        p.v.b = need(tNum).num;
        // ratios are of whole numbers; anything else is refused
        auto whole = [](double v) { return v == trunc(v) && fabs(v) < 2147483648.0; };
        if (!whole(float(p.v.a)) || !whole(float(p.v.b))) {
          i--;
          throw Stop{};
        }
      }
    } else {
      Point(&p.v, true);
    }
    return p;
  }
  void Doc(ADoc* d) {
    while (at() != tEnd) {
      int l = line();
      if (at() == tLoad) {
        i++;
        ALoad x;
        x.line = l;
        x.name = need(tId).text;
        need(tEq);
        x.file = need(tStr).text;
        need(tSemi);
        d->loads.push_back(x);
        continue;
      }
      need(tPage);
      need(tLBrace);
      APage p;
      p.line = l;
      while (at() != tRBrace) {
        int bl = line();
        if (at() == tDraw) {
          i++;
          ABlock b;
          b.line = line();
          b.name = need(tId).text;
          need(tLBrace);
          while (at() != tRBrace) {
            ACall c;
            c.line = line();
            c.kind = at();
            if (c.kind == tAngle || c.kind == tDia || c.kind == tDim || c.kind == tRad) {
              i++;
              need(tLPar);
              if (at() != tRPar) {
                c.props.push_back(Arg());
                while (at() == tComma) {
                  i++;
                  c.props.push_back(Arg());
                }
              }
              need(tRPar);
              need(tSemi);
              b.calls.push_back(c);
            } else {
              b.props.push_back(Arg());
              need(tSemi);
            }
          }
          need(tRBrace);
          p.blocks.push_back(b);
        } else if (at() == tText) {
          i++;
          ABlock b;
          b.draw = false;
          b.line = bl;
          need(tLBrack);
          b.name = need(tStr).text;
          while (at() == tStr) b.name += t[i++].text;
          need(tRBrack);
          need(tLBrace);
          while (at() != tRBrace) {
            b.props.push_back(Arg());
            need(tSemi);
          }
          need(tRBrace);
          p.blocks.push_back(b);
        } else {
          p.props.push_back(Arg());
          need(tSemi);
        }
      }
      need(tRBrace);
      d->pages.push_back(p);
    }
  }
};
bool idc(int c, bool first) {
  return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (!first && c >= '0' && c <= '9');
}
bool dig(int c) { return c >= '0' && c <= '9'; }
}  // namespace

bool RefParse(const std::vector<Token>& t, ADoc* doc, size_t* bad) {
  Rd r{t};
  try {
    r.Doc(doc);
    return true;
  } catch (const Rd::Stop&) {
    if (bad) *bad = r.i;
    return false;
  }
}

std::vector<Token> RefLex(const std::string& s) {
  std::vector<Token> out;
  size_t i = 0;
  int line = 1;
  auto C = [&](size_t k) { return k < s.size() ? (unsigned char)s[k] : -1; };
  static const std::map<std::string, Tok> kw = {
      {"angle", tAngle}, {"dia", tDia}, {"dim", tDim}, {"draw", tDraw},
      {"load", tLoad},   {"page", tPage}, {"rad", tRad}, {"text", tText}};
  while (i < s.size()) {
    int c = C(i);
    if (c == '\n') {
      line++;
      i++;
      continue;
    }
    if (c == ' ' || c == '\t' || c == '\r') {
      i++;
      continue;
    }
    if (c == '/' && C(i + 1) == '/') {
      while (i < s.size() && s[i] != '\n') i++;
      continue;
    }
    Token t;
    t.line = t.line_end = line;
    size_t b = i;
    static const char punct[] = "{}[]()=;:,@";
    const char* pp = c > 0 ? strchr(punct, c) : nullptr;
    if (pp) {
      t.t = Tok(pp - punct);
      i++;
    } else if (idc(c, true)) {
      while (idc(C(i), false)) i++;
      t.text = s.substr(b, i - b);
      auto k = kw.find(t.text);
      t.t = k == kw.end() ? tId : k->second;
    } else if (dig(c) || ((c == '+' || c == '-') && (dig(C(i + 1)) || (C(i + 1) == '.' && dig(C(i + 2))))) ||
               (c == '.' && dig(C(i + 1)))) {
      if (c == '+' || c == '-') i++;
      if (C(i) == '.') {
        i++;
        while (dig(C(i))) i++;
      } else {
        while (dig(C(i))) i++;
        if (C(i) == '.') {
          i++;
          while (dig(C(i))) i++;
        }
      }
      t.t = tNum;
      t.num = strtod(s.substr(b, i - b).c_str(), nullptr);
    } else if (c == '"') {
      size_t k = i + 1;
      bool ok = false;
      std::string v;
      int ln = line;
      while (k < s.size()) {
        char x = s[k];
        if (x == '"') {
          ok = true;
          k++;
          break;
        }
        if (x == '\n') break;
        if (x == '\\') {
          int y = C(k + 1);
          // \n is a new line; the other escapes are ' " ? \ and an end of line
          if (y == 'n')
            v += '\n';
          else if (y == '\'' || y == '"' || y == '?' || y == '\\')
            v += char(y);
          else
            break;
          k += 2;
          continue;
        }
        v += x;
        k++;
      }
      if (!ok) {
        t.t = tBad;
        t.spell = s.substr(b, 1);
        out.push_back(t);
        i++;
        continue;
      }
      t.t = tStr;
      t.text = v;
      i = k;
      line = ln;
    } else {
      t.t = tBad;
      i++;
    }
    t.spell = s.substr(b, i - b);
    out.push_back(t);
  }
  return out;
}

const char* CallName(Tok t) { return kTokName[t]; }

std::string Dump(const AVal& v) {
  char b[400];
  switch (v.k) {
    case AVal::kStr:
      return "str" + Quote(v.s);
    case AVal::kNum:
      snprintf(b, sizeof b, "num %.6g", float(v.a) + 0.0);
      return b;
    case AVal::kRatio:
      snprintf(b, sizeof b, "ratio %.6g:%.6g", float(v.a) + 0.0, float(v.b) + 0.0);
      return b;
    case AVal::kLoc:
      snprintf(b, sizeof b, "loc %.6g,%.6g", float(v.a) + 0.0, float(v.b) + 0.0);
      return b;
    case AVal::kPoint: {
      std::string r = "point ";
      // What can be seen of a point value: the first function in the chain
      // that is not near, or the innermost coordinates.
      for (auto& f : v.p.funcs)
        if (f != "near") return r + "unknown " + f;
      if (!v.p.funcs.empty()) r += "func ";
      snprintf(b, sizeof b, "%.6g,%.6g,%.6g", float(v.p.x) + 0.0, float(v.p.y) + 0.0, float(v.p.z) + 0.0);
      return r + b;
    }
  }
  return "?";
}
namespace {
std::string DumpProps(const std::vector<AProp>& ps) {
  std::string r = "<";
  for (auto& p : ps) r += p.name + "=" + Dump(p.v) + ";";
  return r + ">";
}
}  // namespace
std::string Dump(const ADoc& d) {
  std::string r;
  for (auto& l : d.loads) r += "load " + l.name + "=" + Quote(l.file) + "\n";
  for (auto& p : d.pages) {
    r += "page " + DumpProps(p.props) + "\n";
    for (auto& b : p.blocks) {
      r += (b.draw ? " draw " + b.name : " text " + Quote(b.name)) + " " + DumpProps(b.props) + "\n";
      for (auto& c : b.calls) r += std::string("  ") + CallName(c.kind) + " " + DumpProps(c.props) + "\n";
    }
  }
  return r;
}

AVal VS(const std::string& s) {
  AVal v;
  v.k = AVal::kStr;
  v.s = s;
  return v;
}
AVal VN(double x) {
  AVal v;
  v.k = AVal::kNum;
  v.a = x;
  return v;
}
AVal VR(double a, double b) {
  AVal v;
  v.k = AVal::kRatio;
  v.a = a;
  v.b = b;
  return v;
}
AVal VL(double a, double b) {
  AVal v;
  v.k = AVal::kLoc;
  v.a = a;
  v.b = b;
  return v;
}
AVal VP(double x, double y, double z) {
  AVal v;
  v.k = AVal::kPoint;
  v.p.x = x;
  v.p.y = y;
  v.p.z = z;
  return v;
}
AVal VF(const std::string& f, AVal p) {
  p.p.funcs.insert(p.p.funcs.begin(), f);
  return p;
}
std::string Print(const AVal& v) {
  switch (v.k) {
    case AVal::kStr: return Quote(v.s);
    case AVal::kNum: return Num(v.a);
    case AVal::kRatio: return Num(v.a) + ":" + Num(v.b);
    case AVal::kLoc: return P2(v.a, v.b);
    case AVal::kPoint: break;
  }
  std::string r;
  for (auto& f : v.p.funcs) r += f + "(";
  r += P3({v.p.x, v.p.y, v.p.z});
  return r + std::string(v.p.funcs.size(), ')');
}
namespace {
std::string PrintProp(const AProp& p) {
  return p.name == "@" ? "@" + Print(p.v) : p.name + "=" + Print(p.v);
}
}  // namespace
std::string Print(ADoc* d, int line, const std::string& eol) {
  std::string r;
  for (int i = 1; i < line; i++) r += eol;
  auto out = [&](const std::string& s) {
    r += s + eol;
    return line++;
  };
  for (auto& l : d->loads) l.line = out("load " + l.name + " = " + Quote(l.file) + ";");
  for (auto& p : d->pages) {
    p.line = out("page {");
    for (auto& q : p.props) q.line = out("  " + PrintProp(q) + ";");
    for (auto& b : p.blocks) {
      b.line = out(b.draw ? "  draw " + b.name + " {" : "  text [" + Quote(b.name) + "] {");
      for (auto& q : b.props) q.line = out("    " + PrintProp(q) + ";");
      for (auto& c : b.calls) {
        c.line = out(std::string("    ") + CallName(c.kind) + "(");
        for (size_t i = 0; i < c.props.size(); i++)
          c.props[i].line = out("      " + PrintProp(c.props[i]) + (i + 1 < c.props.size() ? "," : ""));
        out("    );");
      }
      out("  }");
    }
    out("}");
  }
  return r;
}

// ------------------------------------------------------------------ geometry
Frame NamedView(const std::string& n) {
  // Seen from the named side; side views have +Z up.
  if (n == "X+") return {{0, 1, 0}, {0, 0, 1}, {1, 0, 0}};
  if (n == "X-") return {{0, -1, 0}, {0, 0, 1}, {-1, 0, 0}};
  if (n == "Y+") return {{-1, 0, 0}, {0, 0, 1}, {0, 1, 0}};
  if (n == "Y-") return {{1, 0, 0}, {0, 0, 1}, {0, -1, 0}};
  if (n == "Z+") return {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  if (n == "Z-") return {{1, 0, 0}, {0, -1, 0}, {0, 0, -1}};
  fprintf(stderr, "mc: view %s\n", n.c_str());
  _Exit(3);
}

Frame AngleView(double a, double b) {
  a *= M_PI / 180;
  b *= M_PI / 180;
  // Turn by a about Z (counter-clockwise), then tilt by b about the horizontal
  // axis (tilting +Z up the page).
  double ca = cos(a), sa = sin(a), cb = cos(b), sb = sin(b);
  // p -> (x ca - y sa, x sa + y ca, z) -> (x', y' cb + z sb, -y' sb + z cb)
  return {{ca, -sa, 0}, {sa * cb, ca * cb, sb}, {-sa * sb, -ca * sb, cb}};
}

std::string StlNum(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", v);
  if (strchr(b, 'e')) snprintf(b, sizeof b, "%.30f", v);
  return b;
}
std::string StlText(const Mesh& m, const std::string& name) {
  std::string r = "solid " + name + "\n";
  auto vec = [](V3 p) { return StlNum(p.x) + " " + StlNum(p.y) + " " + StlNum(p.z); };
  for (auto& t : m) {
    r += " facet normal " + vec(unit(t.n())) + "\n  outer loop\n";
    for (V3 p : {t.a, t.b, t.c}) r += "   vertex " + vec(p) + "\n";
    r += "  endloop\n endfacet\n";
  }
  return r + "endsolid " + name + "\n";
}
void Quad(Mesh* m, V3 a, V3 b, V3 c, V3 d) {
  m->push_back({a, b, c});
  m->push_back({a, c, d});
}
Mesh Box(V3 l, V3 h) {
  Mesh m;
  V3 p[8];
  for (int i = 0; i < 8; i++) p[i] = {i & 1 ? h.x : l.x, i & 2 ? h.y : l.y, i & 4 ? h.z : l.z};
  Quad(&m, p[0], p[2], p[3], p[1]);  // z-
  Quad(&m, p[4], p[5], p[7], p[6]);  // z+
  Quad(&m, p[0], p[1], p[5], p[4]);  // y-
  Quad(&m, p[2], p[6], p[7], p[3]);  // y+
  Quad(&m, p[0], p[4], p[6], p[2]);  // x-
  Quad(&m, p[1], p[3], p[7], p[5]);  // x+
  return m;
}
Mesh Prism(int n, double r, double cx, double cy, double z0, double z1, double ph) {
  Mesh m;
  std::vector<V3> lo, hi;
  for (int i = 0; i < n; i++) {
    double a = (ph + 360.0 * i / n) * M_PI / 180;
    lo.push_back({cx + r * cos(a), cy + r * sin(a), z0});
    hi.push_back({lo[i].x, lo[i].y, z1});
  }
  for (int i = 0; i < n; i++) {
    int j = (i + 1) % n;
    Quad(&m, lo[i], lo[j], hi[j], hi[i]);
    if (i && i + 1 < n) {
      m.push_back({hi[0], hi[i], hi[i + 1]});
      m.push_back({lo[0], lo[i + 1], lo[i]});
    }
  }
  return m;
}
Box2 VisibleBox(const Mesh& m, const Frame& f, double eps) {
  Box2 b{0, 0, 0, 0};
  bool any = false;
  for (auto& t : m) {
    if (dot(unit(t.n()), f.w) <= eps) continue;
    for (V3 p : {t.a, t.b, t.c}) {
      V3 q = f.map(p);
      if (!any) b = {q.x, q.y, q.x, q.y};
      any = true;
      b.x0 = std::min(b.x0, q.x);
      b.x1 = std::max(b.x1, q.x);
      b.y0 = std::min(b.y0, q.y);
      b.y1 = std::max(b.y1, q.y);
    }
  }
  return b;
}
Place Placement(const Box2& b, double num, double den, bool has_at, double ax, double ay) {
  Place p;
  p.k = 72.0 * num / den;
  double lx = has_at ? 396 + 72 * ax : 0, ly = has_at ? 306 + 72 * ay : 0;
  p.dx = lx - (b.x0 + b.x1) / 2 * p.k;
  p.dy = ly - (b.y0 + b.y1) / 2 * p.k;
  return p;
}
std::string P3(V3 p) { return "[" + Num(p.x) + "," + Num(p.y) + "," + Num(p.z) + "]"; }
std::string P2(double x, double y) { return "[" + Num(x) + "," + Num(y) + "]"; }
}  // namespace mc
