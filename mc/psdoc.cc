#include "psdoc.h"

#include <math.h>
#include <stdlib.h>
#include <string.h>

#include <algorithm>
#include <map>
#include <memory>

namespace mc {
namespace {
struct Obj;
using Vec = std::vector<Obj>;
struct Obj {
  enum Kind { kNum, kBool, kName, kLit, kStr, kArr, kProc, kDict, kMark, kFont, kNull } k = kNull;
  double n = 0;
  bool integer = false;
  std::string s;
  std::shared_ptr<Vec> a;
  std::shared_ptr<std::map<std::string, Obj>> d;
};
Obj num(double v, bool i = false) {
  Obj o;
  o.k = Obj::kNum;
  o.n = v;
  o.integer = i;
  return o;
}
Obj boolean(bool b) {
  Obj o;
  o.k = Obj::kBool;
  o.n = b;
  return o;
}

struct Err {
  std::string what;
};

struct Mat {
  double a = 1, b = 0, c = 0, d = 1, e = 0, f = 0;
};

struct GState {
  Mat m;
  bool has_pt = false;
  double x = 0, y = 0, sx = 0, sy = 0;  // device current point, subpath start
  double mx = 0, my = 0;                // last moveto (absolute)
  std::vector<PsLine> path;
  std::vector<PsArc> arcs;
  std::string font;
  double font_size = 0;
  double lw = 1, gray = 0, dash = 0;
  void Reset() { lw = 1, gray = 0, dash = 0; }  // initgraphics
};

struct Interp {
  const std::string& src;
  size_t p = 0;
  PsDoc doc;
  Vec st;
  std::vector<std::shared_ptr<std::map<std::string, Obj>>> dicts;
  GState g;
  std::vector<GState> gs;
  PsPage page;
  bool dirty = false;
  long steps = 0;

  explicit Interp(const std::string& s) : src(s) {
    dicts.push_back(std::make_shared<std::map<std::string, Obj>>());
  }

  static bool white(int c) { return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == ' '; }
  static bool delim(int c) { return c && strchr("()<>[]{}/%", c); }

  bool Token(Obj* o) {
    for (;;) {
      while (p < src.size() && white((unsigned char)src[p])) p++;
      if (p >= src.size()) return false;
      if (src[p] != '%') break;
      size_t e = p;
      while (e < src.size() && src[e] != '\n' && src[e] != '\r' && src[e] != '\f') e++;
      doc.comment_lines.push_back(src.substr(p, e - p));
      p = e;
    }
    char c = src[p];
    *o = Obj();
    if (c == '(') {
      p++;
      int depth = 1;
      o->k = Obj::kStr;
      while (true) {
        if (p >= src.size()) throw Err{"syntaxerror: unterminated string"};
        char x = src[p++];
        if (x == '(') depth++;
        if (x == ')' && --depth == 0) break;
        if (x == '\\') {
          if (p >= src.size()) throw Err{"syntaxerror: unterminated string"};
          char y = src[p++];
          if (y >= '0' && y <= '7') {
            int v = y - '0';
            for (int i = 0; i < 2 && p < src.size() && src[p] >= '0' && src[p] <= '7'; i++)
              v = v * 8 + (src[p++] - '0');
            o->s += char(v);
          } else if (y == 'n') {
            o->s += '\n';
          } else if (y == 'r') {
            o->s += '\r';
          } else if (y == 't') {
            o->s += '\t';
          } else if (y == 'b') {
            o->s += '\b';
          } else if (y == 'f') {
            o->s += '\f';
          } else if (y == '\n') {
          } else if (y == '\r') {
            if (p < src.size() && src[p] == '\n') p++;
          } else {
            o->s += y;
          }
          continue;
        }
        if (x == '\r') {  // an end of line inside a string reads as \n
          if (p < src.size() && src[p] == '\n') p++;
          x = '\n';
        }
        o->s += x;
      }
      return true;
    }
    if (c == '<' && p + 1 < src.size() && src[p + 1] == '<') {
      p += 2;
      o->k = Obj::kName;
      o->s = "<<";
      return true;
    }
    if (c == '>' && p + 1 < src.size() && src[p + 1] == '>') {
      p += 2;
      o->k = Obj::kName;
      o->s = ">>";
      return true;
    }
    if (c == '<') {
      p++;
      o->k = Obj::kStr;
      std::string h;
      while (p < src.size() && src[p] != '>') {
        if (!white((unsigned char)src[p])) {
          if (!isxdigit((unsigned char)src[p])) throw Err{"syntaxerror: hex string"};
          h += src[p];
        }
        p++;
      }
      if (p >= src.size()) throw Err{"syntaxerror: unterminated hex string"};
      p++;
      if (h.size() % 2) h += '0';
      for (size_t i = 0; i < h.size(); i += 2) o->s += char(strtol(h.substr(i, 2).c_str(), 0, 16));
      return true;
    }
    if (c == '>' || c == ')') throw Err{std::string("syntaxerror: unexpected ") + c};
    if (c == '{') {
      p++;
      o->k = Obj::kProc;
      o->a = std::make_shared<Vec>();
      for (;;) {
        Obj e;
        // look for }
        size_t save;
        for (;;) {
          while (p < src.size() && white((unsigned char)src[p])) p++;
          save = p;
          if (p < src.size() && src[p] == '%') {
            size_t e2 = p;
            while (e2 < src.size() && src[e2] != '\n' && src[e2] != '\r') e2++;
            doc.comment_lines.push_back(src.substr(p, e2 - p));
            p = e2;
            continue;
          }
          break;
        }
        (void)save;
        if (p >= src.size()) throw Err{"syntaxerror: unterminated procedure"};
        if (src[p] == '}') {
          p++;
          return true;
        }
        if (!Token(&e)) throw Err{"syntaxerror: unterminated procedure"};
        o->a->push_back(e);
      }
    }
    if (c == '}') throw Err{"syntaxerror: unexpected }"};
    if (c == '[' || c == ']') {
      p++;
      o->k = Obj::kName;
      o->s = c;
      return true;
    }
    bool lit = false;
    if (c == '/') {
      lit = true;
      p++;
    }
    size_t b = p;
    while (p < src.size() && !white((unsigned char)src[p]) && !delim(src[p])) p++;
    std::string t = src.substr(b, p - b);
    if (lit) {
      o->k = Obj::kLit;
      o->s = t;
      return true;
    }
    // A number?
    if (!t.empty() && t.find_first_not_of("+-.0123456789eE") == std::string::npos &&
        t.find_first_of("0123456789") != std::string::npos) {
      char* e;
      double v = strtod(t.c_str(), &e);
      if (*e == 0) {
        if (!isfinite(v)) throw Err{"limitcheck: number " + t};
        if (fabs(v) > 3.4e38) throw Err{"limitcheck: number " + t};
        bool integer = t.find_first_of(".eE") == std::string::npos;
        *o = num(v, integer && fabs(v) < 2147483648.0);
        return true;
      }
    }
    o->k = Obj::kName;
    o->s = t;
    return true;
  }

  Obj pop() {
    if (st.empty()) throw Err{"stackunderflow"};
    Obj o = st.back();
    st.pop_back();
    return o;
  }
  double popn() {
    Obj o = pop();
    if (o.k != Obj::kNum) throw Err{"typecheck: number expected"};
    return o.n;
  }
  std::string pops() {
    Obj o = pop();
    if (o.k != Obj::kStr) throw Err{"typecheck: string expected"};
    return o.s;
  }
  void push(double v) {
    if (!isfinite(v)) throw Err{"undefinedresult"};
    st.push_back(num(v));
  }

  void Def(const std::string& k, const Obj& v) { (*dicts.back())[k] = v; }

  const Obj* Find(const std::string& k) {
    for (size_t i = dicts.size(); i-- > 0;) {
      auto f = dicts[i]->find(k);
      if (f != dicts[i]->end()) return &f->second;
    }
    return nullptr;
  }

  void Run(const Vec& v) {
    for (const auto& o : v) Exec(o, false);
  }
  // Invoke the value of a name.
  void Invoke(const Obj& o) {
    if (o.k == Obj::kProc)
      Run(*o.a);
    else
      st.push_back(o);
  }
  void Exec(const Obj& o, bool) {
    if (++steps > 5000000) throw Err{"timeout: endless document"};
    if (o.k != Obj::kName) {
      st.push_back(o);
      return;
    }
    if (const Obj* f = Find(o.s)) {
      Obj copy = *f;
      Invoke(copy);
      return;
    }
    Op(o.s);
  }

  void ToDev(double x, double y, double* X, double* Y) {
    *X = g.m.a * x + g.m.c * y + g.m.e;
    *Y = g.m.b * x + g.m.d * y + g.m.f;
  }
  double Scale() { return sqrt(fabs(g.m.a * g.m.d - g.m.b * g.m.c)); }
  void Concat(const Mat& k) {
    Mat r;
    r.a = k.a * g.m.a + k.b * g.m.c;
    r.b = k.a * g.m.b + k.b * g.m.d;
    r.c = k.c * g.m.a + k.d * g.m.c;
    r.d = k.c * g.m.b + k.d * g.m.d;
    r.e = k.e * g.m.a + k.f * g.m.c + g.m.e;
    r.f = k.e * g.m.b + k.f * g.m.d + g.m.f;
    g.m = r;
  }
  void NeedPt() {
    if (!g.has_pt) throw Err{"nocurrentpoint"};
  }
  void NeedPage() {
    if (!page.device_sets) throw Err{"drawing before setpagedevice"};
  }
  void LineDev(double X, double Y) {
    NeedPt();
    g.path.push_back({g.x, g.y, X, Y});
    g.x = X;
    g.y = Y;
  }

  void Op(const std::string& s) {
    if (s == "def") {
      Obj v = pop(), k = pop();
      if (k.k != Obj::kLit) throw Err{"typecheck: def"};
      Def(k.s, v);
    } else if (s == "dup") {
      Obj v = pop();
      st.push_back(v);
      st.push_back(v);
    } else if (s == "pop") {
      pop();
    } else if (s == "exch") {
      Obj b = pop(), a = pop();
      st.push_back(b);
      st.push_back(a);
    } else if (s == "copy") {
      int n = popn();
      if (n < 0 || n > int(st.size())) throw Err{"rangecheck: copy"};
      size_t b = st.size() - n;
      for (int i = 0; i < n; i++) st.push_back(Obj(st[b + i]));
    } else if (s == "index") {
      int n = popn();
      if (n < 0 || n >= int(st.size())) throw Err{"rangecheck: index"};
      st.push_back(Obj(st[st.size() - 1 - n]));
    } else if (s == "roll") {
      int j = popn(), n = popn();
      if (n < 0 || n > int(st.size())) throw Err{"rangecheck: roll"};
      if (n) {
        j = ((j % n) + n) % n;
        std::rotate(st.end() - n, st.end() - j, st.end());
      }
    } else if (s == "clear") {
      st.clear();
    } else if (s == "count") {
      push(st.size());
    } else if (s == "add" || s == "sub" || s == "mul" || s == "div" || s == "idiv" || s == "mod" ||
               s == "exp" || s == "atan") {
      double b = popn(), a = popn();
      if (s == "add") push(a + b);
      if (s == "sub") push(a - b);
      if (s == "mul") push(a * b);
      if (s == "exp") push(pow(a, b));
      if (s == "atan") {
        double r = atan2(a, b) * 180 / M_PI;
        push(r < 0 ? r + 360 : r);
      }
      if (s == "div" || s == "idiv" || s == "mod") {
        if (b == 0) throw Err{"undefinedresult: division by zero"};
        push(s == "div" ? a / b : s == "idiv" ? trunc(a / b) : fmod(a, b));
      }
    } else if (s == "neg") {
      push(-popn());
    } else if (s == "abs") {
      push(fabs(popn()));
    } else if (s == "sqrt") {
      push(sqrt(popn()));
    } else if (s == "sin") {
      push(sin(popn() * M_PI / 180));
    } else if (s == "cos") {
      push(cos(popn() * M_PI / 180));
    } else if (s == "round") {
      push(round(popn()));
    } else if (s == "floor") {
      push(floor(popn()));
    } else if (s == "ceiling") {
      push(ceil(popn()));
    } else if (s == "truncate" || s == "cvi") {
      push(trunc(popn()));
    } else if (s == "cvr") {
      push(popn());
    } else if (s == "eq" || s == "ne") {
      Obj b = pop(), a = pop();
      bool e = a.k == b.k && a.n == b.n && a.s == b.s;
      st.push_back(boolean(e == (s == "eq")));
    } else if (s == "gt" || s == "lt" || s == "ge" || s == "le") {
      double b = popn(), a = popn();
      st.push_back(boolean(s == "gt" ? a > b : s == "lt" ? a < b : s == "ge" ? a >= b : a <= b));
    } else if (s == "not" || s == "and" || s == "or") {
      Obj b = pop();
      if (b.k != Obj::kBool) throw Err{"typecheck: " + s};
      if (s == "not") {
        st.push_back(boolean(!b.n));
      } else {
        Obj a = pop();
        if (a.k != Obj::kBool) throw Err{"typecheck: " + s};
        st.push_back(boolean(s == "and" ? a.n && b.n : a.n || b.n));
      }
    } else if (s == "true" || s == "false") {
      st.push_back(boolean(s == "true"));
    } else if (s == "null") {
      st.push_back(Obj());
    } else if (s == "if") {
      Obj pr = pop(), c = pop();
      if (c.k != Obj::kBool || pr.k != Obj::kProc) throw Err{"typecheck: if"};
      if (c.n) Run(*pr.a);
    } else if (s == "ifelse") {
      Obj p2 = pop(), p1 = pop(), c = pop();
      if (c.k != Obj::kBool || p1.k != Obj::kProc || p2.k != Obj::kProc)
        throw Err{"typecheck: ifelse"};
      Run(c.n ? *p1.a : *p2.a);
    } else if (s == "exec") {
      Obj o = pop();
      Invoke(o);
    } else if (s == "repeat") {
      Obj pr = pop();
      double n = popn();
      if (pr.k != Obj::kProc || n < 0 || n > 100000) throw Err{"typecheck: repeat"};
      for (int i = 0; i < n; i++) Run(*pr.a);
    } else if (s == "for") {
      Obj pr = pop();
      double lim = popn(), inc = popn(), init = popn();
      if (pr.k != Obj::kProc || inc == 0) throw Err{"typecheck: for"};
      for (double i = init; inc > 0 ? i <= lim : i >= lim; i += inc) {
        push(i);
        Run(*pr.a);
      }
    } else if (s == "bind") {
      if (st.empty()) throw Err{"stackunderflow"};
    } else if (s == "load") {
      Obj k = pop();
      const Obj* f = Find(k.s);
      if (!f) throw Err{"undefined: " + k.s};
      st.push_back(Obj(*f));
    } else if (s == "known") {
      Obj k = pop(), d = pop();
      if (d.k != Obj::kDict) throw Err{"typecheck: known"};
      st.push_back(boolean(d.d->count(k.s)));
    } else if (s == "get") {
      Obj k = pop(), d = pop();
      if (d.k == Obj::kDict) {
        if (!d.d->count(k.s)) throw Err{"undefined: " + k.s};
        st.push_back(Obj((*d.d)[k.s]));
      } else if (d.k == Obj::kArr || d.k == Obj::kProc) {
        if (k.k != Obj::kNum || k.n < 0 || k.n >= d.a->size()) throw Err{"rangecheck: get"};
        st.push_back(Obj((*d.a)[int(k.n)]));
      } else if (d.k == Obj::kStr) {
        if (k.k != Obj::kNum || k.n < 0 || k.n >= d.s.size()) throw Err{"rangecheck: get"};
        push((unsigned char)d.s[int(k.n)]);
      } else {
        throw Err{"typecheck: get"};
      }
    } else if (s == "aload") {
      Obj a = pop();
      if (a.k != Obj::kArr && a.k != Obj::kProc) throw Err{"typecheck: aload"};
      for (auto& e : *a.a) st.push_back(e);
      st.push_back(a);
    } else if (s == "length") {
      Obj a = pop();
      push(a.k == Obj::kStr ? a.s.size() : a.a ? a.a->size() : a.d ? a.d->size() : 0);
    } else if (s == "[" || s == "<<" || s == "mark") {
      Obj m;
      m.k = Obj::kMark;
      m.s = s;
      st.push_back(m);
    } else if (s == "]" || s == ">>") {
      Vec items;
      for (;;) {
        Obj o = pop();
        if (o.k == Obj::kMark) break;
        items.insert(items.begin(), o);
      }
      Obj r;
      if (s == "]") {
        r.k = Obj::kArr;
        r.a = std::make_shared<Vec>(items);
      } else {
        r.k = Obj::kDict;
        r.d = std::make_shared<std::map<std::string, Obj>>();
        if (items.size() % 2) throw Err{"rangecheck: dictionary"};
        for (size_t i = 0; i < items.size(); i += 2) (*r.d)[items[i].s] = items[i + 1];
      }
      st.push_back(r);
    } else if (s == "dict") {
      popn();
      Obj r;
      r.k = Obj::kDict;
      r.d = std::make_shared<std::map<std::string, Obj>>();
      st.push_back(r);
    } else if (s == "begin") {
      Obj d = pop();
      if (d.k != Obj::kDict && d.k != Obj::kFont) throw Err{"typecheck: begin"};
      dicts.push_back(d.d);
    } else if (s == "end") {
      if (dicts.size() < 2) throw Err{"dictstackunderflow"};
      dicts.pop_back();
    } else if (s == "currentdict") {
      Obj d;
      d.k = Obj::kDict;
      d.d = dicts.back();
      st.push_back(d);
    } else if (s == "readonly" || s == "executeonly" || s == "noaccess") {
      if (st.empty()) throw Err{"stackunderflow"};
    } else if (s == "cvx") {
      Obj o = pop();
      if (o.k == Obj::kArr) o.k = Obj::kProc;
      if (o.k == Obj::kLit) o.k = Obj::kName;
      st.push_back(o);
    } else if (s == "gsave") {
      gs.push_back(g);
    } else if (s == "grestore") {
      if (!gs.empty()) {
        g = gs.back();
        gs.pop_back();
      }
    } else if (s == "translate" || s == "scale") {
      double y = popn(), x = popn();
      Mat k;
      if (s == "translate") {
        k.e = x;
        k.f = y;
      } else {
        k.a = x;
        k.d = y;
      }
      Concat(k);
    } else if (s == "rotate") {
      double r = popn() * M_PI / 180;
      Mat k;
      k.a = cos(r);
      k.b = sin(r);
      k.c = -sin(r);
      k.d = cos(r);
      Concat(k);
    } else if (s == "findfont") {
      Obj k = pop();
      if (k.k != Obj::kLit) throw Err{"typecheck: findfont"};
      Obj f;
      f.k = Obj::kFont;
      f.s = k.s;
      f.n = 1;
      f.d = std::make_shared<std::map<std::string, Obj>>();
      Obj bb;
      bb.k = Obj::kProc;  // what Type 1 fonts hold: {llx lly urx ury}
      bb.a = std::make_shared<Vec>();
      for (double v : {-23., -250., 715., 805.}) bb.a->push_back(num(v));
      (*f.d)["FontBBox"] = bb;
      st.push_back(f);
    } else if (s == "scalefont") {
      double z = popn();
      Obj f = pop();
      if (f.k != Obj::kFont) throw Err{"typecheck: scalefont"};
      f.n *= z;
      st.push_back(f);
    } else if (s == "setfont") {
      Obj f = pop();
      if (f.k != Obj::kFont) throw Err{"typecheck: setfont"};
      g.font = f.s;
      g.font_size = f.n;
      cur = f;
    } else if (s == "selectfont") {
      double z = popn();
      Obj k = pop();
      st.push_back(k);
      Op("findfont");
      push(z);
      Op("scalefont");
      Op("setfont");
    } else if (s == "currentfont") {
      if (g.font.empty()) throw Err{"invalidfont"};
      st.push_back(cur);
    } else if (s == "stringwidth") {
      std::string t = pops();
      if (g.font.empty()) throw Err{"invalidfont"};
      push(Width(t));
      push(0);
    } else if (s == "show") {
      std::string t = pops();
      if (g.font.empty()) throw Err{"invalidfont"};
      NeedPt();
      NeedPage();
      double w = Width(t) * Scale();
      page.texts.push_back({g.x, g.y, g.mx, g.my, t, w, g.font_size * Scale()});
      page.pens.insert({0, g.gray, 0});
      g.x += w;
      dirty = true;
    } else if (s == "newpath") {
      g.path.clear();
      g.arcs.clear();
      g.has_pt = false;
    } else if (s == "moveto" || s == "lineto" || s == "rmoveto" || s == "rlineto") {
      double y = popn(), x = popn(), X, Y;
      if (s[0] == 'r') {
        NeedPt();
        X = g.x + g.m.a * x + g.m.c * y;
        Y = g.y + g.m.b * x + g.m.d * y;
      } else {
        ToDev(x, y, &X, &Y);
      }
      if (s == "moveto" || s == "rmoveto") {
        g.x = g.sx = X;
        g.y = g.sy = Y;
        g.has_pt = true;
        if (s == "moveto") g.mx = X, g.my = Y;
      } else {
        LineDev(X, Y);
      }
    } else if (s == "closepath") {
      if (g.has_pt) LineDev(g.sx, g.sy);
    } else if (s == "currentpoint") {
      NeedPt();
      double det = g.m.a * g.m.d - g.m.b * g.m.c;
      double x = g.x - g.m.e, y = g.y - g.m.f;
      push((g.m.d * x - g.m.c * y) / det);
      push((-g.m.b * x + g.m.a * y) / det);
    } else if (s == "arc" || s == "arcn") {
      double b = popn(), a = popn(), r = popn(), y = popn(), x = popn();
      double X, Y;
      ToDev(x, y, &X, &Y);
      double sc = Scale(), rot = atan2(g.m.b, g.m.a) * 180 / M_PI;
      if (s == "arcn") std::swap(a, b);
      a += rot;
      b += rot;
      double R = r * sc;
      double sa = s == "arc" ? a : b, ea = s == "arc" ? b : a;
      double bx = X + R * cos(sa * M_PI / 180), by = Y + R * sin(sa * M_PI / 180);
      if (g.has_pt)
        LineDev(bx, by);
      else
        g.sx = bx, g.sy = by;
      g.x = X + R * cos(ea * M_PI / 180);
      g.y = Y + R * sin(ea * M_PI / 180);
      g.has_pt = true;
      g.arcs.push_back({X, Y, R, a, b});
    } else if (s == "stroke" || s == "fill" || s == "eofill") {
      NeedPage();
      if (s == "stroke") {
        for (auto& l : g.path) page.lines.push_back(l);
        page.pens.insert({g.lw * Scale(), g.gray, g.dash});
        for (auto& a : g.arcs) page.arcs.push_back(a);
      } else if (!g.path.empty() || !g.arcs.empty()) {
        throw Err{"unexpected fill"};
      }
      g.path.clear();
      g.arcs.clear();
      g.has_pt = false;
      dirty = true;
    } else if (s == "setlinewidth") {
      g.lw = popn();
      if (g.lw > 5) throw Err{"lines as wide as the drawing"};
    } else if (s == "setgray" || s == "setlinecap" || s == "setlinejoin" || s == "setmiterlimit") {
      double v = popn();
      if (s == "setgray" && v > 0.9) throw Err{"invisible ink"};
      if (s == "setgray") g.gray = v;
    } else if (s == "setrgbcolor") {
      double b = popn(), gr = popn(), r = popn();
      g.gray = r == gr && gr == b ? r : 2 + r + 4 * gr + 16 * b;
    } else if (s == "setdash") {
      popn();
      Obj a = pop();
      g.dash = a.a && !a.a->empty() ? (*a.a)[0].n + a.a->size() : 0;
    } else if (s == "setpagedevice") {
      Obj d = pop();
      if (d.k != Obj::kDict) throw Err{"typecheck: setpagedevice"};
      auto f = d.d->find("PageSize");
      if (f == d.d->end() || f->second.k != Obj::kArr || f->second.a->size() != 2)
        throw Err{"rangecheck: PageSize"};
      if (dirty) throw Err{"setpagedevice drops what is on the page"};
      page.w = (*f->second.a)[0].n;
      page.h = (*f->second.a)[1].n;
      page.device_sets++;
      // resets the graphics state, but not the font in use
      g.Reset();
      g.m = Mat();
      g.path.clear();
      g.arcs.clear();
      g.has_pt = false;
    } else if (s == "showpage") {
      if (!page.device_sets) throw Err{"showpage without a page"};
      doc.pages.push_back(page);
      page = PsPage();
      dirty = false;
      g.Reset();
      g.m = Mat();
      g.path.clear();
      g.arcs.clear();
      g.has_pt = false;
    } else if (s == "save") {
      gs.push_back(g);
      st.push_back(Obj());
    } else if (s == "restore") {
      pop();
      if (!gs.empty()) {
        g = gs.back();
        gs.pop_back();
      }
    } else {
      throw Err{"undefined: " + s};
    }
  }
  double Width(const std::string& t) { return t.size() * 0.6 * g.font_size; }
  Obj cur;
};
}  // namespace

PsDoc RunPs(const std::string& text) {
  Interp it(text);
  try {
    Obj o;
    while (it.Token(&o)) it.Exec(o, true);
    if (!it.st.empty()) throw Err{"operand left on the stack"};
    if (it.dicts.size() != 1) throw Err{"dictionary left on the stack"};
    if (it.dirty) throw Err{"output without showpage"};
  } catch (const Err& e) {
    it.doc.ok = false;
    size_t b = it.p > 60 ? it.p - 60 : 0;
    it.doc.error = e.what + " near ..." + text.substr(b, it.p - b) + "<<<";
  }
  for (auto& c : it.doc.comment_lines) it.doc.comments += c + "\n";
  return it.doc;
}

namespace {
bool Near(double a, double b, double t = 0.02) { return fabs(a - b) <= t; }
bool Is(const PsLine& l, double x1, double y1, double x2, double y2, double t = 0.02) {
  return (Near(l.x1, x1, t) && Near(l.y1, y1, t) && Near(l.x2, x2, t) && Near(l.y2, y2, t)) ||
         (Near(l.x1, x2, t) && Near(l.y1, y2, t) && Near(l.x2, x1, t) && Near(l.y2, y1, t));
}
}  // namespace

bool Strip(const PsPage& in, PsPage* rest, Furniture* f, std::string* why) {
  *rest = in;
  *f = Furniture();
  auto take = [&](double a, double b, double c, double d) {
    for (size_t i = 0; i < rest->lines.size(); i++)
      if (Is(rest->lines[i], a, b, c, d)) {
        rest->lines.erase(rest->lines.begin() + i);
        return true;
      }
    return false;
  };
  f->border = take(5, 5, 5, 607);
  f->border = take(5, 607, 787, 607) && f->border;
  f->border = take(787, 607, 787, 5) && f->border;
  f->border = take(787, 5, 5, 5) && f->border;
  for (size_t i = 0; i < rest->texts.size(); i++) {
    auto& t = rest->texts[i];
    if (Near(t.x, 7) && Near(t.y, 7)) {
      f->has_meta = true;
      f->meta = t.s;
      rest->texts.erase(rest->texts.begin() + i);
      break;
    }
  }
  // The title is the text whose right end is at 784 on the line y=8.
  for (size_t i = rest->texts.size(); i-- > 0;) {
    auto& t = rest->texts[i];
    if (Near(t.x + t.s.size() * 4.8, 784, 0.05) && Near(t.y, 8)) {
      double l = t.x - 3;
      std::string s = t.s;
      PsPage save = *rest;
      rest->texts.erase(rest->texts.begin() + i);
      bool ok = true;
      auto takel = [&](double a, double b, double c, double d) {
        for (size_t k = rest->lines.size(); k-- > 0;)
          if (Is(rest->lines[k], a, b, c, d, 0.05)) {
            rest->lines.erase(rest->lines.begin() + k);
            return true;
          }
        return false;
      };
      ok = takel(l, 5, l, 16) && ok;
      ok = takel(l, 16, 787, 16) && ok;
      f->has_title = ok;
      f->title = s;
      break;
    }
  }
  if (!f->has_title) {
    // No name: an empty box and possibly no text at all.
    bool a = take(781, 5, 781, 16), b = take(781, 16, 787, 16);
    if (a && b) {
      f->has_title = true;
      f->title = "";
    }
  }
  if (why && !f->border) *why = "no border";
  if (why && !f->has_title) *why = "no title box";
  return f->border && f->has_title;
}

std::string Show(const PsLine& l) {
  char b[200];
  snprintf(b, sizeof b, "line (%.3f,%.3f)-(%.3f,%.3f)", l.x1, l.y1, l.x2, l.y2);
  return b;
}
std::string Show(const PsText& t) {
  char b[200];
  snprintf(b, sizeof b, "text at (%.3f,%.3f) anchor (%.3f,%.3f) ", t.x, t.y, t.ax, t.ay);
  return std::string(b) + "'" + t.s + "'";
}
std::string Show(const PsArc& a) {
  char b[200];
  snprintf(b, sizeof b, "arc centre (%.3f,%.3f) r %.3f from %.3f to %.3f", a.x, a.y, a.r, a.a, a.b);
  return b;
}
std::string Show(const PsPage& p) {
  std::string r;
  for (auto& l : p.lines) r += Show(l) + "\n";
  for (auto& l : p.arcs) r += Show(l) + "\n";
  for (auto& l : p.texts) r += Show(l) + "\n";
  return r;
}

std::string Canon(const std::vector<PsLine>& ls, double q) {
  std::vector<std::string> v;
  for (auto l : ls) {
    long a = lround(l.x1 / q), b = lround(l.y1 / q), c = lround(l.x2 / q), d = lround(l.y2 / q);
    if (a > c || (a == c && b > d)) {
      std::swap(a, c);
      std::swap(b, d);
    }
    char s[120];
    snprintf(s, sizeof s, "%ld %ld %ld %ld;", a, b, c, d);
    v.push_back(s);
  }
  std::sort(v.begin(), v.end());
  std::string r;
  for (auto& s : v) r += s;
  return r;
}

bool SameLines(std::vector<PsLine> a, std::vector<PsLine> b, double tol, std::string* why) {
  auto drop = [&](std::vector<PsLine>* v) {
    v->erase(std::remove_if(v->begin(), v->end(),
                            [&](const PsLine& l) { return hypot(l.x1 - l.x2, l.y1 - l.y2) < tol; }),
             v->end());
  };
  drop(&a);
  drop(&b);
  std::vector<PsLine> rest = b;
  for (auto& l : a) {
    double best = 1e300;
    size_t bi = 0;
    for (size_t i = 0; i < rest.size(); i++) {
      auto& r = rest[i];
      double d1 = std::max(hypot(l.x1 - r.x1, l.y1 - r.y1), hypot(l.x2 - r.x2, l.y2 - r.y2));
      double d2 = std::max(hypot(l.x1 - r.x2, l.y1 - r.y2), hypot(l.x2 - r.x1, l.y2 - r.y1));
      double d = std::min(d1, d2);
      if (d < best) best = d, bi = i;
    }
    if (best > tol) {
      if (why) *why = "no counterpart for " + Show(l);
      return false;
    }
    rest.erase(rest.begin() + bi);
  }
  if (!rest.empty()) {
    if (why) *why = "unexpected " + Show(rest[0]);
    return false;
  }
  return true;
}

bool SameTexts(const std::vector<PsText>& a, const std::vector<PsText>& b, double tol,
               std::string* why) {
  std::vector<PsText> rest = b;
  for (auto& t : a) {
    if (t.s.empty()) continue;
    size_t i = 0;
    for (; i < rest.size(); i++)
      if (rest[i].s == t.s && fabs(rest[i].x - t.x) <= tol && fabs(rest[i].y - t.y) <= tol) break;
    if (i == rest.size()) {
      if (why) *why = "no counterpart for " + Show(t);
      return false;
    }
    rest.erase(rest.begin() + i);
  }
  for (auto& t : rest)
    if (!t.s.empty()) {
      if (why) *why = "unexpected " + Show(t);
      return false;
    }
  return true;
}

bool SameArcs(const std::vector<PsArc>& a, const std::vector<PsArc>& b, double tol,
              std::string* why) {
  auto ang = [](double x) {
    x = fmod(x, 360);
    if (x < 0) x += 360;
    return x;
  };
  auto dif = [&](double x, double y) {
    double d = fabs(ang(x) - ang(y));
    return std::min(d, 360 - d);
  };
  std::vector<PsArc> rest = b;
  for (auto& t : a) {
    size_t i = 0;
    for (; i < rest.size(); i++) {
      auto& r = rest[i];
      if (hypot(r.x - t.x, r.y - t.y) <= tol && fabs(r.r - t.r) <= tol &&
          dif(r.a, t.a) * r.r * M_PI / 180 <= tol * 2 && dif(r.b, t.b) * r.r * M_PI / 180 <= tol * 2)
        break;
    }
    if (i == rest.size()) {
      if (why) *why = "no counterpart for " + Show(t);
      return false;
    }
    rest.erase(rest.begin() + i);
  }
  if (!rest.empty()) {
    if (why) *why = "unexpected " + Show(rest[0]);
    return false;
  }
  return true;
}

bool SamePage(const PsPage& a, const PsPage& b, double tol, std::string* why) {
  return SameLines(a.lines, b.lines, tol, why) && SameTexts(a.texts, b.texts, tol, why) &&
         SameArcs(a.arcs, b.arcs, tol, why);
}
}  // namespace mc
