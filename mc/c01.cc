// C01: nothing in a script or a model can crash or hang a run.
#include "engine.h"
#include "model.h"
#include "solids.h"

#include <cstring>

using namespace mc;

namespace {
std::string Esc(const std::string& s) {
  std::string r;
  for (unsigned char ch : s.substr(0, 4000)) r += (ch < 32 && ch != '\n') || ch > 126 ? fmt("<%02x>", ch) : std::string(1, ch);
  return r;
}
// One run; that it ends by itself is seen by the explorer.
void Run(Ctx& c, const std::string& text, const std::string& stl = "") {
  c.note(Esc(text) + (stl.empty() ? "" : "\n---- model\n" + Esc(stl)));
  Result r = RunScript(text);
  c.traced();
  if (!r.ok) {
    c.check(r.out.empty(), "partial", "refused, but something is written:\n" + Esc(text));
    c.check(!r.err.empty(), "silent", "refused without a word:\n" + Esc(text));
  } else {
    c.check(!r.out.empty(), "nothing", "accepted, but nothing is written:\n" + Esc(text));
  }
  c.outcome(r.ok ? "accepted" : "refused");
}

std::string Model1(Ctx& c) {
  static const std::string t = StlText(Prism(6, 1.5, 0, 0, 0, 1, 10));
  return WriteFile(c.scratch, "p.stl", t);
}
// Documents that hold every construct; MODEL stands for a model's path.
const char* const kDocs[] = {
    "load m = \"MODEL\";\nload e = \"/dev/null\";\npage {\n name = \"t(\\\"x\";\n draw m { view = \"X+\"; scale = 1:2; @ [0.5, -2];\n"
    "  dim(at=[0,0,0], dir=[1,0,.5], from=near([1,2,3]), to=center([1,0,0]), fmt=\"%.2f\");\n }\n text [\"a\\nb\" \"c\"] { @[1,2]; }\n}\n",
    "// note\nload m = \"MODEL\";\npage { draw m { view = [30,20]; @ [0,0];\n angle(at=[1,1,0], apex=[0,0,0], from_dir=[1,0,0], to_point=near(near([0,9,0])), fmt=\"%.0f\");\n"
    " dia(at=[3,3,0], dir=[1,1,0], center=[1,0,0]);\n rad(at=[3,3,0], dir=[1,1,0], center=[1,0,0], fmt=\"%f mm\");\n} }\npage { }\n"};
std::string Doc(Ctx& c, int i) {
  std::string s = kDocs[i];
  size_t p;
  while ((p = s.find("MODEL")) != std::string::npos) s.replace(p, 5, Model1(c));
  return s;
}
struct Piece {
  size_t at, len;
  bool num;
};
// Tokens, roughly; strings are one.
std::vector<Piece> Pieces(const std::string& s) {
  std::vector<Piece> r;
  for (size_t i = 0; i < s.size();) {
    size_t b = i;
    if (isspace(static_cast<unsigned char>(s[i]))) {
      i++;
      continue;
    }
    bool num = false;
    if (s[i] == '"') {
      for (i++; i < s.size() && s[i] != '"'; i++)
        if (s[i] == '\\') i++;
      i++;
    } else if (!s.compare(i, 2, "//")) {
      while (i < s.size() && s[i] != '\n') i++;
    } else if (isalpha(static_cast<unsigned char>(s[i]))) {
      while (i < s.size() && (isalnum(static_cast<unsigned char>(s[i])) || s[i] == '_')) i++;
    } else if (strchr("-.0123456789", s[i])) {
      num = true;
      while (i < s.size() && strchr("-.0123456789", s[i])) i++;
    } else {
      i++;
    }
    r.push_back({b, i - b, num});
  }
  return r;
}
const char* const kTokens2[] = {"{", "}", "[", "]", "(", ")", "=", ";", ":", ",", "@", "angle", "dia", "dim", "draw", "load", "page", "rad", "text", "x", "7",
                               "-.5", "\"s\"", "near", "center", "\"%f\"", "at", "view", "[1,2]", "[1,2,3]", "near([0,0,0])", "3:4", "\"\"", "\"\\\"", "//", "e", "m"};
const int kNT = sizeof kTokens2 / sizeof *kTokens2;
const std::string& Byte(int i) {
  static const auto& b = *new std::vector<std::string>([] {
    std::vector<std::string> r;
    for (char ch : std::string("\"\\(){}[]=;:,@/ \n\r\t.-+0179aeE_nx%$#'~")) r.push_back(std::string(1, ch));
    r.push_back(std::string(1, 0));
    for (int ch : {1, 0x1b, 0x7f, 0x80, 0xc3, 0xff}) r.push_back(std::string(1, char(ch)));
    return r;
  }());
  return b[i];
}
const int kNB = 36 + 7;

void TokenEdits(Ctx& c) {
  int d = c.pick("doc", 2);
  std::string s = Doc(c, d);
  auto p = Pieces(s);
  int edits = c.thorough ? 2 : 1;
  std::vector<std::string> w;
  for (auto& x : p) w.push_back(s.substr(x.at, x.len));
  std::string key = fmt("doc %d", d);
  size_t from = 0;
  for (int e = 0; e < edits; e++) {
    if (e && c.pick("stop", 2) == 0) break;
    size_t at = from + c.pick("at", 130);
    if (at >= w.size()) c.prune();
    int op = c.pick("edit", 4);
    if (op == 0) {  // gone
      w[at] = "";
    } else if (op == 1) {  // twice
      w[at] += " " + w[at];
    } else if (op == 2) {  // changes place with the next
      if (at + 1 >= w.size()) c.prune();
      std::swap(w[at], w[at + 1]);
    } else {
      w[at] = kTokens2[c.pick("token", e || (edits == 2) ? 12 : kNT)];
      if (edits == 2 && e == 0) w[at] += "";
    }
    key += fmt(" %zu.%d", at, op) + (op == 3 ? w[at] : "");
    from = at + 1;
    if (edits == 2 && e == 0 && from + 24 < w.size() && false) c.prune();
  }
  std::string t;
  for (auto& x : w) t += x + (x.compare(0, 2, "//") ? " " : "\n");
  c.state(key);
  if (!c.mine()) return;
  Run(c, t);
}
void AllTokens(Ctx& c) {  // every token in place of every other, and before it
  int d = c.pick("doc", 2);
  std::string s = Doc(c, d);
  auto p = Pieces(s);
  int at = c.pick("at", 130), k = c.pick("token", kNT), op = c.pick("edit", 2);
  if (at >= int(p.size())) c.prune();
  if (op)
    s.insert(p[at].at, std::string(kTokens2[k]) + " ");
  else
    s.replace(p[at].at, p[at].len, kTokens2[k]);
  c.state(fmt("token %d %d %d %d", d, at, k, op));
  if (!c.mine()) return;
  Run(c, s);
}
template <class F>
void ByteEdit(Ctx& c, std::string* s, size_t limit, const F& ok) {
  int op = c.pick("edit", 5);
  size_t at = c.pick("at", limit);
  if (at > s->size() || (op != 2 && at == s->size()) || !ok(at)) c.prune();
  if (op == 0) {
    s->erase(at, 1);
  } else if (op == 1) {
    int k = c.pick("byte", c.thorough ? 256 : kNB);
    (*s)[at] = c.thorough ? char(k) : Byte(k)[0];
  } else if (op == 2) {
    s->insert(at, Byte(c.pick("byte", kNB)));
  } else if (op == 3) {
    s->resize(at);
  } else {
    s->insert(at, 1, (*s)[at]);
  }
  c.state(fmt("%d.%zu ", op, at) + *s);
}
void ScriptBytes(Ctx& c) {
  int d = c.pick("doc", 2);
  std::string s = Doc(c, d);
  size_t path = s.find("/tmp"), end = path == std::string::npos ? 0 : s.find('"', path);
  if (path != std::string::npos) {  // the path itself is the scratch folder's
    ByteEdit(c, &s, 800, [&](size_t at) { return at <= path || at >= end; });
  } else {
    ByteEdit(c, &s, 800, [&](size_t) { return true; });
  }
  if (!c.mine()) return;
  Run(c, s);
}
void Short(Ctx& c) {
  bool model = c.pick("model", 2);
  int max = c.thorough ? 4 : 3, n = c.pick("length", max + 1);
  std::string s;
  for (int i = 0; i < n; i++) s += Byte(c.pick("byte", n == 4 ? 30 : kNB));
  c.state((model ? "model " : "script ") + s);
  if (!c.mine()) return;
  if (model)
    Run(c, "load m = " + Quote(WriteFile(c.scratch, "s.stl", s)) + ";\npage { draw m { } }\n", s);
  else
    Run(c, s);
}

const char* const kNumbers[] = {"0", "-0", "340282350000000000000000000000000000000", "-300000000000000000000000000000000000000", ".0000000000000000000000000000000000000001",
                                "2147483647", "2147483648", "-2147483648", "99999999999999999999", "4294967296", "1.5", "-1", "90", "1000000000000000000000000000000000000000",
                                ".", "1e5", "00000000000000000000000000000000000000000000000000000000001", "2147483520", "1.", "-.5"};
void Numbers(Ctx& c) {
  int d = c.pick("doc", 2), left = 2, nn = c.thorough ? 20 : 12;
  std::string s = Doc(c, d), t, key;
  auto p = Pieces(s);
  size_t at = 0;
  for (auto& x : p) {
    if (!x.num) continue;
    int k = left ? c.pick("number", nn + 1) : 0;
    t += s.substr(at, x.at - at);
    if (k) {
      t += kNumbers[k - 1];
      key += fmt(" %zu=%d", x.at, k);
      left--;
    } else {
      t += s.substr(x.at, x.len);
    }
    at = x.at + x.len;
  }
  t += s.substr(at);
  c.state(fmt("numbers %d", d) + key);
  if (!c.mine()) return;
  Run(c, t);
}

// ------------------------------------------------------------------- models
const char* const kUse[] = {
    "draw m { view=\"Z+\"; @[0,0]; }",
    "draw m { view=[30,20]; @[0,0]; dim(at=[0,0,0],dir=[1,1,0],from=near([0,0,0]),to=center([1,0,0])); }",
    "draw m { view=\"X-\"; scale=1:3; dia(at=[3,3,0],dir=[0,1,1],center=[0,0,0]); angle(at=[0,3,3],apex=near([0,5,5]),from_dir=[0,1,0],to_point=near([0,0,0])); }"};
std::string Using(Ctx& c, int use, const std::string& stl) {
  return "load m = " + Quote(WriteFile(c.scratch, "m.stl", stl)) + ";\npage { " + kUse[use] + " }\n";
}
void ModelBytes(Ctx& c) {
  static const Mesh tetra = Tetra();
  std::string s = StlText(tetra);
  ByteEdit(c, &s, 800, [&](size_t at) { return c.thorough || at < 330 || at + 40 > s.size(); });
  int use = c.pick("use", c.thorough ? 3 : 1);
  if (!c.mine()) return;
  Run(c, Using(c, use, s), s);
}
const char* const kModelNumbers[] = {"0", "-0", "1e308", "-1e308", "1e-320", "1e154", "-1e155", "1e999", "-1e-400", "1e18", "nan", "inf", ".", "-", "1e", "1e16", "3e38", "00000000000000000001", "e5", "--1"};
void ModelNumbers(Ctx& c) {
  static const Mesh tetra = Tetra();
  std::string s = StlText(tetra), t;
  int left = 2, nn = c.thorough ? 20 : 9;
  auto p = Pieces(s);
  size_t at = 0;
  std::string key;
  int seen = 0;
  for (auto& x : p) {
    if (!x.num) continue;
    int k = left && seen++ < (c.thorough ? 48 : 36) ? c.pick("number", nn + 1) : 0;
    t += s.substr(at, x.at - at);
    if (k) {
      t += kModelNumbers[k - 1];
      key += fmt(" %zu=%d", x.at, k);
      left--;
    } else {
      t += s.substr(x.at, x.len);
    }
    at = x.at + x.len;
  }
  t += s.substr(at);
  int use = c.pick("use", 3);
  c.state(key + fmt("/%d", use));
  if (!c.mine()) return;
  Run(c, Using(c, use, t), t);
}
// Every pair of triangles on five points: repeated, degenerate, folded, crossing.
void Triangles(Ctx& c) {
  static const char* const kP[] = {"0 0 0", "1 0 0", "0 1 0", "0 0 1", "1 1 0", "0 0 -1"};
  static const char* const kN[] = {"0 0 1", "1 -2 -1", "0 0 0"};
  int n = 5;
  int f = c.thorough ? 3 : 2;
  std::string s = "solid x\n";
  for (int i = 0; i < f; i++) {
    int v[3];
    for (int& x : v) x = c.pick("vertex", i == 2 ? 3 : n);
    int k = c.pick("normal", i == 2 ? 1 : c.thorough ? 3 : 2);
    s += std::string("facet normal ") + kN[k] + "\nouter loop\n";
    for (int x : v) s += std::string("vertex ") + kP[x] + "\n";
    s += "endloop\nendfacet\n";
  }
  s += "endsolid x\n";
  int use = c.thorough ? 1 : 1 + c.pick("use", 2);
  c.state(fmt("%d", use) + s);
  if (!c.mine()) return;
  Run(c, Using(c, use, s), s);
}
// Sizes: what is long, deep or many has to end too.
void Sizes(Ctx& c) {
  int what = c.pick("what", 23), k = c.pick("size", c.thorough ? 312 : 152);
  static const int kS[] = {1000, 4096, 20000, 255, 256, 257, 300, 511, 512, 513, 1023, 1025};
  int n = k < 12 ? kS[k] : k - 11;
  c.state(fmt("size %d %d", what, n));
  if (!c.mine()) return;
  auto rep = [&](const std::string& x, int times) {
    std::string r;
    for (int i = 0; i < times; i++) r += x;
    return r;
  };
  std::string s, stl;
  switch (what) {
    case 0: s = rep("page { }\n", n); break;
    case 1: s = "page { " + rep("text [\"a\"] { }\n", n) + "}"; break;
    case 2: s = "page { name = \"" + rep("x", n) + "\"; }"; break;
    case 3: s = "page { text [" + rep("\"a\\n\" ", n) + "] { } }"; break;
    case 4: s = rep(" ", n) + "// " + rep("y", n); break;
    case 5: s = rep("\n", n) + "page { } $"; break;
    case 6: s = "page { " + rep("x", n) + " = " + rep("0", n) + "1; }"; break;
    case 7: {  // moderately deep
      int d = std::min(n, 1000);
      s = "load m = " + Quote(Model1(c)) + ";\npage { draw m { dim(at=[0,0,0],dir=[1,0,0],to=[1,0,0],from=" + rep("near(", d) + "[0,0,0]" + rep(")", d) + "); } }";
      break;
    }
    case 8: s = "page { draw m { " + rep("dim(at=[0,0,0]);", n) + "} }"; break;
    case 9: stl = "solid " + rep("z", n) + "\n" + rep("endsolid\n", n); break;
    case 10: stl = rep(" ", n) + "vertex 0 0 " + rep("0", n) + "\n"; break;
    case 11: stl = "solid x\n" + rep("facet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex 1 0 0\nvertex 0 1 0\nendloop\nendfacet\n", std::min(n, 400)); break;
    case 13: s = "load " + rep("n", n) + " = \"" + rep("f", n) + "\"; page { }"; break;
    case 14: s = "page { draw " + rep("n", n) + " { view=\"" + rep("v", n) + "\"; } }"; break;
    case 15: s = "load m = \"/dev/null\"; page { draw m { view=\"" + rep("v", n) + "\"; } }"; break;
    case 16: s = "load m = \"/dev/null\"; page { draw m { " + rep("p", n) + "=\"" + rep("v", n) + "\"; } }"; break;
    case 17: s = "load m = \"/dev/null\"; page { draw m { dim(at=[0,0,0],dir=[1,0,0],from=[0,0,0],to=[1,0,0],fmt=\"" + rep("\\\\(", n) + "%.1f\"); } }"; break;
    case 18: s = fmt("load m = \"/dev/null\"; page { draw m { dim(at=[0,0,0],dir=[1,0,0],from=[0,0,0],to=[1,0,0],fmt=\"%%%d.%df\"); angle(at=[1,1,0],apex=[0,0,0],from_dir=[1,0,0],to_dir=[0,1,0],fmt=\"%%.%df\"); } }", n, n, n); break;
    case 19: s = "load m = " + Quote(Model1(c)) + "; page { draw m { dia(at=[3,3,0],dir=[1,1,0],center=[1,0,0],fmt=\"" + rep("(", n) + "%f\"); rad(at=[3,3,0],dir=[1,1,0],center=[1,0,0],fmt=\"%f" + rep("y", n) + "\"); } }"; break;
    case 20: s = "load m = \"/dev/null\"; page { draw m { dim(at=" + rep("f", n) + "([0,0,0]),dir=[1,0,0],from=[" + rep("9", n) + ",0,0],to=[1,0,0],fmt=\"" + rep("q", n) + "\"); } }"; break;
    case 21: s = "load m = " + Quote(Model1(c)) + ";" + rep("page { draw m { dim(at=near([0,0,0]),dir=[1,0,0],from=[0,0,0],to=center([1,0,0])); } }\n", std::min(n, 400)); break;
    case 22: stl = "solid " + rep("z", n) + "\nfacet normal 0 0 1\nouter loop\nvertex 0 0 " + rep("0", n) + "\nvertex 1 0 ." + rep("0", n) + "\nvertex 0 1e" + rep("0", n) + " 0\nendloop\nendfacet\nendsolid " + rep("z", n) + "\n"; break;
    case 12: stl = "solid x\nfacet normal 0 0 1\nouter loop\n" + rep("vertex 1 2 3\n", n) + "endloop\nendfacet\n"; break;
  }
  Run(c, stl.empty() ? s : Using(c, 0, stl), stl);
}

void Body(Ctx& c) {
  switch (c.pick("part", 9)) {
    case 0: return Sizes(c);
    case 1: return AllTokens(c);
    case 2: return ScriptBytes(c);
    case 3: return Short(c);
    case 4: return Numbers(c);
    case 5: return ModelBytes(c);
    case 6: return ModelNumbers(c);
    case 7: return Triangles(c);
    default: return TokenEdits(c);
  }
}
}  // namespace

int main(int argc, char** argv) {
  Model m;
  m.property = "C01";
  m.body = Body;
  m.quick_bound = m.thorough_bound = 1;
  m.rule =
      "under ASan and UBSan: two scripts that hold every construct with every token removed, doubled, swapped, replaced by "
      "and preceded by each of 37 (thorough: two edits), every byte removed, doubled, cut at, replaced by and preceded by "
      "each of 43 (256), every one and two numbers replaced by 12 (20) extremes; every script and model of up to 3 (4) of "
      "43 (30) bytes; a model with every byte edited likewise and every one and two numbers replaced by 9 (20); every pair "
      "(triple) of triangles on five points, drawn two ways; 23 ways to be long, many or deep x 152 (312) sizes.";
  m.assumptions = {"runs out of stack or memory by the sheer size of the input are not looked for"};
  return run(argc, argv, m);
}
