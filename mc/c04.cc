// C04: spellings of numbers, strings, words, white space and comments, against
// a maximal-munch reference lexer and the reference grammar.
#include <math.h>
#include <stdlib.h>
#include <unistd.h>

#include <algorithm>

#include "astdump.h"
#include "engine.h"
#include "model.h"
#include "stl-to-ps/parser.h"

using namespace mc;

namespace {
std::string Esc(const std::string& s) {
  std::string r;
  for (unsigned char ch : s) r += (ch < 32 && ch != '\n') || ch > 126 ? fmt("<%02x>", ch) : std::string(1, ch);
  return r;
}

void Compare(Ctx& c, const std::string& text) {
  c.note(text);
  auto toks = RefLex(text);
  ADoc want;
  size_t bad = 0;
  bool lexbad = false, range = false;
  for (auto& t : toks) {
    lexbad |= t.t == tBad;
    if (t.t == tNum && (fabs(t.num) > 3.4e38)) range = true;
  }
  bool ok = RefParse(toks, &want, &bad) && !lexbad;
  stl2ps::Document doc;
  int rc = stl2ps::Parse("script.in", text, &doc);
  c.traced();
  if (range) {
    if (!rc) c.fail("range", "a number too large to be held is accepted:\n" + Esc(text));
    c.outcome("range");
    return;
  }
  if (ok && rc) c.fail("rejects", "rejected, but a sentence:\n" + Esc(text));
  if (!ok && !rc) c.fail("accepts", "accepted, but not a sentence:\n" + Esc(text));
  if (!ok) {
    c.outcome("reject");
    return;
  }
  std::string a = Dump(want), b = DumpImpl(doc, want);
  c.outcome(b);
  if (a != b) c.fail("value", "read as something else:\nwritten:\n" + Esc(a) + "\nread:\n" + Esc(b) + "\nfrom:\n" + Esc(text));
  // Numbers, more closely than Dump.
  if (want.pages.size() == 1 && want.pages[0].props.size() == 1 && doc.pages.size() == 1 &&
      doc.pages[0].meta.size() == 1 && want.pages[0].props[0].v.k == AVal::kNum) {
    double w = want.pages[0].props[0].v.a;
    float f = 0;
    if (!doc.pages[0].meta[0]->As(&f)) c.fail("type", "not a number:\n" + text);
    if (!(fabs(f - w) <= fabs(w) * 1e-6 + 1.5e-45))
      c.fail("value", fmt("%s read as %.9g", text.c_str(), f));
  }
}

std::string Word(Ctx& c, const std::vector<std::string>& alpha, int n) {
  std::string w;
  uint64_t h = 77;
  for (int i = 0; i < n; i++) {
    int k = c.pick("char", alpha.size() + 1);
    if (k == 0) break;
    w += alpha[k - 1];
    h = hash_str(w);
    c.state(h);
  }
  return w;
}

// Sample scripts as tokens, for the insertions.
const char* const kSample[] = {
    "load m = \"f\" ; page { name = \"a\" \"b\" ; draw m { view = \"X+\" ; @ [ 1 , -2 ] ; scale = 1 : 2 ; "
    "dim ( at = [ 1 , 2 , 3 ] , dir = near ( [ 1 , .5 , 1. ] ) ) ; } }",
    "page { text [ \"x\\ny\" \"z\" ] { @ [ +1 , 2 ] ; } draw d { angle ( ) ; dia ( a = 1 ) ; rad ( ) ; } }",
};

// The whole way from a stream: what stands at and around multiples of a
// buffer's size.
void Chunks(Ctx& c) {
  static const int kSize[] = {256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536};
  int size = kSize[c.pick("size", 9)], delta = c.pick("at", 60), pad = c.pick("pad", 3), end = c.pick("end", 3);
  c.state(fmt("chunk %d %d %d %d", size, delta, pad, end));
  if (!c.mine()) return;
  std::string name = "ti (tle", page = "page{name=\"" + name + "\";text[\"w\\\"x\"]{@[1,-2.5];}}//z";
  int n = size - delta;
  std::string p = pad == 0 ? std::string(n, ' ') : pad == 1 ? "//" + std::string(n - 3, 'c') + "\n" : std::string(n, '\n');
  std::string text = p + page;
  if (end == 1) text += "\n";
  if (end == 2) text += "\n" + std::string(size, '\t') + "page{}";
  c.note(fmt("%d bytes of padding, then ", n) + page);
  Result r = RunScript(text);
  c.traced();
  if (!r.ok) c.fail("rejects", "rejected: " + r.err);
  PsDoc d = RunPs(r.out);
  if (!d.ok || d.pages.size() != (end == 2 ? 2u : 1u)) c.fail("pages", fmt("%zu pages ", d.pages.size()) + d.error);
  bool title = false, word = false;
  for (auto& t : d.pages[0].texts) {
    title |= t.s == name;
    word |= t.s == "w\"x" && fabs(t.ax - 468) < .01 && fabs(t.ay - 126) < .01;
  }
  if (!title || !word) c.fail("value", "read as something else: " + r.out);
  c.outcome("chunk");
}

void Body(Ctx& c) {
  std::string text;
  int mode = c.pick("mode", 11);
  if (mode == 0) {
    static const std::vector<std::string> al = {"0", "7", ".", "-", "+", "9", "e", " ", "/"};
    std::string w = Word(c, al, c.thorough ? 6 : 5);
    text = "page{a=" + w + ";}";
    if (c.pick("ratio", 2)) {
      // the same word on one side of a ratio
      if (w.size() > 4) c.prune();
      text = c.pick("side", 2) ? "page{a=" + w + ":3;}" : "page{a=3:" + w + ";}";
    }
  } else if (mode == 1) {
    static const std::vector<std::string> al = {"a", "n", "\\", "\"", "'", "?", "\n", " ", "/",
                                                std::string(1, '\0'), "\xe9", "t", "\r"};
    std::string w = Word(c, al, c.thorough ? 5 : 4);
    text = "page{a=\"" + w + "\";}";
  } else if (mode == 2) {
    // Anything that is no token between any two tokens.
    static const std::vector<std::string> piece = {"\n", " ", "\t", "\r\n", "//\n", "// c \"\n", "//}page{//\n", "  \n\t ",
                                                   "// \xe9\\\n", "/", "/*x*/", "\v", "\f", "#", "\\\n", "\\"};
    int s = c.pick("sample", 2);
    static std::vector<std::vector<std::string>> sp(2);
    auto& v = sp[s];
    if (v.empty())
      for (auto& t : RefLex(kSample[s])) v.push_back(t.spell);
    auto word = [](char ch) { return isalnum((unsigned char)ch) || ch == '_' || ch == '.'; };
    std::string prev;
    for (size_t i = 0; i <= v.size(); i++) {
      int k = c.choose("gap", piece.size() + 1);
      if (k)
        text += piece[k - 1];
      else if (i && i < v.size() && word(v[i - 1].back()) && word(v[i][0]))
        text += " ";
      if (i < v.size()) text += v[i];
    }
    c.state(text);
  } else if (mode == 3) {
    // Every byte at every place: inserted, or instead of what is there.
    int s = c.pick("sample", 2);
    std::string base = s ? "page{a=\"x y\";b=-1.5:2;}" : "load m=\"f\";page{draw m{dim(a=near([1,2,3]));@[1,2];}}//e";
    int at = c.pick("at", base.size() + 1);
    int byte = c.pick("byte", 256);
    int how = c.pick("how", 3);
    text = base;
    if (how == 0)
      text.insert(text.begin() + at, char(byte));
    else if (at < int(base.size()) && how == 1)
      text[at] = char(byte);
    else if (how == 2 && byte == 0 && at < int(base.size()))
      text.erase(at, 1);
    else
      c.prune();
    c.state(text);
  } else if (mode == 4) {
    static const std::vector<std::string> al = {"d", "i", "a", "m", "r", "_", "A", "0", "Z"};
    std::string w = Word(c, al, c.thorough ? 5 : 4);
    int ctx = c.pick("context", 3);
    text = ctx == 0 ? "page{draw m{" + w + "();}}" : ctx == 1 ? "load " + w + "=\"x\";" : "page{" + w + "=1;}";
  } else if (mode == 5) {
    // Words near the keywords, at every word position.
    static const char* const kw[] = {"angle", "dia", "dim", "draw", "load", "page", "rad", "text", "near", "n1"};
    int k = c.pick("keyword", 10), form = c.pick("form", 9), pos = c.pick("position", 7);
    std::string w = kw[k];
    if (form == 1) w += "s";
    if (form == 2) w.pop_back();
    if (form == 3) w[0] = toupper(w[0]);
    if (form == 4) w = "_" + w;
    if (form == 5) w += "1";
    if (form == 6) w = "1" + w;
    if (form == 7) w += "_";
    if (form == 8) std::transform(w.begin(), w.end(), w.begin(), ::toupper);
    const char* pat[] = {"%s m = \"x\";", "load %s = \"x\";", "%s { }", "page { %s = 1; }", "page { %s m { } }",
                         "page { draw %s { } }", "page { draw m { %s ( %s = %s([1,2,3]) ); } }"};
    std::string p = pat[pos];
    for (size_t i; (i = p.find("%s")) != std::string::npos;) p.replace(i, 2, w);
    text = p;
    c.state(text);
  } else if (mode == 6) {
    // Magnitudes and lengths.
    int n = c.pick("digits", c.thorough ? 200 : 80), form = c.pick("form", 8), sign = c.pick("sign", 3);
    std::string z(n, '0'), d;
    for (int i = 0; i < n; i++) d += char('0' + (i * 7 + 1) % 10);
    std::string w = form == 0   ? "1" + z
                    : form == 1 ? z + "7"
                    : form == 2 ? "." + z + "1"
                    : form == 3 ? "0." + z + "9"
                    : form == 4 ? d + "1.5"
                    : form == 5 ? "3." + d + "1"
                    : form == 6 ? z + "1." + z
                                : "3" + z + ".25";
    text = "page{a=" + std::string(sign == 1 ? "-" : sign == 2 ? "+" : "") + w + ";}";
    if (c.pick("ratio", 2)) text = "page{a=1:" + std::string(sign == 1 ? "-" : sign == 2 ? "+" : "") + w + ";}";
    c.state(text);
  } else if (mode == 7) {
    // Adjacent literals and what is between them.
    static const std::vector<std::string> lit = {"\"\"", "\"a\"", "\"b\\\"\"", "\"\\\\\"", "\"//\"", "\"\\n\""};
    static const std::vector<std::string> sep = {"", " ", "\n", "// x\n", "//\"q\"\n", ",", "+", "\\"};
    std::string w;
    int n = c.pick("count", c.thorough ? 4 : 3) + 1;
    for (int i = 0; i < n; i++) {
      if (i) w += sep[c.pick("sep", sep.size())];
      w += lit[c.pick("lit", lit.size())];
    }
    int ctx = c.pick("context", 3);
    text = ctx == 0 ? "page{a=" + w + ";}" : ctx == 1 ? "page{text[" + w + "]{}}" : "load a=" + w + ";";
    c.state(text);
  } else if (mode == 8) {
    // Literals, words and gaps of every length, and around powers of two.
    static const int kBig[] = {511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16382, 16383, 16384, 16385};
    int n = c.pick("length", 319), what = c.pick("what", 8);
    n = n < 300 ? n : kBig[n - 300];
    std::string z(n, 'x');
    for (size_t i = 0; i < z.size(); i++) z[i] = char('a' + i % 23);
    text = what == 0   ? "page{a=\"" + z + "\";}"
           : what == 1 ? "page{" + z + "q=1;}"
           : what == 2 ? "//" + z + "\npage{a=1;}"
           : what == 3 ? "page{a=1;" + std::string(n, ' ') + "b=2;}"
           : what == 4 ? "page{a=\"" + z + "\\\"\";b=\"" + z + "\\\\\";}"
           : what == 5 ? "page{a=\"" + std::string(n, '/') + "\";}//" + std::string(n, '/')
           : what == 6 ? "load " + z + "q=\"" + z + "\";page{draw " + z + "q{}text[\"" + z + "\" \"" + z + "\"]{}}"
                       : "page{a=\"" + std::string(n, '\xe9') + "\";b=" + z + "q([1,2,3]);}";
    c.state(text);
  } else if (mode == 9) {
    return Chunks(c);
  } else {
    // Large literals and comments; every escape of one character.
    int n = c.pick("size", 4), what = c.pick("what", 4);
    static const int kN[] = {100, 5000, 17000, 70000};
    std::string z(kN[n], 'x');
    for (size_t i = 0; i < z.size(); i++) z[i] = char('a' + i % 23);
    text = what == 0   ? "page{a=\"" + z + "\";}"
           : what == 1 ? "page{" + z + "=1;}"
           : what == 2 ? "//" + z + "\npage{a=1;}"
                       : std::string(kN[n], '\n') + "page{a=1;}" + std::string(kN[n], ' ');
    if (n == 0) {
      text = "page{a=\"\\";
      int b = c.pick("escape", 256);
      text += char(b);
      text += what == 0 ? "\";}" : what == 1 ? "\"\";}" : what == 2 ? "z\";}" : "\\\\\";}";
    }
    c.state(text);
  }
  if (!c.mine()) return;
  Compare(c, text);
}
}  // namespace

int main(int argc, char** argv) {
  Model m;
  m.property = "C04";
  m.body = Body;
  m.quick_bound = 2;
  m.thorough_bound = 3;
  m.rule =
      "every word of up to 5 (6) characters over the number alphabet and 4 (5) over the string and word alphabets, every "
      "byte inserted, substituted or removed at every place of two scripts, every kind of separator in up to 2 (3) token gaps, "
      "near-keywords at every word position, magnitudes, literals and gaps of every length to 300 and around powers of two, a script placed at every offset about a buffer's end; each compared value for value with a reference "
      "lexer and grammar";
  m.assumptions = {"numbers are held with float precision (relative 1e-6); larger ones are refused"};
  return run(argc, argv, m);
}
