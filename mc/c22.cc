// C22: what a syntax-error report says.
#include "engine.h"
#include "model.h"
#include "stl-to-ps/parser_support.h"

#include <cstring>
#include <unistd.h>

using namespace mc;

namespace {
struct Fresh {  // what arrives on stderr
  Fresh() {
    fflush(stderr);
    if (ftruncate(2, 0)) {
    }
    lseek(2, 0, SEEK_SET);
  }
  std::string Take() {
    fflush(stderr);
    off_t n = lseek(2, 0, SEEK_END);
    std::string s(n < 0 ? 0 : n, 0);
    if (!s.empty() && pread(2, &s[0], s.size(), 0) != ssize_t(s.size())) abort();
    return s;
  }
};
struct Report {
  const std::string* file;
  int bl, bc, el, ec;
  std::string msg;
};
std::string Show(const Report& r) {
  return (r.file ? "file '" + *r.file + "'" : std::string("no file")) + fmt(" %d %d %d %d ", r.bl, r.bc, r.el, r.ec) + "'" + r.msg + "'";
}
// The one line for this report; "" or what is wrong with it.
std::string Judge(std::string s, const Report& r) {
  if (s.empty() || s.back() != '\n') return "not a whole line";
  s.pop_back();
  if (s.find('\n') != std::string::npos) return "not one line";
  if (s.compare(0, 5, "error")) return "does not start with 'error'";
  std::string f = r.file ? *r.file : "??";
  size_t at = 5;
  while (at < s.size() && (s[at] == ' ' || s[at] == ':') && s.compare(at, f.size() + 1, f + ":")) at++;
  if (s.compare(at, f.size(), f)) return "the file name is not there";
  at += f.size();
  if (s.size() < at + r.msg.size() || s.compare(s.size() - r.msg.size(), std::string::npos, r.msg)) return "the message is not at the end";
  std::string mid = s.substr(at, s.size() - r.msg.size() - at);
  std::vector<long> nums, want = {r.bl, r.bc};
  if (r.el != r.bl) want.push_back(r.el);
  want.push_back(r.ec);
  for (size_t i = 0; i < mid.size();) {
    if (isdigit(static_cast<unsigned char>(mid[i]))) {
      char* e;
      nums.push_back(strtol(&mid[i], &e, 10));
      i = e - mid.c_str();
    } else {
      i++;
    }
  }
  if (nums != want) return "the numbers are not those given";
  return "";
}

const char* const kSyms[] = {"a", "%", "s", "d", "n", " ", ":", "\\", "\351", "$0", "%s%n%d", "\t", "[1,2]", "error", "{}", "*"};
std::string Word(Ctx& c, int max, int syms) {
  int n = c.pick("length", max + 1);
  std::string s;
  for (int i = 0; i < n; i++) s += kSyms[c.pick("symbol", syms)];
  return s;
}
std::string Text(Ctx& c, int max, int syms) {
  if (c.pick("long", 2)) {
    int k = c.pick("size", 3);
    return std::string(k == 0 ? 300 : k == 1 ? 5000 : 70000, 'x') + "%d";
  }
  return Word(c, max, syms);
}

void Direct(Ctx& c) {
  static const int kN[] = {1, 0, 2, 9, 10, 12345, 2147483647};
  Report r;
  int which = c.pick("which", 3), k = c.pick("file", 3);
  std::string f = "s.in";
  r.msg = "syntax error";
  int max = c.thorough ? 4 : 3;
  if (which == 0) {  // the texts
    int side = c.pick("side", 3);
    if (side != 1) f = Text(c, side == 2 ? 2 : max, side == 2 ? 8 : 16);
    if (side != 0) r.msg = Text(c, side == 2 ? 2 : max, side == 2 ? 8 : 16);
    int l = c.pick("lines", 2);
    r.bl = 3, r.bc = 5, r.el = 3 + l, r.ec = 8;
  } else if (which == 1) {  // the numbers
    r.bl = kN[c.pick("line", 7)], r.bc = kN[c.pick("column", 7)], r.el = kN[c.pick("end line", 7)], r.ec = kN[c.pick("end column", 7)];
  } else {  // both of them empty, or one
    int e = c.pick("empty", 4);
    if (e & 1) f = "";
    if (e & 2) r.msg = "";
    r.bl = r.bc = 1, r.el = 1 + c.pick("lines", 2), r.ec = 2;
  }
  if (k == 2 && which) c.prune();
  r.file = k == 1 ? nullptr : &f;
  if (k == 2) f = "dir/" + f + ".in";
  std::string s = Show(r);
  if (s.size() > 400) s = fmt("%zu bytes %s", s.size(), s.substr(0, 40).c_str());
  c.state(fmt("%d ", which) + s);
  if (!c.mine()) return;
  c.note(s);
  Fresh cap;
  stl2ps::error(r.file, r.bl, r.bc, r.el, r.ec, r.msg);
  std::string got = cap.Take(), why = Judge(got, r);
  c.traced();
  c.check(why.empty(), "report", why + ": " + got.substr(0, 300) + "for " + s);
  c.outcome(which == 1 && r.bl != r.el ? "lines" : "line");
}

// Several reports, one after the other.
void History(Ctx& c) {
  static const std::string a = "a.in", b = "%s";
  static const Report kR[] = {{&a, 1, 2, 1, 4, "one"},      {&b, 1, 2, 3, 4, "two %d"}, {nullptr, 7, 2, 7, 9, "%s"},
                              {nullptr, 1, 1, 2, 1, "four"}, {&a, 10, 1, 2, 1, ""}};
  int n = c.pick("reports", c.thorough ? 5 : 4);
  std::vector<const Report*> seq;
  std::string s;
  for (int i = 0; i < n; i++) seq.push_back(&kR[c.pick("report", 5)]), s += " / " + Show(*seq.back());
  c.state("history" + s);
  if (!c.mine()) return;
  c.note(s);
  Fresh cap;
  for (auto r : seq) stl2ps::error(r->file, r->bl, r->bc, r->el, r->ec, r->msg);
  std::string got = cap.Take();
  c.traced();
  size_t at = 0;
  for (auto r : seq) {
    size_t e = got.find('\n', at);
    c.check(e != std::string::npos, "report", "a report is missing: " + got + s);
    std::string why = Judge(got.substr(at, e + 1 - at), *r);
    c.check(why.empty(), "report", why + ": " + got + "for" + s);
    at = e + 1;
  }
  c.check(at == got.size(), "report", "more than the reports: " + got + s);
  c.outcome("history");
}

// Where a wrong token stands, through the whole program.
void Placed(Ctx& c) {
  static const char* const kDocs[] = {
      "load m = \"/dev/null\" ; page { title = \"t\" ; draw m { view = [ 30 , -4.5 ] ; dim ( at = near ( [ 1 , 2 , 3 ] ) , fmt = \"a\" \"b\" ) ; } }",
      "page { @ [ 0.5 , 2 ] ; text \"x y\" { scale = 1 : 2 ; } } page { }"};
  static const char* const kWrong[] = {"{", "]", ":", "wrong_word", "text", "123.25", "\"a string\"", "$", "'", "\"open", "\x80", "@", "%", "1000000000000000000000000000000000000000"};
  static const char* const kSep[] = {" ", "\n", "", "\t ", " // note\n", "\r\n  "};
  static const char* const kPre[] = {"", "\n\n", "// first\n", "   "};
  static const char* const kNames[] = {"script.in", "a%s b.in"};
  int di = c.pick("doc", 2), pos = c.pick("at", 64), w = c.pick("wrong", 14), replace = c.pick("replace", 2), sep = c.pick("separator", 6),
      pre = c.pick("before", 4), name = c.pick("name", c.thorough ? 2 : 1), brk = c.thorough ? c.pick("break", 4) : 0;
  std::vector<std::string> words;
  std::string cur;
  for (const char* p = kDocs[di];; p++) {
    bool in = std::count(cur.begin(), cur.end(), '"') == 1;
    if (!*p || (*p == ' ' && !in)) {
      if (!cur.empty()) words.push_back(cur);
      cur.clear();
      if (!*p) break;
    } else {
      cur += *p;
    }
  }
  if (pos > int(words.size()) || (replace && pos == int(words.size()))) c.prune();
  if (replace)
    words[pos] = kWrong[w];
  else
    words.insert(words.begin() + pos, kWrong[w]);
  std::string text = kPre[pre];
  int line = 1, col = 1;
  auto adv = [&](const std::string& s) {
    for (char ch : s)
      if (ch == '\n')
        line++, col = 1;
      else
        col++;
  };
  adv(text);
  std::vector<std::pair<int, int>> where;
  auto soft = [](char ch) { return isalnum(static_cast<unsigned char>(ch)) || strchr("._+-/", ch); };
  for (size_t i = 0; i < words.size(); i++) {
    where.push_back({line, col});
    text += words[i];
    adv(words[i]);
    std::string s = kSep[(brk && int(i) + brk - 2 == pos) ? 1 : sep];
    if (s.empty() && i + 1 < words.size() && soft(words[i].back()) && soft(words[i + 1][0])) s = " ";
    if (words[i] == "\"open") s = "\n";  // or it would take in more
    text += s;
    adv(s);
  }
  c.state(fmt("placed %d %d %d %d %d %d %d %d", di, pos, w, replace, sep, pre, name, brk));
  if (!c.mine()) return;
  c.note(text);
  // Where does the language say it goes wrong?
  std::vector<Token> toks;
  for (auto& x : words) {
    auto t = RefLex(x);
    if (t.empty()) c.fail("harness", x);
    if (t[0].t == tNum && fabs(t[0].num) > 3.4e38) t[0].t = tBad;
    toks.push_back(t[0]);
  }
  ADoc doc;
  size_t bad = 0;
  if (RefParse(toks, &doc, &bad)) {
    c.outcome("still right");
    return;
  }
  std::string nm = kNames[name];
  Result r = RunScript(text, nm);
  c.traced();
  c.check(!r.ok, "accepted", text);
  size_t e = r.err.find("error");
  c.check(e == 0, "report", "no report:\n" + r.err + text);
  std::string got = r.err.substr(0, r.err.find('\n') + 1);
  c.check(r.err.find("\nerror") == std::string::npos, "report", "more than one report:\n" + r.err + text);
  if (bad >= words.size()) {
    c.outcome("end");
    return;
  }
  Report want{&nm, where[bad].first, where[bad].second, where[bad].first, 0, "syntax error"};
  std::string span = words[bad];
  if (toks[bad].t == tBad) {
    if (span[0] == '"') span = "\"";
    want.msg = span;
  }
  want.ec = want.bc + int(span.size());
  std::string why = Judge(got, want);
  c.check(why.empty(), "place", why + ": " + got + "for " + Show(want) + " in\n" + text);
  c.outcome(toks[bad].t == tBad ? "character" : "token");
}

void Body(Ctx& c) {
  switch (c.pick("part", 3)) {
    case 0: return Direct(c);
    case 1: return History(c);
    default: return Placed(c);
  }
}
}  // namespace

int main(int argc, char** argv) {
  Model m;
  m.property = "C22";
  m.body = Body;
  m.quick_bound = m.thorough_bound = 1;
  m.rule =
      "the reporter with every file name or message of up to 3 (4) and both of up to 2 symbols of 16 (8) - percent signs, "
      "conversions, separators, high bytes - and of 300 to 70000 bytes, no file, every combination of 7 values of each "
      "number; every sequence of up to 3 (4) reports; and 14 wrong tokens put before or in place of every token of two "
      "scripts in 6 x 4 (and broken) layouts, the report compared with where the token stands.";
  m.assumptions = {"texts hold no NUL or line end", "for a script that ends too early only the presence of one report is judged"};
  return run(argc, argv, m);
}
