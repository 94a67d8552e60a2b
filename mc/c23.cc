// C23: a label's fmt is one %f conversion, applied to the measured value.
#include "engine.h"
#include "model.h"
#include "page.h"

#include <cstring>

using namespace mc;

namespace {
// What a format string is by the rules of printf.
enum Verdict { kRefuse, kAccept, kEither };
Verdict Judge(const std::string& f, std::string* plain) {
  Verdict v = kAccept;
  int convs = 0;
  *plain = "";
  for (size_t i = 0; i < f.size();) {
    if (f[i] != '%') {
      *plain += f[i++];
      continue;
    }
    if (i + 1 < f.size() && f[i + 1] == '%') {
      *plain += "%%";
      i += 2;
      continue;
    }
    size_t b = i++;
    std::string spec = "%";
    // an explicit argument number is a POSIX spelling: either is right
    size_t j = i;
    while (j < f.size() && isdigit(static_cast<unsigned char>(f[j]))) j++;
    if (j > i && j < f.size() && f[j] == '$') {
      v = kEither;
      if (f.substr(i, j - i) != "1") return kRefuse;
      i = j + 1;
    }
    while (i < f.size() && strchr("-+ #0", f[i])) spec += f[i++];
    while (i < f.size() && isdigit(static_cast<unsigned char>(f[i]))) spec += f[i++];
    if (i < f.size() && f[i] == '.') {
      spec += f[i++];
      while (i < f.size() && isdigit(static_cast<unsigned char>(f[i]))) spec += f[i++];
    }
    size_t mod = i;
    while (i < f.size() && strchr("hlLqjzt", f[i])) i++;
    if (i > mod) v = std::max(v, kEither);  // length modifiers mean nothing here
    if (i >= f.size() || f[i] != 'f') return kRefuse;
    i++;
    spec += 'f';
    *plain += spec;
    convs++;
    (void)b;
  }
  return convs == 1 ? v : kRefuse;
}
std::string Printf(const std::string& f, double v) {
  char b[1000];
  int n = snprintf(b, sizeof b, f.c_str(), v);
  if (n < int(sizeof b)) return std::string(b, n);
  std::string big(n + 1, 0);
  snprintf(&big[0], big.size(), f.c_str(), v);
  big.resize(n);
  return big;
}

struct Use {
  const char* name;
  const char* pre;    // decoration
  const char* post;
  const char* deffmt;
  std::string call;   // up to the fmt property
  double value;
};
const std::vector<Use>& Uses() {
  static const auto& u = *new std::vector<Use>{
      {"dim", "", "", "%.3f", "dim(at=[0,0,0],dir=[1,0,0],from=[0,0,0],to=[2.5,0,0]", 2.5},
      {"angle", "", " deg", "%.1f", "angle(at=[1,1,0],apex=[0,0,0],from_dir=[1,0,0],to_dir=[1,2,0]", atan2(2, 1) * 180 / M_PI},
      {"dia", "\351", "", "%.3f", "dia(at=[3,3,0],dir=[1,1,0],center=[1,0,0]", 3},
      {"rad", "R", "", "%.3f", "rad(at=[3,3,0],dir=[1,1,0],center=[1,0,0]", 1.5},
      {"dim long", "", "", "%.3f", "dim(at=[0,0,0],dir=[0,2,0],from=[0,-1000,0],to=[7,234.5625,0]", 1234.5625},
      {"dim none", "", "", "%.3f", "dim(at=[0,0,0],dir=[0,2,0],from=[0,3,0],to=[7,3,0]", 0},
      {"dim back", "", "", "%.3f", "dim(at=[0,0,0],dir=[-1,0,0],from=[0,0,0],to=[.0625,0,0]", .0625}};
  return u;
}

std::string Script(Ctx& c, const Use& u, const std::string* f) {
  static const Mesh ring = Prism(8, 1.5, 0, 0, 0, 1, 10);
  return "load s = " + Quote(WriteFile(c.scratch, "ring.stl", StlText(ring))) + ";\npage { draw s { view=\"Z+\"; @[0,0];\n" + u.call +
         (f ? ",fmt=" + Quote(*f) : "") + ");\n} }\n";
}
// The measured value, as exactly as it can be had.
double Measured(Ctx& c, int i) {
  static std::vector<double> got(Uses().size(), NAN);
  if (got[i] == got[i]) return got[i];
  auto& u = Uses()[i];
  std::string f = "%.60f", text = Script(c, u, &f);
  PsPage p = OnePage(c, text);
  c.check(p.texts.size() == 1, "label", "not one label\n" + text);
  std::string s = p.texts[0].s, pre = u.pre, post = u.post;
  c.check(s.size() > pre.size() + post.size() && s.compare(0, pre.size(), pre) == 0 && s.compare(s.size() - post.size(), post.size(), post) == 0,
          "decoration", "'" + s + "'\n" + text);
  s = s.substr(pre.size(), s.size() - pre.size() - post.size());
  char* e;
  double v = strtod(s.c_str(), &e);
  c.check(!*e && fabs(v - u.value) < 1e-5, "value", "'" + s + "'\n" + text);
  return got[i] = v;
}

void Try(Ctx& c, int i, const std::string* f) {
  auto& u = Uses()[i];
  std::string text = Script(c, u, f), plain;
  c.note(text);
  Verdict v = f ? Judge(*f, &plain) : kAccept;
  if (!f) plain = u.deffmt;
  Result r = RunScript(text);
  c.traced();
  if (v == kRefuse) {
    c.check(!r.ok && r.out.empty(), "accepted", "this is not one %f conversion:\n" + text);
    c.outcome("refused");
    return;
  }
  if (v == kAccept) c.check(r.ok, "refused", "a correct format is refused:\n" + text + r.err);
  if (!r.ok) {
    c.check(r.out.empty(), "refused", text);
    c.outcome("modified, refused");
    return;
  }
  double m = Measured(c, i);
  std::string want = u.pre + Printf(plain, m) + u.post;
  PsPage p = OnePage(c, text);
  c.check(p.texts.size() == 1, "label", "not one label\n" + text + Show(p));
  c.check(p.texts[0].s == want, "label", "'" + p.texts[0].s + "' instead of '" + want + "'\n" + text);
  c.outcome(v == kEither ? "modified, accepted" : "accepted");
}

void Words(Ctx& c) {
  static const char kSym[] = "%f.0*3-+ #dFegsnlx$1(9cuLq";
  int i = c.pick("use", c.thorough ? 4 : 4);
  int max = c.thorough ? 5 : i ? 3 : 4, syms = c.thorough ? 22 : i ? 26 : 20;
  int n = c.pick("length", max + 1);
  std::string f;
  for (int k = 0; k < n; k++) {
    // Anything but a conversion before the last place is tried by the shorter words.
    f += kSym[c.pick("symbol", syms)];
  }
  if (n == 5 && f.find('%') > 1) c.prune();
  c.state(fmt("%d ", i) + f);
  if (!c.mine()) return;
  Try(c, i, &f);
}

void Specs(Ctx& c) {
  int i = c.pick("use", Uses().size());
  static const char* const kFlags[] = {"", "-", "+", " ", "#", "0", "-+", "+0", " 0", "-#", "#0", "-0", "+ ", "--", "00", "-+ #0"};
  static const char* const kWidth[] = {"", "1", "9", "14", "*", "40"};
  static const char* const kPrec[] = {"", ".", ".0", ".1", ".2", ".6", ".12", ".*", "..", ".-1", ".02"};
  static const char* const kMod[] = {"", "l", "L", "h", "ll", "hh", "q", "z"};
  static const char kConv[] = "fFeEgGaAdiouxXcspnvbm%hjlztLqy! ";
  static const char* const kPre[] = {"", "x", "%%", "L=", "%", "%f "};
  static const char* const kPost[] = {"", " mm", "%%", "%", "f", "%f"};
  int k = c.pick("conversion", sizeof kConv - 1);
  int left = (c.thorough ? 3 : 2) + !k;  // departures from a plain conversion
  auto part = [&](const char* what, const char* const* l, int n) {
    if (!left) return l[0];
    int x = c.pick(what, n);
    if (x) left--;
    return l[x];
  };
  std::string flags = part("flags", kFlags, 16), width = part("width", kWidth, 6), prec = part("precision", kPrec, 11),
              mod = part("modifier", kMod, 8), post = part("after", kPost, 6), pre = part("before", kPre, 6);
  std::string f = pre + "%" + flags + width + prec + mod + kConv[k] + post;
  c.state(fmt("%d ", i) + f);
  if (!c.mine()) return;
  Try(c, i, &f);
}

// Formats of every length.
void Long(Ctx& c) {
  static const int kMore[] = {200, 254, 255, 256, 257, 300, 500, 511, 512, 513, 999, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 10000};
  int i = c.pick("use", 4), k = c.pick("length", 150 + 20), how = c.pick("how", 7);
  int n = k < 150 ? k : kMore[k - 150];
  if (how > 4 && n > 1025) c.prune();
  std::string w, f;
  while (int(w.size()) < n) w += "a quick brown fox "[w.size() % 18];
  switch (how) {
    case 0: f = w + "%.2f"; break;
    case 1: f = "%.2f" + w; break;
    case 2: f = w.substr(0, n / 2) + "%.4f" + w.substr(n / 2); break;
    case 3:
      for (int j = 0; j < n / 2; j++) f += "%%";
      f += "%.1f";
      break;
    case 4: f = w + "%.2f %"; break;  // spoilt at the end
    case 5: f = fmt("%%%d.2f", n); break;
    default: f = fmt("%%.%df", n);
  }
  c.state(fmt("long %d %d %d", i, n, how));
  if (!c.mine()) return;
  Try(c, i, &f);
}

void Body(Ctx& c) {
  switch (c.pick("part", 4)) {
    case 3: return Long(c);
    case 0: return Words(c);
    case 1: return Specs(c);
    default: {
      int i = c.pick("use", Uses().size());
      c.state(fmt("%d default", i));
      if (!c.mine()) return;
      Try(c, i, nullptr);
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  Model m;
  m.property = "C23";
  m.body = Body;
  m.quick_bound = m.thorough_bound = 1;
  m.rule =
      "dim, angle, dia and rad x every string of up to 3 symbols of 26, dim up to 4 of 20 (all up to 4, and 5 starting with a "
      "conversion, of 22) - percent, flags, digits, star, dollar, conversions, text; and 7 calls x every conversion letter "
      "x all combinations of up to two (three; one more for f) of: text before, flags, width, precision, length modifier, "
      "text after; formats of every length to 150 and some to 10000, widths and precisions to 1025; and no fmt at all. The label is compared with printf of the value measured.";
  m.assumptions = {"length modifiers and the argument number 1$ may be accepted (and mean nothing) or refused"};
  return run(argc, argv, m);
}
