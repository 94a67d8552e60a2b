// C07: pages and blocks in script order, independent of each other.
#include <map>
#include <set>

#include "engine.h"
#include "model.h"
#include "psdoc.h"
#include "run.h"
#include "scene.h"

using namespace mc;

namespace {
struct Kind {
  const char* model;  // nullptr: none
  std::string text;
};
std::string g_dir;
std::vector<Kind>& Kinds() {
  static auto& k = *new std::vector<Kind>{
      {"m", "draw m { @[-2,1]; }"},
      {"m", "draw m { @[1,1]; view=[30,40]; scale=1:2; dim(at=[0,3,0],dir=[1,0,0],from=[-1,0,0],to=near([1,1,1])); }"},
      {"c", "draw c { @[2,1]; scale=1:4; dia(at=[3,3,0],dir=[1,1,0],center=[1.9,0.3,0]); rad(at=[3,-3,0],dir=[1,-1,0],center=[1.9,0.3,0],fmt=\"%.1f\"); }"},
      {"c", "draw c { @[2,-1]; view=[20,0]; scale=1:3; dim(at=[0,4,0],dir=[1,0,0],from=center([1.9,0.3,0]),to=near([1.9,0.3,0])); angle(at=[2,2,0],apex=[0,0,0],from_dir=[1,0,0],to_point=[0,4,0]); }"},
      {nullptr, "text [\"words\"] { @[1,-2]; }"},
      {nullptr, "text [\"more\\n\\nwords\"] {}"},
      {"e", "draw e { @[0.5,0.5]; dim(at=[0,1,0],dir=[1,0,0],from=[-1,0,0],to=[1,0,0]); }"},
      {"m", "draw m { view=\"X+\"; scale=2:1; angle(at=[0,2,2],apex=[0,0,0],from_dir=[0,1,0],to_dir=[0,0,1],fmt=\"%.3f\"); }"},
      {"w", "draw w { @[-1,-1]; view=\"Y-\"; dim(at=near([0,0,9]),dir=[1,0,0],from=near([0,0,0]),to=near([9,0,9])); rad(at=[3,0,3],dir=[1,0,1],center=[2,0,0.9]); }"},
  };
  return k;
}
// Blocks that are refused.
std::vector<Kind>& Bad() {
  static auto& k = *new std::vector<Kind>{
      {"e", "draw e { dim(at=near([0,1,0]),dir=[1,0,0],from=[-1,0,0],to=[1,0,0]); }"},
      {"e", "draw e { dim(at=[0,1,0],dir=[1,0,0],from=center([-1,0,0]),to=[1,0,0]); }"},
      {"e", "draw e { dia(at=[3,3,0],dir=[1,1,0],center=[1.9,0.3,0]); }"},
      {"e", "draw e { rad(at=[3,3,0],dir=[1,1,0],center=[1.9,0.3,0]); }"},
      {"e", "draw e { angle(at=[0,2,2],apex=near([0,0,0]),from_dir=[0,1,0],to_dir=[1,0,1]); }"},
      {"t", "draw t { dia(at=[3,3,0],dir=[1,1,0],center=[1.9,0.3,0]); }"},
      {"m", "draw nobody { @[1,1]; }"},
      {"m", "draw m { view=\"up\"; }"},
      {"m", "draw m { scale=0:1; }"},
      {"m", "draw m { scale=1:2; dim(at=[0,1,0],dir=[1,0,0],from=[-1,0,0]); }"},
      {"c", "draw c { view=[0,0]; dia(at=[3,3,0],dir=[1,1,0],center=[1.9,0.3,0],fmt=\"%d\"); }"},
      {"c", "draw c { angle(at=[2,2,0],apex=[0,0,0],from_dir=[1,0,0],to_point=[3,0,4]); }"},
      {"m", "draw m { name=\"x\"; }"},
      {"m", "draw m { view=\"X+\"; dia(at=[3,3,0],dir=[1,0,0],center=[1,1,1]); }"},
      {nullptr, "text [\"words\"] { scale=1:2; }"},
  };
  return k;
}
std::string LoadOf(const std::string& m) {
  if (m == "e") return "load e = \"/dev/null\";\n";
  return "load " + m + " = " + Quote(g_dir + "/" + m + ".stl") + ";\n";
}
void Files(Ctx& c) {
  g_dir = c.scratch;
  WriteFile(g_dir, "m.stl", StlText(Box({-1, -1, -1}, {1, 1, 1})));
  WriteFile(g_dir, "t.stl", StlText({{V3{0, 0, 0}, V3{1, 0, 2}, V3{2, 0, 0}}}));  // seen edge on
  WriteFile(g_dir, "c.stl", StlText(Prism(8, 2, 0, 0, 0, 1, 10)));
  Mesh w;  // a wedge
  V3 p[6] = {{0, 0, 0}, {3, 0, 0}, {0, 0, 2}, {0, 2, 0}, {3, 2, 0}, {0, 2, 2}};
  w.push_back({p[0], p[1], p[2]});
  w.push_back({p[3], p[5], p[4]});
  Quad(&w, p[0], p[3], p[4], p[1]);
  Quad(&w, p[1], p[4], p[5], p[2]);
  Quad(&w, p[0], p[2], p[5], p[3]);
  WriteFile(g_dir, "w.stl", StlText(w));
}
PsPage Parsed(Ctx& c, const std::string& text, PsDoc* doc) {
  Result r = RunFresh(text);
  c.traced();
  c.check(r.ok, "refused", "a correct script is refused:\n" + text + r.err);
  *doc = RunPs(r.out);
  c.check(doc->ok, "postscript", doc->error + "\n" + text);
  return {};
}
const PsPage& Alone(Ctx& c, size_t k) {
  static auto& memo = *new std::map<size_t, PsPage>;
  auto i = memo.find(k);
  if (i != memo.end()) return i->second;
  const Kind& kd = Kinds()[k];
  std::string text = std::string(kd.model ? LoadOf(kd.model) : "") + "page {\n" + kd.text + "\n}\n";
  PsDoc d;
  Parsed(c, text, &d);
  c.check(d.pages.size() == 1, "pages", "not one page:\n" + text);
  PsPage rest;
  Furniture f;
  std::string why;
  c.check(Strip(d.pages[0], &rest, &f, &why), "furniture", why + "\n" + text);
  c.check(!rest.lines.empty() || !rest.texts.empty(), "empty", "nothing drawn:\n" + text);
  return memo[k] = rest;
}

// The pens of any block alone.
const decltype(PsPage::pens)& Pens(Ctx& c) {
  static auto& all = *new decltype(PsPage::pens);
  if (all.empty())
    for (size_t k = 0; k < Kinds().size(); k++) all.insert(Alone(c, k).pens.begin(), Alone(c, k).pens.end());
  return all;
}

struct Pg {
  std::string title;
  bool titled = false;
  std::vector<size_t> blocks;
};

void Judge(Ctx& c, const std::vector<Pg>& pages, int loads) {
  Files(c);
  std::set<std::string> used;
  for (auto& p : pages)
    for (size_t b : p.blocks)
      if (Kinds()[b].model) used.insert(Kinds()[b].model);
  std::vector<std::string> models(used.begin(), used.end());
  if (loads == 1) std::reverse(models.begin(), models.end());
  if (loads == 2) models = {"w", "c", "e", "m"};
  std::string text, late;
  for (auto& m : models) text += LoadOf(m);
  if (loads == 3) late.swap(text);  // loads after the pages
  for (auto& p : pages) {
    text += "page {\n";
    if (p.titled) text += "name=" + Quote(p.title) + ";\n";
    for (size_t b : p.blocks) text += Kinds()[b].text + "\n";
    text += "}\n";
  }
  text += late;
  c.note(text);
  PsDoc d;
  Parsed(c, text, &d);
  c.check(d.pages.size() == pages.size(), "pages", fmt("%zu pages instead of %zu:\n", d.pages.size(), pages.size()) + text);
  for (size_t i = 0; i < pages.size(); i++) {
    PsPage rest, want;
    Furniture f;
    std::string why;
    c.check(Strip(d.pages[i], &rest, &f, &why), "furniture", fmt("page %zu: ", i + 1) + why + "\n" + text);
    std::string nr = fmt("page %zu of %zu", i + 1, pages.size());
    c.check(f.has_meta && f.meta.size() >= nr.size() && f.meta.compare(f.meta.size() - nr.size(), nr.size(), nr) == 0, "number",
            "'" + f.meta + "' instead of '" + nr + "'\n" + text);
    c.check(f.title == pages[i].title, "title", "'" + f.title + "' instead of '" + pages[i].title + "'\n" + text);
    for (size_t b : pages[i].blocks) {
      const PsPage& a = Alone(c, b);
      want.lines.insert(want.lines.end(), a.lines.begin(), a.lines.end());
      want.texts.insert(want.texts.end(), a.texts.begin(), a.texts.end());
      want.arcs.insert(want.arcs.end(), a.arcs.begin(), a.arcs.end());
    }
    c.outcome(fmt("%zu %zu", want.lines.size(), want.texts.size()));
    for (auto& pen : d.pages[i].pens)
      c.check(Pens(c).count(pen), "pen", fmt("page %zu uses a pen %g wide of shade %g that a page alone does not\n", i + 1, std::get<0>(pen), std::get<1>(pen)) + text);
    c.check(SamePage(want, rest, 1e-3, &why), "page", fmt("page %zu differs from its blocks alone: ", i + 1) + why + "\n" + text);
  }
}

// Calls of one draw: each adds what it adds alone, in whatever company.
const std::vector<std::pair<std::string, std::vector<std::string>>>& Scenes() {
  static const auto& s = *new std::vector<std::pair<std::string, std::vector<std::string>>>{
      {"draw c { @[1,-1]; scale=1:3;",
       {"dim(at=[0,4,0],dir=[1,0,0],from=center([1.9,0.3,0]),to=near([1.9,0.3,0]));", "dim(at=[4,0,0],dir=[0,2,0],from=[1,1,1],to=[1,-2,0],fmt=\"%.1f mm\");",
        "angle(at=[2,2,0],apex=[0,0,0],from_dir=[1,0,0],to_point=[0,4,0]);", "angle(at=[-3,1,2],apex=near([1,1,1]),from_point=[-3,0,0],to_dir=[-1,3,0],fmt=\"%.4f\");",
        "dia(at=[3,3,0],dir=[1,1,0],center=[1.9,0.3,0]);", "dia(at=[-4,1,0],dir=[-1,0,0],center=[1.5,0.3,1],fmt=\"d%.1f\");", "rad(at=[3,-3,0],dir=[1,-1,0],center=[1.9,0.3,0],fmt=\"%.1f\");",
        "rad(at=[0,5,0],dir=[0,1,0],center=[0,0,0]);"}},
      {"draw w { view=[40,25]; scale=3:2;",
       {"dim(at=near([0,0,9]),dir=[1,0,0],from=near([0,0,0]),to=near([9,0,9]));", "dim(at=[0,3,0],dir=[0,0,1],from=[0,0,0],to=[1,1,1],fmt=\"%5.0f\");",
        "angle(at=[1,1,1],apex=near([0,0,0]),from_dir=[1,0,0],to_dir=[0,1,0]);", "angle(at=[1,2,0],apex=[1,0,0],from_point=near([9,9,0]),to_point=[0,0,2],fmt=\"%f\");",
        "dia(at=[3,3,0],dir=[1,1,0],center=near([3,0,0]));", "rad(at=[0,0,4],dir=[0,0,1],center=[0,1,1]);"}}};
  return s;
}
PsPage OneRest(Ctx& c, const std::string& text) {
  PsDoc d;
  Parsed(c, text, &d);
  c.check(d.pages.size() == 1, "pages", "not one page:\n" + text);
  PsPage rest;
  Furniture f;
  std::string why;
  c.check(Strip(d.pages[0], &rest, &f, &why), "furniture", why + "\n" + text);
  return rest;
}
void Calls(Ctx& c) {
  int sc = c.pick("scene", 2), n = Scenes()[sc].second.size();
  std::vector<int> k;
  std::string key = fmt("calls %d:", sc);
  int many = c.pick("many", 2);
  if (!many) {
    int len = c.thorough ? 5 : 4;
    for (int i = 0; i < len; i++) {
      int x = c.pick("call", n + 1);
      if (!x) break;
      k.push_back(x - 1);
      key += fmt(" %d", x);
      c.state(key);
    }
  } else {
    int a = c.pick("call", n), b = c.pick("other", n), times = 5 + c.pick("times", c.thorough ? 130 : 36);
    for (int i = 0; i < times; i++) k.push_back(i % 2 ? b : a);
    key += fmt(" %d %d x %d", a, b, times);
    c.state(key);
  }
  if (!c.mine()) return;
  Files(c);
  const auto& s = Scenes()[sc];
  std::string head = LoadOf(sc ? "w" : "c") + "page {\n" + s.first + "\n";
  static PsPage memo[2][10];
  static bool have[2][10];
  auto alone = [&](int i) -> const PsPage& {  // 0: no calls
    if (!have[sc][i]) memo[sc][i] = OneRest(c, head + (i ? s.second[i - 1] : "") + "\n} }\n"), have[sc][i] = true;
    return memo[sc][i];
  };
  std::string text = head;
  for (int i : k) text += s.second[i] + "\n";
  text += "} }\n";
  c.note(text);
  PsPage got = OneRest(c, text), want = got, base = alone(0);
  want.lines = base.lines, want.texts = base.texts, want.arcs = base.arcs;
  for (int i : k) {
    const PsPage& a = alone(i + 1);
    // Without the drawing itself, which comes first.
    auto rest = a.lines;
    for (auto& l : base.lines)
      for (size_t q = 0; q < rest.size(); q++)
        if (fabs(rest[q].x1 - l.x1) + fabs(rest[q].y1 - l.y1) + fabs(rest[q].x2 - l.x2) + fabs(rest[q].y2 - l.y2) < 1e-6) {
          rest.erase(rest.begin() + q);
          break;
        }
    c.check(rest.size() + base.lines.size() == a.lines.size(), "drawing", "a call changes the drawing:\n" + text);
    want.lines.insert(want.lines.end(), rest.begin(), rest.end());
    want.texts.insert(want.texts.end(), a.texts.begin(), a.texts.end());
    want.arcs.insert(want.arcs.end(), a.arcs.begin(), a.arcs.end());
  }
  std::string why;
  c.outcome(fmt("calls %zu %zu", want.lines.size(), want.texts.size()));
  c.check(SamePage(want, got, 1e-3, &why), "calls", "the page differs from what its calls add alone: " + why + "\n" + text);
}

// Two (three) draws that differ in any of model, view, scale, offset and text.
struct Look {
  std::string model, block;
};
const std::vector<Look>& Looks() {
  static const auto& s = *[] {
    auto* r = new std::vector<Look>;
    for (std::string m : {"m", "w"})
      for (std::string v : {"", "\"X+\"", "\"X-\"", "\"Y+\"", "\"Y-\"", "\"Z-\"", "[0,0]", "[30,20]", "[-30,20]", "[30,-20]", "[20,30]", "[210,20]", "[30,200]", "[0,90]"})
        for (std::string k : {"", "1:3", "3:1"})
          for (int at = 0; at < 2; at++) {
            if (at && (k != "" || m == "w")) continue;
            std::string b = "draw " + m + " { ";
            if (!v.empty()) b += "view=" + v + "; ";
            if (!k.empty()) b += "scale=" + k + "; ";
            if (at) b += "@[-1,2]; ";
            r->push_back({m, b + "dim(at=[5,5,5],dir=[1,2,3],from=near([2,1,1]),to=near([-2,-1,3])); }"});
          }
    return r;
  }();
  return s;
}
void Pairs(Ctx& c) {
  auto& s = Looks();
  int k[3] = {int(c.pick("first", s.size())), int(c.pick("second", s.size())), -1};
  int how = c.pick("how", c.thorough ? 3 : 2);
  if (how == 2) k[2] = k[0];
  c.state(fmt("pair %d %d", k[0], k[1]));
  if (!c.mine()) return;
  Files(c);
  static auto& memo = *new std::map<int, PsPage>;
  auto alone = [&](int i) -> const PsPage& {
    if (!memo.count(i)) {
      PsPage p = OneRest(c, LoadOf(s[i].model) + "page {\n" + s[i].block + "\n}\n");
      memo[i] = p;
    }
    return memo[i];
  };
  std::string text = LoadOf("m") + LoadOf("w") + "page {\n";
  std::vector<PsPage> want(1);
  for (int i : k) {
    if (i < 0) continue;
    if (i != k[0] && how) text += "}\npage {\n", want.push_back({});
    text += s[i].block + "\n";
    const PsPage& a = alone(i);
    auto& w = want.back();
    w.lines.insert(w.lines.end(), a.lines.begin(), a.lines.end());
    w.texts.insert(w.texts.end(), a.texts.begin(), a.texts.end());
  }
  text += "}\n";
  c.note(text);
  PsDoc d;
  Parsed(c, text, &d);
  c.check(d.pages.size() == want.size(), "pages", fmt("%zu pages instead of %zu:\n", d.pages.size(), want.size()) + text);
  for (size_t i = 0; i < want.size(); i++) {
    PsPage rest;
    Furniture f;
    std::string why;
    c.check(Strip(d.pages[i], &rest, &f, &why), "furniture", why + "\n" + text);
    c.check(SamePage(want[i], rest, 1e-3, &why), "page", fmt("page %zu differs from its blocks alone: ", i + 1) + why + "\n" + text);
    c.outcome(fmt("pair %zu", want[i].lines.size()));
  }
}

// A block that is refused alone is refused wherever it stands.
void Refused(Ctx& c) {
  int n = Kinds().size(), before = 0, at = -1;
  std::vector<std::string> blocks;
  std::vector<std::string> loads = {"m", "c", "e", "w", "t"};
  std::string text = "page {\n";
  int len = c.thorough ? 4 : 3;
  for (int i = 0; i < len; i++) {
    int k = c.pick("item", n + 2);
    if (!k) break;
    text += k == n + 1 ? "}\npage {\n" : Kinds()[k - 1].text + "\n";
    before++;
    c.state(text);
  }
  at = c.pick("at", before + 1);
  int b = c.pick("refused", Bad().size());
  if (!c.mine()) return;
  Files(c);
  // Insert it after the first `at` items: lines starting a block or a page.
  std::vector<std::string> l;
  for (size_t i = 0, j; i < text.size(); i = j + 1) {
    j = text.find('\n', i);
    l.push_back(text.substr(i, j - i));
  }
  std::string script;
  for (auto& m : loads) script += LoadOf(m);
  int seen = 0;
  for (size_t i = 0; i < l.size(); i++) {
    script += l[i] + "\n";
    if (i && l[i] != "}") seen++;
    if ((i && l[i] != "}" && seen == at) || (!i && !at)) script += Bad()[b].text + "\n";
  }
  script += "}\n";
  c.note(script);
  Result r = RunFresh(script);
  c.traced();
  c.outcome(fmt("refused %d", r.ok));
  c.check(!r.ok && r.out.empty(), "accepted", "a block that is refused alone is accepted among others:\n" + script + "\nthe block: " + Bad()[b].text);
}

void Body(Ctx& c) {
  std::vector<Pg> pages(1);
  int n = Kinds().size();
  int mode = c.pick("mode", 5);
  if (mode == 4) return Pairs(c);
  if (mode == 3) return Calls(c);
  if (mode == 2) return Refused(c);
  if (mode == 0) {
    std::string key;
    c.state("");
    while (int k = c.choose("item", n + 2)) {
      if (k == n + 1)
        pages.push_back({});
      else
        pages.back().blocks.push_back(k - 1);
      key += fmt("%d ", k);
      c.state(key);
    }
    int t = c.pick("titles", 2);
    for (size_t i = 0; i < pages.size(); i++)
      if ((i + t) % 2) pages[i].titled = true, pages[i].title = fmt("title of %zu", i);
  } else {
    int k = c.pick("kind", n), l = c.pick("other", n), rep = 1 + c.pick("times", c.thorough ? 40 : 12);
    bool paged = c.pick("paged", 2);
    for (int i = 0; i < rep; i++) {
      if (i && paged) pages.push_back({});
      pages.back().blocks.push_back(k);
      if (i % 2) pages.back().blocks.push_back(l);
      c.state(fmt("%d %d %d %d", k, l, i, paged));
    }
  }
  int loads = c.pick("loads", 4);
  if (!c.mine()) return;
  Judge(c, pages, loads);
}
}  // namespace

int main(int argc, char** argv) {
  Model m;
  m.property = "C07";
  m.body = Body;
  m.quick_bound = 4;
  m.thorough_bound = 5;
  m.rule =
      "every sequence of up to 4 (5) items, each one of 9 blocks (all directives, named and turned views, empty "
      "model) or a page break, x titles x 4 ways of loading the models; pairs of blocks repeated up to 12 (40) times "
      "on one or as many pages; every sequence of up to 4 (5) of 8 and of 6 dimension calls in one draw, and pairs repeated to 40 (134); every one of 15 blocks that are refused at every place in every sequence of up to 3 (4) items; every pair of 98 draws of "
      "two models (14 views, 3 scales, with and without an offset) on one page and on two. Each script runs in a process of its own. Every page is compared with the union of its blocks drawn alone.";
  m.assumptions = {"a block alone on a page is the reference for what it draws; what that is, is judged by the other properties"};
  return run(argc, argv, m);
}
