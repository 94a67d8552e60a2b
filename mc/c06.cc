// C06: each directive accepts exactly its own properties, in any order.
#include <algorithm>
#include <cstring>
#include <numeric>
#include <set>

#include "engine.h"
#include "model.h"
#include "run.h"
#include "scene.h"

using namespace mc;

namespace {
struct Spec {
  const char* name;
  bool required;
  const char* types;  // accepted kinds: s n r l p
  AVal value;
  const char* alt = nullptr;  // excludes, and is an alternative to
};
struct Directive {
  const char* name;
  Tok kind;  // tPage, tDraw, tText or a call
  std::vector<Spec> props;
};
std::vector<Directive> Table() {
  AVal pt = VP(0, 3, 0);
  return {
      {"page", tPage, {{"name", false, "s", VS("title")}}},
      {"draw", tDraw, {{"@", false, "l", VL(1, 2)}, {"scale", false, "r", VR(1, 2)}, {"view", false, "sl", VS("X+")}}},
      {"text", tText, {{"@", false, "l", VL(1, 2)}}},
      {"dim", tDim,
       {{"at", true, "p", VP(0, 3, 0)}, {"dir", true, "p", VP(1, 0, 0)}, {"from", true, "p", VP(-1, 0, 0)},
        {"to", true, "p", VP(1, 0, 0)}, {"fmt", false, "s", VS("%.1f")}}},
      {"angle", tAngle,
       {{"at", true, "p", VP(1, 1, 0)}, {"apex", true, "p", VP(0, 0, 0)},
        {"from_dir", true, "p", VP(1, 0, 0), "from_point"}, {"from_point", true, "p", VP(2, 0, 0), "from_dir"},
        {"to_dir", true, "p", VP(0, 1, 0), "to_point"}, {"to_point", true, "p", VP(0, 3, 0), "to_dir"},
        {"fmt", false, "s", VS("%.2f")}}},
      {"dia", tDia,
       {{"at", true, "p", VP(3, 3, 0)}, {"dir", true, "p", VP(1, 1, 0)}, {"center", true, "p", VP(1.9, 0.3, 0)},
        {"fmt", false, "s", VS("%.1f")}}},
      {"rad", tRad,
       {{"at", true, "p", VP(3, 3, 0)}, {"dir", true, "p", VP(1, 1, 0)}, {"center", true, "p", VP(1.9, 0.3, 0)},
        {"fmt", false, "s", VS("%.1f")}}},
  };
}
const std::vector<Directive>& T() {
  static const auto& t = *new std::vector<Directive>(Table());
  return t;
}
AVal OfType(char t, int which) {
  switch (t) {
    case 's': return VS(which ? "Y+" : "%.3f");
    case 'n': return VN(which ? -1.5 : 2);
    case 'r': return VR(1, which ? 3 : 2);
    case 'l': return VL(which ? 2 : 1, 2);
    case 'p': return which ? VP(2, 3, 1) : VF("near", VP(1, 2, 0));
  }
  return VN(0);
}
char KindOf(const AVal& v) { return "snrlp"[v.k]; }

// The script with the directive's properties (in order), and other items of
// its block put in between at a position.
std::string Script(Ctx& c, const Directive& d, const std::vector<AProp>& props, int after = -1) {
  static const auto& scene = *new ADoc(Scene(c.scratch));
  auto one = [](const AProp& p) { return p.name == "@" ? "@" + Print(p.v) : p.name + "=" + Print(p.v); };
  std::string s = "load c = " + Quote(scene.loads[1].file) + ";\n";
  std::string other[2];
  if (d.kind == tPage) {
    other[0] = "draw c { scale=1:4; }";
    other[1] = "text [\"t\"] {}";
  } else if (d.kind == tDraw) {
    other[0] = "dim(at=[0,3,0],dir=[1,0,0],from=[-1,0,0],to=[1,0,0]);";
    other[1] = "rad(at=[0,3,3],dir=[1,1,1],center=[2,0,1]);";
  }
  std::string body;
  bool call = d.kind != tPage && d.kind != tDraw && d.kind != tText;
  for (size_t i = 0; i <= props.size(); i++) {
    if (after < 0 ? i == props.size() : int(i) == after) body += other[0] + "\n";
    if (after < 0 ? i == props.size() : int(i) == std::min<int>(props.size(), after + 1)) body += other[1] + "\n";
    if (i < props.size()) body += one(props[i]) + (call ? i + 1 < props.size() ? ",\n" : "\n" : ";\n");
  }
  if (d.kind == tPage) return s + "page {\n" + body + "}\n";
  if (d.kind == tDraw) return s + "page { draw c {\n" + body + "} }\n";
  if (d.kind == tText) return s + "page { text [\"t\"] {\n" + body + "} }\n";
  return s + "page { draw c { " + d.name + "(\n" + body + "); } }\n";
}

bool Valid(const Directive& d, const std::vector<AProp>& props) {
  std::set<std::string> have;
  for (auto& p : props) {
    const Spec* s = nullptr;
    for (auto& x : d.props)
      if (p.name == x.name) s = &x;
    if (!s) return false;
    if (!strchr(s->types, KindOf(p.v))) return false;
    if (p.name == "view" && p.v.k == AVal::kStr && (p.v.s.size() != 2 || !strchr("XYZ", p.v.s[0]) || !strchr("+-", p.v.s[1]))) return false;
    if (!have.insert(p.name).second) return false;
  }
  for (auto& x : d.props) {
    if (!x.required) continue;
    bool a = have.count(x.name), b = x.alt && have.count(x.alt);
    if (x.alt ? a == b : !a) return false;
  }
  return true;
}

void Judge(Ctx& c, const Directive& d, const std::vector<AProp>& props, const std::string& text) {
  c.note(text);
  Result r = RunScript(text);
  c.traced();
  bool want = Valid(d, props);
  c.outcome(fmt("%d", r.ok));
  if (want && !r.ok) c.fail("refused", "a complete and correct directive is refused:\n" + text + r.err);
  if (!want && r.ok) c.fail("accepted", std::string("accepted, though not a correct ") + d.name + ":\n" + text);
  if (!r.ok && !r.out.empty()) c.fail("output", "refused, but wrote output:\n" + text);
}

void Contents(Ctx& c) {
  const Directive& d = T()[c.pick("directive", T().size())];
  std::vector<AProp> props;
  c.state(d.name);
  for (auto& s : d.props) {
    bool first_alt = s.alt && strcmp(s.name, s.alt) > 0;  // x_point is the default of two: absent
    auto valid = Prop(s.name, s.value);
    static const char* const kViews[] = {"x+", "X", "+X", "X++", " X+", "X+ ", "", "top", "W+", "XY+"};
    bool view = !strcmp(s.name, "view");
    int k = c.choose(s.name, view ? 25 : 15);
    c.state(fmt("%s %s %d", d.name, s.name, k));
    bool present = s.alt ? !first_alt : true;
    if (k == 0) {
      if (present) props.push_back(valid);
    } else if (k == 1) {
      if (!present) props.push_back(valid);
    } else if (k <= 11) {  // a value of some type
      char t = "snrlp"[(k - 2) / 2];
      AVal v = OfType(t, (k - 2) % 2);
      if (s.name[0] == '@' && t != 'l') c.prune();
      // a good type has to be a good value too
      if (strchr(s.types, t)) v = s.value.k == v.k ? s.value : t == 's' ? VS("Y+") : VL(30, 40);
      props.push_back(Prop(s.name, v));
    } else if (k == 12) {  // twice the same
      props.push_back(valid);
      props.push_back(valid);
    } else if (k == 13) {  // twice, differing
      props.push_back(valid);
      auto v2 = valid;
      v2.v = s.value.k == AVal::kPoint ? VP(5, 4, 0) : s.value.k == AVal::kStr ? VS(d.kind == tDraw ? "Z-" : "%.0f") : s.value.k == AVal::kLoc ? VL(0, 0) : VR(2, 1);
      props.push_back(v2);
    } else if (k > 14) {
      props.push_back(Prop(s.name, VS(kViews[k - 15])));
    } else {  // three times
      for (int i = 0; i < 3; i++) props.push_back(valid);
    }
  }
  // One that does not belong.
  static const char* const kNames[] = {"zork", "@", "name", "scale", "view", "at", "dir", "from", "to", "fmt", "apex",
                                       "from_dir", "from_point", "to_dir", "to_point", "center", "Name", "FMT", "_", "a1", "At", "nam"};
  int u = c.choose("unknown", sizeof kNames / sizeof *kNames + 1);
  if (u) {
    AVal v = kNames[u - 1][0] == '@' ? VL(1, 1) : OfType("snrlp"[c.pick("type", 5)], 1);
    auto p = Prop(kNames[u - 1], v);
    if (c.pick("where", 2))
      props.push_back(p);
    else
      props.insert(props.begin(), p);
    // A known name with another value would need the value to be good.
    for (auto& s : d.props)
      if (p.name == s.name && strchr(s.types, KindOf(v))) c.prune();
  }
  if (c.pick("reverse", 2)) std::reverse(props.begin(), props.end());
  if (!c.mine()) return;
  Judge(c, d, props, Script(c, d, props));
}

void Orders(Ctx& c) {
  const Directive& d = T()[c.pick("directive", T().size())];
  std::vector<AProp> props;
  for (auto& s : d.props) {
    if (s.alt) {
      bool point = strstr(s.name, "_point");
      static int choice[2];
      int side = s.name[0] == 't';
      if (!point) choice[side] = c.pick("alternative", 2);
      if (choice[side] == point) props.push_back(Prop(s.name, s.value));
    } else if (s.required || !c.pick("leave out", 2)) {
      props.push_back(Prop(s.name, s.value));
    }
  }
  std::string key = d.name;
  for (auto& p : props) key += " " + p.name;
  c.state(key);
  std::vector<AProp> rest = props, order;
  while (!rest.empty()) {
    int i = c.pick("next", rest.size());
    order.push_back(rest[i]);
    rest.erase(rest.begin() + i);
    key += fmt(" %d", i);
    c.state(key);
  }
  int after = -1;
  if (d.kind == tPage || d.kind == tDraw) after = c.pick("others after", props.size() + 1);
  if (!c.mine()) return;
  std::string a = Script(c, d, props), b = Script(c, d, order, after);
  c.note(b);
  Result ra = RunScript(a), rb = RunScript(b);
  c.traced(2);
  c.check(ra.ok, "refused", "a correct directive is refused:\n" + a + ra.err);
  c.check(rb.ok, "refused", "a correct directive is refused:\n" + b + rb.err);
  c.outcome(ra.out);
  c.check(ra.out == rb.out, "order", "the order of the properties changes the output:\n" + a + "\n---\n" + b);
}
void Body(Ctx& c) {
  if (c.pick("mode", 2))
    Orders(c);
  else
    Contents(c);
}
}  // namespace

int main(int argc, char** argv) {
  Model m;
  m.property = "C06";
  m.body = Body;
  m.quick_bound = 2;
  m.thorough_bound = 3;
  m.rule =
      "every directive x up to 2 (3) departures from a correct one: each property absent, of each value type, "
      "doubled, or one that does not belong (own, foreign, misspelt names), in two orders; every permutation of the "
      "properties of every correct directive, and every position among the block's other items. Acceptance is "
      "compared with the table of properties, output with that of the first order.";
  return run(argc, argv, m);
}
