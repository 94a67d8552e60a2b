// C05: every rejection is reported at its file and line.
#include <unistd.h>

#include <map>
#include <set>

#include "engine.h"
#include "grammar.h"
#include "model.h"
#include "run.h"
#include "scene.h"

using namespace mc;

namespace {
struct Fault {
  std::string group;  // independent of the faults of other groups
  std::string word;   // has to be named
  bool load = false, draw_level = false;
  std::string draw;  // the draw it is in
  std::string kind;  // if set: does not hide others of its kind and group
};

// ------------------------------------------------------------ wrong directives
struct Build5 {
  Ctx& c;
  ADoc d;
  std::vector<Fault> faults;
  std::string dir;

  uint64_t h = 7;
  unsigned Bit() const { return 1u << faults.size(); }
  void Add(const char* kind, const std::string& g, const std::string& word, const std::string& draw = "", bool dl = false, bool load = false) {
    faults.push_back({g, word, load, dl, draw, kind});
    h = hash_str(g + word, h);
    c.state(h);
  }

  // One or two faults out of a list, applied in order.  An option returns
  // false if it no longer applies.
  using Opt = std::function<bool()>;
  void Slot(const char* label, const std::vector<Opt>& o) {
    int n = o.size(), from = 0;
    for (int k = 0; k < 2 && from < n; k++) {
      int f = c.choose(label, n - from + 1);
      if (!f) return;
      if (!o[from + f - 1]()) c.prune();
      from += f;
    }
  }
  static std::vector<AVal> Wrong(bool point_wanted, bool thorough) {
    std::vector<AVal> r;
    if (point_wanted) r = {VS("q"), VL(1, 2), VN(3), VR(1, 2)};
    else r = {VP(1, 2, 3), VN(3), VL(1, 2), VR(1, 2)};
    if (!thorough) r.resize(2);
    return r;
  }

  void Calls(size_t pi, size_t bi, size_t ci) {
    // (references die when properties are inserted elsewhere, so look up)
    auto call = [=]() -> ACall& { return d.pages[pi].blocks[bi].calls[ci]; };
    std::string draw = fmt("%zu.%zu", pi, bi), g = draw + fmt(".%zu", ci);
    std::vector<Opt> o;
    ACall now = call();
    for (auto& p : now.props) {
      std::string n = p.name;
      if (n != "fmt")
        o.push_back([=] {
          call().tags |= Bit();
          std::string w = n;
          if (now.kind == tAngle && (n.rfind("from", 0) == 0 || n.rfind("to_", 0) == 0)) w = n.substr(0, n.find('_'));
          Add("missing", g, w, draw);
          return Remove(&call().props, n);
        });
      for (auto& v : Wrong(n != "fmt", c.thorough))
        o.push_back([=] {
          auto* q = Find(&call().props, n);
          if (!q) return false;
          q->v = v;
          q->tags |= Bit();
          Add(n != "fmt" ? "point" : "", g, n, draw);
          return true;
        });
      for (int at = 0; at < 2; at++)
        o.push_back([=] {
          auto* q = Find(&call().props, n);
          if (!q) return false;
          q->tags |= Bit();
          auto copy = *q;
          if (at)
            call().props.push_back(copy);
          else
            call().props.insert(call().props.begin(), copy);
          Add("duplicate", g, n, draw);
          return true;
        });
      static const char* const kFunc[] = {"zork", "closest", "nea", "nears", "Near", "CENTER", "centre", "center_", "nearest", "centers", "cente", "n"};
      for (int fn = 0; fn < (n == "at" ? 12 : n != "fmt"); fn++)
        o.push_back([=] {
          auto* q = Find(&call().props, n);
          if (!q || q->v.k != AVal::kPoint) return false;
          q->v.p.funcs.push_back(kFunc[fn]);
          q->tags |= Bit();
          Add("", g, "", draw);
          return true;
        });
      if (n == "fmt")
        for (const char* bad : {"%d", "%f %f", "x"})
          o.push_back([=] {
            auto* q = Find(&call().props, n);
            if (!q || q->v.k != AVal::kStr) return false;
            q->v.s = bad;
            q->tags |= Bit();
            Add("", g, "fmt", draw);
            return true;
          });
    }
    for (const char* un : {"zork", "scale"})
      for (int at = 0; at < 2; at++)
        o.push_back([=] {
          auto q = Prop(un, VN(1));
          q.tags = Bit();
          if (at)
            call().props.push_back(q);
          else
            call().props.insert(call().props.begin(), q);
          Add("unexpected", g, un, draw);
          return true;
        });
    auto set = [=](const char* n, AVal v) {
      return [=] {
        auto* q = Find(&call().props, n);
        if (!q || q->v.k != AVal::kPoint || !q->v.p.funcs.empty()) return false;
        q->v = v;
        q->tags |= Bit();
        Add("", g, "", draw);
        return true;
      };
    };
    if (now.kind != tAngle) {
      o.push_back(set("dir", VP(0, 0, 0)));
    } else {
      o.push_back([=] {  // both arms the same way
        for (auto& q : call().props) {
          if (q.name.rfind("from", 0) && q.name.rfind("to_", 0)) continue;
          if (q.v.k != AVal::kPoint || !q.v.p.funcs.empty()) return false;
          q.v = VP(1, 1, 0);
          q.tags |= Bit();
        }
        call().tags |= Bit();
        Add("", g, "", draw);
        return true;
      });
      for (std::string side : {"from", "to"})
        o.push_back([=] {
          auto* a = Find(&call().props, side + "_dir");
          auto* b = Find(&call().props, side + "_point");
          if (!a == !b) return false;
          (a ? a : b)->tags |= Bit();
          auto q = Prop(side + (a ? "_point" : "_dir"), VP(3, 2, 0));
          q.tags = Bit();
          call().props.push_back(q);
          Add("", g, side, draw);
          return true;
        });
    }
    o.push_back([=] {  // too far off the page
      auto* q = Find(&call().props, "at");
      if (!q || q->v.k != AVal::kPoint || !q->v.p.funcs.empty() || q->tags) return false;
      q->v = VP(1e38, 0, 0);
      q->tags |= Bit();
      call().tags |= Bit();
      Add("", g, "", draw);
      return true;
    });
    if (d.pages[pi].blocks[bi].name == "e") {
      o.push_back(set("at", VF("near", VP(0, 0, 0))));
      o.push_back(set("at", VF("center", VP(0, 0, 0))));
    }
    static const std::map<Tok, const char*> kLabel = {{tDim, "dim"}, {tAngle, "angle"}, {tDia, "dia"}, {tRad, "rad"}};
    Slot(kLabel.at(now.kind), o);
  }

  void Draw(size_t pi, size_t bi) {
    auto blk = [=]() -> ABlock& { return d.pages[pi].blocks[bi]; };
    std::string g = fmt("%zu.%zu", pi, bi);
    std::vector<Opt> o;
    o.push_back([=] {
      blk().name = "nobody";
      blk().tags |= Bit();
      Add("", g, "nobody", g, true);
      return true;
    });
    auto set = [&](std::string n, AVal v, std::string w) {
      o.push_back([=] {
        auto* q = Find(&blk().props, n);
        if (!q || q->tags) return false;
        q->v = v;
        q->tags |= Bit();
        Add("", g, w, g, true);
        return true;
      });
    };
    set("view", VS("up"), "up");
    set("view", VN(2), "view");
    set("view", VP(1, 2, 3), "view");
    set("scale", VN(2), "scale");
    set("scale", VS("1:2"), "scale");
    set("scale", VR(0, 2), "scale");
    set("scale", VR(1, 0), "scale");
    o.push_back([=] {  // too far off the page: whatever shows a line
      auto* q = Find(&blk().props, "@");
      if (!q || q->tags || blk().name == "e") return false;
      q->v = VL(1e38, 0);
      q->tags |= Bit();
      blk().tags |= Bit();
      Add("", g, "", g, true);
      return true;
    });
    for (auto& p : blk().props) {
      std::string n = p.name;
      o.push_back([=] {
        auto* q = Find(&blk().props, n);
        if (!q) return false;
        q->tags |= Bit();
        blk().props.push_back(*q);
        Add("duplicate", g, n, g, true);
        return true;
      });
    }
    for (const char* n : {"zork", "at"})
      o.push_back([=] {
        auto q = Prop(n, VL(1, 2));
        q.tags = Bit();
        blk().props.insert(blk().props.begin(), q);
        Add("unexpected", g, n, g, true);
        return true;
      });
    Slot("draw", o);
    for (size_t ci = 0; ci < blk().calls.size(); ci++) Calls(pi, bi, ci);
  }

  void Text(size_t pi, size_t bi) {
    auto blk = [=]() -> ABlock& { return d.pages[pi].blocks[bi]; };
    std::string g = fmt("%zu.%zu", pi, bi);
    Slot("text", {[=] {
                    auto q = Prop("zork", VN(1));
                    q.tags = Bit();
                    blk().props.push_back(q);
                    Add("unexpected", g, "zork");
                    return true;
                  },
                  [=] {
                    auto q = Prop("name", VS("x"));
                    q.tags = Bit();
                    blk().props.insert(blk().props.begin(), q);
                    Add("unexpected", g, "name");
                    return true;
                  },
                  [=] {
                    auto* q = Find(&blk().props, "@");
                    q->tags |= Bit();
                    blk().props.push_back(*q);
                    Add("duplicate", g, "@");
                    return true;
                  },
                  [=] {  // too far off the page
                    auto* q = Find(&blk().props, "@");
                    if (q->tags) return false;
                    q->v = VL(1e38, 0);
                    q->tags |= Bit();
                    blk().tags |= Bit();
                    Add("", g, "");
                    return true;
                  }});
  }

  void Page(size_t pi) {
    auto page = [=]() -> APage& { return d.pages[pi]; };
    std::string g = fmt("page%zu", pi);
    Slot("page", {[=] {
                    auto q = Prop("zork", VN(1));
                    q.tags = Bit();
                    page().props.push_back(q);
                    Add("unexpected", g, "zork");
                    return true;
                  },
                  [=] {
                    auto q = Prop("@", VL(1, 1));
                    q.tags = Bit();
                    page().props.insert(page().props.begin(), q);
                    Add("unexpected", g, "@");
                    return true;
                  },
                  [=] {
                    auto* q = Find(&page().props, "name");
                    q->v = VN(3);
                    q->tags |= Bit();
                    Add("", g, "name");
                    return true;
                  },
                  [=] {
                    auto* q = Find(&page().props, "name");
                    q->tags |= Bit();
                    page().props.push_back(*q);
                    Add("duplicate", g, "name");
                    return true;
                  }});
    for (size_t bi = 0; bi < page().blocks.size(); bi++)
      if (page().blocks[bi].draw)
        Draw(pi, bi);
      else
        Text(pi, bi);
  }

  void Loads() {
    for (size_t i = 0; i < d.loads.size(); i++) {
      auto l = [=]() -> ALoad& { return d.loads[i]; };
      std::string g = fmt("load%zu", i);
      auto file = [=](std::string f) {
        return [=] {
          if (l().tags) return false;
          l().file = f;
          l().tags |= Bit();
          Add("", g, l().name, "", false, true);
          return true;
        };
      };
      std::string bad = dir + "/bad.stl";
      Slot("load", {file(dir + "/absent.stl"), file("absent.stl"), file(bad), file(dir), [=] {
                      if (!i || d.loads[i - 1].tags) return false;
                      l().name = d.loads[i - 1].name;
                      l().tags |= Bit();
                      d.loads[i - 1].tags |= Bit();
                      Add("", g, l().name, "", false, true);
                      return true;
                    }});
    }
  }
};

int g_execs = 0;

void Directives(Ctx& c) {
  Build5 b{c, {}, {}, c.scratch};
  b.d = Scene(c.scratch);
  c.state(uint64_t(7));
  b.Loads();
  for (size_t i = 0; i < b.d.pages.size(); i++) b.Page(i);
  static const int kFirst[] = {1, 40};
  int lay = c.pick("layout", c.thorough ? 4 : 2);  // quick: both corners
  if (!c.thorough) lay *= 3;
  int first = kFirst[lay & 1];
  std::string eol = lay & 2 ? "\r\n" : "\n";
  std::string gs;
  for (auto& f : b.faults) gs += f.group + ":" + f.word + ";";
  if (!c.mine()) return;
  WriteFile(c.scratch, "bad.stl", "solid x\nnonsense\n");
  std::string text = Print(&b.d, first, eol);
  c.note(text);
  Result r = RunScript(text);
  c.traced();
  auto diags = Diags(r.err, "script.in");
  c.outcome(fmt("%d %zu", r.ok, diags.size()));
  if (b.faults.empty()) {
    c.check(r.ok && diags.empty(), "clean", "a correct script is reported or refused:\n" + text + r.err);
    return;
  }
  c.check(!r.ok, "accepted", "accepted with faults:\n" + text);
  c.check(r.out.empty(), "output", "refused, but wrote output:\n" + text);
  // Where each fault must be reported, and where else it may be.
  std::vector<std::set<int>> at(b.faults.size());
  std::set<int> any;
  auto mark = [&](unsigned tags, int line, std::vector<int> outer) {
    for (size_t i = 0; i < at.size(); i++)
      if (tags >> i & 1) {
        at[i].insert(line);
        any.insert(line);
        any.insert(outer.begin(), outer.end());
      }
  };
  for (auto& l : b.d.loads) mark(l.tags, l.line, {});
  for (auto& p : b.d.pages) {
    mark(p.tags, p.line, {});
    for (auto& q : p.props) mark(q.tags, q.line, {p.line});
    for (auto& k : p.blocks) {
      mark(k.tags, k.line, {});
      for (auto& q : k.props) mark(q.tags, q.line, {k.line});
      for (auto& a : k.calls) {
        mark(a.tags, a.line, {});
        for (auto& q : a.props) mark(q.tags, q.line, {a.line});
      }
    }
  }
  bool load = false;
  std::set<std::string> draws;
  for (auto& f : b.faults) {
    load |= f.load;
    if (f.draw_level) draws.insert(f.draw);
  }
  // Groups that must be reported, and whether they were.
  std::map<std::string, bool> need;
  for (size_t i = 0; i < b.faults.size(); i++) {
    const Fault& f = b.faults[i];
    bool hit = false;
    for (auto& x : diags)
      if (at[i].count(x.line) && x.text.find(f.word) != std::string::npos) hit = true;
    if (load && !f.load) continue;
    // A draw that is itself wrong may not get to its calls, and the other way
    // round.
    std::string g = f.draw.empty() || !draws.count(f.draw) ? f.group : f.draw;
    // Faults of one kind and place don't hide each other.
    bool same = !f.kind.empty();
    for (auto& o : b.faults)
      if (o.group == f.group || (!f.draw.empty() && o.draw == f.draw && f.draw_level != o.draw_level)) same &= &o == &f || (o.kind == f.kind && o.group == f.group && (o.word != f.word || f.kind == "duplicate"));
    if (same) g += fmt(" (%s, fault %zu)", f.kind.c_str(), i);
    need[g] |= hit;
  }
  for (auto& n : need)
    c.check(n.second, "unreported",
            fmt("nothing reported (at the right line, with the name) for %s, expected faults %s\n", n.first.c_str(), gs.c_str()) + text +
                "\nstderr:\n" + r.err);
  for (auto& x : diags)
    c.check(any.count(x.line), "wrong line",
            fmt("reported at line %d, where nothing is wrong:%s\n", x.line, x.text.c_str()) + text + "\nstderr:\n" + r.err);
}

// ------------------------------------------------------------ syntax errors
void Syntax(Ctx& c) {
  int s = c.pick("state", g_states.size());
  const State& st = g_states[s];
  int t = c.pick("token", kTokens + 5);
  c.state(hash_bytes(st.conf.data(), st.conf.size() * sizeof(int)));
  c.state(fmt("%d %d", s, t));
  int gap = c.pick("gap", c.thorough ? 3 : 2);  // blank or comment lines in between
  int tail = c.pick("tail", 2);
  static const char* const kBad[] = {"$", "\"open", "\"\\q\"", "9e"};
  std::vector<int> w = st.access;
  bool bad = false;
  size_t n = w.size();
  if (t < kTokens) {
    Conf k = st.conf;
    if (Step(&k, t)) c.prune();
    w.push_back(t);
  } else if (t == kTokens) {  // the end, too early
    Conf k = st.conf;
    if (Step(&k, tEnd)) c.prune();
    if (tail) c.prune();
  } else {
    bad = true;
  }
  auto toks = Fill(w, false);
  std::string text;
  int line = 1, at = 1;
  std::vector<int> lines;
  auto put = [&](const std::string& x) {
    if (gap == 1 && lines.size() % 2) text += "\n", line++;
    if (gap == 2) text += "// load x\n\t \r\n", line += 2;
    lines.push_back(line);
    text += x + "\n";
    line++;
  };
  for (size_t i = 0; i < toks.size(); i++) put(toks[i].spell);
  if (bad) put(kBad[t - kTokens - 1]);
  if (t == kTokens) {
    at = lines.empty() ? 1 : lines.back();
  } else {
    at = lines[n];
  }
  if (bad && t - kTokens - 1 == 3) {
    // "9e" is a number and then a name: wrong at one or the other, same line
  }
  if (tail)
    for (const char* x : {";", "load", "}", "load", "x", "=", "\"f\"", ";"}) put(x);
  c.note(text);
  if (!c.mine()) return;
  if (bad && t - kTokens - 1 == 3) {
    // only wrong if no sentence goes on that way (it never does)
    Conf k = st.conf;
    if (Step(&k, tNum) && Step(&k, tId)) return;
  }
  Result r = RunScript(text);
  c.traced();
  auto diags = Diags(r.err, "script.in");
  c.check(!r.ok, "accepted", "accepted, though not a sentence:\n" + text);
  c.check(r.out.empty(), "output", "refused, but wrote output:\n" + text);
  c.check(!diags.empty(), "unreported", "nothing reported for\n" + text + "\nstderr:\n" + r.err);
  c.outcome(diags[0].text);
  bool end = t == kTokens;
  for (auto& x : diags)
    c.check(x.line == at || (end && x.line >= at && x.line <= line), "wrong line",
            fmt("reported at line %d, wrong at line %d:%s\n", x.line, at, x.text.c_str()) + text + "\nstderr:\n" + r.err);
}
void Body(Ctx& c) {
  if (c.pick("mode", 2))
    Syntax(c);
  else
    Directives(c);
}
}  // namespace

int main(int argc, char** argv) {
  Build();
  Model m;
  m.property = "C05";
  m.body = Body;
  m.quick_bound = 2;
  m.thorough_bound = 2;
  m.rule =
      "a correct two-page script with every directive x every set of up to 2 faults (wrong, missing, unknown, "
      "duplicate, exclusive or degenerate properties, unknown models, views and functions, unreadable models, positions too far off the page), in "
      "every pair of places, at two line offsets and line-end styles; every configuration of the grammar model x "
      "every token, lexical error or end of file it does not allow, one token a line. Each run's diagnostics are "
      "compared with the lines and names of the faults.";
  m.assumptions = {"a fault in one call may hide other faults of the same call, a draw's own fault those of its calls, "
                   "and any load fault those of all pages"};
  return run(argc, argv, m);
}
