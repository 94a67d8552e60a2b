// C03: the parser against a push-down model of the language.

#include "astdump.h"
#include "engine.h"
#include "grammar.h"
#include "model.h"
#include "stl-to-ps/ast.h"
#include "stl-to-ps/parser.h"

using namespace mc;

namespace {
void Compare(Ctx& c, const std::vector<int>& w, bool odd) {
  auto toks = Fill(w, odd);
  std::string text = Join(toks);
  c.note(text);
  ADoc want;
  size_t bad = 0;
  bool ok = RefParse(toks, &want, &bad);
  // The model's two forms must agree (push-down and descent).
  Conf k = {nDoc};
  bool live = true;
  for (int t : w)
    if (live && !Step(&k, t)) live = false;
  bool ok2 = live && Step(&k, tEnd);
  if (ok != ok2) {
    fprintf(stderr, "mc: the two reference grammars disagree on: %s\n", text.c_str());
    _exit(3);
  }
  stl2ps::Document doc;
  int rc = stl2ps::Parse("script.in", text, &doc);
  c.traced();
  if (ok && rc) c.fail("rejects", "a sentence is rejected:\n" + text);
  if (!ok && !rc) c.fail("accepts", "not a sentence, but accepted:\n" + text);
  if (!ok) {
    c.outcome("reject");
    return;
  }
  std::string a = Dump(want), b = DumpImpl(doc, want);
  c.outcome(b);
  if (a != b) c.fail("tree", "parsed as something else:\nwritten:\n" + a + "\nparsed:\n" + b);
}

// Documents by structure: every item costs one deviation.
void Val(Ctx& c, std::vector<int>* w) {
  switch (c.pick("value", 5)) {
    case 0: w->push_back(tNum); break;
    case 1: for (int t : {tStr, tStr}) w->push_back(t); break;
    case 2: for (int t : {tNum, tColon, tNum}) w->push_back(t); break;
    case 3: for (int t : {tLBrack, tNum, tComma, tNum, tComma, tNum, tRBrack}) w->push_back(t); break;
    default: for (int t : {tId, tLPar, tId, tLPar, tLBrack, tNum, tComma, tNum, tComma, tNum, tRBrack, tRPar, tRPar}) w->push_back(t);
  }
}
void Arg(Ctx& c, std::vector<int>* w, bool at) {
  if (at) {
    for (int t : {tAt, tLBrack, tNum, tComma, tNum, tRBrack}) w->push_back(t);
  } else {
    w->push_back(tId);
    w->push_back(tEq);
    Val(c, w);
  }
}
void Doc(Ctx& c, std::vector<int>* w) {
  auto put = [&](std::initializer_list<int> l) { w->insert(w->end(), l); };
  while (int k = c.choose("item", 3)) {
    if (k == 1) {
      put({tLoad, tId, tEq, tStr, tSemi});
      continue;
    }
    put({tPage, tLBrace});
    while (int p = c.choose("page item", 5)) {
      if (p <= 2) {
        Arg(c, w, p == 2);
        put({tSemi});
      } else if (p == 3) {
        put({tText, tLBrack, tStr, tRBrack, tLBrace});
        while (int q = c.choose("text item", 3)) {
          Arg(c, w, q == 2);
          put({tSemi});
        }
        put({tRBrace});
      } else {
        put({tDraw, tId, tLBrace});
        while (int q = c.choose("draw item", 7)) {
          if (q <= 2) {
            Arg(c, w, q == 2);
            put({tSemi});
          } else {
            put({q == 3 ? tAngle : q == 4 ? tDia : q == 5 ? tDim : tRad, tLPar});
            int n = 0;
            while (int a = c.choose("call item", 3)) {
              if (n++) put({tComma});
              Arg(c, w, a == 2);
            }
            put({tRPar, tSemi});
          }
        }
        put({tRBrace});
      }
    }
    put({tRBrace});
  }
}

void Body(Ctx& c) {
  std::vector<int> w;
  int mode = c.pick("mode", 4);
  if (mode == 0) {
    // Every model state, every word of up to k tokens, then the shortest end.
    int s = c.pick("state", g_states.size());
    const State& st = g_states[s];
    w = st.access;
    Conf conf = st.conf;
    c.state(hash_bytes(conf.data(), conf.size() * sizeof(int)));
    bool live = true;
    int k = c.thorough ? 3 : 2;
    for (int i = 0; i < k; i++) {
      int t = c.pick("token", kTokens + 1);
      if (t == kTokens) break;
      w.push_back(t);
      if (!Step(&conf, t)) {
        live = false;
        c.state(uint64_t(12345));
        break;
      }
      c.state(hash_bytes(conf.data(), conf.size() * sizeof(int)));
    }
    if (live && c.pick("finish", 2)) {
      auto f = Finish(conf);
      w.insert(w.end(), f.begin(), f.end());
    }
  } else if (mode == 1) {
    // A complete sentence through each state with one token inserted, replaced
    // or dropped there.
    int s = c.pick("state", g_states.size());
    const State& st = g_states[s];
    c.state(hash_bytes(st.conf.data(), st.conf.size() * sizeof(int)));
    int good = c.pick("next", kTokens);
    Conf n = st.conf;
    if (!Step(&n, good)) c.prune();
    auto fin = Finish(n);
    int edit = c.pick("edit", 2 * kTokens + 1);
    w = st.access;
    if (edit < kTokens) {
      w.push_back(edit);  // inserted
      w.push_back(good);
    } else if (edit < 2 * kTokens) {
      w.push_back(edit - kTokens);  // instead
    }
    w.insert(w.end(), fin.begin(), fin.end());
  } else if (mode == 2) {
    Doc(c, &w);
    c.state(hash_bytes(w.data(), w.size() * sizeof(int)));
  } else {
    // Long lists and deep nests.
    static const int kN[] = {150, 199, 200, 201, 255, 256, 257, 400, 513, 1025};
    int n = c.pick("count", (c.thorough ? 10 : 8) + 132);
    n = n < 132 ? n + 1 : kN[n - 132];
    int what = c.pick("what", 9);
    auto put = [&](std::initializer_list<int> l) { w.insert(w.end(), l); };
    c.state(fmt("long %d %d", what, n));
    if (what == 0) {
      for (int i = 0; i < n; i++) put({tLoad, tId, tEq, tStr, tSemi});
    } else if (what == 1) {
      for (int i = 0; i < n; i++) put({tPage, tLBrace, tRBrace});
    } else {
      put({tPage, tLBrace});
      if (what == 2) {
        for (int i = 0; i < n; i++) put({tId, tEq, tNum, tSemi});
      } else if (what == 3) {
        put({tId, tEq});
        for (int i = 0; i < n; i++) put({tStr});
        put({tSemi});
      } else if (what == 4) {
        put({tId, tEq});
        for (int i = 0; i < n; i++) put({tId, tLPar});
        put({tLBrack, tNum, tComma, tNum, tComma, tNum, tRBrack});
        for (int i = 0; i < n; i++) put({tRPar});
        put({tSemi});
      } else if (what == 5) {
        put({tText, tLBrack});
        for (int i = 0; i < n; i++) put({tStr});
        put({tRBrack, tLBrace});
        for (int i = 0; i < n; i++) put({tId, tEq, tStr, tSemi});
        put({tRBrace});
      } else {
        put({tDraw, tId, tLBrace});
        if (what == 6) {
          for (int i = 0; i < n; i++) put({i % 4 == 0 ? tAngle : i % 4 == 1 ? tDia : i % 4 == 2 ? tDim : tRad, tLPar, tRPar, tSemi});
        } else if (what == 7) {
          put({tDim, tLPar});
          for (int i = 0; i < n; i++) {
            if (i) put({tComma});
            put({tId, tEq, tNum});
          }
          put({tRPar, tSemi});
        } else {
          for (int i = 0; i < n; i++) put({tId, tEq, tNum, tColon, tNum, tSemi});
        }
        put({tRBrace});
      }
      put({tRBrace});
    }
  }
  bool func = false;
  for (size_t i = 0; i + 1 < w.size(); i++) func |= w[i] == tId && w[i + 1] == tLPar;
  if (!c.mine()) return;
  Compare(c, w, false);
  if (func) Compare(c, w, true);
}
}  // namespace

int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++)
    if (std::string(argv[i]) == "--tier=thorough") g_depth = 4;
  Build();
  Model m;
  m.property = "C03";
  m.body = Body;
  m.quick_bound = 4;
  m.thorough_bound = 5;
  m.rule =
      "every configuration of the push-down model of the language (point functions nested to a bound) "
      "x every word of up to 2 (3) tokens, with and without its shortest completion; every sentence "
      "through a configuration with one token inserted, replaced or dropped; every document of up to 4 "
      "(5) items; lists and nests of every length to 132 and some to 400 (1025). Each is parsed by the real parser and compared with an "
      "independent descent parser, tree for tree.";
  m.assumptions = {"token contents are distinct small values; spellings are C04's subject"};
  return run(argc, argv, m);
}
