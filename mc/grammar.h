// The push-down model of the script language and its reachable configurations.
#ifndef MC_GRAMMAR_H_
#define MC_GRAMMAR_H_
#include <deque>
#include <set>
#include <string>
#include <vector>

#include "model.h"

namespace mc {
namespace {
// Predictive grammar of the language.  Symbols < kTokens are tokens.
enum Sym {
  nDoc = 100, nPage, nDraw, nCall, nCallMore, nTextBody, nArg, nVal, nNumTail, nLocTail, nStrs, nLoc, nPoint
};
struct Rule {
  int lhs;
  std::vector<int> first;  // lookaheads
  std::vector<int> rhs;
};
const std::vector<Rule>& Rules() {
  static const std::vector<Rule> r = {
      {nDoc, {tLoad}, {tLoad, tId, tEq, tStr, tSemi, nDoc}},
      {nDoc, {tPage}, {tPage, tLBrace, nPage, tRBrace, nDoc}},
      {nDoc, {tEnd}, {}},
      {nPage, {tId, tAt}, {nArg, tSemi, nPage}},
      {nPage, {tDraw}, {tDraw, tId, tLBrace, nDraw, tRBrace, nPage}},
      {nPage, {tText}, {tText, tLBrack, tStr, nStrs, tRBrack, tLBrace, nTextBody, tRBrace, nPage}},
      {nPage, {tRBrace}, {}},
      {nDraw, {tId, tAt}, {nArg, tSemi, nDraw}},
      {nDraw, {tAngle}, {tAngle, tLPar, nCall, tRPar, tSemi, nDraw}},
      {nDraw, {tDia}, {tDia, tLPar, nCall, tRPar, tSemi, nDraw}},
      {nDraw, {tDim}, {tDim, tLPar, nCall, tRPar, tSemi, nDraw}},
      {nDraw, {tRad}, {tRad, tLPar, nCall, tRPar, tSemi, nDraw}},
      {nDraw, {tRBrace}, {}},
      {nCall, {tId, tAt}, {nArg, nCallMore}},
      {nCall, {tRPar}, {}},
      {nCallMore, {tComma}, {tComma, nArg, nCallMore}},
      {nCallMore, {tRPar}, {}},
      {nTextBody, {tId, tAt}, {nArg, tSemi, nTextBody}},
      {nTextBody, {tRBrace}, {}},
      {nArg, {tId}, {tId, tEq, nVal}},
      {nArg, {tAt}, {tAt, nLoc}},
      {nVal, {tStr}, {tStr, nStrs}},
      {nVal, {tNum}, {tNum, nNumTail}},
      {nVal, {tId}, {tId, tLPar, nPoint, tRPar}},
      {nVal, {tLBrack}, {tLBrack, tNum, tComma, tNum, nLocTail}},
      {nNumTail, {tColon}, {tColon, tNum}},
      {nNumTail, {tSemi, tComma, tRPar}, {}},
      {nLocTail, {tRBrack}, {tRBrack}},
      {nLocTail, {tComma}, {tComma, tNum, tRBrack}},
      {nStrs, {tStr}, {tStr, nStrs}},
      {nStrs, {tSemi, tComma, tRPar, tRBrack}, {}},
      {nLoc, {tLBrack}, {tLBrack, tNum, tComma, tNum, tRBrack}},
      {nPoint, {tLBrack}, {tLBrack, tNum, tComma, tNum, tComma, tNum, tRBrack}},
      {nPoint, {tId}, {tId, tLPar, nPoint, tRPar}},
  };
  return r;
}
using Conf = std::vector<int>;  // stack, top at the back
// One token; false: no sentence continues.
bool Step(Conf* c, int t) {
  for (;;) {
    if (c->empty()) return t == tEnd;
    int top = c->back();
    if (top < 100) {
      if (top != t) return false;
      c->pop_back();
      return true;
    }
    const Rule* use = nullptr;
    for (auto& r : Rules())
      if (r.lhs == top)
        for (int f : r.first)
          if (f == t) use = &r;
    if (!use) return false;
    c->pop_back();
    for (size_t i = use->rhs.size(); i-- > 0;) c->push_back(use->rhs[i]);
  }
}
struct State {
  Conf conf;
  std::vector<int> access;
  std::vector<int> finish;  // a shortest way to the end
};
std::vector<State> g_states;
int g_depth = 3;

int Depth(const Conf& c) {  // open function parentheses
  int n = 0;
  for (size_t i = 0; i < c.size(); i++) n += c[i] == tRPar;
  return n;
}
std::vector<int> Finish(Conf c) {
  // breadth first over configurations
  std::deque<std::pair<Conf, std::vector<int>>> q{{c, {}}};
  std::set<Conf> seen{c};
  while (!q.empty()) {
    auto [k, w] = q.front();
    q.pop_front();
    Conf e = k;
    if (Step(&e, tEnd) && e.empty()) return w;
    if (w.size() > 40) break;
    for (int t = 0; t < kTokens; t++) {
      Conf n = k;
      if (!Step(&n, t) || n.size() > c.size() + 8) continue;
      if (!seen.insert(n).second) continue;
      auto w2 = w;
      w2.push_back(t);
      q.push_back({n, w2});
    }
  }
  return {};
}
void Build() {
  g_states.clear();
  std::set<Conf> seen;
  std::deque<State> q;
  State s0;
  s0.conf = {nDoc};
  seen.insert(s0.conf);
  q.push_back(s0);
  while (!q.empty()) {
    State s = q.front();
    q.pop_front();
    s.finish = Finish(s.conf);
    g_states.push_back(s);
    for (int t = 0; t < kTokens; t++) {
      State n = s;
      if (!Step(&n.conf, t)) continue;
      if (Depth(n.conf) > g_depth) continue;
      if (!seen.insert(n.conf).second) continue;
      n.access.push_back(t);
      q.push_back(n);
    }
  }
}

// Give the tokens distinct contents.
std::vector<Token> Fill(const std::vector<int>& w, bool odd_func) {
  std::vector<Token> r;
  int nf = 0;
  for (size_t i = 0; i < w.size(); i++) {
    Token t;
    t.t = Tok(w[i]);
    std::string n = std::to_string(i + 1);
    if (t.t == tId) {
      bool func = i + 1 < w.size() && w[i + 1] == tLPar;
      t.text = func ? "near" : "n" + n;
      if (func) {
        // the last function of a chain of two or more, or the only one
        bool more = i + 2 < w.size() && w[i + 2] == tId;
        if (odd_func && !more) t.text = "f" + n;
        nf++;
      }
      t.spell = t.text;
    } else if (t.t == tNum) {
      t.num = double(i + 1) * (i % 3 == 2 ? -1 : 1);
      t.spell = std::to_string(int(t.num));
    } else if (t.t == tStr) {
      t.text = "s" + n;
      t.spell = Quote(t.text);
    } else {
      t.spell = kTokName[t.t];
    }
    r.push_back(t);
  }
  return r;
}
std::string Join(const std::vector<Token>& t) {
  std::string s;
  for (auto& x : t) s += x.spell + (x.t == tSemi || x.t == tLBrace ? "\n" : " ");
  return s;
}
}  // namespace
}  // namespace mc
#endif
