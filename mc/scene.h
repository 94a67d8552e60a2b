// The document most script-level checks start from: every directive, valid.
#ifndef MC_SCENE_H_
#define MC_SCENE_H_
#include "model.h"

namespace mc {
namespace {
ACall Call(Tok k, std::vector<AProp> p) {
  ACall c;
  c.kind = k;
  c.props = std::move(p);
  return c;
}
ACall DimCall() {
  return Call(tDim, {Prop("at", VP(0, 3, 0)), Prop("dir", VP(1, 0, 0)), Prop("from", VP(-1, 0, 0)),
                     Prop("to", VP(1, 0, 0)), Prop("fmt", VS("%.2f"))});
}
ACall AngleCall(bool from_point = false, bool to_point = true) {
  return Call(tAngle, {Prop("at", VP(1, 1, 0)), Prop("apex", VP(0, 0, 0)),
                       Prop(from_point ? "from_point" : "from_dir", VP(1, 0, 0)),
                       Prop(to_point ? "to_point" : "to_dir", VP(0, 1, 0)), Prop("fmt", VS("%.2f"))});
}
ACall CircleCall(Tok k) {
  return Call(k, {Prop("at", VP(3, 3, 0)), Prop("dir", VP(1, 1, 0)), Prop("center", VP(1.9, 0.3, 0)),
                  Prop("fmt", VS("%.2f"))});
}
ABlock DrawBlock(const std::string& model, std::vector<AProp> p, std::vector<ACall> c) {
  ABlock b;
  b.draw = true;
  b.name = model;
  b.props = std::move(p);
  b.calls = std::move(c);
  return b;
}
ABlock TextBlock(const std::string& text, std::vector<AProp> p) {
  ABlock b;
  b.draw = false;
  b.name = text;
  b.props = std::move(p);
  return b;
}
// Models m (a box), c (an octagonal prism), e (no facets).
ADoc Scene(const std::string& dir) {
  ADoc d;
  d.loads.push_back({"m", WriteFile(dir, "m.stl", StlText(Box({-1, -1, -1}, {1, 1, 1})))});
  d.loads.push_back({"c", WriteFile(dir, "c.stl", StlText(Prism(8, 2, 0, 0, 0, 1, 10)))});
  d.loads.push_back({"e", "/dev/null"});
  APage p1, p2;
  p1.props = {Prop("name", VS("one"))};
  p1.blocks.push_back(DrawBlock("m", {Prop("@", VL(-2, 1)), Prop("scale", VR(1, 2)), Prop("view", VS("Z+"))},
                                {DimCall(), AngleCall()}));
  ACall f = DimCall();
  f.props[0] = Prop("at", VF("near", VP(1.9, 0.3, 0)));
  f.props[2] = Prop("from", VF("center", VP(1.9, 0.3, 0)));
  p1.blocks.push_back(DrawBlock("c", {Prop("@", VL(2, 1)), Prop("scale", VR(1, 4)), Prop("view", VL(0, 0))},
                                {CircleCall(tDia), CircleCall(tRad), f}));
  p1.blocks.push_back(TextBlock("words", {Prop("@", VL(1, -2))}));
  p2.props = {Prop("name", VS("two"))};
  p2.blocks.push_back(TextBlock("more\nwords", {Prop("@", VL(0, 3))}));
  p2.blocks.push_back(DrawBlock("e", {Prop("@", VL(0, 0))}, {DimCall(), AngleCall(true, false)}));
  d.pages = {p1, p2};
  return d;
}
AProp* Find(std::vector<AProp>* p, const std::string& n) {
  for (auto& x : *p)
    if (x.name == n) return &x;
  return nullptr;
}
bool Remove(std::vector<AProp>* p, const std::string& n) {
  for (size_t i = 0; i < p->size(); i++)
    if ((*p)[i].name == n) {
      p->erase(p->begin() + i);
      return true;
    }
  return false;
}
}  // namespace
}  // namespace mc
#endif
