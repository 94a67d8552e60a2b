// The real parser's tree in the notation of model.h's Dump.
#ifndef MC_ASTDUMP_H_
#define MC_ASTDUMP_H_
#include <unistd.h>

#include <iostream>

#include "engine.h"
#include "model.h"
#include "stl-to-ps/ast.h"

namespace mc {
namespace {
std::string FromMeta(stl2ps::Meta& m) {
  std::string s;
  float f;
  Eigen::RowVector2d v;
  stl2ps::Scale sc;
  AVal a;
  if (m.As(&s)) {
    a.k = AVal::kStr;
    a.s = s;
  } else if (m.As(&f)) {
    a.k = AVal::kNum;
    a.a = f;
  } else if (m.As(&v)) {
    a.k = AVal::kLoc;
    a.a = v.x();
    a.b = v.y();
  } else if (m.As(&sc)) {
    a.k = AVal::kRatio;
    a.a = sc.first;
    a.b = sc.second;
  }
  return Dump(a);
}
// What can be seen of a point value through its public interface.
std::string PointSeen(stl2ps::Point* p, const AVal& want) {
  bool func = dynamic_cast<stl2ps::PointFunc*>(p) != nullptr;
  geo::point_set ps;
  // (numbers may be held in single or double precision)
  ps.insert(Eigen::RowVector3d(want.p.x, want.p.y, want.p.z));
  ps.insert(Eigen::RowVector3d(float(want.p.x), float(want.p.y), float(want.p.z)));
  ps.insert(Eigen::RowVector3d(want.p.x + 0.25, want.p.y, want.p.z));
  Eigen::RowVector3d r(0, 0, 0);
  if (ftruncate(2, 0)) {
  }
  lseek(2, 0, SEEK_SET);
  bool ok = p->Invoke(ps, &r);
  std::cerr.flush();
  off_t len = lseek(2, 0, SEEK_END);
  std::string buf(len > 0 ? len : 0, 0);
  ssize_t n = pread(2, &buf[0], buf.size(), 0);
  buf.resize(n > 0 ? n : 0);
  if (!ok) {
    std::string e = buf, k = "nknown function '";
    size_t at = e.find(k);
    if (at == std::string::npos) return "point failed: " + e;
    at += k.size();
    return "point unknown " + e.substr(at, e.find('\'', at) - at);
  }
  return std::string("point ") + (func ? "func " : "") + fmt("%.6g,%.6g,%.6g", float(r.x()) + 0.0, float(r.y()) + 0.0, float(r.z()) + 0.0);
}
std::string Props(const stl2ps::MetaList& l, const std::vector<AProp>* want) {
  std::string r = "<";
  for (size_t i = 0; i < l.size(); i++) {
    r += l[i]->name + "=";
    if (stl2ps::Point* p = l[i]->get<stl2ps::Point>()) {
      AVal none;
      r += PointSeen(p, want && i < want->size() ? (*want)[i].v : none);
    } else {
      r += FromMeta(*l[i]);
    }
    r += ";";
  }
  return r + ">";
}
template <class T>
const T* At(const std::vector<T>& v, size_t i) {
  return i < v.size() ? &v[i] : nullptr;
}
std::string DumpImpl(const stl2ps::Document& d, const ADoc& want) {
  std::string r;
  for (auto& m : d.models) r += "load " + m.name + "=" + Quote(m.source) + "\n";
  for (size_t i = 0; i < d.pages.size(); i++) {
    auto& p = d.pages[i];
    const APage* wp = At(want.pages, i);
    r += "page " + Props(p.meta, wp ? &wp->props : nullptr) + "\n";
    for (size_t j = 0; j < p.draws.size(); j++) {
      const ABlock* wb = wp ? At(wp->blocks, j) : nullptr;
      if (auto* dr = dynamic_cast<const stl2ps::Draw*>(p.draws[j].get())) {
        r += " draw " + dr->name + " " + Props(dr->meta_list, wb ? &wb->props : nullptr) + "\n";
        for (size_t k = 0; k < dr->dims.size(); k++) {
          const ACall* wc = wb ? At(wb->calls, k) : nullptr;
          auto* c = dr->dims[k].get();
          const char* n = dynamic_cast<const stl2ps::Angle*>(c)  ? "angle"
                          : dynamic_cast<const stl2ps::Dia*>(c) ? "dia"
                          : dynamic_cast<const stl2ps::Dim*>(c) ? "dim"
                          : dynamic_cast<const stl2ps::Rad*>(c) ? "rad"
                                                                : "?";
          r += std::string("  ") + n + " " + Props(c->meta_list, wc ? &wc->props : nullptr) + "\n";
        }
      } else if (auto* tx = dynamic_cast<const stl2ps::Text*>(p.draws[j].get())) {
        r += " text " + Quote(tx->text) + " " + Props(tx->meta_list, wb ? &wb->props : nullptr) + "\n";
      } else {
        r += " ?\n";
      }
    }
  }
  return r;
}

}  // namespace
}  // namespace mc
#endif
