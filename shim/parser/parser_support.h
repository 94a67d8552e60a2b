// Stand-in for @bazel_rules//parser:parser_support, which is the library form
// of /repo/stl-to-ps/parser_support.{h,cc}: it forwards to that code.
#ifndef VERIF_SHIM_PARSER_PARSER_SUPPORT_H_
#define VERIF_SHIM_PARSER_PARSER_SUPPORT_H_

#include <string>

#include "stl-to-ps/parser_support.h"

namespace parser_support {
struct ScannerExtra {
  std::string* filename = nullptr;
};

template <class L>
void Error(const L& loc, const std::string& msg, ScannerExtra* extra) {
  const std::string* f = loc.begin.filename;
  if (!f && extra) f = extra->filename;
  stl2ps::error(f, loc.begin.line, loc.begin.column, loc.end.line,
                loc.end.column, msg);
}
}  // namespace parser_support
#endif
