// Drives the real code through its public entry point and captures what it did.
#ifndef MC_RUN_H_
#define MC_RUN_H_
#include <map>
#include <string>
#include <vector>

namespace mc {
struct Result {
  bool ok = false;
  std::string out;  // the document
  std::string err;  // everything it said on stderr
};
// Run a script (named `name` in diagnostics) through stl2ps::ScriptToPS.
Result RunScript(const std::string& script, const std::string& name = "script.in");
// The same in a process of its own, so that no earlier run can matter.
Result RunFresh(const std::string& script, const std::string& name = "script.in");
// Make a model file in `dir`; returns its absolute path.
std::string WriteFile(const std::string& dir, const std::string& base, const std::string& data);
// Set a command line flag of the program (aborts the check if unknown).
void SetFlag(const std::string& name, const std::string& value);
// Lines of stderr of the form "...<name>:<line>:..." -> (line, text).
struct Diag {
  int line;
  std::string text;
};
std::vector<Diag> Diags(const std::string& err, const std::string& name);
// A string as a script literal.
std::string Quote(const std::string& s);
// A number as a script literal (never in exponent form).
std::string Num(double v);
}  // namespace mc
#endif
