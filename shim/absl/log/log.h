// Stand-in for absl/log (absent from the sandbox's absl 20220623).
// Same observable contract as the real one for what the project uses: one line
// per statement on stderr, FATAL aborts, CHECK evaluates its argument once.
#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_

#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <ostream>
#include <sstream>

namespace verif_shim {
enum LogSev { INFO = 0, WARNING = 1, ERROR = 2, FATAL = 3 };

class LogLine {
 public:
  LogLine(LogSev s, const char* file, int line) : sev_(s) {
    const char* b = file;
    for (const char* p = file; *p; p++)
      if (*p == '/') b = p + 1;
    os_ << "IWEF"[s] << " " << b << ":" << line << "] ";
  }
  ~LogLine() {
    os_ << "\n";
    const std::string s = os_.str();
    std::fwrite(s.data(), 1, s.size(), stderr);
    std::fflush(stderr);
    if (sev_ == FATAL) std::abort();
  }
  std::ostream& stream() { return os_; }
  LogLine& self() { return *this; }

 private:
  LogSev sev_;
  std::ostringstream os_;
};

struct Voidify {
  void operator&&(std::ostream&) const {}
};
}  // namespace verif_shim

#define VERIF_LOG_INFO ::verif_shim::INFO
#define VERIF_LOG_WARNING ::verif_shim::WARNING
#define VERIF_LOG_ERROR ::verif_shim::ERROR
#define VERIF_LOG_FATAL ::verif_shim::FATAL
#define VERIF_LOG_DFATAL ::verif_shim::FATAL

#define LOG(sev) \
  ::verif_shim::LogLine(VERIF_LOG_##sev, __FILE__, __LINE__).stream()
#define LOG_IF(sev, c) \
  !(c) ? (void)0 : ::verif_shim::Voidify() && LOG(sev)
#define VLOG(n) \
  true ? (void)0 : ::verif_shim::Voidify() && LOG(INFO)
#define PLOG(sev) LOG(sev)
#define DLOG(sev) LOG(sev)
#define LOG_FIRST_N(sev, n) LOG(sev)
#define LOG_EVERY_N(sev, n) LOG(sev)

#endif  // VERIF_SHIM_ABSL_LOG_LOG_H_
