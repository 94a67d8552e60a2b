#include "run.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <iostream>
#include <sstream>

#include "absl/flags/reflection.h"
#include "stl-to-ps/stl-to-ps.h"

namespace mc {
namespace {
// fd 2 is a private memfd in every process the explorer starts, so that what a
// dying process said is still there.
struct Capture {
  Capture() {
    std::cerr.flush();
    fflush(stderr);
    if (ftruncate(2, 0)) {
    }
    lseek(2, 0, SEEK_SET);
  }
  std::string Take() {
    std::cerr.flush();
    fflush(stderr);
    off_t n = lseek(2, 0, SEEK_END);
    if (n < 0) n = 0;
    std::string s(n, 0);
    if (n && pread(2, &s[0], n, 0) != n) abort();
    return s;
  }
};
}  // namespace

Result RunScript(const std::string& script, const std::string& name) {
  std::istringstream in(script);
  std::ostringstream out;
  Capture cap;
  Result r;
  r.ok = stl2ps::ScriptToPS(name, in, out);
  r.err = cap.Take();
  r.out = out.str();
  return r;
}

Result RunFresh(const std::string& script, const std::string& name) {
  static int fd = memfd_create("out", 0);
  if (fd < 0 || ftruncate(fd, 0)) _exit(3);
  Capture cap;
  pid_t self = getpid(), p = fork();
  if (p < 0) {
    fprintf(stderr, "mc: fork: %s\n", strerror(errno));
    _exit(3);
  }
  if (!p) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != self) _exit(3);
    std::istringstream in(script);
    std::ostringstream out;
    bool ok = stl2ps::ScriptToPS(name, in, out);
    std::cerr.flush();
    fflush(stderr);
    std::string s = out.str();
    for (size_t i = 0; i < s.size();) {
      ssize_t n = pwrite(fd, s.data() + i, s.size() - i, i);
      if (n <= 0) _exit(3);
      i += n;
    }
    _exit(ok ? 40 : 41);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  if (WIFSIGNALED(st)) {  // die of the same
    signal(WTERMSIG(st), SIG_DFL);
    raise(WTERMSIG(st));
  }
  int rc = WEXITSTATUS(st);
  if (rc != 40 && rc != 41) _exit(rc);
  Result r;
  r.ok = rc == 40;
  r.err = cap.Take();
  off_t n = lseek(fd, 0, SEEK_END);
  r.out.resize(n);
  if (n && pread(fd, &r.out[0], n, 0) != n) abort();
  return r;
}

std::string WriteFile(const std::string& dir, const std::string& base, const std::string& data) {
  std::string p = dir + "/" + base;
  // Workers ask for the same files over and over.
  static std::map<std::string, std::string>& done = *new std::map<std::string, std::string>;
  auto d = done.find(p);
  if (d != done.end() && d->second == data) return p;
  done[p] = data;
  FILE* f = fopen(p.c_str(), "wb");
  if (!f) {
    fprintf(stderr, "mc: cannot write %s\n", p.c_str());
    _exit(3);
  }
  fwrite(data.data(), 1, data.size(), f);
  fclose(f);
  return p;
}

void SetFlag(const std::string& name, const std::string& value) {
  absl::CommandLineFlag* f = absl::FindCommandLineFlag(name);
  std::string e;
  if (!f || !f->ParseFrom(value, &e)) {
    fprintf(stderr, "mc: flag %s: %s\n", name.c_str(), f ? e.c_str() : "unknown");
    _exit(3);
  }
}

std::vector<Diag> Diags(const std::string& err, const std::string& name) {
  std::vector<Diag> r;
  size_t at = 0;
  while (at < err.size()) {
    size_t e = err.find('\n', at);
    if (e == std::string::npos) e = err.size();
    std::string l = err.substr(at, e - at);
    at = e + 1;
    size_t p = l.find(name + ":");
    if (p == std::string::npos) continue;
    const char* d = l.c_str() + p + name.size() + 1;
    char* end;
    long n = strtol(d, &end, 10);
    if (end == d || *end != ':') continue;
    r.push_back({int(n), end + 1});
  }
  return r;
}

std::string Quote(const std::string& s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '\n')
      r += "\\n";
    else if (c == '"' || c == '\\')
      r += '\\', r += c;
    else
      r += c;
  }
  return r + "\"";
}

std::string Num(double v) {
  char b[400];
  snprintf(b, sizeof b, "%.17g", v);
  if (strchr(b, 'e')) {
    snprintf(b, sizeof b, "%.20f", v);
  }
  return b;
}
}  // namespace mc
