#include "engine.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_set>

namespace mc {

uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
  h ^= h >> 29;
  return h * 0x9E3779B97F4A7C15ull;
}

std::string fmt(const char* f, ...) {
  va_list a;
  va_start(a, f);
  char* s = nullptr;
  int n = vasprintf(&s, f, a);
  va_end(a);
  std::string r(s, n);
  free(s);
  return r;
}

struct Sink {
  std::unordered_set<uint64_t> states, edges, outcomes, inputs;
  std::vector<std::string> samples;
};

namespace {
double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

constexpr int kMaxPoints = 4096;
// One per worker, in shared memory: what it is doing right now.
struct Slot {
  volatile long leaf;       // the execution being run (-1: none)
  volatile long leaves;     // tree leaves seen
  volatile long execs, traces;
  volatile double since;
  volatile int npoints;
  volatile int points[kMaxPoints];
  volatile int done;
};

std::string json_str(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c == '\n') {
      r += "\\n";
    } else if (c < 32 || c > 126) {
      r += fmt("\\u%04x", c);
    } else {
      r += c;
    }
  }
  return r + "\"";
}

std::string vec_str(const std::vector<int>& v) {
  std::string r;
  for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::to_string(v[i]);
  return r;
}

void rm_rf(const std::string& d) {
  DIR* dir = opendir(d.c_str());
  if (!dir) return;
  while (dirent* e = readdir(dir)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = d + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
      rm_rf(p);
    else
      unlink(p.c_str());
  }
  closedir(dir);
  rmdir(d.c_str());
}
}  // namespace

int Ctx::choose(const char* label, int n, int cost) {
  if (n < 1) {
    fprintf(stderr, "mc: choice '%s' has no alternatives\n", label);
    _exit(3);
  }
  size_t i = points_.size();
  int c = 0;
  if (i < prefix_.size()) c = prefix_[i];
  if (c >= n) {
    fprintf(stderr, "mc: replay diverged at choice %zu '%s': %d of %d\n", i,
            label, c, n);
    _exit(3);
  }
  // Alternatives beyond the bound do not exist.
  int avail = (cost > 0 && used_ + cost > bound) ? 1 : n;
  if (c >= avail) {
    fprintf(stderr, "mc: replay exceeds the deviation bound at '%s'\n", label);
    _exit(3);
  }
  points_.push_back({avail, cost, c, label});
  if (c) used_ += cost;
  return c;
}

void Ctx::state(uint64_t h) {
  if (!sink_) return;
  sink_->states.insert(h);
  if (last_state_) {
    uint64_t e[2] = {last_state_, h};
    sink_->edges.insert(hash_bytes(e, sizeof(e)));
  }
  last_state_ = h;
}
void Ctx::outcome(const std::string& s) {
  if (sink_) sink_->outcomes.insert(hash_str(s));
}
void Ctx::note(const std::string& s) { note_ = s; }

bool Ctx::mine() {
  if (asked_) {
    fprintf(stderr, "mc: mine() called twice\n");
    _exit(3);
  }
  asked_ = true;
  exec_ = replay_ || (leaf_ % shards_ == shard_ && leaf_ >= skip_to_);
  return exec_;
}

struct Failed {
  std::vector<int> choices;
  std::string key, msg, note, err;
};

struct Explorer {
  Model m;
  bool thorough = false;
  int bound = 0, shards = 8;
  std::set<std::string> known;
  std::string scratch, outdir;
  Slot* slots = nullptr;
  std::vector<int> errfd;

  // Worker: enumerate every path, run the ones of this shard.
  void worker(int w, long skip_to, int report) {
    if (m.init) m.init();
    Sink sink;
    Slot& s = slots[w];
    std::vector<int> prefix;
    long leaf = 0;
    s.leaf = -1;
    long nfail = 0;
    for (;;) {
      Ctx c;
      c.thorough = thorough;
      c.bound = bound;
      c.prefix_ = prefix;
      c.leaf_ = leaf;
      c.shard_ = w;
      c.shards_ = shards;
      c.skip_to_ = skip_to;
      c.sink_ = nullptr;
      c.scratch = scratch + "/w" + std::to_string(w);
      bool pruned = false;
      // states are only recorded by the worker that runs the leaf, so that
      // the counts describe executions
      bool will = leaf % shards == w && leaf >= skip_to;
      if (will) c.sink_ = &sink;
      if (will) {
        s.leaf = leaf;
        s.since = now();
        int k = std::min<int>(prefix.size(), kMaxPoints);
        for (int i = 0; i < k; i++) s.points[i] = prefix[i];
        s.npoints = k;
      }
      try {
        m.body(c);
      } catch (const Prune&) {
        pruned = true;
      } catch (const Failure& f) {
        std::string r = "F " + std::to_string(leaf) + "\n";
        std::vector<int> ch;
        for (auto& p : c.points_) ch.push_back(p.chosen);
        record(report, ch, f.key, f.msg, c.note_);
        nfail++;
      }
      if (!pruned) {
        if (!c.asked_) {
          fprintf(stderr, "mc: body never called mine()\n");
          _exit(3);
        }
        if (c.exec_) {
          s.execs = s.execs + 1;
          s.traces = s.traces + c.traces_;
          // Written-out samples: spread over the run.
          if (!c.note_.empty()) {
            sink.inputs.insert(hash_str(c.note_));
            if (sink.samples.size() < 4 || (leaf & (leaf - 1)) == 0) {
              if (sink.samples.size() > 12) sink.samples.erase(sink.samples.begin() + 4);
              sink.samples.push_back(c.note_);
            }
          }
        }
        leaf++;
        s.leaves = leaf;
      }
      if (nfail > 40) break;  // more of the same would add nothing
      // Next path: last point that still has an alternative.
      auto& P = c.points_;
      int i = int(P.size()) - 1;
      while (i >= 0 && P[i].chosen + 1 >= P[i].n) i--;
      if (i < 0) break;
      prefix.clear();
      for (int k = 0; k < i; k++) prefix.push_back(P[k].chosen);
      prefix.push_back(P[i].chosen + 1);
    }
    s.leaf = -1;
    dump(w, sink, leaf);
    s.done = nfail > 40 ? 2 : 1;
  }

  void record(int fd, const std::vector<int>& ch, const std::string& key,
              const std::string& msg, const std::string& note) {
    auto hex = [](const std::string& s) {
      std::string r = "x";
      for (unsigned char c : s) r += fmt("%02x", c);
      return r;
    };
    std::string line = "F " + (ch.empty() ? "-" : vec_str(ch)) + " " + hex(key) +
                       " " + hex(msg.substr(0, 6000)) + " " +
                       hex(note.substr(0, 20000)) + "\n";
    if (write(fd, line.data(), line.size()) != ssize_t(line.size())) _exit(3);
  }

  void dump(int w, const Sink& k, long) {
    std::ofstream o(scratch + "/sink" + std::to_string(w), std::ios::binary | std::ios::app);
    auto put = [&](char t, const std::unordered_set<uint64_t>& v) {
      for (uint64_t x : v) {
        o.put(t);
        o.write(reinterpret_cast<const char*>(&x), 8);
      }
    };
    put('s', k.states);
    put('e', k.edges);
    put('o', k.outcomes);
    put('i', k.inputs);
    for (auto& s : k.samples) {
      uint64_t n = s.size();
      o.put('S');
      o.write(reinterpret_cast<const char*>(&n), 8);
      o.write(s.data(), n);
    }
  }

  // Run one choice vector in a fresh process.  0: passed, 1: failed (f filled).
  int replay(const std::vector<int>& choices, double limit, Failed* f,
             bool complete = true) {
    std::string rep = scratch + "/replay";
    unlink(rep.c_str());
    int fd = open(rep.c_str(), O_CREAT | O_RDWR | O_TRUNC | O_APPEND, 0600);
    int efd = memfd_create("err", 0);
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      dup2(efd, 2);
      std::string d = scratch + "/r";
      rm_rf(d);
      mkdir(d.c_str(), 0700);
      if (m.init) m.init();
      Ctx c;
      c.thorough = thorough;
      c.bound = bound;
      c.prefix_ = choices;
      c.replay_ = true;
      c.scratch = d;
      try {
        m.body(c);
      } catch (const Prune&) {
      } catch (const Failure& x) {
        std::vector<int> ch;
        for (auto& q : c.points_) ch.push_back(q.chosen);
        record(fd, ch, x.key, x.msg, c.note_);
      }
      record(fd, {}, "done", "", c.note_);
      _exit(0);
    }
    double t0 = now();
    int st = 0;
    bool hung = false;
    for (;;) {
      pid_t r = waitpid(p, &st, WNOHANG);
      if (r == p) break;
      if (now() - t0 > limit) {
        hung = true;
        kill(p, SIGKILL);
        waitpid(p, &st, 0);
        break;
      }
      usleep(2000);
    }
    std::vector<Failed> fs;
    bool done = false;
    parse(rep, &fs, &done);
    f->choices = choices;
    std::string err;
    off_t n = lseek(efd, 0, SEEK_END);
    if (n > 0) {
      if (n > 20000) n = 20000;
      err.resize(n);
      if (pread(efd, &err[0], n, 0) != n) err.clear();
    }
    close(efd);
    close(fd);
    f->err = err;
    for (auto& x : fs)
      if (x.key != "done" || !x.msg.empty()) {
        x.err = err;
        *f = x;
        return 1;
      }
    if (done && WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
      fprintf(stderr, "%s", err.c_str());
      exit(3);
    }
    if (hung) {
      f->key = "hang";
      f->msg = fmt("no end after %.0f s", limit);
    } else {
      f->key = "crash";
      f->msg = WIFSIGNALED(st) ? fmt("died on signal %d (%s)", WTERMSIG(st),
                                     strsignal(WTERMSIG(st)))
                               : fmt("exited %d", WEXITSTATUS(st));
      // The first telling line of the sanitizer / runtime.
      for (const char* pat : {"runtime error:", "ERROR: AddressSanitizer", "Check failed",
                              "terminate called", "what():", "Assertion"}) {
        size_t at = err.find(pat);
        if (at != std::string::npos) {
          size_t e = err.find('\n', at);
          f->msg += ": " + err.substr(at, e == std::string::npos ? e : e - at);
        }
      }
    }
    return 1;
  }

  static std::string unhex(const std::string& h) {
    std::string r;
    for (size_t i = 1; i + 1 < h.size(); i += 2)
      r += char(strtol(h.substr(i, 2).c_str(), nullptr, 16));
    return r;
  }
  static void parse(const std::string& file, std::vector<Failed>* fs, bool* done) {
    std::ifstream in(file);
    std::string line;
    while (std::getline(in, line)) {
      std::istringstream is(line);
      std::string t, ch, k, msg, note;
      is >> t >> ch >> k >> msg >> note;
      if (t != "F") continue;
      Failed f;
      if (ch != "-") {
        std::istringstream cs(ch);
        std::string x;
        while (std::getline(cs, x, ',')) f.choices.push_back(atoi(x.c_str()));
      }
      f.key = unhex(k);
      f.msg = unhex(msg);
      f.note = unhex(note);
      if (f.key == "done" && f.msg.empty()) {
        if (done) *done = true;
        continue;
      }
      fs->push_back(f);
    }
  }
};

int run(int argc, char** argv, Model m) {
  Explorer x;
  std::string evidence, known_file, replay_arg;
  bool do_replay = false;
  x.bound = -1;
  long seed = getenv("VERIF_SEED") ? atol(getenv("VERIF_SEED")) : 1;
  std::string jobs = getenv("MC_JOBS") ? getenv("MC_JOBS") : "";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&](const char* n) {
      std::string p = std::string("--") + n + "=";
      return a.compare(0, p.size(), p) == 0 ? a.c_str() + p.size() : nullptr;
    };
    if (auto v = val("tier")) x.thorough = std::string(v) == "thorough";
    if (auto v = val("evidence")) evidence = v;
    if (auto v = val("known")) known_file = v;
    if (auto v = val("scratch")) x.scratch = v;
    if (auto v = val("out")) x.outdir = v;
    if (auto v = val("bound")) x.bound = atoi(v);
    if (auto v = val("replay")) replay_arg = v, do_replay = true;
  }
  if (x.bound < 0) x.bound = x.thorough ? m.thorough_bound : m.quick_bound;
  x.shards = jobs.empty() ? std::max(1L, sysconf(_SC_NPROCESSORS_ONLN)) : atoi(jobs.c_str());
  x.m = m;
  if (x.scratch.empty()) {
    char t[] = "/tmp/mc.XXXXXX";
    x.scratch = mkdtemp(t);
  }
  mkdir(x.scratch.c_str(), 0700);
  double t0 = now();
  signal(SIGPIPE, SIG_IGN);
  rlimit nocore{0, 0};
  setrlimit(RLIMIT_CORE, &nocore);

  if (do_replay) {
    std::vector<int> ch;
    std::istringstream cs(replay_arg);
    std::string t;
    while (std::getline(cs, t, ',')) ch.push_back(atoi(t.c_str()));
    Failed f;
    int r = x.replay(ch, 120, &f);
    if (r)
      printf("FAILED key=%s\n%s\n--- case\n%s\n--- stderr\n%s\n", f.key.c_str(), f.msg.c_str(),
             f.note.c_str(), f.err.c_str());
    else
      printf("passed\n");
    rm_rf(x.scratch);
    return r;
  }

  std::map<std::string, std::string> known;  // key -> text
  if (!known_file.empty()) {
    std::ifstream in(known_file);
    std::string l;
    while (std::getline(in, l)) {
      size_t t = l.find('\t');
      if (t != std::string::npos) known[l.substr(0, t)] = l.substr(t + 1);
    }
  }

  x.slots = static_cast<Slot*>(mmap(nullptr, sizeof(Slot) * x.shards, PROT_READ | PROT_WRITE,
                                    MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<pid_t> pid(x.shards, 0);
  std::vector<int> rep(x.shards);
  auto start = [&](int w, long skip) {
    std::string d = x.scratch + "/w" + std::to_string(w);
    mkdir(d.c_str(), 0700);
    x.slots[w].leaf = -1;
    x.slots[w].done = 0;
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      dup2(x.errfd[w], 2);
      x.worker(w, skip, rep[w]);
      _exit(0);
    }
    pid[w] = p;
  };
  for (int w = 0; w < x.shards; w++) {
    rep[w] = open((x.scratch + "/fail" + std::to_string(w)).c_str(),
                  O_CREAT | O_RDWR | O_TRUNC | O_APPEND, 0600);
    x.errfd.push_back(memfd_create("err", 0));
    memset(&x.slots[w], 0, sizeof(Slot));
    start(w, 0);
  }
  std::vector<Failed> suspects;  // crashed or timed out choice prefixes
  int live = x.shards, crashes = 0;
  bool capped = false;
  while (live > 0) {
    usleep(3000);
    for (int w = 0; w < x.shards; w++) {
      if (!pid[w]) continue;
      int st;
      Slot& s = x.slots[w];
      pid_t r = waitpid(pid[w], &st, WNOHANG);
      bool hung = false;
      if (r == 0) {
        long l = s.leaf;
        double since = s.since;
        if (l >= 0 && now() - since > m.leaf_seconds && l == s.leaf && since == s.since) {
          kill(pid[w], SIGKILL);
          waitpid(pid[w], &st, 0);
          hung = true;
        } else {
          continue;
        }
      }
      if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0 && s.done) {
        if (s.done == 2) capped = true;
        pid[w] = 0;
        live--;
        continue;
      }
      if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 3) {
        char buf[4000];
        ssize_t n = pread(x.errfd[w], buf, sizeof(buf) - 1, 0);
        buf[n > 0 ? n : 0] = 0;
        fprintf(stderr, "mc: worker error: %s\n", buf);
        for (int q = 0; q < x.shards; q++)
          if (pid[q]) kill(pid[q], SIGKILL);
        return 3;
      }
      Failed f;
      for (int i = 0; i < s.npoints; i++) f.choices.push_back(int(s.points[i]));
      f.key = hung ? "hang" : "crash";
      long leaf = s.leaf;
      if (leaf >= 0) suspects.push_back(f);
      crashes++;
      // Going on after a crash is slow; if it is one, that is enough.
      Failed g;
      if (leaf >= 0 && x.replay(f.choices, std::max(90.0, 4 * m.leaf_seconds), &g) && !known.count(g.key.empty() ? f.key : g.key)) {
        capped = true;
        for (int q = 0; q < x.shards; q++) {
          if (q != w && pid[q]) {
            kill(pid[q], SIGKILL);
            waitpid(pid[q], nullptr, 0);
          }
          pid[q] = 0;
        }
        live = 0;
        break;
      }
      if (ftruncate(x.errfd[w], 0)) {
      }
      lseek(x.errfd[w], 0, SEEK_SET);
      if (crashes > 24 || leaf < 0) {
        capped = true;
        pid[w] = 0;
        live--;
        if (leaf < 0) {
          fprintf(stderr, "mc: a worker died outside an execution\n");
          return 3;
        }
      } else {
        start(w, leaf + 1);
      }
    }
  }
  // Confirm every failure in a fresh process.
  std::vector<Failed> all;
  for (int w = 0; w < x.shards; w++)
    x.parse(x.scratch + "/fail" + std::to_string(w), &all, nullptr);
  std::sort(all.begin(), all.end(), [](const Failed& a, const Failed& b) {
    int da = 0, db = 0;
    for (int c : a.choices) da += c != 0;
    for (int c : b.choices) db += c != 0;
    return da != db ? da < db : a.choices < b.choices;
  });
  all.insert(all.begin(), suspects.begin(), suspects.end());
  std::map<std::string, Failed> confirmed, kn;
  int unconfirmed = 0, tried = 0;
  for (auto& f : all) {
    if (confirmed.size() >= 5 || tried > 60) break;
    if (confirmed.count(f.key) && f.key != "crash" && f.key != "hang") continue;
    if (kn.count(f.key)) continue;
    tried++;
    Failed g;
    if (!x.replay(f.choices, std::max(90.0, 4 * m.leaf_seconds), &g)) {
      unconfirmed++;
      continue;
    }
    if (g.key.empty()) g.key = f.key;
    if (known.count(g.key))
      kn[g.key] = g;
    else if (!confirmed.count(g.key))
      confirmed[g.key] = g;
  }
  // Coverage.
  Sink total;
  std::vector<std::string> samples;
  for (int w = 0; w < x.shards; w++) {
    std::ifstream in(x.scratch + "/sink" + std::to_string(w), std::ios::binary);
    char t;
    uint64_t v;
    while (in.get(t) && in.read(reinterpret_cast<char*>(&v), 8)) {
      if (t == 's') total.states.insert(v);
      if (t == 'e') total.edges.insert(v);
      if (t == 'o') total.outcomes.insert(v);
      if (t == 'i') total.inputs.insert(v);
      if (t == 'S') {
        std::string s(v, 0);
        in.read(&s[0], v);
        samples.push_back(s);
      }
    }
  }
  long execs = 0, traces = 0, leaves = 0;
  for (int w = 0; w < x.shards; w++) {
    execs += x.slots[w].execs;
    traces += x.slots[w].traces;
    leaves = std::max(leaves, long(x.slots[w].leaves));
  }
  std::string s_samples;
  int ns = 0;
  size_t step = std::max<size_t>(1, samples.size() / 6);
  for (size_t i = 0; i < samples.size() && ns < 6; i += step, ns++)
    s_samples += (ns ? "," : "") + json_str(samples[i].substr(0, 1500));
  double wall = now() - t0;
  int nviol = 0;
  for (auto& c : confirmed) {
    nviol++;
    std::string path = x.outdir + "/" + m.property + "-" + std::to_string(nviol) + ".txt";
    std::ofstream o(path);
    o << "property: " << m.property << "\nkey: " << c.second.key << "\ntier: "
      << (x.thorough ? "thorough" : "quick") << "\nreplay: python3 /verif/check.py " << m.property
      << " --tier=" << (x.thorough ? "thorough" : "quick")
      << " --replay=" << vec_str(c.second.choices) << "\n\n"
      << c.second.msg << "\n\n--- case\n"
      << c.second.note << "\n--- stderr\n"
      << c.second.err << "\n";
    printf("VIOLATION property=%s replay=%s\n", m.property.c_str(), path.c_str());
    std::string one = c.second.msg.substr(0, 700);
    printf("  %s: %s\n", c.second.key.c_str(), one.c_str());
  }
  for (auto& c : kn)
    printf("KNOWN-FINDING: property=%s %s (%s)\n", m.property.c_str(),
           known[c.first].c_str(), c.first.c_str());
  if (!evidence.empty()) {
    std::ofstream o(evidence);
    o << "{\n \"property\": " << json_str(m.property) << ",\n \"tier\": \""
      << (x.thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed << ",\n \"level\": "
      << json_str(m.level) << ",\n \"coverage\": {\n  \"states\": " << total.states.size()
      << ",\n  \"transitions\": " << total.edges.size()
      << ",\n  \"traces_validated_against_impl\": " << traces
      << ",\n  \"evaluations\": " << execs
      << ",\n  \"distinct_nontrivial\": " << total.inputs.size()
      << ",\n  \"distinct_outcomes\": " << total.outcomes.size()
      << ",\n  \"deviation_bound\": " << x.bound << ",\n  \"paths\": " << leaves
      << ",\n  \"unconfirmed_suspects\": " << unconfirmed
      << ",\n  \"exhaustive\": " << (capped || crashes ? "false" : "true")
      << ",\n  \"rule\": " << json_str(m.rule) << ",\n  \"samples\": [" << s_samples
      << "]\n },\n \"assumptions\": [";
    for (size_t i = 0; i < m.assumptions.size(); i++)
      o << (i ? ", " : "") << json_str(m.assumptions[i]);
    o << "],\n \"wall_s\": " << fmt("%.2f", wall) << ",\n \"violations\": " << nviol << "\n}\n";
  }
  printf(
      "%s %s: bound %d, %ld paths, %ld executions, %ld impl runs, %zu states, %zu transitions, "
      "%zu distinct inputs, %zu outcomes, %d unconfirmed, %.1f s%s\n",
      m.property.c_str(), x.thorough ? "thorough" : "quick", x.bound, leaves, execs, traces,
      total.states.size(), total.edges.size(), total.inputs.size(), total.outcomes.size(),
      unconfirmed, wall, capped ? " (stopped early)" : "");
  fflush(stdout);
  rm_rf(x.scratch);
  // A suspect that did not reproduce leaves the run without an answer unless
  // something else was confirmed; it is reported, not turned into an alarm.
  return nviol ? 1 : 0;
}
}  // namespace mc
