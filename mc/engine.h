// A small stateless explorer: a body asks for choices, the explorer runs it
// once for every choice vector within a deviation bound, and every execution
// replays against the real code.
#ifndef MC_ENGINE_H_
#define MC_ENGINE_H_

#include <cstdarg>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {

// Thrown by fail(); never caught by bodies.
struct Failure {
  std::string key, msg;
};
struct Prune {};

uint64_t hash_bytes(const void* p, size_t n, uint64_t seed = 1469598103934665603ull);
inline uint64_t hash_str(const std::string& s, uint64_t seed = 1469598103934665603ull) {
  return hash_bytes(s.data(), s.size(), seed);
}
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

class Ctx {
 public:
  bool thorough = false;
  int bound = 0;        // deviations allowed in one execution
  std::string scratch;  // a directory this worker may write into

  // 0 is the default answer; any other one costs `cost` deviations.
  int choose(const char* label, int n, int cost = 1);
  // A choice every value of which is explored at no cost.
  int pick(const char* label, int n) { return choose(label, n, 0); }
  // Deviations still available on this path.
  int left() const { return bound - used_; }
  // Drop this path (not counted as an execution).
  void prune() { throw Prune{}; }

  // The model state reached; consecutive calls make a transition.
  void state(uint64_t h);
  void state(const std::string& s) { state(hash_str(s)); }
  // What the implementation was seen to do (to report distinct outcomes).
  void outcome(const std::string& s);
  // One execution of the implementation compared with the model.
  void traced(int n = 1) { traces_ += n; }
  // A written-out description of this execution (kept for failures and a few
  // samples).
  void note(const std::string& s);

  // True in the worker that has to run this execution.  Called once, after the
  // choices: the rest of the body is skipped elsewhere.
  bool mine();

  [[noreturn]] void fail(const std::string& key, const std::string& msg) {
    throw Failure{key, msg};
  }
  void check(bool ok, const std::string& key, const std::string& msg) {
    if (!ok) fail(key, msg);
  }

 private:
  friend struct Explorer;
  struct Point {
    int n, cost, chosen;
    const char* label;
  };
  std::vector<Point> points_;
  std::vector<int> prefix_;
  int used_ = 0;
  bool exec_ = false, asked_ = false;
  long leaf_ = 0, shard_ = 0, shards_ = 1, skip_to_ = 0;
  bool replay_ = false;
  uint64_t last_state_ = 0;
  long traces_ = 0;
  std::string note_;
  struct Sink* sink_ = nullptr;
};

struct Model {
  std::string property;
  std::function<void(Ctx&)> body;
  int quick_bound = 1, thorough_bound = 2;
  double leaf_seconds = 20;  // longer than this is suspected to hang
  std::string level = "model_checking";
  std::string rule;  // how cases are made
  std::vector<std::string> assumptions;
  std::function<void()> init;  // run in each fresh process before the bodies
};

int run(int argc, char** argv, Model m);

}  // namespace mc
#endif
