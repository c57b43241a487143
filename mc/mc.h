// Stateless explorer: enumerates every choice sequence of a scenario and runs the real code on each.
//
// A scenario is a function over Run. It makes its nondeterministic decisions with choose(n) and then calls
// go(); when go() returns true it executes the code under test and checks it. The explorer enumerates the whole
// choice tree depth-first. Cases (leaves) are dealt round-robin to forked workers; a worker that crashes, is
// stopped by a sanitizer, or hangs is a verdict for the case it was running, and the exploration resumes after it.
#pragma once
#include <cstdint>
#include <functional>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Violation : std::runtime_error {
  std::string key;
  Violation(std::string k, const std::string &m) : std::runtime_error(m), key(std::move(k)) {}
};

class Run {
public:
  // Nondeterministic choice among n alternatives (n >= 1).
  int choose(int n);
  bool flip() { return choose(2) == 1; }
  template <class V> auto pick(const V &v) -> decltype(v[0]) {
    return v[choose(static_cast<int>(v.size()))];
  }
  // All generation decisions that matter for partitioning are made. False: this case belongs to another worker.
  bool go();
  // Names the class of input, for crash and hang verdicts.
  void tag(const std::string &t);
  // Reports a violation and ends this case.
  [[noreturn]] void fail(const std::string &key, const std::string &message) { throw Violation(key, message); }
  // Records an observed state (any canonical text or hash of what the real code produced).
  void state(uint64_t h);
  void state(const std::string &s);
  // Counts operations performed on the real code.
  void step(uint64_t n = 1) { steps += n; }
  // A human-readable description of the case; only rendered for samples and replays.
  void describe(const std::function<std::string()> &f);
  bool replaying() const { return replay; }
  bool thorough() const { return isThorough; }

  // -- explorer side
  std::vector<int> prefix, made, arity;
  uint64_t steps = 0;
  bool replay = false, isThorough = false, passed = false, wantSample = false;
  uint64_t caseIndex = 0;
  std::string sampleText;
  void *worker = nullptr;
};

struct Scenario {
  std::string name;
  std::function<void(Run &)> body;
  bool thoroughOnly = false;
  int timeoutSec = 20;
};

uint64_t hashBytes(const void *p, size_t n, uint64_t seed = 1469598103934665603ULL);
inline uint64_t hashStr(const std::string &s) { return hashBytes(s.data(), s.size()); }

int runMain(int argc, char **argv, const std::string &property, const std::vector<Scenario> &scenarios);

// A scratch directory private to this process (created on first use, removed at exit of the parent).
std::string scratch();

} // namespace mc

// Checks a condition on the Run called r; the message is only built when it fails.
#define REQUIRE(r, cond, key, message)                                                                               \
  do {                                                                                                               \
    if (!(cond)) (r).fail(key, message);                                                                             \
  } while (false)
