// Exhaustive explorer of choice trees.  A body asks for every nondeterministic decision with
// choose(n); explore() executes the body once for every sequence of answers (minus the subtrees
// pruned through visited()).
#ifndef MC_HH
#define MC_HH
#include <atomic>
#include <cstdint>
#include <functional>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

namespace mc {

struct Violation { std::string sig, msg; };
struct Abandon {};          // ends an execution silently

class Ctx {
public:
  // A nondeterministic choice in [0, n).
  int choose(int n, const char *what = "");
  // true if the state was already explored with at least this much depth left.
  // Counts as one state when new.
  bool visited(uint64_t hash, int remaining = 0);
  bool visited(std::string_view canon, int remaining = 0);
  void transition(uint64_t n = 1);
  void outcome(std::string_view observed);       // distinct end-to-end observations
  void nontrivial();                             // this execution exercised the property
  template<class... A> void log(A&&... a) { if(tracing_) { std::ostringstream s; (s << ... << a); logLine(s.str()); } }
  bool tracing() const { return tracing_; }
  bool thorough() const;
  int tier(int quick, int thorough_) const { return thorough() ? thorough_ : quick; }
  [[noreturn]] void fail(const std::string &sig, const std::string &msg);
  // As fail, but may be called where an exception cannot be thrown; the execution is then
  // a violation when it ends.
  void failSoft(const std::string &sig, const std::string &msg);
  void check(bool ok, const std::string &sig, const std::string &msg) { if(!ok) fail(sig, msg); }
  bool failed() const { return failed_; }
  [[noreturn]] void abandon() { throw Abandon(); }
  size_t choicesMade() const { return taken_.size(); }

  // internals
  void logLine(const std::string &s);
  std::vector<uint16_t> prefix_, taken_, arity_;
  std::string log_;
  bool tracing_ = false, failed_ = false;
  std::string sig_, msg_;
  bool nontrivial_ = false;
};

struct Space {
  std::string name;
  std::function<void(Ctx&)> body;
  bool thoroughOnly = false;
  double hangLimit = 30;      // seconds one execution may take
  int workers = 0;            // 0 = all cores
  std::function<void()> workerInit;
};

struct Check {
  std::string id;
  std::string level = "model_checking";
  std::string rule;                       // how cases are made, what makes one non-trivial
  std::vector<std::string> assumptions;
  std::vector<Space> spaces;
};

Ctx *current();               // the context of the running execution
std::string scratch();        // private scratch directory of this process (created, removed at the end)
bool thorough();
uint64_t hash(std::string_view s);
uint64_t mix(uint64_t a, uint64_t b);
std::string quote(std::string_view s);   // printable form
int main(int argc, char **argv, const Check &c);

}
#endif
