// Stateless exhaustive explorer.  A scenario is a function that asks for every
// nondeterministic decision through Ctx::Choose; Explore() runs it once for each
// possible sequence of answers (depth first, prefix replay), optionally bounded
// by the total cost of the non-default answers.
#ifndef VERIF_MC_H_
#define VERIF_MC_H_
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Violation {
  std::string message;
};
struct Pruned {};

struct Point {
  int chosen;
  int n;
  int cost;         // cost of taking an alternative here
  int cost_before;  // cost spent before this point
  const char* what;
};

class Ctx {
 public:
  // Returns a value in [0, n).  0 is the default answer.
  int Choose(int n, const char* what = "", int cost = 0);
  bool Flip(const char* what = "", int cost = 0) {
    return Choose(2, what, cost) != 0;
  }
  template <typename T>
  const T& Pick(const std::vector<T>& v, const char* what = "", int cost = 0) {
    return v[Choose(static_cast<int>(v.size()), what, cost)];
  }
  // One step of the implementation was taken; `desc` goes to the trace.
  void Step(const std::string& desc = "");
  void Steps(int64_t n);
  // A canonical description of the state reached.  Returns true when it had not
  // been seen before (by this worker).
  bool State(const std::string& canon);
  // As State(), and abandons the execution when the state was seen before.
  [[noreturn]] void Prune() { throw Pruned(); }
  void StateOrPrune(const std::string& canon) {
    if (!State(canon)) throw Pruned();
  }
  void Outcome(const std::string& o);
  void Eval(int64_t n = 1);  // oracle evaluations
  [[noreturn]] void Fail(const std::string& message);
  void Check(bool ok, const std::string& message) {
    Eval();
    if (!ok) Fail(message);
  }
  template <typename A, typename B>
  void Eq(const A& a, const B& b, const std::string& what) {
    Eval();
    if (!(a == b)) {
      std::ostringstream os;
      os << what << ": got " << a << ", expected " << b;
      Fail(os.str());
    }
  }
  void Note(const std::string& s);
  std::string Trace() const;
  bool thorough() const;
  int cost() const { return cost_; }

  // internal
  std::vector<Point> points_;
  std::vector<int> prefix_;
  int bound_ = 1 << 30;
  int cost_ = 0;
  std::vector<std::string> trace_;
  bool keep_trace_ = false;
};

struct Options {
  int bound = 1 << 30;     // quick
  int bound_thorough = -1; // -1: as quick
  bool parallel = true;
  bool thorough_only = false;
  double exec_limit_s = 30;  // one execution taking longer is a hang
  double max_s = 0;          // budget of the scenario (0: default); hitting it clears "exhaustive"
};

using Scenario = std::function<void(Ctx&)>;
void Register(const std::string& name, Scenario f, Options o = Options());
struct Registrar {
  Registrar(const std::string& name, Scenario f, Options o = Options()) {
    Register(name, std::move(f), o);
  }
};
bool Thorough();
std::string Scratch();     // per-process scratch directory, removed at exit
void WipeScratch();        // empties it
void Rule(const std::string& text);         // how cases are made
void Assumption(const std::string& text);
int Main(int argc, char** argv);
// Called by Ctx::Fail before it throws (the controlled scheduler's way out).
extern void (*g_fail_hook)(const std::string& message);
// Set around code whose exit()/abort would otherwise not be attributable.
std::string Hex(const std::string& s);

}  // namespace mc

#define MC_SCENARIO(ident, ...)                                        \
  static void ident(::mc::Ctx& ctx);                                   \
  static ::mc::Registrar registrar_##ident(#ident, ident, ##__VA_ARGS__); \
  static void ident(::mc::Ctx& ctx)
#endif
