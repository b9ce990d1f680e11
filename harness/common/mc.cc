#include <atomic>
#include "common/mc.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <filesystem>
#include <fstream>
#include <memory>

#include "absl/log/absl_log.h"

namespace mc {
namespace {
struct Reg {
  std::string name;
  Scenario f;
  Options o;
};
std::vector<Reg>& Regs() {
  static std::vector<Reg> r;
  return r;
}
std::string& RuleText() {
  static std::string s;
  return s;
}
std::vector<std::string>& Assumptions() {
  static std::vector<std::string> s;
  return s;
}
bool g_thorough = false;
std::string g_scratch;

double Now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

uint64_t Hash(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  h ^= h >> 32;
  h *= 0x9E3779B97F4A7C15ull;
  h ^= h >> 29;
  return h;
}

constexpr int kMaxChoices = 4096;
// What a worker is doing, visible to the parent after a crash.
struct Shared {
  volatile int n;
  volatile int16_t choices[kMaxChoices];
  volatile double started;
  volatile int64_t executions;
  volatile int done;
};

struct Stats {
  int64_t executions = 0, transitions = 0, evaluations = 0, pruned = 0;
  int64_t max_depth = 0;
  std::unordered_set<uint64_t> states;
  std::map<std::string, int64_t> outcomes;
  std::vector<std::string> samples;
  bool exhaustive = true;
};
Stats* g_stats = nullptr;
Shared* g_shared = nullptr;
std::vector<std::string>* g_notes = nullptr;

std::string JsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof(b), "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}
}  // namespace

std::string Hex(const std::string& s) {
  std::string o;
  char b[4];
  for (unsigned char c : s) {
    snprintf(b, sizeof(b), "%02x", c);
    o += b;
  }
  return o;
}

bool Thorough() { return g_thorough; }
bool Ctx::thorough() const { return g_thorough; }

std::string Scratch() {
  if (g_scratch.empty()) {
    const char* base = getenv("MC_SCRATCH_BASE");
    std::string t = std::string(base ? base : "/tmp") + "/fcpmc.XXXXXX";
    std::vector<char> buf(t.begin(), t.end());
    buf.push_back(0);
    if (!mkdtemp(buf.data())) {
      perror("mkdtemp");
      _exit(3);
    }
    g_scratch = buf.data();
  }
  return g_scratch;
}
void WipeScratch() {
  std::string d = Scratch();
  std::error_code ec;
  for (auto& e : std::filesystem::directory_iterator(d, ec)) {
    std::filesystem::remove_all(e.path(), ec);
  }
}
static void RemoveScratch() {
  if (g_scratch.size() > 8 && g_scratch.find("fcpmc.") != std::string::npos) {
    std::error_code ec;
    std::filesystem::remove_all(g_scratch, ec);
    g_scratch.clear();
  }
}

int Ctx::Choose(int n, const char* what, int cost) {
  if (n <= 0) {
    fprintf(stderr, "mc: Choose(%d) at %s\n", n, what);
    _exit(3);
  }
  size_t i = points_.size();
  int c = 0;
  if (i < prefix_.size()) {
    c = prefix_[i];
    if (c >= n) {
      fprintf(stderr, "mc: replay diverged at choice %zu (%s): %d of %d\n", i,
              what, c, n);
      _exit(3);
    }
  }
  points_.push_back(Point{c, n, cost, cost_, what});
  if (c > 0) cost_ += cost;
  if (g_shared && i < kMaxChoices) {
    g_shared->choices[i] = c;
    g_shared->n = i + 1;
  }
  if (keep_trace_) {
    trace_.push_back(std::string("choose ") + what + " = " + std::to_string(c) +
                     " of " + std::to_string(n));
  }
  return c;
}
void Ctx::Step(const std::string& desc) {
  ++g_stats->transitions;
  if (keep_trace_ && !desc.empty()) trace_.push_back(desc);
}
void Ctx::Steps(int64_t n) { g_stats->transitions += n; }
void Ctx::Note(const std::string& s) {
  if (keep_trace_) trace_.push_back(s);
}
bool Ctx::State(const std::string& canon) {
  return g_stats->states.insert(Hash(canon)).second;
}
void Ctx::Outcome(const std::string& o) { ++g_stats->outcomes[o]; }
void Ctx::Eval(int64_t n) { g_stats->evaluations += n; }
void (*g_fail_hook)(const std::string& message) = nullptr;
void Ctx::Fail(const std::string& message) {
  if (g_fail_hook) g_fail_hook(message);
  throw Violation{message};
}
std::string Ctx::Trace() const {
  std::string s;
  for (auto& t : trace_) s += t + "\n";
  return s;
}

void Register(const std::string& name, Scenario f, Options o) {
  Regs().push_back(Reg{name, std::move(f), o});
}
void Rule(const std::string& text) {
  RuleText() += (RuleText().empty() ? "" : " ") + text;
}
void Assumption(const std::string& text) { Assumptions().push_back(text); }

namespace {
// Runs one execution.  Returns true and fills `msg` on a violation.
bool RunOne(const Reg& r, Ctx& ctx, std::string* msg, bool* pruned) {
  *pruned = false;
  try {
    r.f(ctx);
  } catch (const Violation& v) {
    *msg = v.message;
    return true;
  } catch (const Pruned&) {
    *pruned = true;
  } catch (const mc_fatal::Fatal& f) {
    *msg = "the code under test terminated the process: " + f.message;
    return true;
  } catch (const std::exception& e) {
    *msg = std::string("uncaught exception: ") + e.what();
    return true;
  }
  return false;
}

int BoundOf(const Reg& r) {
  return g_thorough && r.o.bound_thorough >= 0 ? r.o.bound_thorough : r.o.bound;
}

// Work shared by the worker processes: subtrees waiting for someone to explore
// them.  A job is a choice sequence; its owner explores everything below it and
// the later alternatives at its last choice.
struct Queue {
  static constexpr int kJobs = 64;
  std::atomic<int> lock;
  std::atomic<int> size, idle;
  std::atomic<bool> stop;
  struct Job {
    int n;
    int choices[kMaxChoices];
  } jobs[kJobs];
  void Lock() {
    while (lock.exchange(1) != 0) usleep(10);
  }
  void Unlock() { lock.store(0); }
  bool Put(const std::vector<int>& c) {
    if (c.size() > kMaxChoices) return false;
    Lock();
    bool ok = size < kJobs;
    if (ok) {
      Job& j = jobs[size];
      j.n = c.size();
      std::copy(c.begin(), c.end(), j.choices);
      ++size;
    }
    Unlock();
    return ok;
  }
  // Waits for a job; false when there will be none.
  bool Get(int workers, std::vector<int>* c) {
    ++idle;
    while (true) {
      Lock();
      if (size > 0) {
        Job& j = jobs[--size];
        c->assign(j.choices, j.choices + j.n);
        --idle;
        Unlock();
        return true;
      }
      bool end = idle == workers;
      Unlock();
      if (end || stop) return false;
      usleep(200);
    }
  }
};
Queue* g_queue = nullptr;

// Explores one job, giving parts of it away when another worker has nothing to
// do.  `floor` is the first choice whose alternatives belong to the job.
bool ExploreJob(const Reg& r, std::vector<int> prefix, double deadline,
                std::string* msg, std::vector<int>* bad) {
  int floor = prefix.empty() ? 0 : static_cast<int>(prefix.size()) - 1;
  int bound = BoundOf(r);
  while (true) {
    Ctx ctx;
    ctx.prefix_ = prefix;
    ctx.bound_ = bound;
    bool sample = g_stats->samples.size() < 2;
    ctx.keep_trace_ = sample;
    if (g_shared) {
      g_shared->n = 0;
      g_shared->started = Now();
    }
    bool pruned;
    bool failed = RunOne(r, ctx, msg, &pruned);
    auto& pts = ctx.points_;
    if (failed) {
      bad->clear();
      for (auto& p : pts) bad->push_back(p.chosen);
      return true;
    }
    ++g_stats->executions;
    if (pruned) ++g_stats->pruned;
    g_stats->max_depth = std::max<int64_t>(g_stats->max_depth, pts.size());
    if (sample && !pruned) {
      std::string t = r.name + ": ";
      for (auto& s : ctx.trace_) t += s + "; ";
      if (t.size() > 1500) t = t.substr(0, 1500) + "...";
      g_stats->samples.push_back(t);
    }
    if (g_shared) g_shared->executions = g_shared->executions + 1;
    auto more = [&](int i) {
      return pts[i].chosen + 1 < pts[i].n &&
             pts[i].cost_before + pts[i].cost <= bound;
    };
    auto next = [&](int i) {
      std::vector<int> c;
      for (int j = 0; j < i; ++j) c.push_back(pts[j].chosen);
      c.push_back(pts[i].chosen + 1);
      return c;
    };
    int last = static_cast<int>(pts.size()) - 1;
    while (last >= floor && !more(last)) --last;
    if (last < floor) return false;
    // Give away the alternatives at the earliest choices, but keep something.
    while (g_queue->idle > g_queue->size) {
      int i = floor;
      while (i < last && !more(i)) ++i;
      if (i >= last || !g_queue->Put(next(i))) break;
      floor = i + 1;
    }
    prefix = next(last);
    if (deadline > 0 && Now() > deadline) {
      g_stats->exhaustive = false;
      return false;
    }
  }
}
bool ExploreWorker(const Reg& r, int worker, int workers, double deadline,
                   std::string* msg, std::vector<int>* bad) {
  std::vector<int> job;
  while (g_queue->Get(workers, &job)) {
    if (deadline > 0 && Now() > deadline) {
      g_stats->exhaustive = false;
      continue;
    }
    if (ExploreJob(r, job, deadline, msg, bad)) {
      g_queue->stop = true;
      return true;
    }
  }
  return false;
}

void WriteAll(int fd, const void* p, size_t n) {
  const char* c = static_cast<const char*>(p);
  while (n > 0) {
    ssize_t k = write(fd, c, n);
    if (k <= 0) return;
    c += k;
    n -= k;
  }
}
void PutStr(std::string* o, const std::string& s) {
  uint64_t n = s.size();
  o->append(reinterpret_cast<char*>(&n), 8);
  *o += s;
}
void PutInt(std::string* o, int64_t v) {
  o->append(reinterpret_cast<char*>(&v), 8);
}
struct Reader {
  std::string d;
  size_t p = 0;
  int64_t Int() {
    int64_t v = 0;
    if (p + 8 <= d.size()) memcpy(&v, d.data() + p, 8);
    p += 8;
    return v;
  }
  std::string Str() {
    uint64_t n = Int();
    if (p + n > d.size()) {
      p = d.size();
      return "";
    }
    std::string s = d.substr(p, n);
    p += n;
    return s;
  }
};

std::string ReplayBase() {
  const char* e = getenv("MC_REPLAY_DIR");
  return e ? e : "/tmp";
}
std::string WriteReplay(const Reg& r, const std::vector<int>& choices,
                        const std::string& msg, const std::string& trace,
                        bool whole) {
  std::string dir = ReplayBase();
  std::error_code ec;
  std::filesystem::create_directories(dir, ec);
  const char* prop = getenv("MC_PROPERTY");
  std::string path = dir + "/" + (prop ? prop : "X") + "_" + r.name + ".txt";
  std::ofstream f(path);
  f << "scenario " << r.name << "\ntier " << (g_thorough ? "thorough" : "quick")
    << (whole ? "\nwhole" : "") << "\nchoices";
  for (int c : choices) f << ' ' << c;
  f << "\nmessage " << msg << "\n" << trace;
  return path;
}

struct WorkerResult {
  bool failed = false;
  std::string msg;
  std::vector<int> choices;
};

// Runs one choice sequence in a child; returns the message of the violation,
// or "" when it passes.
std::string RunInChild(const Reg& r, const std::vector<int>& choices,
                       double limit, std::string* trace) {
  int p[2];
  if (pipe(p) != 0) return "";
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(p[0]);
    g_scratch.clear();
    Stats st;
    g_stats = &st;
    g_shared = nullptr;
    Ctx ctx;
    ctx.prefix_ = choices;
    ctx.bound_ = 1 << 30;
    ctx.keep_trace_ = true;
    std::string msg;
    bool pruned;
    bool failed = RunOne(r, ctx, &msg, &pruned);
    std::string o;
    PutInt(&o, failed);
    PutStr(&o, msg);
    PutStr(&o, ctx.Trace());
    WriteAll(p[1], o.data(), o.size());
    RemoveScratch();
    _exit(0);
  }
  close(p[1]);
  double t0 = Now();
  Reader rd;
  bool timed_out = false;
  fcntl(p[0], F_SETFL, O_NONBLOCK);
  while (true) {
    char buf[65536];
    ssize_t k = read(p[0], buf, sizeof(buf));
    if (k > 0) {
      rd.d.append(buf, k);
    } else if (k == 0) {
      break;
    } else {
      usleep(2000);
      if (Now() - t0 > limit) {
        timed_out = true;
        kill(pid, SIGKILL);
        break;
      }
    }
  }
  close(p[0]);
  int status;
  waitpid(pid, &status, 0);
  if (timed_out) return "no progress: the execution did not finish (hang)";
  if (!WIFEXITED(status) || WEXITSTATUS(status) != 0 || rd.d.size() < 8) {
    if (WIFEXITED(status) && WEXITSTATUS(status) == 3) return "MC-INTERNAL";
    return "the process crashed or exited (" +
           (WIFSIGNALED(status) ? "signal " + std::to_string(WTERMSIG(status))
                                : "exit status " +
                                      std::to_string(WEXITSTATUS(status))) +
           ")";
  }
  bool failed = rd.Int();
  std::string msg = rd.Str();
  *trace = rd.Str();
  return failed ? msg : "";
}

// Explores one scenario with `workers` processes and merges what they saw.
bool ExploreAll(const Reg& r, int workers, Stats* total, WorkerResult* out,
                double max_s) {
  struct W {
    pid_t pid;
    int fd;
    Shared* sh;
    Reader rd;
    bool open = true;
    bool hung = false;
  };
  std::vector<W> ws(workers);
  double deadline = max_s > 0 ? Now() + max_s : 0;
  g_queue = static_cast<Queue*>(mmap(nullptr, sizeof(Queue),
                                     PROT_READ | PROT_WRITE,
                                     MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  g_queue->Put({});
  for (int w = 0; w < workers; ++w) {
    int p[2];
    if (pipe(p) != 0) {
      perror("pipe");
      exit(3);
    }
    ws[w].sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared),
                                         PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    ws[w].sh->started = Now();
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      close(p[0]);
      for (int k = 0; k < w; ++k) close(ws[k].fd);
      g_scratch.clear();
      Stats st;
      g_stats = &st;
      g_shared = ws[w].sh;
      std::string msg;
      std::vector<int> bad;
      bool failed = ExploreWorker(r, w, workers, deadline, &msg, &bad);
      std::string o;
      PutInt(&o, failed);
      PutStr(&o, msg);
      PutInt(&o, bad.size());
      for (int c : bad) PutInt(&o, c);
      PutInt(&o, st.executions);
      PutInt(&o, st.transitions);
      PutInt(&o, st.evaluations);
      PutInt(&o, st.pruned);
      PutInt(&o, st.max_depth);
      PutInt(&o, st.exhaustive);
      PutInt(&o, st.states.size());
      for (uint64_t h : st.states) PutInt(&o, h);
      PutInt(&o, st.outcomes.size());
      for (auto& [k, v] : st.outcomes) {
        PutStr(&o, k);
        PutInt(&o, v);
      }
      PutInt(&o, st.samples.size());
      for (auto& s : st.samples) PutStr(&o, s);
      g_shared->done = 1;
      WriteAll(p[1], o.data(), o.size());
      RemoveScratch();
      _exit(0);
    }
    close(p[1]);
    ws[w].pid = pid;
    ws[w].fd = p[0];
    fcntl(p[0], F_SETFL, O_NONBLOCK);
  }
  bool failed = false;
  int open = workers;
  while (open > 0) {
    bool idle = true;
    for (int w = 0; w < workers; ++w) {
      W& x = ws[w];
      if (!x.open) continue;
      char buf[1 << 16];
      ssize_t k = read(x.fd, buf, sizeof(buf));
      if (k > 0) {
        x.rd.d.append(buf, k);
        idle = false;
        continue;
      }
      bool end = k == 0;
      if (!end && !x.sh->done && Now() - x.sh->started > r.o.exec_limit_s) {
        kill(x.pid, SIGKILL);
        x.hung = true;
        end = true;
      }
      if (!end) continue;
      x.open = false;
      --open;
      close(x.fd);
      int status = 0;
      waitpid(x.pid, &status, 0);
      bool clean = !x.hung && WIFEXITED(status) && WEXITSTATUS(status) == 0 &&
                   x.rd.d.size() >= 8;
      if (!clean) {
        if (WIFEXITED(status) && WEXITSTATUS(status) == 3) {
          fprintf(stderr, "mc: internal error in a worker\n");
          for (auto& y : ws)
            if (y.open) kill(y.pid, SIGKILL);
          exit(3);
        }
        if (!failed) {
          failed = true;
          out->failed = true;
          out->choices.clear();
          for (int i = 0; i < x.sh->n; ++i) {
            out->choices.push_back(x.sh->choices[i]);
          }
          out->msg = x.hung ? "no progress: the execution did not finish (hang)"
                            : "the process crashed or exited";
        }
      } else {
        bool f = x.rd.Int();
        std::string msg = x.rd.Str();
        int64_t n = x.rd.Int();
        std::vector<int> ch;
        for (int64_t i = 0; i < n; ++i) ch.push_back(x.rd.Int());
        total->executions += x.rd.Int();
        total->transitions += x.rd.Int();
        total->evaluations += x.rd.Int();
        total->pruned += x.rd.Int();
        total->max_depth = std::max<int64_t>(total->max_depth, x.rd.Int());
        if (!x.rd.Int()) total->exhaustive = false;
        n = x.rd.Int();
        for (int64_t i = 0; i < n; ++i) {
          total->states.insert(x.rd.Int() ^ Hash(r.name));
        }
        n = x.rd.Int();
        for (int64_t i = 0; i < n; ++i) {
          std::string k2 = x.rd.Str();
          total->outcomes[r.name + ": " + k2] += x.rd.Int();
        }
        n = x.rd.Int();
        for (int64_t i = 0; i < n; ++i) {
          std::string s = x.rd.Str();
          if (w == 0 || (i == 0 && total->samples.size() < 24)) {
            total->samples.push_back(s);
          }
        }
        // Prefer the violation with the shortest choice sequence.
        if (f && (!failed || ch.size() < out->choices.size())) {
          failed = true;
          out->failed = true;
          out->msg = msg;
          out->choices = ch;
        }
      }
      munmap(x.sh, sizeof(Shared));
      if (failed) {
        // No need to let the others finish.
        for (auto& y : ws) {
          if (y.open) kill(y.pid, SIGKILL);
        }
        for (auto& y : ws) {
          if (y.open) {
            int s2;
            waitpid(y.pid, &s2, 0);
            close(y.fd);
            y.open = false;
          }
        }
        munmap(g_queue, sizeof(Queue));
        return false;
      }
    }
    if (idle) usleep(1000);
  }
  munmap(g_queue, sizeof(Queue));
  return !failed;
}
}  // namespace

int Main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  signal(SIGPIPE, SIG_IGN);
  mc_fatal::g_throw_on_fatal = true;
  std::string only, replay, evidence;
  int workers = 8;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--thorough") g_thorough = true;
    else if (a == "--scenario" && i + 1 < argc) only = argv[++i];
    else if (a == "--replay" && i + 1 < argc) replay = argv[++i];
    else if (a == "--evidence" && i + 1 < argc) evidence = argv[++i];
    else if (a == "--workers" && i + 1 < argc) workers = atoi(argv[++i]);
    else if (a == "--list") {
      for (auto& r : Regs()) printf("%s\n", r.name.c_str());
      return 0;
    }
  }
  const char* prop = getenv("MC_PROPERTY");
  std::string property = prop ? prop : "X";
  // All scratch directories of this run live under one that is removed here.
  std::string base = Scratch();
  setenv("MC_SCRATCH_BASE", base.c_str(), 1);
  if (!replay.empty()) {
    std::ifstream f(replay);
    std::string line, name;
    std::vector<int> ch;
    bool whole = false;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string k;
      is >> k;
      if (k == "scenario") is >> name;
      if (k == "tier") {
        std::string t;
        is >> t;
        g_thorough = t == "thorough";
      }
      if (k == "whole") whole = true;
      if (k == "choices") {
        int c;
        while (is >> c) ch.push_back(c);
        break;
      }
    }
    int rc = 2;
    for (auto& r : Regs()) {
      if (r.name != name) continue;
      std::string trace;
      std::string msg;
      if (whole) {
        WorkerResult a;
        Stats ignore;
        ExploreAll(r, 1, &ignore, &a, 600);
        msg = a.msg;
      } else {
        msg = RunInChild(r, ch, 300, &trace);
      }
      printf("%s%s\n", trace.c_str(), msg.empty() ? "PASS" : ("FAIL " + msg).c_str());
      rc = msg.empty() ? 0 : 1;
    }
    RemoveScratch();
    return rc;
  }
  double t0 = Now();
  Stats total;
  g_stats = &total;
  std::string scen_json;
  int violations = 0;
  for (auto& r : Regs()) {
    if (!only.empty() && r.name != only) continue;
    if (r.o.thorough_only && !g_thorough) continue;
    double s0 = Now();
    WorkerResult wr;
    int64_t e0 = total.executions, tr0 = total.transitions,
            st0 = total.states.size();
    bool ex0 = total.exhaustive;
    total.exhaustive = true;
    double max_s = r.o.max_s > 0 ? r.o.max_s : (g_thorough ? 3000 : 300);
    bool ok = ExploreAll(r, r.o.parallel ? workers : 1, &total, &wr, max_s);
    if (!ok) {
      std::string trace;
      // Replay before report: twice, alone.
      std::string m1 = RunInChild(r, wr.choices, r.o.exec_limit_s * 1.5, &trace);
      std::string m2 = RunInChild(r, wr.choices, r.o.exec_limit_s * 1.5, &trace);
      bool whole = false;
      if (m1.empty() || m2.empty()) {
        // The code under test remembers something from one execution to the
        // next.  One process explores everything from the start, twice.
        WorkerResult a, b;
        Stats ignore;
        if (!ExploreAll(r, 1, &ignore, &a, 240) &&
            !ExploreAll(r, 1, &ignore, &b, 240) && a.choices == b.choices) {
          whole = true;
          m1 = m2 = a.msg + " (after the executions before it in one process)";
          wr.choices = a.choices;
        }
      }
      if (m1 == "MC-INTERNAL" || m2 == "MC-INTERNAL" || m1.empty() ||
          m2.empty()) {
        // Not reproduced.
        fprintf(stderr,
                "mc: scenario %s: first run said: %s; replays said: '%s' '%s'\n",
                r.name.c_str(), wr.msg.c_str(), m1.c_str(), m2.c_str());
        RemoveScratch();
        return 2;
      }
      std::string path = WriteReplay(r, wr.choices, m1, trace, whole);
      printf("scenario %s violated: %s\n%s", r.name.c_str(), m1.c_str(),
             trace.substr(0, 6000).c_str());
      printf("VIOLATION property=%s replay=%s\n", property.c_str(),
             path.c_str());
      ++violations;
    }
    char b[512];
    snprintf(b, sizeof(b),
             "%s{\"name\":%s,\"executions\":%ld,\"transitions\":%ld,"
             "\"states\":%ld,\"bound\":%d,\"exhaustive\":%s,\"wall_s\":%.2f}",
             scen_json.empty() ? "" : ",", JsonStr(r.name).c_str(),
             (long)(total.executions - e0), (long)(total.transitions - tr0),
             (long)(total.states.size() - st0),
             BoundOf(r) >= (1 << 30) ? -1 : BoundOf(r),
             total.exhaustive ? "true" : "false", Now() - s0);
    scen_json += b;
    printf("scenario %-32s executions=%ld transitions=%ld states=%ld %s %.1fs\n",
           r.name.c_str(), (long)(total.executions - e0),
           (long)(total.transitions - tr0), (long)(total.states.size() - st0),
           total.exhaustive ? "exhaustive" : "CAPPED", Now() - s0);
    total.exhaustive = total.exhaustive && ex0;
    if (violations) break;
  }
  if (!evidence.empty()) {
    std::ofstream f(evidence);
    f << "{\"evaluations\":" << total.executions
      << ",\"oracle_evaluations\":" << total.evaluations
      << ",\"distinct_nontrivial\":" << total.states.size()
      << ",\"states\":" << total.states.size()
      << ",\"transitions\":" << total.transitions
      << ",\"traces_validated_against_impl\":" << total.executions
      << ",\"max_choices_in_an_execution\":" << total.max_depth
      << ",\"pruned_at_known_state\":" << total.pruned
      << ",\"exhaustive\":" << (total.exhaustive && !violations ? "true" : "false")
      << ",\"rule\":" << JsonStr(RuleText()) << ",\"scenarios\":[" << scen_json
      << "],\"outcomes\":{";
    int k = 0;
    for (auto& [o, n] : total.outcomes) {
      if (k >= 60) break;
      f << (k++ ? "," : "") << JsonStr(o) << ":" << n;
    }
    f << "},\"distinct_outcomes\":" << total.outcomes.size() << ",\"samples\":[";
    k = 0;
    for (auto& s : total.samples) {
      if (k >= 12) break;
      f << (k++ ? "," : "") << JsonStr(s);
    }
    f << "],\"assumptions\":[";
    k = 0;
    for (auto& s : Assumptions()) f << (k++ ? "," : "") << JsonStr(s);
    f << "],\"violations\":" << violations << ",\"wall\":" << (Now() - t0) << "}";
  }
  RemoveScratch();
  return violations ? 1 : 0;
}
}  // namespace mc

int main(int argc, char** argv) { return mc::Main(argc, argv); }
