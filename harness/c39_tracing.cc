// C39: tracing spans, events and recorders: nesting on one thread with the text
// recorder, several threads with a recorder of our own.
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <vector>

#include "common/mcsched.h"
#include "fcp/base/error.h"
#include "fcp/tracing/scoped_tracing_recorder.h"
#include "fcp/tracing/text_tracing_recorder.h"
#include "fcp/tracing/tracing_recorder_impl.h"
#include "fcp/tracing/tracing_span.h"
#include "schemas/c39/tracing_schema.h"
#include "absl/log/absl_log.h"

namespace {
using mc::Ctx;
namespace sched = mc::sched;
using fcp::ScopedTracingRecorder;
using fcp::TextTracingRecorder;
using fcp::Trace;
using fcp::TraceError;
using fcp::TracingSpan;
using fcp::TracingSpanId;
using fcp::TracingSpanRef;
using fcp::UnscopedTracingSpan;
using fcp::tracing_internal::TracingRecorderImpl;
using fcp::tracing_internal::TracingSpanImpl;

// What is written to std::cerr (by the recorder used when none is installed).
class Capture : public std::streambuf {
 public:
  Capture() : old_(std::cerr.rdbuf(this)) {}
  ~Capture() override { std::cerr.rdbuf(old_); }
  MC_NOTSAN std::streamsize xsputn(const char* s, std::streamsize n) override {
    for (std::streamsize i = 0; i < n && size_ < kMax; ++i) text_[size_++] = s[i];
    return n;
  }
  MC_NOTSAN int overflow(int c) override {
    if (c != EOF && size_ < kMax) text_[size_++] = c;
    return 0;
  }
  std::string str() const { return std::string(text_, size_); }

 private:
  static constexpr int kMax = 8192;
  std::streambuf* old_;
  char text_[kMax];
  int size_ = 0;
};

std::vector<std::string> Lines(const std::string& s) {
  std::vector<std::string> out;
  std::istringstream in(s);
  for (std::string l; std::getline(in, l);) out.push_back(l);
  return out;
}
std::string ReadAll(const std::string& f) {
  std::ifstream in(f);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}
std::string Stamp() { return absl::FormatTime(absl::Now(), absl::UTCTimeZone()) + " "; }
sched::RunOptions Fresh(bool fatal = false) {
  sched::RunOptions o;
  o.reset_statics = true;
  o.fresh_threads = true;
  o.fatal_throws = fatal;
  return o;
}
const char kText[] = "some text";

// ------------------------------------------------- one thread, text recorders
constexpr int kDefault = 2;
struct Text {
  Ctx& ctx;
  bool local;
  int budget;
  int next = 1;
  std::unique_ptr<TextTracingRecorder> rec[2];
  bool impl_alive[2] = {false, false};
  bool default_made = false;
  int installed = -1, times = 0;
  std::vector<std::string> want[3];
  struct At {
    int rec;
    int64_t id;
  };
  std::vector<At> stack;
  std::optional<TracingSpanRef> ref;
  At ref_at{-1, 0};
  std::unique_ptr<UnscopedTracingSpan<SpanA>> unscoped;
  At unscoped_at{-1, 0};
  int unscoped_n = 0;
  std::set<int64_t> ids;

  ~Text() { Uninstall(); }
  void Uninstall() {
    for (; local && times > 0; --times) rec[installed]->UninstallAsThreadLocal();
  }
  std::string File(int i) { return mc::Scratch() + "/trace" + std::to_string(i); }
  void Make(int i) {
    rec[i] = std::make_unique<TextTracingRecorder>(File(i), absl::UTCTimeZone());
    impl_alive[i] = true;
    want[i].push_back(Stamp() + "0: BEGIN");
  }
  // The recorder used when nothing is on the stack.
  At Here() {
    if (!stack.empty()) return stack.back();
    if (installed >= 0) return {installed, 0};
    if (!default_made) {
      default_made = true;
      want[kDefault].push_back(Stamp() + "0: BEGIN");
    }
    return {kDefault, 0};
  }
  void Expect(At at, const std::string& s) {
    want[at.rec].push_back(Stamp() + std::to_string(at.id) + ": " + s);
  }
  At Began(At parent, TracingSpanRef r, const std::string& what) {
    At at{parent.rec, r.span_id().value};
    ctx.Check(at.id != 0 && ids.insert(at.id).second, "a span's identifier is not new");
    Expect(at, "BEGIN " + what + " parent: " + std::to_string(parent.id));
    return at;
  }
  // The implementation goes away with its last user.
  void Collect() {
    for (int i = 0; i < 2; ++i) {
      if (!impl_alive[i] || rec[i]) continue;
      bool used = ref_at.rec == i || unscoped_at.rec == i;
      for (At& a : stack) used |= a.rec == i;
      if (used) continue;
      impl_alive[i] = false;
      if (installed == i) installed = -1, times = 0;
      want[i].push_back(Stamp() + "0: END");
    }
  }
  void Body() {
    while (budget > 0) {
      int op = ctx.Choose(stack.empty() ? 11 : 12, "operation");
      --budget;
      int n = next++;
      ctx.Step();
      switch (op) {
        case 0: {
          At at = Here();
          Trace<EventA>(n);
          Expect(at, "INFO EventA{ id: " + std::to_string(n) + " }");
          break;
        }
        case 1: {
          if (!ref) ctx.Prune();
          Trace<EventB>(*ref, n, kText);
          Expect(ref_at, "WARNING EventB{ id: " + std::to_string(n) + ", text: \"some text\" }");
          break;
        }
        case 2: {
          At at = Here();
          fcp::Error e = TraceError<ErrorA>(n);
          (void)e;
          Expect(at, "ERROR ErrorA{ id: " + std::to_string(n) + " }");
          break;
        }
        case 3: {
          At parent = Here();
          std::string what = "SpanA { id: " + std::to_string(n) + " }";
          At at;
          {
            TracingSpan<SpanA> s(n);
            at = Began(parent, s.Ref(), what);
            stack.push_back(at);
            Body();
          }
          stack.pop_back();
          Expect(at, "END " + what);
          break;
        }
        case 4: {
          if (!ref) ctx.Prune();
          At parent = ref_at;
          std::string what = "SpanB { id: " + std::to_string(n) + ", text: \"some text\" }";
          At at;
          {
            TracingSpan<SpanB> s(*ref, n, kText);
            at = Began(parent, s.Ref(), what);
            stack.push_back(at);
            Body();
          }
          stack.pop_back();
          Expect(at, "END " + what);
          break;
        }
        case 5: {  // an unscoped span: does not become current
          if (unscoped) ctx.Prune();
          std::string what = "SpanA { id: " + std::to_string(n) + " }";
          At parent;
          if (ref && ctx.Flip("with a parent")) {
            parent = ref_at;
            unscoped = std::make_unique<UnscopedTracingSpan<SpanA>>(*ref, n);
          } else {
            parent = Here();
            unscoped = std::make_unique<UnscopedTracingSpan<SpanA>>(n);
          }
          unscoped_at = Began(parent, unscoped->Ref(), what);
          unscoped_n = n;
          break;
        }
        case 6:
          if (!unscoped) ctx.Prune();
          DropUnscoped();
          break;
        case 7: {  // remember the current span, or the unscoped one
          bool u = unscoped && ctx.Flip("of the unscoped");
          ref_at = u ? unscoped_at : Here();
          TracingSpanRef now = u ? unscoped->Ref() : TracingSpanRef::Top();
          ref.emplace(now);
          ctx.Eq(ref->span_id().value, ref_at.id, "identifier of the span referred to");
          break;
        }
        case 8: {  // install
          int i = ctx.Choose(2, "recorder");
          if (!rec[i]) ctx.Prune();
          if (local) {
            if (installed >= 0 && installed != i) ctx.Prune();
            rec[i]->InstallAsThreadLocal();
          } else {
            if (installed >= 0) ctx.Prune();
            rec[i]->InstallAsGlobal();
          }
          installed = i;
          ++times;
          break;
        }
        case 9:  // uninstall
          if (installed < 0 || !rec[installed]) ctx.Prune();
          if (local)
            rec[installed]->UninstallAsThreadLocal();
          else
            rec[installed]->UninstallAsGlobal();
          if (--times == 0) installed = -1;
          break;
        case 10: {  // give up the recorder
          if (!rec[0] || (local && installed == 0)) ctx.Prune();
          rec[0].reset();
          break;
        }
        case 11:  // leave the innermost span
          return;
      }
      Collect();
      mc::sched::AdvanceNanos(1'500'000'000);
    }
  }
  void DropUnscoped() {
    unscoped.reset();
    Expect(unscoped_at, "END SpanA { id: " + std::to_string(unscoped_n) + " }");
    unscoped_at.rec = -1;
  }
};

void RunText(Ctx& ctx, bool local) {
  Capture capture;
  mc::WipeScratch();
  std::vector<std::string> got[3], want[3];
  sched::Run(
      ctx,
      [&] {
        Text t{ctx, local, ctx.thorough() ? 6 : 5};
        t.Make(0);
        t.Make(1);
        if (ctx.Flip("installed at first")) {
          if (local)
            t.rec[0]->InstallAsThreadLocal();
          else
            t.rec[0]->InstallAsGlobal();
          t.installed = 0;
          t.times = 1;
        }
        t.Body();
        if (t.unscoped) t.DropUnscoped();
        t.ref.reset();
        t.ref_at.rec = -1;
        t.Uninstall();
        t.rec[0].reset();
        t.rec[1].reset();
        t.Collect();
        for (int i = 0; i < 3; ++i) want[i] = t.want[i];
        got[0] = Lines(ReadAll(t.File(0)));
        got[1] = Lines(ReadAll(t.File(1)));
      },
      Fresh());
  got[kDefault] = Lines(capture.str());
  for (int r = 0; r < 3; ++r) {
    std::string who = r == kDefault ? "default recorder" : "recorder " + std::to_string(r);
    for (size_t i = 0; i < std::max(got[r].size(), want[r].size()); ++i) {
      ctx.Check(i < got[r].size(),
                who + " misses: " + (i < want[r].size() ? want[r][i] : std::string()));
      ctx.Check(i < want[r].size(), who + " has in addition: " + got[r][i]);
      ctx.Eq(got[r][i], want[r][i], "line of the " + who);
    }
  }
}
MC_SCENARIO(text_global, {}) { RunText(ctx, false); }
MC_SCENARIO(text_thread_local, {}) { RunText(ctx, true); }

// ------------------------------------------------------ threads, own recorder
enum Kind { kBegin, kEnd, kEvent, kMark };
struct Entry {
  int kind, who, n, thread;
  int64_t span, parent;
};
Entry g_log[256];
int g_size;
MC_NOTSAN void Put(int kind, int who, int64_t span, int64_t parent, int n) {
  if (g_size < 256) {
    Entry& e = g_log[g_size++];
    e.kind = kind, e.who = who, e.n = n, e.thread = sched::Self();
    e.span = span, e.parent = parent;
  }
}
int IdOf(const flatbuffers::DetachedBuffer& b, const fcp::TracingTraitsBase& t) {
  std::string s = t.TextFormat(b);
  return atoi(s.c_str() + s.find("id: ") + 4);
}
class Rec;
class RecSpan : public TracingSpanImpl {
 public:
  RecSpan(Rec* r, std::shared_ptr<Rec> keep, TracingSpanId id, int n)
      : rec_(r), keep_(std::move(keep)), id_(id), n_(n) {}
  ~RecSpan() override;
  void TraceImpl(flatbuffers::DetachedBuffer&& buf, const fcp::TracingTraitsBase& t) override;
  TracingSpanRef Ref() override;
  Rec* rec_;
  std::shared_ptr<Rec> keep_;
  TracingSpanId id_;
  int n_;
};
class Rec : public TracingRecorderImpl {
 public:
  explicit Rec(int who)
      : who_(who), root_(std::make_unique<RecSpan>(this, nullptr, TracingSpanId(0), 0)) {}
  void TraceImpl(TracingSpanId id, flatbuffers::DetachedBuffer&& buf,
                 const fcp::TracingTraitsBase& t) override {
    Put(kEvent, who_, id.value, 0, IdOf(buf, t));
  }
  TracingSpanImpl* GetRootSpan() override { return root_.get(); }
  std::unique_ptr<TracingSpanImpl> CreateChildSpan(TracingSpanId parent,
                                                   flatbuffers::DetachedBuffer&& buf,
                                                   const fcp::TracingTraitsBase& t) override {
    TracingSpanId id = TracingSpanId::NextUniqueId();
    Put(kBegin, who_, id.value, parent.value, IdOf(buf, t));
    return std::make_unique<RecSpan>(this, std::static_pointer_cast<Rec>(shared_from_this()), id,
                                     IdOf(buf, t));
  }
  int who_;
  std::unique_ptr<RecSpan> root_;
};
RecSpan::~RecSpan() {
  if (id_.value != 0) Put(kEnd, rec_->who_, id_.value, 0, n_);
}
void RecSpan::TraceImpl(flatbuffers::DetachedBuffer&& buf, const fcp::TracingTraitsBase& t) {
  rec_->TraceImpl(id_, std::move(buf), t);
}
TracingSpanRef RecSpan::Ref() { return TracingSpanRef(rec_->shared_from_this(), id_); }
class Facade : public fcp::TracingRecorder {
 public:
  explicit Facade(int who) : impl(std::make_shared<Rec>(who)) {}
  void InstallAsGlobal() override { impl->InstallAsGlobal(); }
  void UninstallAsGlobal() override { impl->UninstallAsGlobal(); }
  void InstallAsThreadLocal() override { impl->InstallAsThreadLocal(); }
  void UninstallAsThreadLocal() override { impl->UninstallAsThreadLocal(); }
  std::shared_ptr<Rec> impl;
};

// A thread's work: event 10t+1 at its root, a span 10t+2 with the event 10t+3
// in it, the event 10t+4 at the root.
void Work(int t, TracingSpanRef* parent) {
  Put(kMark, 0, 0, 0, 100 + 10 * t + 1);
  Trace<EventA>(10 * t + 1);
  Put(kMark, 0, 0, 0, 200 + 10 * t + 1);
  Put(kMark, 0, 0, 0, 100 + 10 * t + 2);
  if (parent) {
    TracingSpan<SpanA> s(*parent, 10 * t + 2);
    Put(kMark, 0, 0, 0, 200 + 10 * t + 2);
    Trace<EventA>(10 * t + 3);
  } else {
    TracingSpan<SpanA> s(10 * t + 2);
    Put(kMark, 0, 0, 0, 200 + 10 * t + 2);
    Trace<EventA>(10 * t + 3);
  }
}
// Which recorders had record `n` (event or span begin), as kinds of `who`;
// the default recorder is 9.
std::vector<Entry> Find(int n) {
  std::vector<Entry> out;
  for (int i = 0; i < g_size; ++i)
    if (g_log[i].kind != kMark && g_log[i].kind != kEnd && g_log[i].n == n) out.push_back(g_log[i]);
  return out;
}
int Mark(int n) {
  for (int i = 0; i < g_size; ++i)
    if (g_log[i].kind == kMark && g_log[i].n == n) return i;
  return -1;
}
int InDefault(const std::string& text, int n, const char* what) {
  int c = 0;
  for (const std::string& l : Lines(text))
    c += l.find(what) != std::string::npos && l.find("{ id: " + std::to_string(n) + " }") != std::string::npos;
  return c;
}
void CheckIds(Ctx& ctx) {
  std::map<int64_t, int> begins, ends;
  for (int i = 0; i < g_size; ++i) {
    if (g_log[i].kind == kBegin) {
      ctx.Check(g_log[i].span != 0 && begins[g_log[i].span]++ == 0, "a span's identifier is not new");
    } else if (g_log[i].kind == kEnd) {
      ctx.Check(begins.count(g_log[i].span) && ends[g_log[i].span]++ == 0,
                "the end of a span that is not open");
    }
  }
  ctx.Eq(ends.size(), begins.size(), "ends of spans");
}

MC_SCENARIO(threads_global, {.bound = 5, .bound_thorough = 6}) {
  enum { kWait, kUninstall, kDrop };
  int how = ctx.Choose(3, "the owner");
  int n = 1 + ctx.Choose(2, "threads");
  bool with_parent = ctx.Flip("under a span of the owner");
  Capture capture;
  g_size = 0;
  sched::Run(
      ctx,
      [&] {
        auto facade = std::make_unique<Facade>(1);
        facade->InstallAsGlobal();
        std::optional<UnscopedTracingSpan<SpanB>> own;
        std::optional<TracingSpanRef> ref;
        if (with_parent) {
          own.emplace(1, kText);
          ref.emplace(own->Ref());
        }
        std::vector<mc::thread> ts;
        for (int t = 1; t <= n; ++t)
          ts.emplace_back([&, t] {
            if (with_parent) {
              TracingSpanRef mine = *ref;
              Work(t, &mine);
            } else {
              Work(t, nullptr);
            }
          });
        Put(kMark, 0, 0, 0, 1);
        if (how == kUninstall) facade->UninstallAsGlobal();
        if (how == kDrop) facade.reset();
        Put(kMark, 0, 0, 0, 2);
        for (auto& t : ts) t.join();
        if (how == kWait) facade->UninstallAsGlobal();
        facade.reset();
      },
      Fresh());
  std::string def = capture.str();
  int64_t owner_span = 0;
  if (with_parent) owner_span = Find(1).at(0).span;
  int gone = Mark(1), gone_end = Mark(2);
  for (int t = 1; t <= n; ++t) {
    auto e1 = Find(10 * t + 1), s = Find(10 * t + 2), e3 = Find(10 * t + 3);
    int d1 = InDefault(def, 10 * t + 1, "INFO EventA"), ds = InDefault(def, 10 * t + 2, "BEGIN SpanA");
    int d3 = InDefault(def, 10 * t + 3, "INFO EventA");
    ctx.Eq(e1.size() + d1, 1u, "times an event is recorded");
    ctx.Eq(s.size() + ds, 1u, "times a span is recorded");
    ctx.Eq(e3.size() + d3, 1u, "times an event in a span is recorded");
    ctx.Eq(ds, InDefault(def, 10 * t + 2, "END SpanA"), "ends of a span");
    // with the recorder that was installed
    auto must = [&](int k, bool in_rec) {
      int from = Mark(100 + k), to = Mark(200 + k);
      if (how == kWait || to < gone) ctx.Check(in_rec, "a record goes past the installed recorder");
      // a recorder that is in use is kept until its last user is gone
      if (how == kUninstall && from > gone_end)
        ctx.Check(!in_rec, "a record reaches a recorder that was uninstalled");
      if (how == kDrop && !with_parent && n == 1 && from > gone_end)
        ctx.Check(!in_rec, "a record reaches a recorder that is gone");
    };
    must(10 * t + 1, !e1.empty());
    if (with_parent)
      ctx.Check(!s.empty(), "a span under an explicit parent is with another recorder");
    else
      must(10 * t + 2, !s.empty());
    if (!e1.empty()) ctx.Eq(e1[0].span, 0, "span of an event at the root");
    if (!s.empty()) {
      ctx.Eq(s[0].parent, owner_span, "parent of a span");
      ctx.Check(!e3.empty() && e3[0].span == s[0].span, "an event is not with its span");
    } else {
      ctx.Eq(d3, 1, "an event is with another recorder than its span");
    }
  }
  CheckIds(ctx);
}

MC_SCENARIO(threads_local, {.bound = 4, .bound_thorough = 5}) {
  bool same = ctx.Flip("one recorder for both");
  bool nested = ctx.Flip("installed twice");
  bool third = ctx.Flip("a thread without recorder");
  Capture capture;
  g_size = 0;
  sched::Run(
      ctx,
      [&] {
        Facade a(1), b(2);
        auto run = [&](int t) {
          Facade* f = t == 2 && !same ? &b : &a;
          ScopedTracingRecorder outer(f);
          if (nested) {
            { ScopedTracingRecorder inner(f); }
            Work(t, nullptr);
          } else {
            Work(t, nullptr);
          }
        };
        mc::thread t1([&] { run(1); });
        mc::thread t3([&] {
          if (third) Work(3, nullptr);
        });
        run(2);
        t1.join();
        t3.join();
      },
      Fresh());
  std::string def = capture.str();
  for (int t = 1; t <= 3; ++t) {
    if (t == 3 && !third) continue;
    auto e1 = Find(10 * t + 1), s = Find(10 * t + 2), e3 = Find(10 * t + 3);
    int want = t == 1 || same ? 1 : 2;
    if (t < 3) {
      ctx.Check(e1.size() == 1 && s.size() == 1 && e3.size() == 1, "records of a thread's recorder");
      ctx.Check(e1[0].who == want && s[0].who == want && e3[0].who == want,
                "a record reaches another thread's recorder");
      ctx.Check(e1[0].span == 0 && s[0].parent == 0 && e3[0].span == s[0].span, "wrong parents");
    }
    int d = InDefault(def, 10 * t + 1, "INFO EventA") + InDefault(def, 10 * t + 2, "BEGIN SpanA") +
            InDefault(def, 10 * t + 3, "INFO EventA");
    ctx.Eq(d, t == 3 ? 3 : 0, "records with the default recorder");
    if (t == 3) ctx.Check(e1.empty() && s.empty() && e3.empty(), "records without a recorder");
  }
  CheckIds(ctx);
}

// Identifiers drawn concurrently, and their values.
MC_SCENARIO(span_ids, {.bound = 6, .bound_thorough = 8}) {
  int n = 2 + ctx.Choose(2, "threads");
  int each = 1 + ctx.Choose(2, "draws");
  std::vector<std::vector<int64_t>> drawn(n);
  sched::Run(ctx, [&] {
    std::vector<mc::thread> ts;
    for (int t = 0; t < n; ++t)
      ts.emplace_back([&, t] {
        for (int i = 0; i < each; ++i) drawn[t].push_back(TracingSpanId::NextUniqueId().value);
      });
    for (auto& t : ts) t.join();
  });
  std::set<int64_t> all;
  for (auto& d : drawn)
    for (size_t i = 0; i < d.size(); ++i) {
      ctx.Check(d[i] != 0 && all.insert(d[i]).second, "an identifier is drawn twice");
      ctx.Check(i == 0 || TracingSpanId(d[i - 1]) < TracingSpanId(d[i]), "identifiers do not grow");
    }
}
MC_SCENARIO(span_id_values, {}) {
  static const int64_t kValues[] = {0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000,
                                    0x100000001, 0x7fffffffffffffff};
  int64_t a = kValues[ctx.Choose(9, "a")], b = kValues[ctx.Choose(9, "b")];
  ctx.Step();
  TracingSpanId x(a), y(b);
  ctx.Eq(x.value, a, "value of an identifier");
  ctx.Eq(x == y, a == b, "equality");
  ctx.Eq(x != y, a != b, "inequality");
  ctx.Eq(x < y, a < b, "order");
  std::ostringstream s;
  s << x;
  ctx.Eq(s.str(), std::to_string(a), "text of an identifier");
}

// Misuse is refused, and leaves what was installed in place.
MC_SCENARIO(misuse, {}) {
  enum { kTwoGlobals, kTwoLocals, kGlobalThenLocal, kLocalThenGlobal, kNotLocal, kNotGlobal, kOtherLocal, kN };
  int what = ctx.Choose(kN, "misuse");
  ctx.Step();
  Capture capture;
  g_size = 0;
  bool refused = false;
  sched::Run(
      ctx,
      [&] {
        Facade* a = new Facade(1);
        Facade* b = new Facade(2);
        bool local = what == kTwoLocals || what == kLocalThenGlobal || what == kOtherLocal;
        bool none = what == kNotLocal || what == kNotGlobal;
        if (!none) local ? a->InstallAsThreadLocal() : a->InstallAsGlobal();
        try {
          switch (what) {
            case kTwoGlobals: b->InstallAsGlobal(); break;
            case kTwoLocals: b->InstallAsThreadLocal(); break;
            case kGlobalThenLocal: b->InstallAsThreadLocal(); break;
            case kLocalThenGlobal: b->InstallAsGlobal(); break;
            case kNotLocal: b->UninstallAsThreadLocal(); break;
            case kNotGlobal: b->UninstallAsGlobal(); break;
            case kOtherLocal: b->UninstallAsThreadLocal(); break;
          }
        } catch (mc_fatal::Fatal&) {
          refused = true;
        }
        Work(1, nullptr);
      },
      Fresh(true));
  ctx.Check(refused, "a misuse is not refused");
  auto e = Find(11);
  bool none = what == kNotLocal || what == kNotGlobal;
  ctx.Eq(e.size(), none ? 0u : 1u, "events with the installed recorder");
  if (!none) ctx.Eq(e[0].who, 1, "recorder of the event");
}
}  // namespace

static int init = (
    mc::Rule("Every sequence of 5 (thorough: 6) operations out of 12 - events, errors, scoped and "
             "unscoped spans with implicit and explicit parents, references, installing, uninstalling "
             "and dropping recorders - on two text recorders and the default one; every schedule with at "
             "most 4-6 (thorough: 5-8) deviations of 2-3 threads that trace while the recorder is uninstalled "
             "or dropped, and of threads with recorders of their own."),
    mc::Assumption("Memory is sequentially consistent between synchronisation operations; weaker "
                   "orderings are only covered by the race detector."),
    mc::Assumption("The text recorder is used from one thread at a time (its source says that lines of "
                   "several threads may mix)."),
    0);
