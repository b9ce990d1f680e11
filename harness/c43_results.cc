// C43: error values keep their code and message through every combinator.
#include "common/mc.h"
#include "absl/log/absl_log.h"
#include "fcp/base/match.h"
#include "fcp/base/monitoring.h"
#include "fcp/base/result.h"
#include "fcp/base/tracing_schema.h"
#include "fcp/tracing/scoped_tracing_recorder.h"
#include "fcp/tracing/tracing_recorder_impl.h"
#include "fcp/tracing/tracing_span.h"

#include <memory>
#include <optional>
#include <variant>

using namespace fcp;
namespace {
using V = std::variant<int, std::string, double>;
std::vector<std::string> g_log;      // what was evaluated
std::vector<std::string> g_traced;   // what errors were recorded

class RecSpan : public tracing_internal::TracingSpanImpl {
 public:
  RecSpan() = default;
  void TraceImpl(flatbuffers::DetachedBuffer&& buf, const TracingTraitsBase& t) override;
  TracingSpanRef Ref() override { abort(); }
};
void Record(const flatbuffers::DetachedBuffer& buf, const TracingTraitsBase& t) {
  std::string name = t.Name();
  std::string s = name;
  if (name == "ResultExpectError") {
    auto* e = flatbuffers::GetRoot<ResultExpectError>(buf.data());
    s = e->expectation()->str() + "@" + std::to_string(e->line());
    if (e->file_name()->str() != __FILE__) s += " in " + e->file_name()->str();
  } else if (name == "ResultExpectStatusError") {
    auto* e = flatbuffers::GetRoot<ResultExpectStatusError>(buf.data());
    s = "status " + std::to_string(e->expected_code()) + " " + std::to_string(e->actual_code()) + " " + e->message()->str() + "@" +
        std::to_string(e->line());
  } else if (name == "ProtoParseFailure") {
    s = "own " + flatbuffers::GetRoot<ProtoParseFailure>(buf.data())->type()->str();
  }
  g_traced.push_back(s);
}
void RecSpan::TraceImpl(flatbuffers::DetachedBuffer&& buf, const TracingTraitsBase& t) { Record(buf, t); }
class Rec : public tracing_internal::TracingRecorderImpl {
 public:
  void TraceImpl(TracingSpanId, flatbuffers::DetachedBuffer&& buf, const TracingTraitsBase& t) override { Record(buf, t); }
  tracing_internal::TracingSpanImpl* GetRootSpan() override { return &root_; }
  std::unique_ptr<tracing_internal::TracingSpanImpl> CreateChildSpan(TracingSpanId, flatbuffers::DetachedBuffer&&,
                                                                     const TracingTraitsBase&) override {
    return std::make_unique<RecSpan>();
  }
  RecSpan root_;
};
class Facade : public TracingRecorder {
 public:
  void InstallAsGlobal() override { impl->InstallAsGlobal(); }
  void UninstallAsGlobal() override { impl->UninstallAsGlobal(); }
  void InstallAsThreadLocal() override { impl->InstallAsThreadLocal(); }
  void UninstallAsThreadLocal() override { impl->UninstallAsThreadLocal(); }
  std::shared_ptr<Rec> impl = std::make_shared<Rec>();
};

// The value travels as a number in an owner that cannot be copied where the
// combinator allows it, so a value lost or duplicated on the way shows.
Error Own(const std::string& what) { return TraceError<ProtoParseFailure>(what); }

struct Op {
  const char* name;
  // Applies the combinator; `ok` says whether this step is to succeed; `id` is
  // the number the step adds to the value.
  std::function<Result<int>(Result<int>, bool ok, int id, int* line)> apply;
  std::string trace;   // what a failure records ("" = the step cannot fail)
};
void Ran(int id) { g_log.push_back(std::to_string(id)); }

Result<int> Try(Result<int> r, int id) {
  int v = FCP_TRY(r);
  Ran(id);
  return v + id;
}
Result<int> TryInner(Result<int> r, bool ok, int id) {
  int v = FCP_TRY(r) + FCP_TRY([&]() -> Result<int> {
            Ran(id);
            if (!ok) return Own("inner");
            return id;
          }());
  return v;
}
Result<std::unique_ptr<int>> TryUnique(Result<int> r, int id) {
  std::unique_ptr<int> p = FCP_TRY(std::move(r).Map([](int v) { return std::make_unique<int>(v); }));
  Ran(id);
  *p += id;
  return p;
}
template <typename... E>
std::variant<E...> Shape(int v, bool ok, int id) {
  Ran(id);
  if (ok) return v + id;
  return std::string("other");
}
const std::vector<Op>& Ops() {
  static const std::vector<Op> ops = {
      {"map a copy", [](Result<int> r, bool, int id, int*) {
         const Result<int>& c = r;
         return c.Map([id](int const& v) { Ran(id); return v + id; });
       }, ""},
      {"map moved", [](Result<int> r, bool, int id, int*) { return std::move(r).Map([id](int&& v) { Ran(id); return v + id; }); }, ""},
      {"then a copy", [](Result<int> r, bool ok, int id, int*) {
         const Result<int>& c = r;
         return c.Then([id, ok](int const& v) -> Result<int> {
           Ran(id);
           if (!ok) return Own("then");
           return v + id;
         });
       }, "own then"},
      {"then moved", [](Result<int> r, bool ok, int id, int*) {
         return std::move(r).Then([id, ok](int&& v) -> Result<int> {
           Ran(id);
           if (!ok) return Own("thenm");
           return v + id;
         });
       }, "own thenm"},
      {"try", [](Result<int> r, bool, int id, int*) { return Try(r, id); }, ""},
      {"try twice", [](Result<int> r, bool ok, int id, int*) { return TryInner(r, ok, id); }, "own inner"},
      {"try an owner", [](Result<int> r, bool, int id, int*) {
         return TryUnique(r, id).Map([](std::unique_ptr<int>&& p) { return *p; });
       }, ""},
      {"expect true", [](Result<int> r, bool ok, int id, int* line) {
         int v = r.is_error() ? 0 : r.GetValueOrDie();
         *line = __LINE__; return r.Map([id, ok](int) { Ran(id); return ok; }).Then(ExpectTrue()).Map([v, id](Unit) { return v + id; });
       }, "ExpectTrue"},
      {"expect false", [](Result<int> r, bool ok, int id, int* line) {
         int v = r.is_error() ? 0 : r.GetValueOrDie();
         *line = __LINE__; return r.Map([id, ok](int) { Ran(id); return !ok; }).Then(ExpectFalse()).Map([v, id](Unit) { return v + id; });
       }, "ExpectFalse"},
      {"expect a value", [](Result<int> r, bool ok, int id, int* line) {
         *line = __LINE__; return r.Map([id, ok](int v) { Ran(id); return ok ? std::optional<int>(v + id) : std::nullopt; }).Then(ExpectHasValue());
       }, "ExpectHasValue"},
      {"expect an owner", [](Result<int> r, bool ok, int id, int* line) {
         auto q = r.Map([id, ok](int v) { Ran(id); return ok ? std::optional<std::unique_ptr<int>>(std::make_unique<int>(v + id)) : std::nullopt; });
         *line = __LINE__; return std::move(q).Then(ExpectHasValue()).Map([](std::unique_ptr<int>&& p) { return *p; });
       }, "ExpectHasValue"},
      {"expect nothing", [](Result<int> r, bool ok, int id, int* line) {
         int v = r.is_error() ? 0 : r.GetValueOrDie();
         *line = __LINE__; return r.Map([id, ok](int v) { Ran(id); return ok ? std::nullopt : std::optional<int>(v); }).Then(ExpectIsEmpty()).Map([v, id](Unit) { return v + id; });
       }, "ExpectIsEmpty"},
      {"expect a kind", [](Result<int> r, bool ok, int id, int* line) {
         *line = __LINE__; return r.Map([id, ok](int v) { return Shape<int, std::string>(v, ok, id); }).Then(ExpectIs<int>());
       }, "ExpectIs"},
      {"expect one of kinds", [](Result<int> r, bool ok, int id, int* line) {
         auto q = r.Map([id, ok](int v) { return Shape<int, std::string, double>(v, ok, id); });
         *line = __LINE__; return q.Then(ExpectOneOf<double, int>()).Map([](std::variant<double, int> w) { return std::get<int>(w); });
       }, "ExpectOneOf"},
      {"match", [](Result<int> r, bool ok, int id, int*) {
         return Match<Result<int>>(
             r,
             [&](int const& v) -> Result<int> {
               Ran(id);
               if (!ok) return Own("match");
               return v + id;
             },
             [](Error const& e) -> Result<int> { return e; });
       }, "own match"},
      {"copy and move", [](Result<int> r, bool, int id, int*) {
         Result<int> a = r;
         Result<int> b = std::move(a);
         Result<int> c = b;
         c = std::move(b);
         if (!c.is_error()) Ran(id);
         return c.Map([id](int v) { return v + id; });
       }, ""},
  };
  return ops;
}
}  // namespace

// Every chain of steps up to the depth, each succeeding or failing.
MC_SCENARIO(result_chains, {}) {
  g_log.clear();
  g_traced.clear();
  Facade f;
  ScopedTracingRecorder scoped(&f);
  int depth = ctx.thorough() ? 4 : 3;
  int n = 1 + ctx.Choose(depth, "steps");
  bool start_ok = !ctx.Flip("starts as an error");
  Result<int> r = start_ok ? Result<int>(1000) : Result<int>(Own("start"));
  bool failed = !start_ok;
  int value = 1000;
  std::vector<std::string> log, traced;
  if (failed) traced.push_back("own start");
  for (int i = 0; i < n; ++i) {
    const Op& op = Ops()[ctx.Choose(Ops().size(), "combinator")];
    bool ok = op.trace.empty() || !ctx.Flip("fails");
    int id = 1 << i, line = 0;
    r = op.apply(std::move(r), ok, id, &line);
    ctx.Step(op.name);
    if (!failed) {
      log.push_back(std::to_string(id));
      if (ok) {
        value += id;
      } else {
        failed = true;
        traced.push_back(line ? op.trace + "@" + std::to_string(line) : op.trace);
      }
    }
    ctx.Eq(r.is_error(), failed, std::string("error after ") + op.name);
    if (!failed) ctx.Eq(r.GetValueOrDie(), value, std::string("value after ") + op.name);
  }
  auto join = [](std::vector<std::string> v) {
    std::string s;
    for (auto& x : v) {
      size_t p = x.find("<>");   // the name of an expectation may carry its brackets
      if (p != x.npos) x.erase(p, 2);
      s += x + ";";
    }
    return s;
  };
  ctx.Eq(join(g_log), join(log), "steps evaluated");
  ctx.Eq(join(g_traced), join(traced), "errors recorded");
  ctx.Outcome(failed ? "error" : "value");
}
// Taking what is not there ends the process, taking what is there does not.
MC_SCENARIO(or_die, {}) {
  mc_fatal::g_throw_on_fatal = true;
  Facade f;
  ScopedTracingRecorder scoped(&f);
  bool ok = ctx.Flip("ok");
  Result<std::unique_ptr<int>> r = ok ? Result<std::unique_ptr<int>>(std::make_unique<int>(7)) : Result<std::unique_ptr<int>>(Own("x"));
  int how = ctx.Choose(3, "how");
  bool died = false;
  try {
    if (how == 0) ctx.Eq(**&r.GetValueOrDie(), 7, "value");
    if (how == 1) ctx.Eq(*std::move(r).GetValueOrDie(), 7, "value");
    if (how == 2) (void)r.GetErrorOrDie();
  } catch (const mc_fatal::Fatal&) {
    died = true;
  }
  ctx.Eq(died, how == 2 ? ok : !ok, "process ended");
}

// ---- statuses -------------------------------------------------------------
namespace {
const std::vector<StatusCode> kCodes = {OK, CANCELLED, UNKNOWN, INVALID_ARGUMENT, DEADLINE_EXCEEDED, NOT_FOUND, ALREADY_EXISTS, PERMISSION_DENIED,
                                        RESOURCE_EXHAUSTED, FAILED_PRECONDITION, ABORTED, OUT_OF_RANGE, UNIMPLEMENTED, INTERNAL, UNAVAILABLE,
                                        DATA_LOSS, UNAUTHENTICATED};
struct Plan {
  std::vector<int> kind;
  std::vector<StatusCode> code;
};
std::string Msg(int i) { return "step " + std::to_string(i) + " says so"; }
Status Plain(const Plan& p, int i) {
  Ran(i);
  return p.code[i] == OK ? Status() : Status(p.code[i], Msg(i));
}
StatusOr<int> Valued(const Plan& p, int i) {
  Ran(i);
  if (p.code[i] != OK) return Status(p.code[i], Msg(i));
  return 1 << i;
}
StatusOr<std::unique_ptr<int>> Owned(const Plan& p, int i) {
  Ran(i);
  if (p.code[i] != OK) return Status(p.code[i], Msg(i));
  return std::make_unique<int>(1 << i);
}
StatusOr<int> Deeper(const Plan& p, int i) {
  FCP_ASSIGN_OR_RETURN(int v, Valued(p, i));
  return v;
}
Status DeeperStatus(const Plan& p, int i) {
  FCP_RETURN_IF_ERROR(Valued(p, i));
  return FCP_STATUS(OK);
}
StatusOr<int> RunPlan(const Plan& p) {
  int sum = 0;
  for (int i = 0; i < (int)p.kind.size(); ++i) {
    switch (p.kind[i]) {
      case 0:
        FCP_RETURN_IF_ERROR(Plain(p, i));
        sum += 1 << i;
        break;
      case 1:
        FCP_RETURN_IF_ERROR(Valued(p, i));
        sum += 1 << i;
        break;
      case 2: {
        FCP_ASSIGN_OR_RETURN(auto v, Valued(p, i));
        sum += v;
        break;
      }
      case 3: {
        int v;
        FCP_ASSIGN_OR_RETURN(v, Valued(p, i));
        sum += v;
        break;
      }
      case 4: {
        FCP_ASSIGN_OR_RETURN(std::unique_ptr<int> v, Owned(p, i));
        sum += *v;
        break;
      }
      case 5: {
        FCP_ASSIGN_OR_RETURN(const int v, Deeper(p, i));
        sum += v;
        break;
      }
      case 6:
        if (true)
          FCP_RETURN_IF_ERROR(DeeperStatus(p, i));
        else
          sum = -1000;
        sum += 1 << i;
        break;
    }
  }
  return sum;
}
}  // namespace

MC_SCENARIO(status_chains, {}) {
  g_log.clear();
  Plan p;
  int n = 1 + ctx.Choose(ctx.thorough() ? 4 : 3, "steps");
  int first = -1;
  for (int i = 0; i < n; ++i) {
    p.kind.push_back(ctx.Choose(7, "macro"));
    bool fail = ctx.Flip("fails");
    if (fail && first < 0) first = i;
    // Every code for the first failure, one other for the ones that must not be reached.
    p.code.push_back(!fail ? OK : first == i ? kCodes[1 + ctx.Choose(16, "code")] : INTERNAL);
  }
  StatusOr<int> r = RunPlan(p);
  ctx.Steps(n);
  if (first < 0) {
    ctx.Check(r.ok(), "success became " + r.status().ToString());
    ctx.Eq(*r, (1 << n) - 1, "value");
  } else {
    ctx.Check(!r.ok(), "failure was lost");
    ctx.Eq(r.status().code(), p.code[first], "code");
    ctx.Eq(std::string(r.status().message()), Msg(first), "message");
  }
  ctx.Eq((int)g_log.size(), first < 0 ? n : first + 1, "steps evaluated");
  for (size_t i = 0; i < g_log.size(); ++i) ctx.Eq(g_log[i], std::to_string(i), "order");
  ctx.Outcome(first < 0 ? "ok" : absl::StatusCodeToString(p.code[first]));
}
namespace {
template <typename T>
T Convert(StatusCode c, const std::vector<std::string>& parts, int how, int* line) {
  *line = __LINE__ + 1;
  internal::StatusBuilder b = FCP_STATUS(c);
  if (how == 0) {
    for (auto& p : parts) b << p;
    return b;
  }
  if (how == 1) {  // a builder copied in the middle goes on with what it had
    size_t half = parts.size() / 2;
    for (size_t i = 0; i < half; ++i) b << parts[i];
    internal::StatusBuilder d = b;
    for (size_t i = half; i < parts.size(); ++i) d << parts[i];
    return d;
  }
  // Streaming is not disturbed by having looked at the status before.
  for (auto& p : parts) {
    b << p;
    Status s = b;
    (void)s;
  }
  return b;
}
}  // namespace
MC_SCENARIO(status_builders, {}) {
  static const std::vector<std::string> kParts = {"one", " two ", "", "3%d", std::string("z\0z", 3)};
  StatusCode c = ctx.Pick(kCodes, "code");
  int n = ctx.Choose(4, "parts");
  std::vector<std::string> parts;
  std::string all;
  for (int i = 0; i < n; ++i) {
    parts.push_back(ctx.Pick(kParts, "part"));
    all += parts.back();
  }
  int how = ctx.Choose(3, "how"), line = 0;
  Status s;
  if (ctx.Flip("status or")) {
    if (c == OK) ctx.Prune();  // an ok status is not a value
    StatusOr<int> r = Convert<StatusOr<int>>(c, parts, how, &line);
    ctx.Check(!r.ok(), "an error became a value");
    s = r.status();
  } else {
    s = Convert<Status>(c, parts, how, &line);
  }
  ctx.Step();
  ctx.Eq(s.code(), c, "code");
  std::string m(s.message());
  if (c == OK) {
    ctx.Eq(m, "", "message of a success");
    return;
  }
  ctx.Check(m.size() >= all.size() && m.substr(m.size() - all.size()) == all, "message '" + m + "' does not end with what was streamed, '" + all + "'");
  ctx.Check(m.find("c43_results.cc:" + std::to_string(line)) != m.npos, "message '" + m + "' does not say where");
  ctx.Eq(m.find('/'), m.npos, "position of a directory separator");
}
MC_SCENARIO(checks, {}) {
  mc_fatal::g_throw_on_fatal = true;
  StatusCode c = ctx.Pick(kCodes, "code");
  int how = ctx.Choose(3, "how");
  int evaluated = 0, streamed = 0;
  bool died = false;
  std::string m;
  auto make = [&] { ++evaluated; return c == OK ? Status() : Status(c, "why"); };
  auto tail = [&] { ++streamed; return "tail"; };
  try {
    if (how == 0) FCP_CHECK_STATUS(make()) << tail();
    if (how == 1) FCP_CHECK(make().ok()) << tail();
    if (how == 2) {
      if (c == OK)
        FCP_CHECK(make().ok());
      else
        FCP_CHECK_STATUS(make());
    }
  } catch (const mc_fatal::Fatal& e) {
    died = true;
    m = e.message;
  }
  ctx.Eq(died, c != OK, "process ended");
  ctx.Eq(evaluated, 1, "evaluations");
  if (how != 2) ctx.Eq(streamed, died ? 1 : 0, "evaluations of the message");
  if (died && how == 0) ctx.Check(m.find("why") != m.npos && m.find("tail") != m.npos, "message '" + m + "'");
}
MC_SCENARIO(expect_ok, {}) {
  g_traced.clear();
  Facade f;
  ScopedTracingRecorder scoped(&f);
  StatusCode c = ctx.Pick(kCodes, "code");
  bool valued = ctx.Flip("with a value");
  bool err;
  int line = 0;
  if (valued) {
    StatusOr<int> s = c == OK ? StatusOr<int>(5) : StatusOr<int>(Status(c, "why"));
    line = __LINE__; auto r = Result<StatusOr<int>>(s).Then(ExpectOk());
    err = r.is_error();
    if (!err) ctx.Eq(r.GetValueOrDie(), 5, "value");
  } else {
    line = __LINE__; auto r = Result<Status>(c == OK ? Status() : Status(c, "why")).Then(ExpectOk());
    err = r.is_error();
  }
  ctx.Eq(err, c != OK, "error");
  std::string want = c == OK ? "" : "status 0 " + std::to_string((int)c) + " why@" + std::to_string(line);
  std::string got;
  for (auto& t : g_traced) got += t;
  ctx.Eq(got, want, "recorded");
}
// ---- matching -------------------------------------------------------------
// Every alternative of a variant against every expected set.
template <typename... Ts>
void OneOf(mc::Ctx& ctx, const std::variant<int, std::string, double>& v, const std::vector<int>& in) {
  using W = std::variant<Ts...>;
  auto r = Result<std::variant<int, std::string, double>>(v).Then(ExpectOneOf<Ts...>());
  bool want = std::find(in.begin(), in.end(), (int)v.index()) != in.end();
  ctx.Eq(!r.is_error(), want, "expected kind accepted");
  if (!want) return;
  W w = r.GetValueOrDie();
  std::string got = std::visit([](auto const& x) { std::ostringstream o; o << x; return o.str(); }, w);
  ctx.Eq(got, v.index() == 0 ? "3" : v.index() == 1 ? "s" : "2.5", "value of the expected kind");
  ctx.Step();
}
template <typename T>
void Is(mc::Ctx& ctx, const std::variant<int, std::string, double>& v, int want) {
  auto r = Result<std::variant<int, std::string, double>>(v).Then(ExpectIs<T>());
  ctx.Eq(!r.is_error(), (int)v.index() == want, "expected kind accepted");
  if (!r.is_error()) ctx.Check(r.GetValueOrDie() == std::get<T>(v), "value of the expected kind");
  ctx.Step();
}
MC_SCENARIO(expected_kinds, {}) {
  using V3 = std::variant<int, std::string, double>;
  int alt = ctx.Choose(3, "alternative");
  V3 v = alt == 0 ? V3(3) : alt == 1 ? V3(std::string("s")) : V3(2.5);
  OneOf<int>(ctx, v, {0});
  OneOf<std::string>(ctx, v, {1});
  OneOf<double>(ctx, v, {2});
  OneOf<int, std::string>(ctx, v, {0, 1});
  OneOf<std::string, int>(ctx, v, {0, 1});
  OneOf<double, std::string>(ctx, v, {1, 2});
  OneOf<double, int>(ctx, v, {0, 2});
  OneOf<double, int, std::string>(ctx, v, {0, 1, 2});
  Is<int>(ctx, v, 0);
  Is<std::string>(ctx, v, 1);
  Is<double>(ctx, v, 2);
}
MC_SCENARIO(matching, {}) {
  int alt = ctx.Choose(3, "alternative");
  V v = alt == 0 ? V(3) : alt == 1 ? V(std::string("s")) : V(2.5);
  V before = v;
  int form = ctx.Choose(7, "form");
  std::string got, want;
  switch (form) {
    case 0:
      got = Match(v, [](int const& i) { return "i" + std::to_string(i); }, [](std::string const& s) { return "s" + s; },
                  [](double const& d) { return "d" + std::to_string(d); });
      want = alt == 0 ? "i3" : alt == 1 ? "ss" : "d2.500000";
      break;
    case 1:
      got = Match(v, [](std::string const& s) { return "s" + s; }, [](Default) { return std::string("default"); });
      want = alt == 1 ? "ss" : "default";
      break;
    case 2:
      got = Match(v, [](std::string const& s) { return "s" + s; }, [](Default, auto const& x) { return std::string(sizeof(x) == 4 ? "small" : "large"); });
      want = alt == 1 ? "ss" : alt == 0 ? "small" : "large";
      break;
    case 3:
      got = Match(v, [](std::string const& s) { return "s" + s; }, [](Default, V const& x) { return "v" + std::to_string(x.index()); });
      want = alt == 1 ? "ss" : "v" + std::to_string(alt);
      break;
    case 4:
      got = MakeMatcher<V>([](int* i) { *i += 1; return std::string("i"); }, [](std::string* s) { *s += "!"; return std::string("s"); },
                           [](double* d) { *d *= 2; return std::string("d"); }).Match(&v);
      want = alt == 0 ? "i" : alt == 1 ? "s" : "d";
      before = alt == 0 ? V(4) : alt == 1 ? V(std::string("s!")) : V(5.0);
      break;
    case 5: {
      std::variant<std::unique_ptr<int>, std::unique_ptr<double>> w;
      if (alt) w = std::make_unique<double>(1.5); else w = std::make_unique<int>(9);
      got = Match(std::move(w), [](std::unique_ptr<int>&& p) { return "i" + std::to_string(*std::move(p)); },
                  [](std::unique_ptr<double>&& p) { return "d" + std::to_string(*std::move(p)); });
      want = alt ? "d1.500000" : "i9";
      break;
    }
    case 6: {
      auto m = MakeMatcher<V, std::string>([](std::string const&) { return "str"; }, [](Default) { return "other"; });
      got = m.Match(v) + m.Match(V(std::string())) + m.Match(V(1.0));
      want = std::string(alt == 1 ? "str" : "other") + "strother";
      break;
    }
  }
  ctx.Eq(got, want, "case chosen");
  ctx.Check(v == before, "matched value changed");
  std::optional<int> o = alt == 0 ? std::optional<int>(4) : alt == 1 ? std::optional<int>(0) : std::nullopt;
  std::string w = o ? "v" + std::to_string(*o) : "none";
  ctx.Eq(Match(o, [](int const& i) { return "v" + std::to_string(i); }, [](std::nullopt_t) { return std::string("none"); }), w, "optional");
  ctx.Eq(MakeMatcher<std::optional<int>>([](int* i) { *i += 5; return std::string("p"); }, [](std::nullopt_t) { return std::string("none"); }).Match(&o),
         o ? "p" : "none", "optional by pointer");
  if (o) ctx.Eq(*o, alt == 0 ? 9 : 5, "optional changed through its pointer");
}
static int init = (mc::Rule("all chains of up to three (thorough four) result combinators out of sixteen, each succeeding or failing, and of seven status macros "
                            "with every error code; all builders of up to three pieces; all forms of matching; what was evaluated, recorded and returned "
                            "is compared with the plain first-failure rule"), 0);
