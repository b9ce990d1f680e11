// C39: the tracing context carried in messages.
#include "absl/log/absl_log.h"
#include "common/mc.h"
#include "fcp/tracing/test/test_api_message.pb.h"
#include "fcp/tracing/tracing_context_utils.h"
#include "fcp/tracing/tracing_traits.h"

namespace {
using mc::Ctx;
using fcp::tracing::test::TestTracingContext;
using fcp::tracing_internal::GetContextFromMessage;
using fcp::tracing_internal::SetTracingContextOnMessage;

template <class M>
void Carry(Ctx& ctx, bool carries, bool refuses, bool bytes = false) {
  static const int kValues[] = {0, 1, -1, 127, 128, 0x7fffffff, -0x7fffffff - 1};
  static const char* kContents[] = {"", "contents"};
  M m;
  m.set_contents(kContents[ctx.Choose(2, "contents")]);
  std::string contents = m.contents();
  int first = 0, second = 0;
  try {
    auto none = GetContextFromMessage<TestTracingContext>(m);
    ctx.Check(!refuses, "a context of a wrong type is accepted");
    ctx.Check(none.first() == 0 && none.second() == 0, "a message without context has one");
  } catch (mc_fatal::Fatal&) {
    ctx.Check(refuses, "reading the context fails");
  }
  for (int i = 0; i < 2; ++i) {
    TestTracingContext c;
    c.set_first(kValues[ctx.Choose(7, "first")]);
    c.set_second(kValues[ctx.Choose(7, "second")]);
    if (carries) first = c.first(), second = c.second();
    ctx.Step();
    try {
      SetTracingContextOnMessage(c, m);
      ctx.Check(!refuses, "a context of a wrong type is written");
      auto got = GetContextFromMessage<TestTracingContext>(m);
      ctx.Eq(got.first(), first, "first value carried");
      ctx.Eq(got.second(), second, "second value carried");
      // (a string field only survives serialization with text in it)
      if (!bytes) continue;
      M copy;
      ctx.Check(copy.ParseFromString(m.SerializeAsString()), "the message cannot be read back");
      auto again = GetContextFromMessage<TestTracingContext>(copy);
      ctx.Check(again.first() == first && again.second() == second, "the context is lost on the way");
    } catch (mc_fatal::Fatal&) {
      ctx.Check(refuses, "carrying the context fails");
    }
  }
  ctx.Eq(m.contents(), contents, "contents of the message");
}
MC_SCENARIO(context, {}) {
  switch (ctx.Choose(4, "message")) {
    case 0: Carry<fcp::tracing::test::ApiMessageWithoutContext>(ctx, false, false); break;
    case 1: Carry<fcp::tracing::test::ApiMessageWithContext>(ctx, true, false); break;
    case 2: Carry<fcp::tracing::test::ApiMessageWithContextBytes>(ctx, true, false, true); break;
    case 3: Carry<fcp::tracing::test::ApiMessageWithContextInt>(ctx, false, true); break;
  }
}

// The registry of traits: the last registration of a tag counts.
class Traits : public fcp::TracingTraitsBase {
 public:
  explicit Traits(int n) : name_("traits" + std::to_string(n)) {}
  const char* Name() const override { return name_.c_str(); }
  fcp::TracingSeverity Severity() const override { return fcp::TracingSeverity::kError; }
  std::string TextFormat(const flatbuffers::DetachedBuffer&) const override { return name_; }
  std::string JsonStringFormat(const uint8_t*) const override { return name_; }

 private:
  std::string name_;
};
MC_SCENARIO(registry, {}) {
  using fcp::TracingTag;
  using fcp::TracingTraitsBase;
  // (the registry lives as long as the process: tags of our own per execution)
  static int executions = 0;
  char a[5] = {'A', char('a' + executions % 26), char('a' + executions / 26 % 26),
               char('a' + executions / 676 % 26), 0};
  ++executions;
  std::vector<TracingTag> tags;
  for (char c : {'A', 'B', 'C'}) {
    a[0] = c;
    tags.push_back(TracingTag(a));
  }
  int last[3] = {-1, -1, -1};
  for (int i = 0; i < 5; ++i) {
    int t = ctx.Choose(3, "tag");
    TracingTraitsBase::Register(tags[t], std::make_unique<Traits>(i));
    last[t] = i;
    ctx.Step();
    for (int k = 0; k < 3; ++k)
      ctx.Eq(std::string(TracingTraitsBase::Lookup(tags[k])->Name()),
             last[k] < 0 ? std::string("?Unknown?") : "traits" + std::to_string(last[k]),
             "traits found");
  }
}
}  // namespace

static int init = (
    mc::Rule("4 kinds of messages, 7 x 7 values of a context written twice; every sequence of 5 registrations of 3 tags."), 0);
