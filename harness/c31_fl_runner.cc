// C31: a federated run says, uploads and reports what happened.
#include "common/flworld.h"

namespace {
void Decide(mc::Ctx& ctx, const flw::Script& s) {
  flw::Model m(s);
  m.Run();
  std::vector<std::string> calls;
  std::string result;
  int entries;
  std::string changed;
  {
    flw::World w(ctx, s);
    flw::Seen& seen = w.Run();
    calls = seen.calls;
    result = seen.result;
    entries = seen.entries;
    changed = seen.history_after;
  }
  ctx.Eq(flw::Join(calls), flw::Join(m.calls), "what happened, in order");
  ctx.Eq(result, m.result, "result of the run");
  ctx.Eq(entries, 1, "entries added to the history");
  ctx.Eq(changed, std::string(), "earlier entries");
  ctx.Outcome(result.substr(0, result.find(" token")) + " calls=" + std::to_string(calls.size()));
}
}  // namespace
MC_SCENARIO(single, {}) { Decide(ctx, flw::ScriptSingle(ctx)); }
MC_SCENARIO(several, {}) { Decide(ctx, flw::ScriptSeveral(ctx)); }
MC_SCENARIO(one_of_several, {}) { Decide(ctx, flw::ScriptOneOfSeveral(ctx)); }
MC_SCENARIO(eligibility, {}) { Decide(ctx, flw::ScriptEligibility(ctx)); }
MC_SCENARIO(context, {}) { Decide(ctx, flw::ScriptContext(ctx)); }
static int init =
    (mc::Rule("the calls made to the server, the example store and the completion callback, with their contents and in their "
              "order, and the result of the run are exactly those of a plain reference; each upload finds its start already stored"),
     mc::Assumption("the plan engine for TensorFlow computations is scripted; example queries run on the real one"),
     mc::Assumption("the server side of the interface is scripted and honours it (C23-C29 check it)"), 0);
