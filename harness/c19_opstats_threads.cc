// C19: the store of the operational history, used by several threads.
#include "common/client_fakes.h"
#include "common/mcsched.h"
#include "fcp/client/opstats/pds_backed_opstats_db.h"

using fcp::client::opstats::OpStatsDb;
using fcp::client::opstats::OpStatsSequence;
using fcp::client::opstats::PdsBackedOpStatsDb;
namespace sched = mc::sched;
namespace {
void Add(OpStatsDb& db, const std::string& name, mc::atomic<int>* failed) {
  absl::Status s = db.Transform([&](OpStatsSequence& d) {
    auto* o = d.add_opstats();
    o->set_session_name(name);
    // Far in the future, so that it is never outdated.
    o->add_events()->mutable_timestamp()->set_seconds(100000000000);
  });
  if (!s.ok()) ++*failed;
}
}  // namespace

// No change is lost.
MC_SCENARIO(changes, {.bound = 4, .bound_thorough = 6}) {
  bool reader = ctx.Flip("with a reader");
  mc::WipeScratch();
  sched::Run(ctx, [&] {
    mc::RecLog log;
    auto db = PdsBackedOpStatsDb::Create(mc::Scratch(), absl::Hours(1), log, 100000);
    ctx.Check(db.ok(), "not opened");
    mc::atomic<int> failed{0};
    mc::thread a([&] { Add(**db, "a", &failed); });
    mc::thread b([&] {
      if (reader) {
        auto r = (*db)->Read();
        if (!r.ok()) ++failed;
      } else {
        Add(**db, "b", &failed);
        Add(**db, "b2", &failed);
      }
    });
    Add(**db, "main", &failed);
    a.join();
    b.join();
    ctx.Eq((int)failed, 0, "failed");
    auto r = (*db)->Read();
    ctx.Check(r.ok(), "cannot be read");
    std::string got;
    for (auto& s : r->opstats()) got += s.session_name() + " ";
    for (auto n : reader ? std::vector<std::string>{"a ", "main "} : std::vector<std::string>{"a ", "main ", "b b2 ", "b2 "}) {
      if (n == "b b2 ") n = "b ";
      ctx.Check(got.find(n) != std::string::npos, "a change was lost: " + got);
    }
    if (!reader) ctx.Check(got.find("b ") < got.find("b2 "), "out of order: " + got);
    ctx.Eq((int)r->opstats_size(), reader ? 2 : 4, "entries");
    ctx.Outcome(got);
  });
}
// Of those who open it at the same time one gets it.
MC_SCENARIO(race_to_open, {.bound = 4, .bound_thorough = 6}) {
  mc::WipeScratch();
  sched::Run(ctx, [&] {
    mc::RecLog log[2];
    absl::StatusOr<std::unique_ptr<OpStatsDb>> got[2] = {absl::UnknownError(""), absl::UnknownError("")};
    mc::thread t([&] { got[1] = PdsBackedOpStatsDb::Create(mc::Scratch(), absl::Hours(1), log[1], 100000); });
    got[0] = PdsBackedOpStatsDb::Create(mc::Scratch(), absl::Hours(1), log[0], 100000);
    t.join();
    ctx.Eq((int)got[0].ok() + (int)got[1].ok(), 1, "owners");
    int winner = got[0].ok() ? 0 : 1;
    mc::atomic<int> failed{0};
    Add(**got[winner], "x", &failed);
    ctx.Eq((int)failed, 0, "failed");
    got[winner] = absl::UnknownError("");
    auto again = PdsBackedOpStatsDb::Create(mc::Scratch(), absl::Hours(1), log[0], 100000);
    ctx.Check(again.ok(), "not available after the owner is gone");
    ctx.Outcome(winner ? "1" : "0");
  });
}
static int init = (mc::Rule("changes are made one after another; one owner"), 0);
