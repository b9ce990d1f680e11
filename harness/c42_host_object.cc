// C42: host objects are found exactly while registered.
#include <map>
#include <memory>
#include <set>
#include <vector>

#include "common/mcsched.h"
#include "common/rand.h"
#include "fcp/base/random_token.h"
#include "fcp/tensorflow/host_object.h"

namespace {
using mc::Ctx;
namespace sched = mc::sched;
using fcp::HostObjectRegistration;
using fcp::RandomToken;

struct Base {
  virtual ~Base() = default;
  virtual int Id() const = 0;
};
struct Pad {
  virtual ~Pad() = default;
  long pad = 7;
};
struct Thing : Pad, Base {  // Base is not at the start of the object
  Thing(int id, mc::atomic<int>* alive) : id(std::make_unique<int>(id)), alive(alive) { ++*alive; }
  ~Thing() override { --*alive; }
  int Id() const override { return *id; }
  std::unique_ptr<int> id;
  mc::atomic<int>* alive;
};
struct Other {
  int unused = 0;
};
using Registry = fcp::HostObjectRegistry<Base>;
using OtherRegistry = fcp::HostObjectRegistry<Other>;

// Tokens survive being turned into text and back, and only whole.
MC_SCENARIO(tokens, {}) {
  RandomToken t = RandomToken::Generate(), u = RandomToken::Generate();
  int byte = ctx.Choose(16, "byte");
  int bit = ctx.Choose(8, "bit");
  ctx.Step();
  ctx.Check(t != u && !(t == u), "two tokens are equal");
  std::string s = t.ToString();
  ctx.Eq(s.size(), 16u, "size of a token");
  auto b = t.ToBytes();
  ctx.Check(std::string(b.data(), b.size()) == s, "bytes and string differ");
  ctx.Check(RandomToken::FromBytes(s) == t, "a token read back differs");
  ctx.Eq(t.ToPrintableString().size(), 32u, "size of a printed token");
  mc::atomic<int> alive{0};
  HostObjectRegistration r = Registry::Register(std::make_shared<Thing>(3, &alive));
  std::string mine = r.token().ToString();
  ctx.Check(Registry::TryLookup(RandomToken::FromBytes(mine)).has_value(), "not found by text");
  mine[byte] ^= 1 << bit;
  RandomToken changed = RandomToken::FromBytes(mine);
  ctx.Check(changed != r.token() && !(changed == r.token()), "different tokens are equal");
  ctx.Check(changed.ToPrintableString() != r.token().ToPrintableString(),
            "different tokens print the same");
  // every one of the 128 random bits matters
  std::string drawn[2];
  for (int k = 0; k < 2; ++k) {
    size_t at = 0;
    mc::g_rand_source = [&](uint8_t* p, size_t n) {
      for (size_t i = 0; i < n; ++i, ++at)
        p[i] = at * 37 + 11 + (k && (int)at == byte ? 1 << bit : 0);
      return true;
    };
    drawn[k] = RandomToken::Generate().ToString();
    mc::g_rand_source = nullptr;
    ctx.Check(at >= 16, "fewer than 16 random bytes are drawn");
  }
  ctx.Check(drawn[0] != drawn[1], "a random bit does not matter");
  ctx.Check(!Registry::TryLookup(RandomToken::FromBytes(mine)).has_value(),
            "found under another token");
}
// Every sequence of registering, moving, dropping and looking up.
MC_SCENARIO(sequences, {.exec_limit_s = 10}) {
  constexpr int kSlots = 3;
  mc::atomic<int> alive{0};
  int made = 0;
  std::optional<HostObjectRegistration> slot[kSlots];
  int in_slot[kSlots] = {-1, -1, -1};  // object registered by the slot, -1: none
  std::vector<RandomToken> token;      // of object i
  std::vector<bool> registered;        // object i is registered
  std::vector<bool> other;             // ... in the other registry
  std::vector<std::shared_ptr<Base>> held(8);
  int depth = ctx.thorough() ? 6 : 5;
  for (int step = 0; step < depth; ++step) {
    int op = ctx.Choose(4, "operation");
    int a = ctx.Choose(kSlots, "slot");
    if (op == 0) {  // register into the slot, dropping or overwriting its content
      bool otherwise = ctx.Flip("other interface");
      bool assign = slot[a].has_value() && ctx.Flip("assign");
      int id = made++;
      HostObjectRegistration r =
          otherwise ? OtherRegistry::Register(std::make_shared<Other>())
                    : Registry::Register(std::make_shared<Thing>(id, &alive));
      token.push_back(r.token());
      registered.push_back(true);
      other.push_back(otherwise);
      if (in_slot[a] >= 0) registered[in_slot[a]] = false;
      if (assign)
        *slot[a] = std::move(r);
      else
        slot[a].reset(), slot[a].emplace(std::move(r));
      in_slot[a] = id;
    } else if (op == 1) {  // drop
      if (!slot[a]) ctx.Prune();
      if (in_slot[a] >= 0) registered[in_slot[a]] = false;
      slot[a].reset();
      in_slot[a] = -1;
    } else if (op == 2) {  // move into another slot (or itself)
      int b = ctx.Choose(kSlots, "to");
      if (!slot[a] || a == b) ctx.Prune();
      if (in_slot[b] >= 0) registered[in_slot[b]] = false;
      if (slot[b])
        *slot[b] = std::move(*slot[a]);
      else
        slot[b].emplace(std::move(*slot[a]));
      in_slot[b] = in_slot[a];
      in_slot[a] = -1;
    } else {  // hold on to what is found
      if (in_slot[a] < 0 || other[in_slot[a]] || held[in_slot[a]]) ctx.Prune();
      auto p = Registry::TryLookup(token[in_slot[a]]);
      ctx.Check(p.has_value(), "a registered object is not found");
      held[in_slot[a]] = *p;
    }
    ctx.Step();
    for (int i = 0; i < made; ++i) {
      auto p = Registry::TryLookup(token[i]);
      auto q = OtherRegistry::TryLookup(token[i]);
      ctx.Eq(p.has_value(), registered[i] && !other[i], "an object is found");
      ctx.Eq(q.has_value(), registered[i] && other[i], "an object is found as the other type");
      if (p) ctx.Eq((*p)->Id(), i, "the object found");
    }
    for (int i = 0; i < kSlots; ++i)
      if (in_slot[i] >= 0)
        ctx.Check(slot[i]->token() == token[in_slot[i]], "a moved registration's token differs");
    int want = 0;
    for (int i = 0; i < made; ++i) want += !other[i] && (registered[i] || held[i]);
    for (int i = 0; i < made; ++i)
      if (held[i]) ctx.Eq(held[i]->Id(), i, "an object that is held");
    ctx.Eq(alive.load(), want, "objects alive");
    std::set<std::string> distinct;
    for (auto& t : token) distinct.insert(t.ToString());
    ctx.Eq((int)distinct.size(), made, "distinct tokens");
  }
}

// Registering, looking up and dropping from several threads.
MC_SCENARIO(threads, {.bound = 4, .bound_thorough = 6}) {
  int shape = ctx.Choose(3, "shape");
  sched::Run(ctx, [&] {
    enum { kGone = 1 };
    mc::atomic<int> alive{0};
    {
      std::optional<HostObjectRegistration> r(
          Registry::Register(std::make_shared<Thing>(1, &alive)));
      RandomToken t = r->token();
      std::optional<RandomToken> second;
      mc::thread owner([&] {
        if (shape == 1) {
          HostObjectRegistration moved(std::move(*r));
          sched::Point();
          *r = std::move(moved);
        }
        if (shape == 2) {
          HostObjectRegistration more(Registry::Register(std::make_shared<Thing>(2, &alive)));
          auto p = Registry::TryLookup(more.token());
          ctx.Check(p && (*p)->Id() == 2, "a new object is not found");
          second = more.token();
        }
        r.reset();
        sched::Log(kGone);
      });
      auto look = [&](int times) {
        std::shared_ptr<Base> kept;
        bool lost = false;
        for (int i = 0; i < times; ++i) {
          bool gone = !sched::Logged().empty();
          auto p = Registry::TryLookup(t);
          ctx.Check(!(gone && p), "an unregistered object is found");
          ctx.Check(!(lost && p), "an object is found again after it was not");
          lost |= !p;
          if (p) {
            kept = *p;
            ctx.Eq(kept->Id(), 1, "the object found");
          }
        }
        sched::Point();
        if (kept) ctx.Eq(kept->Id(), 1, "the object kept");
      };
      mc::thread reader([&] { look(2); });
      look(1);
      reader.join();
      owner.join();
      ctx.Check(!Registry::TryLookup(t).has_value(), "an unregistered object is found");
      if (second)
        ctx.Check(!Registry::TryLookup(*second).has_value(), "an unregistered object is found");
    }
    ctx.Eq(alive.load(), 0, "objects alive at the end");
  });
}

// Two threads register at once; both must be found, each under its own token.
MC_SCENARIO(registering, {.bound = 4, .bound_thorough = 6}) {
  int n = 2 + ctx.Choose(2, "threads");
  sched::Run(ctx, [&] {
    mc::atomic<int> alive[3] = {};
    std::vector<std::optional<HostObjectRegistration>> r(3);
    std::vector<mc::thread> ts;
    for (int i = 0; i < n; ++i)
      ts.emplace_back([&, i] {
        r[i].emplace(Registry::Register(std::make_shared<Thing>(i, &alive[i])));
        auto p = Registry::TryLookup(r[i]->token());
        ctx.Check(p && (*p)->Id() == i, "a thread does not find its own object");
      });
    for (auto& t : ts) t.join();
    for (int i = 0; i < n; ++i) {
      auto p = Registry::TryLookup(r[i]->token());
      ctx.Check(p && (*p)->Id() == i, "an object is not found");
    }
    for (int i = 0; i < n; ++i) {
      r[i].reset();
      ctx.Eq(alive[i].load(), 0, "object alive");
    }
  });
}

}  // namespace

static int init = (
    mc::Rule("Every sequence of 5 (thorough: 6) operations - register, drop, move or assign, look up "
             "and hold - over 3 registrations and 2 interface types; every schedule with at most 4 "
             "(thorough: 6) deviations of 2-3 threads registering, looking up and dropping; a token "
             "with every single bit changed."),
    mc::Assumption("Memory is sequentially consistent between synchronisation operations; weaker "
                   "orderings are only covered by the race detector."),
    0);
