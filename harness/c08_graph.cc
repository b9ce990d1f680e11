// C08: neighbour graphs and their parameters.
#include <cmath>

#include "common/mc.h"
#include "common/rand.h"
#include "fcp/secagg/server/graph_parameter_finder.h"
#include "fcp/secagg/server/secret_sharing_graph_factory.h"

using namespace fcp::secagg;
namespace {
void CheckGraph(mc::Ctx& ctx, const SecretSharingGraph& g, int n, int degree, int threshold) {
  ctx.Eq(g.GetNumNodes(), n, "number of nodes");
  ctx.Eq(g.GetDegree(), degree, "degree");
  ctx.Eq(g.GetThreshold(), threshold, "threshold");
  std::vector<std::vector<bool>> adj(n, std::vector<bool>(n));
  for (int i = 0; i < n; ++i) {
    for (int k = 0; k < degree; ++k) {
      int j = g.GetNeighbor(i, k);
      ctx.Step();
      ctx.Check(j >= 0 && j < n, "neighbour out of range");
      ctx.Check(!adj[i][j], "a neighbour is listed twice");
      adj[i][j] = true;
      auto idx = g.GetNeighborIndex(i, j);
      ctx.Check(idx.has_value() && *idx == k, "index of neighbour " + std::to_string(j) + " of " + std::to_string(i));
    }
    ctx.Check(adj[i][i], "a node is not its own neighbour");
  }
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) {
      ctx.Check(adj[i][j] == adj[j][i], "the graph is not symmetric");
      ctx.Eq(g.AreNeighbors(i, j), (bool)adj[i][j], "are neighbours");
      ctx.Eq(g.GetNeighborIndex(i, j).has_value(), (bool)adj[i][j], "has index");
      if (i != j && adj[i][j])
        ctx.Check(g.IsOutgoingNeighbor(i, j) != g.IsOutgoingNeighbor(j, i), "an edge does not have one direction");
      if (!adj[i][j]) ctx.Check(!g.IsOutgoingNeighbor(i, j), "outgoing edge to a stranger");
    }
  }
}
template <typename F>
bool Refused(F f) {
  try {
    f();
  } catch (const mc_fatal::Fatal&) {
    return true;
  }
  return false;
}
}  // namespace

MC_SCENARIO(graphs, {}) {
  int n = 1 + ctx.Choose(ctx.thorough() ? 40 : 20, "nodes");
  int degree = ctx.Choose(n + 3, "degree");
  int threshold = ctx.Choose(4, "threshold kind");
  threshold = threshold == 0 ? 1 : threshold == 1 ? degree : threshold == 2 ? 0 : degree + 1;
  bool good = degree >= 1 && degree <= n && degree % 2 == 1 && threshold >= 1 && threshold <= degree;
  std::string st = std::to_string(n) + "/" + std::to_string(degree) + "/" + std::to_string(threshold);
  for (int seed = 0; seed < 4; ++seed) {
    mc::SeedRand(seed * 77 + 1);
    if (!good) {
      ctx.Check(Refused([&] { SecretSharingGraphFactory::CreateHararyGraph(n, degree, threshold, seed > 0); }),
                "an impossible graph was made: " + st);
      ctx.Step();
      continue;
    }
    auto g = SecretSharingGraphFactory::CreateHararyGraph(n, degree, threshold, seed > 0);
    CheckGraph(ctx, *g, n, degree, threshold);
  }
  bool goodc = threshold >= 1 && threshold <= n;
  if (goodc) CheckGraph(ctx, *SecretSharingGraphFactory::CreateCompleteGraph(n, threshold), n, n, threshold);
  else
    ctx.Check(Refused([&] { SecretSharingGraphFactory::CreateCompleteGraph(n, threshold); }), "an impossible graph was made");
  ctx.Outcome(good ? "graph" : "refused");
  ctx.State(st);
}

namespace {
typedef long double ld;
ld LogC(int n, int k) { return lgammal(n + 1) - lgammal(k + 1) - lgammal(n - k + 1); }
// P(X >= x), X marked among `sampled` out of `total` with `marked` marked.
ld Tail(int total, int marked, int sampled, int x) {
  ld s = 0;
  for (int i = std::max(x, 0); i <= sampled; ++i) {
    if (i > marked || sampled - i > total - marked) continue;
    s += expl(LogC(marked, i) + LogC(total - marked, sampled - i) - LogC(total, sampled));
  }
  return s;
}
ld Below(int total, int marked, int sampled, int x) {  // P(X < x)
  ld s = 0;
  for (int i = 0; i < x && i <= sampled; ++i) {
    if (i > marked || sampled - i > total - marked) continue;
    s += expl(LogC(marked, i) + LogC(total - marked, sampled - i) - LogC(total, sampled));
  }
  return s;
}
const std::vector<double> kRates = {-0.1, 0, 0.05, 0.1, 0.3, 0.45, 0.5, 0.85, 0.95, 1};
}  // namespace

MC_SCENARIO(sparse_parameters, {}) {
  int n = ctx.Pick(std::vector<int>{-1, 0, 1, 2, 3, 4, 5, 10, 50, 100, 200, 500, 1000, 1000001}, "clients");
  double adv = ctx.Pick(kRates, "adversarial rate"), drop = ctx.Pick(kRates, "dropout rate");
  AdversaryClass cls =
      ctx.Pick(std::vector<AdversaryClass>{AdversaryClass::NONE, AdversaryClass::CURIOUS_SERVER, AdversaryClass::SEMI_MALICIOUS_SERVER}, "adversary");
  SecureAggregationRequirements r;
  r.set_adversarial_client_rate(adv);
  r.set_estimated_dropout_rate(drop);
  r.set_adversary_class(cls);
  auto p = ComputeHararyGraphParameters(n, r);
  ctx.Step();
  bool semi = cls == AdversaryClass::SEMI_MALICIOUS_SERVER;
  bool valid = n > 0 && n <= 1000000 && adv >= 0 && adv < 1 && drop >= 0 && drop < 1 &&
               !(cls == AdversaryClass::NONE && adv > 0) && adv + (semi ? 2 : 1) * drop <= 0.9;
  std::string st = std::to_string(n) + "/" + std::to_string(adv) + "/" + std::to_string(drop) + "/" + std::to_string(cls);
  ctx.State(st);
  if (!valid) {
    ctx.Check(!p.ok(), "impossible requirements accepted: " + st);
    ctx.Outcome("refused");
    return;
  }
  int a = (int)floor((adv + 1e-14) * n), d = (int)floor((drop + 1e-14) * n), alive = n - d;
  // Whether k neighbours with threshold t do, with some slack in the margins.
  auto fits = [&](int k, int t, ld slack) {
    // Neighbours all gone on both sides of a gap: disconnected.
    if (k <= a + d) {
      ld lp = logl(n) + logl(n - k - 1) - logl(2) + lgammal(a + d + 1) + lgammal(n - k + 1) - lgammal(n + 1) - lgammal(a + d - k + 1);
      if (lp > -41 * logl(2) + logl(slack)) return false;
    }
    int bad = t;
    if (semi) bad = 2 * t - k;  // two disjoint sets of answers would be needed
    if (Tail(n, a, k, std::max(bad, 0)) * n > powl(2, -41) * slack) return false;
    if (Below(n, alive, k, t) * n > powl(2, -20) * slack) return false;
    return true;
  };
  if (p.ok()) {
    ctx.Eq(p->number_of_nodes, n, "number of nodes");
    ctx.Check(p->degree >= 2 && p->degree % 2 == 0 && p->degree < n - 1, "degree " + std::to_string(p->degree) + " " + st);
    ctx.Check(p->threshold >= 2 && p->threshold <= p->degree, "threshold " + std::to_string(p->threshold) + " " + st);
    // (A threshold of two is forced even when fewer would do.)
    if (p->threshold > 2)
      ctx.Check(fits(p->degree, p->threshold, 1.001L),
                "the requirements are not met: degree " + std::to_string(p->degree) + " threshold " + std::to_string(p->threshold) + " " + st);
    ctx.Outcome("found");
  } else {
    // Nothing with a margin to spare was overlooked.
    for (int k = 2; k < n - 1; k += 2)
      for (int t = 3; t <= k; ++t)
        ctx.Check(!fits(k, t, 0.5L), "feasible parameters overlooked: degree " + std::to_string(k) + " threshold " + std::to_string(t) + " " + st);
    ctx.Outcome("none");
  }
}
MC_SCENARIO(full_parameters, {}) {
  int n = ctx.Choose(14, "clients") - 1;
  int t = ctx.Choose(16, "threshold") - 1;
  double adv = ctx.Pick(kRates, "adversarial rate"), drop = ctx.Pick(kRates, "dropout rate");
  AdversaryClass cls =
      ctx.Pick(std::vector<AdversaryClass>{AdversaryClass::NONE, AdversaryClass::CURIOUS_SERVER, AdversaryClass::SEMI_MALICIOUS_SERVER}, "adversary");
  SecureAggregationRequirements r;
  r.set_adversarial_client_rate(adv);
  r.set_estimated_dropout_rate(drop);
  r.set_adversary_class(cls);
  bool ok = CheckFullGraphParameters(n, t, r).ok();
  ctx.Step();
  bool want = n > 0 && t > 1 && t <= n && adv >= 0 && adv < 1 && drop >= 0 && drop < 1;
  if (want) {
    want = t >= ceil((1 - drop) * n);
    if (cls == AdversaryClass::CURIOUS_SERVER) want &= t > ceil(adv * n);
    if (cls == AdversaryClass::SEMI_MALICIOUS_SERVER) want &= t > ceil((n + adv * n) / 2);
  }
  ctx.Eq(ok, want, "threshold " + std::to_string(t) + " of " + std::to_string(n) + " accepted");
  ctx.Outcome(ok ? "ok" : "refused");
  ctx.State(std::to_string(n) + "/" + std::to_string(t) + "/" + std::to_string(adv) + "/" + std::to_string(drop) + "/" + std::to_string(cls));
}
static int init = (mc::Rule("All graphs up to 20 (40) nodes, all degrees, 4 thresholds, identity and 3 shuffled orders; 14x10x10x3 sparse "
                            "and 14x16x10x10x3 full-graph requirements."),
                   0);
