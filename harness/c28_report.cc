// C28: what is reported to the server about a task.
#include "common/protocol_model.h"
#include "fcp/base/digest.h"
#include "fcp/confidentialcompute/client_payload.h"
#include "fcp/confidentialcompute/cose.h"
#include "fcp/confidentialcompute/crypto.h"
#include "fcp/protos/confidentialcompute/blob_header.pb.h"
#include "fcp/protos/federatedcompute/confidential_aggregations.pb.h"

namespace {
using namespace mc::world;
using mc::Ctx;
using fcp::client::ComputationResults;
using fcp::client::QuantizedTensor;
namespace cc = fcp::confidential_compute;

// The aggregator that confidential results are encrypted for.
struct Aggregator {
  cc::MessageDecryptor d;
  std::string cwt;
  Aggregator() : cwt(*d.GetPublicKey([](absl::string_view) -> absl::StatusOr<std::string> { return std::string("sig"); }, -7)) {}
};
Aggregator& Agg() {
  static Aggregator* a = new Aggregator;
  return *a;
}
struct Script {
  bool verifier_refuses = false;
  std::string policy_seen, key_seen;
  int verified = 0;
  // The secure aggregation runner's part.
  absl::Status runner_status;
  int runs = 0;
  std::vector<std::string> tensors;
  int64_t clients = 0, survivors = 0;
};
class Verifier : public fcp::client::attestation::AttestationVerifier {
 public:
  explicit Verifier(Script* s) : s_(s) {}
  absl::StatusOr<cc::OkpKey> Verify(const absl::Cord& policy, const v1::ConfidentialEncryptionConfig& c) override {
    ++s_->verified;
    s_->policy_seen = std::string(policy);
    s_->key_seen = c.public_key();
    if (s_->verifier_refuses) return absl::FailedPreconditionError("SECRET detail");
    auto t = cc::OkpCwt::Decode(c.public_key());
    if (!t.ok() || !t->public_key) return cc::OkpKey{.key_id = "odd"};   // (a lenient verifier)
    return *t->public_key;
  }
  Script* s_;
};
class Runner : public fcp::client::SecAggRunner {
 public:
  explicit Runner(Script* s) : s_(s) {}
  absl::Status Run(ComputationResults r) override {
    ++s_->runs;
    for (auto& [k, v] : r) s_->tensors.push_back(k + (std::holds_alternative<QuantizedTensor>(v) ? "" : " (not a tensor)"));
    std::sort(s_->tensors.begin(), s_->tensors.end());
    return s_->runner_status;
  }
  Script* s_;
};
class Factory : public fcp::client::SecAggRunnerFactory {
 public:
  explicit Factory(Script* s) : s_(s) {}
  std::unique_ptr<fcp::client::SecAggRunner> CreateSecAggRunner(std::unique_ptr<fcp::client::SecAggSendToServerBase> send,
                                                                std::unique_ptr<fcp::client::SecAggProtocolDelegate> d,
                                                                fcp::client::SecAggEventPublisher*, fcp::client::LogManager*,
                                                                fcp::client::InterruptibleRunner*, int64_t n, int64_t k) override {
    s_->clients = n;
    s_->survivors = k;
    send_ = std::move(send);
    delegate_ = std::move(d);
    return std::make_unique<Runner>(s_);
  }
  Script* s_;
  std::unique_ptr<fcp::client::SecAggSendToServerBase> send_;
  std::unique_ptr<fcp::client::SecAggProtocolDelegate> delegate_;
};

// A result of a computation: t TensorFlow checkpoint, f other checkpoint, q tensor.
const std::vector<std::string> kResults = {"t", "f", "q", "qt", "tt", "qq", ""};
ComputationResults Results(const std::string& kind, const std::string& tag) {
  ComputationResults r;
  int i = 0;
  for (char c : kind) {
    std::string name = std::string(1, c) + std::to_string(i++);
    if (c == 't') r[name] = "tf checkpoint of " + tag;
    if (c == 'f') r[name] = absl::Cord("fc checkpoint of " + tag);
    if (c == 'q') r[name] = QuantizedTensor{{1, 2}, 3, {2}};
  }
  return r;
}
class Reports {
 public:
  Reports(World& world, Model& model, Script& script) : w(world), m(model), s(script), ctx(world.ctx) {}
  World& w;
  Model& m;
  Script& s;
  Ctx& ctx;
  int lost_reports = 0, lost_aborts = 0;

  Expect TaskResult(const WantTask& t, int code, int64_t ms) {
    v1::ReportTaskResultRequest r;
    r.set_aggregation_id(t.agg_id);
    r.set_task_name(t.task_name);
    r.set_computation_status_code(static_cast<google::rpc::Code>(code));
    r.mutable_client_stats()->mutable_computation_execution_duration()->set_seconds(ms / 1000);
    r.mutable_client_stats()->mutable_computation_execution_duration()->set_nanos(ms % 1000 * 1'000'000);
    return Expect{.what = "task result", .uri = "https://ta/v1/populations/pop%2F1/taskassignments/" + t.session + ":reportresult" + Model::Alt(),
                  .headers = Headers("ta"), .check = m.BodyIs(r)};
  }
  Expect BestEffortResult(const WantTask& t, int64_t ms) {
    Expect e = TaskResult(t, 0, ms);
    e.reply = [this] {
      if (w.interrupted || !m.Turn(2, "task result lost")) return fk::Reply{};
      ++lost_reports;
      return Fail(w, kFail503).reply;
    };
    return e;
  }
  // Runs an operation: `done` fills in the final answer; failures end in `fail`.
  fk::Reply StartOperation(const WantTask& t, bool compact, std::function<void(Operation*)> done, std::function<void(Code)> fail) {
    if (auto f = m.ChooseFailure("start", compact)) {
      fail(f->code);
      return f->reply;
    }
    Operation op;
    op.set_name("operations/up/" + t.session);
    if (m.Turn(2, "pending")) {
      Expect e{.what = "poll", .method = "GET", .uri = t.agg_base + "/v1/operations/up/" + t.session + Model::Alt(), .headers = Headers(t.agg_tag)};
      e.reply = [this, op, done, fail, compact] {
        if (auto f = m.ChooseFailure("poll", compact)) {
          fail(f->code);
          return f->reply;
        }
        Operation o = op;
        done(&o);
        return Ok(o);
      };
      w.Expecting({e});
    } else {
      done(&op);
    }
    return Ok(op);
  }
  // Ways for an operation to end that are no answer.
  bool OddEnd(Operation* op, bool compact, std::function<void(Code)> fail) {
    op->set_done(true);
    int k = m.Turn(compact ? 2 : 4, "operation result");
    if (k == 0) return false;
    if (k == 1) {
      op->mutable_error()->set_code(14);
      fail(Code::kUnavailable);
    } else if (k == 2) {
      op->mutable_response()->PackFrom(google::rpc::Status());
      fail(Code::kInvalidArgument);
    } else {
      fail(Code::kInvalidArgument);   // no result at all
    }
    return true;
  }
  struct Outcome : Want {
    bool permanent = false;
    bool strict = true;     // the code is laid down
  };
  void ExpectAbort(const WantTask& t, const std::string& service, const std::string& token, Code code) {
    std::string i(1, t.task_name.back());
    Expect e{.what = "abort", .uri = "https://agg2-" + i + "/v1/" + service + "/agg%20" + i + "/clients/" + token + ":abort" + Model::Alt(),
             .headers = Headers("agg2-" + i)};
    e.check = [this, code](const fk::Call&, const std::string& body) {
      v1::AbortAggregationRequest r;   // (the confidential one has the same fields)
      ctx.Check(r.ParseFromString(body), "an unreadable abort");
      ctx.Eq(r.status().code(), static_cast<int>(code), "code of the abort");
      ctx.Check(r.status().message().find("SECRET") == std::string::npos, "the abort tells details: " + r.status().message());
    };
    e.delayed = true;
    e.reply = [this] {
      int k = m.Turn(3, "abort");
      if (k == 0) return fk::Reply{};
      ++lost_aborts;
      return Fail(w, k == 1 ? kFail503 : kFailTransport).reply;
    };
    w.Expecting({e});
  }
  void ExpectUpload(const WantTask& t, bool confidential, const std::string& token, const std::string& data, Outcome* want, bool compact) {
    std::string i(1, t.task_name.back());
    std::string service = confidential ? "confidentialaggregations" : "aggregations";
    Expect up{.what = "upload", .uri = "https://data" + i + "/upload/v1/media/res/" + i + "%20a?upload_protocol=raw", .headers = Headers("data" + i)};
    up.check = [this, t, confidential, data](const fk::Call& c, const std::string& body) {
      if (!confidential) {
        ctx.Eq(body, data, "uploaded data");
        return;
      }
      ctx.Eq(c.header("content-encoding"), "", "encoding of encrypted data");
      absl::string_view rest = body;
      auto h = cc::DecodeAndConsumeClientPayloadHeader(rest);
      ctx.Check(h.ok(), "an upload without header");
      auto plain = Agg().d.Decrypt(rest, h->serialized_blob_header, h->encrypted_symmetric_key, h->serialized_blob_header, h->encapsulated_public_key);
      ctx.Check(plain.ok(), "the aggregator cannot read the upload: " + plain.status().ToString());
      std::string text = *plain;
      if (h->is_gzip_compressed) {
        auto u = fcp::UncompressWithGzip(*plain);
        ctx.Check(u.ok(), "the upload cannot be unpacked");
        text = std::string(*u);
      }
      ctx.Eq(text, data, "uploaded data");
      ctx.Check(body.find(data) == std::string::npos, "the upload shows the data");
      fcp::confidentialcompute::BlobHeader b;
      ctx.Check(b.ParseFromString(h->serialized_blob_header), "an unreadable blob header");
      ctx.Eq(mc::Hex(b.access_policy_sha256()), mc::Hex(fcp::ComputeSHA256(t.policy)), "policy named by the upload");
      ctx.Eq(b.key_id(), cc::OkpCwt::Decode(Agg().cwt)->public_key->key_id, "key named by the upload");
      ctx.Eq(b.blob_id().size(), size_t{16}, "blob id");
    };
    up.reply = [this, t, i, service, token, want, compact] {
      auto f = m.ChooseFailure("upload", compact);
      if (f && f->code == Code::kInvalidArgument) f = std::nullopt;   // (what an upload answers is not read)
      if (f) {
        want->Fails(f->code);
        want->permanent = true;
        if (f->code != Code::kAborted) ExpectAbort(t, service, token, f->code);
        return f->reply;
      }
      v1::SubmitAggregationResultRequest r;
      r.set_resource_name("res/" + i + " a");
      Expect sub{.what = "submission", .uri = "https://agg2-" + i + "/v1/" + service + "/agg%20" + i + "/clients/" + token + ":submit" + Model::Alt(),
                 .headers = Headers("agg2-" + i), .check = m.BodyIs(r)};
      sub.reply = [this, want, compact] {
        auto f = m.ChooseFailure("submission", compact);
        if (f && f->code == Code::kInvalidArgument) f = std::nullopt;
        if (!f) {
          want->kind = Want::kTask;
          return fk::Reply{};
        }
        want->Fails(f->code);
        return f->reply;
      };
      w.Expecting({sub});
      return fk::Reply{};
    };
    w.Expecting({up});
  }
  // Reporting a finished computation through plain or confidential aggregation.
  void ExpectSimple(const WantTask& t, bool confidential, const std::string& data, int64_t ms, Outcome* want, bool compact) {
    std::string i(1, t.task_name.back());
    std::string service = confidential ? "confidentialaggregations" : "aggregations";
    Expect start{.what = "start of the upload", .uri = t.agg_base + "/v1/" + service + "/agg%20" + i + "/clients/token%3A" + i + ":startdataupload" + Model::Alt(),
                 .headers = Headers(t.agg_tag)};
    start.check = [this](const fk::Call& c, const std::string& body) { ctx.Eq(body, "", "start of the upload"); };
    auto fail = [this, want](Code c) {
      want->Fails(c);
      want->permanent = true;
    };
    start.reply = [this, t, i, service, confidential, data, want, compact, fail] {
      return StartOperation(t, compact, [=, this](Operation* op) {
        if (OddEnd(op, compact, fail)) return;
        // nothing wrong, no address for the protocol, no address for the data
        int lacks = ctx.Choose(compact ? 1 : 3, "lacks");
        bool own_token = compact || ctx.Flip("client token") || confidential;
        std::string token = own_token ? "ct" + i : "token%3A" + i;
        auto fill = [&](auto* r) {
          if (lacks != 1) Forward(r->mutable_aggregation_protocol_forwarding_info(), "https://agg2-" + i, "agg2-" + i);
          if (lacks != 2) Forward(r->mutable_resource()->mutable_data_upload_forwarding_info(), "https://data" + i, "data" + i);
          r->mutable_resource()->set_resource_name("res/" + i + " a");
          if (own_token) r->set_client_token("ct" + i);
        };
        if (lacks) fail(Code::kInvalidArgument);
        if (!confidential) {
          v1::StartAggregationDataUploadResponse r;
          fill(&r);
          op->mutable_response()->PackFrom(r);
          if (!lacks) ExpectUpload(t, false, token, data, want, compact);
          return;
        }
        v1::StartConfidentialAggregationDataUploadResponse r;
        fill(&r);
        v1::ConfidentialEncryptionConfig config;
        int key = m.Turn(3, "key");    // good, refused, unusable
        config.set_public_key(key == 2 ? "no key" : Agg().cwt);
        static const std::vector<int> kKinds = {kInline, kUri, kUri404, kUri503, kUriInterrupted, kEmptyUri};
        int kind = compact ? (int)kInline : ctx.Choose(kKinds.size() + 1, "encryption config");
        Res res = MakeRes(w, kind == (int)kKinds.size() ? (int)kInline : compact ? kind : kKinds[kind], "config" + i,
                          kind == (int)kKinds.size() ? "\xff\xff" : config.SerializeAsString());
        *r.mutable_encryption_config() = res.proto;
        op->mutable_response()->PackFrom(r);
        std::vector<Expect> f = res.fetch;
        if (lacks)
          for (auto& e : f) e.optional = true;
        w.Expecting(f);
        if (kind == (int)kKinds.size()) res.error = Code::kInvalidArgument;
        if (lacks) {
          want->codes = {Code::kInvalidArgument};
          if (res.error) want->codes.insert(*res.error);
          return;
        }
        if (res.error) {
          fail(*res.error);
          return;
        }
        s.verifier_refuses = key == 1;
        if (key == 0) {
          ExpectUpload(t, true, token, data, want, compact);
        } else {
          fail(key == 1 ? Code::kFailedPrecondition : Code::kInvalidArgument);
          if (key == 2) want->codes = {};
          ExpectAbortAnyCode(t, service, token, key == 1 ? std::optional<Code>(Code::kFailedPrecondition) : std::nullopt);
        }
      }, fail);
    };
    w.Expecting({start, BestEffortResult(t, ms)});
  }
  void ExpectAbortAnyCode(const WantTask& t, const std::string& service, const std::string& token, std::optional<Code> code) {
    ExpectAbort(t, service, token, code.value_or(Code::kUnknown));
    if (!code)
      w.waiting.back().check = [this](const fk::Call&, const std::string& body) {
        v1::AbortAggregationRequest r;
        ctx.Check(r.ParseFromString(body) && r.status().code() != 0, "an abort without an error");
      };
  }
  void ExpectSecure(const WantTask& t, int64_t ms, Outcome* want, bool compact) {
    std::string i(1, t.task_name.back());
    Expect start{.what = "start of secure aggregation", .uri = t.agg_base + "/v1/secureaggregations/agg%20" + i + "/clients/token%3A" + i + ":start" + Model::Alt(),
                 .headers = Headers(t.agg_tag)};
    auto fail = [want](Code c) { want->Fails(c); };
    start.reply = [this, t, i, want, compact, fail] {
      return StartOperation(t, compact, [=, this](Operation* op) {
        if (OddEnd(op, compact, fail)) return;
        v1::StartSecureAggregationResponse r;
        r.mutable_protocol_execution_info()->set_expected_number_of_clients(17);
        r.mutable_protocol_execution_info()->set_minimum_surviving_clients_for_reconstruction(11);
        int lacks = ctx.Choose(compact ? 1 : 4, "lacks");
        if (lacks != 1) Forward(r.mutable_secagg_protocol_forwarding_info(), "https://sa", "sa");
        if (lacks != 2) Forward(r.mutable_masked_result_resource()->mutable_data_upload_forwarding_info(), "https://masked", "masked");
        if (lacks != 3) Forward(r.mutable_nonmasked_result_resource()->mutable_data_upload_forwarding_info(), "https://plain", "plain");
        op->mutable_response()->PackFrom(r);
        if (lacks) {
          fail(Code::kInvalidArgument);
          return;
        }
        want->kind = Want::kTask;
        if (m.Turn(2, "session fails")) {
          s.runner_status = absl::DataLossError("x");
          fail(Code::kDataLoss);
        }
      }, fail);
    };
    w.Expecting({start, BestEffortResult(t, ms)});
  }
  // One report of a finished computation.
  Outcome Completed(FederatedProtocol& p, const WantTask& t, std::optional<std::string> id, const std::string& kind, bool compact) {
    Outcome want;
    int64_t ms = 61'250;
    bool quantized = kind.find('q') != std::string::npos;
    int way = w.flags.confidential ? t.agg : quantized ? 2 : 1;
    std::string data = kind == "f" ? "fc checkpoint of " + t.task_name : "tf checkpoint of " + t.task_name;
    int runs = s.runs;
    s.tensors.clear();
    s.verified = 0;
    s.runner_status = absl::OkStatus();
    bool refused = false;
    if (way != 2) {
      bool size = kind.size() == 1, fits;
      if (!w.flags.untie) fits = kind == (w.flags.lightweight ? "f" : "t");
      else fits = kind == "t" || (kind == "f" && w.flags.lightweight);
      refused = !size || !fits;
      if (refused) want.Fails(Code::kInternal);
      else ExpectSimple(t, way == 3, data, ms, &want, compact);
    } else {
      ExpectSecure(t, ms, &want, compact);
    }
    int lost0 = lost_reports, noted0 = m.Count(fcp::client::ProdDiagCode::HTTP_REPORT_TASK_RESULT_REQUEST_FAILED);
    int ab0 = lost_aborts, abn0 = m.Count(fcp::client::ProdDiagCode::HTTP_CANCELLATION_OR_ABORT_REQUEST_FAILED);
    absl::Status st;
    try {
      st = p.ReportCompleted(Results(kind, t.task_name), absl::Milliseconds(ms), id);
    } catch (const std::bad_variant_access&) {
      ctx.Fail("the process would end: the result has another type than expected");
    }
    m.CheckOutcome(st, want, "report of " + t.task_name);
    w.Finished("the report of " + t.task_name);
    if (!w.interrupted) {
      ctx.Eq(m.Count(fcp::client::ProdDiagCode::HTTP_REPORT_TASK_RESULT_REQUEST_FAILED) - noted0, lost_reports - lost0, "lost task results noted");
      ctx.Eq(m.Count(fcp::client::ProdDiagCode::HTTP_CANCELLATION_OR_ABORT_REQUEST_FAILED) - abn0, lost_aborts - ab0, "lost aborts noted");
    }
    if (way == 2) {
      bool ran = want.kind == Want::kTask || want.codes == std::set<Code>{Code::kDataLoss};
      ctx.Eq(s.runs - runs, ran ? 1 : 0, "runs of secure aggregation");
      if (ran) {
        std::vector<std::string> expect;
        for (size_t j = 0; j < kind.size(); ++j)
          if (kind[j] == 'q') expect.push_back("q" + std::to_string(j));
        // One checkpoint travels beside the tensors.
        size_t others = 0;
        for (auto& x : s.tensors) others += x.find("(not") != std::string::npos;
        std::vector<std::string> q;
        for (auto& x : s.tensors)
          if (x.find("(not") == std::string::npos) q.push_back(x);
        ctx.Check(q == expect, "tensors handed to secure aggregation");
        if (kind == "qt") ctx.Eq(others, size_t{0}, "checkpoints among the tensors");
        ctx.Eq(s.clients, 17, "number of clients");
        ctx.Eq(s.survivors, 11, "minimum of survivors");
      }
    } else {
      ctx.Eq(s.runs, runs, "runs of secure aggregation");
    }
    if (way == 3 && s.verified) {
      ctx.Eq(s.verified, 1, "verifications");
      ctx.Eq(s.policy_seen, t.policy, "policy verified");
    }
    if (way == 3 && want.kind == Want::kTask) ctx.Eq(s.verified, 1, "verifications");
    m.CheckNetwork(p);
    return want;
  }
  Outcome NotCompleted(FederatedProtocol& p, const WantTask& t, std::optional<std::string> id, int outcome, bool compact) {
    Outcome want;
    using O = fcp::client::engine::PhaseOutcome;
    static const std::vector<std::pair<O, int>> kOutcomes = {{O::ERROR, 13}, {O::INTERRUPTED, 1}, {O::PHASE_OUTCOME_UNDEFINED, 2}, {O::COMPLETED, 0}};
    int64_t ms = 750;
    Expect e = TaskResult(t, kOutcomes[outcome].second, ms);
    e.reply = [&] {
      auto f = m.ChooseFailure("task result", compact);
      if (f && f->code == Code::kInvalidArgument) f = std::nullopt;
      if (!f) {
        want.kind = Want::kTask;
        return fk::Reply{};
      }
      want.Fails(f->code);
      return f->reply;
    };
    w.Expecting({e});
    absl::Status st = p.ReportNotCompleted(kOutcomes[outcome].first, absl::Milliseconds(ms), id);
    m.CheckOutcome(st, want, "report of failed " + t.task_name);
    w.Finished("the report of failed " + t.task_name);
    m.CheckNetwork(p);
    return want;
  }
};
int64_t Window(FederatedProtocol& p) {
  auto win = p.GetLatestRetryWindow();
  return win.delay_min().seconds() + (win.delay_min().nanos() >= 500'000'000 ? 1 : 0);
}
mc::sched::RunOptions Throws() {
  mc::sched::RunOptions o;
  o.fatal_throws = true;
  return o;
}
}  // namespace

void One(Ctx& ctx, int agg, bool several) {
  int flags = ctx.Choose(8, "flags");
  std::string kind = kResults[ctx.Choose(kResults.size(), "result")];
  bool confidential = flags & 1 || agg == 3;
  if (agg == 3 && !(flags & 1)) ctx.Prune();
  bool compressed = agg == 3 || ctx.Flip("compressed");
  mc::sched::Run(ctx, [&] {
    World w(ctx);
    w.flags.confidential = confidential;
    w.flags.lightweight = flags & 2;
    w.flags.untie = flags & 4;
    w.flags.no_compression = !compressed;
    Script s;
    auto p = MakeProtocol(w, std::make_unique<Factory>(&s), std::make_unique<Verifier>(&s));
    Model m(w);
    Start st = GetTasks(w, m, *p, {agg}, several);
    Reports rep(w, m, s);
    std::optional<std::string> id;
    if (several) id = st.tasks[0].agg_id;
    auto want = rep.Completed(*p, st.tasks[0], id, kind, false);
    int64_t got = Window(*p), accepted = m.RemainingSeconds(kAccepted);
    if (want.kind == Want::kTask) ctx.Eq(got, accepted, "retry window after a report");
    else ctx.Check(got == accepted || got == 40000, "retry in " + std::to_string(got) + " s after a failed report");
  });
}
MC_SCENARIO(simple, {.bound = 0, .bound_thorough = 0}) { One(ctx, 1, ctx.Flip("of several")); }
MC_SCENARIO(secure, {.bound = 0, .bound_thorough = 0}) { One(ctx, 2, ctx.Flip("of several")); }
MC_SCENARIO(confidential, {.bound = 0, .bound_thorough = 0}) { One(ctx, 3, ctx.Flip("of several")); }
MC_SCENARIO(not_completed, {.bound = 0, .bound_thorough = 0}) {
  bool several = ctx.Flip("of several");
  int outcome = ctx.Choose(4, "outcome");
  mc::sched::Run(ctx, [&] {
    World w(ctx);
    Script s;
    auto p = MakeProtocol(w, std::make_unique<Factory>(&s), std::make_unique<Verifier>(&s));
    Model m(w);
    Start st = GetTasks(w, m, *p, {1}, several);
    Reports rep(w, m, s);
    std::optional<std::string> id;
    if (several) id = st.tasks[0].agg_id;
    rep.NotCompleted(*p, st.tasks[0], id, outcome, false);
    ctx.Eq(Window(*p), m.RemainingSeconds(kAccepted), "retry window after a report");
  });
}
// Sequences of reports about several tasks: each exactly once, none mixed up.
MC_SCENARIO(sequences, {.bound = 0, .bound_thorough = 0}) {
  bool confidential = ctx.Flip("confidential");
  bool three = ctx.thorough() && ctx.Flip("three tasks");
  int n = three ? 3 : 2;
  std::vector<int> aggs;
  for (int i = 0; i < n; ++i) aggs.push_back(confidential ? 1 + ctx.Choose(3, "aggregation") : 1);
  mc::sched::Run(ctx, [&] {
    World w(ctx);
    w.flags.confidential = confidential;
    Script s;
    auto p = MakeProtocol(w, std::make_unique<Factory>(&s), std::make_unique<Verifier>(&s));
    Model m(w);
    Start st = GetTasks(w, m, *p, aggs, true);
    Reports rep(w, m, s);
    m.turns_left = ctx.thorough() && !three ? 2 : 1;
    std::set<int> done, good;
    for (int i = 0; i < n + 1; ++i) {
      // stop, completed, not completed, for any of the tasks or one that was never given
      int call = ctx.Choose(1 + 2 * (n + 1), "call");
      if (call == 0) break;
      int t = (call - 1) / 2;
      bool completed = (call - 1) % 2 == 0;
      ctx.Step();
      if (t == n) {
        int requests = w.requests;
        bool no_id = ctx.Flip("no id");
        try {
          auto id = no_id ? std::nullopt : std::optional<std::string>("agg 9");
          absl::Status r = completed ? p->ReportCompleted(Results("t", "x"), absl::Seconds(1), id)
                                     : p->ReportNotCompleted(fcp::client::engine::PhaseOutcome::ERROR, absl::Seconds(1), id);
          ctx.Check(!r.ok(), "a report about a task that was never given");
          ctx.Check(!no_id, "a report about a task that was never given is refused differently");
        } catch (const mc_fatal::Fatal&) {
          ctx.Check(no_id, "a report about an unknown task ends the process");
          return;
        }
        ctx.Eq(w.requests, requests, "requests about a task that was never given");
        continue;
      }
      if (done.count(t)) {
        try {
          absl::Status r = completed ? p->ReportCompleted(Results("t", "x"), absl::Seconds(1), st.tasks[t].agg_id)
                                     : p->ReportNotCompleted(fcp::client::engine::PhaseOutcome::ERROR, absl::Seconds(1), st.tasks[t].agg_id);
          ctx.Check(!r.ok(), "a second report was accepted");
        } catch (const mc_fatal::Fatal&) {
        }
        ctx.Outcome("second report refused");
        return;
      }
      done.insert(t);
      Reports::Outcome want;
      if (completed) want = rep.Completed(*p, st.tasks[t], st.tasks[t].agg_id, aggs[t] == 2 ? "qt" : "t", true);
      else want = rep.NotCompleted(*p, st.tasks[t], st.tasks[t].agg_id, 0, true);
      if (!want.permanent) good.insert(t);
    }
    int64_t got = Window(*p);
    if ((int)good.size() == n) ctx.Eq(got, m.RemainingSeconds(kAccepted), "retry window after all reports");
    else if ((int)done.size() < n || !good.empty()) ctx.Eq(got, m.RemainingSeconds(kRejected), "retry window after some reports");
    else ctx.Check(got == 40000, "retry window after no report came through");
  }, Throws());
}
static int init = (mc::Rule("every kind of answer to every request of a report through plain, secure and confidential aggregation, for every kind of result and "
                            "setting; interruption during any request; all sequences of reports about two (thorough three) tasks with one report too many"),
                   mc::Assumption("the HTTP client keeps its documented contract; an operation that failed carries an error code; the secure aggregation "
                                  "session itself is a stand-in here (see C29)"), 0);
