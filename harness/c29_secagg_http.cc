// C29: a secure aggregation session over HTTP, with the real client in it.
#include "common/protocol_model.h"
#include "common/quiet_trace.h"
#include "fcp/secagg/shared/aes_gcm_encryption.h"
#include "fcp/secagg/shared/ecdh_key_agreement.h"
#include "fcp/secagg/shared/secagg_vector.h"

namespace {
using namespace mc::world;
using mc::Ctx;
using fcp::client::ComputationResults;
using fcp::client::QuantizedTensor;
using namespace fcp::secagg;   // NOLINT

class Publisher : public fcp::client::SecAggEventPublisher {
 public:
  void PublishStateTransition(ClientState s, size_t, size_t) override {
    mc::abslx::MutexLock l(&mu);
    states.push_back(static_cast<int>(s));
  }
  void PublishError() override {
    mc::abslx::MutexLock l(&mu);
    ++errors;
  }
  void PublishAbort(bool own, const std::string&) override {
    mc::abslx::MutexLock l(&mu);
    ++(own ? own_aborts : other_aborts);
  }
  void set_execution_session_id(int64_t) override {}
  mc::abslx::Mutex mu;
  std::vector<int> states;
  int errors = 0, own_aborts = 0, other_aborts = 0;
};
constexpr int kN = 3, kSelf = 1;

struct Tensor {
  std::vector<uint64_t> values;
  std::vector<int64_t> dimensions;
};
struct Setup {
  std::map<std::string, Tensor> tensors;
  std::map<std::string, uint64_t> moduli;
  bool checkpoint = false, own_token = true, compact = false;
  bool interrupts = true;
};
class Session {
 public:
  Session(World& world, Model& model, const WantTask& task, const Setup& setup) : w(world), m(model), ctx(world.ctx), t(task), s(setup) {
    for (int i = 0; i < kN; ++i) {
      enc.push_back(EcdhKeyAgreement::CreateFromRandomKeys().value());
      noise.push_back(EcdhKeyAgreement::CreateFromRandomKeys().value());
    }
    token = s.own_token ? "c%20t" : "token%3A1";
  }
  World& w;
  Model& m;
  Ctx& ctx;
  WantTask t;
  Setup s;
  std::vector<std::unique_ptr<EcdhKeyAgreement>> enc, noise;
  std::string own_enc, own_noise, token;
  Want want;
  int rounds = 0;             // rounds the server has answered well
  bool aborts = false;        // the client gives up because of what the server said
  int lost_aborts = 0;
  std::set<int> alive = {0, 1, 2};

  std::string Uri(const std::string& verb) { return "https://sa/v1/secureaggregations/agg%201/clients/" + token + ":" + verb + Model::Alt(); }
  AesKey EncKey(int i) { return enc[i]->ComputeSharedSecret(EcdhPublicKey(reinterpret_cast<const uint8_t*>(own_enc.data()))).value(); }

  void Fails(Code c) {
    want.Fails(c);
    if (w.interrupted) ExpectAbort(true);
  }
  // The one message that tells the server that the client gave up.
  void ExpectAbort(bool maybe) {
    Expect e{.what = "abort", .uri = Uri("abort"), .headers = Headers("sa")};
    e.check = [this](const fk::Call&, const std::string& body) {
      v1::AbortSecureAggregationRequest r;
      ctx.Check(r.ParseFromString(body), "an unreadable abort");
      ctx.Eq(static_cast<int>(r.status().code()), 13, "code of the abort");
      ctx.Check(!r.status().message().empty(), "an abort without a reason");
    };
    e.delayed = true;
    e.optional = maybe;
    e.reply = [this] {
      int k = m.Turn(3, "abort");
      if (k == 0) return fk::Reply{};
      ++lost_aborts;
      return Fail(w, k == 1 ? kFail503 : kFailTransport).reply;
    };
    w.Expecting({e});
  }
  std::optional<Failure> ChooseFailure(const char* what) {
    auto f = m.ChooseFailure(what, s.compact);
    if (f) Fails(f->code);
    return f;
  }
  // Answers a request with an operation that is done now or after a poll.
  fk::Reply Operate(const std::string& base, const std::string& tag, std::function<void(Operation*)> done) {
    if (auto f = ChooseFailure("request")) return f->reply;
    Operation op;
    op.set_name("operations/s/" + std::to_string(rounds));
    auto finish = [this, done](Operation* o) {
      o->set_done(true);
      int k = m.Turn(s.compact ? 2 : 4, "operation result");
      if (k == 0) return done(o);
      if (k == 1) {
        o->mutable_error()->set_code(14);
        Fails(Code::kUnavailable);
      } else {
        if (k == 2) o->mutable_response()->PackFrom(google::rpc::Status());
        want.Fails(Code::kInternal);
        want.codes = {Code::kInternal, Code::kInvalidArgument};
      }
    };
    if (m.Turn(2, "pending")) {
      Expect e{.what = "poll", .method = "GET", .uri = base + "/v1/operations/s/" + std::to_string(rounds) + Model::Alt(), .headers = Headers(tag)};
      e.reply = [this, op, finish] {
        if (auto f = ChooseFailure("poll")) return f->reply;
        Operation o = op;
        finish(&o);
        return Ok(o);
      };
      w.Expecting({e});
    } else {
      finish(&op);
    }
    return Ok(op);
  }
  void BadAnswer() {
    aborts = true;
    want.Fails(Code::kCancelled);
    ExpectAbort(false);
  }
  void ExpectStart() {
    Expect start{.what = "start", .uri = t.agg_base + "/v1/secureaggregations/agg%201/clients/token%3A1:start" + Model::Alt(), .headers = Headers(t.agg_tag)};
    start.reply = [this] {
      v1::StartSecureAggregationResponse r;
      r.mutable_protocol_execution_info()->set_expected_number_of_clients(kN);
      r.mutable_protocol_execution_info()->set_minimum_surviving_clients_for_reconstruction(2);
      Forward(r.mutable_secagg_protocol_forwarding_info(), "https://sa", "sa");
      Forward(r.mutable_masked_result_resource()->mutable_data_upload_forwarding_info(), "https://masked", "masked");
      Forward(r.mutable_nonmasked_result_resource()->mutable_data_upload_forwarding_info(), "https://plain", "plain");
      r.mutable_masked_result_resource()->set_resource_name("masked/r");
      r.mutable_nonmasked_result_resource()->set_resource_name("plain/r");
      if (s.own_token) r.set_client_token("c t");
      for (auto& [k, v] : s.moduli) (*r.mutable_secure_aggregands())[k].set_modulus(v);
      Operation op;
      op.set_done(true);
      op.mutable_response()->PackFrom(r);
      return Ok(op);
    };
    Expect result{.what = "task result", .uri = "https://ta/v1/populations/pop%2F1/taskassignments/" + t.session + ":reportresult" + Model::Alt(),
                  .headers = Headers("ta")};
    w.Expecting({start, result});
  }
  void ExpectAdvertise() {
    Expect e{.what = "advertise keys", .uri = Uri("advertisekeys"), .headers = Headers("sa")};
    e.check = [this](const fk::Call&, const std::string& body) {
      v1::AdvertiseKeysRequest r;
      ctx.Check(r.ParseFromString(body), "unreadable keys");
      own_enc = r.advertise_keys().pair_of_public_keys().enc_pk();
      own_noise = r.advertise_keys().pair_of_public_keys().noise_pk();
      ctx.Eq(own_enc.size(), size_t{33}, "key size");
      ctx.Eq(own_noise.size(), size_t{33}, "key size");
    };
    e.reply = [this] {
      return Operate("https://sa", "sa", [this](Operation* op) {
        v1::AdvertiseKeysResponse r;
        if (m.Turn(2, "bad answer")) {
          BadAnswer();
        } else {
          auto* q = r.mutable_share_keys_server_request();
          for (int i = 0; i < kN; ++i) {
            auto* k = q->add_pairs_of_public_keys();
            k->set_enc_pk(i == kSelf ? own_enc : enc[i]->PublicKey().AsString());
            k->set_noise_pk(i == kSelf ? own_noise : noise[i]->PublicKey().AsString());
          }
          q->set_session_id(std::string(32, 's'));
          ++rounds;
          ExpectShares();
        }
        op->mutable_response()->PackFrom(r);
      });
    };
    w.Expecting({e});
  }
  void ExpectShares() {
    Expect e{.what = "share keys", .uri = Uri("sharekeys"), .headers = Headers("sa")};
    e.check = [this](const fk::Call&, const std::string& body) {
      v1::ShareKeysRequest r;
      ctx.Check(r.ParseFromString(body), "unreadable shares");
      auto& c = r.share_keys_client_response();
      ctx.Eq(c.encrypted_key_shares_size(), kN, "shares");
      for (int i = 0; i < kN; ++i) {
        if (i == kSelf) ctx.Eq(c.encrypted_key_shares(i), "", "share of the client itself");
        else ctx.Check(AesGcmEncryption().Decrypt(EncKey(i), c.encrypted_key_shares(i)).ok(), "a peer cannot read its share");
      }
    };
    e.reply = [this] {
      return Operate("https://sa", "sa", [this](Operation* op) {
        v1::ShareKeysResponse r;
        if (m.Turn(2, "bad answer")) {
          BadAnswer();
        } else {
          if (m.Turn(2, "peer gone")) alive.erase(2);
          for (int i = 0; i < kN; ++i) {
            PairOfKeyShares p;
            p.set_noise_sk_share("noise " + std::to_string(i));
            p.set_prf_sk_share("self " + std::to_string(i));
            r.mutable_masked_input_collection_server_request()->add_encrypted_key_shares(
                i == kSelf || !alive.count(i) ? "" : AesGcmEncryption().Encrypt(EncKey(i), p.SerializeAsString()));
          }
          ++rounds;
          ExpectUploads();
        }
        op->mutable_response()->PackFrom(r);
      });
    };
    w.Expecting({e});
  }
  void ExpectUploads() {
    auto state = std::make_shared<std::pair<int, std::vector<Code>>>();   // answered, failures
    int all = s.checkpoint ? 2 : 1;
    auto reply = [this, state, all](const char* what) {
      ++state->first;
      auto f = m.ChooseFailure(what, s.compact);
      if (f && f->code == Code::kInvalidArgument) f = std::nullopt;   // (what is said about an upload is not read)
      if (f) state->second.push_back(f->code);
      if (state->first == all) {
        if (state->second.empty()) ExpectSubmit();
        else if (w.interrupted) Fails(Code::kCancelled);
        else want.Fails(state->second[0]), want.codes.insert(state->second.begin(), state->second.end());
      }
      return f ? f->reply : fk::Reply{};
    };
    Expect masked{.what = "masked upload", .uri = "https://masked/upload/v1/media/masked/r?upload_protocol=raw", .headers = Headers("masked")};
    masked.check = [this](const fk::Call& c, const std::string& body) {
      MaskedInputCollectionResponse r;
      ctx.Eq(c.header("content-encoding"), "", "encoding of the upload");
      ctx.Check(r.ParseFromString(body), "an unreadable masked input");
      ctx.Eq(r.vectors().size(), s.tensors.size(), "vectors");
      for (auto& [k, v] : s.tensors) {
        ctx.Check(r.vectors().count(k) > 0, "the vector " + k + " is missing");
        int bits = SecAggVector::GetBitWidth(s.moduli[k]);
        ctx.Eq(r.vectors().at(k).encoded_vector().size(), (v.values.size() * bits + 7) / 8, "size of " + k);
      }
    };
    masked.reply = [reply] { return reply("masked upload"); };
    std::vector<Expect> es = {masked};
    if (s.checkpoint) {
      Expect plain{.what = "checkpoint upload", .uri = "https://plain/upload/v1/media/plain/r?upload_protocol=raw", .headers = Headers("plain")};
      plain.check = [this](const fk::Call& c, const std::string& body) {
        ctx.Eq(c.header("content-encoding"), "", "encoding of the upload");
        ctx.Eq(body, "the checkpoint", "checkpoint");
      };
      plain.reply = [reply] { return reply("checkpoint upload"); };
      es.push_back(plain);
    }
    w.Expecting(es);
  }
  void ExpectSubmit() {
    v1::SubmitSecureAggregationResultRequest r;
    r.set_masked_result_resource_name("masked/r");
    if (s.checkpoint) r.set_nonmasked_result_resource_name("plain/r");
    Expect e{.what = "submission", .uri = Uri("submit"), .headers = Headers("sa"), .check = m.BodyIs(r)};
    e.reply = [this] {
      return Operate("https://sa", "sa", [this](Operation* op) {
        v1::SubmitSecureAggregationResultResponse r;
        if (m.Turn(2, "bad answer")) {
          r.mutable_unmasking_server_request()->add_dead_3_client_ids(kSelf + 1);
          BadAnswer();
        } else {
          ++rounds;
          if (alive.count(2) && m.Turn(2, "peer lost")) {
            alive.erase(2);
            r.mutable_unmasking_server_request()->add_dead_3_client_ids(2 + 1);
            lost = true;
          }
          ExpectUnmask();
        }
        op->mutable_response()->PackFrom(r);
      });
    };
    w.Expecting({e});
  }
  bool lost = false;
  void ExpectUnmask() {
    Expect e{.what = "unmasking", .uri = Uri("unmask"), .headers = Headers("sa")};
    e.check = [this](const fk::Call&, const std::string& body) {
      v1::UnmaskRequest r;
      ctx.Check(r.ParseFromString(body), "an unreadable unmasking");
      auto& c = r.unmasking_client_response();
      ctx.Eq(c.noise_or_prf_key_shares_size(), kN, "shares");
      ctx.Eq(c.noise_or_prf_key_shares(0).prf_sk_share(), "self 0", "share given away");
      ctx.Check(!c.noise_or_prf_key_shares(kSelf).prf_sk_share().empty(), "the own share is missing");
      if (lost) ctx.Check(c.noise_or_prf_key_shares(2).prf_sk_share().empty(), "the share of a lost peer");
    };
    e.reply = [this] {
      auto f = m.ChooseFailure("unmasking", s.compact);
      if (f && f->code == Code::kInvalidArgument) f = std::nullopt;   // (what is said is not read)
      if (f) {
        Fails(f->code);
      } else {
        ++rounds;
        want.kind = Want::kTask;
      }
      return f ? f->reply : fk::Reply{};
    };
    w.Expecting({e});
  }
};
ComputationResults Results(const Setup& s) {
  ComputationResults r;
  for (auto& [k, v] : s.tensors) {
    QuantizedTensor q;
    q.values = v.values;
    q.dimensions = v.dimensions;
    r[k] = std::move(q);
  }
  if (s.checkpoint) r["checkpoint"] = "the checkpoint";
  return r;
}
Setup Plain(int tensors) {
  Setup s;
  s.tensors["a"] = Tensor{{1, 2, 3}, {3}};
  s.moduli["a"] = 13;
  if (tensors > 1) {
    s.tensors["b"] = Tensor{{7, 0}, {2, 1}};
    s.moduli["b"] = 1 << 20;
  }
  return s;
}
void Run(Ctx& ctx, const Setup& s, bool threads, int turns, std::function<void(World&)> before = {}) {
  World w(ctx);
  w.http.threads = threads;
  Publisher pub;
  auto p = MakeProtocol(w, std::make_unique<fcp::client::SecAggRunnerFactoryImpl>(), nullptr, &pub);
  Model m(w);
  Start st = GetTasks(w, m, *p, {2}, false);
  Session x(w, m, st.tasks[0], s);
  m.turns_left = turns;
  if (before) x.ExpectAbort(true);
  x.ExpectStart();
  x.ExpectAdvertise();
  if (before) before(w);
  absl::Status r;
  try {
    r = p->ReportCompleted(Results(s), absl::Seconds(1), std::nullopt);
  } catch (const mc::ProcessExit&) {
    ctx.Fail("the process ended though every request did");
  }
  bool cut = w.abort_at.load() != INT64_MAX;
  if (cut) {
    // Interrupted: over, or just in time.
    bool over = r.code() == Code::kCancelled;
    bool as_planned = x.want.kind == Want::kTask ? r.ok() : !r.ok();
    ctx.Check(over || as_planned, "interrupted: " + r.ToString());
    if (r.ok()) ctx.Eq(x.rounds, 4, "rounds");
  } else {
    m.CheckOutcome(r, x.want, "the session");
    w.Finished("the session");
    ctx.Eq(pub.own_aborts, 0, "aborts by interruption");
    ctx.Eq(pub.other_aborts + pub.errors, x.aborts ? 1 : 0, "failures announced");
  }
  ctx.Check(pub.own_aborts + pub.other_aborts + pub.errors <= 1 || cut, "failures announced");
  ctx.Check(pub.own_aborts <= 1, "aborts announced");
  // The states passed through.
  int last = 0;
  for (int v : pub.states) {
    ctx.Check(v >= last, "states out of order");
    last = v;
  }
  if (r.ok()) ctx.Eq(last, 5, "last state");
  if (x.aborts && !cut) ctx.Eq(last, 6, "last state");
  m.CheckNetwork(*p);
  ctx.Outcome("rounds " + std::to_string(x.rounds) + " " + Name(r.code()));
}
}  // namespace

MC_SCENARIO(session, {.bound = 0, .bound_thorough = 0}) {
  mcq::Quiet();
  Setup s = Plain(1 + ctx.Choose(2, "tensors"));
  s.checkpoint = ctx.Flip("checkpoint");
  s.own_token = ctx.Flip("client token");
  mc::sched::Run(ctx, [&] { Run(ctx, s, false, ctx.thorough() ? 3 : 2); });
}
// Inputs that cannot be summed are refused before any key is sent.
MC_SCENARIO(inputs, {.bound = 0, .bound_thorough = 0}) {
  mcq::Quiet();
  static const std::vector<uint64_t> kModuli = {0, 1, 2, 13, SecAggVector::kMaxModulus, SecAggVector::kMaxModulus + 1, ~uint64_t{0}};
  static const std::vector<Tensor> kTensors = {{{}, {0}}, {{}, {}}, {{0}, {}}, {{1}, {1}}, {{1, 0}, {2}}, {{1, 0}, {1, 2}}, {{1, 0}, {3}}, {{1, 0}, {}},
                                               {{12}, {1}}, {{13}, {1}}, {{~uint64_t{0}}, {1}}, {{1, 0}, {-1, -2}}, {{0, 2}, {2}}};
  Setup s;
  s.compact = true;
  s.checkpoint = ctx.Flip("checkpoint");
  int n = 1 + ctx.Choose(2, "tensors");
  bool good = true;
  for (int i = 0; i < n; ++i) {
    std::string name(1, 'a' + i);
    Tensor t = i == 0 ? ctx.Pick(kTensors, "tensor") : Tensor{{0}, {1}};
    s.tensors[name] = t;
    int known = i == 0 ? ctx.Choose(kModuli.size() + 1, "modulus") : 3 + ctx.Choose(2, "modulus");
    if (known < (int)kModuli.size()) s.moduli[name] = kModuli[known];
    else { good = false; continue; }
    uint64_t mod = kModuli[known];
    int64_t len = 1;
    for (int64_t d : t.dimensions) len *= d;
    good &= mod > 1 && mod <= SecAggVector::kMaxModulus && !t.values.empty() && len == (int64_t)t.values.size();
    for (uint64_t v : t.values) good &= v < mod;
  }
  mc::sched::Run(ctx, [&] {
    World w(ctx);
    Publisher pub;
    auto p = MakeProtocol(w, std::make_unique<fcp::client::SecAggRunnerFactoryImpl>(), nullptr, &pub);
    Model m(w);
    Start st = GetTasks(w, m, *p, {2}, false);
    Session x(w, m, st.tasks[0], s);
    m.turns_left = 0;
    x.ExpectStart();
    if (good) x.ExpectAdvertise();
    else x.want.Fails(Code::kInternal);
    absl::Status r = p->ReportCompleted(Results(s), absl::Seconds(1), std::nullopt);
    m.CheckOutcome(r, x.want, "the session");
    w.Finished("the session");
    ctx.Eq(pub.own_aborts + pub.other_aborts + pub.errors, 0, "failures announced");
    if (!good) ctx.Eq(pub.states.size(), size_t{0}, "states passed through");
    m.CheckNetwork(*p);
  });
}
// An interruption at any moment.
MC_SCENARIO(schedules, {.bound = 1, .bound_thorough = 2, .exec_limit_s = 60}) {
  mcq::Quiet();
  Setup s = Plain(1);
  s.compact = true;
  s.checkpoint = ctx.Flip("checkpoint");
  // When: never, at once, or while the request with this number is being answered.
  int when = ctx.Choose(s.checkpoint && ctx.thorough() ? 4 : 8, "interruption");
  mc::sched::Run(ctx, [&] {
    int turns = 0;
    Run(ctx, s, false, turns, [&](World& w) {
      if (when == 1) w.abort_at = mc::rt::NowNanos();
      if (when > 1) w.on_request = [&w, left = when - 2]() mutable {
        if (left-- == 0) w.abort_at = mc::rt::NowNanos();
      };
    });
  });
}
static int init = (mc::Rule("every kind of answer to every request of a session with up to two (thorough three) out-of-the-ordinary ones; boundary tensors and "
                            "moduli; all schedules of an interruption during any request within the preemption bound"),
                   mc::Assumption("the HTTP client keeps its documented contract; an operation that failed carries an error code"), 0);
