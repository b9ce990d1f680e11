// C38: dictionaries map tokens and ids as inverse functions.
#include "common/mc.h"
#include "absl/log/absl_log.h"
#include "fcp/dictionary/dictionary.h"
#include "fcp/dictionary/dictionary.pb.h"

#include <algorithm>
#include <climits>

using fcp::dictionary::Dictionary;
using fcp::dictionary::DictionaryDescription;
namespace {
const std::vector<std::string> kAlphabet = {"a", "b", "ab", "A", std::string("\0", 1), std::string("a\0b", 3), "\xc3\xa9", " "};

// What the description says, kept independently of the library.
struct Ref {
  std::vector<std::string> tokens;
  int unk = -1, bos = -1, eos = -1;
  std::vector<int> blocked;
  int first() const { return std::max({unk, bos, eos, -1}) + 1; }
};

void CheckAll(mc::Ctx& ctx, const Ref& r, const Dictionary& d) {
  const int n = r.tokens.size();
  ctx.Eq(d.Size(), n + r.first(), "size");
  for (int i = 0; i < n; ++i) {
    ctx.Eq(d.TokenToId(r.tokens[i]), r.first() + i, "id of token " + mc::Hex(r.tokens[i]));
    ctx.Eq(mc::Hex(d.IdToToken(r.first() + i)), mc::Hex(r.tokens[i]), "token of id");
  }
  // Everything else is unknown.
  std::vector<std::string> others = kAlphabet;
  for (const auto& t : kAlphabet) others.push_back(t + "a");
  others.push_back("");
  others.push_back("zz");
  for (const auto& t : r.tokens) {
    others.push_back(t.substr(0, t.size() - 1));
    others.push_back(t + std::string(1, '\0'));
  }
  for (const auto& t : others) {
    if (std::find(r.tokens.begin(), r.tokens.end(), t) != r.tokens.end()) continue;
    ctx.Eq(d.TokenToId(t), r.unk, "id of a token that is not in the vocabulary, " + mc::Hex(t));
  }
  std::vector<int> ids = {INT_MIN + 20, -2, -1, INT_MAX, INT_MAX - 1, 1 << 30};
  for (int i = 0; i < r.first(); ++i) ids.push_back(i);
  for (int i = 0; i < 4; ++i) ids.push_back(r.first() + n + i);
  for (int id : ids) ctx.Eq(mc::Hex(d.IdToToken(id)), "", "token of id " + std::to_string(id) + " outside the vocabulary");
  for (int id = 0; id < r.first() + n + 3; ++id) ctx.Eq(d.IsSpecialId(id), id < r.first(), "special id " + std::to_string(id));
  ctx.Eq(d.IsSpecialId(INT_MAX), false, "special id at the top");
  std::vector<int> want;
  for (int i = 0; i < r.first(); ++i) want.push_back(i);
  want.insert(want.end(), r.blocked.begin(), r.blocked.end());
  ctx.Check(d.GetSortedOutputBlocklistIds() == want, "ids kept out of predictions");
  ctx.Eq(d.GetSpecialIds().unk(), r.unk, "unk");
  ctx.Eq(d.GetSpecialIds().bos(), r.bos, "bos");
  ctx.Eq(d.GetSpecialIds().eos(), r.eos, "eos");
  ctx.Steps(2 * n + others.size() + ids.size());
}

// All ordered vocabularies of distinct tokens over the alphabet, all special-id
// settings, all short lists of blocked ids.
void Build(mc::Ctx& ctx, int max_tokens, int max_special, bool block) {
  Ref r;
  DictionaryDescription desc;
  std::vector<std::string> left = kAlphabet;
  desc.mutable_vocabulary()->mutable_index();
  for (int i = 0; i < max_tokens; ++i) {
    int k = ctx.Choose(left.size() + 1, "token");
    if (k == 0) break;
    r.tokens.push_back(left[k - 1]);
    left.erase(left.begin() + k - 1);
  }
  for (const auto& t : r.tokens) desc.mutable_vocabulary()->mutable_index()->add_token(t);
  int* slot[3] = {&r.unk, &r.bos, &r.eos};
  for (int i = 0; i < 3; ++i) *slot[i] = ctx.Choose(max_special + 2, "special") - 1;
  auto* s = desc.mutable_special_ids();
  if (r.unk >= 0) s->set_unk(r.unk);
  if (r.bos >= 0) s->set_bos(r.bos);
  if (r.eos >= 0) s->set_eos(r.eos);
  bool good = true;
  if (r.first() == 0 && ctx.Flip("no special ids message")) desc.clear_special_ids();
  if (block) {
    int prev = -1;
    int m = ctx.Choose(4, "blocked count");
    for (int i = 0; i < m; ++i) {
      int id = ctx.Choose(5, "blocked id") + (i == 0 ? 0 : 0);
      if (id < r.first() || (i > 0 && id <= prev)) good = false;
      prev = id;
      r.blocked.push_back(id);
      desc.mutable_output_blocklist_ids()->add_id(id);
    }
  }
  auto d = Dictionary::Create(desc);
  ctx.Eq(d.ok(), good, "dictionary accepted");
  ctx.Step("create " + desc.ShortDebugString());
  if (!good) {
    ctx.Check(d.status().code() == absl::StatusCode::kInvalidArgument, "wrong kind of error");
    ctx.Outcome("refused");
    return;
  }
  CheckAll(ctx, r, **d);
  ctx.Outcome(std::to_string((*d)->Size()));
}
}  // namespace

MC_SCENARIO(vocabularies, {}) { Build(ctx, ctx.thorough() ? 4 : 3, ctx.thorough() ? 2 : 1, false); }
MC_SCENARIO(specials_and_blocklists, {}) { Build(ctx, 1, ctx.thorough() ? 4 : 3, true); }
MC_SCENARIO(large, {}) {
  // Sizes around powers of two: the hash table grows and keeps everything.
  int n = ctx.Choose(ctx.thorough() ? 600 : 140, "tokens");
  Ref r;
  r.unk = ctx.Choose(2, "unk") - 1;
  DictionaryDescription desc;
  desc.mutable_vocabulary()->mutable_index();
  for (int i = 0; i < n; ++i) {
    r.tokens.push_back("t" + std::to_string(i * 7919 % 1009) + "_" + std::to_string(i));
    desc.mutable_vocabulary()->mutable_index()->add_token(r.tokens.back());
  }
  if (r.unk >= 0) desc.mutable_special_ids()->set_unk(r.unk);
  auto d = Dictionary::Create(desc);
  ctx.Check(d.ok(), "refused");
  // The dictionary does not depend on the description staying alive.
  desc.Clear();
  CheckAll(ctx, r, **d);
}
MC_SCENARIO(incomplete, {}) {
  DictionaryDescription desc;
  int k = ctx.Choose(2, "how");
  if (k == 1) desc.mutable_vocabulary();
  if (ctx.Flip("specials")) desc.mutable_special_ids()->set_unk(0);
  auto d = Dictionary::Create(desc);
  ctx.Check(!d.ok() && d.status().code() == absl::StatusCode::kInvalidArgument, "a description without vocabulary was accepted");
}
static int init = (mc::Rule("all ordered vocabularies of distinct non-empty tokens over an alphabet of eight (with zero bytes, prefixes and UTF-8), all "
                            "settings of the special ids, all blocked-id lists up to three, and every vocabulary size up to the bound; every lookup by token "
                            "and id, in and out of range, against plain list positions"),
                   mc::Assumption("tokens are distinct and non-empty, and special ids are unset or non-negative, as the format requires"), 0);
