// C29: vector-search scores stay attached to their row ids.
// vp-bounds: scored answers of up to 2 (thorough 3) arbitrary row ids with any 32-bit score patterns, combined with scored or plain answers of up to 2 rows, shifted by any offset, serialized and reloaded
// vp-bounds: range-built answers start at ids where the representation changes (0, 2^16, 2^32, 2^63-2)
// vp-assume: row ids are in [0, 2^63-1] also after shifting
#include "gidx.h"
using namespace gi;
static size_t rows() { return vp_tier() ? 3 : 2; }
static void pick(const std::vector<int64_t>& ids, const Val& a, const Val& b, std::vector<float>& out) {
    for (int64_t x : ids) {
        float f = 0;
        for (size_t i = 0; i < a.ids.size(); i++)
            if (a.ids[i] == x) f = a.scored ? a.scores[i] : f;
        for (size_t i = 0; i < b.ids.size(); i++)
            if (b.ids[i] == x && b.scored) f = b.scores[i];
        out.push_back(f);
    }
}
VP_HARNESS(and_plain, 2) {
    vp_expect("end");
    Val a = make(SCORED, rows(), INT64_MAX), b = make(vp_shard() ? RANGES : LAZY, vp_shard() ? 1 : rows(), INT64_MAX);
    auto r = a.r->And(b.r);
    VP_CHECK(r.ok(), "combination succeeds");
    auto ids = conj(a, b);
    std::vector<float> s;
    pick(ids, a, b, s);
    carries(r.value(), ids, s);
    holds(r.value(), ids);
    carries(a.r, a.ids, a.scores);
    vp_reach("end");
}
VP_HARNESS(or_scored, 1) {
    vp_expect("merged");
    vp_expect("refused");
    Val a = make(SCORED, 2, INT64_MAX), b = make(SCORED, rows() - 1, INT64_MAX);
    auto r = a.r->Or(b.r);
    if (!conj(a, b).empty()) {
        VP_CHECK(!r.ok(), "two scores for one row are refused");
        vp_reach("refused");
        return;
    }
    VP_CHECK(r.ok(), "disjoint scored answers combine");
    auto ids = disj(a, b);
    std::vector<float> s;
    pick(ids, a, b, s);
    carries(r.value(), ids, s);
    holds(r.value(), ids);
    vp_reach("merged");
}
VP_HARNESS(and_scored, 1) {
    vp_expect("end");
    // an answer of two scored operands may only be scored if the score is that of the operands
    Val a = make(SCORED, 2, INT64_MAX), b = make(SCORED, 1, INT64_MAX);
    auto r = a.r->And(b.r);
    VP_CHECK(r.ok(), "combination succeeds");
    auto ids = conj(a, b);
    holds(r.value(), ids);
    if (auto s = std::dynamic_pointer_cast<VectorSearchGlobalIndexResult>(r.value())) {
        auto i = std::move(s->CreateVectorSearchIterator()).value();
        while (i->HasNext()) {
            auto p = i->NextWithScore();
            bool ok = false;
            for (size_t k = 0; k < a.ids.size(); k++) ok |= a.ids[k] == p.first && bits(a.scores[k]) == bits(p.second);
            for (size_t k = 0; k < b.ids.size(); k++) ok |= b.ids[k] == p.first && bits(b.scores[k]) == bits(p.second);
            VP_CHECK(ok, "the score comes from an operand");
        }
    }
    vp_reach("end");
}
VP_HARNESS(shift, 4) {
    vp_expect("end");
    if (vp_shard() == 3 && !vp_tier()) {
        vp_reach("end");
        return;
    }
    Val a = make(SCORED, vp_shard(), INT64_MAX);
    int64_t off = vp::any<int64_t>("offset");
    std::vector<int64_t> ids;
    for (int64_t x : a.ids) {
        VP_ASSUME(off >= 0 ? x <= INT64_MAX - off : x >= -(off + 1) + 1);
        ids.push_back(x + off);
    }
    auto r = a.r->AddOffset(off);
    VP_CHECK(r.ok(), "shifting succeeds");
    carries(r.value(), ids, a.scores);
    carries(a.r, a.ids, a.scores);
    vp_reach("end");
}
VP_HARNESS(reload, 3) {
    vp_expect("end");
    Val a = make(SCORED, vp_shard() + (vp_tier() ? 1 : 0), INT64_MAX);
    VP_ASSUME(!a.ids.empty() || vp_shard() == 0);
    auto bytes = GlobalIndexResult::Serialize(a.r, vp::pool());
    VP_CHECK(bytes.ok(), "serialization succeeds");
    auto r = GlobalIndexResult::Deserialize(bytes.value()->data(), bytes.value()->size(), vp::pool());
    VP_CHECK(r.ok(), "own bytes are readable");
    if (a.ids.empty()) holds(r.value(), a.ids);
    else carries(r.value(), a.ids, a.scores);
    vp_reach("end");
}
