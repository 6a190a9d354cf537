// C28: global-index answers form an exact set algebra over row ids.
// vp-bounds: AND and OR of every pairing of lazy, range-built, scored, foreign and failing answers with up to 2 arbitrary 63-bit row ids each (1 in the quick tier), one further combination of the result with a third answer; any offset that keeps the ids non-negative
// vp-bounds: every pair of subsets of 3 (thorough 4) ordered rows with arbitrary low 16 bits for lazy, scored and foreign answers
// vp-bounds: range-built answers start at ids where the representation changes (0, 2^16, 2^32, 2^63-2)
// vp-assume: row ids are in [0, 2^63-1]; foreign iterators are sorted; OR of two scored answers sharing a row is refused (C29)
#include "gidx.h"
using namespace gi;
VP_HARNESS(combine, 36) {
    int ka = vp_shard() % 6, kb = vp_shard() / 6;
    vp_expect("end");
    size_t n = vp_tier() ? 2 : ka < FAILING && kb < FAILING ? 1 : 2;
    Val a = make(ka, n, INT64_MAX), b = make(kb, n, INT64_MAX);
    bool c = vp::choose(2, "op");
    auto r = c ? a.r->And(b.r) : a.r->Or(b.r);
    vp_reach("end");
    if (!r.ok()) {
        bool shared = a.scored && b.scored && !c && !conj(a, b).empty();
        VP_CHECK(a.fails || b.fails || shared, "combining fails only if an operand fails");
        return;
    }
    VP_CHECK(r.value() != nullptr, "a combination is an answer");
    if (a.fails || b.fails) {
        refuses(r.value());
        return;
    }
    holds(r.value(), c ? conj(a, b) : disj(a, b));
    holds(a.r, a.ids);
    holds(b.r, b.ids);
    if (a.scored) carries(a.r, a.ids, a.scores);
}
// several rows on both sides: every membership pattern over ordered slots with arbitrary ids in them
VP_HARNESS(patterns, 18) {
    vp_expect("end");
    static const int ks[] = {LAZY, SCORED, FOREIGN};
    int ka = ks[vp_shard() % 3], kb = ks[vp_shard() / 3 % 3];
    bool c = vp_shard() / 9;
    const int slots = vp_tier() ? 4 : 3;
    int64_t x[4];
    // two slots share the upper bits, the others differ in them
    for (int i = 0; i < slots; i++) {
        uint16_t low = vp::any<uint16_t>("low");
        x[i] = (int64_t)low + (i < 2 ? 0 : i == 2 ? 1ll << 16 : 1ll << 32);
        if (i == 1) VP_ASSUME(x[0] < x[1]);
    }
    Val v[2];
    int kind[2] = {ka, kb};
    for (int k = 0; k < 2; k++) {
        unsigned m = vp::choose(1u << slots, "members");
        for (int i = 0; i < slots; i++)
            if (m >> i & 1) v[k].ids.push_back(x[i]);
        if (kind[k] == LAZY) v[k].r = lazy(v[k].ids);
        else if (kind[k] == FOREIGN) v[k].r = std::make_shared<Foreign>(v[k].ids);
        else {
            v[k].scored = true;
            for (size_t i = 0; i < v[k].ids.size(); i++) v[k].scores.push_back(score("score"));
            auto sc = v[k].scores;
            v[k].r = std::make_shared<BitmapVectorSearchGlobalIndexResult>(RoaringBitmap64::From(v[k].ids), std::move(sc));
        }
    }
    auto r = c ? v[0].r->And(v[1].r) : v[0].r->Or(v[1].r);
    vp_reach("end");
    if (!r.ok()) {
        VP_CHECK(v[0].scored && v[1].scored && !c && !conj(v[0], v[1]).empty(), "combining fails only for shared scored rows");
        return;
    }
    holds(r.value(), c ? conj(v[0], v[1]) : disj(v[0], v[1]));
    holds(v[0].r, v[0].ids);
    holds(v[1].r, v[1].ids);
}
VP_HARNESS(nested, 8) {
    vp_expect("end");
    // results are operands again: (a op b) op c and c op (a op b)
    static const int ks[][2] = {{LAZY, LAZY}, {LAZY, SCORED}, {SCORED, LAZY}, {RANGES, FOREIGN}};
    Val a = make(ks[vp_shard() / 2][0], 1, INT64_MAX), b = make(ks[vp_shard() / 2][1], 1, INT64_MAX);
    bool c1 = vp_shard() % 2, c2 = vp::choose(2, "op2"), left = vp::choose(2, "side");
    auto r = c1 ? a.r->And(b.r) : a.r->Or(b.r);
    VP_CHECK(r.ok(), "combination succeeds");
    Val v;
    v.r = r.value();
    v.ids = c1 ? conj(a, b) : disj(a, b);
    static const int third[] = {LAZY, SCORED, FOREIGN};
    Val d = make(third[vp::choose(3, "kind")], 1, INT64_MAX);
    auto w = left ? (c2 ? v.r->And(d.r) : v.r->Or(d.r)) : (c2 ? d.r->And(v.r) : d.r->Or(v.r));
    vp_reach("end");
    if (!w.ok()) {
        VP_CHECK(!c2 && d.scored && !conj(v, d).empty(), "combining fails only for shared scored rows");
        return;
    }
    holds(w.value(), c2 ? conj(v, d) : disj(v, d));
}
VP_HARNESS(offset, 6) {
    vp_expect("end");
    Val a = make(vp_shard(), vp_tier() ? 3 : 2, INT64_MAX);
    int64_t off = vp::any<int64_t>("offset");
    std::vector<int64_t> ids;
    for (int64_t x : a.ids) {
        VP_ASSUME(off >= 0 ? x <= INT64_MAX - off : x >= -(off + 1) + 1);
        ids.push_back(x + off);
    }
    if (vp_shard() == FOREIGN_FAILING) {
        vp_reach("end");
        return;
    }
    auto r = a.r->AddOffset(off);
    vp_reach("end");
    if (a.fails) {
        if (r.ok()) refuses(r.value());
        return;
    }
    VP_CHECK(r.ok(), "shifting succeeds");
    holds(r.value(), ids);
    holds(a.r, a.ids);
}
