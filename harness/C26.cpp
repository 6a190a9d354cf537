// C26: combining file-index answers never loses a matching row or file.
// vp-bounds: expressions of 2 (thorough 3) AND/OR nodes in every shape over answers that remain, skip, hold a row bitmap of up to 1 arbitrary row (2 with a single node or in the thorough tier; possibly empty), fail, or are a foreign implementation; any probe row
// vp-assume: row ids are non-negative; a remain answer admits every row, a skip answer none
#include "env.h"
#include "paimon/file_index/bitmap_index_result.h"
#include "paimon/file_index/file_index_result.h"
using namespace paimon;
using R = std::shared_ptr<FileIndexResult>;
// an implementation of its own, as an index plug-in would provide
class Foreign : public FileIndexResult {
 public:
    Foreign(bool r, bool f) : remain(r), fails(f) {}
    Result<bool> IsRemain() const override {
        if (fails) return Status::IOError("foreign fails");
        return remain;
    }
    std::string ToString() const override { return ""; }
    bool remain, fails;
};
struct Val {
    R r;
    bool may;      // the probe row may match
    bool exact;    // built of bitmaps only: answers for the probe row are exact
    bool some;     // may contain a match at all
    bool fails;    // some operand fails when asked
};
static Val leaf(int32_t q, int rows = 1) {
    switch (vp::choose(7, "leaf")) {
        case 0: return {FileIndexResult::Remain(), true, false, true, false};
        case 1: return {FileIndexResult::Skip(), false, false, false, false};
        case 2: {
            int n = (int)vp::choose(rows + 1, "rows");
            auto ids = std::make_shared<std::vector<int32_t>>();
            bool has = false;
            for (int i = 0; i < n; i++) {
                int32_t x = vp::any<int32_t>("row");
                VP_ASSUME(x >= 0);
                ids->push_back(x);
                has |= x == q;
            }
            return {std::make_shared<BitmapIndexResult>([ids]() -> Result<RoaringBitmap32> { return RoaringBitmap32::From(*ids); }), has, true, n > 0, false};
        }
        case 3: return {std::make_shared<BitmapIndexResult>([]() -> Result<RoaringBitmap32> { return Status::IOError("supplier fails"); }), true, true, true, true};
        case 4: return {std::make_shared<Foreign>(true, false), true, false, true, false};
        case 5: return {std::make_shared<Foreign>(false, false), false, false, false, false};
        default: return {std::make_shared<Foreign>(true, true), true, false, true, true};
    }
}
static bool s_failed;
static Val comb(const Val& a, const Val& b, bool conj) {
    auto r = conj ? a.r->And(b.r) : a.r->Or(b.r);
    Val v{nullptr, conj ? a.may && b.may : a.may || b.may, a.exact && b.exact, conj ? a.some && b.some : a.some || b.some, a.fails || b.fails};
    if (!r.ok()) {
        VP_CHECK(v.fails, "combining fails only if an operand fails");
        s_failed = true;
        return v;
    }
    v.r = r.value();
    VP_CHECK(v.r != nullptr, "a combination is an answer");
    return v;
}
static void judge(const Val& v, int32_t q) {
    auto rem = v.r->IsRemain();
    if (!rem.ok()) {
        VP_CHECK(v.fails, "asking fails only if an operand fails");
        vp_reach("failure");
        // a failing answer does not start to answer
        VP_CHECK(!v.r->IsRemain().ok(), "asking a failing answer again fails again");
        if (auto bm = std::dynamic_pointer_cast<BitmapIndexResult>(v.r)) VP_CHECK(!bm->GetBitmap().ok(), "there is no bitmap of a failing answer");
        return;
    }
    auto bm = std::dynamic_pointer_cast<BitmapIndexResult>(v.r);
    if (bm) {
        auto b = bm->GetBitmap();
        VP_CHECK(b.ok(), "the bitmap of an answer that could be asked is available");
        if (!v.fails) {
            if (v.may) VP_CHECK(b.value()->Contains(q), "a row that may match stays in");
            if (v.exact) VP_CHECK(b.value()->Contains(q) == v.may, "bitmaps combine exactly");
            VP_CHECK(rem.value() == !b.value()->IsEmpty(), "a bitmap answer remains exactly if it has rows");
        }
    } else if (v.exact && !v.fails)
        VP_CHECK(false, "bitmaps combine to a bitmap");
    if (!v.fails) {
        if (v.may) VP_CHECK(rem.value(), "an answer with a possible match remains");
        if (!v.exact && !bm) VP_CHECK(rem.value() || !v.may, "skip only if nothing can match");
        if (!v.some) VP_CHECK(!rem.value(), "nothing can match: skip");
        vp_reach("answer");
    }
    // the operands still answer the same when asked again
    auto again = v.r->IsRemain();
    VP_CHECK(again.ok() && again.value() == rem.value(), "asking twice gives the same answer");
}
VP_HARNESS(combine, 8) {
    vp_expect("answer");
    vp_expect("failure");
    s_failed = false;
    int s = vp_shard();
    int32_t q = vp::any<int32_t>("probe");
    VP_ASSUME(q >= 0);
    int rows = s < 2 || vp_tier() ? 2 : 1;
    Val a = leaf(q, rows), b = leaf(q, rows);
    Val v = comb(a, b, s & 1);
    if (s_failed) return;
    if (s < 2) {
        judge(v, q);
        // the operands are not changed by the combination
        judge(a, q);
        judge(b, q);
        return;
    }
    if (s < 4) {
        Val c = leaf(q);
        Val w = vp::choose(2, "side") ? comb(v, c, s & 2) : comb(c, v, s & 2);
        if (!s_failed) judge(w, q);
        return;
    }
    if (s < 6) {
        Val c = leaf(q);
        Val w = vp::choose(2, "side") ? comb(v, c, !(s & 1)) : comb(c, v, !(s & 1));
        if (s_failed) return;
        if (vp_tier()) {
            Val d = leaf(q);
            w = comb(w, d, vp::choose(2, "op"));
            if (s_failed) return;
        }
        judge(w, q);
        return;
    }
    // an answer combined with itself
    Val w = comb(v, v, vp::choose(2, "op"));
    if (!s_failed) judge(w, q);
}
VP_HARNESS(kinds, 1) {
    vp_expect("answer");
    vp_expect("failure");
    // the two constants are what they say, whoever asks
    VP_CHECK(FileIndexResult::Remain()->IsRemain().value() && !FileIndexResult::Skip()->IsRemain().value(), "constants");
    VP_CHECK(FileIndexResult::Remain() == FileIndexResult::Remain() && FileIndexResult::Skip() == FileIndexResult::Skip(), "constants are shared");
    int32_t q = vp::any<int32_t>("probe");
    VP_ASSUME(q >= 0);
    Val v = leaf(q, 2);
    judge(v, q);
}
