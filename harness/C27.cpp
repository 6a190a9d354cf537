// C27: index readers without a specific answer never exclude data.
// vp-bounds: lists of 0..3 literals, each equality or inequality answer remain, skip, a one-row bitmap or an error; any probe row
// vp-assume: literals are opaque (the reader under test never looks into them)
#include "env.h"
#include "paimon/file_index/bitmap_index_result.h"
#include "paimon/file_index/file_index_reader.h"
#include "paimon/file_index/file_index_result.h"
#include "paimon/predicate/literal.h"
using namespace paimon;
using R = Result<std::shared_ptr<FileIndexResult>>;
struct Ans {
    int kind;
    int32_t row;
};
static Ans s_ans[4];
static int s_asked;
static R give() {
    Ans a = s_ans[s_asked++];
    switch (a.kind) {
        case 0: return FileIndexResult::Remain();
        case 1: return FileIndexResult::Skip();
        case 2: {
            int32_t x = a.row;
            return std::static_pointer_cast<FileIndexResult>(std::make_shared<BitmapIndexResult>([x]() -> Result<RoaringBitmap32> { return RoaringBitmap32::From({x}); }));
        }
        default: return Status::IOError("lookup fails");
    }
}
class Reader : public FileIndexReader {
 public:
    R VisitEqual(const Literal&) override { return give(); }
    R VisitNotEqual(const Literal&) override { return give(); }
};
class Plain : public FileIndexReader {};
// storage that looks like n literals; their content is never read
static const std::vector<Literal>& literals(size_t n) {
    static char store[4][64];
    struct Raw { void *b, *e, *c; };
    static Raw raw;
    raw.b = store;
    raw.e = raw.c = (char*)store + n * sizeof(Literal);
    return *(std::vector<Literal>*)&raw;
}
static const Literal& literal() {
    static char store[64];
    return *(Literal*)store;
}
VP_HARNESS(lists, 8) {
    vp_expect("answer");
    if (vp_shard() >= 2) vp_expect("failure");
    int n = vp_shard() / 2;
    bool conj = vp_shard() % 2;
    int32_t q = vp::any<int32_t>("probe");
    VP_ASSUME(q >= 0);
    bool fails = false, may = conj;
    for (int i = 0; i < n; i++) {
        s_ans[i].kind = (int)vp::choose(4, "answer");
        s_ans[i].row = vp::any<int32_t>("row");
        VP_ASSUME(s_ans[i].row >= 0);
        fails |= s_ans[i].kind == 3;
        bool m = s_ans[i].kind == 0 || (s_ans[i].kind == 2 && s_ans[i].row == q);
        if (conj) may &= m;
        else may |= m;
    }
    s_asked = 0;
    Reader r;
    auto res = conj ? r.VisitNotIn(literals(n)) : r.VisitIn(literals(n));
    if (!res.ok()) {
        VP_CHECK(fails, "fails only if an answer fails");
        vp_reach("failure");
        return;
    }
    VP_CHECK(!fails, "errors of the answers propagate");
    VP_CHECK(res.value() != nullptr, "an answer is given");
    VP_CHECK(s_asked == n, "every literal is asked for once");
    auto rem = res.value()->IsRemain();
    VP_CHECK(rem.ok(), "the answer can be asked");
    if (may) VP_CHECK(rem.value(), "a possible match remains");
    if (auto bm = std::dynamic_pointer_cast<BitmapIndexResult>(res.value())) {
        VP_CHECK(!may || bm->GetBitmap().value()->Contains(q), "a row that may match stays in");
    }
    vp_reach("answer");
}
VP_HARNESS(defaults, 12) {
    vp_expect("end");
    Plain p;
    R r(FileIndexResult::Skip());
    switch (vp_shard()) {
        case 0: r = p.VisitIsNull(); break;
        case 1: r = p.VisitIsNotNull(); break;
        case 2: r = p.VisitEqual(literal()); break;
        case 3: r = p.VisitNotEqual(literal()); break;
        case 4: r = p.VisitLessThan(literal()); break;
        case 5: r = p.VisitLessOrEqual(literal()); break;
        case 6: r = p.VisitGreaterThan(literal()); break;
        case 7: r = p.VisitGreaterOrEqual(literal()); break;
        case 8: r = p.VisitStartsWith(literal()); break;
        case 9: r = p.VisitEndsWith(literal()); break;
        case 10: r = p.VisitContains(literal()); break;
        case 11: r = vp::choose(2, "which") ? p.VisitIn(literals(2)) : p.VisitNotIn(literals(2)); break;
    }
    VP_CHECK(r.ok() && r.value() && r.value()->IsRemain().value(), "no specific answer: nothing is excluded");
    vp_reach("end");
}
