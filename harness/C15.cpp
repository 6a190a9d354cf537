// C15: the bit-sliced index answers every comparison predicate exactly.
// vp-bounds: 3 (thorough 4) rows at row ids 0..3, 65535, 65536 or 2^31-1, values min..min+7 (thorough min+15) or null, any declared minimum and maximum (non-negative 64-bit, at most 7 resp. 15 apart), any 64-bit probe; wide domains up to 2^63-1 with values at powers of two
#include <algorithm>
#include "env.h"
#include "paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.h"
#include "paimon/io/byte_array_input_stream.h"
using namespace paimon;
using BSI = BitSliceIndexRoaringBitmap;
static const int32_t kRid[][4] = {{0, 1, 2, 3}, {0, 65535, 65536, 2147483647}};
struct Row {
    bool null;
    int64_t v;
};
static void same(const Result<RoaringBitmap32>& r, const std::vector<Row>& rows, const int32_t* rid, int op, int64_t lit, const char* msg) {
    VP_CHECK(r.ok(), "query succeeds");
    int64_t n = 0;
    for (size_t i = 0; i < rows.size(); i++) {
        int64_t v = rows[i].v;
        bool want = !rows[i].null && (op == 0 ? v == lit : op == 1 ? v < lit : op == 2 ? v <= lit : op == 3 ? v > lit : op == 4 ? v >= lit : true);
        VP_CHECK(r.value().Contains(rid[i]) == want, msg);
        n += want;
    }
    VP_CHECK(r.value().Cardinality() == n, "no other row is returned");
}
static void queries(const BSI& b, const std::vector<Row>& rows, const int32_t* rid, int64_t lit, int op) {
    switch (op) {
        case 0: same(b.Equal(lit), rows, rid, 0, lit, "equal"); break;
        case 1: same(b.LessThan(lit), rows, rid, 1, lit, "less than"); break;
        case 2: same(b.LessOrEqual(lit), rows, rid, 2, lit, "less or equal"); break;
        case 3: same(b.GreaterThan(lit), rows, rid, 3, lit, "greater than"); break;
        case 4: same(b.GreaterOrEqual(lit), rows, rid, 4, lit, "greater or equal"); break;
        case 5: same(RoaringBitmap32(b.IsNotNull()), rows, rid, 5, lit, "not null"); break;
    }
}
static void body(int op, int64_t min, int64_t width, size_t R, const int32_t* rid, int64_t lit, bool reload) {
    auto a = BSI::Appender::Create(min, min + width);
    VP_CHECK(a.ok(), "declared domain is accepted");
    auto app = std::move(a).value();
    std::vector<Row> rows;
    bool any = false;
    for (size_t i = 0; i < R; i++) {
        Row r{vp::choose(2, "null") == 1, 0};
        if (!r.null) {
            int64_t d = (int64_t)vp::choose((size_t)width + 1, "value");
            r.v = min + d;
            VP_CHECK(app->Append(rid[i], r.v).ok(), "value of the domain is accepted");
            any = true;
        }
        rows.push_back(r);
    }
    VP_CHECK(app->IsNotEmpty() == any, "emptiness");
    auto b = app->Build();
    if (reload) {
        auto bytes = app->Serialize(vp::pool());
        auto in = std::make_shared<ByteArrayInputStream>(bytes->data(), bytes->size());
        auto c = BSI::Create(in);
        VP_CHECK(c.ok(), "serialized index is readable");
        VP_CHECK(*c.value() == *b, "reloaded index equals the original");
        b = c.value();
    }
    queries(*b, rows, rid, lit, op);
    vp_reach("end");
}
VP_HARNESS(queries_exact, 12) {
    vp_expect("end");
    int op = vp_shard() % 6;
    const int32_t* rid = kRid[vp_shard() / 6];
    int64_t min = vp::any<int64_t>("min");
    int64_t mw = vp_tier() ? 15 : 7;
    int64_t width = (int64_t)vp::choose((size_t)mw + 1, "width");
    VP_ASSUME(min >= 0 && min <= INT64_MAX - width);
    int64_t lit = vp::any<int64_t>("probe");
    // outside of the domain the probe is decided by the minimum and maximum alone
    body(op, min, width, vp_tier() ? 3 : 2, rid, lit, false);
}
VP_HARNESS(queries_more_rows, 6) {
    vp_expect("end");
    int64_t min = vp::any<int64_t>("min"), lit = vp::any<int64_t>("probe");
    int64_t width = (int64_t)vp::choose(4, "width");
    VP_ASSUME(min >= 0 && min <= INT64_MAX - width);
    body(vp_shard(), min, width, vp_tier() ? 4 : 3, kRid[1], lit, false);
}
VP_HARNESS(queries_after_reload, 6) {
    vp_expect("end");
    int64_t min = vp_tier() ? vp::any<int64_t>("min") : 5, lit = vp::any<int64_t>("probe");
    int64_t width = (int64_t)vp::choose(4, "width");
    VP_ASSUME(min >= 0 && min <= INT64_MAX - width);
    body(vp_shard(), min, width, 2, kRid[vp::choose(2, "row ids")], lit, true);
}
// values and probes around powers of two of a wide domain
VP_HARNESS(wide_domain, 6) {
    vp_expect("end");
    static const int bits[] = {0, 8, 31, 32, 62};
    int64_t a = 1ll << bits[vp::choose(5, "bit")];
    int64_t min = vp::choose(2, "min") ? 1 : 0, max = vp::choose(2, "max") ? INT64_MAX : INT64_MAX / 2 + 1;
    auto ap = BSI::Appender::Create(min, max);
    VP_CHECK(ap.ok(), "domain accepted");
    auto app = std::move(ap).value();
    std::vector<Row> rows;
    for (int i = 0; i < 3; i++) rows.push_back(Row{false, std::clamp(a + i - 1, min, max)});
    for (int i = 0; i < 3; i++) VP_CHECK(app->Append(kRid[1][i], rows[i].v).ok(), "value accepted");
    int64_t lit = (1ll << bits[vp::choose(5, "probe bit")]) + (int64_t)vp::choose(3, "delta") - 1;
    queries(*app->Build(), rows, kRid[1], lit, vp_shard());
    vp_reach("end");
}
VP_HARNESS(refused, 1) {
    vp_expect("domain");
    vp_expect("value");
    int64_t min = vp::any<int64_t>("min"), max = vp::any<int64_t>("max");
    VP_ASSUME(min < 0 || max < min || max - min < 8);
    auto a = BSI::Appender::Create(min, max);
    VP_CHECK(a.ok() == (min >= 0 && min <= max), "only ordered non-negative domains are accepted");
    if (!a.ok()) {
        vp_reach("domain");
        return;
    }
    int64_t v = vp::any<int64_t>("value");
    VP_CHECK(a.value()->Append(1, v).ok() == (v >= min && v <= max), "only values of the domain are accepted");
    if (v < min || v > max) {
        VP_CHECK(!a.value()->IsNotEmpty(), "a refused value leaves no trace");
        vp_reach("value");
        return;
    }
    VP_CHECK(!a.value()->Append(1, v).ok(), "a row is indexed once");
}
