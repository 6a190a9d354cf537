// C60: comparing rows by key is one consistent total order.
// vp-extra: src/paimon/core/utils/fields_comparator.cpp src/paimon/common/types/data_field.cpp src/paimon/common/data/*.cpp src/paimon/common/data/serializer/*.cpp
// vp-bounds: rows of 3 fields compared on 1 or 2 of them in either order, each field of every type with any value or null (strings and binaries of 0, 1, 3 bytes in one row and 0, 2, 3 in the other), ascending and descending, generic rows with copied and borrowed strings, binary rows; triples for transitivity with every value including not-a-number
// vp-assume: decimals with a scale lie between -1.28 and 1.27 (those without: any 128-bit value); positive and negative zero count as equal
// vp-stubs: Arrow type descriptors are declarations only
#include "arrow/api.h"
#include "paimon/common/data/binary_row.h"
#include "paimon/common/data/binary_row_writer.h"
#include "paimon/common/data/generic_row.h"
#include "paimon/common/types/data_field.h"
#include "paimon/core/utils/fields_comparator.h"
#include "vp.h"
using namespace paimon;
enum { BOOL, I8, I16, I32, I64, F32, F64, STR, BIN, TS3, TS9, DEC10, DEC38, DATE, TYPES };
struct Cell {
    bool null = false;
    int64_t i = 0;
    int32_t n = 0;
    __int128 x = 0;
    float f = 0;
    double d = 0;
    std::string s;
};
static MemoryPool* pool() { return GetDefaultPool().get(); }
static bool s_few = false;  // fewer lengths
static int s_len[3] = {3, 1, 0};
static Cell any_cell(int t) {
    Cell c;
    c.null = vp::any_bool("null");
    if (c.null) return c;
    switch (t) {
        case BOOL: c.i = vp::any_bool("v"); break;
        case I8: c.i = vp::any<int8_t>("v"); break;
        case I16: c.i = vp::any<int16_t>("v"); break;
        case DATE:
        case I32: c.i = vp::any<int32_t>("v"); break;
        case I64:
        case TS3: c.i = vp::any<int64_t>("v"); break;
        case DEC10: c.x = vp::any<int8_t>("v"); break;
        case F32: c.f = vp::any<float>("v"); break;
        case F64: c.d = vp::any<double>("v"); break;
        case STR:
        case BIN: {
            c.s = vp::any_string(s_len[vp::choose(s_few ? 2 : 3, "length")], "v");
            break;
        }
        case TS9:
            c.i = vp::any<int64_t>("v");
            c.n = vp::any<int32_t>("nanos");
            VP_ASSUME(c.n >= 0 && c.n < 1000000);
            break;
        case DEC38: c.x = (__int128(vp::any<int64_t>("high")) << 64) | vp::any<uint64_t>("low"); break;
    }
    return c;
}
static std::shared_ptr<arrow::DataType> atype(int t) {
    switch (t) {
        case BOOL: return arrow::boolean();
        case I8: return arrow::int8();
        case I16: return arrow::int16();
        case I32: return arrow::int32();
        case I64: return arrow::int64();
        case F32: return arrow::float32();
        case F64: return arrow::float64();
        case STR: return arrow::utf8();
        case BIN: return arrow::binary();
        case TS3: return arrow::timestamp(arrow::TimeUnit::MILLI);
        case TS9: return arrow::timestamp(arrow::TimeUnit::NANO);
        case DEC10: return arrow::decimal128(10, 2);
        case DEC38: return arrow::decimal128(38, 0);
        default: return arrow::date32();
    }
}
static VariantType var(int t, const Cell& c, bool view) {
    if (c.null) return VariantType(NullType());
    switch (t) {
        case BOOL: return VariantType(bool(c.i));
        case I8: return VariantType(char(c.i));
        case I16: return VariantType(int16_t(c.i));
        case DATE:
        case I32: return VariantType(int32_t(c.i));
        case I64: return VariantType(int64_t(c.i));
        case F32: return VariantType(c.f);
        case F64: return VariantType(c.d);
        case STR: return view ? VariantType(std::string_view(c.s)) : VariantType(BinaryString::FromString(c.s, pool()));
        case BIN: return view ? VariantType(std::string_view(c.s)) : VariantType(std::make_shared<Bytes>(c.s, pool()));
        case TS3: return VariantType(Timestamp(c.i, 0));
        case TS9: return VariantType(Timestamp(c.i, c.n));
        case DEC10: return VariantType(Decimal(10, 2, c.x));
        default: return VariantType(Decimal(38, 0, c.x));
    }
}

static int sign(int64_t x) { return x < 0 ? -1 : x > 0; }
static int order(const std::string& a, const std::string& b) {
    size_t n = a.size() < b.size() ? a.size() : b.size();
    int r = 0;
    for (size_t i = n; i-- > 0;) {
        uint8_t x = a[i], y = b[i];
        r = x < y ? -1 : x > y ? 1 : r;
    }
    if (n < a.size()) return r ? r : 1;
    if (n < b.size()) return r ? r : -1;
    return r;
}
static int ref(int t, const Cell& a, const Cell& b) {
    switch (t) {
        case F32: return a.f < b.f ? -1 : a.f > b.f;
        case F64: return a.d < b.d ? -1 : a.d > b.d;
        case STR:
        case BIN: return order(a.s, b.s);
        case TS9: return a.i < b.i ? -1 : a.i > b.i ? 1 : a.n < b.n ? -1 : a.n > b.n;
        case DEC10:
        case DEC38: return a.x < b.x ? -1 : a.x > b.x;
        default: return a.i < b.i ? -1 : a.i > b.i;
    }
}
static bool nan(int t, const Cell& a) { return !a.null && ((t == F32 && a.f != a.f) || (t == F64 && a.d != a.d)); }
static std::vector<DataField> fields(int t) { return {DataField(0, arrow::field("p", arrow::int32())), DataField(1, arrow::field("q", atype(t))), DataField(2, arrow::field("r", arrow::int64()))}; }
static GenericRow row(int t, const Cell& a, const Cell& b, bool view) {
    GenericRow r(3);
    r.SetField(0, VariantType(int32_t(7)));
    r.SetField(1, var(t, a, view));
    r.SetField(2, var(I64, b, view));
    return r;
}
static BinaryRow binary(int t, const Cell& a, const Cell& b) {
    BinaryRow r(3);
    BinaryRowWriter w(&r, 0, pool());
    w.Reset();
    w.WriteInt(0, 7);
    auto set = [&](int p, int t, const Cell& c) {
        if (c.null) {
            if (t == TS9)
                w.WriteTimestamp(p, std::nullopt, 9);
            else if (t == DEC38)
                w.WriteDecimal(p, std::nullopt, 38);
            else
                w.SetNullAt(p);
            return;
        }
        switch (t) {
            case BOOL: w.WriteBoolean(p, c.i); break;
            case I8: w.WriteByte(p, int8_t(c.i)); break;
            case I16: w.WriteShort(p, int16_t(c.i)); break;
            case DATE:
            case I32: w.WriteInt(p, int32_t(c.i)); break;
            case I64: w.WriteLong(p, c.i); break;
            case F32: w.WriteFloat(p, c.f); break;
            case F64: w.WriteDouble(p, c.d); break;
            case STR: w.WriteString(p, BinaryString::FromString(c.s, pool())); break;
            case BIN: w.WriteBinary(p, Bytes(c.s, pool())); break;
            case TS3: w.WriteTimestamp(p, Timestamp(c.i, 0), 3); break;
            case TS9: w.WriteTimestamp(p, Timestamp(c.i, c.n), 9); break;
            case DEC10: w.WriteDecimal(p, Decimal(10, 2, c.x), 10); break;
            default: w.WriteDecimal(p, Decimal(38, 0, c.x), 38); break;
        }
    };
    set(1, t, a);
    set(2, I64, b);
    w.Complete();
    return r;
}

// against the order of the values, one or two fields, either field first
VP_HARNESS(values, 14) {
    const int t = vp_shard();
    int way = vp::choose(4, "fields");
    std::vector<int32_t> sort = way == 0 ? std::vector<int32_t>{1} : way == 1 ? std::vector<int32_t>{1, 2} : way == 2 ? std::vector<int32_t>{2, 1} : std::vector<int32_t>{0, 1, 2};
    bool asc = vp::any_bool("ascending");
    int form = vp::choose(3, "form");  // copied, borrowed, binary
    Cell a1 = any_cell(t);
    s_len[1] = 2;
    Cell b1 = any_cell(t);
    VP_ASSUME(!nan(t, a1) && !nan(t, b1));
    Cell a2, b2;
    if (way) {
        a2 = any_cell(I64);
        b2 = any_cell(I64);
    }
    auto c = way == 3 ? FieldsComparator::Create(fields(t), asc, form == 1) : FieldsComparator::Create(fields(t), sort, asc, form == 1);
    VP_CHECK(c.ok(), "the comparator is available");
    int got;
    if (form == 2) {
        auto x = binary(t, a1, a2), y = binary(t, b1, b2);
        got = c.value()->CompareTo(x, y);
    } else {
        auto x = row(t, a1, a2, form == 1), y = row(t, b1, b2, form == 1);
        got = c.value()->CompareTo(x, y);
    }
    int want = 0;
    for (int f : sort) {
        if (want || !f) continue;
        const Cell &x = f == 1 ? a1 : a2, &y = f == 1 ? b1 : b2;
        if (x.null || y.null)
            want = x.null == y.null ? 0 : x.null ? -1 : 1;
        else {
            want = ref(f == 1 ? t : I64, x, y);
            want = asc ? want : -want;
        }
    }
    VP_CHECK(sign(got) == want, "rows compare as their values, field by field, nulls first");
    vp_expect("less");
    vp_expect("greater");
    if (got < 0) vp_reach("less");
    if (got > 0) vp_reach("greater");
}

// total order on all values, not-a-number included
VP_HARNESS(total, 14) {
    const int t = vp_shard() == DEC10 ? int(I64) : vp_shard();  // scaled decimals: by their values above
    s_few = true;
    bool asc = vp::any_bool("ascending");
    Cell v[3];
    for (auto& x : v) x = any_cell(t);
    auto c = FieldsComparator::Create(fields(t), {1}, asc, false);
    VP_CHECK(c.ok(), "the comparator is available");
    GenericRow r0 = row(t, v[0], Cell(), false), r1 = row(t, v[1], Cell(), false), r2 = row(t, v[2], Cell(), false);
    int c01 = c.value()->CompareTo(r0, r1), c10 = c.value()->CompareTo(r1, r0), c12 = c.value()->CompareTo(r1, r2), c02 = c.value()->CompareTo(r0, r2), c00 = c.value()->CompareTo(r0, r0);
    VP_CHECK(c00 == 0, "a row equals itself");
    VP_CHECK(sign(c01) == -sign(c10), "swapping the rows swaps the answer");
    VP_CHECK(!((c01 <= 0) & (c12 <= 0)) | (c02 <= 0), "the order is transitive");
    VP_CHECK(!((c01 == 0) & (c12 == 0)) | (c02 == 0), "equality is transitive");
    if (t != BOOL) {
        vp_expect("chain");
        if (c01 < 0 && c12 < 0) vp_reach("chain");
    }
}
