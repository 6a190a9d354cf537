// C58: binary rows and arrays hold exactly what was written, in one canonical form.
// vp-extra: src/paimon/common/data/*.cpp src/paimon/common/data/serializer/*.cpp src/paimon/common/utils/string_utils.cpp
// vp-bounds: rows of 2 nullable fields of every pair (type, string) and arrays of up to 3 elements with any value (strings and binaries of 0, 1, 7, 8, 9 or 17 bytes; wide decimals alone), written with and without spare capacity, into a fresh and a reused writer; read from one segment and from segments of 24 or 32 bytes at offsets 0 and 5; any null position in rows of 55, 57 and 121 fields
// vp-assume: little-endian machine
// vp-stubs: Arrow type descriptors are declarations only
#include "segs.h"
#include "arrow/api.h"
#include "paimon/common/data/binary_array.h"
#include "paimon/common/data/binary_array_writer.h"
#include "paimon/common/data/binary_row.h"
#include "paimon/common/data/binary_row_writer.h"
#include "paimon/common/data/serializer/binary_row_serializer.h"
#include "paimon/common/io/memory_segment_output_stream.h"
#include "paimon/io/byte_array_input_stream.h"
#include "paimon/io/data_input_stream.h"
using namespace paimon;
enum { BOOL, I8, I16, I32, I64, F32, F64, STR, BIN, TS3, TS9, DEC10, DEC38, DATE, TYPES };
struct Cell {
    bool null = false;
    int64_t i = 0;
    int32_t n = 0;
    __int128 x = 0;
    float f = 0;
    double d = 0;
    std::string s;
};
static MemoryPool* pool() { return GetDefaultPool().get(); }
static bool s_few = false;  // fewer lengths
static Cell any_cell(int t) {
    Cell c;
    c.null = vp::any_bool("null");
    if (c.null) return c;
    switch (t) {
        case BOOL: c.i = vp::any_bool("v"); break;
        case I8: c.i = vp::any<int8_t>("v"); break;
        case I16: c.i = vp::any<int16_t>("v"); break;
        case DATE:
        case I32: c.i = vp::any<int32_t>("v"); break;
        case I64:
        case TS3: c.i = vp::any<int64_t>("v"); break;
        case DEC10: c.x = vp::any<int64_t>("v"); VP_ASSUME(c.x < 10000000000ll && c.x > -10000000000ll); break;
        case F32: c.f = vp::any<float>("v"); break;
        case F64: c.d = vp::any<double>("v"); break;
        case STR:
        case BIN: {
            static const int len[] = {7, 9, 17, 0, 1, 8};
            c.s = vp::any_string(len[vp::choose(s_few ? 2 : 6, "length")], "v");
            break;
        }
        case TS9:
            c.i = vp::any<int64_t>("v");
            c.n = vp::any<int32_t>("nanos");
            VP_ASSUME(c.n >= 0 && c.n < 1000000);
            break;
        case DEC38: c.x = (__int128(vp::any<int64_t>("high")) << 64) | vp::any<uint64_t>("low"); break;
    }
    return c;
}
static bool same(int t, const Cell& a, const Cell& b) {
    if (a.null || b.null) return a.null == b.null;
    switch (t) {
        case F32: return memcmp(&a.f, &b.f, 4) == 0;
        case F64: return memcmp(&a.d, &b.d, 8) == 0;
        case STR:
        case BIN: return a.s == b.s;
        case TS9: return a.i == b.i && a.n == b.n;
        case DEC10:
        case DEC38: return a.x == b.x;
        default: return a.i == b.i;
    }
}
static std::shared_ptr<arrow::DataType> atype(int t) {
    switch (t) {
        case BOOL: return arrow::boolean();
        case I8: return arrow::int8();
        case I16: return arrow::int16();
        case I32: return arrow::int32();
        case I64: return arrow::int64();
        case F32: return arrow::float32();
        case F64: return arrow::float64();
        case STR: return arrow::utf8();
        case BIN: return arrow::binary();
        case TS3: return arrow::timestamp(arrow::TimeUnit::MILLI);
        case TS9: return arrow::timestamp(arrow::TimeUnit::NANO);
        case DEC10: return arrow::decimal128(10, 2);
        case DEC38: return arrow::decimal128(38, 2);
        default: return arrow::date32();
    }
}
static VariantType var(int t, const Cell& c, bool view) {
    if (c.null) return VariantType(NullType());
    switch (t) {
        case BOOL: return VariantType(bool(c.i));
        case I8: return VariantType(char(c.i));
        case I16: return VariantType(int16_t(c.i));
        case DATE:
        case I32: return VariantType(int32_t(c.i));
        case I64: return VariantType(int64_t(c.i));
        case F32: return VariantType(c.f);
        case F64: return VariantType(c.d);
        case STR: return view ? VariantType(std::string_view(c.s)) : VariantType(BinaryString::FromString(c.s, pool()));
        case BIN: return view ? VariantType(std::string_view(c.s)) : VariantType(std::make_shared<Bytes>(c.s, pool()));
        case TS3: return VariantType(Timestamp(c.i, 0));
        case TS9: return VariantType(Timestamp(c.i, c.n));
        case DEC10: return VariantType(Decimal(10, 2, c.x));
        default: return VariantType(Decimal(38, 2, c.x));
    }
}
template <typename R>
static Cell read(int t, const R& r, int p) {
    Cell c;
    c.null = r.IsNullAt(p);
    if (c.null) return c;
    switch (t) {
        case BOOL: c.i = r.GetBoolean(p); break;
        case I8: c.i = int8_t(r.GetByte(p)); break;
        case I16: c.i = r.GetShort(p); break;
        case I32: c.i = r.GetInt(p); break;
        case DATE: c.i = r.GetDate(p); break;
        case I64: c.i = r.GetLong(p); break;
        case F32: c.f = r.GetFloat(p); break;
        case F64: c.d = r.GetDouble(p); break;
        case STR: c.s = r.GetString(p).ToString(); break;
        case BIN: {
            auto b = r.GetBinary(p);
            c.s.assign(b->data(), b->size());
            break;
        }
        case TS3: c.i = r.GetTimestamp(p, 3).GetMillisecond(); break;
        case TS9: {
            Timestamp x = r.GetTimestamp(p, 9);
            c.i = x.GetMillisecond();
            c.n = x.GetNanoOfMillisecond();
            break;
        }
        case DEC10: c.x = r.GetDecimal(p, 10, 2).Value(); break;
        default: c.x = r.GetDecimal(p, 38, 2).Value(); break;
    }
    return c;
}
static void write(BinaryRowWriter* w, const int* t, const Cell* c, int n, bool view) {
    w->Reset();
    for (int i = 0; i < n; i++) {
        auto f = BinaryRowWriter::CreateFieldSetter(i, atype(t[i]));
        VP_CHECK(f.ok(), "every type of the format can be written");
        f.value()(var(t[i], c[i], view), w);
    }
    w->Complete();
}
static void check_row(const BinaryRow& r, const int* t, const Cell* c, int n) {
    bool any = false;
    for (int i = 0; i < n; i++) {
        VP_CHECK(same(t[i], read(t[i], r, i), c[i]), "a field reads back as written");
        any = any || c[i].null;
    }
    VP_CHECK(r.AnyNull() == any, "a null is noticed");
}
static std::vector<char> flat(const BinaryRow& r) {
    std::vector<char> b;
    for (int i = 0; i < r.GetSizeInBytes(); i++) b.push_back(MemorySegmentUtils::GetValue<char>(r.GetSegments(), r.GetOffset() + i));
    return b;
}
VP_HARNESS(rows, TYPES) {
    vp_expect("row");
    int t[2] = {vp_shard(), STR};
    int way = vp::choose(8, "way");
    bool first = way & 1, view = way & 1, reuse = way & 2, wide = !(way & 4) == !(way & 1), spare = way & 2, segments = vp::any_bool("segments");
    Cell c[2];
    c[0] = any_cell(t[0]);
    s_few = true;
    c[1] = any_cell(t[1]);
    if (first) {
        std::swap(t[0], t[1]);
        std::swap(c[0], c[1]);
    }
    BinaryRow r(2);
    BinaryRowWriter w(&r, spare ? 32 : 0, pool());
    if (reuse) {
        // a longer row before this one
        Cell o[2];
        for (int i = 0; i < 2; i++) {
            o[i].i = t[i] == BOOL ? 1 : -1;
            o[i].n = 999999;
            o[i].x = -1;
            o[i].f = 1;
            o[i].d = 1;
            o[i].s = "a longer string than";
        }
        write(&w, t, o, 2, false);
        check_row(r, t, o, 2);
    }
    write(&w, t, c, 2, view);
    check_row(r, t, c, 2);
    for (auto* k : {RowKind::Insert(), RowKind::Delete(), RowKind::UpdateAfter()}) {
        r.SetRowKind(k);
        auto g = r.GetRowKind();
        VP_CHECK(g.ok() && g.value() == k, "the row kind reads back");
    }
    r.SetRowKind(RowKind::Insert());
    check_row(r, t, c, 2);
    BinaryRow copy = r.Copy(pool());
    check_row(copy, t, c, 2);
    VP_CHECK(copy == r, "a copy equals the row");
    // the same bytes in several segments
    auto b = flat(r);
    size_t size = wide ? 32 : 24, off = wide ? 5 : 0;
    auto pl = vp::place(b, size, off, "around");
    BinaryRow m(2);
    m.PointTo(pl.segs, pl.off, int32_t(b.size()));
    check_row(m, t, c, 2);
    VP_CHECK(m == r, "the layout in memory does not matter");
    // serialized and back, from either layout
    BinaryRowSerializer ser(2, GetDefaultPool());
    MemorySegmentOutputStream out(16, GetDefaultPool());
    VP_CHECK(ser.Serialize(segments ? m : r, &out).ok(), "a row can be serialized");
    auto bytes = MemorySegmentUtils::CopyToBytes(out.Segments(), 0, out.CurrentSize(), pool());
    auto in = std::make_shared<ByteArrayInputStream>(bytes->data(), bytes->size());
    DataInputStream din(in);
    auto back = ser.Deserialize(&din);
    VP_CHECK(back.ok(), "a row can be read back");
    check_row(back.value(), t, c, 2);
    VP_CHECK(back.value() == r && din.GetPos().value() == int64_t(bytes->size()), "exactly the row is read back");
    vp_reach("row");
}
// equal content means equal bytes, also for a reused writer
VP_HARNESS(canonical, TYPES) {
    vp_expect("equal");
    vp_expect("different");
    int t[1] = {vp_shard()};
    Cell a[1] = {any_cell(t[0])}, b[1] = {any_cell(t[0])};
    BinaryRow x(1), y(1);
    BinaryRowWriter wx(&x, 0, pool()), wy(&y, 0, pool());
    if (t[0] != DEC38 && vp::any_bool("reuse")) {
        Cell o[1] = {any_cell(t[0])};
        write(&wx, t, o, 1, false);
    }
    write(&wx, t, a, 1, false);
    write(&wy, t, b, 1, true);
    bool eq = same(t[0], a[0], b[0]);
    VP_CHECK((x == y) == eq, "rows are equal exactly when their values are");
    vp_reach(eq ? "equal" : "different");
}
VP_HARNESS(wide, 3) {
    vp_expect("row");
    int n = vp_shard() == 0 ? 55 : vp_shard() == 1 ? 57 : 121;
    BinaryRow r(n);
    BinaryRowWriter w(&r, 0, pool());
    w.Reset();
    int p = vp::any<int32_t>("null position"), q = vp::any_bool("another") ? n - 2 : -1;
    VP_ASSUME(p >= -1 && p < n);
    for (int i = 0; i < n; i++) {
        if (i == p || i == q) w.SetNullAt(i);
        else w.WriteInt(i, i);
    }
    w.Complete();
    VP_CHECK(r.GetFieldCount() == n && r.GetSizeInBytes() == BinaryRow::CalculateFixPartSizeInBytes(n), "the fixed part has the declared size");
    VP_CHECK(r.AnyNull() == (p >= 0 || q >= 0), "any null is noticed");
    int probes[] = {p, p + 1, p - 1, 0, n - 1, n - 2};
    int i = int(vp_concretize(probes[vp::choose(6, "probe")]));
    VP_ASSUME(i >= 0 && i < n);
    VP_CHECK(r.IsNullAt(i) == (i == p || i == q), "exactly the null fields are null");
    if (!r.IsNullAt(i)) VP_CHECK(r.GetInt(i) == i, "other fields are kept");
    VP_CHECK(r.AnyNull({i}) == r.IsNullAt(i), "nulls among chosen fields are noticed");
    VP_CHECK(r.GetRowKind().value() == RowKind::Insert(), "nulls do not touch the row kind");
    // fields can be changed in place
    r.SetInt(i, 77);
    VP_CHECK(!r.IsNullAt(i) && r.GetInt(i) == 77, "a field set is not null");
    r.SetNullAt(i);
    VP_CHECK(r.IsNullAt(i) && r.GetLong(i) == 0, "a field can be set to null");
    vp_reach("row");
}
template <typename W>
static void put(W* w, int t, int i, const Cell& c) {
    switch (t) {
        case BOOL: w->WriteBoolean(i, c.i); break;
        case I8: w->WriteByte(i, c.i); break;
        case I16: w->WriteShort(i, c.i); break;
        case DATE:
        case I32: w->WriteInt(i, c.i); break;
        case I64: w->WriteLong(i, c.i); break;
        case F32: w->WriteFloat(i, c.f); break;
        case F64: w->WriteDouble(i, c.d); break;
        case STR: w->WriteString(i, BinaryString::FromString(c.s, pool())); break;
        case BIN: w->WriteBinary(i, *std::make_shared<Bytes>(c.s, pool())); break;
        case TS3: w->WriteTimestamp(i, Timestamp(c.i, 0), 3); break;
        case TS9: w->WriteTimestamp(i, Timestamp(c.i, c.n), 9); break;
        case DEC10: w->WriteDecimal(i, Decimal(10, 2, c.x), 10); break;
        case DEC38: w->WriteDecimal(i, Decimal(38, 2, c.x), 38); break;
    }
}
static void put_null(BinaryArrayWriter* w, int t, int i) {
    switch (t) {
        case BOOL: w->SetNullValue<bool>(i); break;
        case I8: w->SetNullValue<int8_t>(i); break;
        case I16: w->SetNullValue<int16_t>(i); break;
        case DATE:
        case I32: w->SetNullValue<int32_t>(i); break;
        case F32: w->SetNullValue<float>(i); break;
        case F64: w->SetNullValue<double>(i); break;
        case TS9: w->WriteTimestamp(i, std::nullopt, 9); break;
        case DEC38: w->WriteDecimal(i, std::nullopt, 38); break;
        default: w->SetNullAt(i); break;
    }
}
VP_HARNESS(arrays, TYPES) {
    vp_expect("array");
    int t = vp_shard(), n = 1 + vp::choose(t == DEC38 ? 1 : 3, "elements");
    static const int width[] = {1, 1, 2, 4, 8, 4, 8, 8, 8, 8, 8, 8, 8, 4};
    std::vector<Cell> c;
    bool any = false;
    for (int i = 0; i < n; i++) {
        c.push_back(any_cell(t));
        if ((t == STR || t == BIN) && n > 1) VP_ASSUME(c[i].s.size() < 9);
        any = any || c[i].null;
    }
    BinaryArray a;
    BinaryArrayWriter w(&a, n, width[t], pool());
    for (int i = 0; i < n; i++) {
        if (c[i].null) put_null(&w, t, i);
        else put(&w, t, i, c[i]);
    }
    w.Complete();
    VP_CHECK(a.Size() == n && a.AnyNull() == any, "the array has its elements");
    for (int i = 0; i < n; i++) VP_CHECK(same(t, read(t, a, i), c[i]), "an element reads back as written");
    BinaryArray d = a.Copy(pool());
    for (int i = 0; i < n; i++) VP_CHECK(same(t, read(t, d, i), c[i]), "an element of a copy reads back");
    // as a field of a row, among others
    BinaryRow r(2);
    BinaryRowWriter rw(&r, 0, pool());
    rw.Reset();
    rw.WriteString(0, BinaryString::FromString("0123456789", pool()));
    rw.WriteArray(1, a);
    rw.Complete();
    auto e = r.GetArray(1);
    VP_CHECK(e->Size() == n, "a nested array has its elements");
    for (int i = 0; i < n; i++) VP_CHECK(same(t, read(t, *e, i), c[i]), "an element of a nested array reads back");
    VP_CHECK(r.GetString(0).ToString() == "0123456789", "the field before is kept");
    // a row in a row
    BinaryRow o(2);
    BinaryRowWriter ow(&o, 0, pool());
    ow.Reset();
    ow.WriteRow(0, r);
    ow.WriteInt(1, 5);
    ow.Complete();
    auto in = o.GetRow(0, 2);
    auto f = in->GetArray(1);
    for (int i = 0; i < n; i++) VP_CHECK(same(t, read(t, *f, i), c[i]), "an element of an array in a nested row reads back");
    VP_CHECK(o.GetInt(1) == 5, "the field after is kept");
    auto whole = [&](auto res, auto get) {
        VP_CHECK(res.ok() == !any, "arrays without nulls convert");
        if (res.ok())
            for (int i = 0; i < n; i++) VP_CHECK(get(res.value()[i], c[i]), "the converted element");
    };
    switch (t) {
        case BOOL: whole(a.ToBooleanArray(), [](char v, const Cell& x) { return v == x.i; }); break;
        case I8: whole(a.ToByteArray(), [](char v, const Cell& x) { return int8_t(v) == x.i; }); break;
        case I16: whole(a.ToShortArray(), [](int16_t v, const Cell& x) { return v == x.i; }); break;
        case I32: whole(a.ToIntArray(), [](int32_t v, const Cell& x) { return v == x.i; }); break;
        case I64: whole(a.ToLongArray(), [](int64_t v, const Cell& x) { return v == x.i; }); break;
        case F32: whole(a.ToFloatArray(), [](float v, const Cell& x) { return memcmp(&v, &x.f, 4) == 0; }); break;
        case F64: whole(a.ToDoubleArray(), [](double v, const Cell& x) { return memcmp(&v, &x.d, 8) == 0; }); break;
    }
    vp_reach("array");
}
