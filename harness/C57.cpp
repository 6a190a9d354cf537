// C57: predicates evaluate as declared and pruning by statistics never loses a matching row.
// vp-extra: src/paimon/common/predicate/*.cpp src/paimon/common/data/*.cpp src/paimon/common/utils/string_utils.cpp
// vp-bounds: one row with any nullable value of each type (strings and binaries up to 2 bytes, thorough 3, in pruning 1 and 2; decimals of scale 0 with any unscaled value, of scale 2 with 8-bit values; floats without NaN), any literals (up to 2, thorough 3 in a list, each possibly null), any statistics that cover the row; compound predicates of up to 3 leaves over two integer fields
// vp-assume: the minimum and maximum in the statistics bound every non-null value, the null count is exact; either may be absent
// vp-stubs: Arrow arrays are plain vectors behind the Arrow interface
#include "vp.h"
#include "arrow/api.h"
#include "paimon/common/data/binary_array.h"
#include "paimon/common/data/binary_array_writer.h"
#include "paimon/common/data/generic_row.h"
#include "paimon/common/predicate/predicate_filter.h"
#include "paimon/common/predicate/predicate_utils.h"
#include "paimon/predicate/literal.h"
#include "paimon/predicate/predicate_builder.h"
using namespace paimon;
// one value of the type under test
struct Cell {
    bool null = false;
    int64_t i = 0;
    double d = 0;
    float f = 0;
    std::string s;
    int32_t n = 0;
    __int128 x = 0;
};
enum { BOOL, I8, I16, I32, I64, F32, F64, STR, BIN, TS, DEC, DEC2, DATE, TYPES };
static FieldType ftype(int t) {
    static const FieldType f[] = {FieldType::BOOLEAN, FieldType::TINYINT, FieldType::SMALLINT, FieldType::INT, FieldType::BIGINT, FieldType::FLOAT, FieldType::DOUBLE,
                                  FieldType::STRING, FieldType::BINARY, FieldType::TIMESTAMP, FieldType::DECIMAL, FieldType::DECIMAL, FieldType::DATE};
    return f[t];
}
static std::shared_ptr<arrow::DataType> atype(int t) {
    switch (t) {
        case BOOL: return arrow::boolean();
        case I8: return arrow::int8();
        case I16: return arrow::int16();
        case I32: return arrow::int32();
        case I64: return arrow::int64();
        case F32: return arrow::float32();
        case F64: return arrow::float64();
        case STR: return arrow::utf8();
        case BIN: return arrow::binary();
        case TS: return arrow::timestamp(arrow::TimeUnit::MILLI);
        case DEC: return arrow::decimal128(38, 0);
        case DEC2: return arrow::decimal128(38, 2);
        default: return arrow::date32();
    }
}
static int s_len = 3;  // lengths of strings: below this
static Cell any_cell(int t, bool nullable) {
    Cell c;
    if (nullable && vp::any_bool("null")) {
        c.null = true;
        return c;
    }
    switch (t) {
        case BOOL: c.i = vp::any_bool("v"); break;
        case I8: c.i = vp::any<int8_t>("v"); break;
        case I16: c.i = vp::any<int16_t>("v"); break;
        case DATE:
        case I32: c.i = vp::any<int32_t>("v"); break;
        case I64: c.i = vp::any<int64_t>("v"); break;
        case F32: {
            c.f = vp::any<float>("v");
            VP_ASSUME(c.f == c.f);
            break;
        }
        case F64: c.d = vp::any<double>("v"); VP_ASSUME(c.d == c.d); break;
        case STR:
        case BIN: c.s = vp::any_string(vp::choose(s_len, "length"), "v"); break;
        case TS:
            c.i = vp::any<int64_t>("v");
            c.n = vp::any<int32_t>("nanos");
            VP_ASSUME(c.n >= 0 && c.n < 1000000 && c.i > -(1ll << 62) && c.i < (1ll << 62));
            break;
        case DEC: c.x = (__int128(vp::any<int64_t>("high")) << 64) | vp::any<uint64_t>("low"); break;
        case DEC2: {
            c.x = vp::any<int8_t>("v");
            break;
        }
    }
    return c;
}
static int cmp(int t, const Cell& a, const Cell& b) {
    switch (t) {
        case F32: return a.f < b.f ? -1 : a.f > b.f;
        case F64: return a.d < b.d ? -1 : a.d > b.d;
        case STR:
        case BIN: {
            for (size_t i = 0; i < a.s.size() && i < b.s.size(); i++)
                if (a.s[i] != b.s[i]) return uint8_t(a.s[i]) < uint8_t(b.s[i]) ? -1 : 1;
            return a.s.size() < b.s.size() ? -1 : a.s.size() > b.s.size();
        }
        case TS: return a.i != b.i ? (a.i < b.i ? -1 : 1) : a.n < b.n ? -1 : a.n > b.n;
        case DEC:
        case DEC2: return a.x < b.x ? -1 : a.x > b.x;
        default: return a.i < b.i ? -1 : a.i > b.i;
    }
}
static Literal lit(int t, const Cell& c) {
    if (c.null) return Literal(ftype(t));
    switch (t) {
        case BOOL: return Literal(bool(c.i));
        case I8: return Literal(int8_t(c.i));
        case I16: return Literal(int16_t(c.i));
        case I32: return Literal(int32_t(c.i));
        case I64: return Literal(int64_t(c.i));
        case F32: return Literal(float(c.f));
        case F64: return Literal(double(c.d));
        case STR:
        case BIN: return Literal(ftype(t), c.s.data(), c.s.size());
        case TS: return Literal(Timestamp(c.i, c.n));
        case DEC: return Literal(Decimal(38, 0, c.x));
        case DEC2: return Literal(Decimal(38, 2, c.x));
        default: return Literal(FieldType::DATE, int32_t(c.i));
    }
}
static VariantType var(int t, const Cell& c) {
    if (c.null) return VariantType(NullType());
    switch (t) {
        case BOOL: return VariantType(bool(c.i));
        case I8: return VariantType(char(c.i));
        case I16: return VariantType(int16_t(c.i));
        case DATE:
        case I32: return VariantType(int32_t(c.i));
        case I64: return VariantType(int64_t(c.i));
        case F32: return VariantType(float(c.f));
        case F64: return VariantType(double(c.d));
        case STR: return VariantType(BinaryString::FromString(c.s, GetDefaultPool().get()));
        case BIN: return VariantType(std::make_shared<Bytes>(c.s, GetDefaultPool().get()));
        case TS: return VariantType(Timestamp(c.i, c.n));
        case DEC: return VariantType(Decimal(38, 0, c.x));
        default: return VariantType(Decimal(38, 2, c.x));
    }
}
static std::shared_ptr<arrow::Array> arr(int t, const std::vector<Cell>& cs) {
    std::vector<char> ok;
    for (auto& c : cs) ok.push_back(!c.null);
#define NUM(A, T, E) { std::vector<T> v; for (auto& c : cs) v.push_back(T(E)); return std::make_shared<arrow::A>(atype(t), ok, v); }
    switch (t) {
        case BOOL: NUM(BooleanArray, char, c.i)
        case I8: NUM(Int8Array, int8_t, c.i)
        case I16: NUM(Int16Array, int16_t, c.i)
        case I32: NUM(Int32Array, int32_t, c.i)
        case I64: NUM(Int64Array, int64_t, c.i)
        case F32: NUM(FloatArray, float, c.f)
        case F64: NUM(DoubleArray, double, c.d)
        case STR: NUM(StringArray, std::string, c.s)
        case BIN: NUM(BinaryArray, std::string, c.s)
        case TS: NUM(TimestampArray, int64_t, c.i)
        case DATE: NUM(Date32Array, int32_t, c.i)
        default: NUM(Decimal128Array, std::string, std::string(reinterpret_cast<const char*>(&c.x), 16))
    }
}
enum { EQ, NE, LT, LE, GT, GE, ISNULL, NOTNULL, IN, NOTIN, BETWEEN, OPS };
static std::shared_ptr<Predicate> leaf(int op, int t, int idx, const std::string& name, const std::vector<Cell>& ls) {
    FieldType f = ftype(t);
    std::vector<Literal> l;
    for (auto& c : ls) l.push_back(lit(t, c));
    switch (op) {
        case EQ: return PredicateBuilder::Equal(idx, name, f, l[0]);
        case NE: return PredicateBuilder::NotEqual(idx, name, f, l[0]);
        case LT: return PredicateBuilder::LessThan(idx, name, f, l[0]);
        case LE: return PredicateBuilder::LessOrEqual(idx, name, f, l[0]);
        case GT: return PredicateBuilder::GreaterThan(idx, name, f, l[0]);
        case GE: return PredicateBuilder::GreaterOrEqual(idx, name, f, l[0]);
        case ISNULL: return PredicateBuilder::IsNull(idx, name, f);
        case NOTNULL: return PredicateBuilder::IsNotNull(idx, name, f);
        case IN: return PredicateBuilder::In(idx, name, f, l);
        case NOTIN: return PredicateBuilder::NotIn(idx, name, f, l);
        default: return PredicateBuilder::Between(idx, name, f, l[0], l[1]);
    }
}
static bool holds(int op, int t, const Cell& v, const std::vector<Cell>& ls) {
    if (op == ISNULL) return v.null;
    if (op == NOTNULL) return !v.null;
    if (v.null) return false;
    if (op == IN || op == NOTIN) {
        for (auto& l : ls) {
            if (l.null) {
                if (op == NOTIN) return false;  // comparison with null is unknown
            } else if (cmp(t, v, l) == 0) {
                return op == IN;
            }
        }
        return op == NOTIN;
    }
    if (op == BETWEEN) return !ls[0].null && !ls[1].null && cmp(t, v, ls[0]) >= 0 && cmp(t, v, ls[1]) <= 0;
    if (ls[0].null) return false;
    int c = cmp(t, v, ls[0]);
    switch (op) {
        case EQ: return c == 0;
        case NE: return c != 0;
        case LT: return c < 0;
        case LE: return c <= 0;
        case GT: return c > 0;
        default: return c >= 0;
    }
}
static std::vector<Cell> any_literals(int op, int t) {
    int n = op == ISNULL || op == NOTNULL ? 0 : op == BETWEEN ? 2 : op == IN || op == NOTIN ? vp::choose(vp_tier() ? 4 : 3, "literals") : 1;
    std::vector<Cell> r;
    for (int i = 0; i < n; i++) r.push_back(any_cell(t, true));
    return r;
}
static std::shared_ptr<arrow::Schema> schema_of(int t, int n) {
    arrow::FieldVector f;
    for (int i = 0; i < n; i++) f.push_back(arrow::field(i ? "b" : "a", atype(t)));
    return arrow::schema(f);
}
// any statistics of a set of rows that contains this value
struct Stats {
    Cell min, max;
    bool known;
    int64_t nulls;
};
static Stats any_stats(int t, const Cell& v, int64_t rows) {
    Stats s;
    s.known = vp::any_bool("null count known");
    s.nulls = vp::any<int64_t>("null count");
    VP_ASSUME(s.nulls >= 0 && s.nulls <= rows);
    if (v.null) {
        VP_ASSUME(s.nulls > 0);
    } else {
        VP_ASSUME(s.nulls < rows);
    }
    s.min = any_cell(t, true);
    s.max = any_cell(t, true);
    if (s.nulls == rows) VP_ASSUME(s.min.null && s.max.null);
    if (!s.min.null && !s.max.null) VP_ASSUME(cmp(t, s.min, s.max) <= 0);
    if (!v.null) {
        if (!s.min.null) VP_ASSUME(cmp(t, s.min, v) <= 0);
        if (!s.max.null) VP_ASSUME(cmp(t, v, s.max) <= 0);
    }
    return s;
}
static BinaryArray counts(const std::vector<Stats>& st) {
    BinaryArray a;
    BinaryArrayWriter w(&a, st.size(), sizeof(int64_t), GetDefaultPool().get());
    for (size_t i = 0; i < st.size(); i++) {
        if (st[i].known) w.WriteLong(i, st[i].nulls);
        else w.SetNullValue<int64_t>(i);
    }
    w.Complete();
    return a;
}
VP_HARNESS(rows, TYPES) {
    vp_expect("matches");
    if (vp_tier()) s_len = 4;
    vp_expect("does not match");
    int t = vp_shard();
    int op = t == DEC2 ? (vp::any_bool("operator") ? EQ : LT) : vp::choose(OPS, "operator");
    Cell v = any_cell(t, true);
    auto ls = any_literals(op, t);
    auto p = leaf(op, t, 0, "a", ls);
    auto f = std::dynamic_pointer_cast<PredicateFilter>(p);
    VP_CHECK(f != nullptr, "a predicate can be evaluated");
    bool want = holds(op, t, v, ls);
    GenericRow r(1);
    r.SetField(0, var(t, v));
    auto got = f->Test(schema_of(t, 1), r);
    VP_CHECK(got.ok(), "a predicate over a value of its type can be evaluated");
    VP_CHECK(got.value() == want, "the predicate holds exactly for the rows it describes");
    vp_reach(want ? "matches" : "does not match");
    if (t == DEC2) return;
    // the same rows in columns; columns of timestamps in milliseconds
    std::vector<Cell> col = {v, Cell()};
    col[1].null = true;
    if (t == TS) {
        col[0].n = 0;
        want = holds(op, t, col[0], ls);
    }
    auto c = arr(t, col);
    arrow::StructArray sa(arrow::struct_({arrow::field("a", atype(t))}), {1, 1}, {c});
    auto many = f->Test(sa);
    VP_CHECK(many.ok() && many.value().size() == 2, "a predicate over columns can be evaluated");
    VP_CHECK(bool(many.value()[0]) == want && bool(many.value()[1]) == (op == ISNULL), "columns give the same answer as rows");
}
VP_HARNESS(pruning, TYPES) {
    vp_expect("kept");
    if (!vp_tier()) s_len = 2;
    vp_expect("skipped");
    int t = vp_shard();
    int op = t == DEC2 ? (vp::any_bool("operator") ? EQ : LT) : vp::choose(OPS, "operator");
    Cell v = any_cell(t, true);
    auto ls = any_literals(op, t);
    int64_t rows = vp::any<int64_t>("rows");
    VP_ASSUME(rows >= 1);
    Stats s = any_stats(t, v, rows);
    auto f = std::dynamic_pointer_cast<PredicateFilter>(leaf(op, t, 0, "a", ls));
    GenericRow lo(1), hi(1);
    lo.SetField(0, var(t, s.min));
    hi.SetField(0, var(t, s.max));
    BinaryArray nc = counts({s});
    auto got = f->Test(schema_of(t, 1), rows, lo, hi, nc);
    VP_CHECK(got.ok(), "statistics of the right type can be tested");
    if (!got.value()) VP_CHECK(!holds(op, t, v, ls), "a file that holds a matching row is not skipped");
    vp_reach(got.value() ? "kept" : "skipped");
}
// conjunctions and disjunctions, their negation and their restriction to some fields
struct Node {
    int op, field;
    std::vector<Cell> ls;
};
static Node any_node(int i) {
    static const int ops[] = {EQ, LT, ISNULL, NE, GE, NOTNULL};
    Node n;
    n.op = ops[vp::choose(vp_tier() ? 6 : 3, "operator")];
    n.field = i == 2 ? vp::choose(2, "field") : i;
    if (n.op != ISNULL && n.op != NOTNULL) n.ls.push_back(any_cell(I32, false));
    return n;
}
VP_HARNESS(compound, 24) {
    vp_expect("evaluated");
    int shape = vp_shard() % 6, what = vp_shard() / 6;
    std::vector<Node> ns;
    int n = 3;
    for (int i = 0; i < n; i++) ns.push_back(any_node(i));
    static const char* names[] = {"a", "b"};
    std::vector<std::shared_ptr<Predicate>> ps;
    for (auto& x : ns) ps.push_back(leaf(x.op, I32, x.field, names[x.field], x.ls));
    Cell v[2] = {any_cell(I32, true), any_cell(I32, true)};
    bool b[3];
    for (int i = 0; i < n; i++) b[i] = holds(ns[i].op, I32, v[ns[i].field], ns[i].ls);
    std::shared_ptr<Predicate> p;
    bool want = false;
    auto all = [](std::vector<std::shared_ptr<Predicate>> x) { return PredicateBuilder::And(x).value(); };
    auto any = [](std::vector<std::shared_ptr<Predicate>> x) { return PredicateBuilder::Or(x).value(); };
    switch (shape) {
        case 0: p = all({ps[0], ps[1], ps[2]}); want = b[0] && b[1] && b[2]; break;
        case 1: p = any({ps[0], ps[1], ps[2]}); want = b[0] || b[1] || b[2]; break;
        case 2: p = all({ps[0], any({ps[1], ps[2]})}); want = b[0] && (b[1] || b[2]); break;
        case 3: p = any({all({ps[0], ps[1]}), ps[2]}); want = (b[0] && b[1]) || b[2]; break;
        case 4: p = all({all({ps[0], ps[1]}), ps[2]}); want = b[0] && b[1] && b[2]; break;
        case 5: p = any({any({ps[0], ps[1]}), ps[2]}); want = b[0] || b[1] || b[2]; break;
    }
    auto sch = schema_of(I32, 2);
    GenericRow r(2);
    for (int i = 0; i < 2; i++) r.SetField(i, var(I32, v[i]));
    auto test = [&](const std::shared_ptr<Predicate>& q, const InternalRow& row) {
        auto x = std::dynamic_pointer_cast<PredicateFilter>(q)->Test(sch, row);
        VP_CHECK(x.ok(), "a predicate over values of its types can be evaluated");
        return x.value();
    };
    VP_CHECK(test(p, r) == want, "the combination holds exactly as its parts say");
    if (what == 0) {
        auto neg = p->Negate();
        if (neg) {
            bool got = test(neg, r);
            VP_CHECK(!(got && want), "a predicate and its negation do not both hold");
            if (!v[0].null && !v[1].null) VP_CHECK(got == !want, "the negation holds for the other rows");
        }
    } else if (what == 1) {
        Stats s[2];
        int64_t rows = vp::any<int64_t>("rows");
        VP_ASSUME(rows >= 1);
        GenericRow lo(2), hi(2);
        for (int i = 0; i < 2; i++) {
            s[i] = any_stats(I32, v[i], rows);
            lo.SetField(i, var(I32, s[i].min));
            hi.SetField(i, var(I32, s[i].max));
        }
        BinaryArray nc = counts({s[0], s[1]});
        auto got = std::dynamic_pointer_cast<PredicateFilter>(p)->Test(sch, rows, lo, hi, nc);
        VP_CHECK(got.ok(), "statistics of the right type can be tested");
        if (want) VP_CHECK(got.value(), "a file that holds a matching row is not skipped");
    } else if (what == 2) {
        // only some fields are read, at other places
        int which = vp::choose(3, "picked");
        std::map<std::string, int32_t> m;
        GenericRow q(2);
        if (which == 0) m["a"] = 0, q.SetField(0, var(I32, v[0]));
        if (which == 1) m["b"] = 0, q.SetField(0, var(I32, v[1]));
        if (which == 2) m["a"] = 1, m["b"] = 0, q.SetField(1, var(I32, v[0])), q.SetField(0, var(I32, v[1]));
        auto got = PredicateUtils::CreatePickedFieldFilter(p, m);
        VP_CHECK(got.ok(), "a filter over some fields");
        bool ans = got.value() ? test(got.value(), q) : true;
        if (want) VP_CHECK(ans, "a filter restricted to some fields keeps every matching row");
        if (which == 2) VP_CHECK(got.value() && ans == want, "a filter over all fields is the same filter");
    } else {
        int which = vp::choose(2, "excluded");
        auto got = PredicateUtils::ExcludePredicateWithFields(p, {names[which]});
        VP_CHECK(got.ok(), "a filter without a field");
        if (got.value()) {
            VP_CHECK(!PredicateUtils::ContainAnyField(got.value(), {names[which]}).value(), "the field is not mentioned any more");
            if (want) VP_CHECK(test(got.value(), r), "leaving out a field keeps every matching row");
        }
        if (shape == 0 || shape == 4) {
            bool rest = true, some = false;
            for (int i = 0; i < 3; i++)
                if (ns[i].field != which) rest = rest && b[i], some = true;
            VP_CHECK(bool(got.value()) == some && (!some || test(got.value(), r) == rest), "only conditions on the field are left out");
        }
    }
    vp_reach("evaluated");
}
