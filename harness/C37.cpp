// C37: collected column statistics bound exactly the values collected.
// vp-bounds: every type except decimal: sequences of 0..3 (thorough 4) collected values, each null or arbitrary (strings of 0..2 bytes), on top of arbitrary initial statistics
// vp-assume: floating point values are not NaN; initial null counts are below 2^62
#include <optional>
#include "paimon/format/column_stats.h"
#include "vp.h"
using namespace paimon;
template <class T>
struct Gen {
    static T any(const char* n) { return vp::any<T>(n); }
};
template <>
struct Gen<bool> {
    static bool any(const char* n) { return vp::any_bool(n); }
};
template <>
struct Gen<float> {
    static float any(const char* n) {
        float f = vp::any<float>(n);
        VP_ASSUME(f == f);
        return f;
    }
};
template <>
struct Gen<double> {
    static double any(const char* n) {
        double f = vp::any<double>(n);
        VP_ASSUME(f == f);
        return f;
    }
};
template <>
struct Gen<std::string> {
    static std::string any(const char* n) { return vp::any_string(vp::choose(3, "length"), n); }
};
template <>
struct Gen<Timestamp> {
    static Timestamp any(const char* n) { return Timestamp(vp::any<int64_t>(n), vp::range<int32_t>(0, 999999, n)); }
};
template <class T>
static bool less(const T& a, const T& b) { return a < b; }
template <>
bool less(const std::string& a, const std::string& b) {
    size_t n = a.size() < b.size() ? a.size() : b.size();
    for (size_t i = 0; i < n; i++)
        if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i];
    return a.size() < b.size();
}
template <>
bool less(const Timestamp& a, const Timestamp& b) {
    return a.GetMillisecond() < b.GetMillisecond() || (a.GetMillisecond() == b.GetMillisecond() && a.GetNanoOfMillisecond() < b.GetNanoOfMillisecond());
}
template <class T>
static std::optional<T> maybe(const char* n) {
    if (vp::choose(2, "null")) return std::nullopt;
    return Gen<T>::any(n);
}
template <class S, class T, class Make>
static void run(Make make, FieldType type) {
    std::optional<T> mn = maybe<T>("initial min"), mx = maybe<T>("initial max");
    std::optional<int64_t> nulls;
    if (vp::choose(2, "initial null count")) nulls = vp::range<int64_t>(0, 1ll << 62, "null count");
    auto base = make(mn, mx, nulls);
    auto st = dynamic_cast<S*>(base.get());
    VP_CHECK(st != nullptr && base->GetFieldType() == type, "type");
    int n = (int)vp::choose(vp_tier() ? 5 : 4, "values");
    for (int i = 0; i <= n; i++) {
        // reported so far
        auto a = st->Min();
        auto b = st->Max();
        VP_CHECK(a.has_value() == mn.has_value() && b.has_value() == mx.has_value(), "present exactly if there was a value");
        if (a) VP_CHECK(!less(*a, *mn) && !less(*mn, *a), "minimum");
        if (b) VP_CHECK(!less(*b, *mx) && !less(*mx, *b), "maximum");
        VP_CHECK(st->NullCount() == nulls, "null count");
        if (i == n) break;
        std::optional<T> v = maybe<T>("value");
        st->Collect(v);
        if (!nulls) nulls = 0;
        if (!v) {
            nulls = *nulls + 1;
            continue;
        }
        if (!mn || less(*v, *mn)) mn = v;
        if (!mx || less(*mx, *v)) mx = v;
    }
    vp_reach("end");
}
VP_HARNESS(integral, 6) {
    vp_expect("end");
    switch (vp_shard()) {
        case 0: run<BooleanColumnStats, bool>(ColumnStats::CreateBooleanColumnStats, FieldType::BOOLEAN); break;
        case 1: run<TinyIntColumnStats, int8_t>(ColumnStats::CreateTinyIntColumnStats, FieldType::TINYINT); break;
        case 2: run<SmallIntColumnStats, int16_t>(ColumnStats::CreateSmallIntColumnStats, FieldType::SMALLINT); break;
        case 3: run<IntColumnStats, int32_t>(ColumnStats::CreateIntColumnStats, FieldType::INT); break;
        case 4: run<BigIntColumnStats, int64_t>(ColumnStats::CreateBigIntColumnStats, FieldType::BIGINT); break;
        default: run<DateColumnStats, int32_t>(ColumnStats::CreateDateColumnStats, FieldType::DATE);
    }
}
VP_HARNESS(floating, 2) {
    vp_expect("end");
    if (vp_shard()) run<DoubleColumnStats, double>(ColumnStats::CreateDoubleColumnStats, FieldType::DOUBLE);
    else run<FloatColumnStats, float>(ColumnStats::CreateFloatColumnStats, FieldType::FLOAT);
}
VP_HARNESS(text, 1) {
    vp_expect("end");
    run<StringColumnStats, std::string>(ColumnStats::CreateStringColumnStats, FieldType::STRING);
}
VP_HARNESS(timestamp, 1) {
    vp_expect("end");
    int32_t p = vp::any<int32_t>("precision");
    run<TimestampColumnStats, Timestamp>(
        [p](const std::optional<Timestamp>& a, const std::optional<Timestamp>& b, std::optional<int64_t> c) {
            auto r = ColumnStats::CreateTimestampColumnStats(a, b, c, p);
            VP_CHECK(dynamic_cast<TimestampColumnStats*>(r.get())->GetPrecision() == p, "precision is preserved");
            return r;
        },
        FieldType::TIMESTAMP);
}
VP_HARNESS(nested, 1) {
    vp_expect("end");
    static const FieldType t[] = {FieldType::ARRAY, FieldType::MAP, FieldType::STRUCT};
    FieldType f = t[vp::choose(3, "type")];
    std::optional<int64_t> n;
    if (vp::choose(2, "counted")) n = vp::any<int64_t>("null count");
    auto s = ColumnStats::CreateNestedColumnStats(f, n);
    VP_CHECK(s->GetFieldType() == f && s->NullCount() == n, "type and null count are preserved");
    vp_reach("end");
}
