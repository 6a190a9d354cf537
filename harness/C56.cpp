// C56: aggregation and partial update compute the declared result from all versions of a key.
// vp-extra: src/paimon/core/mergetree/compact/aggregate/aggregate_merge_function.cpp src/paimon/core/mergetree/compact/aggregate/field_sum_agg.cpp src/paimon/core/mergetree/compact/partial_update_merge_function.cpp src/paimon/core/core_options.cpp src/paimon/core/utils/fields_comparator.cpp src/paimon/common/types/data_field.cpp src/paimon/common/data/internal_row.cpp src/paimon/common/options/memory_size.cpp src/paimon/common/options/time_duration.cpp src/paimon/common/utils/path_util.cpp src/paimon/common/utils/string_utils.cpp src/paimon/common/fs/resolving_file_system.cpp src/paimon/common/fs/file_system_factory.cpp src/paimon/common/fs/file_system.cpp src/paimon/common/format/file_format_factory.cpp src/paimon/common/defs.cpp src/paimon/core/utils/branch_manager.cpp src/paimon/core/schema/table_schema.cpp
// vp-bounds: up to 3 (thorough 4) versions of a key of any row kind with any nullable 32-bit (or boolean) values, after a preceding key; each aggregation function with and without ignored retractions; one sequence group before or after the field it governs
// vp-assume: integer sums wrap around
// vp-stubs: Arrow type descriptors are declarations only; a file format that does nothing
#include "opts.h"
#include "paimon/common/data/generic_row.h"
#include "paimon/common/types/data_field.h"
#include "paimon/core/mergetree/compact/aggregate/aggregate_merge_function.h"
#include "paimon/core/mergetree/compact/partial_update_merge_function.h"
using namespace paimon;
using Val = std::optional<int32_t>;
struct Rec {
    Val a, b, s;
    bool retract;
    bool before;  // update-before/after rather than delete/insert
    int64_t seq;
};
static const RowKind* kind_of(const Rec& r) {
    return r.retract ? (r.before ? RowKind::UpdateBefore() : RowKind::Delete()) : (r.before ? RowKind::UpdateAfter() : RowKind::Insert());
}
static VariantType var(Val v, bool boolean) {
    if (!v) return VariantType(NullType());
    if (boolean) return VariantType(*v != 0);
    return VariantType(*v);
}
static Val any_val(const char* n, bool boolean) {
    if (vp::any_bool("null")) return std::nullopt;
    if (boolean) return vp::any_bool(n) ? 1 : 0;
    return vp::any<int32_t>(n);
}
static std::shared_ptr<arrow::Schema> schema(const std::vector<std::string>& names, bool boolean) {
    std::vector<DataField> f;
    for (size_t i = 0; i < names.size(); i++) f.push_back(DataField(i, arrow::field(names[i], boolean && names[i] == "a" ? arrow::boolean() : arrow::int32())));
    return DataField::ConvertDataFieldsToArrowSchema(f);
}
static KeyValue kv(const Rec& r, std::vector<VariantType> fields) {
    auto k = GenericRow::Of({VariantType(int32_t(7))});
    auto v = GenericRow::Of(fields);
    return KeyValue(kind_of(r), r.seq, 0, std::move(k), std::move(v));
}
static Val read(const InternalRow& r, int i, bool boolean) {
    if (r.IsNullAt(i)) return std::nullopt;
    return boolean ? (r.GetBoolean(i) ? 1 : 0) : r.GetInt(i);
}
static const char* const s_aggs[] = {"sum", "max", "min", "last_value", "last_non_null_value", "first_value", "first_non_null_value", "bool_or", "bool_and"};
VP_HARNESS(aggregates, 9) {
    vp_expect("aggregated");
    int f = vp_shard();
    bool boolean = f >= 7, ignore = vp::any_bool("ignore retractions");
    std::map<std::string, std::string> m = {{"fields.a.aggregate-function", s_aggs[f]}};
    if (ignore) m["fields.a.ignore-retract"] = "true";
    CoreOptions o = opts::make(m);
    auto fn = AggregateMergeFunction::Create(schema({"k", "a"}, boolean), {"k"}, o);
    VP_CHECK(fn.ok(), "the function is available");
    auto& mf = *fn.value();
    // a preceding key must leave nothing behind
    Rec x{};
    x.a = 1;
    x.seq = 1;
    mf.Reset();
    VP_CHECK(mf.Add(kv(x, {VariantType(int32_t(7)), var(x.a, boolean)})).ok(), "a record is accepted");
    VP_CHECK(mf.GetResult().ok(), "there is a result");
    mf.Reset();
    int n = 1 + vp::choose(vp_tier() ? 4 : 3, "versions");
    Val want;
    bool seen = false, refused = false;
    for (int i = 0; i < n; i++) {
        Rec r{};
        r.a = any_val("value", boolean);
        r.retract = vp::any_bool("retract");
        r.before = vp::any_bool("update");
        r.seq = 10 + i;
        Status st = mf.Add(kv(r, {VariantType(int32_t(7)), var(r.a, boolean)}));
        if (r.retract && !ignore) {
            if (f == 0) {
                if (r.a) want = int32_t(uint32_t(want.value_or(0)) - uint32_t(*r.a));
            } else if (f == 3) {
                want = std::nullopt;
            } else if (f == 4) {
                if (r.a) want = std::nullopt;
            } else {
                refused = true;
            }
        } else if (!r.retract) {
            switch (f) {
                case 0: if (r.a) want = int32_t(uint32_t(want.value_or(0)) + uint32_t(*r.a)); break;
                case 1: if (r.a && (!want || *want < *r.a)) want = r.a; break;
                case 2: if (r.a && (!want || *want > *r.a)) want = r.a; break;
                case 3: want = r.a; break;
                case 4: if (r.a) want = r.a; break;
                case 5: if (!seen) want = r.a; seen = true; break;
                case 6: if (!want) want = r.a; break;
                case 7: if (r.a) want = want.value_or(0) | *r.a; break;
                case 8: if (r.a) want = want.value_or(1) & *r.a; break;
            }
        }
        VP_CHECK(st.ok() == !refused, "exactly unsupported retractions are refused");
        if (refused) return;
    }
    auto res = mf.GetResult();
    VP_CHECK(res.ok() && res.value(), "there is a result");
    const KeyValue& out = *res.value();
    VP_CHECK(out.sequence_number == 10 + n - 1 && out.key->GetInt(0) == 7 && out.value->GetInt(0) == 7, "the result belongs to the key and its last version");
    VP_CHECK(out.value_kind == RowKind::Insert(), "an aggregate is a row");
    VP_CHECK(read(*out.value, 1, boolean) == want, "the aggregate of all versions");
    vp_reach("aggregated");
}
// newest non-null value per field
VP_HARNESS(partial, 3) {
    vp_expect("row");
    int mode = vp_shard();
    std::map<std::string, std::string> m;
    if (mode == 1) m["ignore-delete"] = "true";
    if (mode == 2) m["partial-update.remove-record-on-delete"] = "true";
    CoreOptions o = opts::make(m);
    auto fn = PartialUpdateMergeFunction::Create(schema({"k", "a", "b"}, false), {"k"}, o, {}, {});
    VP_CHECK(fn.ok(), "the function is available");
    auto& mf = *fn.value();
    mf.Reset();
    Rec x{};
    x.a = x.b = 1;
    x.seq = 5;
    VP_CHECK(mf.Add(kv(x, {VariantType(int32_t(7)), var(x.a, false), var(x.b, false)})).ok(), "a record is accepted");
    VP_CHECK(mf.GetResult().ok(), "there is a result");
    mf.Reset();
    int n = 1 + vp::choose(vp_tier() ? 4 : 3, "versions");
    Val a, b;
    bool row = false, refused = false;
    int64_t last = 0;
    for (int i = 0; i < n; i++) {
        Rec r{};
        r.a = any_val("a", false);
        r.b = any_val("b", false);
        r.retract = vp::any_bool("retract");
        r.before = vp::any_bool("update");
        r.seq = 10 + i;
        Status st = mf.Add(kv(r, {VariantType(int32_t(7)), var(r.a, false), var(r.b, false)}));
        if (!r.retract) {
            if (r.a) a = r.a;
            if (r.b) b = r.b;
            row = true;
            last = r.seq;
        } else if (mode == 0) {
            refused = true;
        } else if (mode == 2 && !r.before) {
            a = b = std::nullopt;
            row = false;
        }
        VP_CHECK(st.ok() == !refused, "exactly unsupported retractions are refused");
        if (refused) return;
    }
    auto res = mf.GetResult();
    VP_CHECK(res.ok(), "there is a result");
    VP_CHECK((res.value() && res.value()->value_kind->IsAdd()) == row, "a row is returned exactly if the key has one");
    if (!row) return;
    const KeyValue& out = *res.value();
    VP_CHECK(out.key->GetInt(0) == 7 && out.value->GetInt(0) == 7 && out.sequence_number == last, "the result belongs to the key and its last version");
    VP_CHECK(read(*out.value, 1, false) == a && read(*out.value, 2, false) == b, "each field has its newest non-null value");
    vp_reach("row");
}
// fields governed by a sequence field
VP_HARNESS(groups, 12) {
    vp_expect("row");
    int f = vp_shard() % 6;
    bool first = vp_shard() / 6;
    static const char* const aggs[] = {"", "sum", "max", "last_non_null_value", "first_non_null_value", "first_value"};
    std::map<std::string, std::string> m = {{"fields.s.sequence-group", "a"}};
    if (f) m["fields.a.aggregate-function"] = aggs[f];
    // where the function cannot retract, retractions are ignored
    bool retracts = vp::any_bool("with retractions"), ignore = retracts && f && (f > 1 || vp::any_bool("ignore retractions"));
    if (ignore) m["fields.a.ignore-retract"] = "true";
    CoreOptions o = opts::make(m);
    std::map<std::string, std::vector<std::string>> groups;
    std::set<std::string> keys;
    VP_CHECK(PartialUpdateMergeFunction::ParseSequenceGroupFields(o, &groups, &keys).ok(), "the groups are understood");
    std::vector<std::string> names = {"k", "a", "s"};
    if (first) names = {"k", "s", "a"};
    auto fn = PartialUpdateMergeFunction::Create(schema(names, false), {"k"}, o, groups, keys);
    VP_CHECK(fn.ok(), "the function is available");
    auto& mf = *fn.value();
    mf.Reset();
    int n = 1 + vp::choose(vp_tier() ? 4 : 3, "versions");
    Val a, s;
    bool row = false, seen = false;
    for (int i = 0; i < n; i++) {
        Rec r{};
        r.a = any_val("a", false);
        r.s = any_val("s", false);
        r.retract = retracts && vp::any_bool("retract");
        r.seq = 10 + i;
        std::vector<VariantType> v = {VariantType(int32_t(7)), var(r.a, false), var(r.s, false)};
        if (first) std::swap(v[1], v[2]);
        VP_CHECK(mf.Add(kv(r, v)).ok(), "a record is accepted");
        if (!r.retract) row = true;
        if (!r.s) continue;  // says nothing about the group
        bool newer = !s || *r.s >= *s;
        if (newer) s = r.s;
        if (r.retract) {
            if (f == 0 && newer) a = std::nullopt;
            if (f == 1 && !ignore && r.a) a = int32_t(uint32_t(a.value_or(0)) - uint32_t(*r.a));
            continue;
        }
        // an older record comes before what has been accumulated
        switch (f) {
            case 0: if (newer) a = r.a; break;
            case 1: if (r.a) a = int32_t(uint32_t(a.value_or(0)) + uint32_t(*r.a)); break;
            case 2: if (r.a && (!a || *a < *r.a)) a = r.a; break;
            case 3: if (r.a && (newer || !a)) a = r.a; break;
            case 4: if (r.a && (!newer || !a)) a = r.a; break;
            case 5: if (!newer || !seen) a = r.a; seen = true; break;
        }
    }
    auto res = mf.GetResult();
    VP_CHECK(res.ok(), "there is a result");
    VP_CHECK((res.value() && res.value()->value_kind->IsAdd()) == row, "a row is returned exactly if the key has one");
    if (!row) return;
    const KeyValue& out = *res.value();
    VP_CHECK(out.value->GetInt(0) == 7, "the key is kept");
    VP_CHECK(read(*out.value, first ? 1 : 2, false) == s, "the sequence field is the highest one");
    VP_CHECK(read(*out.value, first ? 2 : 1, false) == a, "the field is computed in the order of the sequence field");
    vp_reach("row");
}
