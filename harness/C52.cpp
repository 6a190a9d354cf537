// C52: merging sorted runs yields, per key in key order, what the merge function makes of all versions in sequence order.
// vp-extra: src/paimon/core/mergetree/compact/loser_tree.cpp src/paimon/core/mergetree/compact/sort_merge_reader_with_loser_tree.cpp src/paimon/core/mergetree/compact/sort_merge_reader_with_min_heap.cpp src/paimon/core/utils/fields_comparator.cpp src/paimon/common/types/data_field.cpp
// vp-bounds: 1..4 sorted runs with up to 4 (thorough 5) records in all, any 32-bit keys increasing within a run, any distinct sequence numbers, any user-defined sequence field, any cut of a run into batches including empty ones (quick: for up to 2 records with all row kinds), one failing call anywhere
// vp-assume: within one run keys are strictly increasing; no two records carry the same sequence number
// vp-stubs: Arrow type descriptors are declarations only; runs are in-memory record readers
#include "paimon/common/data/generic_row.h"
#include "paimon/common/types/data_field.h"
#include "paimon/core/mergetree/compact/deduplicate_merge_function.h"
#include "paimon/core/mergetree/compact/first_row_merge_function.h"
#include "paimon/core/mergetree/compact/reducer_merge_function_wrapper.h"
#include "paimon/core/mergetree/compact/sort_merge_reader_with_loser_tree.h"
#include "paimon/core/mergetree/compact/sort_merge_reader_with_min_heap.h"
#include "paimon/core/mergetree/drop_delete_reader.h"
#include "vp.h"
using namespace paimon;
struct Rec {
    int32_t key;
    int64_t seq;
    int32_t useq;  // user-defined sequence
    int kind;      // 0..3
    int32_t level;
};
static const RowKind* kind_of(int k) { return k == 0 ? RowKind::Insert() : k == 1 ? RowKind::UpdateBefore() : k == 2 ? RowKind::UpdateAfter() : RowKind::Delete(); }
static int g_calls, g_fail_at, g_closed;
static bool fail() { return ++g_calls == g_fail_at; }
struct Run : KeyValueRecordReader {
    std::vector<Rec> recs;
    std::vector<int> cuts;  // batch sizes
    size_t at = 0, batch = 0;
    bool closed = false;
    struct It : KeyValueRecordReader::Iterator {
        Run* r;
        size_t end;
        bool HasNext() const override { return r->at < end; }
        Result<KeyValue> Next() override {
            if (fail()) return Status::IOError("next");
            VP_CHECK(r->at < end && !r->closed, "no record is asked for past the end");
            Rec& x = r->recs[r->at++];
            auto k = GenericRow::Of({VariantType(x.key)});
            auto v = GenericRow::Of({VariantType(x.key), VariantType(x.useq)});
            return KeyValue(kind_of(x.kind), x.seq, x.level, std::move(k), std::move(v));
        }
    };
    Result<std::unique_ptr<KeyValueRecordReader::Iterator>> NextBatch() override {
        if (fail()) return Status::IOError("batch");
        if (batch >= cuts.size()) return std::unique_ptr<KeyValueRecordReader::Iterator>();
        auto it = std::make_unique<It>();
        it->r = this;
        it->end = at + cuts[batch++];
        return std::unique_ptr<KeyValueRecordReader::Iterator>(std::move(it));
    }
    std::shared_ptr<Metrics> GetReaderMetrics() const override { return nullptr; }
    void Close() override { closed = true; }
};
static std::shared_ptr<FieldsComparator> comparator(int field) {
    std::vector<DataField> f = {DataField(0, arrow::field("k", arrow::int32())), DataField(1, arrow::field("s", arrow::int32()))};
    auto r = FieldsComparator::Create(f, {field}, true, false);
    VP_CHECK(r.ok(), "the comparator is available");
    return std::shared_ptr<FieldsComparator>(std::move(r).value());
}
// all records in the order the merge must see them
static std::vector<Rec> ordered(std::vector<Rec> v, bool useq) {
    for (size_t i = 0; i < v.size(); i++)
        for (size_t j = i; j > 0; j--) {
            Rec &a = v[j - 1], &b = v[j];
            bool less = b.key < a.key || (b.key == a.key && ((useq && b.useq < a.useq) || ((!useq || b.useq == a.useq) && b.seq < a.seq)));
            if (!less) break;
            std::swap(a, b);
        }
    return v;
}
struct Input {
    std::vector<std::unique_ptr<KeyValueRecordReader>> readers;
    std::vector<Rec> all;
};
static Input make(int runs, int total, bool batches, bool kinds) {
    Input in;
    int left = total;
    for (int r = 0; r < runs; r++) {
        auto run = std::make_unique<Run>();
        int n = r == runs - 1 ? left : vp::choose(left + 1, "records");
        left -= n;
        for (int i = 0; i < n; i++) {
            Rec x;
            x.key = vp::any<int32_t>("key");
            x.seq = vp::any<int64_t>("sequence");
            x.useq = vp::any<int32_t>("user sequence");
            x.kind = kinds ? vp::choose(4, "kind") : 0;
            x.level = 0;
            if (i) VP_ASSUME(run->recs.back().key < x.key);
            for (auto& y : in.all) VP_ASSUME(y.seq != x.seq);
            run->recs.push_back(x);
            in.all.push_back(x);
        }
        // cut into batches
        int rest = n;
        if (batches)
            while (rest > 0) {
                int c = vp::choose(rest + 1, "batch");
                run->cuts.push_back(c);
                rest -= c;
                if (run->cuts.size() >= 3) break;
            }
        if (rest > 0) run->cuts.push_back(rest);
        in.readers.push_back(std::move(run));
    }
    return in;
}
struct Recorder : MergeFunctionWrapper<KeyValue> {
    std::vector<std::vector<Rec>> groups;
    std::optional<KeyValue> last;
    void Reset() override { groups.emplace_back(), last = std::nullopt; }
    Status Add(KeyValue&& kv) override {
        VP_CHECK(!groups.empty(), "a merge starts with a reset");
        Rec r{};
        r.key = kv.key->GetInt(0);
        r.seq = kv.sequence_number;
        groups.back().push_back(r);
        last = std::move(kv);
        return Status::OK();
    }
    Result<std::optional<KeyValue>> GetResult() override { return std::move(last); }
};
static std::unique_ptr<SortMergeReader> reader(bool tree, Input& in, bool useq, std::shared_ptr<MergeFunctionWrapper<KeyValue>> w) {
    auto kc = comparator(0);
    auto sc = useq ? comparator(1) : nullptr;
    if (tree) return std::make_unique<SortMergeReaderWithLoserTree>(std::move(in.readers), kc, sc, w);
    return std::make_unique<SortMergeReaderWithMinHeap>(std::move(in.readers), kc, sc, w);
}
struct Out {
    int32_t key;
    int64_t seq;
    int kind;
};
// everything the reader returns
static Status drain(SortMergeReader& m, std::vector<Out>* out, int limit) {
    while (true) {
        PAIMON_ASSIGN_OR_RAISE(std::unique_ptr<SortMergeReader::Iterator> it, m.NextBatch());
        if (!it) break;
        while (true) {
            PAIMON_ASSIGN_OR_RAISE(bool more, it->HasNext());
            if (!more) break;
            KeyValue kv = it->Next();
            out->push_back({kv.key->GetInt(0), kv.sequence_number, kv.value_kind->ToByteValue()});
            VP_CHECK((int)out->size() <= limit, "not more results than records");
            VP_CHECK(kv.value && kv.value->GetInt(0) == kv.key->GetInt(0), "a result keeps its value");
        }
    }
    return Status::OK();
}
static void merge_order(bool tree) {
    vp_expect("merged");
    int runs = vp_shard() % 4 + 1;
    bool useq = vp_shard() / 4;
    int max = vp_tier() ? 5 : 4;
    int total = vp::choose(max + 1, "total");
    Input in = make(runs, total, false, false);
    auto all = ordered(in.all, useq);
    auto rec = std::make_shared<Recorder>();
    auto m = reader(tree, in, useq, rec);
    std::vector<Out> out;
    Status st = drain(*m, &out, total);
    VP_CHECK(st.ok(), "reading succeeds");
    size_t i = 0;
    for (auto& g : rec->groups) {
        VP_CHECK(!g.empty(), "a group has records");
        for (auto& x : g) {
            VP_CHECK(i < all.size() && x.key == all[i].key && x.seq == all[i].seq, "records are merged in key and sequence order");
            VP_CHECK(x.key == g[0].key, "only versions of one key are merged");
            i++;
        }
        VP_CHECK(i == all.size() || all[i].key != g[0].key, "all versions of a key are merged together");
    }
    VP_CHECK(i == all.size(), "every record is merged");
    VP_CHECK(out.size() == rec->groups.size(), "one result per key");
    for (size_t k = 0; k < out.size(); k++) VP_CHECK(out[k].seq == rec->groups[k].back().seq, "the result is the merge function's");
    vp_reach("merged");
}
VP_HARNESS(tree_order, 8) { merge_order(true); }
VP_HARNESS(heap_order, 8) { merge_order(false); }
// both merge implementations with the real merge functions, batches, deletes
VP_HARNESS(latest, 8) {
    vp_expect("merged");
    bool tree = vp_shard() & 1, first = vp_shard() & 2, drop = vp_shard() & 4;
    int runs = 1 + vp::choose(2, "runs");
    int total = vp::choose(vp_tier() ? 5 : 4, "total");
    Input in = make(runs, total, vp_tier() || total < 3, true);
    auto all = ordered(in.all, false);
    bool ignore = vp::any_bool("ignore deletes");
    std::unique_ptr<MergeFunction> f;
    if (first) f = std::make_unique<FirstRowMergeFunction>(ignore);
    else f = std::make_unique<DeduplicateMergeFunction>(ignore);
    auto m = reader(tree, in, false, std::make_shared<ReducerMergeFunctionWrapper>(std::move(f)));
    if (drop) m = std::make_unique<DropDeleteReader>(std::move(m));
    std::vector<Out> out;
    Status st = drain(*m, &out, total);
    // reference
    std::vector<Out> want;
    bool refused = false;
    for (size_t i = 0; i < all.size();) {
        size_t e = i;
        while (e < all.size() && all[e].key == all[i].key) e++;
        int pick = -1;
        for (size_t j = i; j < e; j++) {
            bool retract = all[j].kind == 1 || all[j].kind == 3;
            if (e - i > 1 && retract && ignore) continue;
            if (e - i > 1 && retract && first) refused = true;
            if (pick < 0 || !first) pick = j;
        }
        if (pick >= 0 && !(drop && (all[pick].kind == 1 || all[pick].kind == 3))) want.push_back({all[pick].key, all[pick].seq, all[pick].kind});
        i = e;
    }
    if (refused) {
        VP_CHECK(!st.ok(), "first-row refuses retractions");
        return;
    }
    VP_CHECK(st.ok(), "reading succeeds");
    VP_CHECK(out.size() == want.size(), "one result per surviving key");
    for (size_t i = 0; i < out.size(); i++) VP_CHECK(out[i].key == want[i].key && out[i].seq == want[i].seq && out[i].kind == want[i].kind, "the right version survives");
    vp_reach("merged");
}
VP_HARNESS(failures, 2) {
    vp_expect("failed");
    vp_expect("merged");
    bool tree = vp_shard();
    g_calls = 0;
    g_fail_at = vp::choose(14, "failing call");
    int total = vp::choose(4, "total");
    Input in = make(2, total, true, false);
    auto m = reader(tree, in, false, std::make_shared<ReducerMergeFunctionWrapper>(std::make_unique<DeduplicateMergeFunction>(false)));
    std::vector<Out> out;
    Status st = drain(*m, &out, total);
    bool failed = g_fail_at && g_calls >= g_fail_at;
    VP_CHECK(st.ok() == !failed, "a failing run is reported, and nothing else fails");
    if (failed) VP_CHECK(st.IsIOError(), "with its own error");
    vp_reach(failed ? "failed" : "merged");
}
