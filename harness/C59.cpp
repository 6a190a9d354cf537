// C59: splitting a bucket's files into sorted runs and splits loses nothing and keeps together what must be merged.
// vp-extra: src/paimon/core/mergetree/compact/interval_partition.cpp src/paimon/core/table/source/merge_tree_split_generator.cpp src/paimon/core/table/source/data_evolution_split_generator.cpp src/paimon/core/io/data_file_meta.cpp src/paimon/core/stats/simple_stats.cpp src/paimon/core/utils/fields_comparator.cpp src/paimon/common/types/data_field.cpp src/paimon/common/data/*.cpp src/paimon/common/data/serializer/*.cpp
// vp-bounds: up to 3 files in any order (runs also: 4 files given in ascending or descending order) with any 32-bit key ranges, any levels, delete counts, file sizes and sequence or row-id ranges, any target split size and open-file cost, every merge engine, with and without deletion vectors
// vp-assume: a file's smallest key is not above its largest; sizes and row ids stay below 2^40; files of one level above 0 do not overlap (only used to call a raw split right)
// vp-stubs: Arrow type descriptors are declarations only
#include "paimon/common/data/binary_row_writer.h"
#include "paimon/common/types/data_field.h"
#include "paimon/core/mergetree/compact/interval_partition.h"
#include "paimon/core/table/source/append_only_split_generator.h"
#include "paimon/core/table/source/data_evolution_split_generator.h"
#include "paimon/core/table/source/merge_tree_split_generator.h"
#include "vp.h"
using namespace paimon;
static BinaryRow key(int32_t v) {
    BinaryRow row(1);
    BinaryRowWriter w(&row, 0, GetDefaultPool().get());
    w.Reset();
    w.WriteInt(0, v);
    w.Complete();
    return row;
}
struct F {
    int32_t lo = 0, hi = 0;
    int64_t size = 1, s0 = 0, s1 = 0, rows = 1;
    int32_t level = 0;
    std::optional<int64_t> deletes, first;
    std::shared_ptr<DataFileMeta> meta;
    void make(int i) {
        meta = std::make_shared<DataFileMeta>(std::string(1, char('a' + i)), size, rows, key(lo), key(hi), SimpleStats::EmptyStats(), SimpleStats::EmptyStats(), s0, s1, 0, level,
                                              std::vector<std::optional<std::string>>(), Timestamp(0, 0), deletes, nullptr, FileSource::Append(), std::nullopt, std::nullopt, first, std::nullopt);
    }
};
typedef std::vector<std::shared_ptr<DataFileMeta>> Metas;
static Metas metas(const std::vector<F>& f) {
    Metas m;
    for (auto& x : f) m.push_back(x.meta);
    return m;
}
static int index_of(const std::vector<F>& f, const std::shared_ptr<DataFileMeta>& m) {
    for (size_t i = 0; i < f.size(); i++)
        if (f[i].meta.get() == m.get()) return int(i);
    return -1;
}
static std::shared_ptr<FieldsComparator> comparator() {
    auto r = FieldsComparator::Create({DataField(0, arrow::field("k", arrow::int32()))}, true, false);
    VP_CHECK(r.ok(), "the comparator is available");
    return std::shared_ptr<FieldsComparator>(std::move(r).value());
}
static bool overlap(const F& a, const F& b) { return a.lo <= b.hi && b.lo <= a.hi; }
static int64_t any_size(const char* n) {
    int64_t v = vp::any<int64_t>(n);
    VP_ASSUME(v >= 0 && v < (1ll << 40));
    return v;
}
static void any_keys(F& f) {
    f.lo = vp::any<int32_t>("lo");
    f.hi = vp::any<int32_t>("hi");
    VP_ASSUME(f.lo <= f.hi);
}

VP_HARNESS(partition, 5) {
    const int n = vp_shard() < 4 ? vp_shard() + 1 : 4;
    std::vector<F> f(n);
    for (int i = 0; i < n; i++) any_keys(f[i]);
    if (n == 4)  // given in ascending or descending order
        for (int i = 1; i < n; i++) VP_ASSUME(vp_shard() == 3 ? f[i - 1].lo < f[i].lo : f[i - 1].lo > f[i].lo);
    for (int i = 0; i < n; i++) f[i].make(i);
    auto cmp = comparator();
    IntervalPartition p(metas(f), cmp);
    auto sections = p.Partition();
    std::vector<int> sec(n, -1), run(n, -1);
    int runs = 0;
    std::vector<int> runs_in;
    for (size_t s = 0; s < sections.size(); s++) {
        VP_CHECK(!sections[s].empty(), "no section is empty");
        runs_in.push_back(int(sections[s].size()));
        for (auto& r : sections[s]) {
            VP_CHECK(!r.Files().empty(), "no run is empty");
            bool ok = true;
            const F* last = nullptr;
            for (auto& m : r.Files()) {
                int i = index_of(f, m);
                VP_CHECK(i >= 0 && sec[i] < 0, "every file is placed once");
                sec[i] = int(s);
                run[i] = runs;
                if (last) ok &= last->hi < f[i].lo;
                last = &f[i];
            }
            VP_CHECK(ok, "a run is sorted and its files do not overlap");
            runs++;
        }
    }
    bool together = true, order = true;
    for (int i = 0; i < n; i++) {
        VP_CHECK(sec[i] >= 0, "no file is left out");
        for (int j = 0; j < n; j++) {
            if (i == j) continue;
            if (sec[i] != sec[j]) together &= !overlap(f[i], f[j]);
            if (sec[i] < sec[j]) order &= f[i].hi < f[j].lo;
        }
    }
    VP_CHECK(together, "files with common keys are in one section");
    VP_CHECK(order, "sections are in key order");
    // a section has as many runs as its deepest overlap; and it cannot be cut
    bool tight = true, fewest = true;
    for (size_t s = 0; s < sections.size(); s++) {
        int8_t deepest = 0;
        for (int i = 0; i < n; i++) {
            if (sec[i] != int(s)) continue;
            int8_t d = 0;
            bool cut = true, any = false;
            for (int j = 0; j < n; j++)
                if (sec[j] == int(s)) {
                    d += f[j].lo <= f[i].lo && f[i].lo <= f[j].hi;
                    // would a cut just before file i's smallest key separate the section?
                    cut &= f[j].hi < f[i].lo || f[j].lo >= f[i].lo;
                    any |= f[j].hi < f[i].lo;
                }
            tight &= !(cut & any);
            deepest = d > deepest ? d : deepest;
        }
        fewest &= runs_in[s] == deepest;
    }
    VP_CHECK(tight, "a section is not larger than the overlaps need");
    VP_CHECK(fewest, "no more runs than the overlaps need");
    if (n > 1) {
        vp_expect("one section of several runs");
        vp_expect("several sections");
        if (sections.size() > 1) vp_reach("several sections");
        if (sections.size() == 1 && runs > 1) vp_reach("one section of several runs");
    }
}

static void check_once(const std::vector<F>& f, const std::vector<SplitGenerator::SplitGroup>& g, std::vector<int>& at) {
    at.assign(f.size(), -1);
    for (size_t s = 0; s < g.size(); s++) {
        VP_CHECK(!g[s].files.empty(), "no split is empty");
        for (auto& m : g[s].files) {
            int i = m ? index_of(f, m) : -1;
            VP_CHECK(i >= 0 && at[i] < 0, "every file is in one split");
            at[i] = int(s);
        }
    }
    for (size_t i = 0; i < f.size(); i++) VP_CHECK(at[i] >= 0, "no file is left out");
}

// primary-key tables; the shard fixes the number of files and the merge engine
VP_HARNESS(merge_tree, 12) {  // 1, 2 files: 4 engines; 3 files: 2 engines, any levels or any deletes
    static const MergeEngine engines[] = {MergeEngine::DEDUPLICATE, MergeEngine::FIRST_ROW, MergeEngine::PARTIAL_UPDATE, MergeEngine::AGGREGATE};
    const int n = vp_shard() / 4 + 1;
    MergeEngine engine = engines[n < 3 ? vp_shard() % 4 : vp_shard() % 2];
    const bool levels = vp_shard() < 10;
    static const int8_t some_levels[3][3] = {{0, 0, 0}, {1, 1, 1}, {5, 0, 4}};
    const int some = levels ? 0 : vp::choose(3, "levels");
    std::vector<F> f(n);
    for (int i = 0; i < n; i++) {
        any_keys(f[i]);
        f[i].size = any_size("size");
        if (levels) {
            f[i].level = vp::any<int32_t>("level");
            VP_ASSUME(f[i].level >= 0 && f[i].level <= 5);
        } else {
            f[i].level = some_levels[some][i];
        }
        if (n < 3 || !levels) {
            int64_t d = vp::any<int64_t>("deletes");
            VP_ASSUME(d >= -1 && d <= 5);
            if (n < 3)
                VP_ASSUME(d >= -1);
            else
                VP_ASSUME(d >= 0);
            if (d >= 0) f[i].deletes = d;
        }
        f[i].make(i);
    }
    bool dv = vp::any_bool("deletion vectors");
    int64_t target = any_size("target"), cost = n < 3 ? any_size("cost") : 1000;
    MergeTreeSplitGenerator gen(target, cost, dv, engine, comparator());
    auto r = gen.SplitForBatch(metas(f));
    VP_CHECK(r.ok(), "splits are made");
    auto& g = r.value();
    std::vector<int> at;
    check_once(f, g, at);
    bool compacted = true, clean = true, one = true;
    for (auto& x : f) {
        compacted &= x.level > 0;
        if (x.deletes) clean &= *x.deletes == 0;
        one &= x.level == f[0].level;
    }
    // nothing of the bucket needs merging: compacted, no deletes, and no two files hold live versions of one key
    bool plain = compacted & clean & (dv | (engine == MergeEngine::FIRST_ROW) | one);
    for (size_t s = 0; s < g.size(); s++) {
        if (!g[s].raw_convertible) continue;
        if (g[s].files.size() > 1) {
            VP_CHECK(plain, "several files are read unmerged only when nothing needs merging");
            vp_reach("unmerged");
        } else {
            int i = index_of(f, g[s].files[0]);
            VP_CHECK(!f[i].deletes || *f[i].deletes == 0, "a file with deletes is never read raw");
        }
    }
    bool split = false;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < i; j++)
            if (at[i] != at[j]) split |= overlap(f[i], f[j]);
    VP_CHECK(!split | plain, "files with common keys go to one split unless nothing needs merging");
    for (auto& x : g) VP_CHECK(!plain | x.raw_convertible, "a bucket that needs no merging is read raw");
    // a split of several files that share no keys is within the target
    for (size_t s = 0; s < g.size(); s++) {
        int64_t sum = 0, linked = 1, first = -1;
        for (int i = 0; i < n; i++)
            if (at[i] == int(s)) {
                sum += f[i].size > cost ? f[i].size : cost;
                for (int j = 0; j < i; j++)
                    if (at[j] == int(s)) linked &= !overlap(f[i], f[j]);
                first = i;
            }
        if (g[s].files.size() > 1) VP_CHECK(!linked | (sum <= target), "a split of unrelated files is within the target size");
    }
    if (n > 1) {
        vp_expect("unmerged");
        vp_expect("merged");
        if (g.size() == 1 && !g[0].raw_convertible) vp_reach("merged");
        if (n > 2) {
            vp_expect("two of three");
            if (g.size() == 2 && !(g[0].raw_convertible && g[1].raw_convertible)) vp_reach("two of three");
        }
    }
}

VP_HARNESS(append_only, 6) {
    const int n = vp_shard() % 3 + 1;
    const bool unaware = vp_shard() >= 3;
    std::vector<F> f(n);
    for (int i = 0; i < n; i++) {
        f[i].size = any_size("size");
        f[i].s0 = vp::any<int64_t>("first sequence");
        f[i].s1 = vp::any<int64_t>("last sequence");
        VP_ASSUME(f[i].s0 <= f[i].s1);
        f[i].make(i);
    }
    int64_t target = any_size("target"), cost = any_size("cost");
    AppendOnlySplitGenerator gen(target, cost, unaware ? BucketMode::BUCKET_UNAWARE : BucketMode::HASH_FIXED);
    bool streaming = vp::any_bool("streaming");
    auto r = streaming ? gen.SplitForStreaming(metas(f)) : gen.SplitForBatch(metas(f));
    VP_CHECK(r.ok(), "splits are made");
    auto& g = r.value();
    std::vector<int> at;
    check_once(f, g, at);
    for (auto& x : g) VP_CHECK(x.raw_convertible, "rows of an append table are never merged");
    if (streaming && !unaware) {
        VP_CHECK(g.size() == 1, "one bucket is one split when streaming");
        for (int i = 0; i < n; i++) VP_CHECK(g[0].files[i].get() == f[i].meta.get(), "files stay in order");
        return;
    }
    const F* last = nullptr;
    bool sorted = true;
    for (auto& x : g) {
        int64_t sum = 0;
        for (auto& m : x.files) {
            const F& c = f[index_of(f, m)];
            if (last) sorted &= last->s0 <= c.s0;
            last = &c;
            sum += c.size > cost ? c.size : cost;
        }
        if (x.files.size() > 1) VP_CHECK(sum <= target, "a split of several files is within the target size");
    }
    VP_CHECK(sorted, "files are read in the order they were written");
    if (n > 1) {
        vp_expect("reordered");
        if (g[0].files[0].get() != f[0].meta.get()) vp_reach("reordered");
    }
}

VP_HARNESS(data_evolution, 3) {
    const int n = vp_shard() + 1;
    std::vector<F> f(n);
    bool missing = vp::any_bool("a file without row id");
    int which = missing ? vp::choose(n, "which") : -1;
    for (int i = 0; i < n; i++) {
        f[i].size = any_size("size");
        f[i].rows = any_size("rows");
        VP_ASSUME(f[i].rows > 0);
        int64_t id = any_size("row id");
        if (i != which) f[i].first = id;
        f[i].make(i);
    }
    int64_t target = any_size("target"), cost = any_size("cost");
    DataEvolutionSplitGenerator gen(target, cost);
    auto r = vp::any_bool("streaming") ? gen.SplitForStreaming(metas(f)) : gen.SplitForBatch(metas(f));
    if (missing) {
        VP_CHECK(!r.ok(), "a file without a row id is an error");
        return;
    }
    VP_CHECK(r.ok(), "splits are made");
    auto& g = r.value();
    std::vector<int> at;
    check_once(f, g, at);
    bool apart = false, mixed = false;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < i; j++) {
            bool common = *f[i].first < *f[j].first + f[j].rows && *f[j].first < *f[i].first + f[i].rows;
            if (at[i] != at[j])
                apart |= common;
            else if (g[at[i]].raw_convertible)
                mixed |= common;
        }
    VP_CHECK(!apart, "files holding columns of the same rows are in one split");
    VP_CHECK(!mixed, "files holding columns of the same rows are not read raw");
    for (size_t s = 0; s < g.size(); s++) {
        if (g[s].raw_convertible || g[s].files.size() > 1) continue;
        VP_CHECK(false, "a single file needs no evolution");
    }
    if (n > 1) {
        vp_expect("together");
        if (g.size() == 1 && !g[0].raw_convertible) vp_reach("together");
    }
}
