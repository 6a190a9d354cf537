// C53: expiring snapshots deletes nothing a retained snapshot needs and retains what the policy says.
// vp-extra: src/paimon/core/operation/expire_snapshots.cpp src/paimon/core/utils/snapshot_manager.cpp src/paimon/core/utils/file_utils.cpp src/paimon/core/snapshot.cpp src/paimon/core/utils/file_store_path_factory.cpp src/paimon/common/utils/binary_row_partition_computer.cpp src/paimon/core/io/data_file_path_factory.cpp src/paimon/core/io/data_file_meta.cpp src/paimon/core/stats/simple_stats.cpp src/paimon/core/manifest/manifest_entry.cpp src/paimon/core/manifest/manifest_file_meta.cpp src/paimon/core/core_options.cpp src/paimon/common/types/data_field.cpp src/paimon/common/data/*.cpp src/paimon/common/data/serializer/*.cpp src/paimon/common/fs/file_system.cpp src/paimon/common/utils/path_util.cpp src/paimon/common/utils/string_utils.cpp
// vp-bounds: histories of up to 4 snapshots, each adding a file and possibly removing or upgrading any earlier one, with one or two delta manifests and possibly merged base manifests, over two partitions and two buckets; any retention counts, delete limit and retention time at a fixed clock; any single file-system call failing, or the process stopping at it, followed by a second run
// vp-assume: snapshots are consecutive; a file name is never used again after its removal
// vp-stubs: file system harness/memfs.h; the encoding of manifests (harness/table.h registers contents); tasks run at once in the calling thread; the clock is fixed; sleeping returns at once
#include "history.h"
#include "paimon/core/operation/expire_snapshots.h"
struct Policy {
    int32_t min, max, deletes;
    int64_t keep;
    bool dirs;
};
// The policy, one snapshot at a time from the oldest on.
static int expired(const History& h, const Policy& p, int64_t now) {
    int64_t n = int64_t(h.s.size());
    int k = 0;
    for (; k < n; k++) {
        bool go = (k < p.deletes) & (n - k > p.min);
        bool old = (n - k > p.max) | (h.s[k].time < now - p.keep);
        if (!(go & old)) break;
    }
    return k;
}
static Policy policy(bool any_count) {
    Policy p;
    p.min = vp::any<int32_t>("retain_min");
    p.max = vp::any<int32_t>("retain_max");
    p.deletes = vp::any<int32_t>("max_deletes");
    if (!any_count) {
        VP_ASSUME(p.min == 1 && p.deletes >= 4 && p.max >= 4);
    } else
        VP_ASSUME(p.min >= 1 && p.max >= p.min && p.deletes >= 0);
    p.keep = vp::any<int64_t>("time_retain");
    VP_ASSUME(p.keep >= 0 && p.keep <= 4000);
    p.dirs = vp::any_bool("clean_dirs");
    return p;
}
static Result<int32_t> run(History& h, const Policy& p) {
    auto sm = std::make_shared<SnapshotManager>(h.t.fs, "/t");
    ExpireSnapshots e(sm, h.t.paths, h.t.list, h.t.manifest, h.t.fs, ExpireConfig(p.max, p.min, p.keep, p.deletes, p.dirs), h.t.executor);
    return e.Expire();
}
static void retained(const History& h, int from, const char* what) {
    bool ok = true;
    for (size_t i = from; i < h.s.size(); i++)
        for (auto& path : h.s[i].needed) ok &= h.t.fs->has(path);
    VP_CHECK(ok, what);
}
static void build(History& h, int n, int64_t gap) {
    bool wide = n < 4;
    h.first = wide && vp::any_bool("first") ? 1 : 9;
    for (int i = 0; i < n; i++) {
        int removed = int(vp::choose(int(h.live.size()) + 1, "removed")) - 1;
        bool upgrade = removed >= 0 && (wide || i == 2 || vp_tier()) && vp::any_bool("upgrade");
        int form = wide || i == 3 ? int(vp::choose(i > 0 ? 3 : 1, "form")) : i;
        h.commit(removed, upgrade, form == 1, form == 2, 1000 + gap * i);
    }
}
VP_HARNESS(history, 12) {
    vp_expect("expired");
    vp_expect("kept");
    static const int64_t gaps[3] = {1000, 0, -300};
    History h;
    int n = vp_shard() % 4 + 1;
    build(h, n, gaps[vp_shard() / 4]);
    table::now_ms() = 4500;
    Policy p = policy(false);
    auto r = run(h, p);
    VP_CHECK(r.ok(), "expiry succeeds when nothing fails");
    int k = expired(h, p, 4500);
    VP_CHECK(r.value() == k, "the number of expired snapshots is that of the policy");
    retained(h, k, "a retained snapshot keeps every file it needs");
    // and nothing else of the expired ones stays
    std::set<std::string> keep;
    for (int i = k; i < n; i++) keep.insert(h.s[i].needed.begin(), h.s[i].needed.end());
    bool gone = true;
    for (int i = 0; i < k; i++)
        for (auto& path : h.s[i].needed) gone &= keep.count(path) || !h.t.fs->has(path);
    VP_CHECK(gone, "files only expired snapshots used are deleted");
    auto e = std::make_shared<SnapshotManager>(h.t.fs, "/t")->EarliestSnapshotId();
    VP_CHECK(e.ok() && e.value() && *e.value() == h.first + k, "the earliest snapshot is the first retained one");
    if (k) vp_reach("expired");
    if (!k) vp_reach("kept");
}
// One failing call, or a stop at it, then a second run.
VP_HARNESS(faults, 16) {
    vp_expect("nothing failed");
    vp_expect("failed");
    History h;
    int sh = vp_shard(), n = sh % 2 ? 3 : 4;
    int form = sh / 2 % 4;
    bool crash = sh / 8;
    for (int i = 0; i < n; i++) h.commit(i >= 1 ? (form & 1 ? 0 : int(h.live.size()) - 1) : -1, i == 2 && form == 2, form & 2, form == 3 && i == 2, 1000 + i);
    Policy p{1 + int(vp::choose(2, "retain_min")), 100, 100, 0, vp::any_bool("clean_dirs")};
    table::now_ms() = 9000;
    int k = expired(h, p, 9000);
    h.t.fs->fail_at = vp::any<int>("fail_at");
    VP_ASSUME(h.t.fs->fail_at >= 1);
    h.t.fs->crash = crash;
    auto r = run(h, p);
    retained(h, k, "a retained snapshot keeps every file it needs when a call fails");
    if (!h.t.fs->failed) {
        VP_CHECK(r.ok() && r.value() == k, "expiry succeeds when nothing fails");
        vp_reach("nothing failed");
    } else {
        vp_reach("failed");
        h.t.fs->fail_at = 0;
        auto again = run(h, p);
        VP_CHECK(again.ok(), "a second run succeeds");
        retained(h, k, "a retained snapshot keeps every file it needs after a second run");
        auto sm = std::make_shared<SnapshotManager>(h.t.fs, "/t");
        auto e = sm->EarliestSnapshotId();
        auto l = sm->LatestSnapshotId();
        VP_CHECK(e.ok() && e.value() && *e.value() == h.first + k && l.ok() && l.value() && *l.value() == h.first + n - 1, "after a second run the retained snapshots are the visible ones");
    }
}
VP_HARNESS(limits, 8) {
    vp_expect("rejected");
    vp_expect("done");
    static const int64_t gaps[2] = {1000, 300};
    History h;
    int n = vp_shard() % 4 + 1;
    h.first = vp_shard() / 4 ? 9 : 1;
    for (int i = 0; i < n; i++) h.commit(i >= 1 ? 0 : -1, false, false, i == 2, 1000 + gaps[vp_shard() / 4] * i);
    int64_t now = table::now_ms() = 3456;
    Policy p;
    p.min = vp::any<int32_t>("retain_min");
    p.max = vp::any<int32_t>("retain_max");
    p.deletes = vp::any<int32_t>("max_deletes");
    p.keep = vp::any<int64_t>("time_retain");
    VP_ASSUME(p.keep >= 0 && p.keep < (1LL << 41));
    p.dirs = false;
    auto r = run(h, p);
    bool bad = (p.min < 1) | (p.max < p.min) | (p.deletes < 0);
    if (bad) {
        VP_CHECK(!r.ok() && h.t.fs->deleted.empty(), "a contradictory policy is rejected and deletes nothing");
        vp_reach("rejected");
        return;
    }
    VP_CHECK(r.ok(), "expiry succeeds when nothing fails");
    int k = expired(h, p, now);
    VP_CHECK(r.value() == k, "the number of expired snapshots is that of the policy");
    retained(h, k, "a retained snapshot keeps every file it needs");
    bool gone = true;
    for (int i = 0; i < k; i++) gone &= !h.t.fs->has("/t/snapshot/snapshot-" + std::to_string(h.first + i));
    VP_CHECK(gone, "expired snapshots are no longer visible");
    vp_reach("done");
}
