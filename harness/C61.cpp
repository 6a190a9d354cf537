// C61: the latest and earliest snapshots are found whatever the hint files say.
// vp-extra: src/paimon/core/utils/snapshot_manager.cpp src/paimon/core/utils/file_utils.cpp src/paimon/core/snapshot.cpp src/paimon/common/fs/file_system.cpp src/paimon/common/utils/path_util.cpp src/paimon/common/utils/string_utils.cpp
// vp-bounds: 0..3 snapshots with consecutive ids starting at 1, 8, 9 or 99; hint files absent, holding any text of up to 2 bytes, or any of the ids around the existing ones; foreign files in the directory; listing in either order; main branch and another; any single file-system call failing; up to 3 snapshots of 2 users
// vp-assume: snapshots are consecutive (expiry removes from the oldest on); the earliest hint does not name a younger existing snapshot (it is written after the older ones are gone)
// vp-stubs: the file system is the in-memory model harness/memfs.h; sleeping returns at once; the random device yields a constant
#include "memfs.h"
#include "paimon/core/snapshot.h"
#include "paimon/core/utils/snapshot_manager.h"
using namespace paimon;
extern "C" {
__attribute__((used)) int vpm_nanosleep(const void*, void*) { return 0; }
__attribute__((used)) void vpm__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const void*) {}
__attribute__((used)) void vpm__ZNSt13random_device7_M_finiEv(void*) {}
__attribute__((used)) unsigned vpm__ZNSt13random_device9_M_getvalEv(void*) { return 4; }
}
static std::string dir(bool branch) { return branch ? "/t/branch/branch-b/snapshot" : "/t/snapshot"; }
static std::string json(int64_t id, const std::string& user) {
    Snapshot s(id, 0, "b", std::nullopt, "d", std::nullopt, std::nullopt, std::nullopt, std::nullopt, user, id * 10, Snapshot::CommitKind::Append(), 1000 + id, std::nullopt, 1, 1, std::nullopt,
               std::nullopt, std::nullopt, std::nullopt, std::nullopt);
    auto r = s.ToJsonString();
    VP_CHECK(r.ok(), "a snapshot is written as JSON");
    return r.value();
}
struct Table {
    std::shared_ptr<memfs::FS> fs = std::make_shared<memfs::FS>();
    int64_t first = 0, last = -1;
    std::string d;
    Table(int64_t from, int n, bool branch, bool reverse, bool strays) {
        d = dir(branch);
        first = from;
        last = from + n - 1;
        fs->mkdir(d);
        for (int i = 0; i < n; i++) fs->put(d + "/snapshot-" + std::to_string(reverse ? last - i : from + i), "x");
        if (strays) {
            fs->put(d + "/.snapshot-77.f00.tmp", "x");
            fs->put(d + "/LATEST.tmp", "200");
            fs->mkdir(d + "/old");
            fs->put("/t/schema/schema-3", "x");
            fs->put("/t/snapshots/snapshot-55", "x");
        }
    }
    SnapshotManager mgr(bool branch) { return branch ? SnapshotManager(fs, "/t", "b") : SnapshotManager(fs, "/t"); }
};
static const int64_t s_from[] = {1, 8, 9, 99};
static std::string s_hint;
// the earliest hint is only written once the older snapshots are gone
static bool ahead(const Table& t, bool latest) {
    if (latest) return false;
    for (int64_t i = t.first + 1; i <= t.last; i++)
        if (s_hint == std::to_string(i) || s_hint == "0" + std::to_string(i)) return true;
    return false;
}
static void any_hint(Table& t, const char* name) {
    int k = vp::choose(4, name);
    if (k == 0) return;
    std::string v;
    if (k == 1)
        v = vp::any_string(2, "hint");
    else if (k == 2)
        v = vp::any_string(1, "hint");
    else
        v = std::to_string(t.first - 2 + vp::choose(7, "hinted"));
    s_hint = v;
    t.fs->put(t.d + "/" + name, v);
}

VP_HARNESS(lookup, 16) {
    const int n = vp_shard() % 4, from = vp_shard() / 4;
    int way = vp::choose(4, "way");
    bool branch = way & 1;
    Table t(s_from[from], n, branch, way & 1, way & 2);
    bool latest = vp::any_bool("latest");
    any_hint(t, latest ? "LATEST" : "EARLIEST");
    if (ahead(t, latest)) return;
    auto m = t.mgr(branch);
    auto r = latest ? m.LatestSnapshotId() : m.EarliestSnapshotId();
    VP_CHECK(r.ok(), "looking up a snapshot succeeds");
    if (n > 0) {
        VP_CHECK(r.value().has_value() && *r.value() == (latest ? t.last : t.first), "the newest or oldest snapshot is found");
        vp_expect("found");
        vp_reach("found");
    } else if (!latest) {
        VP_CHECK(!r.value().has_value(), "no snapshot is invented");
    }
}
// a call that fails gives an error or the right answer
VP_HARNESS(failing, 4) {
    const int n = vp_shard();
    Table t(9, n, false, false, true);
    bool latest = vp::any_bool("latest");
    int k = vp::choose(4, "hint");
    if (k) t.fs->put(t.d + (latest ? "/LATEST" : "/EARLIEST"), std::to_string(latest ? 7 + k * 2 : 6 + k));
    t.fs->fail_at = vp::choose_between(1, 12, "failing call");
    t.fs->crash = vp::any_bool("all later calls");
    auto m = t.mgr(false);
    auto r = latest ? m.LatestSnapshotId() : m.EarliestSnapshotId();
    if (!r.ok()) {
        VP_CHECK(t.fs->failed, "no error without a failing call");
        vp_expect("error");
        vp_reach("error");
        return;
    }
    if (n) VP_CHECK(r.value() && *r.value() == (latest ? t.last : t.first), "a failure never hides or invents a snapshot");
    if (!n && !k) VP_CHECK(!r.value(), "a failure never invents a snapshot");
    vp_expect("survived");
    if (t.fs->failed) vp_reach("survived");
}
// hints written are what is read; they may be torn or lost
VP_HARNESS(hints, 3) {
    const int n = vp_shard() + 1;
    Table t(9, n, false, false, false);
    if (vp::any_bool("old hint")) t.fs->put(t.d + "/LATEST", "8");
    t.fs->fail_at = vp::choose(16, "failing call");
    t.fs->crash = vp::any_bool("crash");
    t.fs->torn = true;
    auto m = t.mgr(false);
    Status l = m.CommitLatestHint(t.last);
    Status e = m.CommitEarliestHint(t.first);
    if (!t.fs->failed) VP_CHECK(l.ok() && e.ok(), "hints are written");
    if (l.ok() && !t.fs->crash) VP_CHECK(t.fs->find(t.d + "/LATEST")->text == std::to_string(t.last), "the hint says what was committed");
    if (e.ok() && !t.fs->crash) VP_CHECK(t.fs->find(t.d + "/EARLIEST")->text == std::to_string(t.first), "the hint says what was committed");
    t.fs->fail_at = 0;
    auto r1 = m.LatestSnapshotId();
    auto r2 = m.EarliestSnapshotId();
    VP_CHECK(r1.ok() && r1.value() && *r1.value() == t.last, "the newest snapshot is found after a torn hint");
    VP_CHECK(r2.ok() && r2.value() && *r2.value() == t.first, "the oldest snapshot is found after a torn hint");
    vp_expect("torn");
    if (t.fs->failed) vp_reach("torn");
}
// the newest snapshot of a user; all snapshots; files that are not snapshots
VP_HARNESS(users, 4) {
    const int n = vp_shard();
    Table t(9, n, false, false, true);
    bool mine[3];
    for (int i = 0; i < n; i++) {
        mine[i] = vp::any_bool("mine");
        t.fs->put(t.d + "/snapshot-" + std::to_string(9 + i), json(9 + i, mine[i] ? "me" : "you"));
    }
    auto m = t.mgr(false);
    auto r = m.LatestSnapshotOfUser("me");
    VP_CHECK(r.ok(), "looking up a user's snapshot succeeds");
    int want = -1;
    for (int i = 0; i < n; i++)
        if (mine[i]) want = 9 + i;
    VP_CHECK(r.value().has_value() == (want >= 0), "a user's snapshot is found if there is one");
    if (want >= 0) {
        VP_CHECK(r.value()->Id() == want && r.value()->CommitUser() == "me" && r.value()->CommitIdentifier() == want * 10 && r.value()->TimeMillis() == 1000 + want, "it is the user's newest one");
        vp_expect("found");
        vp_reach("found");
    }
    auto all = m.GetAllSnapshots();
    VP_CHECK(all.ok() && all.value().size() == size_t(n), "all snapshots are listed");
    for (int i = 0; i < n; i++) {
        int seen = 0;
        for (auto& s : all.value()) seen += s.Id() == 9 + i;
        VP_CHECK(seen == 1, "every snapshot is listed once");
    }
    auto x = m.TryGetNonSnapshotFiles(1);
    VP_CHECK(x.ok(), "other files are listed");
    VP_CHECK(x.value().count(t.d + "/.snapshot-77.f00.tmp") == 1 && x.value().count(t.d + "/LATEST.tmp") == 1, "other files are found");
    for (auto& p : x.value()) VP_CHECK(p.find("/snapshot-") == std::string::npos && p.find("/LATEST", p.size() - 7) == std::string::npos, "no snapshot counts as another file");
    auto none = m.TryGetNonSnapshotFiles(0);
    VP_CHECK(none.ok() && none.value().empty(), "younger files are left alone");
}
