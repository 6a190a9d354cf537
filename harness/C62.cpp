// C62: cleaning orphan files deletes no file of a snapshot, no young file and nothing it does not know.
// vp-extra: src/paimon/core/operation/orphan_files_cleaner_impl.cpp src/paimon/common/options/*.cpp src/paimon/core/utils/snapshot_manager.cpp src/paimon/core/utils/file_utils.cpp src/paimon/core/snapshot.cpp src/paimon/core/utils/file_store_path_factory.cpp src/paimon/common/utils/binary_row_partition_computer.cpp src/paimon/core/io/data_file_path_factory.cpp src/paimon/core/io/data_file_meta.cpp src/paimon/core/stats/simple_stats.cpp src/paimon/core/manifest/manifest_entry.cpp src/paimon/core/manifest/manifest_file_meta.cpp src/paimon/core/core_options.cpp src/paimon/common/types/data_field.cpp src/paimon/common/data/*.cpp src/paimon/common/data/serializer/*.cpp src/paimon/common/fs/file_system.cpp src/paimon/common/utils/path_util.cpp src/paimon/common/utils/string_utils.cpp
// vp-bounds: histories of 1..3 snapshots, the oldest ones already expired or not, in a partitioned table with two buckets; files no snapshot uses in every directory under known and unknown names, of any age and any threshold; a retain condition that keeps any one of them; tables with tags or branches; any single file-system call failing, or the process stopping at it; another process committing a snapshot or expiring the oldest one at any call
// vp-assume: files of a running commit are younger than the threshold
// vp-stubs: file system harness/memfs.h; the encoding of manifests (harness/table.h registers contents); tasks run at once in the calling thread
#include "history.h"
#include "opts.h"
#include "paimon/core/operation/orphan_files_cleaner_impl.h"
static const int64_t VALID = 10000000000LL;  // modification times up to this are not taken for milliseconds
struct Extra {
    std::string path;
    bool known;
    int64_t age;
    bool sure = true;  // no manifest names it, not even as removed
    bool retained = false;
};
struct Site {
    History h;
    std::vector<Extra> extra;
    int64_t older = 0;
    size_t kept = 99;
    void build(int n, int expired) {
        for (int i = 0; i < n; i++) h.commit(i >= 1 ? int(vp::choose(2, "removed")) - 1 : -1, false, false, i == 2, 1000 + i);
        for (int i = 0; i < expired; i++) {
            std::string p = "/t/snapshot/snapshot-" + std::to_string(h.first + i);
            h.t.fs->files.erase(h.t.fs->files.begin() + (h.t.fs->find(p) - h.t.fs->files.data()));
        }
        h.s.erase(h.s.begin(), h.s.begin() + expired);
        h.first += expired;
        for (auto& f : h.t.fs->files) f.mtime = VALID + 1000;
    }
    void add(const std::string& path, bool known, int64_t age) {
        h.t.fs->put(path, "x", age);
        extra.push_back({path, known, age, true});
    }
    // all that no snapshot uses any more
    void leftovers() {
        std::set<std::string> used;
        for (auto& s : h.s) used.insert(s.needed.begin(), s.needed.end());
        for (auto& f : h.t.fs->files)
            if (!f.dir && !used.count(f.path) && f.path.find("/snapshot/") == std::string::npos) {
                bool there = false;
                for (auto& e : extra) there |= e.path == f.path;
                if (!there) extra.push_back({f.path, true, f.mtime, false});
            }
    }
    Result<std::set<std::string>> run() {
        FactoryCreator::GetInstance()->Register("none", new opts::Factory());
        auto o = CoreOptions::FromMap({{"file.format", "none"}, {"manifest.format", "none"}}, {}, h.t.fs);
        VP_CHECK(o.ok(), "the options are accepted");
        std::function<bool(const std::string&)> keep;
        if (kept < extra.size()) {
            std::string p = extra[kept].path, name = p.substr(p.rfind('/') + 1);
            for (auto& e : extra) e.retained = e.path.substr(e.path.rfind('/') + 1) == name;
            keep = [name](const std::string& f) { return f == name; };
        }
        OrphanFilesCleanerImpl c(GetDefaultPool(), h.t.executor, nullptr, "/t", o.value(), std::make_shared<SnapshotManager>(h.t.fs, "/t"), {"p"}, h.t.manifest, h.t.list, older, keep);
        return c.Clean();
    }
    void safe() {
        bool ok = true;
        for (auto& s : h.s)
            for (auto& p : s.needed) ok &= h.t.fs->has(p);
        VP_CHECK(ok, "no file of a snapshot is deleted");
        for (size_t i = 0; i < extra.size(); i++) {
            if (h.t.fs->has(extra[i].path)) continue;
            VP_CHECK(extra[i].known, "files of unknown names stay");
            VP_CHECK(extra[i].age < older, "files younger than the threshold stay");
            VP_CHECK(!extra[i].retained, "files the caller retains stay");
        }
    }
    void complete(const std::set<std::string>& reported) {
        for (size_t i = 0; i < extra.size(); i++) {
            bool there = h.t.fs->has(extra[i].path);
            VP_CHECK((reported.count(extra[i].path) == 1) == !there, "what is reported is what is deleted");
            if (extra[i].sure && extra[i].known && !extra[i].retained && extra[i].age < older) VP_CHECK(!there, "every old orphan is deleted");
        }
    }
};
static const struct {
    const char* path;
    bool known;
} places[] = {{"/t/p=0/bucket-0/data-x.orc", true},      {"/t/p=1/bucket-0/data-x.parquet", true}, {"/t/manifest/manifest-x", true},          {"/t/manifest/manifest-list-x", true},
              {"/t/snapshot/.snapshot-7.tmp", true},     {"/t/p=0/bucket-0/.data-x.orc.tmp", true}, {"/t/p=0/bucket-0/readme.orc", false},     {"/t/p=0/bucket-0/data-x.txt", false},
              {"/t/p=0/data-x.orc", false},              {"/t/index/manifest-x", false},             {"/t/other/bucket-0/data-x.orc", false},   {"/t/snapshot/LATEST", false},
              {"/t/schema/schema-0", false},             {"/t/p=9/bucket-1/data-y.orc", true}};
static int64_t age(bool any) {
    int64_t a = vp::any<int64_t>("age");
    if (!any) VP_ASSUME(a > VALID && a < VALID + 5000);
    return a;
}
VP_HARNESS(clean, 9) {
    vp_expect("deleted");
    vp_expect("stayed");
    Site s;
    int n = vp_shard() / 3 + 1, expired = vp_shard() % 3;
    s.build(n, expired < n ? expired : n - 1);
    int i = int(vp::choose(sizeof(places) / sizeof(places[0]), "place"));
    s.add(places[i].path, places[i].known, age(false));
    int j = int(vp::choose(3, "second"));
    if (j != i) s.add(places[j].path, places[j].known, age(false));
    s.leftovers();
    s.older = vp::any<int64_t>("older_than");
    VP_ASSUME(s.older >= 0);
    if (vp::any_bool("retain")) s.kept = vp::choose(2, "kept");
    auto r = s.run();
    VP_CHECK(r.ok(), "cleaning succeeds when nothing fails");
    s.safe();
    s.complete(r.value());
    vp_reach(r.value().empty() ? "stayed" : "deleted");
}
VP_HARNESS(times, 1) {
    vp_expect("refused");
    vp_expect("deleted");
    Site s;
    s.build(2, 0);
    int64_t all = age(true);
    for (auto& f : s.h.t.fs->files) f.mtime = all;
    s.add(places[0].path, true, age(true));
    s.older = vp::any<int64_t>("older_than");
    VP_ASSUME(s.older >= 0);
    auto r = s.run();
    s.safe();
    bool strange = s.extra[0].age <= VALID && s.extra[0].age < s.older;
    if (strange) {
        vp_reach("refused");
        VP_CHECK(!r.ok() && s.h.t.fs->has(s.extra[0].path), "a time that is not in milliseconds is refused");
    } else if (s.extra[0].age < s.older) {
        VP_CHECK(r.ok() && !s.h.t.fs->has(s.extra[0].path), "every old orphan is deleted");
        vp_reach("deleted");
    }
}
// One failing call, or a stop at it.
VP_HARNESS(faults, 6) {
    vp_expect("failed");
    vp_expect("nothing failed");
    Site s;
    s.build(vp_shard() % 3 + 1, vp_shard() % 3 ? 1 : 0);
    for (int i = 0; i < 6; i++) s.add(places[i].path, places[i].known, VALID + 1000 * (1 + i % 2));
    s.leftovers();
    s.older = VALID + 1500;
    s.h.t.fs->fail_at = vp::any<int>("fail_at");
    VP_ASSUME(s.h.t.fs->fail_at >= 1);
    s.h.t.fs->crash = vp_shard() / 3;
    auto r = s.run();
    s.safe();
    if (s.h.t.fs->failed)
        vp_reach("failed");
    else {
        VP_CHECK(r.ok(), "cleaning succeeds when nothing fails");
        vp_reach("nothing failed");
    }
}
// Tags and branches may need files no snapshot uses: such tables are refused, whatever fails.
VP_HARNESS(tagged, 2) {
    vp_expect("failed");
    vp_expect("nothing failed");
    Site s;
    s.build(2, 1);
    s.leftovers();
    s.h.t.fs->put(vp_shard() ? "/t/branch/branch-b/snapshot/snapshot-1" : "/t/tag/tag-a", "x", VALID + 1);
    s.older = VALID + 5000;
    s.h.t.fs->fail_at = vp::any<int>("fail_at");
    VP_ASSUME(s.h.t.fs->fail_at >= 1);
    auto r = s.run();
    VP_CHECK(!r.ok() && s.h.t.fs->deleted.empty(), "a table with tags or branches is refused and nothing deleted");
    vp_reach(s.h.t.fs->failed ? "failed" : "nothing failed");
}
// Another process commits, or expires the oldest snapshot, at any call.
VP_HARNESS(concurrent, 2) {
    vp_expect("acted");
    Site s;
    s.build(3, 0);
    s.add(places[0].path, true, VALID + 1000);
    s.older = VALID + 1500;
    s.h.t.fs->hook_at = vp::any<int>("at");
    VP_ASSUME(s.h.t.fs->hook_at >= 1);
    s.h.t.fs->hook = [&] {
        if (vp_shard()) {
            std::set<std::string> before;
            for (auto& f : s.h.t.fs->files) before.insert(f.path);
            s.h.commit(0, false, false, true, 5000);
            for (auto& f : s.h.t.fs->files)
                if (!before.count(f.path)) f.mtime = s.older + 1;
        } else {
            std::set<std::string> keep;
            for (size_t i = 1; i < s.h.s.size(); i++) keep.insert(s.h.s[i].needed.begin(), s.h.s[i].needed.end());
            for (auto& p : s.h.s[0].needed)
                if (!keep.count(p)) s.h.t.fs->files.erase(s.h.t.fs->files.begin() + (s.h.t.fs->find(p) - s.h.t.fs->files.data()));
            s.h.s.erase(s.h.s.begin());
            s.h.first++;
        }
    };
    auto r = s.run();
    bool acted = !s.h.t.fs->hook;
    s.h.t.fs->hook = nullptr;
    s.safe();
    if (acted) vp_reach("acted");
}
