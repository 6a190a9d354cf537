// C51: a table commit is atomic under failures, crashes and concurrent committers.
// vp-extra: src/paimon/core/operation/file_store_commit_impl.cpp src/paimon/core/operation/manifest_file_merger.cpp src/paimon/core/operation/file_store_scan.cpp src/paimon/core/operation/append_only_file_store_scan.cpp src/paimon/core/operation/expire_snapshots.cpp src/paimon/core/manifest/partition_entry.cpp src/paimon/core/table/sink/commit_message_impl.cpp src/paimon/core/schema/table_schema.cpp src/paimon/core/utils/snapshot_manager.cpp src/paimon/core/utils/file_utils.cpp src/paimon/core/snapshot.cpp src/paimon/core/utils/file_store_path_factory.cpp src/paimon/common/utils/binary_row_partition_computer.cpp src/paimon/core/io/data_file_path_factory.cpp src/paimon/core/io/data_file_meta.cpp src/paimon/core/stats/simple_stats.cpp src/paimon/core/manifest/manifest_entry.cpp src/paimon/core/manifest/manifest_file_meta.cpp src/paimon/core/core_options.cpp src/paimon/common/types/data_field.cpp src/paimon/common/data/*.cpp src/paimon/common/data/serializer/*.cpp src/paimon/common/fs/file_system.cpp src/paimon/common/utils/path_util.cpp src/paimon/common/utils/string_utils.cpp src/paimon/common/predicate/*.cpp src/paimon/common/metrics/*.cpp src/paimon/common/options/*.cpp
// vp-flags: -DVP_FMT_REAL
// vp-bounds: tables of 0..2 snapshots; one commit of one or two new files in two partitions, possibly removing an old file, or an overwrite of a partition; manifests kept, merged or fully compacted; with and without row tracking; a second committer publishing one or two snapshots at any file-system call; one call or three in a row failing (a failing rename possibly taking effect), or the process stopping at a call, followed by a repeated commit by the same or a new process; merging of 1..4 manifests of any sizes with any settings
// vp-assume: renaming onto an existing file fails (the file system's contract); manifests are written whole or not at all (their writer deletes a torn file)
// vp-stubs: file system harness/memfs.h; the encoding of manifests (harness/table.h registers contents); index manifests and the schema directory; tasks run at once; the clock is fixed; sleeping returns at once; unique identifiers are numbered
#include "table.h"
#include "opts.h"
#define private public
#include "paimon/core/manifest/index_manifest_file.h"
#include "paimon/core/operation/file_store_commit_impl.h"
#include "paimon/core/schema/table_schema.h"
#undef private
#include "paimon/core/operation/expire_snapshots.h"
#include "paimon/core/manifest/manifest_committable.h"
#include "paimon/core/operation/manifest_file_merger.h"
#include "paimon/core/schema/schema_manager.h"
#include "paimon/core/table/sink/commit_message_impl.h"
using namespace paimon;
using table::Table;
namespace paimon {
static Result<std::string> store(FileSystem* fs, const std::string& path, size_t n) {
    Status s = fs->WriteFile(path, std::to_string(n), false);
    if (!s.ok()) {
        Status d = fs->Delete(path);
        (void)d;
        return s;
    }
    return path.substr(path.rfind('/') + 1);
}
Result<std::pair<std::string, int64_t>> ManifestList::Write(const std::vector<ManifestFileMeta>& metas) {
    size_t n = table::lists().size();
    table::lists().push_back(metas);
    PAIMON_ASSIGN_OR_RAISE(std::string name, store(file_system_.get(), path_factory_->NewPath(), n));
    return std::make_pair(name, int64_t(10));
}
static ManifestFileMeta describe(const std::string& name, const std::vector<ManifestEntry>& v) {
    int64_t add = 0, del = 0;
    int lo = 1, hi = 0;
    for (auto& e : v) {
        (e.Kind() == FileKind::Add() ? add : del)++;
        int p = e.Partition().GetInt(0);
        lo = p < lo ? p : lo;
        hi = p > hi ? p : hi;
    }
    SimpleStats stats(table::row(lo), table::row(hi), BinaryArray::FromLongArray(std::vector<int64_t>(1, 0), GetDefaultPool().get()));
    return ManifestFileMeta(name, 100 * int64_t(v.size()), add, del, stats, 0, std::nullopt, std::nullopt, std::nullopt, std::nullopt, std::nullopt, std::nullopt);
}
Result<std::vector<ManifestFileMeta>> ManifestFile::Write(const std::vector<ManifestEntry>& entries) {
    std::vector<ManifestFileMeta> r;
    if (entries.empty()) return r;
    size_t n = table::manifests().size();
    table::manifests().emplace_back();
    for (auto& e : entries) table::manifests().back().push_back(table::clone(e));
    PAIMON_ASSIGN_OR_RAISE(std::string name, store(file_system_.get(), path_factory_->NewPath(), n));
    r.push_back(describe(name, entries));
    return r;
}
IndexManifestFile::IndexManifestFile(const std::shared_ptr<FileSystem>& fs, const std::shared_ptr<ReaderBuilder>& r, const std::shared_ptr<WriterBuilder>& w, const std::string& c,
                                     const std::shared_ptr<PathFactory>& p, const std::shared_ptr<MemoryPool>& pool)
    : ObjectsFile<IndexManifestEntry>(fs, r, w, nullptr, c, p, pool) {}
Result<std::optional<std::string>> IndexManifestFile::WriteIndexFiles(const std::optional<std::string>& previous, const std::vector<IndexManifestEntry>& files) {
    if (files.empty()) return previous;
    PAIMON_ASSIGN_OR_RAISE(std::string name, store(file_system_.get(), path_factory_->NewPath(), 0));
    return std::optional<std::string>(name);
}
CommitMessage::~CommitMessage() = default;
// The local time zone is UTC (the conversion is Arrow's).
Result<Timestamp> to_utc(const Timestamp& t) __asm__("_ZN6paimon13DateTimeUtils14ToUTCTimestampERKNS_9TimestampE");
__attribute__((used)) Result<Timestamp> to_utc(const Timestamp& t) { return t; }
SchemaManager::SchemaManager(const std::shared_ptr<FileSystem>& fs, const std::string& root) : file_system_(fs), table_root_(root) {}
Result<std::optional<std::shared_ptr<TableSchema>>> SchemaManager::Latest() const {
    PAIMON_ASSIGN_OR_RAISE(bool there, file_system_->Exists("/t/schema"));
    (void)there;
    return std::optional<std::shared_ptr<TableSchema>>();
}
}  // namespace paimon
struct Live {
    std::map<std::string, std::shared_ptr<DataFileMeta>> files;  // by path
    bool whole = true;                                           // nothing the snapshot names is missing
};
struct World {
    Table t{true};
    bool tracking = false;
    std::map<std::string, std::string> options;
    int others = 0;
    std::map<int64_t, std::string> published;  // snapshot files of the other committer, as written
    static std::string path(int64_t id) { return "/t/snapshot/snapshot-" + std::to_string(id); }
    int64_t latest() const {
        int64_t id = 0;
        while (t.fs->has(path(id + 1))) id++;
        return id;
    }
    Snapshot load(int64_t id) const {
        auto r = Snapshot::FromJsonString(t.fs->find(path(id))->text);
        VP_CHECK(r.ok(), "every visible snapshot is complete");
        return r.value();
    }
    const std::vector<ManifestFileMeta>* list(const std::string& name) const {
        auto* f = t.fs->find("/t/manifest/" + name);
        return f ? &table::lists()[table::number(f->text)] : nullptr;
    }
    std::vector<ManifestFileMeta> all(const Snapshot& s, bool* whole) const {
        std::vector<ManifestFileMeta> r;
        for (auto& name : {s.BaseManifestList(), s.DeltaManifestList()}) {
            auto* l = list(name);
            *whole &= l != nullptr;
            if (l) r.insert(r.end(), l->begin(), l->end());
        }
        return r;
    }
    Live live(int64_t id) const {
        Live r;
        if (id == 0) return r;
        for (auto& m : all(load(id), &r.whole)) {
            auto* f = t.fs->find("/t/manifest/" + m.FileName());
            r.whole &= f != nullptr;
            if (!f) continue;
            for (auto& e : table::manifests()[table::number(f->text)]) {
                std::string p = t.bucket(e.Partition().GetInt(0), e.Bucket()) + "/" + e.FileName();
                if (e.Kind() == FileKind::Add()) {
                    VP_CHECK(!r.files.count(p), "no file is added twice");
                    r.files[p] = e.File();
                } else {
                    VP_CHECK(r.files.count(p), "only files of the table are removed");
                    r.files.erase(p);
                }
            }
        }
        for (auto& f : r.files) r.whole &= t.fs->has(f.first);
        return r;
    }
    // The other committer publishes a snapshot on top of what is there.
    void other(bool removes) {
        int64_t id = latest() + 1;
        std::vector<ManifestFileMeta> before;
        int64_t rows = 0, total = 0;
        bool whole = true;
        if (id > 1) {
            Snapshot s = load(id - 1);
            before = all(s, &whole);
            rows = s.NextRowId().value_or(0);
            total = s.TotalRecordCount().value_or(0);
        }
        VP_CHECK(whole, "the other committer finds a whole table");
        std::string n = std::to_string(++others);
        int64_t count = 10 * others;
        std::vector<ManifestEntry> v;
        auto old = live(id - 1);
        if (removes && !old.files.empty()) {
            v.emplace_back(FileKind::Delete(), table::row(0), 0, 1, old.files.begin()->second);
            total -= old.files.begin()->second->row_count;
        }
        v.emplace_back(FileKind::Add(), table::row(0), 0, 1, table::data("o" + n, 0, count, tracking ? std::optional<int64_t>(rows) : std::nullopt));
        t.fs->put(t.bucket(0, 0) + "/o" + n, "data");
        t.fs->put("/t/manifest/om" + n, std::to_string(table::manifests().size()));
        table::manifests().push_back(v);
        t.fs->put("/t/manifest/ob" + n, std::to_string(table::lists().size()));
        table::lists().push_back(before);
        t.fs->put("/t/manifest/od" + n, std::to_string(table::lists().size()));
        table::lists().push_back({describe("om" + n, v)});
        Snapshot s(id, 0, "ob" + n, std::nullopt, "od" + n, std::nullopt, std::nullopt, std::nullopt, std::nullopt, "other", id, Snapshot::CommitKind::Append(), 1000, std::map<int32_t, int64_t>{{3, id}},
                   total + count, count, std::nullopt, 50 + id, std::nullopt, std::nullopt, tracking ? std::optional<int64_t>(rows + count) : std::nullopt);
        published[id] = s.ToJsonString().value();
        t.fs->put(path(id), published[id]);
    }
    std::unique_ptr<FileStoreCommitImpl> committer() {
        std::map<std::string, std::string> m = options;
        if (tracking) m["row-tracking.enabled"] = "true";
        if (!processes) FactoryCreator::GetInstance()->Register("none", new opts::Factory());
        m["file.format"] = m["manifest.format"] = "none";
        auto o = CoreOptions::FromMap(m, {}, t.fs);
        VP_CHECK(o.ok(), "the options are accepted");
        t.open(true);  // a fresh name space for new manifests
        processes++;
        auto schema = arrow::schema({arrow::field("p", arrow::int32()), arrow::field("v", arrow::int32())});
        auto pc = BinaryRowPartitionComputer::Create({"p"}, schema, "none", true, GetDefaultPool());
        VP_CHECK(pc.ok(), "the partition computer is created");
        auto sm = std::make_shared<SnapshotManager>(t.fs, "/t");
        auto ts = std::shared_ptr<TableSchema>(new TableSchema(1, 0, {}, 2, {"p"}, {}, {}, 0));
        auto index = std::shared_ptr<IndexManifestFile>(new IndexManifestFile(t.fs, nullptr, nullptr, "", t.paths->CreateIndexManifestFileFactory(), GetDefaultPool()));
        return std::make_unique<FileStoreCommitImpl>(GetDefaultPool(), t.executor, schema, "/t", "me", o.value(), t.paths, std::move(pc).value(), sm, true, false, ts, t.manifest, t.list, index, nullptr,
                                                     std::make_shared<SchemaManager>(t.fs, "/t"));
    }
    int processes = 0;
};
typedef std::vector<std::shared_ptr<CommitMessage>> Messages;
struct Mine {
    std::map<std::string, int64_t> added;  // path -> rows
    std::string removed;
    int64_t id = 7;
    std::map<int32_t, int64_t> offsets;
    Messages make(World& w, bool two, std::shared_ptr<DataFileMeta> old) {
        Messages r;
        for (int i = 0; i < (two ? 2 : 1); i++) {
            std::vector<std::shared_ptr<DataFileMeta>> add, del;
            std::string n = "n" + std::to_string(i);
            add.push_back(table::data(n, 0, 5 + i));
            added[w.t.bucket(i, 0) + "/" + n] = 5 + i;
            w.t.fs->put(w.t.bucket(i, 0) + "/" + n, "data");
            if (i == 0 && old) {
                del.push_back(std::make_shared<DataFileMeta>(*old));
                removed = w.t.bucket(0, 0) + "/" + old->file_name;
            }
            r.push_back(std::make_shared<CommitMessageImpl>(table::row(i), 0, 1, DataIncrement(std::move(add), std::move(del), {}), CompactIncrement({}, {}, {})));
        }
        return r;
    }
};
// How often the commit is in the table; checks every snapshot on the way.
static int audit(const World& w, const Mine& m, bool dropped_partition = false) {
    int64_t last = w.latest();
    int mine = 0;
    Live before;
    int64_t total = 0, next = 0, mark = -1;
    std::map<int32_t, int64_t> offsets;
    for (int64_t id = 1; id <= last; id++) {
        Live now = w.live(id);
        VP_CHECK(now.whole, "every visible snapshot is complete");
        Snapshot s = w.load(id);
        auto it = w.published.find(id);
        if (it != w.published.end()) {
            VP_CHECK(w.t.fs->find(World::path(id))->text == it->second, "a snapshot of another committer is never replaced");
            for (auto& o : s.LogOffsets().value()) offsets[o.first] = o.second;
        } else {
            mine++;
            for (auto& o : m.offsets) offsets[o.first] = o.second;
            VP_CHECK(s.CommitUser() == "me" && s.CommitIdentifier() == m.id && s.Id() == id, "the snapshot names its committer");
            int64_t rows = 0;
            Live want = before;
            if (dropped_partition)
                for (auto f = want.files.begin(); f != want.files.end();)
                    if (f->first.compare(0, 7, "/t/p=0/") == 0) {
                        rows -= f->second->row_count;
                        f = want.files.erase(f);
                    } else
                        ++f;
            if (!m.removed.empty()) {
                rows -= want.files[m.removed]->row_count;
                want.files.erase(m.removed);
            }
            for (auto& a : m.added) rows += a.second;
            VP_CHECK(now.files.size() == want.files.size() + m.added.size(), "the new snapshot holds the old files and the new ones");
            for (auto& f : want.files) VP_CHECK(now.files.count(f.first), "no file of another commit is lost");
            int64_t at = next;
            for (auto& a : m.added) {
                VP_CHECK(now.files.count(a.first), "every file of the commit is in the new snapshot");
                auto& f = now.files[a.first];
                VP_CHECK(f->row_count == a.second, "the files are recorded as given");
                if (w.tracking) {
                    VP_CHECK(f->first_row_id && *f->first_row_id == at, "new rows get the ids after those of the snapshot before");
                    VP_CHECK(f->min_sequence_number == id && f->max_sequence_number == id, "new files carry the number of their snapshot");
                    at += a.second;
                }
            }
            VP_CHECK(s.TotalRecordCount() == std::optional<int64_t>(total + rows) && s.DeltaRecordCount() == std::optional<int64_t>(rows), "record counts add up");
            if (w.tracking) VP_CHECK(s.NextRowId() == std::optional<int64_t>(at), "the next row id is past every row");
            int64_t want_mark = mark > 51 ? mark : 51;
            VP_CHECK(s.Watermark() == std::optional<int64_t>(want_mark), "the watermark never goes back");
            VP_CHECK((s.LogOffsets() && *s.LogOffsets() == offsets), "log offsets are carried on");
        }
        total = s.TotalRecordCount().value_or(0);
        next = s.NextRowId().value_or(0);
        mark = s.Watermark().value_or(-1);
        before = now;
    }
    return mine;
}
static void options(World& w, int form) {
    w.options["commit.max-retries"] = "3";
    if (form == 1) w.options["manifest.merge-min-count"] = "2";
    if (form == 2) {
        w.options["manifest.full-compaction-threshold-size"] = "150 b";
        w.options["manifest.target-file-size"] = "1000 b";
    }
}
static std::shared_ptr<DataFileMeta> oldest(const World& w) {
    Live l = w.live(w.latest());
    return l.files.empty() ? nullptr : l.files.begin()->second;
}
VP_HARNESS(commit, 6) {
    vp_expect("committed");
    World w;
    w.tracking = vp_shard() % 2;
    int form = vp_shard() / 2;
    options(w, form);
    int n = int(vp::choose(3, "snapshots"));
    for (int i = 0; i < n; i++) w.other(i == 1 && vp::any_bool("removes"));
    Mine m;
    Messages msg = m.make(w, vp::any_bool("two"), !w.tracking && vp::any_bool("delete") ? oldest(w) : nullptr);
    auto c = w.committer();
    Status s;
    if (vp::any_bool("offsets")) {
        m.offsets[4] = 9;
        m.offsets[vp::any_bool("same bucket") ? 3 : 2] = 77;
        s = c->Commit(std::make_shared<ManifestCommittable>(m.id, 51, m.offsets, std::map<std::string, std::string>(), msg), vp::any_bool("check"));
    } else
        s = c->Commit(msg, m.id, 51);
    VP_CHECK(s.ok(), "a commit succeeds when nothing fails");
    VP_CHECK(audit(w, m) == 1 && w.latest() == n + 1, "the commit is one new snapshot");
    auto again = w.committer()->FilterAndCommit({{m.id, msg}}, 51);
    VP_CHECK(again.ok() && again.value() == 0 && w.latest() == n + 1, "a committed message is not committed again");
    vp_reach("committed");
}

// Somebody else commits one or two snapshots at any point.
VP_HARNESS(concurrent, 8) {
    vp_expect("raced");
    World w;
    w.tracking = vp_shard() % 2;
    int form = vp_shard() / 2 % 2 * 2;
    options(w, form);
    int n = vp_shard() / 4 * 2;
    for (int i = 0; i < n; i++) w.other(false);
    Mine m;
    Messages msg = m.make(w, true, nullptr);
    auto c = w.committer();
    int twice = vp::any_bool("twice") ? 2 : 1;
    bool removes = vp::any_bool("removes");
    w.t.fs->hook_at = vp::any<int>("at");
    VP_ASSUME(w.t.fs->hook_at >= w.t.fs->calls + 1);
    w.t.fs->hook = [&] {
        for (int i = 0; i < twice; i++) w.other(removes);
    };
    Status s = c->Commit(msg, m.id, 51);
    bool raced = !w.t.fs->hook;
    w.t.fs->hook = nullptr;
    int mine = audit(w, m);
    VP_CHECK(mine <= 1, "a commit is never in the table twice");
    VP_CHECK(!s.ok() || mine == 1, "a commit reported as done is in the table");
    if (!s.ok()) {
        auto again = w.committer()->FilterAndCommit({{m.id, msg}}, 51);
        VP_CHECK(again.ok() && audit(w, m) == 1, "repeating the commit leaves it in the table exactly once");
    }
    if (raced && w.latest() > n + 1) vp_reach("raced");
}
// Any call fails, or the process stops there; then the commit is repeated.
VP_HARNESS(faults, 12) {
    vp_expect("failed");
    vp_expect("nothing failed");
    World w;
    bool crash = vp_shard() % 2;
    w.tracking = vp_shard() / 2 % 2;
    int form = vp_shard() / 4;
    options(w, form);
    for (int i = 0; i < 2; i++) w.other(false);
    Mine m;
    Messages msg = m.make(w, true, nullptr);
    auto c = w.committer();
    w.t.fs->fail_at = vp::any<int>("fail_at");
    w.t.fs->crash = crash;
    w.t.fs->torn = vp::any_bool("torn");
    w.t.fs->late = vp::any_bool("late");
    w.t.fs->fail_for = vp::any_bool("thrice") ? 3 : 1;
    VP_ASSUME(w.t.fs->fail_at >= w.t.fs->calls + 1);
    Status s = c->Commit(msg, m.id, 51);
    bool failed = w.t.fs->failed;
    w.t.fs->fail_at = 0;
    w.t.fs->failed = w.t.fs->late = false;
    int mine = audit(w, m);
    VP_CHECK(mine <= 1, "a commit is never in the table twice");
    VP_CHECK(!s.ok() || mine == 1, "a commit reported as done is in the table");
    if (!failed) {
        VP_CHECK(s.ok(), "a commit succeeds when nothing fails");
        vp_reach("nothing failed");
        return;
    }
    vp_reach("failed");
    bool busy = vp::any_bool("other");
    if (busy) w.other(false);
    auto again = w.committer()->FilterAndCommit({{m.id, msg}}, 51);
    VP_CHECK(again.ok(), "repeating the commit succeeds");
    VP_CHECK(audit(w, m) == 1, "repeating the commit leaves it in the table exactly once");
}
// Replacing a partition, with failures and other committers.
VP_HARNESS(overwrite, 6) {
    vp_expect("failed");
    vp_expect("done");
    World w;
    int form = vp_shard() / 2;
    options(w, form);
    for (int i = 0; i < 2; i++) w.other(false);
    Mine m;
    Messages msg;
    if (vp::any_bool("insert")) msg = m.make(w, false, nullptr);
    auto c = w.committer();
    if (vp_shard() % 2) {
        w.t.fs->hook_at = vp::any<int>("at");
        VP_ASSUME(w.t.fs->hook_at >= w.t.fs->calls + 1);
        w.t.fs->hook = [&] { w.other(false); };
    } else {
        w.t.fs->fail_at = vp::any<int>("fail_at");
        VP_ASSUME(w.t.fs->fail_at >= w.t.fs->calls + 1);
    }
    std::vector<std::map<std::string, std::string>> parts = {{{"p", "0"}}};
    Status s = c->Overwrite(parts, msg, m.id, 51);
    w.t.fs->hook = nullptr;
    w.t.fs->fail_at = 0;
    m.removed = "";
    int mine = audit(w, m, true);
    VP_CHECK(mine <= 1, "an overwrite is never in the table twice");
    VP_CHECK(!s.ok() || mine == 1, "an overwrite reported as done is in the table");
    if (s.ok()) {
        vp_reach("done");
        return;
    }
    vp_reach("failed");
    auto again = w.committer()->FilterAndOverwrite(parts, msg, m.id, 51);
    VP_CHECK(again.ok() && audit(w, m, true) == 1, "repeating the overwrite leaves it in the table exactly once");
}

// Merging manifests keeps the live files, whatever their sizes; a failure leaves everything as it was.
VP_HARNESS(merge, 8) {
    vp_expect("kept");
    int n = 1 + vp_shard() / 2;
    bool faults = vp_shard() % 2;
    if (n > 1) {
        vp_expect("merged");
        if (faults) vp_expect("failed");
    }
    World w;
    std::vector<ManifestFileMeta> all;
    std::set<std::string> live;
    std::vector<std::string> names;
    for (int i = 0; i < n; i++) {
        std::vector<ManifestEntry> v;
        std::string file = "f" + std::to_string(i), last = "f" + std::to_string(i - 1);
        int kind = int(vp::choose(i ? 3 : 1, "kind"));  // adds a file, replaces the last one, only removes it
        if (kind > 0 && live.erase(last))
            v.emplace_back(FileKind::Delete(), table::row(0), 0, 1, table::data(last));
        else
            kind = 0;
        if (kind < 2) {
            v.emplace_back(FileKind::Add(), table::row(0), 0, 1, table::data(file));
            live.insert(file);
        }
        std::string name = "m" + std::to_string(i);
        names.push_back(name);
        w.t.fs->put("/t/manifest/" + name, std::to_string(table::manifests().size()));
        table::manifests().push_back(v);
        int64_t size = vp::any<int64_t>("size");
        VP_ASSUME(size >= 0 && size < (int64_t(1) << 40));
        ManifestFileMeta d = describe(name, v);
        all.push_back(ManifestFileMeta(name, size, d.NumAddedFiles(), d.NumDeletedFiles(), d.PartitionStats(), 0, std::nullopt, std::nullopt, std::nullopt, std::nullopt, std::nullopt, std::nullopt));
    }
    size_t files = w.t.fs->files.size();
    if (faults) {
        w.t.fs->fail_at = vp::any<int>("fail_at");
        VP_ASSUME(w.t.fs->fail_at >= w.t.fs->calls + 1);
    }
    int64_t target = vp::any<int64_t>("target"), full = vp::any<int64_t>("full");
    int32_t least = vp::any<int32_t>("least");
    VP_ASSUME(target >= 0 && full >= 0 && least >= 1);
    auto r = ManifestFileMerger::Merge(all, target, least, full, w.t.manifest.get());
    for (auto& m : names) VP_CHECK(w.t.fs->has("/t/manifest/" + m), "manifests older snapshots need stay");
    if (!r.ok()) {
        VP_CHECK(w.t.fs->failed, "merging succeeds when nothing fails");
        VP_CHECK(w.t.fs->files.size() == files, "a failed merge leaves nothing behind");
        vp_reach("failed");
        return;
    }
    std::set<std::string> after;
    for (auto& m : r.value()) {
        auto* f = w.t.fs->find("/t/manifest/" + m.FileName());
        VP_CHECK(f != nullptr, "every merged manifest is stored");
        for (auto& e : table::manifests()[table::number(f->text)]) {
            if (e.Kind() == FileKind::Add())
                VP_CHECK(after.insert(e.FileName()).second, "no file is added twice");
            else
                VP_CHECK(after.erase(e.FileName()) == 1, "only files of the table are removed");
        }
    }
    VP_CHECK(after == live, "merging manifests keeps exactly the live files");
    vp_reach(r.value().size() < all.size() ? "merged" : "kept");
}
