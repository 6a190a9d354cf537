// Histories of snapshots in the in-memory table, with the files each snapshot needs.
#pragma once
#include "table.h"
using namespace paimon;
using table::Table;
struct Snap {
    std::string base, delta;
    std::set<std::string> needed;  // every path a reader of this snapshot opens
    int64_t time = 0;
};
struct History {
    Table t{true};
    int64_t first = 1;
    std::vector<Snap> s;
    std::vector<ManifestEntry> live;
    std::vector<ManifestFileMeta> all;  // manifests of the newest snapshot
    int names = 0;
    static int part(int i) { return i & 1; }
    static int buck(int i) { return (i >> 1) & 1; }
    std::string file(const ManifestEntry& e) const { return t.bucket(e.Partition().GetInt(0), e.Bucket()) + "/" + e.FileName(); }
    ManifestFileMeta write(const std::vector<ManifestEntry>& v) {
        std::string name = "manifest-" + std::to_string(names++);
        t.fs->put("/t/manifest/" + name, std::to_string(table::manifests().size()));
        table::manifests().push_back(v);
        return ManifestFileMeta(name, 100, 1, 0, SimpleStats::EmptyStats(), 0, std::nullopt, std::nullopt, std::nullopt, std::nullopt, std::nullopt, std::nullopt);
    }
    std::string write_list(const std::vector<ManifestFileMeta>& v) {
        std::string name = "manifest-list-" + std::to_string(names++);
        t.fs->put("/t/manifest/" + name, std::to_string(table::lists().size()));
        table::lists().push_back(v);
        return name;
    }
    // removed: index into live or -1; upgrade: the removed file comes back at another level
    void commit(int removed, bool upgrade, bool two, bool merge, int64_t time) {
        int i = int(s.size());
        Snap x;
        x.time = time;
        if (merge && !all.empty()) all = {write(live)};
        x.base = write_list(all);
        std::vector<ManifestEntry> delta;
        if (removed >= 0) {
            ManifestEntry old = live[removed];
            delta.emplace_back(FileKind::Delete(), old.Partition(), old.Bucket(), 2, old.File());
            live.erase(live.begin() + removed);
            if (upgrade) {
                delta.emplace_back(FileKind::Add(), old.Partition(), old.Bucket(), 2, table::data(old.FileName(), 5));
                live.push_back(delta.back());
            }
        }
        if (!upgrade) {
            ManifestEntry e(FileKind::Add(), table::row(part(i)), buck(i), 2, table::data("data-" + std::to_string(i) + ".orc"));
            t.fs->put(file(e), "data");
            delta.push_back(e);
            live.push_back(e);
        }
        std::vector<ManifestFileMeta> dm;
        if (two && delta.size() > 1) {
            dm.push_back(write({delta[0]}));
            dm.push_back(write(std::vector<ManifestEntry>(delta.begin() + 1, delta.end())));
        } else
            dm.push_back(write(delta));
        x.delta = write_list(dm);
        for (auto& m : dm) all.push_back(m);
        int64_t id = first + i;
        Snapshot sn(id, 0, x.base, std::nullopt, x.delta, std::nullopt, std::nullopt, std::nullopt, std::nullopt, "u", id, Snapshot::CommitKind::Append(), time, std::nullopt, 1, 1, std::nullopt,
                    std::nullopt, std::nullopt, std::nullopt, std::nullopt);
        auto j = sn.ToJsonString();
        VP_CHECK(j.ok(), "a snapshot is written as JSON");
        t.fs->put("/t/snapshot/snapshot-" + std::to_string(id), j.value());
        x.needed.insert("/t/snapshot/snapshot-" + std::to_string(id));
        x.needed.insert("/t/manifest/" + x.base);
        x.needed.insert("/t/manifest/" + x.delta);
        for (auto& m : all) x.needed.insert("/t/manifest/" + m.FileName());
        for (auto& e : live) x.needed.insert(file(e));
        s.push_back(x);
    }
};
