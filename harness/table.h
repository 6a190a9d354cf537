// A table whose snapshots, manifest lists and manifests live in the in-memory file system. The Avro
// encoding of manifests is replaced by a register of contents; a manifest file holds its number there.
#pragma once
#include <sys/time.h>

#include <functional>
#include <future>
#include <map>
#include <set>
#include <sstream>

#include "memfs.h"
#define private public
#define protected public
#include "paimon/core/manifest/manifest_entry.h"
#include "paimon/core/manifest/manifest_file_meta.h"
#include "paimon/core/utils/objects_file.h"
namespace paimon {
template <>
Status ObjectsFile<ManifestFileMeta>::Read(const std::string&, const std::function<Result<bool>(const ManifestFileMeta&)>&, std::vector<ManifestFileMeta>*) const;
template <>
Status ObjectsFile<ManifestEntry>::Read(const std::string&, const std::function<Result<bool>(const ManifestEntry&)>&, std::vector<ManifestEntry>*) const;
}  // namespace paimon
#include "paimon/core/manifest/manifest_file.h"
#include "paimon/core/manifest/manifest_list.h"
#undef private
#undef protected
#include "arrow/api.h"
#include "paimon/common/data/binary_row.h"
#include "paimon/common/data/binary_row_writer.h"
#include "paimon/common/reader/../executor/future.h"
#include "paimon/core/io/data_file_meta.h"
#include "paimon/core/manifest/manifest_entry.h"
#include "paimon/core/manifest/manifest_file_meta.h"
#include "paimon/core/snapshot.h"
#include "paimon/core/utils/file_store_path_factory.h"
#include "paimon/core/utils/snapshot_manager.h"
#include "paimon/logging.h"
#include "paimon/memory/memory_pool.h"
namespace table {
using namespace paimon;
inline std::vector<std::vector<ManifestFileMeta>>& lists() {
    static std::vector<std::vector<ManifestFileMeta>> v;
    return v;
}
inline std::vector<std::vector<ManifestEntry>>& manifests() {
    static std::vector<std::vector<ManifestEntry>> v;
    return v;
}
inline int64_t& now_ms() {
    static int64_t t = 1000000;
    return t;
}
inline int number(const std::string& s) {
    int v = 0;
    for (char c : s) v = v * 10 + (c - '0');
    return v;
}
// What is stored and read back shares no object with the writer.
inline ManifestEntry clone(const ManifestEntry& e) { return ManifestEntry(e.Kind(), e.Partition(), e.Bucket(), e.TotalBuckets(), std::make_shared<DataFileMeta>(*e.File())); }
inline const ManifestFileMeta& clone(const ManifestFileMeta& m) { return m; }
template <typename T>
Status read(const std::shared_ptr<FileSystem>& fs, const std::string& path, const std::vector<std::vector<T>>& all, const std::function<Result<bool>(const T&)>& filter, std::vector<T>* out) {
    std::string text;
    PAIMON_RETURN_NOT_OK(fs->ReadFile(path, &text));
    int i = number(text);
    VP_CHECK(size_t(i) < all.size(), "only whole manifests are read");
    for (auto& x : all[i]) {
        if (filter) {
            PAIMON_ASSIGN_OR_RAISE(bool keep, filter(x));
            if (!keep) continue;
        }
        out->push_back(clone(x));
    }
    return Status::OK();
}
struct Silent : Logger {
    void LogV(PaimonLogLevel, const char*, int, const char*, const char*, ...) override {}
    bool IsLevelEnabled(PaimonLogLevel) const override { return false; }
};
struct Inline : Executor {
    void Add(std::function<void()> f) override { f(); }
};
inline BinaryRow row(int p) {
    BinaryRow r(1);
    BinaryRowWriter w(&r, 0, GetDefaultPool().get());
    w.WriteInt(0, p);
    w.Complete();
    return r;
}
inline std::shared_ptr<DataFileMeta> data(const std::string& name, int level = 0, int64_t rows = 10, std::optional<int64_t> first = std::nullopt) {
    return std::make_shared<DataFileMeta>(name, 100, rows, BinaryRow::EmptyRow(), BinaryRow::EmptyRow(), SimpleStats::EmptyStats(), SimpleStats::EmptyStats(), 0, 0, 0, level,
                                          std::vector<std::optional<std::string>>(), Timestamp(0, 0), 0, nullptr, FileSource::Append(), std::nullopt, std::nullopt, first, std::nullopt);
}
struct Table {
    std::shared_ptr<memfs::FS> fs = std::make_shared<memfs::FS>();
    std::shared_ptr<SnapshotManager> snapshots;
    std::shared_ptr<FileStorePathFactory> paths;
    std::shared_ptr<ManifestList> list;
    std::shared_ptr<ManifestFile> manifest;
    std::shared_ptr<Executor> executor = std::make_shared<Inline>();
    explicit Table(bool partitioned) {
        lists().clear();
        manifests().clear();
        snapshots = std::make_shared<SnapshotManager>(fs, "/t");
        open(partitioned);
    }
    void open(bool partitioned);
    std::string bucket(int p, int b) const { return "/t/p=" + std::to_string(p) + "/bucket-" + std::to_string(b); }
};
}  // namespace table
namespace paimon {
std::unique_ptr<Logger> Logger::GetLogger(const std::string&) { return std::make_unique<table::Silent>(); }
ManifestList::ManifestList(const std::shared_ptr<FileSystem>& fs, const std::shared_ptr<ReaderBuilder>& r, const std::shared_ptr<WriterBuilder>& w, const std::string& c,
                           const std::shared_ptr<PathFactory>& p, const std::shared_ptr<MemoryPool>& pool)
    : ObjectsFile<ManifestFileMeta>(fs, r, w, nullptr, c, p, pool) {}
ManifestFile::ManifestFile(const std::shared_ptr<FileSystem>& fs, const std::shared_ptr<ReaderBuilder>& r, const std::shared_ptr<WriterBuilder>& w, const std::string& c,
                           const std::shared_ptr<PathFactory>& p, int64_t target, const std::shared_ptr<MemoryPool>& pool, const CoreOptions& o, const std::shared_ptr<arrow::Schema>& s)
    : ObjectsFile<ManifestEntry>(fs, r, w, nullptr, c, p, pool), target_file_size_(target), options_(o), partition_type_(s) {}
template <>
Status ObjectsFile<ManifestFileMeta>::Read(const std::string& name, const std::function<Result<bool>(const ManifestFileMeta&)>& filter, std::vector<ManifestFileMeta>* out) const {
    return table::read<ManifestFileMeta>(file_system_, path_factory_->ToPath(name), table::lists(), filter, out);
}
template <>
Status ObjectsFile<ManifestEntry>::Read(const std::string& name, const std::function<Result<bool>(const ManifestEntry&)>& filter, std::vector<ManifestEntry>* out) const {
    return table::read<ManifestEntry>(file_system_, path_factory_->ToPath(name), table::manifests(), filter, out);
}
}  // namespace paimon
namespace table {
inline void Table::open(bool partitioned) {
    auto schema = arrow::schema({arrow::field("p", arrow::int32()), arrow::field("v", arrow::int32())});
    auto r = FileStorePathFactory::Create("/t", schema, partitioned ? std::vector<std::string>{"p"} : std::vector<std::string>(), "none", "orc", "data-", true, {}, false, GetDefaultPool());
    VP_CHECK(r.ok(), "the path factory is created");
    paths = std::move(r).value();
    list = std::shared_ptr<ManifestList>(new ManifestList(fs, nullptr, nullptr, "", paths->CreateManifestListFactory(), GetDefaultPool()));
    manifest = std::shared_ptr<ManifestFile>(new ManifestFile(fs, nullptr, nullptr, "", paths->CreateManifestFileFactory(), 1000, GetDefaultPool(), CoreOptions(), nullptr));
}
}  // namespace table
extern "C" {
__attribute__((used)) int gettimeofday(struct timeval* tv, void*) noexcept {
    tv->tv_sec = table::now_ms() / 1000;
    tv->tv_usec = table::now_ms() % 1000 * 1000;
    return 0;
}
__attribute__((used)) int vpm_nanosleep(const void*, void*) { return 0; }
__attribute__((used)) void vpm__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const void*) {}
__attribute__((used)) void vpm__ZNSt13random_device7_M_finiEv(void*) {}
__attribute__((used)) unsigned vpm__ZNSt13random_device9_M_getvalEv(void*) { return 4; }
}
