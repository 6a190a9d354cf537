// A file system held in memory whose calls can fail, or stop for good (crash), at any one point.
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "paimon/fs/file_system.h"
#include "vp.h"
namespace memfs {
using paimon::Result;
using paimon::Status;
struct File {
    std::string path, text;
    bool dir;
    int64_t mtime;
};
struct FS : paimon::FileSystem {
    mutable std::vector<File> files;
    mutable int calls = 0;
    int fail_at = 0;        // this call fails ...
    int fail_for = 1;       // ... and so do the next ones, this many in all
    bool crash = false;     // ... and with it every later one
    bool late = false;      // a failing rename takes effect all the same
    mutable bool failed = false;
    mutable std::vector<std::string> deleted;
    int hook_at = 0;                     // before this call ...
    mutable std::function<void()> hook;  // ... somebody else acts on the files
    bool fail() const {
        calls++;
        if (hook && calls == hook_at) {
            auto h = std::move(hook);
            hook = nullptr;
            h();
        }
        bool f = fail_at && (crash ? calls >= fail_at : calls >= fail_at && calls - fail_at < fail_for);
        failed |= f;
        return f;
    }
    static std::string norm(const std::string& p) {
        std::string r = p;
        while (r.size() > 1 && r.back() == '/') r.pop_back();
        return r;
    }
    File* find(const std::string& path) const {
        std::string p = norm(path);
        for (auto& f : files)
            if (f.path == p) return &f;
        return nullptr;
    }
    bool has(const std::string& p) const { return find(p) != nullptr; }
    void put(const std::string& path, const std::string& text, int64_t mtime = 0) const {
        File* f = find(path);
        if (f)
            f->text = text;
        else {
            std::string p = norm(path);
            size_t s = p.rfind('/');
            if (s != std::string::npos && s > 0) mkdir(p.substr(0, s));
            files.push_back({p, text, false, mtime});
        }
    }
    void mkdir(const std::string& path) const {
        std::string p = norm(path);
        if (p.empty() || has(p)) return;
        size_t s = p.rfind('/');
        if (s != std::string::npos && s > 0) mkdir(p.substr(0, s));
        files.push_back({p, "", true, 0});
    }
    struct In : paimon::InputStream {
        const FS* fs;
        std::string text, path;
        int64_t pos = 0;
        Status Close() override { return Status::OK(); }
        Status Seek(int64_t o, paimon::SeekOrigin g) override {
            pos = g == paimon::FS_SEEK_SET ? o : g == paimon::FS_SEEK_CUR ? pos + o : int64_t(text.size()) + o;
            return Status::OK();
        }
        Result<int64_t> GetPos() const override { return pos; }
        Result<int32_t> Read(char* b, uint32_t n) override {
            auto r = Read(b, n, pos);
            if (r.ok()) pos += r.value();
            return r;
        }
        Result<int32_t> Read(char* b, uint32_t n, uint64_t at) override {
            if (fs->fail()) return Status::IOError("read");
            if (at >= text.size()) return int32_t(0);
            if (n > text.size() - at) n = uint32_t(text.size() - at);
            memcpy(b, text.data() + at, n);
            return int32_t(n);
        }
        void ReadAsync(char* b, uint32_t n, uint64_t at, std::function<void(Status)>&& cb) override { cb(Read(b, n, at).status()); }
        Result<std::string> GetUri() const override { return path; }
        Result<uint64_t> Length() const override {
            if (fs->fail()) return Status::IOError("length");
            return uint64_t(text.size());
        }
    };
    struct Out : paimon::OutputStream {
        const FS* fs;
        std::string path;
        Status Close() override { return fs->fail() ? Status::IOError("close") : Status::OK(); }
        Result<int32_t> Write(const char* b, uint32_t n) override {
            bool f = fs->fail();
            File* x = fs->find(path);
            if (f) {  // a failed write may leave a part behind
                if (x && fs->torn && n > 0 && fs->calls == fs->fail_at) x->text.append(b, 1);
                return Status::IOError("write");
            }
            if (!x) return Status::IOError("gone");
            x->text.append(b, n);
            return int32_t(n);
        }
        Status Flush() override { return fs->fail() ? Status::IOError("flush") : Status::OK(); }
        Result<int64_t> GetPos() const override {
            File* x = fs->find(path);
            return x ? int64_t(x->text.size()) : int64_t(0);
        }
        Result<std::string> GetUri() const override { return path; }
    };
    bool torn = false;
    Result<std::unique_ptr<paimon::InputStream>> Open(const std::string& p) const override {
        if (fail()) return Status::IOError("open");
        File* f = find(p);
        if (!f || f->dir) return Status::NotExist("open");
        auto in = std::make_unique<In>();
        in->fs = this;
        in->text = f->text;
        in->path = p;
        return std::unique_ptr<paimon::InputStream>(std::move(in));
    }
    Result<std::unique_ptr<paimon::OutputStream>> Create(const std::string& p, bool overwrite) const override {
        if (fail()) return Status::IOError("create");
        File* f = find(p);
        if (f && (f->dir || !overwrite)) return Status::Exist("create");
        put(p, "");
        auto out = std::make_unique<Out>();
        out->fs = this;
        out->path = p;
        return std::unique_ptr<paimon::OutputStream>(std::move(out));
    }
    Status Mkdirs(const std::string& p) const override {
        if (fail()) return Status::IOError("mkdirs");
        mkdir(p);
        return Status::OK();
    }
    Status Rename(const std::string& s, const std::string& d) const override {
        bool lost = fail();
        if (lost && !late) return Status::IOError("rename");
        File* f = find(s);
        if (!f) return Status::NotExist("rename");
        if (has(d)) return Status::Exist("rename");
        std::string text = f->text;
        files.erase(files.begin() + (f - files.data()));
        put(d, text);
        return lost ? Status::IOError("rename") : Status::OK();
    }
    Status Delete(const std::string& path, bool recursive = true) const override {
        if (fail()) return Status::IOError("delete");
        std::string p = norm(path);
        File* f = find(p);
        if (!f) return Status::OK();
        if (f->dir) {
            std::string prefix = p + "/";
            bool any = false;
            for (auto& x : files) any |= x.path.compare(0, prefix.size(), prefix) == 0;
            if (any && !recursive) return Status::IOError("not empty");
            for (size_t i = 0; i < files.size();)
                if (files[i].path.compare(0, prefix.size(), prefix) == 0) {
                    deleted.push_back(files[i].path);
                    files.erase(files.begin() + i);
                } else
                    i++;
            f = find(p);
        }
        deleted.push_back(p);
        files.erase(files.begin() + (f - files.data()));
        return Status::OK();
    }
    struct Stat : paimon::FileStatus {
        File f;
        uint64_t GetLen() const override { return f.text.size(); }
        bool IsDir() const override { return f.dir; }
        std::string GetPath() const override { return f.path; }
        int64_t GetModificationTime() const override { return f.mtime; }
    };
    struct Basic : paimon::BasicFileStatus {
        std::string p;
        bool d;
        bool IsDir() const override { return d; }
        std::string GetPath() const override { return p; }
    };
    Result<std::unique_ptr<paimon::FileStatus>> GetFileStatus(const std::string& p) const override {
        if (fail()) return Status::IOError("stat");
        File* f = find(p);
        if (!f) return Status::NotExist("stat");
        auto s = std::make_unique<Stat>();
        s->f = *f;
        return std::unique_ptr<paimon::FileStatus>(std::move(s));
    }
    bool child(const std::string& dir, const File& f) const {
        std::string prefix = norm(dir) + "/";
        return f.path.size() > prefix.size() && f.path.compare(0, prefix.size(), prefix) == 0 && f.path.find('/', prefix.size()) == std::string::npos;
    }
    Status ListDir(const std::string& dir, std::vector<std::unique_ptr<paimon::BasicFileStatus>>* out) const override {
        if (fail()) return Status::IOError("list");
        if (!has(dir)) return Status::OK();
        for (auto& f : files)
            if (child(dir, f)) {
                auto b = std::make_unique<Basic>();
                b->p = f.path;
                b->d = f.dir;
                out->push_back(std::move(b));
            }
        return Status::OK();
    }
    Status ListFileStatus(const std::string& dir, std::vector<std::unique_ptr<paimon::FileStatus>>* out) const override {
        if (fail()) return Status::IOError("list");
        if (!has(dir)) return Status::OK();
        for (auto& f : files)
            if (child(dir, f)) {
                auto s = std::make_unique<Stat>();
                s->f = f;
                out->push_back(std::move(s));
            }
        return Status::OK();
    }
    Result<bool> Exists(const std::string& p) const override {
        if (fail()) return Status::IOError("exists");
        return has(p);
    }
};
}  // namespace memfs
