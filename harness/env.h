// Environment models shared by the harnesses: nondeterministic streams and small references.
#pragma once
#include <functional>
#include <memory>
#include "paimon/fs/file_system.h"
#include "paimon/memory/bytes.h"
#include "paimon/memory/memory_pool.h"
#include "paimon/result.h"
#include "paimon/status.h"
#include "vp.h"

namespace vp {
using paimon::Bytes;
using paimon::InputStream;
using paimon::MemoryPool;
using paimon::OutputStream;
using paimon::Result;
using paimon::SeekOrigin;
using paimon::Status;

// A well-behaved file held in an array: reads past the end fail (or come back short), nothing moves on failure.
class MemFile : public InputStream {
 public:
    explicit MemFile(std::vector<char> c, bool shortAtEof = false) : data(std::move(c)), shortEof(shortAtEof) {}
    // fault plan: -1 never, otherwise the n-th Read/Seek/Length/GetPos call fails
    bool fault() {
        calls++;
        return failAt >= 0 && calls - 1 == failAt;
    }
    Status Seek(int64_t off, SeekOrigin o) override {
        if (fault()) return Status::IOError("seek fault");
        int64_t base = o == paimon::FS_SEEK_SET ? 0 : o == paimon::FS_SEEK_CUR ? pos : (int64_t)data.size();
        // exact arithmetic without overflow
        if (off < -base || off > (int64_t)data.size() - base) return Status::Invalid("seek outside");
        pos = base + off;
        return Status::OK();
    }
    Result<int64_t> GetPos() const override {
        if (const_cast<MemFile*>(this)->fault()) return Status::IOError("pos fault");
        return pos;
    }
    Result<int32_t> Read(char* b, uint32_t n) override {
        if (fault()) return Status::IOError("read fault");
        uint64_t left = data.size() - pos;
        if (n > left) {
            if (!shortEof) return Status::Invalid("read past end");
            n = (uint32_t)left;
        }
        if (n) memcpy(b, data.data() + pos, n);
        pos += n;
        bytesRead += n;
        return (int32_t)n;
    }
    Result<int32_t> Read(char* b, uint32_t n, uint64_t off) override {
        if (fault()) return Status::IOError("read fault");
        if (off > data.size()) return Status::Invalid("read outside");
        uint64_t left = data.size() - off;
        if (n > left) {
            if (!shortEof) return Status::Invalid("read past end");
            n = (uint32_t)left;
        }
        if (n) memcpy(b, data.data() + off, n);
        return (int32_t)n;
    }
    void ReadAsync(char* b, uint32_t n, uint64_t off, std::function<void(Status)>&& cb) override {
        auto r = Read(b, n, off);
        if (!r.ok()) cb(r.status());
        else if ((uint32_t)r.value() != n) cb(Status::IOError("short async read"));
        else cb(Status::OK());
    }
    Result<std::string> GetUri() const override { return std::string("mem"); }
    Result<uint64_t> Length() const override {
        if (const_cast<MemFile*>(this)->fault()) return Status::IOError("length fault");
        return (uint64_t)data.size();
    }
    Status Close() override { return Status::OK(); }
    std::vector<char> data;
    int64_t pos = 0;
    bool shortEof;
    int failAt = -1;
    int calls = 0;
    uint64_t bytesRead = 0;
};

// A sink collecting what it accepted; may fail or accept fewer bytes.
class MemSink : public OutputStream {
 public:
    Result<int32_t> Write(const char* b, uint32_t n) override {
        calls++;
        if (failAt >= 0 && calls - 1 == failAt) {
            if (shortBy == 0) return Status::IOError("write fault");
            uint32_t k = n > shortBy ? n - shortBy : 0;
            data.insert(data.end(), b, b + k);
            if (k < n) wasShort = true;
            return (int32_t)k;
        }
        data.insert(data.end(), b, b + n);
        return (int32_t)n;
    }
    Status Flush() override { return Status::OK(); }
    Result<int64_t> GetPos() const override { return (int64_t)data.size(); }
    Result<std::string> GetUri() const override { return std::string("sink"); }
    Status Close() override { return Status::OK(); }
    std::vector<char> data;
    int calls = 0, failAt = -1;
    uint32_t shortBy = 0;
    bool wasShort = false;
};

inline std::shared_ptr<MemoryPool> pool() { return paimon::GetDefaultPool(); }

inline std::shared_ptr<Bytes> bytes_of(const std::vector<char>& v) {
    auto b = std::make_shared<Bytes>(v.size(), pool().get());
    if (!v.empty()) memcpy(b->data(), v.data(), v.size());
    return b;
}
inline bool same(const char* a, const char* b, size_t n) {
    bool r = true;
    for (size_t i = 0; i < n; i++) r = r & (a[i] == b[i]);
    return r;
}
}  // namespace vp
