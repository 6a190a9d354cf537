// C42: operations on a local file report every failure and never invent data.
// vp-native_flags: -Wl,--wrap=access,--wrap=stat,--wrap=lstat,--wrap=opendir,--wrap=readdir,--wrap=closedir,--wrap=remove,--wrap=unlink,--wrap=rmdir,--wrap=mkdir,--wrap=rename,--wrap=fopen,--wrap=fclose,--wrap=fread,--wrap=fwrite,--wrap=ferror,--wrap=feof,--wrap=clearerr,--wrap=fflush,--wrap=fileno,--wrap=fsync,--wrap=fdatasync,--wrap=fseek,--wrap=ftell,--wrap=pread
// vp-extra: src/paimon/common/utils/path_util.cpp src/paimon/common/utils/string_utils.cpp
// vp-bounds: files of 0..3 (thorough 5) arbitrary bytes, requests of up to 5 (7) bytes at any position; every call of the operating system may fail with any of 6 error numbers, one failure per history; positional reads may return any shorter count
// vp-bounds: histories of up to 3 (thorough 4) reads, writes and seeks
// vp-stubs: the C library's file calls are the in-memory model harness/posixfs.h (stdio buffer, page cache and disk kept apart)
#include "paimon/fs/local/local_file.h"
#include "paimon/fs/local/local_file_status.h"
#include "posixfs.h"
using namespace paimon;
static const int s_errno[] = {EIO, ENOENT, EACCES, ENOTDIR, ENOSPC, EINTR};
static void one_fault(int max_calls) {
    pfs::g_fault_at = vp::choose(max_calls + 1, "failing call");  // 0: none
    if (pfs::g_fault_at) pfs::g_errno = s_errno[vp::choose(6, "error")];
}
static std::string content() { return vp::any_string(vp::choose(vp_tier() ? 6 : 4, "file size"), "data"); }
static const int NREQ() { return vp_tier() ? 8 : 6; }
// a sequential reader
VP_HARNESS(sequential, 2) {
    vp_expect("all");
    vp_expect("some");
    vp_expect("failed");
    pfs::reset();
    std::string d = content();
    pfs::add("/f", false, d);
    LocalFile f("/f");
    VP_CHECK(f.OpenFile(true).ok(), "an existing file opens");
    pfs::g_calls = 0;
    one_fault(4);
    size_t pos = 0;
    for (int i = 0; i < (vp_tier() ? 3 : 2); i++) {
        if (vp_shard()) {
            int64_t off = vp::choose_between(-2, (int)d.size() + 1, "offset");
            int how = vp::choose(3, "from");
            int64_t base = how == SEEK_SET ? 0 : how == SEEK_CUR ? (int64_t)pos : (int64_t)d.size();
            int before = pfs::g_faults;
            Status s = f.Seek(off, how);
            bool fine = base + off >= 0 && pfs::g_faults == before;
            VP_CHECK(s.ok() == fine, "a seek succeeds exactly if the system does it");
            if (fine) pos = base + off;
            if (pfs::g_faults > before) { vp_reach("failed"); return; }
        }
        uint32_t n = vp::choose(NREQ(), "request");
        char b[8];
        memset(b, 0x55, sizeof b);
        int before = pfs::g_faults;
        auto r = f.Read(b, n);
        VP_CHECK(r.ok() == (pfs::g_faults == before), "a read succeeds exactly if the system does it");
        if (!r.ok()) {
            vp_reach("failed");
            return;
        }
        size_t left = pos < d.size() ? d.size() - pos : 0, want = n < left ? n : left;
        VP_CHECK(r.value() == (int32_t)want, "the count is what was transferred");
        for (size_t k = 0; k < want; k++) VP_CHECK(b[k] == d[pos + k], "the bytes are the file's");
        for (size_t k = want; k < sizeof b; k++) VP_CHECK(b[k] == 0x55, "no byte beyond the count is touched");
        pos += want;
        before = pfs::g_faults;
        auto t = f.Tell();
        VP_CHECK(t.ok() == (pfs::g_faults == before), "the position is known exactly if the system tells it");
        if (t.ok()) VP_CHECK(t.value() == (int64_t)pos, "the position is after the bytes read");
        vp_reach(want == n ? "all" : "some");
    }
    VP_CHECK(f.Close().ok() == (pfs::g_faults == 0 || strcmp(pfs::g_fault_in, "fclose") != 0), "closing reports its failure");
    VP_CHECK(pfs::g_open == 0, "closed");
}
// a positional reader, with short counts
VP_HARNESS(positional, 1) {
    vp_expect("whole");
    vp_expect("end");
    vp_expect("failed");
    pfs::reset();
    std::string d = content();
    pfs::add("/f", false, d);
    LocalFile f("/f");
    VP_CHECK(f.OpenFile(true).ok(), "an existing file opens");
    pfs::g_calls = 0;
    pfs::g_short = true;
    one_fault(4);
    uint32_t n = vp::choose(NREQ(), "request");
    uint64_t off = vp::choose(d.size() + 2, "offset");
    char b[8];
    memset(b, 0x55, sizeof b);
    auto r = f.Read(b, n, off);
    VP_CHECK(r.ok() == (pfs::g_faults == 0), "a read succeeds exactly if the system does it");
    if (!r.ok()) {
        vp_reach("failed");
        return;
    }
    size_t left = off < d.size() ? d.size() - off : 0, want = n < left ? n : left;
    VP_CHECK(r.value() == (int32_t)want, "the count is what was transferred");
    for (size_t k = 0; k < want; k++) VP_CHECK(b[k] == d[off + k], "the bytes are the file's");
    for (size_t k = want; k < sizeof b; k++) VP_CHECK(b[k] == 0x55, "no byte beyond the count is touched");
    vp_reach(want == n ? "whole" : "end");
    pfs::g_fault_at = -1;
    VP_CHECK(f.Tell().value() == 0, "the position of sequential reads is not moved");
    VP_CHECK(f.Close().ok(), "closes");
}
// a writer: when everything reported success the bytes are on the disk
VP_HARNESS(writer, 1) {
    vp_expect("stored");
    vp_expect("failed");
    pfs::reset();
    if (vp::any_bool("exists")) pfs::add("/f", false, "old");
    one_fault(8);
    LocalFile f("/f");
    bool ok = f.OpenFile(false).ok();
    VP_CHECK(ok == (pfs::g_faults == 0), "opening reports its failure");
    if (!ok) {
        vp_reach("failed");
        return;
    }
    std::string all;
    bool good = true, flushed = false;
    for (int i = 0; i < (vp_tier() ? 3 : 2) && good; i++) {
        std::string d = vp::any_string(vp::choose(vp_tier() ? 5 : 4, "length"), "bytes");
        std::vector<char> exact(d.begin(), d.end());
        auto w = f.Write(exact.data(), exact.size());
        if (w.ok()) {
            VP_CHECK(w.value() == (int32_t)d.size(), "a successful write took every byte");
            all += d;
        } else {
            good = false;
        }
        flushed = false;
        if (good && vp::any_bool("flush")) {
            Status s = f.Flush();
            if (s.ok()) {
                int n = pfs::find("/f");
                VP_CHECK(n >= 0 && pfs::g_nodes[n].disk == all, "what was flushed is on the disk");
                flushed = true;
            } else {
                good = false;
            }
        }
    }
    if (good) {
        auto t = f.Tell();
        if (t.ok()) VP_CHECK(t.value() == (int64_t)all.size(), "the position is after what was written");
    }
    bool closed = f.Close().ok();
    VP_CHECK((good && closed) || pfs::g_faults > 0, "no failure is made up");
    VP_CHECK(pfs::g_open == 0, "the file is closed");
    if (good && closed) {
        int n = pfs::find("/f");
        VP_CHECK(n >= 0 && pfs::g_nodes[n].live == all, "the file holds exactly what was written");
        vp_reach("stored");
    } else {
        vp_reach("failed");
    }
    if (!strcmp(pfs::g_fault_in, "fwrite") || !strcmp(pfs::g_fault_in, "fflush") || !strcmp(pfs::g_fault_in, "fsync") || !strcmp(pfs::g_fault_in, "fclose"))
        VP_CHECK(!good || !closed, "a failing write, flush or close is reported");
    VP_CHECK(f.Close().ok(), "closing twice is harmless");
}
// questions about a path: absent, a file, a directory, a path below a file
static void tree() {
    pfs::add("/d", true);
    pfs::add("/d/x", false, "abc");
    pfs::add("/d/yy", true);
    pfs::add("/d/yy/z", false, "q");
    pfs::add("/e", true);
}
static const char* const s_path[] = {"/d", "/d/x", "/d/yy", "/e", "/no", "/d/x/no", "/no/no", "/d/.h"};
VP_HARNESS(queries, 8) {
    vp_expect("answered");
    vp_expect("failed");
    pfs::reset();
    tree();
    std::string p = s_path[vp_shard()];
    if (vp_shard() == 7) pfs::add("/d/.h", false, "");
    int node = pfs::find(p);
    bool there = node >= 0, dir = there && pfs::g_nodes[node].dir;
    bool below = vp_shard() == 5;  // the system answers ENOTDIR, which is no proof of absence for the caller
    uint64_t len = there ? pfs::g_nodes[node].live.size() : 0;
    if (there && !dir) pfs::g_nodes[node].mtime = vp::range<long>(-1000000000000l, 1000000000000l, "mtime");
    LocalFile f(p);
    one_fault(7);
    int op = vp::choose(9, "operation");
    bool failed = false;
    auto faulted = [&] { return pfs::g_faults > 0; };
    switch (op) {
        case 0: {
            auto r = f.Exists();
            bool enoent = faulted() && pfs::g_errno == ENOENT;
            if (enoent) break;  // indistinguishable from absence
            VP_CHECK(r.ok() == !(faulted() || below), "existence is an answer or a failure");
            if (r.ok()) VP_CHECK(r.value() == there, "existence is what the system says");
            break;
        }
        case 1: {
            auto r = f.IsFile();
            VP_CHECK(r.ok() == (there && !faulted()), "kind of file: answer or failure");
            if (r.ok()) VP_CHECK(r.value() == !dir, "kind of file as the system says");
            break;
        }
        case 2: {
            auto r = f.IsDir();
            VP_CHECK(r.ok() == (there && !faulted()), "kind of file: answer or failure");
            if (r.ok()) VP_CHECK(r.value() == dir, "kind of file as the system says");
            break;
        }
        case 3: {
            auto r = f.GetFileStatus();
            VP_CHECK(r.ok() == (there && !faulted()), "status: answer or failure");
            if (r.ok()) {
                VP_CHECK(r.value()->IsDir() == dir && r.value()->GetPath() == p, "status as the system says");
                if (!dir) VP_CHECK(r.value()->GetLen() == len && r.value()->GetModificationTime() == pfs::g_nodes[node].mtime * 1000, "length and time as the system says");
            }
            break;
        }
        case 4: {
            auto r = f.Length();
            VP_CHECK(r.ok() == (there && !faulted()), "length: answer or failure");
            if (r.ok() && !dir) VP_CHECK(r.value() == len, "length as the system says");
            break;
        }
        case 5: {
            std::vector<std::string> l{"left over"};
            Status s = f.List(&l);
            VP_CHECK(s.ok() == (there && dir && !faulted()), "a listing is complete or a failure");
            if (s.ok()) {
                size_t n = vp_shard() == 0 ? 2 : vp_shard() == 2 ? 1 : 0;
                VP_CHECK(l.size() == n, "every entry once, nothing else");
                if (vp_shard() == 0) VP_CHECK(l[0] == "x" && l[1] == "yy", "the entries' names");
            }
            break;
        }
        case 6: {
            std::vector<LocalFile> l;
            Status s = f.ListFiles(&l);
            VP_CHECK(s.ok() == (there && dir && !faulted()), "a listing is complete or a failure");
            if (s.ok() && vp_shard() == 0) VP_CHECK(l.size() == 2 && l[0].GetAbsolutePath() == "/d/x" && l[1].GetAbsolutePath() == "/d/yy", "entries below the directory");
            break;
        }
        case 7: {
            Status s = f.Delete();
            bool enoent = faulted() && pfs::g_errno == ENOENT;
            if (enoent) break;
            bool full = vp_shard() == 0 || vp_shard() == 2;
            VP_CHECK(s.ok() == !(faulted() || below || full), "deleting succeeds or reports its failure");
            if (s.ok()) VP_CHECK(pfs::find(p) < 0, "what was deleted is gone");
            else VP_CHECK((pfs::find(p) >= 0) == there, "what failed to be deleted is still there");
            break;
        }
        default: {
            auto r = f.Mkdir();
            VP_CHECK(r.ok(), "mkdir answers whether it made the directory");
            bool can = vp_shard() == 4;
            VP_CHECK(r.value() == (can && !faulted()), "true exactly if the directory was made");
            VP_CHECK((pfs::find(p) >= 0) == (there || r.value()), "true exactly if the directory was made");
        }
    }
    VP_CHECK(pfs::g_open == 0, "no directory handle is left open");
    vp_reach(faulted() ? "failed" : "answered");
}
// opening for reading: only regular files that exist
VP_HARNESS(opening, 8) {
    vp_expect("end");
    pfs::reset();
    tree();
    std::string p = s_path[vp_shard()];
    if (vp_shard() == 7) pfs::add("/d/.h", false, "");
    LocalFile f(p);
    one_fault(4);
    bool read = vp::any_bool("read");
    Status s = f.OpenFile(read);
    int node = pfs::find(p);
    bool can = read ? node >= 0 && !pfs::g_nodes[node].dir : vp_shard() == 1 || vp_shard() == 4 || vp_shard() == 7;
    VP_CHECK(s.ok() == (can && pfs::g_faults == 0), "opening succeeds exactly if the system opens the file");
    char b[2] = {1, 2};
    if (!s.ok()) {
        VP_CHECK(!f.Read(b, 1).ok() && !f.Read(b, 1, 0).ok() && !f.Write(b, 1).ok() && !f.Flush().ok() && !f.Seek(0, SEEK_SET).ok() && !f.Tell().ok(), "a file that is not open answers nothing");
        VP_CHECK(b[0] == 1 && b[1] == 2, "no byte is invented");
    } else {
        pfs::g_fault_at = -1;
        VP_CHECK(f.Close().ok(), "closes");
        VP_CHECK(!f.Read(b, 1).ok() && !f.Read(b, 1, 0).ok() && !f.Write(b, 1).ok() && !f.Flush().ok() && !f.Seek(0, SEEK_SET).ok() && !f.Tell().ok(), "a closed file answers nothing");
    }
    VP_CHECK(pfs::g_open == 0, "nothing is left open");
    vp_reach("end");
}
// requests of 2 GB and more
VP_HARNESS(huge, 1) {
    vp_expect("end");
    pfs::reset();
    pfs::add("/f", false, "abc");
    LocalFile f("/f");
    VP_CHECK(f.OpenFile(true).ok(), "opens");
    uint32_t n = vp::range<uint32_t>(0x80000000u, 0xffffffffu, "length");
    char b[1] = {7};
    VP_CHECK(!f.Read(b, n).ok() && !f.Read(b, n, 0).ok() && !f.Write(b, n).ok(), "a count that cannot be reported is refused");
    VP_CHECK(b[0] == 7, "nothing is transferred");
    VP_CHECK(f.Close().ok(), "closes");
    vp_reach("end");
}
