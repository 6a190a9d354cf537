// The operating system's file interface as a small in-memory model with faults and crashes.
// Under the symbolic executor the functions below stand for libc's; natively they are linked in with --wrap.
#pragma once
#include <dirent.h>
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <mutex>
#include <string>
#include <vector>
#include "vp.h"
#ifdef VP_SYMBOLIC
#define PFS(n) vpm_##n
#else
#define PFS(n) __wrap_##n
extern "C" {
int __real_fflush(FILE*);
int __real_fclose(FILE*);
int __real_fileno(FILE*);
int __real_ferror(FILE*);
int __real_feof(FILE*);
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
size_t __real_fread(void*, size_t, size_t, FILE*);
}
#endif
#ifdef VP_SYMBOLIC
#define PFS_FOREIGN(n, args)
#else
#define PFS_FOREIGN(n, args) if (!pfs::own(h)) return __real_##n args;
#endif
namespace pfs {
struct Node {
    std::string path;
    bool dir;
    std::string live;  // what other processes see
    std::string disk;  // what survives a crash
    long mtime;
};
struct File {
    int node;
    bool write, err, eof;
    size_t pos;
    std::string pending;  // stdio buffer
};
struct Dir {
    std::vector<std::string> names;
    size_t next;
    struct dirent ent;
};
static std::mutex g_mu;
static bool g_threads;  // several threads use the model: one call at a time
struct Serial {
    Serial() { if (g_threads) g_mu.lock(); }
    ~Serial() { if (g_threads) g_mu.unlock(); }
};
static std::vector<Node> g_nodes;
static std::vector<Node> g_image;  // disk contents at the crash
static int g_calls, g_fault_at, g_fault2_at, g_crash_at, g_errno, g_faults, g_open, g_bad_handle;
static bool g_short;  // positional reads may return fewer bytes than asked
static bool g_crashed;
static int g_stat_mode;  // 0: from the tree
static const char* g_fault_in;  // name of the last call that was made to fail
static void reset() {
    g_nodes.clear();
    g_image.clear();
    g_calls = g_faults = g_open = g_bad_handle = 0;
    g_fault_at = g_fault2_at = g_crash_at = -1;
    g_errno = EIO;
    g_short = g_crashed = g_threads = false;
    g_fault_in = "";
}
static int find(const std::string& p) {
    for (size_t i = 0; i < g_nodes.size(); i++)
        if (g_nodes[i].path == p) return (int)i;
    return -1;
}
static void add(const std::string& p, bool dir, const std::string& data = "") { g_nodes.push_back(Node{p, dir, data, data, 5}); }
static std::string parent(const std::string& p) {
    size_t i = p.rfind('/');
    return i == std::string::npos ? "" : p.substr(0, i);
}
// the parent of a path must be a directory; "" and "/" always are
static int parent_errno(const std::string& p) {
    std::string d = parent(p);
    while (!d.empty()) {
        int i = find(d);
        if (i >= 0) return g_nodes[i].dir ? 0 : ENOTDIR;
        std::string u = parent(d);
        int j = u.empty() ? -2 : find(u);
        if (j >= 0 && !g_nodes[j].dir) return ENOTDIR;
        return ENOENT;
    }
    return 0;
}
// one numbered point per system call: a crash before it, or its failure
static bool fault(const char* name) {
    g_calls++;
    if (g_calls == g_crash_at) {
        g_image = g_nodes;
        g_crashed = true;
    }
    if (g_calls == g_fault_at || g_calls == g_fault2_at) {
        g_faults++;
        g_fault_in = name;
        errno = g_errno;
        return true;
    }
    return false;
}
static bool fail(int e) {
    errno = e;
    return true;
}
static std::vector<File*> g_files;
static File* own(FILE* f) {
    for (auto* x : g_files)
        if ((FILE*)x == f) return x;
    return nullptr;
}
}  // namespace pfs
extern "C" {
__attribute__((used)) int PFS(access)(const char* p, int) {
    pfs::Serial serial;
    using namespace pfs;
    if (fault("access")) return -1;
    if (find(p) >= 0 || !*p) return *p ? 0 : (fail(ENOENT), -1);
    int e = parent_errno(p);
    errno = e ? e : ENOENT;
    return -1;
}
__attribute__((used)) int PFS(stat)(const char* p, struct stat* b) {
    pfs::Serial serial;
    using namespace pfs;
    if (fault("stat")) return -1;
    int i = find(p);
    if (i < 0) {
        int e = parent_errno(p);
        errno = e ? e : ENOENT;
        return -1;
    }
    memset(b, 0, sizeof *b);
    b->st_mode = g_nodes[i].dir ? S_IFDIR | 0755 : S_IFREG | 0644;
    b->st_size = g_nodes[i].dir ? 4096 : (long)g_nodes[i].live.size();
    b->st_mtime = g_nodes[i].mtime;
    return 0;
}
__attribute__((used)) int PFS(lstat)(const char* p, struct stat* b) { return PFS(stat)(p, b); }
__attribute__((used)) DIR* PFS(opendir)(const char* p) {
    pfs::Serial serial;
    using namespace pfs;
    if (fault("opendir")) return nullptr;
    int i = find(p);
    if (i < 0 || !g_nodes[i].dir) {
        errno = i < 0 ? ENOENT : ENOTDIR;
        return nullptr;
    }
    Dir* d = new Dir;
    d->next = 0;
    d->names.push_back(".");
    d->names.push_back("..");
    std::string pre = std::string(p) + "/";
    for (auto& n : g_nodes)
        if (n.path.size() > pre.size() && n.path.compare(0, pre.size(), pre) == 0 && n.path.find('/', pre.size()) == std::string::npos) d->names.push_back(n.path.substr(pre.size()));
    g_open++;
    return (DIR*)d;
}
__attribute__((used)) struct dirent* PFS(readdir)(DIR* h) {
    pfs::Serial serial;
    using namespace pfs;
    Dir* d = (Dir*)h;
    if (fault("readdir")) return nullptr;
    if (d->next >= d->names.size()) return nullptr;
    const std::string& n = d->names[d->next++];
    memcpy(d->ent.d_name, n.c_str(), n.size() + 1);
    return &d->ent;
}
__attribute__((used)) int PFS(closedir)(DIR* h) {
    pfs::Serial serial;
    using namespace pfs;
    delete (Dir*)h;
    g_open--;
    return fault("closedir") ? -1 : 0;
}
static int pfs_remove(const char* p, int kind) {
    using namespace pfs;
    int i = find(p);
    if (i < 0) return fail(ENOENT), -1;
    if (kind == 1 && g_nodes[i].dir) return fail(EISDIR), -1;
    if (kind == 2 && !g_nodes[i].dir) return fail(ENOTDIR), -1;
    if (g_nodes[i].dir) {
        std::string pre = std::string(p) + "/";
        for (auto& n : g_nodes)
            if (n.path.compare(0, pre.size(), pre) == 0) return fail(ENOTEMPTY), -1;
    }
    g_nodes.erase(g_nodes.begin() + i);
    return 0;
}
__attribute__((used)) int PFS(remove)(const char* p) { pfs::Serial serial; return pfs::fault("remove") ? -1 : pfs_remove(p, 0); }
__attribute__((used)) int PFS(unlink)(const char* p) { pfs::Serial serial; return pfs::fault("unlink") ? -1 : pfs_remove(p, 1); }
__attribute__((used)) int PFS(rmdir)(const char* p) { pfs::Serial serial; return pfs::fault("rmdir") ? -1 : pfs_remove(p, 2); }
__attribute__((used)) int PFS(mkdir)(const char* p, mode_t) {
    pfs::Serial serial;
    using namespace pfs;
    if (fault("mkdir")) return -1;
    if (!*p) return fail(ENOENT), -1;
    if (find(p) >= 0) return fail(EEXIST), -1;
    if (int e = parent_errno(p)) return fail(e), -1;
    add(p, true);
    return 0;
}
__attribute__((used)) int PFS(rename)(const char* a, const char* b) {
    pfs::Serial serial;
    using namespace pfs;
    if (fault("rename")) return -1;
    int i = find(a);
    if (i < 0) return fail(ENOENT), -1;
    if (int e = parent_errno(b)) return fail(e), -1;
    std::string from = a, to = b;
    if (from == to) return 0;
    int j = find(to);
    if (j >= 0) {
        if (g_nodes[i].dir != g_nodes[j].dir) return fail(g_nodes[j].dir ? EISDIR : ENOTDIR), -1;
        if (pfs_remove(b, 0) != 0) return -1;
        i = find(from);
    }
    g_nodes[i].path = to;
    for (auto& n : g_nodes)
        if (n.path.compare(0, from.size() + 1, from + "/") == 0) n.path = to + n.path.substr(from.size());
    return 0;
}
__attribute__((used)) FILE* PFS(fopen)(const char* p, const char* mode) {
    pfs::Serial serial;
    using namespace pfs;
    if (fault("fopen")) return nullptr;
    bool w = mode[0] == 'w';
    int i = find(p);
    if (i < 0) {
        int e = parent_errno(p);
        if (!w || e) {
            errno = e ? e : ENOENT;
            return nullptr;
        }
        add(p, false);
        i = (int)g_nodes.size() - 1;
    } else if (g_nodes[i].dir && w) {
        errno = EISDIR;
        return nullptr;
    } else if (w) {
        g_nodes[i].live.clear();
        g_nodes[i].disk.clear();
    }
    File* f = new File;
    f->node = i;
    f->write = w;
    f->err = f->eof = false;
    f->pos = 0;
    g_files.push_back(f);
    g_open++;
    return (FILE*)f;
}
static int pfs_flush(pfs::File* f) {
    using namespace pfs;
    std::string& d = g_nodes[f->node].live;
    if (f->pos > d.size()) d.resize(f->pos);
    d.replace(f->pos, f->pending.size(), f->pending);
    f->pos += f->pending.size();
    f->pending.clear();
    return 0;
}
__attribute__((used)) int PFS(fflush)(FILE* h) {
    pfs::Serial serial;
    using namespace pfs;
    File* f = own(h);
    PFS_FOREIGN(fflush, (h))
    if (fault("fflush")) {
        f->err = true;
        f->pending.clear();
        return EOF;
    }
    return pfs_flush(f);
}
__attribute__((used)) int PFS(fsync)(int fd) {
    pfs::Serial serial;
    using namespace pfs;
    if (fault("fsync")) return -1;
    g_nodes[fd - 100].disk = g_nodes[fd - 100].live;
    return 0;
}
__attribute__((used)) int PFS(fdatasync)(int fd) { return PFS(fsync)(fd); }
__attribute__((used)) int PFS(fileno)(FILE* h) { pfs::Serial serial; PFS_FOREIGN(fileno, (h)) return 100 + pfs::own(h)->node; }
__attribute__((used)) int PFS(fclose)(FILE* h) {
    pfs::Serial serial;
    using namespace pfs;
    File* f = own(h);
    PFS_FOREIGN(fclose, (h))
    bool bad = fault("fclose");
    if (bad) f->pending.clear();
    pfs_flush(f);
    for (size_t i = 0; i < g_files.size(); i++)
        if (g_files[i] == f) g_files.erase(g_files.begin() + i);
    delete f;
    g_open--;
    return bad ? EOF : 0;
}
__attribute__((used)) size_t PFS(fread)(void* b, size_t sz, size_t n, FILE* h) {
    pfs::Serial serial;
    using namespace pfs;
    File* f = own(h);
    PFS_FOREIGN(fread, (b, sz, n, h))
    const std::string& d = g_nodes[f->node].live;
    size_t want = sz * n, left = f->pos < d.size() ? d.size() - f->pos : 0, got = want < left ? want : left;
    if (f->write || g_nodes[f->node].dir || fault("fread")) {
        f->err = true;
        if (f->write || g_nodes[f->node].dir) errno = EBADF;
        got = got / 2;
    } else if (got < want) {
        f->eof = true;
    }
    if (got) memcpy(b, d.data() + f->pos, got);
    f->pos += got;
    return got / sz;
}
__attribute__((used)) size_t PFS(fwrite)(const void* b, size_t sz, size_t n, FILE* h) {
    pfs::Serial serial;
    using namespace pfs;
    File* f = own(h);
    PFS_FOREIGN(fwrite, (b, sz, n, h))
    size_t k = sz * n;
    if (!f->write || fault("fwrite")) {
        f->err = true;
        if (!f->write) errno = EBADF;
        k = f->write ? k / 2 : 0;
    }
    f->pending.append((const char*)b, k);
    return k / sz;
}
__attribute__((used)) int PFS(ferror)(FILE* h) { pfs::Serial serial; PFS_FOREIGN(ferror, (h)) return pfs::own(h)->err; }
__attribute__((used)) int PFS(feof)(FILE* h) { pfs::Serial serial; PFS_FOREIGN(feof, (h)) return pfs::own(h)->eof; }
__attribute__((used)) void PFS(clearerr)(FILE* h) { pfs::Serial serial; pfs::own(h)->err = pfs::own(h)->eof = false; }
__attribute__((used)) int PFS(fseek)(FILE* h, long off, int whence) {
    pfs::Serial serial;
    using namespace pfs;
    File* f = own(h);
    if (fault("fseek")) return -1;
    if (f->write) pfs_flush(f);
    long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (long)f->pos : (long)g_nodes[f->node].live.size();
    if (whence != SEEK_SET && whence != SEEK_CUR && whence != SEEK_END) return fail(EINVAL), -1;
    if (off < -base) return fail(EINVAL), -1;
    f->pos = base + off;
    f->eof = false;
    return 0;
}
__attribute__((used)) int PFS(fseeko)(FILE* h, long off, int whence) { return PFS(fseek)(h, off, whence); }
__attribute__((used)) long PFS(ftell)(FILE* h) {
    pfs::Serial serial;
    using namespace pfs;
    if (fault("ftell")) return -1;
    return (long)(own(h)->pos + own(h)->pending.size());
}
__attribute__((used)) long PFS(ftello)(FILE* h) { return PFS(ftell)(h); }
__attribute__((used)) ssize_t PFS(pread)(int fd, void* b, size_t n, long off) {
    pfs::Serial serial;
    using namespace pfs;
    if (fault("pread")) return -1;
    const std::string& d = g_nodes[fd - 100].live;
    if (off < 0) return fail(EINVAL), -1;
    size_t left = (size_t)off < d.size() ? d.size() - off : 0, got = n < left ? n : left;
    if (g_short && got > 1) got = 1 + vp::choose(got, "bytes returned");
    if (got) memcpy(b, d.data() + off, got);
    return (ssize_t)got;
}
__attribute__((used)) char* PFS(strerror)(int) {
    pfs::Serial serial;
    static char m[] = "error";
    return m;
}
}
