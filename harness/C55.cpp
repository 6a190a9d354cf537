// C55: storing a file atomically publishes the whole content or nothing.
// vp-native_flags: -Wl,--wrap=access,--wrap=stat,--wrap=lstat,--wrap=opendir,--wrap=readdir,--wrap=closedir,--wrap=remove,--wrap=unlink,--wrap=rmdir,--wrap=mkdir,--wrap=rename,--wrap=fopen,--wrap=fclose,--wrap=fread,--wrap=fwrite,--wrap=ferror,--wrap=feof,--wrap=clearerr,--wrap=fflush,--wrap=fileno,--wrap=fsync,--wrap=fdatasync,--wrap=fseek,--wrap=ftell,--wrap=pread
// vp-flags: -DVP_FMT_REAL
// vp-extra: src/paimon/fs/local/local_file_system.cpp src/paimon/common/fs/file_system.cpp src/paimon/common/utils/path_util.cpp src/paimon/common/utils/string_utils.cpp
// vp-bounds: contents of 0..3 (thorough 0..6) arbitrary bytes; target present or absent, its directory present or absent; a crash before any system call, and any one (thorough: any two) system calls failing with any of 4 error numbers
// vp-bounds: two threads storing to the same target, every interleaving with at most 2 (thorough 3) preemptions
// vp-assume: after a crash a file holds what was synchronised to the disk; a rename is kept or lost as a whole; names come from a source that never repeats
// vp-stubs: the C library's file calls are the in-memory model harness/posixfs.h; the kernel's source of unique names is a counter; Arrow headers are declarations only
// vp-preempt: quick=2 thorough=3
#include "paimon/fs/local/local_file_system.h"
#include "posixfs.h"
using namespace paimon;
static const int s_errno[] = {EIO, EACCES, ENOSPC, EINTR};
static const char* const T = "/t/s/snap-1";
// the same file, by its plain path or as a URI
static std::string named() { return vp::any_bool("with scheme") ? std::string("file:") + T : std::string(T); }
static int setup(int where) {
    pfs::reset();
    pfs::add("/t", true);
    if (where > 0) pfs::add("/t/s", true);
    if (where > 1) pfs::add(T, false, "old");
    pfs::add("/t/other", false, "keep");
    return where;
}
static const pfs::Node* at(const std::vector<pfs::Node>& n, const char* p) {
    for (auto& x : n)
        if (x.path == p) return &x;
    return nullptr;
}
static void untouched(const std::vector<pfs::Node>& n) {
    auto* o = at(n, "/t/other");
    VP_CHECK(o && o->live == "keep" && o->disk == "keep", "no other file is touched");
}
static void check_after(Status st, int where, const std::string& c, bool deletable) {
    auto* t = at(pfs::g_nodes, T);
    untouched(pfs::g_nodes);
    if (st.ok()) {
        VP_CHECK(where < 2, "an existing file is not replaced");
        VP_CHECK(t && t->live == c, "success: the file holds the whole content");
        VP_CHECK(t->disk == c, "success: the content survives a crash");
    } else if (where < 2) {
        VP_CHECK(!t, "failure: nothing is published");
    } else {
        VP_CHECK(t && t->live == "old" && t->disk == "old", "failure: the existing file is kept");
    }
    if (deletable)
        for (auto& x : pfs::g_nodes) VP_CHECK(x.dir || x.path == T || x.path == "/t/other", "no temporary file is left behind");
    VP_CHECK(pfs::g_open == 0, "no file is left open");
}
VP_HARNESS(faults, 3) {
    vp_expect("failed");
    if (vp_shard() < 2) vp_expect("stored");
    int where = setup(vp_shard());
    std::string c = vp::any_string(vp::choose(vp_tier() ? 7 : 4, "length"), "content");
    int max = 48;
    pfs::g_fault_at = vp::choose(max + 1, "failing call");
    if (pfs::g_fault_at) pfs::g_errno = s_errno[vp::choose(4, "error")];
    if (vp_tier() && pfs::g_fault_at) pfs::g_fault2_at = pfs::g_fault_at + vp::choose(max + 1, "second failing call");
    LocalFileSystem fs;
    Status st = fs.AtomicStore(named(), c);
    VP_CHECK(pfs::g_calls <= max, "the bound on the number of calls suffices");
    if (pfs::g_faults == 0) VP_CHECK(st.ok() == (where < 2), "it succeeds when the system does what it is asked");
    // a failure while cleaning up may leave the temporary file
    check_after(st, where, c, pfs::g_faults == 0 || (where < 2 && pfs::g_faults == 1 && !st.ok()));
    vp_reach(st.ok() ? "stored" : "failed");
}
VP_HARNESS(crash, 3) {
    vp_expect("before");
    if (vp_shard() < 2) vp_expect("after");
    int where = setup(vp_shard());
    std::string c = vp::any_string(1 + vp::choose(vp_tier() ? 6 : 3, "length"), "content");
    int max = 48;
    pfs::g_crash_at = 1 + vp::choose(max, "crash before call");
    if (vp_tier()) {
        pfs::g_fault_at = vp::choose(max + 1, "failing call");
        if (pfs::g_fault_at) pfs::g_errno = s_errno[vp::choose(2, "error")];
    }
    LocalFileSystem fs;
    Status st = fs.AtomicStore(named(), c);
    if (!pfs::g_crashed) pfs::g_image = pfs::g_nodes;  // the power fails later
    auto* t = at(pfs::g_image, T);
    untouched(pfs::g_image);
    if (where == 2) {
        VP_CHECK(t && t->disk == "old", "the existing file survives");
        vp_reach("before");
    } else {
        VP_CHECK(!t || t->disk == c, "after a crash: the whole content or nothing");
        if (st.ok() && !pfs::g_crashed) VP_CHECK(t, "what was reported as stored survives");
        vp_reach(t ? "after" : "before");
    }
}
// reading back, and plain writes
VP_HARNESS(read_back, 1) {
    vp_expect("read");
    vp_expect("failed");
    setup(1);
    std::string c = vp::any_string(vp::choose(vp_tier() ? 7 : 4, "length"), "content");
    LocalFileSystem fs;
    bool plain = vp::any_bool("plain write");
    Status st = plain ? fs.WriteFile(named(), c, false) : fs.AtomicStore(named(), c);
    VP_CHECK(st.ok(), "it succeeds when the system does what it is asked");
    pfs::g_calls = 0;
    pfs::g_fault_at = vp::choose(16, "failing call");
    if (pfs::g_fault_at) pfs::g_errno = s_errno[vp::choose(4, "error")];
    std::string d = "left over";
    st = fs.ReadFile(named(), &d);
    bool closing = pfs::g_faults && !strcmp(pfs::g_fault_in, "fclose");
    VP_CHECK(st.ok() == (pfs::g_faults == 0 || closing), "a read succeeds exactly if the system does it");
    if (st.ok()) VP_CHECK(d == c, "what was stored is read back");
    VP_CHECK(pfs::g_open == 0, "no file is left open");
    vp_reach(st.ok() ? "read" : "failed");
}
VP_HARNESS(plain_write, 3) {
    vp_expect("failed");
    int where = setup(vp_shard());
    std::string c = vp::any_string(vp::choose(4, "length"), "content");
    bool over = vp::any_bool("overwrite");
    pfs::g_fault_at = vp::choose(20, "failing call");
    if (pfs::g_fault_at) pfs::g_errno = s_errno[vp::choose(4, "error")];
    LocalFileSystem fs;
    Status st = fs.WriteFile(T, c, over);
    untouched(pfs::g_nodes);
    auto* t = at(pfs::g_nodes, T);
    if (st.ok()) {
        VP_CHECK(where < 2 || over, "an existing file is replaced only when asked to");
        VP_CHECK(t && t->live == c && t->disk == c, "success: the file holds the whole content, on the disk");
    } else {
        VP_CHECK(pfs::g_faults || (where == 2 && !over), "no failure is made up");
        if (where == 2 && !over) VP_CHECK(t && t->live == "old", "a refused write leaves the file alone");
        vp_reach("failed");
    }
    VP_CHECK(pfs::g_open == 0, "no file is left open");
}
static LocalFileSystem* s_fs;
struct Committer {
    const char* content;
    bool ok;
};
static void commit(void* p) {
    Committer* c = (Committer*)p;
    c->ok = s_fs->AtomicStore(T, c->content).ok();
}
VP_HARNESS(two_committers, 1) {
    vp_expect("end");
    setup(1);
    LocalFileSystem fs;
    s_fs = &fs;
    (void)fs.Exists("/t");
    pfs::g_threads = true;
    Committer c[2] = {{"A", false}, {"BB", false}};
    int t[2];
    for (int i = 0; i < 2; i++) t[i] = vp_thread_create(commit, &c[i]);
    for (int i = 0; i < 2; i++) vp_thread_join(t[i]);
    pfs::g_threads = false;
    auto* n = at(pfs::g_nodes, T);
    VP_CHECK(c[0].ok != c[1].ok, "exactly one of two committers stores the file");
    VP_CHECK(n && n->live == c[c[1].ok].content && n->disk == n->live, "the file holds the content of the one that succeeded");
    for (auto& x : pfs::g_nodes) VP_CHECK(x.dir || x.path == T || x.path == "/t/other", "no temporary file is left behind");
    vp_reach("end");
}
