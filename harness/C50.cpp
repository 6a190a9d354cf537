// C50: a path is served by the file system configured for its scheme; one instance per scheme and authority.
// vp-extra: src/paimon/common/utils/path_util.cpp src/paimon/common/utils/string_utils.cpp src/paimon/common/fs/file_system.cpp
// vp-bounds: scheme map with any of "file", "a", "bc" present or not, two calls on arbitrary paths of up to 7 (thorough 9) bytes, every file system operation
// vp-bounds: 2 threads in first use of the same or of different authorities, every interleaving with at most 3 preemptions
// vp-stubs: three file system factories of the harness that record what they are asked; Arrow headers are declarations only
// vp-preempt: quick=3 thorough=4
// vp-replay: tsan
#include <map>
#include "paimon/common/fs/resolving_file_system.h"
#include "paimon/factories/factory_creator.h"
#include "paimon/fs/file_system_factory.h"
#include "vp.h"
using namespace paimon;
static int s_made;
static const FileSystem* s_fs;  // who served the last call
static int s_op;
static std::string s_a, s_b;
static bool s_flag;
struct Fs : FileSystem {
    explicit Fs(int f) : factory(f) {}
    int factory;
    Status note(int op, const std::string& a, const std::string& b = "", bool f = false) const {
        s_fs = this; s_op = op; s_a = a; s_b = b; s_flag = f;
        return Status::CapacityError("noted");
    }
    Result<std::unique_ptr<InputStream>> Open(const std::string& p) const override { return note(0, p); }
    Result<std::unique_ptr<OutputStream>> Create(const std::string& p, bool o) const override { return note(1, p, "", o); }
    Status Mkdirs(const std::string& p) const override { return note(2, p); }
    Status Rename(const std::string& a, const std::string& b) const override { return note(3, a, b); }
    Status Delete(const std::string& p, bool r) const override { return note(4, p, "", r); }
    Result<std::unique_ptr<FileStatus>> GetFileStatus(const std::string& p) const override { return note(5, p); }
    Status ListDir(const std::string& p, std::vector<std::unique_ptr<BasicFileStatus>>*) const override { return note(6, p); }
    Status ListFileStatus(const std::string& p, std::vector<std::unique_ptr<FileStatus>>*) const override { return note(7, p); }
    Result<bool> Exists(const std::string& p) const override { return note(8, p); }
};
struct Fac : FileSystemFactory {
    explicit Fac(int i) : id(i) {}
    int id;
    const char* Identifier() const override { return "f"; }
    Result<std::unique_ptr<FileSystem>> Create(const std::string&, const std::map<std::string, std::string>& o) const override {
        s_made++;
        VP_CHECK(o.size() == 1 && o.count("k") && o.at("k") == "v", "the configured options reach the file system");
        return std::unique_ptr<FileSystem>(new Fs(id));
    }
};
static const char* const s_id[] = {"fs-file", "fs-a", "fs-bc", "fs-default"};
static void install() {
    auto c = FactoryCreator::GetInstance();
    for (int i = 0; i < 4; i++)
        if (!c->Create(s_id[i])) c->Register(s_id[i], new Fac(i));
    s_made = 0;
    s_fs = nullptr;
}
static Status call(const FileSystem& r, int op, const std::string& p, const std::string& q, bool f) {
    std::vector<std::unique_ptr<BasicFileStatus>> l;
    std::vector<std::unique_ptr<FileStatus>> m;
    switch (op) {
        case 0: return r.Open(p).status();
        case 1: return r.Create(p, f).status();
        case 2: return r.Mkdirs(p);
        case 3: return r.Rename(p, q);
        case 4: return r.Delete(p, f);
        case 5: return r.GetFileStatus(p).status();
        case 6: return r.ListDir(p, &l);
        case 7: return r.ListFileStatus(p, &m);
        default: return r.Exists(p).status();
    }
}
// reference: scheme up to the first colon that precedes every slash; authority between "//" and the next slash
static void parse(const std::string& p, std::string* scheme, std::string* authority) {
    size_t i = 0;
    while (i < p.size() && p[i] != ':' && p[i] != '/') i++;
    size_t at = 0;
    if (i < p.size() && p[i] == ':') {
        *scheme = p.substr(0, i);
        at = i + 1;
    }
    if (at + 2 < p.size() && p[at] == '/' && p[at + 1] == '/') {
        size_t e = at + 2;
        while (e < p.size() && p[e] != '/') e++;
        *authority = p.substr(at + 2, e - at - 2);
    }
}
static int expected(const std::map<std::string, std::string>& m, const std::string& scheme) {
    if (scheme == "" || scheme == "file") return m.count("file") ? 0 : 3;
    if (scheme == "a") return m.count("a") ? 1 : 3;
    if (scheme == "bc") return m.count("bc") ? 2 : 3;
    return 3;
}
static std::map<std::string, std::string> schemes(int bits) {
    std::map<std::string, std::string> m;
    if (bits & 1) m["file"] = s_id[0];
    if (bits & 2) m["a"] = s_id[1];
    if (bits & 4) m["bc"] = s_id[2];
    return m;
}
static const std::map<std::string, std::string> s_opts{{"k", "v"}};
VP_HARNESS(any_path, 8) {
    vp_expect("default");
    vp_expect("configured");
    vp_expect("refused");
    install();
    auto m = schemes(vp_shard());
    ResolvingFileSystem r(m, s_id[3], s_opts);
    std::string p = vp::any_string(vp::choose(vp_tier() ? 10 : 8, "length"), "path"), q = "q:/z";
    int op = vp::choose(9, "operation");
    bool f = vp::any_bool("flag");
    Status st = call(r, op, p, q, f);
    if (p.empty()) {
        VP_CHECK(!st.ok() && !st.IsCapacityError() && s_fs == nullptr, "no path, no file system");
        vp_reach("refused");
        return;
    }
    std::string sc, au;
    parse(p, &sc, &au);
    int want = expected(m, sc);
    VP_CHECK(st.IsCapacityError() && s_fs != nullptr, "the answer of the file system is returned");
    VP_CHECK(static_cast<const Fs*>(s_fs)->factory == want, "the file system configured for the scheme serves the path");
    VP_CHECK(s_op == op && s_a == p && (op != 3 || s_b == q) && (op != 1 && op != 4 || s_flag == f), "the call is handed on unchanged");
    VP_CHECK(s_made == 1, "one instance was made");
    vp_reach(want == 3 ? "default" : "configured");
    if (vp_shard() == 0) vp_reach("configured");
}
static std::string shaped(int i) {
    // scheme, authority and path with unknown characters in each place
    switch (vp::choose(6, "shape")) {
        case 0: return "/" + vp::any_string(1, "c");
        case 1: return vp::any_string(1, "c") + ":/x";
        case 2: return vp::any_string(1, "c") + "://" + vp::any_string(2, "c") + "/x";
        case 3: return "a://" + vp::any_string(1, "c");
        case 4: return "file:" + vp::any_string(2, "c");
        default: return "bc://" + vp::any_string(2, "c") + "/";
    }
}
VP_HARNESS(two_calls, 2) {
    vp_expect("same");
    vp_expect("other");
    install();
    auto m = schemes(vp_shard() ? 7 : 2);
    ResolvingFileSystem r(m, s_id[3], s_opts);
    std::string p = shaped(0), q = shaped(1);
    std::string ps, pa, qs, qa;
    parse(p, &ps, &pa);
    parse(q, &qs, &qa);
    VP_CHECK(call(r, 8, p, "", false).IsCapacityError(), "served");
    const FileSystem* one = s_fs;
    VP_CHECK(call(r, 0, q, "", false).IsCapacityError(), "served");
    bool same = ps == qs && pa == qa;
    VP_CHECK((s_fs == one) == same, "one instance per scheme and authority");
    VP_CHECK(static_cast<const Fs*>(s_fs)->factory == expected(m, qs), "the file system configured for the scheme serves the path");
    VP_CHECK(s_made == (same ? 1 : 2), "an instance is made once");
    const FileSystem* two = s_fs;
    VP_CHECK(call(r, 2, p, "", false).IsCapacityError() && s_fs == one, "the instance is kept");
    VP_CHECK(call(r, 2, q, "", false).IsCapacityError() && s_fs == two, "the instance is kept");
    VP_CHECK(s_made == (same ? 1 : 2), "an instance is made once");
    vp_reach(same ? "same" : "other");
}
// an identifier nobody registered: an error every time, and nothing remembered that would serve another scheme
VP_HARNESS(unknown, 1) {
    vp_expect("end");
    install();
    std::map<std::string, std::string> m{{"a", "nobody"}, {"bc", s_id[2]}};
    ResolvingFileSystem r(m, s_id[3], s_opts);
    std::string au = vp::any_string(1, "authority");
    for (int i = 0; i < 2; i++) {
        Status st = call(r, 8, "a://" + au + "/x", "", false);
        VP_CHECK(!st.ok() && !st.IsCapacityError() && s_fs == nullptr, "an unknown file system is an error");
    }
    VP_CHECK(call(r, 8, "bc://" + au + "/x", "", false).IsCapacityError() && static_cast<const Fs*>(s_fs)->factory == 2, "other schemes are still served");
    vp_reach("end");
}
struct One {
    ResolvingFileSystem* r;
    const char* path;
    const FileSystem* got;
};
static void user(void* p) {
    One* o = (One*)p;
    auto f = o->r->GetRealFileSystem(o->path);
    o->got = f.ok() ? f.value().get() : nullptr;
}
VP_HARNESS(first_users, 2) {
    vp_expect("end");
    install();
    auto m = schemes(7);
    ResolvingFileSystem r(m, s_id[3], s_opts);
    One o[2] = {{&r, "a://h/x", nullptr}, {&r, vp_shard() ? "a://g/y" : "a://h/y", nullptr}};
    int t[2];
    for (int i = 0; i < 2; i++) t[i] = vp_thread_create(user, &o[i]);
    for (int i = 0; i < 2; i++) vp_thread_join(t[i]);
    VP_CHECK(o[0].got && o[1].got, "both are served");
    VP_CHECK((o[0].got == o[1].got) == !vp_shard(), "one instance per scheme and authority");
    VP_CHECK(s_made == 1 + vp_shard(), "an instance is made once");
    vp_reach("end");
}
