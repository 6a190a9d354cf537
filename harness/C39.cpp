// C39: status and result objects have value semantics and never mask errors.
// vp-bounds: histories of 4 (thorough 6) copies, moves, assignments and combinations over 3 statuses or 3 results, each ok or an error of any code with an arbitrary 2-byte or 20-byte message; values that own memory, and shared pointers converted to their base
#include "paimon/result.h"
#include "paimon/status.h"
#include "vp.h"
using namespace paimon;
static StatusCode any_code() {
    char c = vp::any<char>("code");
    VP_ASSUME(c >= 1 && c <= 13 && c != 8);
    return (StatusCode)c;
}
static int s_msgs;
static std::string any_msg() {
    // short and long messages (with and without memory of their own)
    std::string m = vp::any_string(2, "message");
    if (s_msgs++ % 2) m += "and eighteen more.";
    return m;
}
struct MS {
    bool known = true, ok = true;
    StatusCode code = StatusCode::OK;
    std::string msg;
};
static void same(const Status& s, const MS& w) {
    if (!w.known) return;
    VP_CHECK(s.ok() == w.ok, "success is preserved");
    VP_CHECK(s.code() == w.code, "code is preserved");
    VP_CHECK(s.message() == w.msg, "message is preserved");
}
static MS make(Status& s) {
    MS w;
    if (vp::choose(2, "error")) {
        w.ok = false;
        w.code = any_code();
        w.msg = any_msg();
        s = Status(w.code, w.msg);
    } else
        s = Status::OK();
    return w;
}
VP_HARNESS(statuses, 9) {
    vp_expect("end");
    s_msgs = 0;
    size_t heap = vp_live_heap();
    {
        Status s[3];
        MS w[3];
        for (int i = 0; i < 3; i++) {
            w[i] = make(s[i]);
            same(s[i], w[i]);
        }
        int n = vp_tier() ? 4 : 3;
        for (int k = 0; k < n; k++) {
            int op = k == 0 ? vp_shard() : (int)vp::choose(9, "op");
            int a = (int)vp::choose(2, "target"), b = (int)vp::choose(3, "source");
            if (!w[b].known || (op >= 4 && !w[a].known)) {
                w[b] = make(s[b]);
                if (!w[a].known) w[a] = make(s[a]);
            }
            MS wb = w[b], wa = w[a];
            switch (op) {
                case 0: s[a] = s[b]; w[a] = wb; break;
                case 1:
                    s[a] = std::move(s[b]);
                    w[b].known = false;
                    w[a] = wb;
                    break;
                case 2: {
                    Status c(s[b]);
                    same(c, wb);
                    Status d(std::move(c));
                    same(d, wb);
                    break;
                }
                case 3: {
                    Status c(s[b]);
                    c = Status::OK();
                    VP_CHECK(c.ok(), "a copy can be reset");
                    break;
                }
                case 4: same(s[a] & s[b], wa.ok ? wb : wa); break;
                case 5: {
                    Status c(s[b]);
                    same(s[a] & std::move(c), wa.ok ? wb : wa);
                    break;
                }
                case 6: s[a] &= s[b]; w[a] = wa.ok ? wb : wa; break;
                case 7: {
                    Status c(s[b]);
                    s[a] &= std::move(c);
                    w[a] = wa.ok ? wb : wa;
                    break;
                }
                default:
                    VP_CHECK((s[a] == s[b]) == (wa.ok == wb.ok && wa.code == wb.code && wa.msg == wb.msg), "equal exactly for the same code and message");
                    VP_CHECK((s[a] != s[b]) == !(s[a] == s[b]), "unequal is the negation");
            }
            for (int i = 0; i < 3; i++) same(s[i], w[i]);
        }
        vp_reach("end");
    }
    if (!vp_native()) VP_CHECK(vp_live_heap() == heap, "nothing leaks");
}
VP_HARNESS(codes, 1) {
    vp_expect("end");
    StatusCode c = any_code();
    Status s(c, "m");
    VP_CHECK(!s.ok() && s.code() == c, "an error is an error");
    int yes = s.IsOutOfMemory() + s.IsKeyError() + s.IsTypeError() + s.IsInvalid() + s.IsIOError() + s.IsCapacityError() + s.IsIndexError() + s.IsUnknownError() +
              s.IsNotImplemented() + s.IsSerializationError() + s.IsNotExist() + s.IsExist();
    VP_CHECK(yes == 1, "exactly one kind");
    VP_CHECK(s.IsOutOfMemory() == (c == StatusCode::OutOfMemory) && s.IsKeyError() == (c == StatusCode::KeyError) && s.IsTypeError() == (c == StatusCode::TypeError) &&
                 s.IsInvalid() == (c == StatusCode::Invalid) && s.IsIOError() == (c == StatusCode::IOError) && s.IsCapacityError() == (c == StatusCode::CapacityError),
             "the kind asked for");
    VP_CHECK(s.IsIndexError() == (c == StatusCode::IndexError) && s.IsUnknownError() == (c == StatusCode::UnknownError) && s.IsNotImplemented() == (c == StatusCode::NotImplemented) &&
                 s.IsSerializationError() == (c == StatusCode::SerializationError) && s.IsNotExist() == (c == StatusCode::NotExist) && s.IsExist() == (c == StatusCode::Exist),
             "the kind asked for");
    // named constructors
    VP_CHECK(Status::OutOfMemory("x").IsOutOfMemory() && Status::KeyError("x").IsKeyError() && Status::TypeError("x").IsTypeError() && Status::UnknownError("x").IsUnknownError(), "named");
    VP_CHECK(Status::NotImplemented("x").IsNotImplemented() && Status::Invalid("x").IsInvalid() && Status::IndexError("x").IsIndexError() && Status::CapacityError("x").IsCapacityError(), "named");
    VP_CHECK(Status::IOError("x").IsIOError() && Status::SerializationError("x").IsSerializationError() && Status::NotExist("x").IsNotExist() && Status::Exist("x").IsExist(), "named");
    VP_CHECK(Status::Invalid("a", "b", "c").message() == "abc", "message is the concatenation");
    Status t = s.WithMessage("other");
    VP_CHECK(t.code() == c && t.message() == "other" && s.message() == "m", "a changed message keeps the code");
    VP_CHECK(Status::OK().ok() && Status().ok() && Status::OK().code() == StatusCode::OK && Status::OK().message().empty(), "success");
    vp_reach("end");
}
// a value that owns memory: leaks and double frees are visible
struct Own {
    int32_t* p;
    explicit Own(int32_t v) : p(new int32_t(v)) {}
    Own(const Own& o) : p(o.p ? new int32_t(*o.p) : nullptr) {}
    Own(Own&& o) noexcept : p(o.p) { o.p = nullptr; }
    Own& operator=(const Own& o) {
        if (this != &o) {
            delete p;
            p = o.p ? new int32_t(*o.p) : nullptr;
        }
        return *this;
    }
    Own& operator=(Own&& o) noexcept {
        if (this != &o) {
            delete p;
            p = o.p;
            o.p = nullptr;
        }
        return *this;
    }
    ~Own() { delete p; }
};
struct MR {
    bool known = true, ok = true;
    int32_t v = 0;
    StatusCode code = StatusCode::OK;
    std::string msg;
};
static void same(const Result<Own>& r, const MR& w) {
    VP_CHECK(r.ok() == w.ok, "success is preserved");
    VP_CHECK(r.status().ok() == w.ok && r.status().code() == w.code && r.status().message() == w.msg, "status is preserved");
    if (w.ok && w.known) VP_CHECK(r.value().p && *r.value().p == w.v, "value is preserved");
}
static Result<Own> make(MR& w) {
    w = MR();
    if (vp::choose(2, "error")) {
        w.ok = false;
        w.code = any_code();
        w.msg = any_msg();
        return Status(w.code, w.msg);
    }
    w.v = vp::any<int32_t>("value");
    return Own(w.v);
}
static Status raise(const Result<Own>& r, int32_t* out) {
    PAIMON_ASSIGN_OR_RAISE(Own o, Result<Own>(r));
    *out = *o.p;
    return Status::OK();
}
static Result<std::string> chain(const Status& s, int* after) {
    PAIMON_RETURN_NOT_OK(s);
    ++*after;
    return std::string("done");
}
VP_HARNESS(results, 8) {
    vp_expect("end");
    s_msgs = 0;
    size_t heap = vp_live_heap();
    {
        MR w[2];
        Result<Own> r[2] = {make(w[0]), make(w[1])};
        int n = vp_tier() ? 4 : 3;
        for (int k = 0; k < n; k++) {
            int op = k == 0 ? vp_shard() : (int)vp::choose(8, "op");
            int a = (int)vp::choose(2, "target"), b = (int)vp::choose(2, "source");
            if (op != 0 && op != 1 && !w[b].known) b = !b;
            MR wb = w[b];
            switch (op) {
                case 0: r[a] = r[b]; w[a] = wb; break;
                case 1:
                    r[a] = std::move(r[b]);
                    if (a != b && wb.ok) w[b].known = false;
                    w[a] = wb;
                    break;
                case 2: {
                    Result<Own> c(r[b]);
                    if (wb.known) same(c, wb);
                    Result<Own> d(std::move(c));
                    if (wb.known) same(d, wb);
                    break;
                }
                case 3: {  // take the value out
                    if (!wb.ok || !wb.known) break;
                    Own o = std::move(r[b]).value();
                    VP_CHECK(o.p && *o.p == wb.v, "the value can be taken");
                    w[b].known = false;
                    break;
                }
                case 4: {
                    if (!wb.known) break;
                    Own o = r[b].value_or(Own(77));
                    VP_CHECK(*o.p == (wb.ok ? wb.v : 77), "value or default");
                    break;
                }
                case 5: {
                    if (!wb.known) break;
                    int32_t v = 0;
                    Status s = raise(r[b], &v);
                    VP_CHECK(s.ok() == wb.ok && s.code() == wb.code && s.message() == wb.msg, "the propagation returns exactly the error met");
                    if (wb.ok) VP_CHECK(v == wb.v, "the propagation yields the value");
                    break;
                }
                case 6: r[a] = make(w[a]); break;
                default: {
                    int after = 0;
                    auto c = chain(r[b].status(), &after);
                    VP_CHECK(c.ok() == wb.ok && after == (wb.ok ? 1 : 0), "statements after an error are not run");
                    VP_CHECK(c.status().code() == wb.code && c.status().message() == wb.msg, "exactly the error met");
                }
            }
            for (int i = 0; i < 2; i++)
                if (w[i].known) same(r[i], w[i]);
                else VP_CHECK(r[i].ok() == w[i].ok, "success is preserved");
        }
        vp_reach("end");
    }
    if (!vp_native()) VP_CHECK(vp_live_heap() == heap, "nothing leaks");
}
struct Base {
    virtual ~Base() {}
    int32_t x = 0;
};
struct Derived : Base {
    int32_t y = 0;
};
VP_HARNESS(converted, 2) {
    vp_expect("value");
    vp_expect("error");
    size_t heap = vp_live_heap();
    {
        bool err = vp::choose(2, "error"), terr = vp::choose(2, "target error"), assign = vp::choose(2, "assign");
        int32_t v = vp::any<int32_t>("value");
        StatusCode c = any_code();
        if (vp_shard() == 0) {
            auto mk = [&]() -> Result<std::unique_ptr<Derived>> {
                if (err) return Status(c, "first");
                auto d = std::make_unique<Derived>();
                d->x = v;
                return d;
            };
            Result<std::unique_ptr<Base>> r = terr ? Result<std::unique_ptr<Base>>(Status::Invalid("old")) : Result<std::unique_ptr<Base>>(std::make_unique<Base>());
            if (assign) r = Result<std::unique_ptr<Base>>(mk());
            else new (&r) Result<std::unique_ptr<Base>>((r.~Result<std::unique_ptr<Base>>(), mk()));
            VP_CHECK(r.ok() == !err, "success is preserved");
            if (err) VP_CHECK(r.status().code() == c && r.status().message() == "first", "error is preserved");
            else VP_CHECK(r.value() && r.value()->x == v, "value is preserved");
        } else {
            auto mk = [&]() -> Result<std::shared_ptr<Derived>> {
                if (err) return Status(c, "first");
                auto d = std::make_shared<Derived>();
                d->x = v;
                return d;
            };
            Result<std::shared_ptr<Base>> r = terr ? Result<std::shared_ptr<Base>>(Status::Invalid("old")) : Result<std::shared_ptr<Base>>(std::make_shared<Base>());
            if (assign) r = Result<std::shared_ptr<Base>>(mk());
            else new (&r) Result<std::shared_ptr<Base>>((r.~Result<std::shared_ptr<Base>>(), mk()));
            VP_CHECK(r.ok() == !err, "success is preserved");
            if (err) VP_CHECK(r.status().code() == c && r.status().message() == "first", "error is preserved");
            else VP_CHECK(r.value() && r.value()->x == v && r.value().use_count() == 1, "value is preserved");
        }
        vp_reach(err ? "error" : "value");
    }
    if (!vp_native()) VP_CHECK(vp_live_heap() == heap, "nothing leaks");
}
