// String-backed replacement for the iostream headers, used only when the sources are compiled for the
// symbolic executor.  Streams are used by the code base to build messages and escape sequences.
#pragma once
#include <cstdint>
#include <iosfwd>
#include <string>
#include <string_view>
extern "C" int vp_is_symbolic(unsigned long long);
namespace std {
class ios_base {
 public:
    typedef unsigned fmtflags;
    typedef unsigned iostate;
    typedef unsigned openmode;
    typedef int seekdir;
    static const openmode in = 1, out = 2, binary = 4, trunc = 8, app = 16, ate = 32;
    static const iostate goodbit = 0, badbit = 1, failbit = 2, eofbit = 4;
    static const seekdir beg = 0, cur = 1, end = 2;
    static const fmtflags dec = 0, hex = 1, oct = 2, fixed = 4, uppercase = 8, left = 16, right = 32, internal = 64,
                          basefield = 3, boolalpha = 128, showbase = 256, adjustfield = 112, skipws = 512, showpos = 1024,
                          showpoint = 2048, scientific = 4096, floatfield = 4100;
    fmtflags setf(fmtflags f) { return flags_ |= f; }
    fmtflags setf(fmtflags f, fmtflags m) { return flags_ = (flags_ & ~m) | (f & m); }
    void unsetf(fmtflags f) { flags_ &= ~f; }
    long precision(long) { return 6; }
    int width(int w) { int o = width_; width_ = w; return o; }
    fmtflags flags_ = 0;
    int width_ = 0;
    iostate state_ = 0;
};
template <class C, class T>
class basic_ios : public ios_base {
 public:
    C fill_ = ' ';
    bool good() const { return state_ == 0; }
    bool eof() const { return state_ & eofbit; }
    bool fail() const { return state_ & (failbit | badbit); }
    explicit operator bool() const { return !fail(); }
    bool operator!() const { return fail(); }
    void clear(iostate s = 0) { state_ = s; }
    void setstate(iostate s) { state_ |= s; }
};
template <class C, class T>
class basic_ostream : public basic_ios<C, T> {
 public:
    basic_string<C> buf_;
    basic_ostream() {}
    virtual ~basic_ostream() {}
    void vp_put(const C* p, size_t n) {
        int w = this->width_;
        this->width_ = 0;
        if (w > 0 && (size_t)w > n && !(this->flags_ & ios_base::left)) buf_.append((size_t)w - n, this->fill_);
        buf_.append(p, n);
        if (w > 0 && (size_t)w > n && (this->flags_ & ios_base::left)) buf_.append((size_t)w - n, this->fill_);
    }
    basic_ostream& vp_int(unsigned long long v, bool neg) {
        C tmp[24];
        int k = 24;
        unsigned base = (this->flags_ & ios_base::hex) ? 16 : (this->flags_ & ios_base::oct) ? 8 : 10;
        if (base == 10 && vp_is_symbolic(v)) {
            // a decimal rendering of an unknown number inside a message: one placeholder character
            C q = '#';
            vp_put(&q, 1);
            return *this;
        }
        if (neg && base == 10) v = 0 - v;
        else neg = false;
        const char* dg = (this->flags_ & ios_base::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef";
        do {
            tmp[--k] = dg[v % base];
            v /= base;
        } while (v);
        if (neg) tmp[--k] = '-';
        vp_put(tmp + k, 24 - k);
        return *this;
    }
    basic_ostream& operator<<(int v) { return (this->flags_ & 3) ? vp_int((unsigned)v, false) : vp_int((long long)v, v < 0); }
    basic_ostream& operator<<(unsigned v) { return vp_int(v, false); }
    basic_ostream& operator<<(short v) { return vp_int((long long)v, v < 0); }
    basic_ostream& operator<<(unsigned short v) { return vp_int(v, false); }
    basic_ostream& operator<<(long v) { return vp_int((unsigned long long)v, v < 0); }
    basic_ostream& operator<<(unsigned long v) { return vp_int(v, false); }
    basic_ostream& operator<<(long long v) { return vp_int((unsigned long long)v, v < 0); }
    basic_ostream& operator<<(unsigned long long v) { return vp_int(v, false); }
    basic_ostream& operator<<(bool v) {
        C c = v ? '1' : '0';
        vp_put(&c, 1);
        return *this;
    }
    basic_ostream& operator<<(double) {
        C c = '~';
        vp_put(&c, 1);
        return *this;
    }
    basic_ostream& operator<<(float) { return *this << 0.0; }
    basic_ostream& operator<<(long double) { return *this << 0.0; }
    basic_ostream& operator<<(const void*) { return *this; }
    basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
    basic_ostream& operator<<(ios_base& (*f)(ios_base&)) {
        f(*this);
        return *this;
    }
    basic_ostream& put(C c) {
        buf_.push_back(c);
        return *this;
    }
    basic_ostream& write(const C* p, long n) {
        buf_.append(p, n);
        return *this;
    }
    basic_ostream& flush() { return *this; }
    C fill() const { return this->fill_; }
    C fill(C c) {
        C o = this->fill_;
        this->fill_ = c;
        return o;
    }
};
template <class T>
inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) {
    o.vp_put(&c, 1);
    return o;
}
template <class T>
inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) {
    char x = (char)c;
    o.vp_put(&x, 1);
    return o;
}
template <class T>
inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) {
    char x = (char)c;
    o.vp_put(&x, 1);
    return o;
}
template <class T>
inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* p) {
    o.vp_put(p, __builtin_strlen(p));
    return o;
}
inline ostream& operator<<(ostream& o, const string& s) {
    o.vp_put(s.data(), s.size());
    return o;
}
inline ostream& operator<<(ostream& o, string_view s) {
    o.vp_put(s.data(), s.size());
    return o;
}
inline ostream& endl(ostream& o) { return o << '\n'; }
inline ostream& flush(ostream& o) { return o; }
inline ios_base& hex(ios_base& b) {
    b.flags_ = (b.flags_ & ~3u) | 1;
    return b;
}
inline ios_base& dec(ios_base& b) {
    b.flags_ &= ~3u;
    return b;
}
inline ios_base& uppercase(ios_base& b) {
    b.flags_ |= ios_base::uppercase;
    return b;
}
inline ios_base& nouppercase(ios_base& b) {
    b.flags_ &= ~ios_base::uppercase;
    return b;
}
inline ios_base& left(ios_base& b) {
    b.flags_ |= ios_base::left;
    return b;
}
inline ios_base& right(ios_base& b) {
    b.flags_ &= ~ios_base::left;
    return b;
}
inline ios_base& fixed(ios_base& b) { return b; }
inline ios_base& scientific(ios_base& b) { return b; }
inline ios_base& noboolalpha(ios_base& b) { return b; }
inline ios_base& boolalpha(ios_base& b) { return b; }
struct vp_setw { int n; };
struct vp_setfill { char c; };
struct vp_setprec { int n; };
inline vp_setw setw(int n) { return {n}; }
inline vp_setfill setfill(char c) { return {c}; }
inline vp_setprec setprecision(int n) { return {n}; }
inline ostream& operator<<(ostream& o, vp_setw w) {
    o.width_ = w.n;
    return o;
}
inline ostream& operator<<(ostream& o, vp_setfill w) {
    o.fill_ = w.c;
    return o;
}
inline ostream& operator<<(ostream& o, vp_setprec) { return o; }
struct vp_put_time {};
template <class T> inline vp_put_time put_time(const T*, const char*) { return {}; }
inline ostream& operator<<(ostream& o, vp_put_time) { return o; }
template <class C, class T>
class basic_istream : virtual public basic_ios<C, T> {
 public:
    C widen(char c) const { return c; }
    virtual ~basic_istream() {}
};
template <class C, class T>
class basic_iostream : public basic_ostream<C, T> {};
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <class C, class T, class A>
class basic_ostringstream : public basic_ostream<C, T> {
 public:
    basic_ostringstream() {}
    explicit basic_ostringstream(const basic_string<C>& s) { this->buf_ = s; }
    basic_string<C> str() const { return this->buf_; }
    void str(const basic_string<C>& s) { this->buf_ = s; }
};
template <class C, class T, class A>
class basic_stringstream : public basic_ostream<C, T> {
 public:
    basic_stringstream() {}
    explicit basic_stringstream(const basic_string<C>& s, unsigned = 0) { this->buf_ = s; }
    basic_string<C> str() const { return this->buf_; }
    void str(const basic_string<C>& s) { this->buf_ = s; }
    size_t pos_ = 0;
};
template <class C, class T, class A>
class basic_istringstream : public basic_istream<C, T> {
 public:
    basic_string<C> buf_;
    size_t pos_ = 0;
    basic_istringstream() {}
    explicit basic_istringstream(const basic_string<C>& s, unsigned = 0) : buf_(s) {}
};
_GLIBCXX_END_NAMESPACE_CXX11
template <class S>
inline bool vp_getline(S& i, string& out, char d) {
    out.clear();
    if (i.pos_ >= i.buf_.size()) {
        i.state_ |= ios_base::failbit | ios_base::eofbit;
        return false;
    }
    while (i.pos_ < i.buf_.size()) {
        char c = i.buf_[i.pos_++];
        if (c == d) return true;
        out.push_back(c);
    }
    i.state_ |= ios_base::eofbit;
    return true;
}
inline istringstream& getline(istringstream& i, string& out, char d = '\n') {
    vp_getline(i, out, d);
    return i;
}
inline stringstream& getline(stringstream& i, string& out, char d = '\n') {
    vp_getline(i, out, d);
    return i;
}
extern ostream cout, cerr, clog;
template <class C, class T>
class basic_ifstream : public basic_istream<C, T> {
 public:
    // the only file read this way is the kernel's source of unique names
    basic_string<C> buf_ = vp_unique();
    size_t pos_ = 0;
    static basic_string<C> vp_unique() {
        static int n;
        basic_string<C> u = "00000000-0000-4000-8000-000000000000";
        for (int i = 35, k = __atomic_add_fetch(&n, 1, __ATOMIC_SEQ_CST); k; i--, k /= 10) u[i] += k % 10;
        return u + "\n";
    }
    explicit basic_ifstream(const string&, unsigned = 0) {}
    explicit basic_ifstream(const char*, unsigned = 0) {}
    bool is_open() const { return false; }
    void close() {}
};
template <class C, class T>
class basic_ofstream : public basic_ostream<C, T> {
 public:
    explicit basic_ofstream(const string&, unsigned = 0) {}
    bool is_open() const { return false; }
    void close() {}
};
inline ifstream& getline(ifstream& i, string& out, char d = '\n') {
    vp_getline(i, out, d);
    return i;
}
struct vp_get_time {};
template <class T> inline vp_get_time get_time(T*, const char*) { return {}; }
extern "C" void vp_unmodelled_get_time();
inline istringstream& operator>>(istringstream& i, vp_get_time) { vp_unmodelled_get_time(); return i; }
inline istringstream& operator>>(istringstream& i, float&) { vp_unmodelled_get_time(); return i; }
inline istringstream& operator>>(istringstream& i, double&) { vp_unmodelled_get_time(); return i; }
inline istringstream& operator>>(istringstream& i, ios_base& (*)(ios_base&)) { return i; }
template <class C, class T>
class istreambuf_iterator {};
}  // namespace std
