// Bodies for out-of-line libstdc++ / libc functions, written for symbolic execution.
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <exception>
#include <functional>
#include <future>
#include <new>
#include <stdexcept>
#include <system_error>
#include <typeinfo>
#include <list>
#include <map>
#include <unordered_map>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <bits/stl_tree.h>

extern "C" {
size_t vpm_strlen(const char* s) {
    size_t n = 0;
    while (s[n]) n++;
    return n;
}
int vpm_strcmp(const char* a, const char* b) {
    for (;; a++, b++) {
        unsigned char x = (unsigned char)*a, y = (unsigned char)*b;
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
}
int vpm_strncmp(const char* a, const char* b, size_t n) {
    for (size_t i = 0; i < n; i++) {
        unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
    return 0;
}
const void* vpm_memchr(const void* s, int c, size_t n) {
    const unsigned char* p = (const unsigned char*)s;
    for (size_t i = 0; i < n; i++)
        if (p[i] == (unsigned char)c) return p + i;
    return nullptr;
}
int vpm_toupper(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
int vpm_tolower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
int vpm_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int vpm_isdigit(int c) { return c >= '0' && c <= '9'; }
int vpm_isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int vpm_isalnum(int c) { return vpm_isdigit(c) || vpm_isalpha(c); }
int vpm_abs(int x) { return x < 0 ? -x : x; }
long vpm_labs(long x) { return x < 0 ? -x : x; }
void vp_throw_bad_alloc() { throw std::bad_alloc(); }
int vp_tid();
static int vp_errno_v[64];
int* vpm___errno_location() { return &vp_errno_v[vp_tid() & 63]; }
}
extern "C" const char* vpm_strchr(const char* s, int c) {
    for (;; s++) {
        if (*s == (char)c) return s;
        if (!*s) return nullptr;
    }
}

// ------------------------------------------------------------------ exceptions
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

__cow_string::__cow_string() { _M_p = nullptr; }
__cow_string::__cow_string(const std::string&) { _M_p = nullptr; }
__cow_string::__cow_string(const char*, size_t) { _M_p = nullptr; }
__cow_string::__cow_string(const __cow_string&) noexcept { _M_p = nullptr; }
__cow_string& __cow_string::operator=(const __cow_string&) noexcept { return *this; }
__cow_string::~__cow_string() {}

#define VP_EXC(T, B)                                       \
    T::T(const string&) : B("") {}                         \
    T::T(const char* m) : B(m) {}                          \
    T::~T() noexcept {}
logic_error::logic_error(const string&) {}
logic_error::logic_error(const char*) {}
logic_error::logic_error(const logic_error&) noexcept {}
logic_error& logic_error::operator=(const logic_error&) noexcept { return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return "logic_error"; }
runtime_error::runtime_error(const string&) {}
runtime_error::runtime_error(const char*) {}
runtime_error::runtime_error(const runtime_error&) noexcept {}
runtime_error& runtime_error::operator=(const runtime_error&) noexcept { return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return "runtime_error"; }
VP_EXC(domain_error, logic_error)
VP_EXC(invalid_argument, logic_error)
VP_EXC(length_error, logic_error)
VP_EXC(out_of_range, logic_error)
VP_EXC(range_error, runtime_error)
VP_EXC(overflow_error, runtime_error)
VP_EXC(underflow_error, runtime_error)

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char* m) { throw logic_error(m); }
void __throw_length_error(const char* m) { throw length_error(m); }
void __throw_out_of_range(const char* m) { throw out_of_range(m); }
void __throw_out_of_range_fmt(const char* m, ...) { throw out_of_range(m); }
void __throw_invalid_argument(const char* m) { throw invalid_argument(m); }
void __throw_runtime_error(const char* m) { throw runtime_error(m); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }

// ------------------------------------------------------------------ red-black tree (std::map / std::set)
// Same observable ordering contract as libstdc++; a standard textbook implementation.
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) {
        x = y;
        y = y->_M_parent;
    }
    if (x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() {
    return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) {
        _Rb_tree_node_base* y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        return y;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) {
        x = y;
        y = y->_M_parent;
    }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() {
    return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
static void vp_rotl(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
    _Rb_tree_node_base* y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
    else x->_M_parent->_M_right = y;
    y->_M_left = x;
    x->_M_parent = y;
}
static void vp_rotr(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
    _Rb_tree_node_base* y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
    else x->_M_parent->_M_left = y;
    y->_M_right = x;
    x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base*& root = h._M_parent;
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &h) {
            h._M_parent = x;
            h._M_right = x;
        } else if (p == h._M_left)
            h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
        if (x->_M_parent == xpp->_M_left) {
            _Rb_tree_node_base* const y = xpp->_M_right;
            if (y && y->_M_color == _S_red) {
                x->_M_parent->_M_color = _S_black;
                y->_M_color = _S_black;
                xpp->_M_color = _S_red;
                x = xpp;
            } else {
                if (x == x->_M_parent->_M_right) {
                    x = x->_M_parent;
                    vp_rotl(x, root);
                }
                x->_M_parent->_M_color = _S_black;
                xpp->_M_color = _S_red;
                vp_rotr(xpp, root);
            }
        } else {
            _Rb_tree_node_base* const y = xpp->_M_left;
            if (y && y->_M_color == _S_red) {
                x->_M_parent->_M_color = _S_black;
                y->_M_color = _S_black;
                xpp->_M_color = _S_red;
                x = xpp;
            } else {
                if (x == x->_M_parent->_M_left) {
                    x = x->_M_parent;
                    vp_rotr(x, root);
                }
                x->_M_parent->_M_color = _S_black;
                xpp->_M_color = _S_red;
                vp_rotl(xpp, root);
            }
        }
    }
    root->_M_color = _S_black;
}
// Erase without rebalancing: order and structure stay a valid search tree (colours are not used by readers).
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base*& root = h._M_parent;
    _Rb_tree_node_base* repl;
    if (!z->_M_left) repl = z->_M_right;
    else if (!z->_M_right) repl = z->_M_left;
    else {
        _Rb_tree_node_base* y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) {
            y->_M_parent->_M_left = y->_M_right;
            if (y->_M_right) y->_M_right->_M_parent = y->_M_parent;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        }
        y->_M_left = z->_M_left;
        z->_M_left->_M_parent = y;
        repl = y;
    }
    if (root == z) root = repl;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = repl;
    else z->_M_parent->_M_right = repl;
    if (repl) repl->_M_parent = z->_M_parent;
    if (!root) {
        h._M_left = &h;
        h._M_right = &h;
    } else {
        root->_M_parent = &h;
        root->_M_color = _S_black;
        _Rb_tree_node_base* x = root;
        while (x->_M_left) x = x->_M_left;
        h._M_left = x;
        x = root;
        while (x->_M_right) x = x->_M_right;
        h._M_right = x;
    }
    return z;
}

// ------------------------------------------------------------------ std::list
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
    _M_next = p;
    _M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
    _List_node_base* const n = _M_next;
    _List_node_base* const p = _M_prev;
    p->_M_next = n;
    n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
    if (this != last) {
        last->_M_prev->_M_next = this;
        first->_M_prev->_M_next = last;
        this->_M_prev->_M_next = first;
        _List_node_base* const tmp = this->_M_prev;
        this->_M_prev = last->_M_prev;
        last->_M_prev = first->_M_prev;
        first->_M_prev = tmp;
    }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    bool xe = x._M_next == &x, ye = y._M_next == &y;
    std::swap(x._M_next, y._M_next);
    std::swap(x._M_prev, y._M_prev);
    if (ye) x._M_next = x._M_prev = &x;
    else x._M_next->_M_prev = x._M_prev->_M_next = &x;
    if (xe) y._M_next = y._M_prev = &y;
    else y._M_next->_M_prev = y._M_prev->_M_next = &y;
}
void _List_node_base::_M_reverse() noexcept {
    _List_node_base* t = this;
    do {
        std::swap(t->_M_next, t->_M_prev);
        t = t->_M_prev;
    } while (t != this);
}
// ------------------------------------------------------------------ std::unordered_*: bucket counts
static const size_t vp_primes[] = {2, 5, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    for (size_t p : vp_primes)
        if (p >= n) {
            _M_next_resize = (size_t)((float)p * _M_max_load_factor);
            return p;
        }
    return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize) {
        size_t want = ne + ni;
        if (_M_next_resize == 0 && want < 11) want = 11;
        if (want >= nb) {
            size_t k = want + 1 > nb * 2 ? want + 1 : nb * 2;
            return {true, _M_next_bkt(k)};
        }
        _M_next_resize = (size_t)((float)nb * _M_max_load_factor);
        return {false, 0};
    }
    return {false, 0};
}
}  // namespace __detail

// Any function of the bytes is a legal hash; equal inputs give equal results.
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
    const unsigned char* b = (const unsigned char*)p;
    size_t h = seed;
    for (size_t i = 0; i < n; i++) h = (h << 5) + h + b[i];
    return h;
}
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }

// ------------------------------------------------------------------ threads
extern "C" int vp_thread_create(void (*f)(void*), void* arg);
extern "C" void vp_thread_join(int t);
static void vp_thread_main(void* p) {
    unique_ptr<thread::_State> st((thread::_State*)p);
    st->_M_run();
}
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr st, void (*)()) { _M_id._M_thread = (pthread_t)vp_thread_create(vp_thread_main, st.release()); }
void thread::join() {
    if (_M_id == id()) throw runtime_error("join");
    vp_thread_join((int)_M_id._M_thread);
    _M_id = id();
}
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 4; }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait((pthread_cond_t*)this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal((pthread_cond_t*)this); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast((pthread_cond_t*)this); }
}  // namespace std
