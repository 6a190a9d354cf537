#include "expr.h"

#include <algorithm>
#include <cassert>
#include <cstdlib>
#include <cstring>
#include <map>
#include <unordered_map>
#include <unordered_set>

namespace symx {
std::vector<VarInfo> g_vars;
static std::vector<E> g_varExprs;
static u32 g_nextId = 0;

struct Hasher {
    size_t operator()(E e) const {
        u64 h = e->op * 0x9E3779B97F4A7C15ull + e->width;
        auto mix = [&](u64 v) {
            h ^= v;
            h *= 0xff51afd7ed558ccdull;
            h ^= h >> 32;
        };
        mix(e->a ? e->a->id + 1 : 0);
        mix(e->b ? e->b->id + 1 : 0);
        mix(e->c ? e->c->id + 1 : 0);
        mix((u64)e->val);
        mix((u64)(e->val >> 64));
        return h;
    }
};
struct Equal {
    bool operator()(E x, E y) const {
        return x->op == y->op && x->width == y->width && x->a == y->a && x->b == y->b && x->c == y->c &&
               x->val == y->val;
    }
};
static std::unordered_set<E, Hasher, Equal> g_table;
size_t numExprs() { return g_table.size(); }

// arena
static Expr* arenaAlloc() {
    static Expr* chunk = nullptr;
    static size_t left = 0;
    if (!left) {
        left = 65536;
        chunk = (Expr*)calloc(left, sizeof(Expr));
    }
    --left;
    return chunk++;
}

static E intern(Op op, unsigned w, E a, E b, E c, u128 val) {
    Expr tmp;
    memset(&tmp, 0, sizeof tmp);
    tmp.op = op;
    tmp.width = w;
    tmp.a = a;
    tmp.b = b;
    tmp.c = c;
    tmp.val = val;
    auto it = g_table.find(&tmp);
    if (it != g_table.end()) return *it;
    Expr* n = arenaAlloc();
    *n = tmp;
    n->id = g_nextId++;
    g_table.insert(n);
    return n;
}

u32 newVar(const std::string& name, unsigned width) {
    u32 id = g_vars.size();
    g_vars.push_back({name, width});
    return id;
}

E mkConst(u128 v, unsigned w) { return intern(OP_CONST, w, 0, 0, 0, v & maskOf(w)); }
E mkTrue() {
    static E t = mkConst(1, 1);
    return t;
}
E mkFalse() {
    static E f = mkConst(0, 1);
    return f;
}
E mkVar(u32 varid, unsigned w) { return intern(OP_VAR, w, 0, 0, 0, varid); }

static bool allOnes(E e) { return isConst(e) && e->val == maskOf(e->width); }
static bool isZero(E e) { return isConst(e) && e->val == 0; }

E mkConcat(E hi, E lo) {
    unsigned w = hi->width + lo->width;
    assert(w <= 128);
    if (isConst(hi) && isConst(lo)) return mkConst((hi->val << lo->width) | lo->val, w);
    if (hi->op == OP_EXTRACT && lo->op == OP_EXTRACT && hi->a == lo->a &&
        (unsigned)hi->val == (unsigned)lo->val + lo->width)
        return mkExtract(hi->a, (unsigned)lo->val, w);
    // lo = whole x (no extract) cannot merge with extract of wider x unless handled there
    if (hi->op == OP_EXTRACT && hi->a->op != OP_EXTRACT && lo->op != OP_EXTRACT) {
        // extract(x, lo.width, ..) : lo where lo == truncated x is an EXTRACT already
    }
    if (isZero(hi)) return mkZExt(lo, w);
    // hi = concat(x, y): try merging y with lo
    if (hi->op == OP_CONCAT) {
        E y = hi->b;
        if ((isConst(y) && isConst(lo)) ||
            (y->op == OP_EXTRACT && lo->op == OP_EXTRACT && y->a == lo->a && (unsigned)y->val == (unsigned)lo->val + lo->width))
            return mkConcat(hi->a, mkConcat(y, lo));
    }
    if (hi->op == OP_ZEXT) {
        // zext(x):lo -> zext(x:lo)
        return mkZExt(mkConcat(hi->a, lo), w);
    }
    if (lo->op == OP_CONCAT) {
        E x = lo->a;
        if ((isConst(x) && isConst(hi)) ||
            (x->op == OP_EXTRACT && hi->op == OP_EXTRACT && x->a == hi->a && (unsigned)hi->val == (unsigned)x->val + x->width))
            return mkConcat(mkConcat(hi, x), lo->b);
    }
    if (hi->op == OP_ITE && lo->op == OP_ITE && hi->a == lo->a)
        return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    if (hi->op == OP_ITE && isConst(lo) && (isConst(hi->b) && isConst(hi->c)))
        return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
    if (lo->op == OP_ITE && isConst(hi) && (isConst(lo->b) && isConst(lo->c)))
        return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
    return intern(OP_CONCAT, w, hi, lo, 0, 0);
}

// would truncating to w bits remove an extension (rather than just split the value in pieces)?
static bool narrowable(E e, unsigned w, int depth) {
    switch (e->op) {
        case OP_CONST: return true;
        case OP_ZEXT:
        case OP_SEXT: return e->a->width <= w;
        case OP_ADD:
        case OP_SUB:
        case OP_MUL:
        case OP_AND:
        case OP_OR:
        case OP_XOR: return depth > 0 && narrowable(e->a, w, depth - 1) && narrowable(e->b, w, depth - 1);
        default: return false;
    }
}
E mkExtract(E e, unsigned off, unsigned w) {
    assert(off + w <= e->width);
    if (off == 0 && w == e->width) return e;
    switch (e->op) {
        case OP_CONST:
            return mkConst(e->val >> off, w);
        case OP_EXTRACT:
            return mkExtract(e->a, off + (unsigned)e->val, w);
        case OP_CONCAT:
            if (off >= e->b->width) return mkExtract(e->a, off - e->b->width, w);
            if (off + w <= e->b->width) return mkExtract(e->b, off, w);
            return mkConcat(mkExtract(e->a, 0, off + w - e->b->width), mkExtract(e->b, off, e->b->width - off));
        case OP_ZEXT:
            if (off + w <= e->a->width) return mkExtract(e->a, off, w);
            if (off >= e->a->width) return mkConst(0, w);
            return mkZExt(mkExtract(e->a, off, e->a->width - off), w);
        case OP_SEXT:
            if (off + w <= e->a->width) return mkExtract(e->a, off, w);
            if (off < e->a->width) return mkSExt(mkExtract(e->a, off, e->a->width - off), w);
            return mkSExt(mkExtract(e->a, e->a->width - 1, 1), w);
        case OP_AND:
            return mkAnd(mkExtract(e->a, off, w), mkExtract(e->b, off, w));
        case OP_OR:
            return mkOr(mkExtract(e->a, off, w), mkExtract(e->b, off, w));
        case OP_XOR:
            return mkXor(mkExtract(e->a, off, w), mkExtract(e->b, off, w));
        case OP_NOT:
            return mkNot(mkExtract(e->a, off, w));
        case OP_ITE:
            if (isConst(e->b) || isConst(e->c) || e->b->op == OP_CONCAT || e->c->op == OP_CONCAT || e->b->op == OP_ZEXT || e->c->op == OP_ZEXT || e->b->op == OP_ITE || e->c->op == OP_ITE) {
                static std::unordered_map<u64, E> memo;
                u64 key = ((u64)e->id << 16) | (off << 8) | w;
                auto it = memo.find(key);
                if (it != memo.end()) return it->second;
                E r = mkIte(e->a, mkExtract(e->b, off, w), mkExtract(e->c, off, w));
                memo.emplace(key, r);
                return r;
            }
            break;
        case OP_SHL:
            if (isConst(e->b)) {
                unsigned k = (unsigned)e->b->val;
                if (e->b->val >= e->width) return mkConst(0, w);
                if (off >= k) return mkExtract(e->a, off - k, w);
                if (off + w <= k) return mkConst(0, w);
                return mkConcat(mkExtract(e->a, 0, off + w - k), mkConst(0, k - off));
            }
            break;
        case OP_LSHR:
            if (isConst(e->b)) {
                if (e->b->val >= e->width) return mkConst(0, w);
                unsigned k = (unsigned)e->b->val;
                if (off + k + w <= e->width) return mkExtract(e->a, off + k, w);
                if (off + k >= e->width) return mkConst(0, w);
                return mkZExt(mkExtract(e->a, off + k, e->width - off - k), w);
            }
            break;
        case OP_ADD:
        case OP_SUB:
        case OP_MUL:
            // low bits depend on low bits only
            if (off == 0 && narrowable(e, w, 6)) {
                E x = mkExtract(e->a, 0, w), y = mkExtract(e->b, 0, w);
                return e->op == OP_ADD ? mkAdd(x, y) : e->op == OP_SUB ? mkSub(x, y) : mkMul(x, y);
            }
            break;
        default:
            break;
    }
    return intern(OP_EXTRACT, w, e, 0, 0, off);
}

E mkZExt(E e, unsigned w) {
    if (e->width == w) return e;
    assert(e->width < w);
    if (isConst(e)) return mkConst(e->val, w);
    if (e->op == OP_ZEXT) return mkZExt(e->a, w);
    if (e->op == OP_ITE && (isConst(e->b) || isConst(e->c)))
        return mkIte(e->a, mkZExt(e->b, w), mkZExt(e->c, w));
    return intern(OP_ZEXT, w, e, 0, 0, 0);
}
E mkSExt(E e, unsigned w) {
    if (e->width == w) return e;
    assert(e->width < w);
    if (isConst(e)) return mkConst((u128)sextOf(e->val, e->width), w);
    if (e->op == OP_SEXT) return mkSExt(e->a, w);
    if (e->op == OP_ZEXT) return mkZExt(e->a, w);
    if (e->op == OP_ITE && (isConst(e->b) || isConst(e->c)))
        return mkIte(e->a, mkSExt(e->b, w), mkSExt(e->c, w));
    return intern(OP_SEXT, w, e, 0, 0, 0);
}

// push binary op into ite when the other side and the branches are constant
template <class F>
static E liftIte(E a, E b, F f) {
    if (isConst(b) && a->op == OP_ITE && isConst(a->b) && isConst(a->c)) return mkIte(a->a, f(a->b, b), f(a->c, b));
    if (isConst(a) && b->op == OP_ITE && isConst(b->b) && isConst(b->c)) return mkIte(b->a, f(a, b->b), f(a, b->c));
    return nullptr;
}

E mkAdd(E a, E b) {
    assert(a->width == b->width);
    unsigned w = a->width;
    if (w == 1) return mkXor(a, b);
    if (isConst(a) && isConst(b)) return mkConst(a->val + b->val, w);
    if (isConst(a)) std::swap(a, b);  // constant on the right
    if (isZero(b)) return a;
    if (isConst(b)) {
        if (a->op == OP_ADD && isConst(a->b)) return mkAdd(a->a, mkConst(a->b->val + b->val, w));
        if (a->op == OP_SUB && isConst(a->a)) return mkSub(mkConst(a->a->val + b->val, w), a->b);
        if (E r = liftIte(a, b, mkAdd)) return r;
    } else {
        // (x + c) + y -> (x + y) + c
        if (a->op == OP_ADD && isConst(a->b)) return mkAdd(mkAdd(a->a, b), a->b);
        if (b->op == OP_ADD && isConst(b->b)) return mkAdd(mkAdd(a, b->a), b->b);
        if (a->op == OP_SUB && a->b == b) return a->a;
        if (b->op == OP_SUB && b->b == a) return b->a;
        if (a->id > b->id) std::swap(a, b);
    }
    return intern(OP_ADD, w, a, b, 0, 0);
}
E mkSub(E a, E b) {
    assert(a->width == b->width);
    unsigned w = a->width;
    if (w == 1) return mkXor(a, b);
    if (a == b) return mkConst(0, w);
    if (isConst(b)) return mkAdd(a, mkConst(-b->val, w));
    if (isConst(a)) {
        if (b->op == OP_ADD && isConst(b->b)) return mkSub(mkConst(a->val - b->b->val, w), b->a);
        if (E r = liftIte(a, b, mkSub)) return r;
    }
    if (a->op == OP_ADD) {
        if (a->a == b) return a->b;
        if (a->b == b) return a->a;
        if (isConst(a->b)) return mkAdd(mkSub(a->a, b), a->b);
    }
    if (b->op == OP_ADD) {
        if (b->a == a) return mkSub(mkConst(0, w), b->b);
        if (b->b == a) return mkSub(mkConst(0, w), b->a);
        if (isConst(b->b)) return mkAdd(mkSub(a, b->a), mkConst(-b->b->val, w));
    }
    return intern(OP_SUB, w, a, b, 0, 0);
}
E mkMul(E a, E b) {
    unsigned w = a->width;
    if (w == 1) return mkAnd(a, b);
    if (isConst(a) && isConst(b)) return mkConst(a->val * b->val, w);
    if (isConst(a)) std::swap(a, b);
    if (isConst(b)) {
        if (b->val == 0) return b;
        if (b->val == 1) return a;
        if ((b->val & (b->val - 1)) == 0) {
            unsigned k = 0;
            while (!((b->val >> k) & 1)) k++;
            return mkShl(a, mkConst(k, w));
        }
        if (E r = liftIte(a, b, mkMul)) return r;
    } else if (a->id > b->id)
        std::swap(a, b);
    return intern(OP_MUL, w, a, b, 0, 0);
}
E mkUDiv(E a, E b) {
    unsigned w = a->width;
    if (isConst(b)) {
        if (b->val == 0) return mkConst(~(u128)0, w);
        if (isConst(a)) return mkConst(a->val / b->val, w);
        if (b->val == 1) return a;
        if ((b->val & (b->val - 1)) == 0) {
            unsigned k = 0;
            while (!((b->val >> k) & 1)) k++;
            return mkLShr(a, mkConst(k, w));
        }
        if (a->op == OP_ZEXT && b->val <= maskOf(a->a->width)) return mkZExt(mkUDiv(a->a, mkConst(b->val, a->a->width)), w);
    }
    return intern(OP_UDIV, w, a, b, 0, 0);
}
static bool msbZero(E e) {
    if (isConst(e)) return ((e->val >> (e->width - 1)) & 1) == 0;
    if (e->op == OP_ZEXT) return true;
    if (e->op == OP_ITE) return msbZero(e->b) && msbZero(e->c);
    if (e->op == OP_AND) return msbZero(e->a) || msbZero(e->b);
    if (e->op == OP_LSHR) return isConst(e->b) && e->b->val > 0;
    if (e->op == OP_UREM) return msbZero(e->a) || (isConst(e->b) && msbZero(e->b));
    if (e->op == OP_UDIV) return msbZero(e->a);
    if (e->op == OP_CONCAT) return msbZero(e->a);
    return false;
}
E mkSDiv(E a, E b) {
    unsigned w = a->width;
    if (isConst(a) && isConst(b) && b->val != 0) {
        i128 x = sextOf(a->val, w), y = sextOf(b->val, w);
        if (y == -1) return mkConst((u128)(-x), w);
        return mkConst((u128)(x / y), w);
    }
    if (isConst(b) && b->val == 1) return a;
    if (msbZero(a) && isConst(b) && msbZero(b) && b->val) return mkUDiv(a, b);
    return intern(OP_SDIV, w, a, b, 0, 0);
}
E mkURem(E a, E b) {
    unsigned w = a->width;
    if (isConst(b)) {
        if (b->val == 0) return a;
        if (isConst(a)) return mkConst(a->val % b->val, w);
        if (b->val == 1) return mkConst(0, w);
        if ((b->val & (b->val - 1)) == 0) return mkAnd(a, mkConst(b->val - 1, w));
        if (a->op == OP_ZEXT && b->val <= maskOf(a->a->width)) return mkZExt(mkURem(a->a, mkConst(b->val, a->a->width)), w);
    }
    return intern(OP_UREM, w, a, b, 0, 0);
}
E mkSRem(E a, E b) {
    unsigned w = a->width;
    if (isConst(a) && isConst(b) && b->val != 0) {
        i128 x = sextOf(a->val, w), y = sextOf(b->val, w);
        if (y == -1) return mkConst(0, w);
        return mkConst((u128)(x % y), w);
    }
    if (msbZero(a) && isConst(b) && msbZero(b) && b->val) return mkURem(a, b);
    return intern(OP_SREM, w, a, b, 0, 0);
}
E mkAnd(E a, E b) {
    unsigned w = a->width;
    assert(w == b->width);
    if (a == b) return a;
    if (isConst(a) && isConst(b)) return mkConst(a->val & b->val, w);
    if (isConst(a)) std::swap(a, b);
    if (isConst(b)) {
        if (b->val == 0) return b;
        if (allOnes(b)) return a;
        if (a->op == OP_AND && isConst(a->b)) return mkAnd(a->a, mkConst(a->b->val & b->val, w));
        // low mask -> zext(extract)
        u128 m = b->val;
        if ((m & (m + 1)) == 0) {
            unsigned k = 0;
            while ((m >> k) & 1) k++;
            return mkZExt(mkExtract(a, 0, k), w);
        }
        // contiguous mask in the middle
        {
            unsigned lo = 0;
            while (!((m >> lo) & 1)) lo++;
            u128 mm = m >> lo;
            if ((mm & (mm + 1)) == 0) {
                unsigned k = 0;
                while ((mm >> k) & 1) k++;
                return mkZExt(mkConcat(mkExtract(a, lo, k), mkConst(0, lo)), w);
            }
        }
        if (E r = liftIte(a, b, mkAnd)) return r;
    }
    if (a->op == OP_NOT && a->a == b) return mkConst(0, w);
    if (b->op == OP_NOT && b->a == a) return mkConst(0, w);
    if (a->op == OP_ZEXT && b->op == OP_ZEXT && a->a->width == b->a->width) return mkZExt(mkAnd(a->a, b->a), w);
    if (w == 1) {
        if (a->op == OP_AND && (a->a == b || a->b == b)) return a;
        if (b->op == OP_AND && (b->a == a || b->b == a)) return b;
    }
    if (!isConst(b) && a->id > b->id) std::swap(a, b);
    return intern(OP_AND, w, a, b, 0, 0);
}
E mkOr(E a, E b) {
    unsigned w = a->width;
    if (a == b) return a;
    if (isConst(a) && isConst(b)) return mkConst(a->val | b->val, w);
    if (isConst(a)) std::swap(a, b);
    if (isConst(b)) {
        if (b->val == 0) return a;
        if (allOnes(b)) return b;
        if (a->op == OP_OR && isConst(a->b)) return mkOr(a->a, mkConst(a->b->val | b->val, w));
        if (E r = liftIte(a, b, mkOr)) return r;
    }
    if (a->op == OP_NOT && a->a == b) return mkConst(maskOf(w), w);
    if (b->op == OP_NOT && b->a == a) return mkConst(maskOf(w), w);
    // disjoint bits: shl/zext combination -> concat
    auto tryConcat = [&](E hi, E lo) -> E {
        // hi has k trailing zero bits known structurally as concat(x, 0_k) or zext(concat(x,0_k)); lo = zext(y), |y| <= k
        E h = hi;
        if (h->op == OP_ZEXT) h = h->a;
        if (h->op != OP_CONCAT || !isConst(h->b) || h->b->val != 0) return nullptr;
        unsigned k = h->b->width;
        E y = nullptr;
        if (lo->op == OP_ZEXT) y = lo->a;
        if (!y || y->width > k) return nullptr;
        return mkZExt(mkConcat(h->a, mkZExt(y, k)), w);
    };
    if (E r = tryConcat(a, b)) return r;
    if (E r = tryConcat(b, a)) return r;
    if (a->op == OP_ZEXT && b->op == OP_ZEXT) {
        unsigned m = std::max(a->a->width, b->a->width);
        if (m < w) return mkZExt(mkOr(mkZExt(a->a, m), mkZExt(b->a, m)), w);
    }
    if (a->op == OP_CONCAT && b->op == OP_CONCAT && a->b->width == b->b->width)
        return mkConcat(mkOr(a->a, b->a), mkOr(a->b, b->b));
    if (a->op == OP_CONCAT && b->op == OP_ZEXT && b->a->width <= a->b->width)
        return mkConcat(a->a, mkOr(a->b, mkZExt(b->a, a->b->width)));
    if (b->op == OP_CONCAT && a->op == OP_ZEXT && a->a->width <= b->b->width)
        return mkConcat(b->a, mkOr(b->b, mkZExt(a->a, b->b->width)));
    if (w == 1) {
        if (a->op == OP_OR && (a->a == b || a->b == b)) return a;
        if (b->op == OP_OR && (b->a == a || b->b == a)) return b;
    }
    if (!isConst(b) && a->id > b->id) std::swap(a, b);
    return intern(OP_OR, w, a, b, 0, 0);
}
E mkXor(E a, E b) {
    unsigned w = a->width;
    if (a == b) return mkConst(0, w);
    if (isConst(a) && isConst(b)) return mkConst(a->val ^ b->val, w);
    if (isConst(a)) std::swap(a, b);
    if (isConst(b)) {
        if (b->val == 0) return a;
        if (allOnes(b)) return mkNot(a);
        if (a->op == OP_XOR && isConst(a->b)) return mkXor(a->a, mkConst(a->b->val ^ b->val, w));
        if (E r = liftIte(a, b, mkXor)) return r;
    } else {
        if (a->op == OP_XOR && (a->a == b)) return a->b;
        if (a->op == OP_XOR && (a->b == b)) return a->a;
        if (b->op == OP_XOR && (b->a == a)) return b->b;
        if (b->op == OP_XOR && (b->b == a)) return b->a;
        if (a->id > b->id) std::swap(a, b);
    }
    return intern(OP_XOR, w, a, b, 0, 0);
}
E mkNot(E a) {
    unsigned w = a->width;
    if (isConst(a)) return mkConst(~a->val, w);
    if (a->op == OP_NOT) return a->a;
    if (w == 1) {
        switch (a->op) {
            case OP_ULT: return mkUle(a->b, a->a);
            case OP_ULE: return mkUlt(a->b, a->a);
            case OP_SLT: return mkSle(a->b, a->a);
            case OP_SLE: return mkSlt(a->b, a->a);
            case OP_ITE:
                if (isConst(a->b) || isConst(a->c)) return mkIte(a->a, mkNot(a->b), mkNot(a->c));
                break;
            default: break;
        }
    } else {
        if (a->op == OP_ITE && isConst(a->b) && isConst(a->c)) return mkIte(a->a, mkNot(a->b), mkNot(a->c));
        if (a->op == OP_SEXT && a->a->width == 1) return mkSExt(mkNot(a->a), w);
    }
    return intern(OP_NOT, w, a, 0, 0, 0);
}
E mkShl(E a, E b) {
    unsigned w = a->width;
    if (isConst(b)) {
        if (b->val == 0) return a;
        if (b->val >= w) return mkConst(0, w);
        unsigned k = (unsigned)b->val;
        if (isConst(a)) return mkConst(a->val << k, w);
        return mkConcat(mkExtract(a, 0, w - k), mkConst(0, k));
    }
    if (isZero(a)) return a;
    return intern(OP_SHL, w, a, b, 0, 0);
}
E mkLShr(E a, E b) {
    unsigned w = a->width;
    if (isConst(b)) {
        if (b->val == 0) return a;
        if (b->val >= w) return mkConst(0, w);
        unsigned k = (unsigned)b->val;
        return mkZExt(mkExtract(a, k, w - k), w);
    }
    if (isZero(a)) return a;
    return intern(OP_LSHR, w, a, b, 0, 0);
}
E mkAShr(E a, E b) {
    unsigned w = a->width;
    if (isConst(b)) {
        if (b->val == 0) return a;
        unsigned k = b->val >= w ? w - 1 : (unsigned)b->val;
        return mkSExt(mkExtract(a, k, w - k), w);
    }
    if (isZero(a)) return a;
    if (msbZero(a)) return mkLShr(a, b);
    return intern(OP_ASHR, w, a, b, 0, 0);
}
static bool iteConstLeaves(E e, int depth) {
    if (isConst(e)) return true;
    if (e->op == OP_ITE && depth > 0) return iteConstLeaves(e->b, depth - 1) && iteConstLeaves(e->c, depth - 1);
    return false;
}
E mkEq(E a, E b) {
    assert(a->width == b->width);
    unsigned w = a->width;
    if (a == b) return mkTrue();
    if (isConst(a) && isConst(b)) return a->val == b->val ? mkTrue() : mkFalse();
    if (isConst(a)) std::swap(a, b);
    if (w == 1) {
        if (isConst(b)) return b->val ? a : mkNot(a);
        if (a->op == OP_NOT && a->a == b) return mkFalse();
        if (b->op == OP_NOT && b->a == a) return mkFalse();
    }
    if (isConst(b)) {
        switch (a->op) {
            case OP_ADD:
                if (isConst(a->b)) return mkEq(a->a, mkConst(b->val - a->b->val, w));
                break;
            case OP_SUB:
                if (isConst(a->a)) return mkEq(a->b, mkConst(a->a->val - b->val, w));
                if (b->val == 0) return mkEq(a->a, a->b);
                break;
            case OP_XOR:
                if (isConst(a->b)) return mkEq(a->a, mkConst(a->b->val ^ b->val, w));
                if (b->val == 0) return mkEq(a->a, a->b);
                break;
            case OP_NOT:
                return mkEq(a->a, mkConst(~b->val, w));
            case OP_ZEXT:
                if (b->val >> a->a->width) return mkFalse();
                return mkEq(a->a, mkConst(b->val, a->a->width));
            case OP_SEXT: {
                u128 t = b->val & maskOf(a->a->width);
                if (((u128)sextOf(t, a->a->width) & maskOf(w)) != b->val) return mkFalse();
                return mkEq(a->a, mkConst(t, a->a->width));
            }
            case OP_CONCAT:
                return mkAnd(mkEq(a->a, mkConst(b->val >> a->b->width, a->a->width)),
                             mkEq(a->b, mkConst(b->val, a->b->width)));
            case OP_OR:
                if (b->val == 0) return mkAnd(mkEq(a->a, b), mkEq(a->b, b));
                break;
            case OP_ITE:
                if (iteConstLeaves(a, 4) || isConst(a->b) || isConst(a->c))
                    return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
                break;
            default: break;
        }
    } else {
        if (a->op == OP_ZEXT && b->op == OP_ZEXT) {
            unsigned m = std::max(a->a->width, b->a->width);
            if (m < w) return mkEq(mkZExt(a->a, m), mkZExt(b->a, m));
        }
        if (a->op == OP_SEXT && b->op == OP_SEXT && a->a->width == b->a->width) return mkEq(a->a, b->a);
        if (a->op == OP_CONCAT && b->op == OP_CONCAT && a->b->width == b->b->width)
            return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
        if (a->op == OP_ADD && b->op == OP_ADD) {
            if (a->b == b->b) return mkEq(a->a, b->a);
            if (a->a == b->a) return mkEq(a->b, b->b);
            if (a->a == b->b) return mkEq(a->b, b->a);
            if (a->b == b->a) return mkEq(a->a, b->b);
        }
        if (a->op == OP_ADD && a->a == b) return mkEq(a->b, mkConst(0, w));
        if (a->op == OP_ADD && a->b == b) return mkEq(a->a, mkConst(0, w));
        if (b->op == OP_ADD && b->a == a) return mkEq(b->b, mkConst(0, w));
        if (b->op == OP_ADD && b->b == a) return mkEq(b->a, mkConst(0, w));
        if (a->op == OP_XOR && b->op == OP_XOR) {
            if (a->b == b->b) return mkEq(a->a, b->a);
            if (a->a == b->a) return mkEq(a->b, b->b);
        }
        if (a->op == OP_ITE && b->op == OP_ITE && a->a == b->a) return mkIte(a->a, mkEq(a->b, b->b), mkEq(a->c, b->c));
        if (a->op == OP_ITE && (a->b == b || a->c == b)) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
        if (b->op == OP_ITE && (b->b == a || b->c == a)) return mkIte(b->a, mkEq(b->b, a), mkEq(b->c, a));
        if (a->id > b->id) std::swap(a, b);
    }
    return intern(OP_EQ, 1, a, b, 0, 0);
}
u128 structMax(E e) {
    switch (e->op) {
        case OP_CONST: return e->val;
        case OP_ZEXT: return structMax(e->a);
        case OP_CONCAT: return (structMax(e->a) << e->b->width) | structMax(e->b);
        case OP_ITE: return std::max(structMax(e->b), structMax(e->c));
        case OP_AND: return std::min(structMax(e->a), structMax(e->b));
        case OP_UREM: return isConst(e->b) && e->b->val ? std::min(structMax(e->a), e->b->val - 1) : maskOf(e->width);
        case OP_UDIV: return isConst(e->b) && e->b->val ? structMax(e->a) / e->b->val : maskOf(e->width);
        case OP_ADD: {
            if (e->width > 120) return maskOf(e->width);
            u128 x = structMax(e->a), y = structMax(e->b);
            if (x + y <= maskOf(e->width)) return x + y;
            return maskOf(e->width);
        }
        default: return maskOf(e->width);
    }
}
E mkUlt(E a, E b) {
    unsigned w = a->width;
    if (a == b) return mkFalse();
    if (isConst(a) && isConst(b)) return a->val < b->val ? mkTrue() : mkFalse();
    if (isZero(b)) return mkFalse();
    if (allOnes(a)) return mkFalse();
    if (w == 1) return mkAnd(mkNot(a), b);
    if (isConst(b)) {
        if (b->val == 1) return mkEq(a, mkConst(0, w));
        if (structMax(a) < b->val) return mkTrue();
    }
    if (isZero(a)) return mkNot(mkEq(b, a));
    if (isConst(a) && structMax(b) <= a->val) return mkFalse();
    if (a->op == OP_ZEXT && b->op == OP_ZEXT) {
        unsigned m = std::max(a->a->width, b->a->width);
        if (m < w) return mkUlt(mkZExt(a->a, m), mkZExt(b->a, m));
    }
    if (a->op == OP_ZEXT && isConst(b)) {
        if (b->val > maskOf(a->a->width)) return mkTrue();
        return mkUlt(a->a, mkConst(b->val, a->a->width));
    }
    if (b->op == OP_ZEXT && isConst(a)) {
        if (a->val >= maskOf(b->a->width)) return mkFalse();
        return mkUlt(mkConst(a->val, b->a->width), b->a);
    }
    if (isConst(b) && a->op == OP_ITE && (isConst(a->b) || isConst(a->c))) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->c, b));
    if (isConst(a) && b->op == OP_ITE && (isConst(b->b) || isConst(b->c))) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->c));
    return intern(OP_ULT, 1, a, b, 0, 0);
}
E mkUle(E a, E b) {
    unsigned w = a->width;
    if (a == b) return mkTrue();
    if (isConst(a) && isConst(b)) return a->val <= b->val ? mkTrue() : mkFalse();
    if (isZero(a)) return mkTrue();
    if (allOnes(b)) return mkTrue();
    if (isConst(b)) return mkUlt(a, mkConst(b->val + 1, w));
    if (isConst(a)) return mkUlt(mkConst(a->val - 1, w), b);
    if (w == 1) return mkOr(mkNot(a), b);
    if (a->op == OP_ZEXT && b->op == OP_ZEXT) {
        unsigned m = std::max(a->a->width, b->a->width);
        if (m < w) return mkUle(mkZExt(a->a, m), mkZExt(b->a, m));
    }
    return intern(OP_ULE, 1, a, b, 0, 0);
}
E mkSlt(E a, E b) {
    unsigned w = a->width;
    if (a == b) return mkFalse();
    if (isConst(a) && isConst(b)) return sextOf(a->val, w) < sextOf(b->val, w) ? mkTrue() : mkFalse();
    if (w == 1) return mkAnd(a, mkNot(b));
    if (msbZero(a) && msbZero(b)) return mkUlt(a, b);
    if (isConst(b) && b->val == 0) return mkEq(mkExtract(a, w - 1, 1), mkConst(1, 1));
    if (isConst(a) && a->val == maskOf(w)) return mkEq(mkExtract(b, w - 1, 1), mkConst(0, 1));
    if (msbZero(a) && isConst(b)) return mkFalse();
    if (msbZero(b) && isConst(a)) return mkTrue();
    if (isConst(b) && b->val == ((u128)1 << (w - 1))) return mkFalse();
    if (isConst(a) && a->val == maskOf(w - 1)) return mkFalse();
    if (a->op == OP_SEXT && b->op == OP_SEXT && a->a->width == b->a->width) return mkSlt(a->a, b->a);
    if (a->op == OP_SEXT && isConst(b)) {
        i128 v = sextOf(b->val, w);
        unsigned n = a->a->width;
        i128 mx = (i128)maskOf(n - 1), mn = -mx - 1;
        if (v > mx) return mkTrue();
        if (v <= mn) return mkFalse();
        return mkSlt(a->a, mkConst((u128)v, n));
    }
    if (b->op == OP_SEXT && isConst(a)) {
        i128 v = sextOf(a->val, w);
        unsigned n = b->a->width;
        i128 mx = (i128)maskOf(n - 1), mn = -mx - 1;
        if (v >= mx) return mkFalse();
        if (v < mn) return mkTrue();
        return mkSlt(mkConst((u128)v, n), b->a);
    }
    if (isConst(b) && a->op == OP_ITE && (isConst(a->b) || isConst(a->c))) return mkIte(a->a, mkSlt(a->b, b), mkSlt(a->c, b));
    if (isConst(a) && b->op == OP_ITE && (isConst(b->b) || isConst(b->c))) return mkIte(b->a, mkSlt(a, b->b), mkSlt(a, b->c));
    return intern(OP_SLT, 1, a, b, 0, 0);
}
E mkSle(E a, E b) {
    unsigned w = a->width;
    if (a == b) return mkTrue();
    if (isConst(a) && isConst(b)) return sextOf(a->val, w) <= sextOf(b->val, w) ? mkTrue() : mkFalse();
    if (w == 1) return mkOr(a, mkNot(b));
    if (isConst(b)) {
        if (b->val == maskOf(w - 1)) return mkTrue();
        return mkSlt(a, mkConst(b->val + 1, w));
    }
    if (isConst(a)) {
        if (a->val == ((u128)1 << (w - 1))) return mkTrue();
        return mkSlt(mkConst(a->val - 1, w), b);
    }
    if (msbZero(a) && msbZero(b)) return mkUle(a, b);
    if (a->op == OP_SEXT && b->op == OP_SEXT && a->a->width == b->a->width) return mkSle(a->a, b->a);
    return intern(OP_SLE, 1, a, b, 0, 0);
}
E mkIte(E c, E t, E f) {
    assert(t->width == f->width && c->width == 1);
    if (isConst(c)) return c->val ? t : f;
    if (t == f) return t;
    if (c->op == OP_NOT) return mkIte(c->a, f, t);
    if (t->width == 1) {
        if (isConst(t) && isConst(f)) return t->val ? c : mkNot(c);
        if (isConst(t)) return t->val ? mkOr(c, f) : mkAnd(mkNot(c), f);
        if (isConst(f)) return f->val ? mkOr(mkNot(c), t) : mkAnd(c, t);
    }
    if (t->op == OP_ITE && t->a == c) t = t->b;
    if (f->op == OP_ITE && f->a == c) f = f->c;
    if (t == f) return t;
    // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if (f->op == OP_ITE && f->b == t) return mkIte(mkOr(c, f->a), t, f->c);
    if (t->op == OP_ZEXT && f->op == OP_ZEXT && t->a->width == f->a->width) return mkZExt(mkIte(c, t->a, f->a), t->width);
    if (t->op == OP_CONCAT && f->op == OP_CONCAT && t->b->width == f->b->width) {
        if (t->a == f->a) return mkConcat(t->a, mkIte(c, t->b, f->b));
        if (t->b == f->b) return mkConcat(mkIte(c, t->a, f->a), t->b);
    }
    return intern(OP_ITE, t->width, c, t, f, 0);
}

// ---------------------------------------------------------------- evaluation
static u64 g_epoch = 1;
static u128 evalRec(E e, const Model& m) {
    if (e->op == OP_CONST) return e->val;
    if (e->epoch == g_epoch) return e->memo;
    u128 r = 0;
    unsigned w = e->width;
    u128 mk = maskOf(w);
    switch (e->op) {
        case OP_VAR: {
            u32 id = (u32)e->val;
            r = id < m.size() ? m[id] : 0;
            r &= mk;
            break;
        }
        case OP_CONCAT: r = (evalRec(e->a, m) << e->b->width) | evalRec(e->b, m); break;
        case OP_EXTRACT: r = (evalRec(e->a, m) >> (unsigned)e->val) & mk; break;
        case OP_ZEXT: r = evalRec(e->a, m); break;
        case OP_SEXT: r = (u128)sextOf(evalRec(e->a, m), e->a->width) & mk; break;
        case OP_ADD: r = (evalRec(e->a, m) + evalRec(e->b, m)) & mk; break;
        case OP_SUB: r = (evalRec(e->a, m) - evalRec(e->b, m)) & mk; break;
        case OP_MUL: r = (evalRec(e->a, m) * evalRec(e->b, m)) & mk; break;
        case OP_UDIV: {
            u128 x = evalRec(e->a, m), y = evalRec(e->b, m);
            r = y ? x / y : mk;
            break;
        }
        case OP_UREM: {
            u128 x = evalRec(e->a, m), y = evalRec(e->b, m);
            r = y ? x % y : x;
            break;
        }
        case OP_SDIV: {
            i128 x = sextOf(evalRec(e->a, m), w), y = sextOf(evalRec(e->b, m), w);
            if (y == 0) r = x < 0 ? 1 : mk;
            else if (y == -1) r = (u128)(-x) & mk;
            else r = (u128)(x / y) & mk;
            break;
        }
        case OP_SREM: {
            i128 x = sextOf(evalRec(e->a, m), w), y = sextOf(evalRec(e->b, m), w);
            if (y == 0) r = (u128)x & mk;
            else if (y == -1) r = 0;
            else r = (u128)(x % y) & mk;
            break;
        }
        case OP_AND: r = evalRec(e->a, m) & evalRec(e->b, m); break;
        case OP_OR: r = evalRec(e->a, m) | evalRec(e->b, m); break;
        case OP_XOR: r = evalRec(e->a, m) ^ evalRec(e->b, m); break;
        case OP_NOT: r = ~evalRec(e->a, m) & mk; break;
        case OP_SHL: {
            u128 s = evalRec(e->b, m);
            r = s >= w ? 0 : (evalRec(e->a, m) << (unsigned)s) & mk;
            break;
        }
        case OP_LSHR: {
            u128 s = evalRec(e->b, m);
            r = s >= w ? 0 : evalRec(e->a, m) >> (unsigned)s;
            break;
        }
        case OP_ASHR: {
            u128 s = evalRec(e->b, m);
            i128 x = sextOf(evalRec(e->a, m), w);
            r = (u128)(x >> (s >= w ? w - 1 : (unsigned)s)) & mk;
            break;
        }
        case OP_EQ: r = evalRec(e->a, m) == evalRec(e->b, m); break;
        case OP_ULT: r = evalRec(e->a, m) < evalRec(e->b, m); break;
        case OP_ULE: r = evalRec(e->a, m) <= evalRec(e->b, m); break;
        case OP_SLT: r = sextOf(evalRec(e->a, m), e->a->width) < sextOf(evalRec(e->b, m), e->a->width); break;
        case OP_SLE: r = sextOf(evalRec(e->a, m), e->a->width) <= sextOf(evalRec(e->b, m), e->a->width); break;
        case OP_ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m); break;
        default: break;
    }
    e->epoch = g_epoch;
    e->memo = r;
    return r;
}
u128 evalExpr(E e, const Model& m) {
    if (e->op == OP_CONST) return e->val;
    g_epoch++;
    return evalRec(e, m);
}

// ---------------------------------------------------------------- support sets
static std::map<std::vector<u32>, const std::vector<u32>*> g_supports;
static const std::vector<u32>* internSupport(std::vector<u32>&& v) {
    auto it = g_supports.find(v);
    if (it != g_supports.end()) return it->second;
    auto* p = new std::vector<u32>(v);
    g_supports.emplace(std::move(v), p);
    return p;
}
const std::vector<u32>& supportOf(E e) {
    if (e->support) return *e->support;
    const std::vector<u32>* r = nullptr;
    if (e->op == OP_CONST)
        r = internSupport({});
    else if (e->op == OP_VAR)
        r = internSupport({(u32)e->val});
    else {
        const std::vector<u32>* s = &supportOf(e->a);
        if (e->b) {
            const std::vector<u32>* t = &supportOf(e->b);
            if (t != s) {
                std::vector<u32> u;
                std::set_union(s->begin(), s->end(), t->begin(), t->end(), std::back_inserter(u));
                s = internSupport(std::move(u));
            }
        }
        if (e->c) {
            const std::vector<u32>* t = &supportOf(e->c);
            if (t != s) {
                std::vector<u32> u;
                std::set_union(s->begin(), s->end(), t->begin(), t->end(), std::back_inserter(u));
                s = internSupport(std::move(u));
            }
        }
        r = s;
    }
    e->support = r;
    return *r;
}

unsigned knownTrailingZeros(E e) {
    switch (e->op) {
        case OP_CONST: {
            if (e->val == 0) return e->width;
            unsigned k = 0;
            while (!((e->val >> k) & 1)) k++;
            return k;
        }
        case OP_CONCAT: {
            unsigned k = knownTrailingZeros(e->b);
            if (k == e->b->width) return k + knownTrailingZeros(e->a);
            return k;
        }
        case OP_ZEXT: {
            unsigned k = knownTrailingZeros(e->a);
            return k == e->a->width ? e->width : k;
        }
        case OP_SEXT: return knownTrailingZeros(e->a);
        case OP_ADD:
        case OP_SUB:
        case OP_OR:
        case OP_XOR: return std::min(knownTrailingZeros(e->a), knownTrailingZeros(e->b));
        case OP_AND: return std::max(knownTrailingZeros(e->a), knownTrailingZeros(e->b));
        case OP_MUL: return std::min<unsigned>(e->width, knownTrailingZeros(e->a) + knownTrailingZeros(e->b));
        case OP_ITE: return std::min(knownTrailingZeros(e->b), knownTrailingZeros(e->c));
        default: return 0;
    }
}

static std::string u128s(u128 v) {
    char buf[64];
    if (v >> 64) snprintf(buf, sizeof buf, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
    else snprintf(buf, sizeof buf, "0x%llx", (unsigned long long)v);
    return buf;
}
std::string toString(E e, int depth) {
    static const char* names[] = {"const", "var", "concat", "extract", "zext", "sext", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "~", "<<", ">>u", ">>s", "=", "<u", "<=u", "<s", "<=s", "ite"};
    if (e->op == OP_CONST) return u128s(e->val) + ":" + std::to_string(e->width);
    if (e->op == OP_VAR) return g_vars[(u32)e->val].name;
    if (depth == 0) return "...";
    std::string s = std::string("(") + names[e->op];
    if (e->op == OP_EXTRACT) s += "[" + std::to_string((unsigned)e->val) + "+" + std::to_string(e->width) + "]";
    if (e->op == OP_ZEXT || e->op == OP_SEXT) s += std::to_string(e->width);
    for (E x : {e->a, e->b, e->c})
        if (x) s += " " + toString(x, depth - 1);
    return s + ")";
}
E rebuild(E x, E a, E b, E c) {
    switch (x->op) {
        case OP_CONCAT: return mkConcat(a, b);
        case OP_EXTRACT: return mkExtract(a, (unsigned)x->val, x->width);
        case OP_ZEXT: return mkZExt(a, x->width);
        case OP_SEXT: return mkSExt(a, x->width);
        case OP_ADD: return mkAdd(a, b);
        case OP_SUB: return mkSub(a, b);
        case OP_MUL: return mkMul(a, b);
        case OP_UDIV: return mkUDiv(a, b);
        case OP_SDIV: return mkSDiv(a, b);
        case OP_UREM: return mkURem(a, b);
        case OP_SREM: return mkSRem(a, b);
        case OP_AND: return mkAnd(a, b);
        case OP_OR: return mkOr(a, b);
        case OP_XOR: return mkXor(a, b);
        case OP_NOT: return mkNot(a);
        case OP_SHL: return mkShl(a, b);
        case OP_LSHR: return mkLShr(a, b);
        case OP_ASHR: return mkAShr(a, b);
        case OP_EQ: return mkEq(a, b);
        case OP_ULT: return mkUlt(a, b);
        case OP_ULE: return mkUle(a, b);
        case OP_SLT: return mkSlt(a, b);
        case OP_SLE: return mkSle(a, b);
        case OP_ITE: return mkIte(a, b, c);
        default: return x;
    }
}
}  // namespace symx
