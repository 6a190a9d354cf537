// Bodies shared by the 32-bit and 64-bit bitmap harnesses.  Membership is decided pointwise: a probe id q is fixed
// but unknown, the reference carries the single fact "q is in the set".
#pragma once
#include "env.h"
namespace bm {
template <class B, class I>
struct T {
    // window of ids the symbolic ids are drawn from
    I base, width;
    I id(const char* n) const {
        I x = vp::any<I>(n);
        VP_ASSUME(x >= base && x - base < width);
        return x;
    }
    // range bounds, and ids next to stored runs or dense containers: one case per value of the window
    I cid(const char* n) const { return base + (I)vp::choose((size_t)width, n); }
    I member(const char* n, int kind) const { return kind ? cid(n) : id(n); }
    // any id; with dense containers any id near the window
    I probe(bool dense) const {
        I q = vp::any<I>("probe");
        VP_ASSUME(q >= 0);
        if (dense) VP_ASSUME(q >= (base < 40 ? 0 : base - 40) && q <= base + (width - 1));
        return q;
    }
    // set content with a container shape of its own: 0 empty, 1 run of 100 ids, 2 every other id of a long stretch (dense
    // container), 3 run up to the next container
    struct Shape {
        int kind;
        I from;
        bool has(I q) const {
            switch (kind) {
                case 1: return q >= from && q - from < 100;
                case 2: return q >= from && q - from < 9000 && ((q - from) & 1) == 0;
                case 3: return q >= from && q - from < 66000;
                default: return false;
            }
        }
        int64_t size() const { return kind == 1 ? 100 : kind == 2 ? 4500 : kind == 3 ? 66000 : 0; }
        void put(B& b) const {
            if (kind == 1) b.AddRange(from, from + 100);
            if (kind == 3) b.AddRange(from, from + 66000);
            if (kind == 2)
                for (I i = 0; i < 9000; i += 2) b.Add(from + i);
        }
    };
    // -------- history of updates
    void history(int steps, const Shape& s, const Shape& other) const {
        B b, o;
        s.put(b);
        other.put(o);
        I q = probe(s.kind >= 2 || other.kind >= 2);
        bool in = s.has(q);
        int64_t card = s.size();
        bool cardKnown = true;
        for (int i = 0; i < steps; i++) {
            switch (vp::choose(8, "op")) {
                case 0: {
                    I x = member("x", s.kind | other.kind);
                    bool had = b.Contains(x);
                    b.Add(x);
                    card += !had;
                    in |= x == q;
                    break;
                }
                case 1: {
                    I x = member("x", s.kind | other.kind);
                    bool had = b.Contains(x);
                    VP_CHECK(b.CheckedAdd(x) == !had, "checked add tells whether the id is new");
                    card += !had;
                    in |= x == q;
                    break;
                }
                case 2: {
                    I lo = cid("lo"), hi = cid("hi");
                    b.AddRange(lo, hi);
                    in |= q >= lo && q < hi;
                    cardKnown = false;
                    break;
                }
                case 3: {
                    I lo = cid("lo"), hi = cid("hi");
                    b.RemoveRange(lo, hi);
                    in &= !(q >= lo && q < hi);
                    cardKnown = false;
                    break;
                }
                case 4: {
                    I lo = cid("lo"), hi = cid("hi");
                    b.Flip(lo, hi);
                    in ^= q >= lo && q < hi;
                    cardKnown = false;
                    break;
                }
                case 5: b |= o; in |= other.has(q); cardKnown = false; break;
                case 6: b &= o; in &= other.has(q); cardKnown = false; break;
                case 7: b -= o; in &= !other.has(q); cardKnown = false; break;
            }
        }
        VP_CHECK(b.Contains(q) == in, "membership after updates");
        VP_CHECK(o.Contains(q) == other.has(q) && o.Cardinality() == other.size(), "the operand is unchanged");
        if (cardKnown) VP_CHECK((int64_t)b.Cardinality() == card, "cardinality after adds");
        VP_CHECK(b.IsEmpty() == (b.Cardinality() == 0), "emptiness");
        if (in) VP_CHECK(!b.IsEmpty(), "a set with a member is not empty");
        B c(b);
        VP_CHECK(c == b, "a copy is equal");
        I x = base;
        if (!b.Contains(x)) {
            c.Add(x);
            VP_CHECK(!(c == b) && !(b == c) && !b.Contains(x) && c.Contains(x), "the copy is independent");
        }
        vp_reach("history");
    }
    // -------- two-operand functions
    void binary(int n, const Shape& sa, const Shape& sb, int op) const {
        B a, b;
        sa.put(a);
        sb.put(b);
        I q = probe(sa.kind >= 2 || sb.kind >= 2);
        bool ia = sa.has(q), ib = sb.has(q);
        for (int i = 0; i < n; i++) {
            bool few = sa.kind || sb.kind || op == 3 || op == 4;  // (fast union works on dense containers)
            I x = member("a", few), y = member("b", few);
            a.Add(x);
            b.Add(y);
            ia |= x == q;
            ib |= y == q;
        }
        auto ca = a.Cardinality(), cb = b.Cardinality();
        B r;
        bool want = false;
        switch (op) {
            case 0: r = B::And(a, b); want = ia && ib; break;
            case 1: r = B::Or(a, b); want = ia || ib; break;
            case 2: r = B::AndNot(a, b); want = ia && !ib; break;
            case 3: r = B::FastUnion(std::vector<const B*>{&a, &b}); want = ia || ib; break;
            case 4: {
                B e;
                r = B::FastUnion(std::vector<B>{a, e, b});
                want = ia || ib;
                break;
            }
            case 5: r = a; r |= b; want = ia || ib; break;
            case 6: r = a; r &= b; want = ia && ib; break;
            case 7: r = a; r -= b; want = ia && !ib; break;
        }
        VP_CHECK(r.Contains(q) == want, "membership in the combination");
        VP_CHECK(a.Contains(q) == ia && b.Contains(q) == ib, "operands keep their members");
        VP_CHECK(a.Cardinality() == ca && b.Cardinality() == cb, "operands keep their size");
        auto both = B::And(a, b).Cardinality();
        int64_t wc = op == 0 || op == 6 ? both : op == 2 || op == 7 ? ca - both : ca + cb - both;
        VP_CHECK((int64_t)r.Cardinality() == wc, "cardinality of the combination");
        VP_CHECK(r.IsEmpty() == (wc == 0), "emptiness of the combination");
        if (want) VP_CHECK(!r.IsEmpty(), "a combination with a member is not empty");
        vp_reach("binary");
    }
    // -------- few ids: exact reference
    static size_t sorted(std::vector<I>& v, size_t n) {
        // insertion into a sorted duplicate-free list
        std::vector<I> o;
        for (size_t i = 0; i < n; i++) {
            size_t k = 0;
            while (k < o.size() && o[k] < v[i]) k++;
            if (k < o.size() && o[k] == v[i]) continue;
            o.insert(o.begin() + k, v[i]);
        }
        v = o;
        return o.size();
    }
    void iteration(size_t n) const {
        std::vector<I> v;
        for (size_t i = 0; i < n; i++) v.push_back(id("x"));
        B b = B::From(v);
        sorted(v, n);
        VP_CHECK((size_t)b.Cardinality() == v.size(), "cardinality counts distinct ids");
        size_t i = 0;
        for (auto it = b.Begin(); it != b.End(); ++it, i++) {
            VP_CHECK(i < v.size(), "iteration ends after the last id");
            VP_CHECK(*it == v[i], "iteration is in increasing order");
        }
        VP_CHECK(i == v.size(), "iteration visits every id");
        // seek
        I key = vp::any<I>("key");
        VP_ASSUME(key >= 0);
        size_t k = 0;
        while (k < v.size() && v[k] < key) k++;
        auto it = b.EqualOrLarger(key);
        VP_CHECK((it == b.End()) == (k == v.size()), "seek reaches the end exactly if no id is left");
        if (k < v.size()) {
            VP_CHECK(*it == v[k], "seek finds the first id not below the key");
            auto copy = it;
            ++copy;
            VP_CHECK(*it == v[k], "copies of an iterator are independent");
            VP_CHECK((copy == b.End()) == (k + 1 == v.size()), "the id after the sought one");
            if (k + 1 < v.size()) VP_CHECK(*copy == v[k + 1], "iteration continues after a seek");
            it = copy;
            auto moved = std::move(copy);
            VP_CHECK(it == moved, "moved iterators keep their place");
        }
        I hi = vp::any<I>("hi");
        VP_ASSUME(hi >= 0);
        VP_CHECK(b.ContainsAny(key, hi) == (k < v.size() && v[k] < hi), "range containment");
        vp_reach("iteration");
    }
    void equality(size_t n, size_t m) const {
        std::vector<I> v, w;
        for (size_t i = 0; i < n; i++) v.push_back(id("a"));
        for (size_t i = 0; i < m; i++) w.push_back(id("b"));
        B a = B::From(v), b;
        for (I x : w) b.Add(x);
        sorted(v, n);
        sorted(w, m);
        bool eq = v.size() == w.size();
        for (size_t i = 0; eq && i < v.size(); i++) eq = v[i] == w[i];
        VP_CHECK((a == b) == eq && (b == a) == eq, "equality is equality of the sets");
        B moved(std::move(a));
        VP_CHECK((moved == b) == eq, "a moved bitmap keeps its content");
        a = b;
        VP_CHECK(a == b, "assignment to a moved-from bitmap");
        b = std::move(moved);
        VP_CHECK((a == b) == eq, "move assignment");
        vp_reach("equality");
    }
    // the same set represented differently is equal: range added at once or id by id, with removals in between
    void representation() const {
        I lo = cid("lo");
        int n = (int)vp::choose(8, "n");
        B a, b;
        a.AddRange(lo, lo + n);
        for (int i = n - 1; i >= 0; i--) b.Add(lo + i);
        VP_CHECK(a == b && b == a, "range and single adds give equal sets");
        VP_CHECK((int64_t)a.Cardinality() == n, "cardinality of a range");
        I x = cid("x");
        a.AddRange(x, x + 1);
        b.Add(x);
        VP_CHECK(a == b, "still equal after one more id");
        a.RemoveRange(x, x + 1);
        b.Flip(x, x + 1);
        VP_CHECK(a == b && !a.Contains(x), "removal by range and by flip agree");
        vp_reach("representation");
    }
};
}  // namespace bm
