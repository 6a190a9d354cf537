// Global-index answers of every kind, with the set of row ids (and scores) they stand for.
#pragma once
#include <algorithm>
#include "env.h"
#include "paimon/global_index/bitmap_global_index_result.h"
#include "paimon/global_index/bitmap_vector_search_global_index_result.h"
#include "paimon/global_index/global_index_result.h"
namespace gi {
using namespace paimon;
using R = std::shared_ptr<GlobalIndexResult>;
// an implementation of its own: a sorted vector
class Foreign : public GlobalIndexResult {
 public:
    explicit Foreign(std::vector<int64_t> v) : ids(std::move(v)) {}
    class It : public GlobalIndexResult::Iterator {
     public:
        explicit It(const std::vector<int64_t>* v) : v(v) {}
        bool HasNext() const override { return i < v->size(); }
        int64_t Next() override { return (*v)[i++]; }
        const std::vector<int64_t>* v;
        size_t i = 0;
    };
    Result<bool> IsEmpty() const override {
        if (fails) return Status::IOError("foreign");
        return ids.empty();
    }
    Result<std::unique_ptr<GlobalIndexResult::Iterator>> CreateIterator() const override {
        if (fails) return Status::IOError("foreign");
        return std::unique_ptr<GlobalIndexResult::Iterator>(new It(&ids));
    }
    Result<std::shared_ptr<GlobalIndexResult>> AddOffset(int64_t o) override {
        std::vector<int64_t> v;
        for (int64_t x : ids) v.push_back(x + o);
        return std::static_pointer_cast<GlobalIndexResult>(std::make_shared<Foreign>(v));
    }
    std::string ToString() const override { return ""; }
    std::vector<int64_t> ids;
    bool fails = false;
};
// sorted, duplicate-free
inline std::vector<int64_t> sorted(const std::vector<int64_t>& in) {
    std::vector<int64_t> o;
    for (int64_t x : in) {
        size_t k = 0;
        while (k < o.size() && o[k] < x) k++;
        if (k < o.size() && o[k] == x) continue;
        o.insert(o.begin() + k, x);
    }
    return o;
}
struct Val {
    R r;
    std::vector<int64_t> ids;  // sorted
    std::vector<float> scores; // of ids, for scored answers
    bool scored = false, fails = false;
    bool has(int64_t q) const {
        bool h = false;
        for (int64_t x : ids) h |= x == q;
        return h;
    }
};
enum Kind { LAZY, RANGES, SCORED, FOREIGN, FAILING, FOREIGN_FAILING, KINDS };
inline R lazy(const std::vector<int64_t>& ids) {
    auto v = std::make_shared<std::vector<int64_t>>(ids);
    return std::make_shared<BitmapGlobalIndexResult>([v]() -> Result<RoaringBitmap64> { return RoaringBitmap64::From(*v); });
}
inline float score(const char* n) {
    uint32_t b = vp::any<uint32_t>(n);
    float f;
    memcpy(&f, &b, 4);
    return f;
}
inline uint32_t bits(float f) {
    uint32_t b;
    memcpy(&b, &f, 4);
    return b;
}
// row ids where representations change
inline int64_t edge() {
    static const int64_t e[] = {0, 1, 65535, 65536, (1ll << 32) - 1, 1ll << 32, (1ll << 32) + 1, INT64_MAX - 1};
    return e[vp::choose(8, "edge")];
}
// up to n ids below `limit`
inline Val make(int kind, size_t n, int64_t limit) {
    Val v;
    std::vector<int64_t> ids;
    if (kind < FAILING) {
        n = vp::choose(n + 1, "rows");
        for (size_t i = 0; i < n; i++) {
            if (kind == RANGES) {
                ids.push_back(edge());
                continue;
            }
            int64_t x = vp::any<int64_t>("row");
            VP_ASSUME(x >= 0 && x <= limit);
            ids.push_back(x);
        }
    }
    if (kind == RANGES) {  // [x, x+1] for the first, single rows for the others
        std::vector<Range> rs;
        for (size_t i = 0; i < ids.size(); i++) {
            rs.push_back(Range(ids[i], ids[i] + (i == 0)));
        }
        if (!ids.empty()) ids.push_back(ids[0] + 1);
        v.r = BitmapGlobalIndexResult::FromRanges(rs);
    }
    v.ids = sorted(ids);
    switch (kind) {
        case LAZY: v.r = lazy(ids); break;
        case SCORED: {
            v.scored = true;
            for (size_t i = 0; i < v.ids.size(); i++) v.scores.push_back(score("score"));
            auto sc = v.scores;
            v.r = std::make_shared<BitmapVectorSearchGlobalIndexResult>(RoaringBitmap64::From(ids), std::move(sc));
            break;
        }
        case FOREIGN: v.r = std::make_shared<Foreign>(v.ids); break;
        case FAILING:
            v.fails = true;
            v.r = std::make_shared<BitmapGlobalIndexResult>([]() -> Result<RoaringBitmap64> { return Status::IOError("supplier"); });
            break;
        case FOREIGN_FAILING: {
            auto f = std::make_shared<Foreign>(std::vector<int64_t>());
            f->fails = v.fails = true;
            v.r = f;
            break;
        }
    }
    return v;
}
// the answer holds exactly the given ids, in order
inline void holds(const R& r, const std::vector<int64_t>& ids) {
    auto e = r->IsEmpty();
    VP_CHECK(e.ok(), "emptiness can be asked");
    VP_CHECK(e.value() == ids.empty(), "emptiness");
    auto it = r->CreateIterator();
    VP_CHECK(it.ok(), "iteration can start");
    auto i = std::move(it).value();
    for (size_t k = 0; k < ids.size(); k++) {
        VP_CHECK(i->HasNext(), "no row is lost");
        VP_CHECK(i->Next() == ids[k], "rows come in order, each once");
    }
    VP_CHECK(!i->HasNext(), "no row is added");
}
inline void carries(const R& r, const std::vector<int64_t>& ids, const std::vector<float>& scores) {
    auto s = std::dynamic_pointer_cast<VectorSearchGlobalIndexResult>(r);
    VP_CHECK(s != nullptr, "the answer is scored");
    auto it = s->CreateVectorSearchIterator();
    VP_CHECK(it.ok(), "scored iteration can start");
    auto i = std::move(it).value();
    for (size_t k = 0; k < ids.size(); k++) {
        VP_CHECK(i->HasNext(), "no scored row is lost");
        auto p = i->NextWithScore();
        VP_CHECK(p.first == ids[k], "scored rows come in order, each once");
        VP_CHECK(bits(p.second) == bits(scores[k]), "each row carries its score");
    }
    VP_CHECK(!i->HasNext(), "no scored row is added");
}
// every way of asking a failing answer reports the failure, each time
inline void refuses(const R& r) {
    VP_CHECK(!r->IsEmpty().ok(), "emptiness of a failing answer is an error");
    VP_CHECK(!r->IsEmpty().ok(), "emptiness of a failing answer is an error");
    VP_CHECK(!r->CreateIterator().ok(), "iteration of a failing answer is an error");
    VP_CHECK(!r->ToRanges().ok(), "ranges of a failing answer are an error");
}
inline std::vector<int64_t> conj(const Val& a, const Val& b) {
    std::vector<int64_t> o;
    for (int64_t x : a.ids)
        if (b.has(x)) o.push_back(x);
    return o;
}
inline std::vector<int64_t> disj(const Val& a, const Val& b) {
    std::vector<int64_t> o = a.ids;
    o.insert(o.end(), b.ids.begin(), b.ids.end());
    return sorted(o);
}
}  // namespace gi
