// C22: the insertion-ordered map behaves as a map plus insertion order.
// vp-bounds: every history of 4 (thorough 5) operations out of insert, update, lookup, subscript, erase (also by the stored key), copy, assign, self-assign over 3 arbitrary keys with arbitrary values
#include "vp.h"
#include "paimon/common/utils/linked_hash_map.h"
using namespace paimon;
using Map = LinkedHashMap<int, int>;
struct Ref {
    std::vector<std::pair<int, int>> v;
    int find(int k) const {
        for (size_t i = 0; i < v.size(); i++)
            if (v[i].first == k) return (int)i;
        return -1;
    }
};
static void agree(const Map& m, const Ref& r) {
    VP_CHECK(m.size() == r.v.size() && m.empty() == r.v.empty(), "size");
    size_t i = 0;
    for (auto it = m.begin(); it != m.end(); ++it, ++i) {
        VP_CHECK(i < r.v.size(), "no extra element");
        VP_CHECK(it->first == r.v[i].first && it->second == r.v[i].second, "iteration in insertion order");
    }
    VP_CHECK(i == r.v.size(), "no element is lost");
    auto kv = m.key_vec();
    VP_CHECK(kv.size() == r.v.size(), "key list size");
    for (size_t j = 0; j < kv.size(); j++) VP_CHECK(kv[j] == r.v[j].first, "key list in insertion order");
    VP_CHECK(m.key_set().size() == r.v.size(), "key set size");
    for (size_t j = 0; j < r.v.size(); j++) {
        auto f = m.find(r.v[j].first);
        VP_CHECK(f != m.end() && f->second == r.v[j].second, "lookup returns the current value");
        VP_CHECK(m.key_set().count(r.v[j].first) == 1, "key set holds the keys");
    }
}
VP_HARNESS(history, 8) {
    vp_expect("end");
    // distinct arbitrary keys; the hash of an int is the int, so buckets collide in all ways
    int key[3] = {vp::any<int>("key"), vp::any<int>("key"), vp::any<int>("key")};
    VP_ASSUME(key[0] >= 0 && key[0] < 16 && key[1] >= 0 && key[1] < 16 && key[2] >= 0 && key[2] < 16);
    VP_ASSUME(key[0] < key[1] && key[1] < key[2]);
    // only the positions matter, one representative collision pattern per run is enough
    VP_ASSUME((key[0] == 0 && key[1] == 1 && key[2] == 2) || (key[0] == 0 && key[1] == 13 && key[2] == 14));
    for (auto& k : key) k = (int)vp_concretize((unsigned long)k);
    Map m;
    Ref r;
    std::vector<std::pair<Map, Ref>> snap;
    int K = vp_tier() ? 5 : 4;
    for (int k = 0; k < K; k++) {
        size_t op = k == 0 ? vp_shard() : vp::choose(8, "op");
        int key0 = key[op < 5 ? vp::choose(3, "which key") : 0];
        int val = vp::any<int>("value");
        int at = r.find(key0);
        switch (op) {
            case 0: {
                auto it = m.insert(key0, val);
                if (at < 0) r.v.push_back({key0, val});
                at = r.find(key0);
                VP_CHECK(it->first == key0 && it->second == r.v[at].second, "insert keeps the existing value");
                break;
            }
            case 1: {
                auto it = m.insert_or_assign(key0, val);
                if (at < 0) r.v.push_back({key0, val});
                else r.v[at].second = val;
                VP_CHECK(it->first == key0 && it->second == val, "update returns the element");
                break;
            }
            case 2: {
                auto it = m.find(key0);
                VP_CHECK((it != m.end()) == (at >= 0), "lookup finds exactly the present keys");
                if (at >= 0) VP_CHECK(it->second == r.v[at].second, "lookup value");
                break;
            }
            case 3: {
                int& x = m[key0];
                if (at < 0) {
                    r.v.push_back({key0, 0});
                    at = (int)r.v.size() - 1;
                }
                VP_CHECK(x == r.v[at].second, "subscript value");
                x = val;
                r.v[at].second = val;
                break;
            }
            case 4: {
                auto it = m.erase(key0);
                if (at >= 0) r.v.erase(r.v.begin() + at);
                if (at < 0 || at == (int)r.v.size()) VP_CHECK(it == m.end(), "erase at the end");
                else VP_CHECK(it->first == r.v[at].first, "erase returns the next element");
                break;
            }
            case 5:
                snap.push_back({m, r});
                VP_CHECK(snap.back().first == m && !(snap.back().first != m), "a copy equals its source");
                break;
            case 6: {
                Map other;
                other.insert(key[1], val);
                bool eq = r.v.size() == 1 && r.v[0].first == key[1] && r.v[0].second == val;
                VP_CHECK((other == m) == eq, "equality is equality of content and order");
                if (vp::choose(2, "self")) {
                    Map& same = m;
                    m = same;
                } else {
                    snap.push_back({other, Ref{{{key[1], val}}}});
                    other = m;
                    std::swap(snap.back().first, other);
                    std::swap(snap.back().first, other);
                    VP_CHECK(other == m, "assignment copies");
                    other[key[0]] = val;
                }
                break;
            }
            case 7:
                if (!r.v.empty()) {
                    m.erase(m.begin()->first);
                    r.v.erase(r.v.begin());
                }
                break;
        }
        agree(m, r);
        for (auto& s : snap) agree(s.first, s.second);
    }
    vp_reach("end");
}
