// C36: partition paths are unambiguous and contain no unescaped special character.
// vp-bounds: keys and values of 0..4 (thorough 6) arbitrary bytes on their own; specs of 0..2 (thorough 3) entries of 0..2 byte keys and values (all four at once: one byte each)
// vp-stubs: std::stringstream is replaced by a string-backed model in the encoding (native replay uses the real one)
#include "paimon/core/utils/partition_path_utils.h"
#include "vp.h"
using namespace paimon;
static bool special(unsigned char c) {
    if (c < 0x20 || c == 0x7f) return true;
    switch (c) {
        case '"': case '#': case '%': case '\'': case '*': case '/': case ':': case '=': case '?': case '\\':
        case '{': case '}': case '[': case ']': case '^': return true;
    }
    return false;
}
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
// the one-to-one reading of an escaped name
static bool unescape(const std::string& e, std::string& out) {
    for (size_t i = 0; i < e.size(); i++) {
        if (e[i] == '%') {
            if (i + 2 >= e.size() + 0 && i + 2 > e.size() - 1) return false;
            int h = hexv(e[i + 1]), l = hexv(e[i + 2]);
            if (h < 0 || l < 0) return false;
            out.push_back((char)(h * 16 + l));
            i += 2;
        } else {
            if (special((unsigned char)e[i])) return false;
            out.push_back(e[i]);
        }
    }
    return true;
}
VP_HARNESS(escape, 7) {
    size_t n = vp_shard();
    if (!vp_tier() && n > 4) n = 0;
    vp_expect(n ? "end" : "refused");
    if (n) vp_expect("unchanged");
    std::string s = vp::any_string(n, "name");
    auto r = PartitionPathUtils::EscapePathName(s);
    VP_CHECK(r.ok() == (n > 0), "exactly empty names are refused");
    if (!r.ok()) {
        vp_reach("refused");
        return;
    }
    std::string back;
    VP_CHECK(unescape(r.value(), back), "only harmless characters and percent pairs");
    VP_CHECK(back == s, "the name can be read back: escaping is injective");
    bool any = false;
    for (char c : s) any |= special((unsigned char)c);
    if (!any) {
        VP_CHECK(r.value() == s, "harmless text is unchanged");
        vp_reach("unchanged");
    }
    vp_reach("end");
}
static void spec_case(size_t entries, size_t kn, size_t vn, bool vary) {
    std::vector<std::pair<std::string, std::string>> spec;
    bool bad = false;
    for (size_t i = 0; i < entries; i++) {
        size_t a = vary ? vp::choose(kn + 1, "key length") : kn, b = vary ? vp::choose(vn + 1, "value length") : vn;
        bad |= !a || !b;
        spec.push_back({vp::any_string(a, "key"), vp::any_string(b, "value")});
    }
    auto p = PartitionPathUtils::GeneratePartitionPath(spec);
    auto h = PartitionPathUtils::GenerateHierarchicalPartitionPaths(spec);
    VP_CHECK(p.ok() == !bad && h.ok() == !bad, "exactly specs with an empty name are refused");
    if (bad) {
        vp_reach("refused");
        return;
    }
    std::string want;
    VP_CHECK(h.value().size() == entries, "one path per level");
    for (size_t i = 0; i < entries; i++) {
        want += PartitionPathUtils::EscapePathName(spec[i].first).value() + "=" + PartitionPathUtils::EscapePathName(spec[i].second).value() + "/";
        VP_CHECK(h.value()[i] == want, "each level is a prefix of the path");
    }
    VP_CHECK(p.value() == want, "components in order, joined and ended by separators");
    vp_reach("end");
}
VP_HARNESS(path, 5) {
    vp_expect("end");
    switch (vp_shard()) {
        case 0: spec_case(0, 0, 0, false); break;
        case 1:
            vp_expect("refused");
            spec_case(1, 2, 2, true);
            break;
        case 2: spec_case(2, 1, 1, false); break;
        case 3:
            vp_expect("refused");
            spec_case(2, 1, 1, true);
            break;
        default: spec_case(vp_tier() ? 3 : 1, 1, vp_tier() ? 1 : 3, false);
    }
}
