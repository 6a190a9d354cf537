// Byte arrays cut into equally sized memory segments.
#pragma once
#include "env.h"
#include "paimon/common/memory/memory_segment.h"
#include "paimon/common/memory/memory_segment_utils.h"

namespace vp {
using paimon::MemorySegment;
// flat.size() must be a multiple of size
inline std::vector<MemorySegment> cut(const std::vector<char>& flat, size_t size) {
    std::vector<MemorySegment> r;
    for (size_t i = 0; i + size <= flat.size(); i += size)
        r.push_back(MemorySegment::Wrap(bytes_of(std::vector<char>(flat.begin() + i, flat.begin() + i + size))));
    return r;
}
inline std::vector<char> glue(const std::vector<MemorySegment>& segs) {
    std::vector<char> r;
    for (auto& s : segs)
        for (int32_t i = 0; i < s.Size(); i++) r.push_back(s.Get(i));
    return r;
}
inline size_t roundUp(size_t n, size_t m) { return (n + m - 1) / m * m; }
// a string of n arbitrary bytes placed at an offset inside arbitrary surroundings
struct Placed {
    std::vector<char> flat;
    std::vector<MemorySegment> segs;
    int32_t off = 0;
};
inline Placed place(const std::vector<char>& content, size_t segSize, size_t off, const char* name) {
    Placed p;
    p.off = (int32_t)off;
    p.flat = any_bytes(roundUp(off + content.size() ? off + content.size() : 1, segSize), name);
    for (size_t i = 0; i < content.size(); i++) p.flat[off + i] = content[i];
    p.segs = cut(p.flat, segSize);
    return p;
}
// reference hash: Murmur3 (32 bit) over whole little-endian words, trailing bytes one at a time sign-extended, length finalizer
inline uint32_t murmur_mix(uint32_t h, uint32_t k) {
    k *= 0xcc9e2d51u;
    k = (k << 15) | (k >> 17);
    k *= 0x1b873593u;
    h ^= k;
    h = (h << 13) | (h >> 19);
    return h * 5 + 0xe6546b64u;
}
inline uint32_t murmur(const char* p, size_t n, bool tail = true) {
    uint32_t h = 42;
    size_t i = 0;
    for (; i + 4 <= n; i += 4) {
        uint32_t w = (uint8_t)p[i] | (uint32_t)(uint8_t)p[i + 1] << 8 | (uint32_t)(uint8_t)p[i + 2] << 16 | (uint32_t)(uint8_t)p[i + 3] << 24;
        h = murmur_mix(h, w);
    }
    if (tail)
        for (; i < n; i++) h = murmur_mix(h, (uint32_t)(int32_t)(int8_t)p[i]);
    h ^= (uint32_t)n;
    h ^= h >> 16;
    h *= 0x85ebca6bu;
    h ^= h >> 13;
    h *= 0xc2b2ae35u;
    h ^= h >> 16;
    return h;
}
}  // namespace vp
