// C46: EndianSwapValue reverses the bytes of every supported value and is its own inverse.
// vp-bounds: all bit patterns of every 8-, 16-, 32- and 64-bit integer type, float, double
#include "paimon/common/utils/math.h"
#include "vp.h"
using namespace paimon;

template <class T>
static void one(const char* name) {
    unsigned char in[sizeof(T)], out[sizeof(T)], back[sizeof(T)];
    vp_make(in, sizeof(T), name);
    T v, r;
    memcpy(&v, in, sizeof(T));
    r = EndianSwapValue<T>(v);
    memcpy(out, &r, sizeof(T));
    bool rev = true;
    for (size_t i = 0; i < sizeof(T); i++) rev = rev & (out[i] == in[sizeof(T) - 1 - i]);
    VP_CHECK(rev, "byte order is reversed");
    T b = EndianSwapValue<T>(r);
    memcpy(back, &b, sizeof(T));
    bool same = true;
    for (size_t i = 0; i < sizeof(T); i++) same = same & (back[i] == in[i]);
    VP_CHECK(same, "swapping twice gives the value back");
}
VP_HARNESS(swap, 1) {
    vp_expect("end");
    one<int8_t>("i8");
    one<uint8_t>("u8");
    one<char>("ch");
    one<int16_t>("i16");
    one<uint16_t>("u16");
    one<int32_t>("i32");
    one<uint32_t>("u32");
    one<int64_t>("i64");
    one<uint64_t>("u64");
    one<float>("f32");
    one<double>("f64");
    vp_reach("end");
}
