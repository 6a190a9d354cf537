// C32: timestamps keep their instant through conversions and order by instant.
// vp-bounds: every millisecond of the documented range (years 0000 to 9999) and every nanosecond fraction; nanoseconds since the epoch where they fit 64 bits
#include "paimon/data/timestamp.h"
#include "vp.h"
using namespace paimon;
static const int64_t MIN_MS = -62167219200000ll, MAX_MS = 253402300799999ll;
struct T {
    int64_t ms;
    int32_t ns;
};
static T any(const char* a, const char* b) { return {vp::range<int64_t>(MIN_MS, MAX_MS, a), vp::range<int32_t>(0, 999999, b)}; }
VP_HARNESS(order, 1) {
    vp_expect("less");
    vp_expect("equal");
    vp_expect("before epoch");
    T x = any("ms1", "ns1"), y = any("ms2", "ns2");
    Timestamp a(x.ms, x.ns), b = Timestamp::FromEpochMillis(y.ms, y.ns);
    VP_CHECK(a.GetMillisecond() == x.ms && a.GetNanoOfMillisecond() == x.ns, "fields");
    VP_CHECK(b.GetMillisecond() == y.ms && b.GetNanoOfMillisecond() == y.ns, "fields");
    __int128 i = (__int128)x.ms * 1000000 + x.ns, j = (__int128)y.ms * 1000000 + y.ns;
    bool lt = a < b, gt = b < a, eq = a == b;
    // the fraction stays below a millisecond, so instants compare by (millisecond, fraction)
    bool elt = x.ms < y.ms || (x.ms == y.ms && x.ns < y.ns), eeq = x.ms == y.ms && x.ns == y.ns;
    VP_CHECK(lt == elt, "ordered by instant");
    VP_CHECK(gt == (!elt && !eeq), "the converse order");
    VP_CHECK(eq == eeq, "equal exactly for the same instant");
    if (x.ms == y.ms) VP_CHECK((i < j) == elt, "instants");
    VP_CHECK(!(a < a) && a == a, "reflexive");
    Timestamp c(a);
    VP_CHECK(c == a && !(c < a) && !(a < c), "a copy is the same instant");
    if (lt) vp_reach("less");
    if (eq) vp_reach("equal");
    if (x.ms < 0) vp_reach("before epoch");
}
VP_HARNESS(convert, 1) {
    vp_expect("before epoch");
    vp_expect("after epoch");
    vp_expect("nanos");
    T x = any("ms", "ns");
    Timestamp a(x.ms, x.ns);
    int64_t us = a.ToMicrosecond();
    // us = floor(instant in ns / 1000): us * 1000 <= instant < us * 1000 + 1000
    VP_CHECK(us - x.ms * 1000 == x.ns / 1000, "microseconds truncate towards the past");
    VP_CHECK(us - x.ms * 1000 >= 0 && us - x.ms * 1000 < 1000, "the millisecond part is not changed");
    Timestamp m = a.ToMillisTimestamp();
    VP_CHECK(m.GetMillisecond() == x.ms && m.GetNanoOfMillisecond() == 0, "milliseconds truncate towards the past");
    VP_CHECK(m.ToMillisTimestamp() == m, "truncating again changes nothing");
    VP_CHECK(!(a < m), "truncation never moves forward");
    VP_CHECK(Timestamp::FromEpochMillis(x.ms) == m, "from milliseconds");
    VP_CHECK(m.ToMicrosecond() == x.ms * 1000, "whole milliseconds convert exactly");
    if (x.ms >= -9223372036854ll && x.ms <= 9223372036853ll) {
        int64_t ns = a.ToNanosecond();
        VP_CHECK(ns - x.ms * 1000000 == x.ns, "nanoseconds are exact");
        vp_reach("nanos");
    }
    if (x.ms < 0) vp_reach("before epoch");
    else vp_reach("after epoch");
}
// there and back: the stored microsecond or nanosecond count gives the timestamp back
VP_HARNESS(back, 2) {
    vp_expect("end");
    T x = any("ms", "ns");
    int64_t per = vp_shard() ? 1000000 : 1000;
    if (vp_shard()) VP_ASSUME(x.ms >= -9223372036854ll && x.ms <= 9223372036853ll);
    else VP_ASSUME(x.ns % 1000 == 0);
    Timestamp a(x.ms, x.ns);
    int64_t v = vp_shard() ? a.ToNanosecond() : a.ToMicrosecond();
    // any split of v into a millisecond (of the neighbourhood) and a fraction below it is the original one
    int64_t d = vp::choose_between(-2, 2, "millisecond"), ms = x.ms + d;
    int64_t f = vp::range<int64_t>(0, per - 1, "fraction");
    VP_ASSUME(v - x.ms * per == d * per + f);
    Timestamp b = Timestamp::FromEpochMillis(ms, (int32_t)(vp_shard() ? f : f * 1000));
    VP_CHECK(b == a && !(a < b) && !(b < a), "conversion there and back is the identity");
    vp_reach("end");
}
VP_HARNESS(constants, 1) {
    vp_expect("end");
    VP_CHECK(Timestamp() == Timestamp(0, 0) && Timestamp().GetMillisecond() == 0, "the default is the epoch");
    int32_t p = vp::range<int32_t>(0, 9, "precision");
    VP_CHECK(Timestamp::IsCompact(p) == (p <= 3), "compact exactly up to millisecond precision");
    VP_CHECK(Timestamp::MIN_PRECISION == 0 && Timestamp::MAX_PRECISION == 9 && Timestamp::MILLIS_PRECISION == 3 && Timestamp::DEFAULT_PRECISION == 6, "precisions");
    vp_reach("end");
}
