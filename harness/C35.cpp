// C35: stored codes of row kinds, file kinds, sources and modes are bijective.
// vp-bounds: every byte value; every string of 0..4 bytes as a short row-kind name; every string of 0..20 bytes as a startup mode
#include "paimon/common/types/row_kind.h"
#include "paimon/core/manifest/file_kind.h"
#include "paimon/core/manifest/file_source.h"
#include "paimon/table/source/startup_mode.h"
#include "vp.h"
using namespace paimon;
static const char* const kShort[] = {"+I", "-U", "+U", "-D"};
static const char* const kName[] = {"INSERT", "UPDATE_BEFORE", "UPDATE_AFTER", "DELETE"};
static const RowKind* kind(int i) {
    switch (i) {
        case 0: return RowKind::Insert();
        case 1: return RowKind::UpdateBefore();
        case 2: return RowKind::UpdateAfter();
        default: return RowKind::Delete();
    }
}
VP_HARNESS(row_kind, 1) {
    vp_expect("known");
    vp_expect("unknown");
    for (int i = 0; i < 4; i++) {
        VP_CHECK(kind(i)->ToByteValue() == i, "documented code");
        VP_CHECK(kind(i)->ShortString() == kShort[i], "documented short name");
        VP_CHECK(kind(i)->Name() == kName[i], "documented name");
        VP_CHECK(kind(i)->IsRetract() == (i == 1 || i == 3) && kind(i)->IsAdd() == (i == 0 || i == 2), "direction");
        for (int j = 0; j < 4; j++) VP_CHECK((*kind(i) == *kind(j)) == (i == j), "distinct kinds differ");
    }
    int8_t v = vp::any<int8_t>("code");
    auto r = RowKind::FromByteValue(v);
    VP_CHECK(r.ok() == (v >= 0 && v <= 3), "exactly the documented codes are accepted");
    if (r.ok()) {
        VP_CHECK(r.value() == kind(v), "the kind of the code");
        VP_CHECK(r.value()->ToByteValue() == v, "there and back");
        vp_reach("known");
    } else
        vp_reach("unknown");
}
VP_HARNESS(row_kind_name, 5) {
    if (vp_shard() == 2) vp_expect("known");
    vp_expect("unknown");
    std::string s = vp::any_string(vp_shard(), "name");
    auto r = RowKind::FromShortString(s);
    int want = -1;
    for (int i = 0; i < 4; i++)
        if (s == kShort[i]) want = i;
    VP_CHECK(r.ok() == (want >= 0), "exactly the documented names are accepted");
    if (r.ok()) {
        VP_CHECK(r.value() == kind(want) && r.value()->ShortString() == s, "the kind of the name");
        vp_reach("known");
    } else
        vp_reach("unknown");
}
VP_HARNESS(file, 1) {
    vp_expect("known");
    vp_expect("unknown");
    VP_CHECK(FileKind::Add().ToByteValue() == 0 && FileKind::Delete().ToByteValue() == 1, "documented file kinds");
    VP_CHECK(FileSource::Append().ToByteValue() == 0 && FileSource::Compact().ToByteValue() == 1, "documented file sources");
    VP_CHECK(!(FileKind::Add() == FileKind::Delete()) && !(FileSource::Append() == FileSource::Compact()) && FileSource::Append() != FileSource::Compact(), "distinct ones differ");
    VP_CHECK(FileSource::Append().ToString() == "APPEND" && FileSource::Compact().ToString() == "COMPACT", "names");
    int8_t v = vp::any<int8_t>("code");
    auto k = FileKind::FromByteValue(v);
    auto s = FileSource::FromByteValue(v);
    bool known = v == 0 || v == 1;
    VP_CHECK(k.ok() == known && s.ok() == known, "exactly the documented codes are accepted");
    if (known) {
        VP_CHECK(k.value().ToByteValue() == v && s.value().ToByteValue() == v, "there and back");
        VP_CHECK(k.value() == (v ? FileKind::Delete() : FileKind::Add()), "the kind of the code");
        VP_CHECK(s.value() == (v ? FileSource::Compact() : FileSource::Append()), "the source of the code");
        VP_CHECK(s.value().ToString() == (v ? "COMPACT" : "APPEND"), "the name of the source");
        vp_reach("known");
    } else
        vp_reach("unknown");
}
VP_HARNESS(startup_mode, 7) {
    vp_expect("known");
    vp_expect("unknown");
    static const char* const names[] = {"default", "latest-full", "latest", "from-snapshot", "from-snapshot-full"};
    const StartupMode modes[] = {StartupMode::Default(), StartupMode::LatestFull(), StartupMode::Latest(), StartupMode::FromSnapshot(), StartupMode::FromSnapshotFull()};
    for (int i = 0; i < 5; i++) {
        VP_CHECK(modes[i].ToString() == names[i], "documented name");
        for (int j = 0; j < 5; j++) VP_CHECK((modes[i] == modes[j]) == (i == j), "distinct modes differ");
    }
    for (int k = 0; k < 3; k++) {
        std::string s = vp::any_string(vp_shard() * 3 + k, "mode");
        auto r = StartupMode::FromString(s);
        int want = -1;
        for (int i = 0; i < 5; i++)
            if (s == names[i]) want = i;
        VP_CHECK(r.ok() == (want >= 0), "exactly the documented names are accepted");
        if (r.ok()) {
            VP_CHECK(r.value() == modes[want] && r.value().ToString() == s, "the mode of the name");
            vp_reach("known");
        } else
            vp_reach("unknown");
    }
}
