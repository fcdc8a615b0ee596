// helpers shared by the harness units
#pragma once
#include <ply-runtime/Precomp.h>
#include <ply-runtime/string/StringView.h>
#include <ply-runtime/string/String.h>
#include <ply-runtime/container/Array.h>
#include "vf.h"
using namespace ply;
// arbitrary text in a read-only block of its own
inline StringView vfText(u32 maxLen, u32 nativeMax = 24) {
    u32 n = vf_len(nativeMax);
    vf_assume(n <= maxLen);
    const char* p = (const char*) vf_buf(n, 1);
    vf_readonly(p);
    return {p, n};
}
// arbitrary String with a heap block of its own (or the empty string)
inline String vfString(u32 maxLen, u32 nativeMax = 24) {
    u32 n = vf_len(nativeMax);
    vf_assume(n <= maxLen);
    if (vf_bool()) { vf_assume(n == 0); return {}; }
    return String::adopt((char*) vf_heapbuf(n, 1), n);
}
