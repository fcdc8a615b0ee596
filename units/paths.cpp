// PathFormat: separators, drive letters, split, splitExt, splitFull, from (Path.h, Path.cpp)
#include "vfply.h"
#include <ply-runtime/filesystem/Path.h>
struct Ghost { const char* p; u32 n; u32 k; bool win; Array<StringView>* res; u32 j; const char* q; u64 root; } ghost_g;
#define G ghost_g
static const u32 MAXLEN = 0x7fffffff;
static bool sep(char c) { return c == '/' || (G.win && c == '\\'); }
static bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool drive(const char* p, u32 n) { return G.win && n >= 2 && letter(p[0]) && p[1] == ':'; }

VF_HARNESS(classify) {
    StringView v = vfText(MAXLEN);
    G.win = vf_bool();
    PathFormat f{G.win};
    const char* p = v.bytes; u32 n = v.numBytes;
    char c = vf_nd8();
    vf_assert(f.isSepByte(c) == sep(c), "separators: / always, \\ on Windows only");
    vf_assert(f.sepByte() == (G.win ? '\\' : '/'), "the default separator");
    bool d = drive(p, n);
    vf_assert(f.hasDriveLetter(v) == d, "a drive letter is a letter and a colon, on Windows only");
    StringView l = f.getDriveLetter(v);
    vf_assert(l.numBytes == (d ? 2 : 0) && (!d || l.bytes == p), "the drive letter");
    bool abs = G.win ? (d && n >= 3 && sep(p[2])) : (n >= 1 && sep(p[0]));
    vf_assert(f.isAbsolute(v) == abs, "absolute paths");
    vf_assert(f.isRelative(v) == (n > 0 && !d && !sep(p[0])), "relative paths");
    vf_assert(f.endsWithSep(v) == (n > 0 && sep(p[n - 1])), "ends with a separator");
    vf_assert(NativePath::isAbsolute(v) == PathFormat{NativePath::format().isWindows}.isAbsolute(v), "the native format");
}

VF_HARNESS(split) {
    StringView v = vfText(MAXLEN);
    G.win = vf_bool();
    PathFormat f{G.win};
    const char* p = v.bytes; u32 n = v.numBytes, k = vf_len(24);
    G.p = p; G.n = n; G.k = k;
    auto r = f.split(v);
    vf_cover("end");
    vf_assert(r.second.numBytes <= n, "the name is no longer than the path");
    u64 s = n - r.second.numBytes, m = r.first.numBytes;
    vf_assert(r.second.bytes == p + s, "the name is the end of the path");
    vf_assert(m <= s && (m == 0 || r.first.bytes == p), "the directory is the start of the path");
    if (k >= s && k < n) vf_assert(!sep(p[k]), "the name contains no separator");
    if (k >= m && k < s) vf_assert(sep(p[k]), "only separators are dropped");
    vf_assert((m == 0) == (s == 0), "the directory is empty only when there is no separator");
    if (m > 0) {
        u64 root = drive(p, n) ? 2 : 0;
        if (sep(p[m - 1])) vf_assert(m == root + 1, "the directory ends with a separator only when it is the root");
        else vf_assert(m != root, "the root keeps its separator");
    }
}
VF_INV(split, k)(u32 i) { return !(G.k < G.n && (s32) G.k > (s32) i) || !sep(G.p[G.k]); }
VF_INV(split, run)(u32 i, u32 d) { s32 last = (s32) (i - d); return !(G.k < G.n && (s32) G.k > (s32) i && (s32) G.k <= last) || sep(G.p[G.k]); }
VF_INV(split, drive)(u32 i) { return !drive(G.p, G.n) || (s32) i >= 1; }

VF_HARNESS(splitExt) {
    StringView v = vfText(MAXLEN);
    G.win = vf_bool();
    PathFormat f{G.win};
    const char* p = v.bytes; u32 n = v.numBytes, k = vf_len(24);
    G.p = p; G.n = n; G.k = k;
    auto r = f.splitExt(v);
    vf_cover("end");
    u64 m = r.first.numBytes;
    vf_assert(m <= n && r.first.bytes == p, "the stem is the start of the path");
    vf_assert(r.second.bytes == p + m && r.second.numBytes == n - m, "stem and extension together are the whole path");
    if (m < n) {
        vf_assert(p[m] == '.', "an extension starts with a dot");
        vf_assert(m > 0, "a path that starts with its only dot has no extension");
        if (k + 1 == m) vf_assert(!sep(p[k]), "a name that starts with its only dot has no extension");
        if (k > m && k < n) vf_assert(p[k] != '.' && !sep(p[k]), "the extension is the last one of the last component");
    }
}
VF_INV(splitExt, sep)(u32 i) { return !(G.k < G.n && (s32) G.k > (s32) i) || !sep(G.p[G.k]); }
// d: distance moved from the last byte
VF_INV(splitExt, dot)(u32 d) { return !(G.k < G.n && (s64) G.k > (s64) G.n - 1 + (s32) d) || G.p[G.k] != '.'; }

// from: separators are converted, everything else is copied
// (the copy is made by String(StringView), used by its contract: a heap block of its own with the same bytes)
extern "C" void contract_copy(String* self, StringView v) {
    self->bytes = (char*) PLY_HEAP.alloc(v.numBytes);
    self->numBytes = v.numBytes;
    memcpy(self->bytes, v.bytes, v.numBytes);
    G.q = self->bytes;
}
VF_HARNESS(from) {
    StringView v = vfText((1u << 30) - 1);
    bool dstWin = vf_bool();
    G.win = vf_bool();
    const char* p = v.bytes; u32 n = v.numBytes, k = vf_len(24);
    G.p = p; G.n = n; G.k = k;
    {
        HybridString r = PathFormat{dstWin}.from(PathFormat{G.win}, v);
        vf_cover("end");
        vf_assert(r.numBytes == n, "the length is kept");
        if (dstWin == G.win) vf_assert(!r.isOwner && r.bytes == p, "the same format: the same text");
        else if (k < n) vf_assert(r.bytes[k] == (sep(p[k]) ? (dstWin ? '\\' : '/') : p[k]), "separators are converted and other bytes kept");
    }
    vf_assert(vf_heap_live() == 0, "no leak");
}
VF_INV(from, copied)(u32 i) {
    if (G.k >= G.n) return true;
    char c = G.p[G.k];
    return G.q[G.k] == (G.k < i && sep(c) ? (G.win ? '/' : '\\') : c);
}

// BOUNDED: paths of at most 6 bytes, against a direct definition
static u32 exactLen(u32 lim) { u32 n = vf_len(lim); vf_assume(n <= lim); return n; }
VF_HARNESS(smallExt) {
    u32 n = exactLen(6);
    const char* p = (const char*) vf_buf(n, 1);
    vf_readonly(p);
    G.win = vf_bool();
    auto r = PathFormat{G.win}.splitExt({p, n});
    u32 start = 0, m = n;
    for (u32 i = 0; i < n; i++) if (sep(p[i])) start = i + 1;
    for (u32 i = 0; i < n; i++) if (i > start && p[i] == '.') m = i;
    vf_cover("end");
    vf_assert(r.first.numBytes == m, "the extension starts at the last dot after the first byte of the last component");
}
VF_HARNESS(smallFull) {
    u32 n = exactLen(5);
    const char* p = (const char*) vf_buf(n, 1);
    vf_readonly(p);
    G.win = vf_bool();
    u8 b[6], e[6];
    u32 N = 0, i = 0;
    if (drive(p, n)) { i = 2; if (n > 2 && sep(p[2])) { i = 3; } b[0] = 0; e[0] = i; N = 1; }
    else if (n > 0 && sep(p[0])) { b[0] = 0; e[0] = 1; N = 1; i = 1; }
    {
        Array<StringView> r = PathFormat{G.win}.splitFull({p, n});
        vf_cover("end");
        // concatenation without the separators
        u32 at = 0;
        for (u32 j = 0; j < r.numItems(); j++) {
            const StringView& c = r[j];
            if (c.numBytes == 0) { vf_assert(j + 1 == r.numItems() && n > 0 && sep(p[n - 1]), "an empty component only after a final separator"); continue; }
            u32 s = (u32) (c.bytes - p);
            vf_assert(s >= at && s < n && c.numBytes <= n - s, "components are in order");
            for (u32 x = at; x < s; x++) vf_assert(sep(p[x]), "only separators between components");
            if (j == 0 && N > 0) vf_assert(s == 0 && c.numBytes == e[0], "the root comes first");
            else for (u32 x = s; x < s + c.numBytes; x++) vf_assert(!sep(p[x]), "no separator inside a component");
            at = s + c.numBytes;
        }
        for (u32 x = at; x < n; x++) vf_assert(sep(p[x]), "nothing is lost after the last component");
    }
    vf_assert(vf_heap_live() == 0, "no leak");
}
