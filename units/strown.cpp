// String / HybridString: construction, copying, ownership, case/reverse/repeat/concat (String.h/.cpp, StringView.cpp)
#include "vfply.h"
struct Ghost { const char* p; u32 n; u32 k; const char* dst; u32 cnt, q, r; const u8* tab; String* res; } ghost_g;
#define G ghost_g
static const u32 BIG = 0xfffffff;
static void sameText(StringView s, const char* p, u32 n, u32 k) {
    vf_assert(s.numBytes == n, "length");
    if (k < n) vf_assert(s.bytes[k] == p[k], "content");
}
VF_HARNESS(construct) {
    StringView v = vfText(BIG); u32 k = vf_len(24);
    {
        String a{v};
        sameText(a, v.bytes, v.numBytes, k);
        vf_assert(vf_is_heap(a.bytes) && vf_heap_live() == 1, "owns one block of its own");
        String b{a};
        sameText(b, v.bytes, v.numBytes, k); sameText(a, v.bytes, v.numBytes, k);
        vf_assert(!vf_same(a.bytes, b.bytes) && vf_heap_live() == 2, "a copy owns its own block");
        const char* pb = b.bytes;
        String c{std::move(b)};
        vf_assert(c.bytes == pb && c.numBytes == v.numBytes && b.bytes == nullptr && b.numBytes == 0, "move transfers the block");
        sameText(c, v.bytes, v.numBytes, k);
        char* raw = c.release();
        vf_assert(raw == pb && c.isEmpty() && c.bytes == nullptr, "release");
        String d = String::adopt(raw, v.numBytes);
        sameText(d, v.bytes, v.numBytes, k);
        a.clear();
        vf_assert(a.isEmpty() && a.bytes == nullptr && vf_heap_live() == 1, "clear releases the block");
        if (k < d.numBytes) { d[k] = 'x'; vf_assert(d.bytes[k] == 'x' && d.view()[k] == 'x', "subscript"); }
    }
    vf_cover("end");
    vf_assert(vf_heap_live() == 0, "every block is released exactly once");
}
VF_HARNESS(assign) {
    u32 k = vf_len(24);
    {
        String a = vfString(BIG), b = vfString(BIG);
        StringView ref = vfText(BIG);
        vf_assume(ref.numBytes == b.numBytes && (k >= b.numBytes || ref.bytes[k] == b.bytes[k]));
        u8 how = vf_nd8();
        vf_assume(how < 4);
        if (how == 0) { a = b; sameText(b, ref.bytes, ref.numBytes, k); }
        else if (how == 1) a = StringView{b};
        else if (how == 2) { a = std::move(b); vf_assert(b.isEmpty() && !b.bytes, "moved-from string is empty"); }
        else { a = String{b}; }
        sameText(a, ref.bytes, ref.numBytes, k);
    }
    vf_cover("end");
    vf_assert(vf_heap_live() == 0, "every block is released exactly once");
}
// assigning a string (or a part of it) to itself keeps the text
VF_HARNESS(selfAssign) {
    u32 k = vf_len(24);
    {
        String a = vfString(BIG);
        StringView ref = vfText(BIG);
        vf_assume(ref.numBytes == a.numBytes && (k >= a.numBytes || ref.bytes[k] == a.bytes[k]));
        u32 from = vf_len(24);
        vf_assume(from <= a.numBytes);
        u8 how = vf_nd8();
        vf_assume(how < 3);
        const String& self = a;
        if (how == 0) { a = self; sameText(a, ref.bytes, ref.numBytes, k); }
        else if (how == 1) { a = a.view(); sameText(a, ref.bytes, ref.numBytes, k); }
        else {
            a = a.subStr(from);
            vf_assert(a.numBytes == ref.numBytes - from, "length of the kept part");
            if (k >= from && k < ref.numBytes) vf_assert(a.bytes[k - from] == ref.bytes[k], "content of the kept part");
        }
    }
    vf_cover("end");
    vf_assert(vf_heap_live() == 0, "every block is released exactly once");
}
VF_HARNESS(hybrid) {
    StringView v = vfText(BIG); u32 k = vf_len(24);
    {
        HybridString h{v};
        vf_assert(!h.isOwner && h.bytes == v.bytes && h.numBytes == v.numBytes && vf_heap_live() == 0, "a hybrid made from a view is a view");
        HybridString o{String{v}};
        vf_assert(o.isOwner && vf_heap_live() == 1, "a hybrid made from a temporary string owns it");
        sameText(o, v.bytes, v.numBytes, k);
        HybridString o2{o}, h2{h};
        vf_assert(vf_heap_live() == 2 && o2.isOwner && !h2.isOwner && h2.bytes == v.bytes, "copying an owner copies the block");
        sameText(o2, v.bytes, v.numBytes, k);
        sameText(o, v.bytes, v.numBytes, k);
        HybridString m{std::move(o)};
        vf_assert(vf_heap_live() == 2 && m.isOwner && !o.isOwner && !o.bytes && o.numBytes == 0, "moving an owner transfers the block");
        String s{std::move(m)};
        vf_assert(vf_heap_live() == 2 && !m.isOwner && !m.bytes, "a string made from an owning temporary takes its block");
        sameText(s, v.bytes, v.numBytes, k);
        String t{std::move(h2)};
        vf_assert(vf_heap_live() == 3 && !vf_same(t.bytes, v.bytes), "a string made from a viewing temporary copies");
        sameText(t, v.bytes, v.numBytes, k);
        o2 = h;
        vf_assert(vf_heap_live() == 2 && !o2.isOwner && o2.bytes == v.bytes, "assignment releases the old block");
        o2 = HybridString{std::move(s)};
        sameText(o2, v.bytes, v.numBytes, k);
        vf_assert(vf_heap_live() == 2 && o2.isOwner && s.isEmpty(), "move assignment");
    }
    vf_cover("end");
    vf_assert(vf_heap_live() == 0, "every block is released exactly once");
}
VF_HARNESS(nullTerminator) {
    StringView v = vfText(BIG); u32 k = vf_len(24);
    {
        HybridString h = v.withNullTerminator();
        vf_assert(h.numBytes > 0 && h.bytes[h.numBytes - 1] == 0, "result ends with a zero byte");
        if (v.numBytes && v.bytes[v.numBytes - 1] == 0) vf_assert(!h.isOwner && h.bytes == v.bytes && h.numBytes == v.numBytes, "already terminated: a view");
        else { vf_assert(h.isOwner && h.numBytes == v.numBytes + 1, "terminated copy"); if (k < v.numBytes) vf_assert(h.bytes[k] == v.bytes[k], "content"); }
    }
    vf_cover("end");
    vf_assert(vf_heap_live() == 0, "no leak");
}
VF_HARNESS(resize) {
    u32 k = vf_len(24), m = vf_len(24);
    vf_assume(m <= BIG);
    {
        String a = vfString(BIG);
        StringView ref = vfText(BIG);
        vf_assume(ref.numBytes == a.numBytes && (k >= a.numBytes || ref.bytes[k] == a.bytes[k]));
        u32 n = a.numBytes;
        a.resize(m);
        vf_assert(a.numBytes == m, "new length");
        if (k < n && k < m) vf_assert(a.bytes[k] == ref.bytes[k], "common prefix kept");
        StringView w = vfText(BIG);
        a += w;
        vf_assert(a.numBytes == m + w.numBytes, "length after append");
        if (k < w.numBytes) vf_assert(a.bytes[m + k] == w.bytes[k], "appended text");
        if (k < n && k < m) vf_assert(a.bytes[k] == ref.bytes[k], "old text kept by append");
    }
    vf_cover("end");
    vf_assert(vf_heap_live() == 0, "no leak");
}
VF_HARNESS(concat) {
    StringView a = vfText(BIG), b = vfText(BIG);
    u32 k = vf_len(40);
    {
        String s = a + b;
        vf_assert(s.numBytes == a.numBytes + b.numBytes, "length");
        if (k < a.numBytes) vf_assert(s.bytes[k] == a.bytes[k], "first part");
        else if (k < a.numBytes + b.numBytes) vf_assert(s.bytes[k] == b.bytes[k - a.numBytes], "second part");
        vf_assert(vf_heap_live() == 1, "one block");
    }
    vf_assert(vf_heap_live() == 0, "no leak");
}
static char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static char filt(char c) { return G.tab[(u8) c]; }
template <typename F, typename S> static void mapped(const F& f, const S& s) {
    StringView v = vfText(BIG); u32 k = vf_len(24);
    G.p = v.bytes; G.n = v.numBytes; G.k = k;
    alignas(8) char buf[sizeof(String)];
    G.res = (String*) buf;
    new (buf) String(f(v));
    String& r = *G.res;
    vf_assert(r.numBytes == v.numBytes, "length");
    if (k < v.numBytes) vf_assert(r.bytes[k] == s(v), "every byte is mapped");
    r.~String();
    vf_cover("end");
    vf_assert(vf_heap_live() == 0, "no leak");
}
VF_HARNESS(upper) { mapped([](StringView v) { return v.upperAsc(); }, [](StringView v) { return up(v.bytes[G.k]); }); }
VF_INV(upper, done)(u64 i) { return !(G.k < i && G.k < G.n) || G.res->bytes[G.k] == up(G.p[G.k]); }
VF_HARNESS(lower) { mapped([](StringView v) { return v.lowerAsc(); }, [](StringView v) { return low(v.bytes[G.k]); }); }
VF_INV(lower, done)(u64 i) { return !(G.k < i && G.k < G.n) || G.res->bytes[G.k] == low(G.p[G.k]); }
VF_HARNESS(filter) {
    G.tab = (const u8*) vf_buf(256, 1);
    mapped([](StringView v) { return v.filterBytes(filt); }, [](StringView v) { return filt(v.bytes[G.k]); });
}
VF_INV(filter, done)(u64 i) { return !(G.k < i && G.k < G.n) || G.res->bytes[G.k] == filt(G.p[G.k]); }
VF_HARNESS(reversed) { mapped([](StringView v) { return v.reversedBytes(); }, [](StringView v) { return v.bytes[v.numBytes - 1 - G.k]; }); }
VF_INV(reversed, done)(u64 i) { return !(G.k < i && G.k < G.n) || G.res->bytes[G.k] == G.p[G.n - 1 - G.k]; }

// arbitrary repeat count; the repeated string has 1, 2, 3 or 7 bytes (products with a constant stay linear)
template <u32 N> static void repeatN() {
    const char* p = (const char*) vf_buf(N, 1); u32 cnt = vf_len(6);
    vf_assume(cnt <= 0xfffffff);
    u32 q = vf_len(6), r = vf_len(N - 1);
    vf_assume(q < cnt && r < N);
    G.p = p; G.n = N; G.cnt = cnt; G.q = q; G.r = r;
    alignas(8) char buf[sizeof(String)];
    G.res = (String*) buf;
    new (buf) String(StringView{p, N} * cnt);
    vf_cover("end");
    String& s = *G.res;
    vf_assert(s.numBytes == N * cnt, "length");
    vf_assert(s.bytes[(u64) q * N + r] == p[r], "every copy equals the original");
    s.~String();
    vf_assert(vf_heap_live() == 0, "no leak");
}
#define REPEAT(N) VF_HARNESS(repeat##N) { repeatN<N>(); } \
    VF_INV(repeat##N, pos)(u64 i, u64 d) { return d == i * N && i <= G.cnt; } \
    VF_INV(repeat##N, done)(u64 i) { return !(G.q < i) || G.res->bytes[(u64) G.q * N + G.r] == G.p[G.r]; }
REPEAT(1) REPEAT(2) REPEAT(3) REPEAT(7)
