// StringView: searching, trimming, comparison, splitting (StringView.h, StringView.cpp)
#include "vfply.h"
struct Ghost {
    const char* p; u32 n; u32 start; u32 k; char c; const u8* tab; Array<StringView>* res; u32 j;
    const char* q; u32 m; char* dst;
} ghost_g;
#define G ghost_g
u64 ghost_probe[3];
static StringView text(u32 maxLen) {
    u32 n = vf_len(24);
    vf_assume(n <= maxLen);
    const char* p = (const char*) vf_buf(n, 1);
    vf_readonly(p);
    return {p, n};
}
// arbitrary byte predicate: a 256-entry table of arbitrary contents
static bool pred(char c) { return G.tab[(u8) c] & 1; }
static void mkPred() { G.tab = (const u8*) vf_buf(256, 1); vf_readonly(G.tab); }
static const u32 MAXLEN = 0x7fffffff;

VF_HARNESS(findByte) {
    StringView v = text(MAXLEN);
    u32 n = v.numBytes; const char* p = v.bytes;
    u32 start = vf_len(26), k = vf_len(24);
    char c = vf_nd8();
    G.p = p; G.n = n; G.start = start; G.k = k; G.c = c;
    s32 r = v.findByte(c, start);
    vf_cover("end");
    if (r >= 0) {
        vf_assert((u32) r >= start && (u32) r < n && p[r] == c, "result is a match in range");
        if (k >= start && k < (u32) r) vf_assert(p[k] != c, "result is the first match");
    } else {
        vf_assert(r == -1, "no match is reported as -1");
        if (k >= start && k < n) vf_assert(p[k] != c, "no match exists when -1");
    }
}
VF_INV(findByte, k)(u64 i) { return !(G.k >= G.start && G.k < i && G.k < G.n) || G.p[G.k] != G.c; }

VF_HARNESS(findPred) {
    mkPred();
    StringView v = text(MAXLEN);
    u32 n = v.numBytes; const char* p = v.bytes;
    u32 start = vf_len(26), k = vf_len(24);
    G.p = p; G.n = n; G.start = start; G.k = k;
    s32 r = v.findByte(pred, start);
    vf_cover("end");
    if (r >= 0) {
        vf_assert((u32) r >= start && (u32) r < n && pred(p[r]), "result is a match in range");
        if (k >= start && k < (u32) r) vf_assert(!pred(p[k]), "result is the first match");
    } else {
        vf_assert(r == -1, "no match is reported as -1");
        if (k >= start && k < n) vf_assert(!pred(p[k]), "no match exists when -1");
    }
}
VF_INV(findPred, k)(u64 i) { return !(G.k >= G.start && G.k < i && G.k < G.n) || !pred(G.p[G.k]); }

template <typename F>
static void rfindSpec(const F& f, s32 r, const char* p, u32 k, u32 start, bool hasStart) {
    if (r >= 0) {
        vf_assert(hasStart && (u32) r <= start && f(p[r]), "result is a match in range");
        if (k <= start && k > (u32) r) vf_assert(!f(p[k]), "result is the last match");
    } else {
        vf_assert(r == -1, "no match is reported as -1");
        if (hasStart && k <= start) vf_assert(!f(p[k]), "no match exists when -1");
    }
}
VF_HARNESS(rfindByte) {
    StringView v = text(MAXLEN);
    u32 n = v.numBytes; const char* p = v.bytes;
    u32 start = vf_len(24), k = vf_len(24);
    bool dflt = vf_bool();
    char c = vf_nd8();
    vf_assume(dflt || start < n);
    if (dflt) start = n - 1;
    G.p = p; G.n = n; G.start = start; G.k = k; G.c = c;
    s32 r = dflt ? v.rfindByte(c) : v.rfindByte(c, start);
    vf_cover("end");
    rfindSpec([&](char x) { return x == c; }, r, p, k, start, n > 0);
}
VF_INV(rfindByte, k)(u64 i) { return !(G.n > 0 && G.k <= G.start && (s32) G.k > (s32) i) || G.p[G.k] != G.c; }
VF_HARNESS(rfindPred) {
    mkPred();
    StringView v = text(MAXLEN);
    u32 n = v.numBytes; const char* p = v.bytes;
    u32 start = vf_len(24), k = vf_len(24);
    bool dflt = vf_bool();
    vf_assume(dflt || start < n);
    if (dflt) start = n - 1;
    G.p = p; G.n = n; G.start = start; G.k = k;
    s32 r = dflt ? v.rfindByte(pred) : v.rfindByte(pred, start);
    vf_cover("end");
    rfindSpec([&](char x) { return pred(x); }, r, p, k, start, n > 0);
}
VF_INV(rfindPred, k)(u64 i) { return !(G.n > 0 && G.k <= G.start && (s32) G.k > (s32) i) || !pred(G.p[G.k]); }

// trim / ltrim / rtrim: the result is the sub-range that starts (ends) at the first (last) non-matching byte
VF_HARNESS(trim) {
    mkPred();
    StringView v = text(MAXLEN);
    u32 n = v.numBytes; const char* p = v.bytes;
    u32 k = vf_len(24);
    u8 which = vf_nd8();
    vf_assume(which < 4);
    G.p = p; G.n = n; G.k = k;
    StringView r = which == 0 ? v.trim(pred) : which == 1 ? v.ltrim(pred) : which == 2 ? v.rtrim(pred) : v.trim(pred, false, false);
    bool left = which < 2, right = which == 0 || which == 2;
    vf_cover("end");
    u64 lo = r.bytes - p;
    vf_assert(lo <= n && r.numBytes <= n - lo, "result is a sub-range");
    u64 hi = lo + r.numBytes;
    if (!left) vf_assert(lo == 0, "front untouched");
    if (!right) vf_assert(hi == n, "back untouched");
    if (r.numBytes) {
        if (left) vf_assert(!pred(p[lo]), "first byte kept does not match");
        if (right) vf_assert(!pred(p[hi - 1]), "last byte kept does not match");
    }
    if (k < lo || (k >= hi && k < n)) vf_assert(pred(p[k]), "every removed byte matches");
}
VF_INV(trim, left)(u64 i) { return !(G.k < i && G.k < G.n) || pred(G.p[G.k]); }
VF_INV(trim, right)(u64 i) { return !(G.k >= i && G.k < G.n) || pred(G.p[G.k]); }
VF_HARNESS(trimWhite) {
    StringView v = text(MAXLEN);
    u32 n = v.numBytes; const char* p = v.bytes;
    u32 k = vf_len(24);
    G.p = p; G.n = n; G.k = k;
    StringView r = v.trim();
    auto ws = [](char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; };
    vf_cover("end");
    u64 lo = r.bytes - p;
    vf_assert(lo <= n && r.numBytes <= n - lo, "result is a sub-range");
    u64 hi = lo + r.numBytes;
    if (r.numBytes) vf_assert(!ws(p[lo]) && !ws(p[hi - 1]), "result starts and ends with a non-white byte");
    if (k < lo || (k >= hi && k < n)) vf_assert(ws(p[k]), "every removed byte is white space");
}
VF_INV(trimWhite, left)(u64 i) { char c; return !(G.k < i && G.k < G.n) || (c = G.p[G.k], c == ' ' || c == '\t' || c == '\r' || c == '\n'); }
VF_INV(trimWhite, right)(u64 i) { char c; return !(G.k >= i && G.k < G.n) || (c = G.p[G.k], c == ' ' || c == '\t' || c == '\r' || c == '\n'); }

VF_HARNESS(startsEndsWith) {
    StringView a = text(MAXLEN), b = text(MAXLEN);
    u32 k = vf_len(24);
    ghost_probe[0] = k; ghost_probe[2] = 1;
    bool end = vf_bool();
    bool r = end ? a.endsWith(b) : a.startsWith(b);
    vf_cover("end");
    u64 shift = end ? (u64) a.numBytes - b.numBytes : 0;
    if (b.numBytes > a.numBytes) { vf_assert(!r, "a longer argument never matches"); return; }
    if (r) { if (k < b.numBytes) vf_assert(a.bytes[shift + k] == b.bytes[k], "a reported match is a match"); }
    if (b.numBytes == 0) vf_assert(r, "the empty string always matches");
    if (b.numBytes == 1) vf_assert(r == (a.bytes[shift] == b.bytes[0]), "one byte");
    if (b.numBytes == 2) vf_assert(r == (a.bytes[shift] == b.bytes[0] && a.bytes[shift + 1] == b.bytes[1]), "two bytes");
}
// completeness: when every byte agrees, the answer is yes
VF_HARNESS(startsWithSelf) {
    StringView a = text(MAXLEN);
    u32 m = vf_len(24);
    vf_assume(m <= a.numBytes);
    vf_assert(a.startsWith(a.left(m)), "a string starts with each of its prefixes");
    vf_assert(a.endsWith(a.right(m)), "a string ends with each of its suffixes");
    vf_assert(a.right(m).bytes == a.bytes + (a.numBytes - m) && a.right(m).numBytes == m, "right");
    vf_assert(a.left(m).bytes == a.bytes && a.left(m).numBytes == m, "left");
    vf_assert(a.shortenedBy(m).bytes == a.bytes && a.shortenedBy(m).numBytes == a.numBytes - m, "shortenedBy");
    vf_assert(a.subStr(m).bytes == a.bytes + m && a.subStr(m).numBytes == a.numBytes - m, "subStr");
    u32 len = vf_len(24);
    vf_assume(len <= a.numBytes - m);
    StringView s = a.subStr(m, len);
    vf_assert(s.bytes == a.bytes + m && s.numBytes == len, "subStr with length");
    StringView h = a;
    h.offsetHead(m);
    vf_assert(h.bytes == a.bytes + m && h.numBytes == a.numBytes - m, "offsetHead");
    StringView t = a;
    t.offsetBack(-(s32) m);
    vf_assert(t.bytes == a.bytes && t.numBytes == a.numBytes - m, "offsetBack");
    if (m < a.numBytes) {
        vf_assert(&a[m] == a.bytes + m, "operator[]");
        vf_assert(&a.back(-1 - (s32) m) == a.bytes + (a.numBytes - 1 - m), "back");
    }
    vf_assert(a.includesNullTerminator() == (a.numBytes > 0 && a.bytes[a.numBytes - 1] == 0), "includesNullTerminator");
    StringView w = a.withoutNullTerminator();
    vf_assert(w.bytes == a.bytes && w.numBytes == a.numBytes - (a.includesNullTerminator() ? 1 : 0), "withoutNullTerminator");
    vf_assert(a.contains(a.bytes + len) || len > a.numBytes, "contains");
    vf_assert((bool) a == !a.isEmpty() && a.isEmpty() == (a.numBytes == 0), "emptiness");
}

// compare: lexicographic order on unsigned bytes, shorter prefix first
VF_HARNESS(compare) {
    StringView a = text(0xffffffff), b = text(0xffffffff);
    u32 k = vf_len(24);
    G.p = a.bytes; G.n = a.numBytes; G.q = b.bytes; G.m = b.numBytes; G.k = k;
    s32 r = compare(a, b);
    vf_cover("end");
    u32 common = min(a.numBytes, b.numBytes);
    // k is an arbitrary position; if it is the first difference it decides the order
    if (r == 0) {
        vf_assert(a.numBytes == b.numBytes, "equal strings have equal lengths");
        if (k < common) vf_assert(a.bytes[k] == b.bytes[k], "equal strings have equal bytes");
    }
    if (k < common && a.bytes[k] != b.bytes[k]) vf_assert(r != 0, "different bytes compare different");
    if (a.numBytes != b.numBytes) vf_assert(r != 0, "different lengths compare different");
    if (common == 0) vf_assert((r < 0) == (a.numBytes < b.numBytes) && (r > 0) == (a.numBytes > b.numBytes), "empty prefix: shorter first");
    if (common > 0 && a.bytes[0] != b.bytes[0]) vf_assert((r < 0) == ((u8) a.bytes[0] < (u8) b.bytes[0]), "first byte decides (unsigned)");
}
VF_INV(compare, first)(u64 i) { return i == 0 || G.n == 0 || G.m == 0 || G.p[0] == G.q[0]; }
VF_INV(compare, eq)(u64 i) { return !(G.k < i && G.k < G.n && G.k < G.m) || G.p[G.k] == G.q[G.k]; }
// with d the first difference, the order is that of the bytes at d
VF_HARNESS(compareAt) {
    StringView a = text(0xffffffff), b = text(0xffffffff);
    u32 d = vf_len(24);
    u32 common = min(a.numBytes, b.numBytes);
    vf_assume(d <= common);
    G.p = a.bytes; G.n = a.numBytes; G.q = b.bytes; G.m = b.numBytes; G.k = d;
    // b shares a's first d bytes by construction
    G.dst = (char*) vf_buf(b.numBytes, 1);
    memcpy(G.dst, a.bytes, d);
    StringView b2{G.dst, b.numBytes};
    G.q = G.dst;
    if (d < common) {
        vf_assume(a.bytes[d] != b2.bytes[d]);
        s32 r = compare(a, b2);
        vf_assert((r < 0) == ((u8) a.bytes[d] < (u8) b2.bytes[d]) && r != 0, "the first differing byte decides (unsigned)");
        vf_cover("diff");
    } else {
        s32 r = compare(a, b2);
        vf_assert((r < 0) == (a.numBytes < b2.numBytes) && (r > 0) == (a.numBytes > b2.numBytes), "a proper prefix comes first");
        vf_cover("prefix");
    }
}
VF_INV(compareAt, lim)(u64 i) { return i <= G.k || G.k >= (G.n < G.m ? G.n : G.m); }

// the relational operators, checked against compare()'s contract
s32 ghost_cmp;
extern "C" s32 contract_compare(StringView, StringView) { return ghost_cmp; }
VF_HARNESS(operators) {
    StringView a = text(0xffffffff), b = text(0xffffffff);
    ghost_cmp = (s32) vf_nd32();
    s32 r = compare(a, b);
    vf_assert((a < b) == (r < 0) && (a <= b) == (r <= 0) && (a > b) == (r > 0) && (a >= b) == (r >= 0) && (a == b) == (r == 0) && (a != b) == (r != 0), "operators agree with compare");
}

// splitByte: the pieces are exactly the maximal runs of non-separator bytes, in order
VF_HARNESS(splitByte) {
    StringView v = text(0x3fffffff);
    u32 n = v.numBytes; const char* p = v.bytes;
    u32 j = vf_len(24), k = vf_len(24);
    char sep = vf_nd8();
    G.p = p; G.n = n; G.k = k; G.c = sep; G.j = j;
    {
        alignas(8) char buf[sizeof(Array<StringView>)];
        G.res = (Array<StringView>*) buf;
        new (buf) Array<StringView>(v.splitByte(sep));
        Array<StringView>& r = *G.res;
        vf_cover("end");
        u32 N = r.numItems();
        vf_assert(N <= n, "no more pieces than bytes");
        if (j < N) {
            const StringView* it = r.view().items + j;
            u64 s = (uptr) it->bytes - (uptr) p, e = s + it->numBytes;
            vf_assert(s < n && it->numBytes > 0 && e <= n, "a piece is a non-empty sub-range");
            if (k >= s && k < e) vf_assert(p[k] != sep, "a piece contains no separator");
            if (j == 0) { if (k < s) vf_assert(p[k] == sep, "only separators before the first piece"); }
            else {
                const StringView* pr = it - 1;
                u64 pe = (uptr) pr->bytes - (uptr) p + pr->numBytes;
                vf_assert(pe < s, "pieces are in order and separated");
                if (k >= pe && k < s) vf_assert(p[k] == sep, "only separators between pieces");
            }
            if (j == N - 1 && k >= e && k < n) vf_assert(p[k] == sep, "only separators after the last piece");
        }
        if (N == 0 && k < n) vf_assert(p[k] == sep, "no piece: only separators");
        r.~Array<StringView>();
    }
    vf_assert(vf_heap_live() == 0, "no leak");
}
struct RawArray { StringView* items; u32 num, allocated; };
#define R (*(RawArray*) G.res)
static u64 pstart(const StringView& s) { return (uptr) s.bytes - (uptr) G.p; }
static u64 pend(const StringView& s) { return pstart(s) + s.numBytes; }
VF_INV(splitByte, capacity)() {
    if (R.items) return R.num <= R.allocated && vf_size(R.items) == 16ull * R.allocated && R.allocated <= 0x40000000;
    return R.num == 0 && R.allocated == 0;
}
// split == ~0: no piece is open
VF_INV(splitByte, state)(u64 cur, u64 split) {
    u64 k = G.k;
    u64 le = 0;
    if (cur > G.n) return false;
    if (R.num > 0) {
        if (!R.items || R.num > R.allocated) return false;
        const StringView& l = R.items[R.num - 1];
        le = pend(l);
        if (!(pstart(l) < le && l.numBytes > 0 && le < cur && R.num <= le)) return false;
        if (split != ~0ull && split <= le) return false;
    }
    u64 lim = split == ~0ull ? cur : split;
    if (split != ~0ull && !(le <= split && split < cur && R.num <= split)) return false;
    if (k >= le && k < lim && G.p[k] != G.c) return false;
    if (k >= lim && k < cur && G.p[k] == G.c) return false;
    return true;
}
VF_INV(splitByte, piece)() {
    u32 j = G.j;
    if (j >= R.num) return true;
    if (!R.items || R.num > R.allocated) return false;
    u64 s = pstart(R.items[j]), e = pend(R.items[j]);
    u64 k = G.k;
    if (!(s < e && R.items[j].numBytes > 0 && e <= G.n)) return false;
    if (k >= s && k < e && G.p[k] == G.c) return false;
    u64 pe = 0;
    if (j > 0) {
        pe = pend(R.items[j - 1]);
        if (pe >= s) return false;
    }
    return !(k >= pe && k < s && G.p[k] != G.c);
}
