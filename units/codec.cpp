// UTF-8, UTF-16 and byte codecs (TextEncoding.h/.cpp) and StringView::reversedUTF8
#include "vfply.h"
#include <ply-runtime/string/TextEncoding.h>
using St = DecodeResult::Status;
struct Ghost { const u8* p; u32 n; u32 k; String* res; u32 len, j; } ghost_g;
#define G ghost_g
static const u32 BIG = 0x7fffffff;
// bytes in [0, n) of a text of n bytes that starts at p
static StringView anyText(u32 nativeMax = 8) {
    u32 n = vf_len(nativeMax);
    vf_assume(n <= BIG);
    const char* p = (const char*) vf_buf(n, 1);
    vf_readonly(p);
    return {p, n};
}
//----------------------------------------------------------------------------------------------
// the defining tables of UTF-8: length announced by a lead byte (0: not a lead byte), and the code point of a sequence
static u32 leadLen(u8 b) { return b < 0x80 ? 1 : b < 0xc0 ? 0 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : b < 0xf8 ? 4 : 0; }
static bool cont(u8 b) { return b >= 0x80 && b < 0xc0; }
static u32 seqPoint(const u8* b, u32 len) {
    return len == 1 ? b[0] : len == 2 ? (b[0] - 0xc0u) * 64 + (b[1] - 0x80u) : len == 3 ? (b[0] - 0xe0u) * 4096 + (b[1] - 0x80u) * 64 + (b[2] - 0x80u)
                 : (b[0] - 0xf0u) * 262144 + (b[1] - 0x80u) * 4096 + (b[2] - 0x80u) * 64 + (b[3] - 0x80u);
}
template <typename Dec> static void utf8Decode(const Dec& dec) {
    StringView v = anyText();
    const u8* b = (const u8*) v.bytes; u32 n = v.numBytes;
    DecodeResult r = dec(v);
    vf_cover("end");
    if (n == 0) { vf_assert(r.numBytes == 0 && r.point == -1 && r.status == St::Truncated, "empty text"); return; }
    u32 need = leadLen(b[0]);
    bool whole = need > 0 && need <= n && (need < 2 || cont(b[1])) && (need < 3 || cont(b[2])) && (need < 4 || cont(b[3]));
    if (whole) {
        vf_cover("whole sequence");
        vf_assert(r.status == St::Valid && r.numBytes == need, "a complete sequence is consumed whole");
        vf_assert(r.point == (s32) seqPoint(b, need), "code point of a complete sequence");
    } else {
        vf_assert(r.numBytes == 1 && r.point == b[0], "a bad byte is consumed alone and preserved");
        if (need == 0 || need <= n) vf_assert(r.status == St::Invalid, "a byte that cannot start a sequence, or a broken sequence, is invalid");
        else vf_assert(r.status == St::Truncated, "a sequence cut by the end of the text is truncated");
    }
}
VF_HARNESS(utf8Decode) { utf8Decode([](StringView v) { return UTF8::decodePoint(v); }); }
VF_HARNESS(utf8DecodeVec) { utf8Decode([](StringView v) { return TextEncoding::get<UTF8>()->decodePoint(v); }); }
VF_HARNESS(utf8Round) {
    u32 p = vf_nd32(), n = vf_len(8), k = vf_len(8), pre = vf_len(6);
    vf_assume(n <= BIG && pre <= BIG && p < 0x200000);
    u32 len = p < 0x80 ? 1 : p < 0x800 ? 2 : p < 0x10000 ? 3 : 4;
    vf_assume(n >= len && k < pre + n);
    u8* buf = (u8*) vf_buf((u64) pre + n, 1);
    u8 old = buf[k];
    u32 w = vf_bool() ? UTF8::encodePoint({(char*) buf + pre, n}, p) : TextEncoding::get<UTF8>()->encodePoint({(char*) buf + pre, n}, p);
    vf_cover("end");
    vf_assert(w == len && UTF8::numBytes(p) == len, "number of bytes");
    if (k < pre || k >= pre + len) vf_assert(buf[k] == old, "nothing outside the encoded bytes is written");
    DecodeResult r = UTF8::decodePoint({(char*) buf + pre, n});
    vf_assert(r.status == St::Valid && r.numBytes == len && r.point == (s32) p, "decoding returns the encoded point, whatever follows");
    vf_assert(UTF8::backNumBytes({(char*) buf, pre + len}) == len, "stepping back finds the encoded point, whatever precedes");
}
VF_HARNESS(utf8Back) {
    StringView v = anyText();
    const u8* e = (const u8*) v.bytes + v.numBytes;
    u32 r = UTF8::backNumBytes(v);
    vf_cover("end");
    if (v.numBytes == 0) { vf_assert(r == 0, "empty text"); return; }
    vf_assert(r >= 1 && r <= 4 && r <= v.numBytes, "steps over one to four bytes of the text");
    if (r > 1) {
        vf_assert(leadLen(e[-(s64) r]) == r, "a multi-byte step ends at the lead byte");
        DecodeResult d = UTF8::decodePoint(v.right(r));
        vf_assert(d.status == St::Valid && d.numBytes == r, "a multi-byte step covers exactly one valid point");
    } else {
        u8 last = e[-1];
        if (cont(last)) {
            if (v.numBytes >= 2) vf_assert(leadLen(e[-2]) != 2, "a complete sequence is not split (2)");
            if (v.numBytes >= 3 && cont(e[-2])) vf_assert(leadLen(e[-3]) != 3, "a complete sequence is not split (3)");
            if (v.numBytes >= 4 && cont(e[-2]) && cont(e[-3])) vf_assert(leadLen(e[-4]) != 4, "a complete sequence is not split (4)");
        }
    }
}
//----------------------------------------------------------------------------------------------
template <bool BE> static u32 unit(const u8* b) { return BE ? b[0] * 256u + b[1] : b[1] * 256u + b[0]; }
static bool hiSur(u32 u) { return u >= 0xd800 && u <= 0xdbff; }
static bool loSur(u32 u) { return u >= 0xdc00 && u <= 0xdfff; }
template <bool BE, typename Dec> static void utf16Decode(const Dec& dec) {
    StringView v = anyText();
    const u8* b = (const u8*) v.bytes; u32 n = v.numBytes;
    DecodeResult r = dec(v);
    vf_cover("end");
    if (n < 2) { vf_assert(r.numBytes == 0 && r.point == -1 && r.status == St::Truncated, "less than one unit"); return; }
    u32 a = unit<BE>(b);
    if (!hiSur(a) && !loSur(a)) { vf_assert(r.status == St::Valid && r.numBytes == 2 && r.point == (s32) a, "a plain unit is its own code point"); return; }
    if (loSur(a)) { vf_assert(r.status == St::Invalid && r.numBytes == 2 && r.point == (s32) a, "a stray low surrogate is invalid"); return; }
    if (n < 4) { vf_assert(r.status == St::Truncated && r.numBytes == 2 && r.point == (s32) a, "a high surrogate cut by the end is truncated"); return; }
    u32 c = unit<BE>(b + 2);
    if (loSur(c)) vf_assert(r.status == St::Valid && r.numBytes == 4 && r.point == (s32) (0x10000 + (a - 0xd800) * 1024 + (c - 0xdc00)), "surrogate pair");
    else vf_assert(r.status == St::Invalid && r.numBytes == 2 && r.point == (s32) a, "a high surrogate without its low half is invalid");
}
VF_HARNESS(utf16leDecode) { utf16Decode<false>([](StringView v) { return UTF16_LE::decodePoint(v); }); }
VF_HARNESS(utf16beDecode) { utf16Decode<true>([](StringView v) { return UTF16_BE::decodePoint(v); }); }
VF_HARNESS(utf16leDecodeVec) { utf16Decode<false>([](StringView v) { return TextEncoding::get<UTF16_LE>()->decodePoint(v); }); }
VF_HARNESS(utf16beDecodeVec) { utf16Decode<true>([](StringView v) { return TextEncoding::get<UTF16_BE>()->decodePoint(v); }); }
template <typename U> static void utf16Round() {
    u32 p = vf_nd32(), n = vf_len(8), k = vf_len(8), pre = vf_len(6);
    vf_assume(n <= BIG && pre <= BIG && p < 0x110000 && !(p >= 0xd800 && p < 0xe000));
    u32 len = p < 0x10000 ? 2 : 4;
    vf_assume(n >= len && k < pre + n);
    u8* buf = (u8*) vf_buf((u64) pre + n, 1);
    u8 old = buf[k];
    u32 w = vf_bool() ? U::encodePoint({(char*) buf + pre, n}, p) : TextEncoding::get<U>()->encodePoint({(char*) buf + pre, n}, p);
    vf_cover("end");
    vf_assert(w == len && U::numBytes(p) == len, "number of bytes");
    if (k < pre || k >= pre + len) vf_assert(buf[k] == old, "nothing outside the encoded bytes is written");
    DecodeResult r = U::decodePoint({(char*) buf + pre, n});
    vf_assert(r.status == St::Valid && r.numBytes == len && r.point == (s32) p, "decoding returns the encoded point");
    if (p >= 0x10000) vf_assert(U::backNumBytes({(char*) buf, pre + len}) == 4, "stepping back finds the surrogate pair");
    else vf_assert(U::backNumBytes({(char*) buf, pre + len}) == 2, "stepping back finds the unit");
}
VF_HARNESS(utf16leRound) { utf16Round<UTF16_LE>(); }
VF_HARNESS(utf16beRound) { utf16Round<UTF16_BE>(); }
template <bool BE> static void utf16Back() {
    StringView v = anyText();
    const u8* e = (const u8*) v.bytes + v.numBytes;
    u32 r = UTF16<BE>::backNumBytes(v);
    vf_cover("end");
    if (v.numBytes < 2) { vf_assert(r == 0, "less than one unit"); return; }
    bool pair = v.numBytes >= 4 && hiSur(unit<BE>(e - 4)) && loSur(unit<BE>(e - 2));
    vf_assert(r == (pair ? 4 : 2), "steps over a whole surrogate pair or one unit");
}
VF_HARNESS(utf16leBack) { utf16Back<false>(); }
VF_HARNESS(utf16beBack) { utf16Back<true>(); }
// any valid point decoded from one encoding survives re-encoding in the other
VF_HARNESS(transcode) {
    StringView v = anyText();
    DecodeResult r = UTF8::decodePoint(v);
    vf_assume(r.status == St::Valid && r.point < 0x110000 && !(r.point >= 0xd800 && r.point < 0xe000));
    char t[4], u[4];
    u32 w = UTF16_LE::encodePoint({t, 4}, r.point);
    DecodeResult r2 = UTF16_LE::decodePoint({t, w});
    u32 w8 = UTF8::encodePoint({u, 4}, r2.point);
    vf_cover("end");
    DecodeResult r3 = UTF8::decodePoint({u, w8});
    vf_assert(r3.point == r.point && r3.status == St::Valid && w8 == UTF8::numBytes(r.point), "UTF-8 to UTF-16 and back");
}
VF_HARNESS(bytes) {
    StringView v = anyText();
    DecodeResult r = vf_bool() ? Enc_Bytes::decodePoint(v) : TextEncoding::get<Enc_Bytes>()->decodePoint(v);
    if (v.numBytes == 0) vf_assert(r.numBytes == 0 && r.point == -1 && r.status == St::Truncated, "empty text");
    else vf_assert(r.numBytes == 1 && r.point == (u8) v.bytes[0] && r.status == St::Valid, "every byte is a point");
    vf_assert(Enc_Bytes::backNumBytes(v) == (v.numBytes ? 1 : 0), "step back");
    u32 p = vf_nd32(), n = vf_len(8), k = vf_len(8);
    vf_assume(n >= 1 && n <= BIG && k < n);
    u8* buf = (u8*) vf_buf(n, 1);
    u8 old = buf[k];
    u32 w = vf_bool() ? Enc_Bytes::encodePoint({(char*) buf, n}, p) : TextEncoding::get<Enc_Bytes>()->encodePoint({(char*) buf, n}, p);
    vf_cover("end");
    vf_assert(w == 1 && Enc_Bytes::numBytes(p) == 1 && buf[0] == (p < 256 ? p : 0x95), "one byte; points above 255 become a substitute");
    if (k > 0) vf_assert(buf[k] == old, "nothing else is written");
}
VF_HARNESS(unitSizes) {
    vf_assert(TextEncoding::get<UTF8>()->unitSize == 1 && TextEncoding::get<Enc_Bytes>()->unitSize == 1, "byte codecs");
    vf_assert(TextEncoding::get<UTF16_LE>()->unitSize == 2 && TextEncoding::get<UTF16_BE>()->unitSize == 2, "UTF-16 codecs");
    vf_cover("end");
}
//----------------------------------------------------------------------------------------------
// reversing keeps every complete sequence of G.len bytes in order and moves it to the mirrored place
static bool mirrored() { return G.res->bytes[G.n - G.len - G.k + G.j] == (char) G.p[G.k + G.j]; }
template <u32 LEN> static void reversed() {
    StringView v = anyText(10);
    vf_assume(v.numBytes <= 0xfffffff);
    const u8* b = (const u8*) v.bytes; u32 n = v.numBytes, k = vf_len(9), j = vf_len(LEN - 1);
    vf_assume(k < n && LEN <= n - k && j < LEN);
    vf_assume(leadLen(b[k]) == LEN);
    vf_assume((LEN < 2 || cont(b[k + 1])) && (LEN < 3 || cont(b[k + 2])) && (LEN < 4 || cont(b[k + 3])));
    G.p = b; G.n = n; G.k = k; G.len = LEN; G.j = j;
    alignas(8) char buf[sizeof(String)];
    G.res = (String*) buf;
    new (buf) String(v.reversedUTF8());
    vf_cover("end");
    String& r = *G.res;
    vf_assert(r.numBytes == n, "length");
    vf_assert(mirrored(), "a complete sequence is kept in order at the mirrored place");
    r.~String();
    vf_assert(vf_heap_live() == 0, "no leak");
}
#define REV(L) VF_HARNESS(reversedUTF8_##L) { reversed<L>(); } \
    VF_INV(reversedUTF8_##L, align)(u32 left) { return left <= G.k || left >= G.k + G.len; } \
    VF_INV(reversedUTF8_##L, done)(u32 left) { return left > G.k || mirrored(); }
REV(1) REV(2) REV(3)
