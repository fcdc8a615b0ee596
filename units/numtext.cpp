// integers and text: TypeParser.cpp/.h (parsing), FormatString.cpp (printing)
#include "vfply.h"
#include <ply-runtime/io/InStream.h>
#include <ply-runtime/io/OutStream.h>
struct Ghost { const u8* p; u32 n, m; const u64* V; const u8* O; u32 R; const u64* P; u32 d; u32 j; u64 x; bool cap; } ghost_g;
#define G ghost_g
static const u32 BIG = 0x7ffffffe;
//----------------------------------------------------------------------------------------------
// defining tables: value of a digit byte (99: not a digit), digit byte of a value
static u32 dig(u8 c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
static u8 chr(u32 d, u32 cap) { u32 letter = -(u32) (d > 9); return (u8) ('0' + d + (letter & (39 - 32 * cap))); }   // without branches
static u32 at(u32 i) { return dig(G.p[i]); }
//----------------------------------------------------------------------------------------------
// ghost sequences of a numeral of m digits: V[i] value of the first i digits modulo 2^64, O[i] whether that value is 2^64 or more
template <u32 R> static bool stepV(u64 i) {
    if (i >= G.m) return true;
    u64 v = G.V[i]; u32 d = at(i);
    return d < R && G.V[i + 1] == v * R + d && G.O[i + 1] == (G.O[i] || v > ~0ull / R || (v == ~0ull / R && d > ~0ull % R));
}
template <u32 R> static void setupNumeral(const u8* p, u32 n) {
    u64* V; u8* O; u32 m;
    if (vf_symbolic()) {
        m = vf_len(64);
        vf_assume(m <= n);
        V = (u64*) vf_buf(8 * ((u64) m + 1), 8); O = (u8*) vf_buf((u64) m + 1, 1);
        vf_assume(V[0] == 0 && O[0] == 0);
    } else {
        for (m = 0; m < n && dig(p[m]) < R; m++) {}
        V = new u64[m + 1]; O = new u8[m + 1];
        V[0] = 0; O[0] = 0;
        for (u32 i = 0; i < m; i++) { unsigned __int128 w = (unsigned __int128) V[i] * R + dig(p[i]); V[i + 1] = (u64) w; O[i + 1] = O[i] || (w >> 64) != 0; }
    }
    vf_readonly(V); vf_readonly(O);
    G.p = p; G.n = n; G.m = m; G.V = V; G.O = O;
    vf_assume(m == n || dig(p[m]) >= R);    // m is the number of leading digits
    if (!vf_symbolic()) for (u32 i = 0; i < m; i++) vf_assert(stepV<R>(i), "ghost sequence");
}
template <typename T> static T parseAs(InStream* ins, u32 R) { return R == 10 && vf_bool() ? ins->parse<T>() : ins->parse<T>(fmt::Radix{R}); }
#define PARSE(R) \
    VF_HARNESS(parseU64_##R) { \
        StringView v = vfText(BIG, 70); \
        setupNumeral<R>((const u8*) v.bytes, v.numBytes); \
        ViewInStream ins{v}; \
        u64 r = parseAs<u64>(&ins, R); \
        vf_cover("end"); \
        u32 m = G.m; \
        vf_assert(ins.curByte == v.bytes + m, "exactly the digits are consumed"); \
        bool ok = m > 0 && !G.O[m]; \
        vf_assert(ins.anyParseError() == !ok, "an error is reported exactly for an empty or too large numeral"); \
        vf_assert(r == (ok ? G.V[m] : 0), "positional value"); \
    } \
    VF_INV(parseU64_##R, val)(u64 i, u64 x) { return i <= G.m && x == G.V[i]; } \
    VF_INV(parseU64_##R, ovf)(u64 i, u8 o) { return i <= G.m && G.O[i] == o; } \
    VF_INV(parseU64_##R, any)(u64 i, u8 a) { return a == (i > 0); } \
    VF_AXIOM(parseU64_##R, step)(u64 i) { return stepV<R>(i); }
PARSE(2) PARSE(8) PARSE(10) PARSE(16) PARSE(36)
//----------------------------------------------------------------------------------------------
// signed and narrow integers: contract of parse<u64> (verified above) is used at the call
extern "C" u64 contract_parseU64(InStream* ins, fmt::Radix radix);
u64 ghost_u64;
u64 contract_parseU64(InStream* ins, fmt::Radix radix) {
    vf_assert(radix.base > 0 && radix.base <= 36, "precondition of parse<u64>");
    vf_assert(ins->isView(), "reads the stream under test");
    u32 m = vf_len(20);
    vf_assume(m <= ins->numBytesAvailable());
    ins->curByte += m;
    bool ok = vf_bool();
    vf_assume(!ok || m > 0);
    if (!ok) ins->status.parseError = 1;
    if (ins->curByte == ins->endByte) ins->status.eof = 1;
    ghost_u64 = ok ? vf_nd64() : 0;
    G.d = ok; G.m = m;
    return ghost_u64;
}
// native runs use the real callee; its result is computed here from the definition
static StringView signedText(bool allowMinus) {
    StringView v = vfText(BIG);
    if (!vf_symbolic()) {
        u32 i = allowMinus && v.numBytes && v.bytes[0] == '-', m = 0;
        unsigned __int128 w = 0; bool o = false;
        for (; i + m < v.numBytes && dig(v.bytes[i + m]) < 10; m++) { w = w * 10 + dig(v.bytes[i + m]); if (w >> 64) { o = true; w = (u64) w; } }
        G.m = m; G.d = m > 0 && !o; ghost_u64 = G.d ? (u64) w : 0;
    }
    return v;
}
VF_HARNESS(parseS64) {
    StringView v = signedText(true);
    ViewInStream ins{v};
    s64 r = ins.parse<s64>();
    vf_cover("end");
    bool neg = v.numBytes > 0 && v.bytes[0] == '-';
    u64 u = ghost_u64;
    bool fits = neg ? u <= 0x8000000000000000ull : u <= 0x7fffffffffffffffull;
    vf_assert(ins.curByte == v.bytes + (neg ? 1 : 0) + G.m, "an optional minus sign and the digits are consumed");
    vf_assert(ins.anyParseError() == !(G.d && fits), "an error is reported exactly for a bad or out-of-range numeral");
    if (G.d && fits) vf_assert(r == (neg ? (s64) (0 - u) : (s64) u), "value");
}
template <typename T> static void narrow() {
    StringView v = signedText(T(-1) < T(0));
    ViewInStream ins{v};
    T r = ins.parse<T>();
    vf_cover("end");
    bool neg = T(-1) < T(0) && v.numBytes > 0 && v.bytes[0] == '-';
    u64 u = ghost_u64;
    u64 lim = T(-1) < T(0) ? (1ull << (8 * sizeof(T) - 1)) - (neg ? 0 : 1) : (T) -1;
    vf_assert(ins.anyParseError() == !(G.d && u <= lim), "an error is reported exactly when the value does not fit");
    if (G.d && u <= lim) vf_assert((s64) r == (neg ? -(s64) u : (s64) u), "value");
}
VF_HARNESS(parseU32) { narrow<u32>(); }
VF_HARNESS(parseU16) { narrow<u16>(); }
VF_HARNESS(parseU8) { narrow<u8>(); }
VF_HARNESS(parseS32) { narrow<s32>(); }
VF_HARNESS(parseS16) { narrow<s16>(); }
VF_HARNESS(parseS8) { narrow<s8>(); }
//----------------------------------------------------------------------------------------------
// printing: digits of a value; the loops run at most 64 times and are unrolled completely
template <u32 R> static void printBody(u64 x, u8 kind) {
    u32 cap = vf_bool(), neg = 0;
    u8* buf = (u8*) vf_buf(80, 1);
    ViewOutStream outs{{(char*) buf, 80}};
    if (kind == 0) { cap = 0; outs << x; }
    else if (kind == 1) outs << fmt::WithRadix{x, R, cap != 0};
    vf_cover("end");
    u32 len = (u32) (outs.curByte - (char*) buf) - neg;
    vf_assert(len >= 1, "a digit");
    u64 q = x; 
    for (u32 i = 0; i < len; i++) {
        u64 q1 = q / R;
        vf_assert(buf[neg + len - 1 - i] == chr((u32) (q - q1 * R), cap), "every digit is the positional digit of the value");
        q = q1;
    }
    vf_assert(q == 0, "no digit is missing");
    if (x) vf_assert(buf[neg] != '0', "no leading zero");
}
#define PRINT(R) \
    VF_HARNESS(printU_##R) { printBody<R>(vf_nd64(), 1); }
PRINT(8) PRINT(10) PRINT(16) PRINT(36)
//----------------------------------------------------------------------------------------------
// all other integer types: one call of printString(u64) (verified above; contract used here), after a sign if negative
struct Printed { u32 calls; u64 value; u32 radix; bool cap; u64 pos; } ghost_pr;
extern "C" void contract_printString(OutStream* outs, u64 value, u32 radix, bool cap);
void contract_printString(OutStream* outs, u64 value, u32 radix, bool cap) {
    vf_assert(radix >= 2, "precondition of printString");
    ghost_pr.calls++; ghost_pr.value = value; ghost_pr.radix = radix; ghost_pr.cap = cap;
    ghost_pr.pos = (u64) (outs->curByte - outs->startByte);
}
template <typename T, bool WITHRADIX> static void printOther() {
    T x = (T) vf_nd64();
    u32 radix = 10; bool cap = false;
    char* buf = (char*) vf_buf(80, 1);
    ViewOutStream outs{{buf, 80}};
    if (WITHRADIX) {
        u8 k = vf_nd8();
        radix = vf_nd32(); cap = vf_bool();
        vf_assume(radix >= 2 && radix <= 36);
        if (k == 0) { radix = 16; outs << fmt::Hex{x, cap}; } else outs << fmt::WithRadix{x, radix, cap};
    } else outs << x;
    vf_cover("end");
    bool neg = x < 0;
    u64 u = neg ? 0 - (u64) (s64) x : (u64) x;
    if (neg) vf_assert(buf[0] == '-', "sign");
    if (vf_symbolic()) {
        vf_assert(ghost_pr.calls == 1 && ghost_pr.value == u && ghost_pr.radix == radix && ghost_pr.cap == cap && ghost_pr.pos == (u64) neg,
                  "the magnitude is printed once, in the radix asked for, right after the sign");
    } else {
        u32 len = (u32) (outs.curByte - buf) - neg;
        for (u32 i = 0; i < len; i++, u /= radix) vf_assert(buf[neg + len - 1 - i] == (char) chr((u32) (u % radix), cap), "digit");
        vf_assert(u == 0 && (len == 1 || buf[neg] != '0'), "digits");
    }
}
#define PO(N, T) VF_HARNESS(print_##N) { printOther<T, false>(); } VF_HARNESS(printRadix_##N) { printOther<T, true>(); }
PO(u8, u8) PO(u16, u16) PO(u32, u32) PO(u64, u64) PO(s8, s8) PO(s16, s16) PO(s32, s32) PO(s64, s64)
