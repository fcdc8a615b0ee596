// Array<T>: contents, capacity, ownership; items with constructors and destructors (Array.h, BaseArray.cpp, Subst.h, ArrayView.h)
#include "vfply.h"
static const u32 BIG = 0x3ffffff;
// an arbitrary item value t != 0 (0: default constructed) is counted by the ghost: live = constructed - destructed
struct Ghost { u32 k, j, n; u8 t; u8* a; s64 live; u64 made, gone; void* arr; u32 from, cnt; u8* b; u32 *a4, *b4; } ghost_g;
#define G ghost_g
static bool uniq(u64 i) { return i >= G.n || (G.a[i] == G.t) == (i == G.k); }
struct Item;
// instance of the definition of A (item k, and only it, has value t), at the index an item had before the call
static void hint(const Item* p) { vf_assume(uniq(vf_offset(p))); }
struct Item {
    u8 v;
    Item() : v{0} { G.made++; }
    Item(u8 x) : v{x} { G.live += v == G.t; G.made++; }
    Item(const Item& o) : v{o.v} { hint(&o); G.live += v == G.t; G.made++; }
    Item(Item&& o) : v{o.v} { o.v = 0; G.made++; }
    ~Item() { hint(this); G.live -= v == G.t; G.gone++; }
    void operator=(const Item& o) { G.live += (o.v == G.t) - (v == G.t); v = o.v; }
    bool operator==(const Item& o) const { return v == o.v; }
};
struct Raw { Item* items; u32 n, alloc; };
// the input array A (n items; item k, and only it, has value t) and an Array object with this contents and any capacity
static u8* input(u32 n, u32 k) {
    u8* a = (u8*) vf_buf(n, 1);
    if (!vf_symbolic()) for (u32 i = 0; i < n; i++) a[i] = i == k ? G.t : (a[i] == G.t ? a[i] ^ 2 : a[i]);
    if (k < n) vf_assume(a[k] == G.t);
    return a;
}
static void begin() {
    G.t = vf_nd8() | 1; G.k = vf_len(8); G.j = vf_len(12); G.n = vf_len(8);
    vf_assume(G.n <= BIG);
    G.a = input(G.n, G.k);
    vf_readonly(G.a);
    G.live = G.k < G.n;
    if (G.j < G.n) vf_assume(uniq(G.j));
}
static void build(void* mem, u32 extra) {
    Raw* r = (Raw*) mem;
    r->n = G.n; r->alloc = G.n + extra;
    r->items = (Item*) vf_heapbuf(r->alloc, 1);
    memcpy((void*) r->items, G.a, G.n);
    G.arr = mem;
}
static const Raw* raw() { return (const Raw*) G.arr; }
static void wellFormed() {
    vf_assert(raw()->alloc >= raw()->n, "capacity");
    if (raw()->n) vf_assert(vf_size(raw()->items) >= raw()->alloc, "the block holds the capacity");
}
#define ARR(name) alignas(8) char buf_##name[sizeof(Array<Item>)]; build(buf_##name, extra()); Array<Item>& name = *(Array<Item>*) buf_##name
static u32 extra() { u32 e = vf_len(4); vf_assume(e <= BIG); return e; }
static void end(Array<Item>& a) {
    s64 live = G.live;
    a.~Array();
    vf_cover("end");
    vf_assert(vf_heap_live() == 0, "block released exactly once");
    (void) live;
}

extern "C" u32 contract_roundUp(u32 v);
u32 contract_roundUp(u32 v) {
    if (!vf_symbolic()) return roundUpPowerOf2(v);
    vf_assert(v <= 0x80000000u, "precondition");
    u32 r = vf_nd32();
    vf_assume(r >= v && r <= 2 * (u64) v);
    return r;
}
VF_HARNESS(roundUp) {
    u32 v = vf_nd32();
    vf_assume(v <= 0x80000000u);
    u32 r = roundUpPowerOf2(v);
    vf_assert(r >= v && (v == 0 || r / 2 < v) && (r & (r - 1)) == 0, "the smallest power of two that is not smaller (0 for 0)");
    vf_assert(r <= 2 * (u64) v, "contract used by the other harnesses");
}
VF_HARNESS(destroy) {
    begin();
    {
        ARR(a);
        a.~Array();
    }
    vf_cover("end");
    vf_assert(G.live == 0 && G.gone == G.n && vf_heap_live() == 0, "every item destructed once, block released");
}
VF_INV(destroy, live)(u32 i) { return i <= G.n && G.live == (G.k < G.n && G.k >= G.n - i); }
VF_INV(destroy, live2)(u64 i) { return i <= G.n && G.live == (G.k < G.n && G.k >= i); }

VF_HARNESS(erase) {
    begin();
    u32 pos = vf_len(8), cnt = vf_len(4);
    vf_assume(pos <= G.n && cnt <= G.n - pos);
    G.from = pos; G.cnt = cnt;
    ARR(a);
    a.erase(pos, cnt);
    vf_cover("end");
    vf_assert(a.numItems() == G.n - cnt, "size"); wellFormed();
    vf_assert(G.gone == cnt && G.live == (G.k < G.n && (G.k < pos || G.k >= pos + cnt)), "exactly the erased items are destructed");
    if (G.j < a.numItems()) vf_assert(a[G.j].v == G.a[G.j < pos ? G.j : G.j + cnt], "the others keep their order");
}
VF_INV(erase, live)(u64 i) { return i <= G.cnt && G.live == (G.k < G.n && !(G.k >= G.from && G.k < G.from + i)); }
VF_INV(erase, left)(u32 i) { return i <= G.cnt && G.live == (G.k < G.n && !(G.k >= G.from && G.k < G.from + G.cnt - i)); }

VF_HARNESS(eraseQuick1) {
    begin();
    u32 pos = vf_len(8);
    vf_assume(pos < G.n);
    ARR(a);
    a.eraseQuick(pos);
    vf_cover("end");
    vf_assert(a.numItems() == G.n - 1, "size"); wellFormed();
    vf_assert(G.gone == 1 && G.live == (G.k < G.n && G.k != pos), "exactly the erased item is destructed");
    if (G.j < a.numItems()) vf_assert(a[G.j].v == G.a[G.j == pos ? G.n - 1 : G.j], "the last item fills the gap");
}
VF_HARNESS(eraseQuick) {
    begin();
    u32 pos = vf_len(8), cnt = vf_len(4);
    vf_assume(pos <= G.n && cnt <= G.n - pos);
    G.from = pos; G.cnt = cnt;
    ARR(a);
    a.eraseQuick(pos, cnt);
    vf_cover("end");
    vf_assert(a.numItems() == G.n - cnt, "size"); wellFormed();
    vf_assert(G.gone == cnt && G.live == (G.k < G.n && (G.k < pos || G.k >= pos + cnt)), "exactly the erased items are destructed");
    // the kept items stay where they are, but for those at the end, which fill the gap
    u32 w = vf_len(8);
    if (G.j < a.numItems() && (G.j < pos || G.j >= pos + cnt)) vf_assert(a[G.j].v == G.a[G.j], "items outside the gap stay");
    u32 moved = cnt < G.n - pos - cnt ? cnt : G.n - pos - cnt;
    if (w < moved) vf_assert(a[pos + w].v == G.a[G.n - moved + w], "the last items fill the gap");
}
VF_INV(eraseQuick, live)(u64 i) { return i <= G.cnt && G.live == (G.k < G.n && !(G.k >= G.from && G.k < G.from + i)); }
VF_INV(eraseQuick, left)(u32 i) { return i <= G.cnt && G.live == (G.k < G.n && !(G.k >= G.from && G.k < G.from + G.cnt - i)); }
VF_HARNESS(insert) {
    begin();
    u32 pos = vf_len(8), cnt = vf_len(4);
    vf_assume(pos <= G.n && cnt >= 1 && cnt <= BIG);
    G.from = pos; G.cnt = cnt;
    ARR(a);
    Item& r = a.insert(pos, cnt);
    vf_cover("end");
    vf_assert(a.numItems() == G.n + cnt && &r == raw()->items + pos, "size"); wellFormed();
    vf_assert(G.gone == 0 && G.made == cnt && G.live == (G.k < G.n), "exactly the new items are constructed");
    if (G.j < a.numItems()) vf_assert(a[G.j].v == (G.j < pos ? G.a[G.j] : G.j < pos + cnt ? 0 : G.a[G.j - cnt]), "the others keep their order");
}
VF_INV(insert, made)(u64 i) { return G.made == i && i <= G.cnt; }
VF_INV(insert, left)(u32 i) { return i <= G.cnt && G.made == G.cnt - i; }
VF_INV(insert, zero)() { return !(G.j >= G.from && G.j < G.from + G.made && G.made <= G.cnt) || raw()->items[G.j].v == 0; }
VF_INV(insert, before)() { return G.j >= G.from || raw()->items[G.j].v == G.a[G.j]; }
VF_INV(insert, after)() { return G.j < G.from + G.cnt || G.j >= G.n + G.cnt || raw()->items[G.j].v == G.a[G.j - G.cnt]; }
VF_HARNESS(shrink) {
    begin();
    u32 m = vf_len(12);
    vf_assume(m <= G.n);
    G.from = m; G.cnt = G.n - m;
    ARR(a);
    if (vf_bool()) a.resize(m);
    else a.pop(G.n - m);
    vf_cover("end");
    vf_assert(a.numItems() == m && !a.isEmpty() == (m > 0), "size"); wellFormed();
    vf_assert(G.gone == G.n - m && G.made == 0 && G.live == (G.k < G.n && G.k < m), "items beyond the new size are destructed");
    if (G.j < m) vf_assert(a[G.j].v == G.a[G.j], "contents");
}
VF_INV(shrink, live)(u64 i) { return i <= G.cnt && G.live == (G.k < G.n && !(G.k >= G.from && G.k < G.from + i)); }
VF_INV(shrink, left)(u32 i) { return i <= G.cnt && G.live == (G.k < G.n && !(G.k >= G.from && G.k < G.from + G.cnt - i)); }
VF_HARNESS(grow) {
    begin();
    u32 m = vf_len(12);
    vf_assume(m <= BIG && m >= G.n);
    G.from = G.n; G.cnt = m - G.n;
    ARR(a);
    a.resize(m);
    vf_cover("end");
    vf_assert(a.numItems() == m && !a.isEmpty() == (m > 0), "size"); wellFormed();
    vf_assert(G.gone == 0 && G.made == m - G.n, "new items are constructed");
    if (G.j < m) vf_assert(a[G.j].v == (G.j < G.n ? G.a[G.j] : 0), "contents");
}
VF_INV(grow, made)(u64 i) { return G.made == i && i <= G.cnt; }
VF_INV(grow, mleft)(u32 i) { return i <= G.cnt && G.made == G.cnt - i; }
VF_INV(grow, zero)() { return !(G.j >= G.from && G.j < G.from + G.made && G.made <= G.cnt) || raw()->items[G.j].v == 0; }
VF_INV(grow, before)() { return G.j >= G.n || G.j >= G.from || raw()->items[G.j].v == G.a[G.j]; }
VF_HARNESS(append) {
    begin();
    u8 x = vf_nd8(), how = vf_nd8();
    vf_assume(how < 3 && x != 0);
    {
        ARR(a);
        Item* r;
        if (how == 0) { Item it{x}; r = &a.append(it); vf_assert(it.v == x, "source kept"); }
        else if (how == 1) { Item it{x}; r = &a.append(std::move(it)); }
        else r = &a.append(x);
        vf_cover("end");
        vf_assert(a.numItems() == G.n + 1 && r == &a.back() && &a.back() == raw()->items + G.n, "size"); wellFormed();
        if (G.j < a.numItems()) vf_assert(a[G.j].v == (G.j < G.n ? G.a[G.j] : x), "contents");
        vf_assert(vf_heap_live() == 1, "one block");
    }
}
// a second array B, appended to or assigned
static const Item* other(u32 m) { G.b = (u8*) vf_buf(m, 1); vf_readonly(G.b); return (const Item*) G.b; }
VF_HARNESS(extend) {
    begin();
    u32 m = vf_len(6);
    vf_assume(m <= BIG);
    const Item* b = other(m);
    G.cnt = m; G.t = 0;
    ARR(a);
    a.extend(ArrayView<const Item>{b, m});
    vf_cover("end");
    vf_assert(a.numItems() == G.n + m && G.gone == 0 && G.made == m, "size"); wellFormed();
    if (G.j < a.numItems()) vf_assert(a[G.j].v == (G.j < G.n ? G.a[G.j] : G.b[G.j - G.n]), "contents");
}
VF_INV(extend, made)(u64 i) { return G.made == i && i <= G.cnt; }
VF_INV(extend, left)(u32 i) { return i <= G.cnt && G.made == G.cnt - i; }
VF_INV(extend, copied)() { return !(G.j >= G.n && G.j < G.n + G.made && G.made <= G.cnt) || raw()->items[G.j].v == G.b[G.j - G.n]; }
VF_INV(extend, before)() { return G.j >= G.n || raw()->items[G.j].v == G.a[G.j]; }
VF_HARNESS(plain) {
    // arrays of plain items: construction from a view, copies, moves, concatenation, truncation
    u32 n = vf_len(8), m = vf_len(6), j = vf_len(12);
    vf_assume(n <= BIG && m <= BIG);
    const u32* p = (const u32*) vf_buf((u64) n * 4, 4); const u32* q = (const u32*) vf_buf((u64) m * 4, 4);
    vf_readonly(p); vf_readonly(q);
    u8 how = vf_nd8();
    vf_assume(how < 7);
    {
        Array<u32> a = ArrayView<const u32>{p, n};
        if (how == 0) {
            Array<u32> c{a};
            vf_assert(c.numItems() == n && a.numItems() == n && vf_heap_live() == 2, "copies own a block of their own");
            if (j < n) vf_assert(c[j] == p[j] && a[j] == p[j], "contents");
        } else if (how == 1) {
            Array<u32> c{std::move(a)};
            vf_assert(c.numItems() == n && a.isEmpty() && a.begin() == nullptr && vf_heap_live() == 1, "moves transfer the block");
            if (j < n) vf_assert(c[j] == p[j], "contents");
        } else if (how == 2) {
            Array<u32> c = ArrayView<const u32>{q, m};
            const Array<u32>& d = c;
            a = d;
            vf_assert(a.numItems() == m && c.numItems() == m && vf_heap_live() == 2, "assignment releases the old block");
            if (j < m) vf_assert(a[j] == q[j] && c[j] == q[j], "contents");
        } else if (how == 3) {
            Array<u32> c = ArrayView<const u32>{q, m};
            a = std::move(c);
            vf_assert(a.numItems() == m && c.isEmpty() && vf_heap_live() == 1, "move assignment releases the old block");
            if (j < m) vf_assert(a[j] == q[j], "contents");
        } else if (how == 4) {
            a = ArrayView<const u32>{q, m};
            vf_assert(a.numItems() == m && vf_heap_live() == 1, "assignment of a view");
            if (j < m) vf_assert(a[j] == q[j], "contents");
        } else if (how == 5) {
            Array<u32> c = ArrayView<const u32>{q, m};
            Array<u32> s = a + c;
            vf_assert(s.numItems() == n + m && vf_heap_live() == 3, "concatenation");
            if (j < n + m) vf_assert(s[j] == (j < n ? p[j] : q[j - n]), "contents");
        } else {
            a.truncate();
            vf_assert(a.numItems() == n, "truncate");
            a.append(7u);
            vf_assert(a.numItems() == n + 1 && a[n] == 7, "append after truncate");
            if (j < n) vf_assert(a[j] == p[j], "contents");
            a.clear();
            vf_assert(a.isEmpty() && a.begin() == nullptr && vf_heap_live() == 0, "clear");
        }
    }
    vf_cover("end");
    vf_assert(vf_heap_live() == 0, "every block released exactly once");
}
VF_HARNESS(extendMove) {
    u32 n = vf_len(8), m = vf_len(6), j = vf_len(12);
    vf_assume(n <= BIG && m <= BIG);
    G.a = (u8*) vf_buf(n, 1); G.b = (u8*) vf_buf(m, 1);
    vf_readonly(G.a); vf_readonly(G.b);
    u8 how = vf_nd8();
    vf_assume(how < 2);
    G.n = n; G.cnt = m; G.j = j;
    alignas(8) char buf[sizeof(Array<u8>)];
    G.arr = buf;
    {
        Array<u8>& a = *new (buf) Array<u8>(ArrayView<const u8>{G.a, n});
        Array<u8> c = ArrayView<const u8>{G.b, m};
        if (how == 0) a.extend(std::move(c));
        else a.moveExtend(c.view());
        vf_assert(a.numItems() == n + m, "size");
        if (j < n + m) vf_assert(a[j] == (j < n ? G.a[j] : G.b[j - n]), "contents");
        a.~Array();
    }
    vf_cover("end");
    vf_assert(vf_heap_live() == 0, "every block released exactly once");
}
VF_INV(extendMove, before)() { return G.j >= G.n || ((const u8*) raw()->items)[G.j] == G.a[G.j]; }
VF_INV(extendMove, up)(u64 i) { return i > G.cnt || G.j < G.n || G.j >= G.n + i || ((const u8*) raw()->items)[G.j] == G.b[G.j - G.n]; }
VF_INV(extendMove, left)(u32 i) { return i <= G.cnt && (G.j < G.n || G.j >= G.n + G.cnt - i || ((const u8*) raw()->items)[G.j] == G.b[G.j - G.n]); }
VF_HARNESS(selfAssign) {
    u32 n = vf_len(8), j = vf_len(12), from = vf_len(8);
    vf_assume(n <= BIG && from <= n);
    const u32* p = (const u32*) vf_buf((u64) n * 4, 4);
    vf_readonly(p);
    u8 how = vf_nd8();
    vf_assume(how < 3);
    {
        Array<u32> a = ArrayView<const u32>{p, n};
        const Array<u32>& self = a;
        if (how == 0) a = self;
        else if (how == 1) { Array<u32>& m = a; a = m; }
        else a = a.subView(from);
        u32 f = how == 2 ? from : 0;
        vf_assert(a.numItems() == n - f && vf_heap_live() == 1, "size");
        if (j < n - f) vf_assert(a[j] == p[j + f], "contents");
    }
    vf_cover("end");
    vf_assert(vf_heap_live() == 0, "every block released exactly once");
}
VF_HARNESS(adopt) {
    u32 n = vf_len(8), j = vf_len(12);
    vf_assume(n <= BIG && n > 0);
    u32* p = (u32*) vf_heapbuf((u64) n * 4, 4);
    u32 x = j < n ? p[j] : 0;
    {
        Array<u32> a = Array<u32>::adopt(p, n);
        vf_assert(a.numItems() == n && a.begin() == p, "adopts the block");
        a.append(5u);
        vf_assert(a.numItems() == n + 1 && a[n] == 5, "append after adopting");
        if (j < n) vf_assert(a[j] == x, "contents");
    }
    vf_cover("end");
    vf_assert(vf_heap_live() == 0, "released exactly once");
}
VF_HARNESS(compare) {
    u32 n = vf_len(8), m = vf_len(8), j = vf_len(8);
    vf_assume(n <= BIG && m <= BIG);
    const u32* p = (const u32*) vf_buf((u64) n * 4, 4); const u32* q = (const u32*) vf_buf((u64) m * 4, 4);
    vf_readonly(p); vf_readonly(q);
    G.a4 = (u32*) p; G.b4 = (u32*) q; G.n = n; G.cnt = m; G.j = j;
    bool r = ArrayView<const u32>{p, n} == ArrayView<const u32>{q, m};
    vf_cover("end");
    if (r) { vf_assert(n == m, "sizes"); if (j < n) vf_assert(p[j] == q[j], "equal arrays have equal items"); }
}
VF_INV(compare, eq)(u32 i) { return !(G.j < i && G.j < G.n && G.j < G.cnt) || G.a4[G.j] == G.b4[G.j]; }
VF_HARNESS(compareEq) {
    // arrays that are equal before j: equal unless they differ at j (or in size)
    u32 n = vf_len(8), m = vf_len(8);
    vf_assume(n <= BIG && m <= BIG);
    const u32* p = (const u32*) vf_buf((u64) n * 4, 4);
    vf_readonly(p);
    bool r = ArrayView<const u32>{p, n} == ArrayView<const u32>{p, m <= n ? m : n};
    vf_cover("end");
    vf_assert(r == (m >= n), "an array equals itself and no proper prefix");
}
VF_HARNESS(views) {
    u32 n = vf_len(8), s = vf_len(8), c = vf_len(8), j = vf_len(8);
    vf_assume(n <= BIG && s <= n && c <= n - s);
    u32* p = (u32*) vf_buf((u64) n * 4, 4);
    ArrayView<u32> v{p, n};
    ArrayView<u32> a = v.subView(s), b = v.subView(s, c), d = v.shortenedBy(c);
    vf_assert(a.items == p + s && a.numItems == n - s && b.items == p + s && b.numItems == c && d.items == p && d.numItems == n - c, "subviews");
    vf_assert(v.end() == p + n && v.begin() == p && v.isEmpty() == (n == 0) && (bool) v == (n != 0) && v.sizeBytes() == n * 4, "size");
    if (j < n) vf_assert(&v[j] == p + j && &v.back(-(s32) j - 1) == p + (n - 1 - j), "subscripts");
    ArrayView<u32> h = v;
    h.offsetHead(s);
    vf_assert(h.items == p + s && h.numItems == n - s, "offsetHead");
    h.offsetBack(-(s32) c);
    vf_assert(h.items == p + s && h.numItems == n - s - c, "offsetBack");
    vf_cover("end");
}

// the same operations on 4-byte items without constructors
VF_HARNESS(plainOps) {
    u32 n = vf_len(8), cap = vf_len(12), j = vf_len(12), pos = vf_len(8), cnt = vf_len(4);
    vf_assume(n <= BIG && cap <= BIG && cap >= n && pos <= n && cnt <= BIG);
    const u32* p = (const u32*) vf_buf((u64) n * 4, 4);
    vf_readonly(p);
    u8 how = vf_nd8();
    vf_assume(how < 6 && (how > 2 || cnt <= n - pos));
    alignas(8) char buf[sizeof(Array<u32>)];
    u32* items = (u32*) vf_heapbuf((u64) cap * 4, 4);
    memcpy(items, p, (u64) n * 4);
    *(u32**) buf = items; ((u32*) buf)[2] = n; ((u32*) buf)[3] = cap;
    Array<u32>& a = *(Array<u32>*) buf;
    if (how == 0) {
        a.erase(pos, cnt);
        vf_assert(a.numItems() == n - cnt, "erase: size");
        if (j < n - cnt) vf_assert(a[j] == p[j < pos ? j : j + cnt], "erase: the others keep their order");
    } else if (how == 1) {
        a.eraseQuick(pos, cnt);
        vf_assert(a.numItems() == n - cnt, "eraseQuick: size");
        if (j < n - cnt && (j < pos || j >= pos + cnt)) vf_assert(a[j] == p[j], "eraseQuick: items outside the gap stay");
        u32 moved = cnt < n - pos - cnt ? cnt : n - pos - cnt;
        if (j < moved) vf_assert(a[pos + j] == p[n - moved + j], "eraseQuick: the last items fill the gap");
    } else if (how == 2) {
        vf_assume(pos < n);
        a.eraseQuick(pos);
        vf_assert(a.numItems() == n - 1, "eraseQuick: size");
        if (j < n - 1) vf_assert(a[j] == p[j == pos ? n - 1 : j], "eraseQuick: the last item fills the gap");
    } else if (how == 3) {
        vf_assume(cnt >= 1);
        u32& r = a.insert(pos, cnt);
        vf_assert(a.numItems() == n + cnt && &r == a.begin() + pos, "insert: size");
        if (j < n + cnt && (j < pos || j >= pos + cnt)) vf_assert(a[j] == p[j < pos ? j : j - cnt], "insert: the others keep their order");
    } else if (how == 4) {
        a.resize(cnt);
        vf_assert(a.numItems() == cnt, "resize: size");
        if (j < n && j < cnt) vf_assert(a[j] == p[j], "resize: contents");
    } else {
        a.append(cnt);
        vf_assert(a.numItems() == n + 1 && a.back() == cnt, "append: size");
        if (j < n) vf_assert(a[j] == p[j], "append: contents");
        a.reserve(n + 1 + pos);
        vf_assert(vf_size(a.begin()) >= (u64) (n + 1 + pos) * 4, "reserve");
        if (j < n) vf_assert(a[j] == p[j], "reserve: contents");
    }
    if (a.numItems()) vf_assert(vf_size(a.begin()) >= (u64) a.numItems() * 4, "the block holds all items");
    a.~Array();
    vf_cover("end");
    vf_assert(vf_heap_live() == 0, "every block released exactly once");
}
