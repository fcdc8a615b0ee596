// InStream: the bytes read are the bytes the pipe (or view) delivers, complete and in order (InStream.h/.cpp, BlockList.cpp, Pipe.cpp)
#include "vfply.h"
#include <ply-runtime/io/InStream.h>
typedef BlockList::Footer Block;
// the input D of n bytes, pos of them delivered by the pipe so far; k: an arbitrary position
struct Ghost { u64 k, n, pos, p; u8* d; bool destroyed; InStream* ins; Block* block; char* bytes; u32 size; u32 len, j; u8* dst; u32 want; char* cur; } ghost_g;
#define G ghost_g
struct Src : InPipe {
    static Funcs funcs;
    Src() : InPipe{&funcs} {}
};
static InPipe* ownedPipe;
static void srcDestroy(InPipe* p) {
    if (p != ownedPipe) return;
    vf_assert(!G.destroyed, "pipe destroyed once");
    G.destroyed = true;
}
// any non-empty part of what is left and fits
static u32 srcRead(InPipe*, MutableStringView v) {
    vf_assert(v.numBytes > 0, "room for the data");
    u32 c = vf_len(50);
    vf_assume(c <= v.numBytes && c <= G.n - G.pos && (c > 0 || G.n == G.pos));
    memcpy(v.bytes, G.d + G.pos, c);
    G.pos += c;
    return c;
}
InPipe::Funcs Src::funcs = {srcDestroy, srcRead, nullptr};

static u64 offset(const InStream* o) { return o->block->fileOffset + (o->curByte - o->block->bytes); }
// the current block holds a part of the input up to what has been delivered
static bool holds(const Block* b, u64 pos) {
    bool ok = (b->numBytesUsed <= b->blockSize) & (b->fileOffset + b->numBytesUsed == pos) & (pos <= G.n);
    if (ok & (G.k >= b->fileOffset) & (G.k < pos)) return (u8) b->bytes[G.k - b->fileOffset] == G.d[G.k];
    return ok;
}
static bool valid(const InStream* o) {
    const Block* b = o->block;
    return (o->endByte == b->unused()) & ((u64) (o->curByte - b->bytes) <= b->numBytesUsed) & holds(b, G.pos);
}
static void input(u64 max) {
    u32 n = vf_len(9000);
    vf_assume(n <= max);
    G.n = n; G.d = (u8*) vf_buf(n, 1);
    vf_readonly(G.d);
    G.k = vf_len(9000);
    G.destroyed = false;
}
static void fill(Block* b, u64 from, u32 used) {
    b->fileOffset = from; b->numBytesUsed = used;
    memcpy(b->bytes, G.d + from, used);
}
// any state of a stream with one block
static void state(InStream& o) {
    input(0xffffffff);
    Block* b = o.block;
    u32 used = vf_len(200), w = vf_len(200), off = vf_len(200);
    vf_assume(w <= used && used <= b->blockSize && off <= G.n && used <= G.n - off);
    fill(b, off, used);
    o.curByte = b->bytes + w; o.endByte = b->bytes + used;
    G.pos = off + used; G.p = off + w;
    G.ins = &o; G.block = b; G.bytes = b->bytes; G.size = b->blockSize;
}
static void native_end(InStream* o) { if (!vf_symbolic()) o->~InStream(); }
#define PIPE(o) Src src; alignas(8) char buf_##o[sizeof(InStream)]; InStream& o = *new (buf_##o) InStream(borrow((InPipe*) &src), 12); state(o)
static u64 least(u64 a, u64 b) { return a < b ? a : b; }
static bool sameBlock() { const InStream* o = G.ins; const Block* b = o->block; return b == G.block && b->bytes == G.bytes && b->blockSize == G.size && b->refCount == 1 && !b->nextBlock; }

// the stream's block holds a part of the input, and the position lies in it
static bool good(const InStream* o) {
    const Block* b = o->block;
    bool ok = (b->numBytesUsed <= b->blockSize) & (o->endByte == b->unused()) & ((u64) (o->curByte - b->bytes) <= b->numBytesUsed) &
              (b->fileOffset <= G.n) & (b->numBytesUsed <= G.n - b->fileOffset);
    if (ok & (G.k >= b->fileOffset) & (G.k - b->fileOffset < b->numBytesUsed)) return (u8) b->bytes[G.k - b->fileOffset] == G.d[G.k];
    return ok;
}
// contract of tryMakeBytesAvailableInternal (proved by avail, availShared, rewound): the position stays, and the block (its storage stands for
// that of any block here) holds as many bytes behind it as requested, or all that are left
extern "C" u32 contract_avail(InStream* o, u32 n);
u32 contract_avail(InStream* o, u32 n) {
    u64 at = offset(o);
    Block* b = o->block;
    vf_assert(good(o) && n > o->endByte - o->curByte, "precondition");
    u32 used = vf_nd32(), w = vf_nd32();
    vf_havoc(b->bytes, b->blockSize, 1);
    b->fileOffset = vf_nd64(); b->numBytesUsed = used;
    vf_assume(used <= b->blockSize && w <= used && b->fileOffset + w == at);
    o->curByte = b->bytes + w; o->endByte = b->bytes + used;
    vf_assume(good(o));
    u32 have = used - w;
    if (have < n) { vf_assume(have == G.n - at); o->status.eof = 1; }
    return have;
}
// any block of any stream
static void anyState(InStream& o) {
    input(0xffffffff);
    u32 size = vf_len(300), used = vf_len(200), w = vf_len(200), off = vf_len(200);
    vf_assume(size > 0 && size <= 0x7fffff00 && w <= used && used <= size && off <= G.n && used <= G.n - off);
    Block* b = o.block;
    if (vf_symbolic()) { b->bytes = (char*) vf_buf(size, 1); b->blockSize = size; }
    else vf_assume(used <= b->blockSize);
    fill(b, off, used);
    o.curByte = b->bytes + w; o.endByte = b->bytes + used;
    G.pos = off + used; G.p = off + w;
    G.ins = &o; G.block = b; G.bytes = b->bytes; G.size = b->blockSize;
}
#define ANY(o) Src src; alignas(8) char buf_##o[sizeof(InStream)]; InStream& o = *new (buf_##o) InStream(borrow((InPipe*) &src), 12); anyState(o)
VF_HARNESS(read) {
    ANY(o);
    u32 n = vf_len(9000), j = vf_len(9000);
    G.len = n; G.j = j; G.k = G.p + j;
    G.dst = (u8*) vf_buf(n, 1);
    bool r = o.read({(char*) G.dst, n});
    vf_cover("end");
    vf_assert(r == (n <= G.n - G.p), "true exactly when there are enough bytes");
    vf_assert(offset(&o) == G.p + least(n, G.n - G.p) && good(&o) && (r || o.atEOF()), "position");
    if (j < n) vf_assert(G.dst[j] == (j < G.n - G.p ? G.d[G.p + j] : 0), "the bytes of the input, then zeros");
    native_end(&o);
}
VF_INV(read, hist)(u32 rem) { return rem <= G.len && offset(G.ins) == G.p + G.len - rem; }
VF_INV(read, ptr)(u64 ofs, u32 rem) { return rem <= G.len && ofs == G.len - rem; }
VF_INV(read, block)() { return sameBlock() && good(G.ins); }
VF_INV(read, dst)() { return !(G.j < G.len && G.k < offset(G.ins)) || G.dst[G.j] == G.d[G.k]; }
VF_HARNESS(skip) {
    ANY(o);
    u32 n = vf_len(9000);
    G.len = n;
    bool r = o.skip(n);
    vf_cover("end");
    vf_assert(r == (n <= G.n - G.p), "true exactly when there are enough bytes");
    vf_assert(offset(&o) == G.p + least(n, G.n - G.p) && good(&o) && (r || o.atEOF()), "position");
    native_end(&o);
}
VF_INV(skip, hist)(u32 rem) { return rem <= G.len && offset(G.ins) == G.p + G.len - rem; }
VF_INV(skip, block)() { return sameBlock() && good(G.ins); }
VF_HARNESS(byte) {
    ANY(o);
    G.k = G.p;
    u8 r = o.readByte();
    vf_cover("end");
    vf_assert(r == (G.p < G.n ? G.d[G.p] : 0) && (G.p < G.n || o.atEOF()), "the next byte of the input, or 0 at its end");
    vf_assert(offset(&o) == G.p + (G.p < G.n) && good(&o), "position");
    native_end(&o);
}
static void avail(bool share) {
    PIPE(o);
    u32 n = vf_len(9000);
    vf_assume(n >= 1 && n <= 0x7fffff00);
    Reference<Block> keep;
    if (share) keep = o.block;
    u32 r = o.tryMakeBytesAvailable(n);
    vf_cover("end");
    u64 have = o.endByte - o.curByte;
    vf_assert(valid(&o) && good(&o) && offset(&o) == G.p && have >= r, "the position stays, the bytes are contiguous");
    vf_assert(r >= n || (o.atEOF() && r == have && r == G.n - G.p), "as many as requested, or all that is left");
    keep.clear();
    native_end(&o);
}
VF_HARNESS(avail) { avail(false); }
VF_HARNESS(availShared) { avail(true); }
VF_INV(avail, state)() { return valid(G.ins); }
VF_INV(avail, pos)() { return offset(G.ins) == G.p; }
VF_INV(availShared, state)() { return valid(G.ins); }
VF_INV(availShared, pos)() { return offset(G.ins) == G.p; }
static void rewound(int which) {
    // a stream that was rewound: the current block is followed by another one, which may repeat its last bytes
    PIPE(o);
    Block* b = o.block;
    Reference<Block> next = BlockList::createBlock(4096);
    u32 off = vf_len(200), used = vf_len(200), n = vf_len(9000);
    u64 end1 = G.pos;
    vf_assume(off <= end1 && used <= 4096 && off + (u64) used >= end1 && off + (u64) used <= G.n && n >= 1 && n <= 0x7fffff00);
    u64 behind = off + (u64) used - G.p;
    if (which == 0) vf_assume(n <= behind);
    else vf_assume(n > behind && (which == 1) == (G.p == end1));
    fill(next, off, used);
    next->prevBlock = b;
    b->nextBlock = next;
    G.pos = off + (u64) used;
    Reference<Block> keep = o.block;
    u32 r = o.tryMakeBytesAvailable(n);
    vf_cover("end");
    u64 have = o.endByte - o.curByte;
    vf_assert(good(&o) && offset(&o) == G.p && have >= r, "the position stays, the bytes are contiguous");
    vf_assert(r >= n || (o.atEOF() && r == have && r == G.n - G.p), "as many as requested, or all that is left");
    // what follows is the continuation of the input
    if (o.block->nextBlock) {
        BlockList::WeakRef w = o.block->weakRefToNext();
        vf_assert(w.block->fileOffset + (w.byte - w.block->bytes) == o.block->fileOffset + o.block->numBytesUsed, "the next block continues the current one");
        vf_assert(holds(w.block, G.pos), "the last block ends where the pipe is");
    } else vf_assert(valid(&o), "the last block ends where the pipe is");
    native_end(&o);
}
VF_HARNESS(rewound) { rewound(0); }
VF_HARNESS(rewoundAtEnd) { rewound(1); }
VF_HARNESS(rewoundInside) { rewound(2); }
#define R(h) VF_INV(h, state)() { return valid(G.ins); }
R(rewound) R(rewoundAtEnd) R(rewoundInside)
VF_HARNESS(again) {
    // going back to an earlier position of the stream
    PIPE(o);
    u32 w = vf_len(200);
    Block* b = o.block;
    vf_assume(w <= b->numBytesUsed);
    BlockList::Ref ref{b, b->bytes + w};
    o.status.eof = vf_bool();
    o.rewind(ref);
    vf_cover("end");
    vf_assert(valid(&o) && o.getSeekPos() == b->fileOffset + w && !o.atEOF(), "position");
    BlockList::Ref q = o.getBlockRef();
    vf_assert(q.block == b && q.byte == b->bytes + w && b->refCount == 3, "reference to the position");
    native_end(&o);
}
VF_HARNESS(end) {
    // destruction and moves in any state
    Src src;
    bool own = vf_bool();
    Src* p = &src;
    ownedPipe = nullptr;
    if (own) ownedPipe = p = new Src;
    {
        InStream o{own ? OptionallyOwned<InPipe>{Owned<InPipe>{(InPipe*) p}} : borrow((InPipe*) p), 12};
        state(o);
        if (vf_bool()) {
            InStream q{std::move(o)};
            vf_assert(o.isView() && o.numBytesAvailable() == 0 && o.atEOF() && o.readByte() == 0, "a moved stream is at its end");
            vf_assert(valid(&q) && offset(&q) == G.p, "a move keeps the contents");
        }
    }
    vf_cover("end");
    vf_assert(G.destroyed == own, "exactly an owned pipe is destroyed");
    vf_assert(vf_heap_live() == 0, "every block released");
}
VF_HARNESS(view) {
    input(0x7fffffff);
    u32 w = vf_len(100), n = vf_len(100), j = vf_len(100);
    vf_assume(w <= G.n);
    ViewInStream o{StringView{(const char*) G.d, (u32) G.n}};
    o.curByte += w;
    u8 how = vf_nd8();
    vf_assume(how < 4);
    u64 left = G.n - w;
    if (how == 0) {
        u8* dst = (u8*) vf_buf(n, 1);
        bool r = o.read({(char*) dst, n});
        vf_assert(r == (n <= left) && (r || o.atEOF()) && o.getSeekPos() == w + least(n, left), "result");
        if (j < n) vf_assert(dst[j] == (j < left ? G.d[w + j] : 0), "the bytes of the view, then zeros");
    } else if (how == 1) {
        bool r = o.skip(n);
        vf_assert(r == (n <= left) && (r || o.atEOF()) && o.getSeekPos() == w + least(n, left), "result");
    } else if (how == 2) {
        u8 r = o.readByte();
        vf_assert(r == (left ? G.d[w] : 0) && o.getSeekPos() == w + (left > 0) && (left || o.atEOF()), "next byte");
    } else {
        vf_assume(n > 0);
        u32 r = o.tryMakeBytesAvailable(n);
        vf_assert(n <= left ? r >= n && r <= left : r == left, "available bytes");
        vf_assert(o.getSeekPos() == w, "position");
    }
    vf_cover("end");
}
VF_HARNESS(pipeRead) {
    // InPipe::read collects the parts
    input(0xffffffff);
    Src src;
    u32 n = vf_len(200), j = vf_len(200), at = vf_len(200);
    vf_assume(at <= G.n);
    G.pos = G.p = at; G.len = n; G.j = j; G.k = at + (u64) j;
    G.dst = (u8*) vf_buf(n, 1);
    bool r = src.read({(char*) G.dst, n});
    vf_cover("end");
    vf_assert(r == (n <= G.n - at) && G.pos == at + least(n, G.n - at), "true exactly when there are enough bytes");
    if (j < n && j < G.n - at) vf_assert(G.dst[j] == G.d[G.k], "the bytes of the input");
}
VF_INV(pipeRead, hist)(u32 rem) { return rem <= G.len && G.pos == G.p + G.len - rem && G.pos <= G.n && (G.j >= G.len - rem || G.dst[G.j] == G.d[G.k]); }

extern "C" Reference<Block> contract_createBlock(u32 numBytes);
Reference<Block> contract_createBlock(u32 numBytes) {
    vf_assert(numBytes > 100, "precondition");
    Block* b = (Block*) vf_object(sizeof(Block));
    new (b) Block;
    b->bytes = (char*) PLY_HEAP.alloc(numBytes);
    b->blockSize = numBytes;
    return b;
}
