// OutStream: bytes written reach the pipe, the view or the string completely and in order (OutStream.h/.cpp, BlockList.cpp)
#include "vfply.h"
#include <ply-runtime/io/OutStream.h>
typedef BlockList::Footer Block;
// the output history: byte number k is v; recv bytes have reached the pipe, got is byte k as the pipe received it
struct Ghost { u64 k, recv, total; u8 v, got; bool failed, destroyed; u32 flushes; OutStream* outs; char* bytes; u32 size; u64 base; const u8* src; u32 n; bool forced; } ghost_g;
#define G ghost_g
struct Sink : OutPipe {
    static Funcs funcs;
    Sink() : OutPipe{&funcs} {}
};
static OutPipe* ownedPipe;
static void sinkDestroy(OutPipe* p) {
    if (p != ownedPipe) return;
    vf_assert(!G.destroyed, "pipe destroyed once"); G.destroyed = true; }
static bool sinkWrite(OutPipe*, StringView s) {
    vf_assert(!G.failed, "nothing is written after a failure");
    if (vf_bool()) { G.failed = true; return false; }
    if (G.k >= G.recv && G.k - G.recv < s.numBytes) G.got = s.bytes[G.k - G.recv];
    G.recv += s.numBytes;
    return true;
}
static bool sinkFlush(OutPipe*, bool) { G.flushes++; return true; }
OutPipe::Funcs Sink::funcs = {sinkDestroy, sinkWrite, sinkFlush, nullptr};

// byte k of the history, wherever it is
static bool history(const OutStream* o, u64 total) {
    const Block* b = o->block;
    u64 used = b->numBytesUsed, w = o->curByte - b->bytes;
    if (!(used <= w && w <= b->blockSize && o->endByte == b->bytes + b->blockSize)) return false;
    if (o->status.eof) return true;
    if (G.failed || b->fileOffset + used != G.recv || b->fileOffset + w != total) return false;
    if (G.k < G.recv) return G.got == G.v;
    if (G.k < total) return (u8) b->bytes[G.k - b->fileOffset] == G.v;
    return true;
}
static u64 total(const OutStream* o) { return o->block->fileOffset + (o->curByte - o->block->bytes); }
static void native_end(OutStream* o) { if (!vf_symbolic()) o->~OutStream(); }
// any state of a stream that writes to a pipe
static void state(OutStream& o) {
    Block* b = o.block;
    u32 used = vf_len(200), w = vf_len(200);
    u64 off = vf_nd32();
    vf_assume(used <= w && w <= b->blockSize);
    u8* fill = (u8*) vf_buf(w, 1);
    memcpy(b->bytes, fill, w);
    b->numBytesUsed = used; b->fileOffset = off;
    o.curByte = b->bytes + w;
    G.recv = off + used; G.total = off + w; G.k = vf_nd64() & 0x1ffffffff; G.failed = false; G.destroyed = false; G.flushes = 0;
    G.got = vf_nd8(); G.v = G.k < G.recv ? G.got : G.k < G.total ? fill[G.k - off] : 0;
    G.outs = &o; G.bytes = b->bytes; G.size = b->blockSize;
}
static u32 expo() { u32 e = vf_nd8(); vf_assume(e >= 7 && e <= 20); return e; }

#define STREAM(o, type, ...) alignas(8) char buf_##o[sizeof(type)]; type& o = *new (buf_##o) type(__VA_ARGS__); state(o)
#define PIPE(o) Sink sink; STREAM(o, OutStream, borrow((OutPipe*) &sink), 12)
static StringView source() {
    StringView src = vfText(0xffffffff, 9000);
    if (G.k >= G.total && G.k - G.total < src.numBytes) G.v = src.bytes[G.k - G.total];
    G.n = src.numBytes;
    return src;
}
// contract of tryMakeBytesAvailableInternal for a pipe (proved by pipeAvail): nothing is lost, there is room for the bytes, or the stream has failed.
// (The storage of the block stands for that of any block here.)
extern "C" u32 contract_avail(OutStream* o, s32 n);
u32 contract_avail(OutStream* o, s32 n) {
    u64 t = total(o);
    Block* b = o->block;
    vf_assert(n == 1 && o->endByte == o->curByte && !o->status.eof && history(o, t), "precondition");
    if (vf_bool()) {
        G.failed = true; o->status.eof = 1; o->endByte = o->curByte;
        return 0;
    }
    u32 used = vf_nd32(), w = vf_nd32();
    vf_havoc(b->bytes, b->blockSize, 1);
    G.got = vf_nd8(); G.recv = vf_nd64(); b->fileOffset = vf_nd64(); b->numBytesUsed = used;
    vf_assume(used <= w && w < b->blockSize);
    o->curByte = b->bytes + w; o->endByte = b->bytes + b->blockSize;
    vf_assume(history(o, t));
    return b->blockSize - w;
}
VF_HARNESS(pipeWrite) {
    PIPE(o);
    if (vf_symbolic()) {
        // storage of any size
        u32 size = vf_len(1), w = o.curByte - o.block->bytes;
        vf_assume(size >= w);
        char* p = (char*) vf_buf(size, 1);
        memcpy(p, o.block->bytes, w);
        o.block->bytes = p; o.block->blockSize = size; o.curByte = p + w; o.endByte = p + size; G.bytes = p; G.size = size;
    }
    StringView src = source();
    bool ok = o.write(src);
    vf_cover("end");
    vf_assert(ok == !o.atEOF() && ok == !G.failed, "result");
    if (ok) {
        vf_assert(history(&o, G.total + src.numBytes), "every byte is in the pipe or in the buffer, in order");
        vf_assert(o.getSeekPos() == G.total + src.numBytes, "position");
    }
    native_end(&o);
}
VF_INV(pipeWrite, hist)(u32 rem) { return rem <= G.n && history(G.outs, G.total + G.n - rem); }
VF_INV(pipeWrite, ptr)(u64 ofs, u32 rem) { return rem <= G.n && ofs == G.n - rem; }
VF_INV(pipeWrite, block)() { const Block* b = G.outs->block; return b->bytes == G.bytes && b->blockSize == G.size && b->refCount == 1 && !b->nextBlock && !G.outs->status.eof; }
VF_HARNESS(pipeByte) {
    PIPE(o);
    u8 x = vf_nd8();
    if (G.k == G.total) G.v = x;
    bool viaOp = vf_bool(), ok = true;
    if (viaOp) o << (char) x;
    else ok = o.writeByte(x);
    vf_cover("end");
    if (!viaOp) vf_assert(ok == !G.failed, "result");
    vf_assert(o.atEOF() == G.failed, "status");
    if (!G.failed) vf_assert(history(&o, G.total + 1), "the byte is in the buffer");
    native_end(&o);
}
VF_HARNESS(pipeAvail) {
    PIPE(o);
    u32 n = vf_len(9000);
    vf_assume(n >= 1 && n <= 0x7fffff00);
    bool force = vf_bool(), share = vf_bool();
    Reference<Block> keep;
    Block* first = o.block;
    if (share) keep = o.block;
    u32 r = n;
    if (force) o.makeBytesAvailable(n);
    else r = o.tryMakeBytesAvailable(n);
    vf_cover("end");
    if (force || !G.failed) vf_assert(r >= n && o.numBytesAvailable() >= n && vf_size(o.block->bytes) >= (u64) (o.curByte - o.block->bytes) + n, "contiguous space");
    else vf_assert(r < n && o.atEOF() && o.numBytesAvailable() == 0, "failure");
    vf_assert(o.atEOF() == G.failed, "status");
    if (!G.failed) vf_assert(history(&o, G.total), "every byte is in the pipe or in the buffer, in order");
    if (share && !G.failed && G.total - first->fileOffset == first->numBytesUsed) vf_assert(first->fileOffset + first->numBytesUsed == G.total, "a shared block is kept");
    keep.clear();
    vf_assert(vf_heap_live() == 1, "one block left");
    native_end(&o);
}
VF_HARNESS(pipeEnd) {
    // destruction in any state, also after a failure that left the buffer only partly used, also after a move
    Sink sink;
    bool own = vf_bool(), eof = vf_bool();
    Sink* p = &sink;
    ownedPipe = nullptr;
    if (own) ownedPipe = p = new Sink;
    {
        OutStream o{own ? OptionallyOwned<OutPipe>{Owned<OutPipe>{(OutPipe*) p}} : borrow((OutPipe*) p), 12};
        state(o);
        if (eof) { o.status.eof = 1; G.failed = true; if (vf_bool()) o.endByte = o.curByte; }
        if (vf_bool()) {
            OutStream q{std::move(o)};
            vf_assert(o.status.type == 0 && o.numBytesAvailable() == 0 && o.getSeekPos() == 0 && !o.write("x"), "a moved stream is a null stream");
            if (!eof) vf_assert(history(&q, G.total), "a move keeps the contents");
            if (vf_bool()) { vf_assert(q.flush(true) && G.flushes == 1, "device flush"); if (!G.failed) vf_assert(G.recv == G.total, "flushed"); }
        }
        vf_assert(true, "");
    }
    vf_cover("end");
    if (!own) vf_assert(!G.destroyed, "a borrowed pipe is kept");
    else vf_assert(G.destroyed, "an owned pipe is destroyed");
    if (!G.failed) { vf_assert(G.recv == G.total, "everything has been written"); if (G.k < G.recv) vf_assert(G.got == G.v, "contents"); }
    vf_assert(vf_heap_live() == 0, "every block released");
}
VF_HARNESS(afterFailure) {
    PIPE(o);
    o.status.eof = 1; G.failed = true;
    StringView src = vfText(0xffffffff, 9000);
    u8 how = vf_nd8();
    vf_assume(how < 4);
    if (how == 0) vf_assert(!o.write(src), "writing fails");
    else if (how == 1) o.writeByte(1);
    else if (how == 2) o.flush();
    else vf_assert(o.tryMakeBytesAvailable(5000) == 0, "no bytes available");
    vf_cover("end");
    vf_assert(o.atEOF(), "the failure is remembered");
    native_end(&o);
}
VF_HARNESS(viewWrite) {
    u32 m = vf_len(40), w = vf_len(40), j = vf_len(60);
    vf_assume(w <= m);
    char* p = (char*) vf_buf(m, 1);
    u8 x = j < m ? p[j] : 0;
    StringView src = vfText(0xffffffff, 40);
    ViewOutStream o{{p, m}};
    o.curByte += w;
    bool ok = o.write(src);
    vf_cover("end");
    u32 n = src.numBytes < m - w ? src.numBytes : m - w;
    vf_assert(ok == (src.numBytes <= m - w) && o.atEOF() == !ok, "writing fails exactly when the view is too small");
    vf_assert(o.getSeekPos() == w + n, "position");
    if (j < m) vf_assert((u8) p[j] == (j >= w && j < w + n ? (u8) src.bytes[j - w] : x), "contents");
}
VF_HARNESS(memAvail) {
    // a memory stream in any state: a block that is full is kept, and continued by another one
    STREAM(o, MemOutStream, 12);
    u32 n = vf_len(9000);
    vf_assume(n >= 1 && n <= 0x7fffff00);
    Block* first = o.block;
    u32 w = o.curByte - first->bytes;
    bool fits = n <= first->blockSize - w;
    u32 r = o.tryMakeBytesAvailable(n);
    vf_cover("end");
    vf_assert(r >= n && o.numBytesAvailable() >= n && !o.atEOF() && o.getSeekPos() == G.total, "contiguous space at the same position");
    vf_assert(fits ? o.block == first : first->nextBlock == o.block && o.block->prevBlock == first && first->numBytesUsed == w && o.block->numBytesUsed == 0 && o.block->fileOffset == G.total, "the blocks are linked");
    if (G.k < G.total && G.k >= first->fileOffset && G.k >= G.recv) vf_assert((u8) first->bytes[G.k - first->fileOffset] == G.v, "contents");
    native_end(&o);
    if (!vf_symbolic()) vf_assert(vf_heap_live() == 0, "every block released");
}
VF_HARNESS(memString) {
    // everything in one block: the block becomes the string
    u32 n = vf_len(300), j = vf_len(300);
    vf_assume(n <= 4096);
    const u8* src = (const u8*) vf_buf(n, 1);
    vf_readonly(src);
    {
        MemOutStream o;
        bool first = vf_bool();
        u32 a = vf_len(300);
        vf_assume(a <= n);
        vf_assert(o.write({(const char*) src, a}) && o.write({(const char*) src + a, n - a}), "written");
        if (first) o.flush();
        String s = o.moveToString();
        vf_assert(s.numBytes == n, "length");
        if (j < n) vf_assert((u8) s.bytes[j] == src[j], "contents");
        vf_assert(o.status.type == 0 && !o.write("x") && vf_heap_live() <= 1, "the stream is a null stream");
    }
    vf_cover("end");
    vf_assert(vf_heap_live() == 0, "every block released");
}
VF_HARNESS(memString2) {
    // two or three blocks of any fill
    u32 j = vf_len(9000), a = vf_len(200), b = vf_len(200), c = vf_len(200);
    vf_assume(a <= 4096 && b <= 4096 && c <= 4096);
    const u8* src = (const u8*) vf_buf((u64) a + b + c, 1);
    vf_readonly(src);
    {
        MemOutStream o;
        o.write({(const char*) src, a});
        o.makeBytesAvailable(4097 - a);
        o.write({(const char*) src + a, b});
        if (vf_bool()) { o.makeBytesAvailable(5000); o.write({(const char*) src + a + b, c}); }
        else vf_assume(c == 0);
        vf_assert(o.getSeekPos() == a + b + c, "position");
        String s = o.moveToString();
        vf_assert(s.numBytes == a + b + c, "length");
        if (j < a + b + c) vf_assert((u8) s.bytes[j] == src[j], "contents");
    }
    vf_cover("end");
    vf_assert(vf_heap_live() == 0, "every block released");
}
VF_HARNESS(createBlock) {
    u32 n = vf_len(9000);
    vf_assume(n > 100 && n <= 0xffffff00);
    Reference<Block> b = BlockList::createBlock(n);
    vf_assert(vf_same(b.get(), b->bytes) && (u64) ((char*) b.get() - b->bytes) >= n && vf_offset(b.get()) + sizeof(Block) <= vf_size(b->bytes), "the footer lies in the block, behind the data");
    vf_assert(vf_offset(b.get()) % alignof(Block) == 0 && vf_offset(b->bytes) == 0, "alignment");
    vf_assert(b->blockSize == n && b->numBytesUsed == 0 && b->startOffset == 0 && b->fileOffset == 0 && b->refCount == 1 && !b->nextBlock && !b->prevBlock, "an empty block");
    b.clear();
    vf_cover("end");
    vf_assert(vf_heap_live() == 0, "released");
}
// contract of createBlock: a block of data and a footer outside of it. (The real layout, the footer in the heap block right after the data,
// is proved by createBlock; the contract keeps the two apart.)
extern "C" Reference<Block> contract_createBlock(u32 numBytes);
Reference<Block> contract_createBlock(u32 numBytes) {
    vf_assert(numBytes > 100, "precondition");
    Block* b = (Block*) vf_object(sizeof(Block));
    new (b) Block;
    b->bytes = (char*) PLY_HEAP.alloc(numBytes);
    b->blockSize = numBytes;
    return b;
}
