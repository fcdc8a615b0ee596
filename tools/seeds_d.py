from seeds_a import H
O = 'runtime/ply-runtime/io/OutStream.cpp'
I = 'runtime/ply-runtime/io/InStream.cpp'
B = 'runtime/ply-runtime/container/BlockList.cpp'
PIPES = H + '''
static std::string got; static int fail_at = -1, calls = 0;
struct Sink : OutPipe { static Funcs funcs; Sink() : OutPipe{&funcs} {} };
static void sd(OutPipe*) {}
static bool sw(OutPipe*, StringView s) { if (calls++ == fail_at) return false; got.append(s.bytes, s.numBytes); return true; }
static bool sf(OutPipe*, bool) { return true; }
OutPipe::Funcs Sink::funcs = {sd, sw, sf, nullptr};
static std::string data; static size_t pos = 0, part = 1000000;
struct Src : InPipe { static Funcs funcs; Src() : InPipe{&funcs} {} };
static void rd(InPipe*) {}
static u32 rr(InPipe*, MutableStringView v) { size_t n = v.numBytes; if (n > part) n = part; if (n > data.size() - pos) n = data.size() - pos; memcpy(v.bytes, data.data() + pos, n); pos += n; return (u32) n; }
InPipe::Funcs Src::funcs = {rd, rr, nullptr};
static void mk(size_t n) { for (size_t i = 0; i < n; i++) data += (char) (i * 7 + i / 251); }
'''
SEEDS = [
 dict(id='v05_write_after_failure', property='V05', needs='a pipe write that fails, with bytes left in the buffer at a later forced request for space', breaks='the bytes buffered later are given to the pipe although an earlier write failed (a hole in the output)',
      edits=[(O, 'if (this->status.type == (u32) Type::Pipe && this->status.eof == 0) {', 'if (this->status.type == (u32) Type::Pipe) {')],
      demo=PIPES + 'int main() { fail_at = 0; { Sink s; OutStream o{borrow((OutPipe*) &s), 12}; o.write("abc"); CHECK(!o.flush() || o.atEOF()); o.makeBytesAvailable(5000); *o.curByte++ = 120; } CHECK(got.empty()); return 0; }\n'),
 dict(id='v05_position_of_next_block', property='V05', needs='a request for contiguous space that leaves the end of a block unused, then asking for the position', breaks='the recycled block is assumed to have been full',
      edits=[(B, 'block->fileOffset += block->numBytesUsed;\n        block->numBytesUsed = 0;', 'block->fileOffset += block->numBytesUsed > numBytes / 2 ? numBytes : block->numBytesUsed;\n        block->numBytesUsed = 0;')],
      demo=PIPES + 'int main() { Sink s; OutStream o{borrow((OutPipe*) &s), 12}; for (int i = 0; i < 4000; i++) o.writeByte(1); o.makeBytesAvailable(200); CHECK(o.getSeekPos() == 4000); return 0; }\n'),
 dict(id='v05_flush_partial', property='V05', needs='a flush that writes part of the buffer, then more writes and another flush', breaks='from the second flush of a block on only the first 1024 new bytes are written',
      edits=[(O, 'newWritePos - this->block->numBytesUsed})) {', 'this->block->numBytesUsed > 0 ? min(newWritePos - this->block->numBytesUsed, 1024u)\n                                                                      : newWritePos})) {')],
      demo=PIPES + 'int main() { mk(3000); { Sink s; OutStream o{borrow((OutPipe*) &s), 12}; o.write({data.data(), 10}); o.flush(); o.write({data.data() + 10, 2990}); } CHECK(got == data); return 0; }\n'),
 dict(id='v06_skip_short', property='V06', needs='skipping over several partial reads where the last one delivers more than is left to skip', breaks='a long skip takes all available bytes of the last part when they are fewer than twice what is left',
      edits=[(I, 'u32 toSkip = min<u32>(numBytes, this->numBytesAvailable());', 'u32 toSkip = this->numBytesAvailable();\n        if (toSkip > numBytes && toSkip / 2 >= numBytes)\n            toSkip = numBytes;'), (I, 'numBytes -= toSkip;', 'numBytes -= min(numBytes, toSkip);')],
      demo=PIPES + 'int main() { mk(9000); part = 100; Src s; InStream i{borrow((InPipe*) &s), 12}; CHECK(i.skip(1060)); CHECK(i.getSeekPos() == 1060); CHECK(i.readByte() == (u8) data[1060]); return 0; }\n'),
 dict(id='v06_rewind_keeps_eof', property='V06', needs='reaching the end of the stream, going back, and reading on with a pipe that ended inside the block', breaks='the end flag stays set after going back when the block is not full',
      edits=[(I, 'this->status.eof = pos.block ? 0 : 1;', 'this->status.eof = pos.block && (this->status.eof == 0 || pos.block->numBytesUsed == pos.block->blockSize) ? 0 : this->status.eof;')],
      demo=PIPES + 'int main() { mk(500); Src s; InStream i{borrow((InPipe*) &s), 12}; i.readByte(); BlockList::Ref r = i.getBlockRef(); while (i.tryMakeBytesAvailable()) i.curByte = i.endByte; CHECK(i.atEOF()); i.rewind(r); CHECK(!i.atEOF()); CHECK(i.readByte() == (u8) data[1]); return 0; }\n'),
 dict(id='v06_pipe_partial', property='V06', needs='a pipe that delivers a block in three or more parts', breaks='from the third part on InPipe::read stores the bytes behind where they belong',
      edits=[('runtime/ply-runtime/io/Pipe.cpp', 'while (buf.numBytes > 0) {\n        u32 rc = this->readSome(buf);', 'u32 total = buf.numBytes;\n    while (buf.numBytes > 0) {\n        u32 rc = this->readSome(buf);\n        if (rc > 0 && buf.numBytes - rc == total / 2 && rc * 2 != total)\n            rc--;')],
      demo=PIPES + 'int main() { mk(500); part = 100; Src s; char b[400]; CHECK(s.read({b, 400})); CHECK(!memcmp(b, data.data(), 400)); return 0; }\n'),
]
