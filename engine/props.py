"""property -> harness units, and the texts from which engine/mkprops.py writes properties.jsonl and MANIFEST.json"""
TRUSTED = ['clang 18 front end and the opt passes sroa/early-cse/instsimplify/simplifycfg/inline (the proof is about their output)',
           'engine/ir.py, engine/sym.py, engine/builtins_vf.py (the VC generator)', 'z3 4.x/5.x, cvc5 1.1.2',
           'contracts of libc memcpy/memmove/memset/memcmp/strlen/memchr/malloc/realloc/free (engine/builtins_vf.py)']
ASSUMPTIONS = ['memory allocation succeeds; blocks are at most 2^47 bytes',
               'machine arithmetic is bit-precise two\'s complement; signed overflow is treated as wrapping',
               'x86-64 Linux configuration (Config.h in /verif/config: CRT heap, assertions on)',
               'distinct allocations are separate; comparisons between addresses of different blocks follow one fixed order']
RT = 'repos/plywood/src/runtime/ply-runtime/'
PROPS = {}
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mech, units, state=(), observe=(), note='', assumptions=(), bounded=()):
    """mech: list of (name, where); state: list of (name, meaning, where)"""
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                     'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                     'observe_at': list(observe), 'hook_needed': None}}
    assert len(title) <= 80, title
    PROPS[id] = {'units': units, 'text': d, 'note': note, 'assumptions': list(assumptions), 'bounded': list(bounded)}


P('V01', 'String views: search, trim, compare and split match their definitions',
  'For every byte text, searching from a start position returns the first (or last, when searching backwards) position whose byte equals or satisfies the query and -1 or the end when there is none; trimming removes exactly the longest matching prefix and/or suffix; comparison is the bytewise lexicographic total order and the operators and prefix/suffix tests agree with it; splitting at a byte yields exactly the pieces between separators, in order. '
  'No operation reads outside the viewed bytes or the view it was given.',
  ['inputs'], 'every text of any length up to the 32-bit limit, every start position, every byte and every byte predicate',
  'The string tests sample a few literals; off-by-one, sign and length-limit errors need particular lengths or bytes (0x80.., 2^31).',
  [RT + 'string/StringView.h', RT + 'string/StringView.cpp', RT + 'string/StringMixin.h'],
  [('find/rfind', RT + 'string/StringMixin.h'), ('compare', RT + 'string/StringView.cpp'), ('trim/split', RT + 'string/StringMixin.h')],
  [('strview', '.*')], observe=['results of StringView member functions'],
  note='Deductive proof, all lengths; predicates are arbitrary 256-entry tables. Split is proved piece by piece for an arbitrary piece index.')
P('V02', 'Owned strings keep their content and release every block exactly once',
  'For every history of constructing, copying, moving, assigning (also to itself), concatenating, repeating, resizing, mapping and destroying owned strings, the content is exactly what the operation defines, a source is left intact by a copy and empty by a move, and every heap block is released exactly once and never used afterwards. '
  'Hybrid strings own or borrow exactly as requested and a null-terminated copy ends with a zero byte.',
  ['inputs', 'histories'], 'all texts and lengths, all kinds of operand (empty, owned, borrowed, same object)',
  'Tests use short literals and never self-assign; a use-after-free or double free rarely changes the sampled outputs.',
  [RT + 'string/String.h', RT + 'string/String.cpp', RT + 'string/HybridString.h', RT + 'string/StringMixin.h', RT + 'string/StringView.cpp'],
  [('String', RT + 'string/String.h'), ('HybridString', RT + 'string/HybridString.h')], [('strown', '.*')],
  state=[('bytes/numBytes', 'owned heap block and its length', RT + 'string/String.h')],
  note='Deductive proof with heap ownership obligations (leak, double free, use after free); repetition is proved for any count of strings of 1, 2, 3 and 7 bytes.')
P('V03', 'Text codecs decode, encode and step back consistently for every byte sequence',
  'For every byte sequence, decoding a character as UTF-8, UTF-16 (either byte order) or raw bytes consumes between one byte and the bytes available, classifies the sequence as valid, truncated or invalid exactly by the bit patterns of the encoding, and yields the encoded code point (or the byte itself when invalid); encoding a code point and decoding it gives the same code point and length. '
  'Stepping back from the end never leaves the text and lands at the start of the last encoded character, and reversing a text by characters mirrors each encoded character as a unit.',
  ['inputs'], 'every byte sequence of any length, every code point that the encoding can represent',
  'There are 2^32 four-byte sequences; the tests decode a handful of well-formed ones.',
  [RT + 'string/TextEncoding.h', RT + 'string/TextEncoding.cpp', RT + 'string/StringMixin.h'],
  [('decodePoint/encodePoint/backNumBytes', RT + 'string/TextEncoding.cpp'), ('reversedUTF8', RT + 'string/StringView.cpp')], [('codec', '.*')],
  note='Deductive proof; reversal is proved for characters of 1 and 2 bytes (quick) and 3 bytes (thorough) at any position.')
P('V04', 'Integers survive printing and parsing exactly, in every radix and width',
  'Parsing an integer consumes an optional minus sign (signed types only) and then exactly the maximal run of digits of the radix, returns its positional value, and reports an error exactly when there is no digit or the value does not fit the type. '
  'Printing an integer of any width writes a minus sign if negative and then exactly the positional digits of its magnitude, without leading zeros, in the requested radix and letter case.',
  ['inputs'], 'all 64-bit values and all narrower integer types; numerals of every length; radices 2, 8, 10, 16, 36 (parsing), 8, 10, 16, 36 (printing)',
  'Tests print and parse a few small numbers; overflow detection and minimum values need specific inputs.',
  [RT + 'io/impl/TypeParser.cpp', RT + 'io/impl/TypeParser.h', RT + 'io/impl/FormatString.cpp', RT + 'io/impl/FormatString.h'],
  [('TypeParser<integer>', RT + 'io/impl/TypeParser.cpp'), ('printString', RT + 'io/impl/FormatString.cpp')], [('numtext', '.*')],
  note='Deductive proof; narrow and signed types are verified against the contract of the 64-bit unsigned function, which is itself verified. Printing loops have at most 64 iterations and are unrolled completely (not a bound).')
P('V05', 'Output streams deliver every byte once, in order, or report the failure',
  'For every state of a stream and every write, byte or formatted append, flush, request for contiguous space, move and destruction, the bytes accepted so far are, complete, once and in order, the bytes given to the pipe followed by those in the buffer; at destruction or flush all have been given to the pipe. '
  'A failed pipe write is reported, remembered and never followed by another; a fixed view takes exactly the bytes that fit and reports whether all did; a memory stream yields exactly the bytes written as a string. Space handed out lies inside the buffer, every block is released exactly once and an owned pipe is destroyed exactly once.',
  ['inputs', 'histories', 'fault_sequences'], 'every text length up to the 32-bit limit, every fill of the buffer, every pipe write may fail; one operation from any state, so every history of operations',
  'Tests write short texts that fit the first block, to pipes that never fail.',
  [RT + 'io/OutStream.h', RT + 'io/OutStream.cpp', RT + 'container/BlockList.h', RT + 'container/BlockList.cpp'],
  [('OutStream::write/flush/tryMakeBytesAvailable', RT + 'io/OutStream.cpp'), ('BlockList', RT + 'container/BlockList.cpp')], [('outs', '.*')],
  state=[('block/curByte/endByte/status', 'buffer, write position and failure flag', RT + 'io/OutStream.h')],
  note='Deductive proof with a loop invariant over the history (an arbitrary byte position is followed to the pipe); writes are verified against the contract of tryMakeBytesAvailableInternal, which is itself verified; the heap layout of blocks is verified by createBlock.',
  bounded=['memString2: moving a memory stream of two or three blocks (any fill) to a string; longer chains of blocks are not covered (stated bound: 3 blocks). One block is proved.'])
P('V06', 'Input streams deliver exactly the bytes of their source, in order, up to its end',
  'For every state of a stream, every split of the source into partial reads and every request, reading a block, a byte, skipping and making bytes available deliver the next bytes of the source in order and without loss or repetition, advance the position by exactly the number of bytes taken, and report the end exactly when the source has fewer bytes than requested (the rest of the destination is zero). '
  'Requested bytes are contiguous and inside the buffer at an unchanged position, also when they span blocks after going back; going back to a remembered position makes the same bytes readable again; a moved-from stream is at its end, every block is released exactly once and an owned pipe is destroyed exactly once.',
  ['inputs', 'histories', 'schedules'], 'every source up to 2^32 bytes, every sequence of partial reads by the pipe, every buffer fill and request size; one operation from any state (with up to two blocks from the position on)',
  'Tests read small literals from views; partial pipe reads at block ends and rewinding across blocks never occur.',
  [RT + 'io/InStream.h', RT + 'io/InStream.cpp', RT + 'container/BlockList.h', RT + 'container/BlockList.cpp', RT + 'io/Pipe.cpp'],
  [('InStream::read/skip/tryMakeBytesAvailable/rewind', RT + 'io/InStream.cpp'), ('InPipe::read', RT + 'io/Pipe.cpp')], [('ins', '.*')],
  state=[('block/curByte/endByte/status', 'buffer, read position and end flag', RT + 'io/InStream.h')],
  note='Deductive proof with loop invariants; read, skip and readByte are verified against the contract of tryMakeBytesAvailableInternal, which is itself verified for one block and for a rewound stream whose current block is followed by another one (any overlap; a request that starts inside the first block and runs past the second one is proved in the thorough check).',
  assumptions=['pipes return at most the bytes asked for and 0 exactly at the end of the source'])
P('V08', 'Paths are split and converted without losing or inventing anything',
  'For every path and both path formats, classification (separator, drive letter, absolute, relative) follows the format; splitting yields a name without separators and a directory that together with dropped separators is the whole path, where only a root keeps its separator; '
  'splitting off the extension yields two parts that together are the whole path, the extension being empty or starting at a dot that is the last one of the last component and not its first byte. Splitting into all components keeps every byte except separators, in order, with the root first. Converting between formats changes separators and nothing else.',
  ['inputs'], 'every path of up to 2^31 bytes (conversion: 2^30), both formats',
  'Tests use a dozen short paths; repeated separators, drive roots in the other format, hidden files and runs of separators at either end are not sampled together.',
  [RT + 'filesystem/Path.h', RT + 'filesystem/Path.cpp'],
  [('PathFormat::split/splitExt/splitFull/from', RT + 'filesystem/Path.cpp')], [('paths', '.*')], observe=['results of PathFormat member functions'],
  note='Deductive proof with loop invariants for classification, split, splitExt and from (the copy made by from is used by the contract of String(StringView), proved in V02). joinAndNormalize and makeRelative are not covered.',
  bounded=['smallExt: that an extension is never missed, paths of at most 6 bytes', 'smallFull: splitFull, paths of at most 5 bytes'])
P('V09', 'Arrays keep their items, their order and their ownership through every change',
  'For every array contents and capacity, appending, extending, inserting, erasing, resizing, copying, moving, assigning (also an array or a part of it to itself), concatenating, adopting a block and clearing leave exactly the items the operation defines, in the defined order; items outside the affected range are unchanged. '
  'Every item is constructed and destructed exactly once, storage always has room for the capacity it records, and every heap block is released exactly once. Array views address exactly the items they name, and array equality is item by item.',
  ['inputs', 'histories'], 'every array of up to 2^26 items and every position and count; from any such state one operation, so every history of operations',
  'Tests append a few items and never erase near the end, insert in a full array, self-assign or count destructor calls.',
  [RT + 'container/Array.h', RT + 'container/ArrayView.h', RT + 'container/Subst.h', RT + 'container/details/BaseArray.cpp'],
  [('Array', RT + 'container/Array.h'), ('ArrayView', RT + 'container/ArrayView.h'), ('BaseArray', RT + 'container/details/BaseArray.cpp')], [('array', '.*')],
  state=[('items/numItems_/allocated', 'block, item count and capacity', RT + 'container/Array.h')],
  note='Deductive proof with loop invariants over item construction and destruction; items with constructors are one byte wide and record how often an arbitrary item value is constructed and destructed; plain items are 4 bytes wide.')
P('V12', 'Times convert to calendar dates and back without loss, before and after 1970',
  'For every 64-bit count of microseconds since 1970 (days rounded towards the past), conversion yields the proleptic Gregorian date of that day with month and day in range, the right weekday (1 January 1970 is a Thursday) and the time of day, and converting back gives the same count. '
  'The day number of every valid date is the one defined by the calendar.',
  ['inputs'], 'every microsecond count within 106751990 days of 1970 (the 64-bit range but for its outermost day), every valid date of the years -296000 to 296000',
  'Tests convert one or two present-day times; leap-year, century and negative-time errors need particular days.',
  [RT + 'time/DateTime.cpp', RT + 'time/DateTime.h'], [('DateTime::fromEpochMicroseconds/toEpochMicroseconds', RT + 'time/DateTime.cpp')],
  [('datetime', '.*')],
  note='Deductive proof: the calendar is proved for all days of one 400-year cycle (one case per year, the day is symbolic), for every other cycle by proving that results repeat, the weekday for every day by its period; the time of day is proved against the contracts of the two day functions.')


def NA(id, title, statement, over, text, why, files, mech, reason):
    NOT_APPLICABLE.append({'reason': reason, 'text': {
        'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
        'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'state': [], 'observe_at': [], 'hook_needed': None}}})


NA('V10', 'Hash maps find exactly the items that were inserted and not erased',
   'After every history of insertions, lookups, erasures and growth, looking up a key finds the item inserted with it exactly if it has not been erased, and every item is constructed and destructed once.',
   ['inputs', 'histories'], 'every history of operations, every hash function', 'Tests insert a few dozen keys; probe chains that wrap, collide and are erased in the middle need particular hashes.',
   [RT + 'container/HashMap.h', RT + 'container/HashMap.cpp'], [('insertOrFind/erase', RT + 'container/HashMap.cpp')],
   'The invariant (every cell is on the probe chain of its bucket) is a reachability property of chains threaded through one array; the verifier here has no quantified invariants, only facts at ghost indices, which cannot follow a chain. Reading the code shows that erase() and findNext() ignore the item size when they step to another group.')
NA('V13', 'Sorting yields an ordered permutation',
   'Sorting leaves every item exactly once and in the order of the given comparison, for every array and every strict weak order.',
   ['inputs'], 'every array length and contents, every strict weak order', 'Tests sort a few short arrays without many equivalent items.',
   [RT + 'algorithm/Sort.h'], [('sort', RT + 'algorithm/Sort.h')],
   'Attempted: with move hooks, a contract for the recursive calls and pivot invariants the permutation part was discharged (40 s), but the order obligation (the pivot is read again after the first recursive call) was not discharged within 1000 s of solver time. No check is registered rather than a half of the property.')
NA('V20', 'Threads, locks and lazily built global tables are free of data races',
   'Mutexes exclude, condition variables and events wake their waiters, affinity and label tables are consistent when used by several threads.',
   ['schedules'], 'every interleaving', 'Tests run one schedule.', [RT + 'thread/Mutex.h', RT + 'thread/impl/Mutex_POSIX.h'], [('Mutex', RT + 'thread/Mutex.h')],
   'The verifier checks sequential contracts; it has no thread-modular logic, and the primitives are thin wrappers of pthreads, whose contracts would be assumed.')
NA('V21', 'The heap never hands out overlapping blocks',
   'Blocks in use never overlap, keep their contents and are reusable after release.',
   ['histories'], 'every history of alloc, realloc and free', 'Tests allocate a few blocks.', [RT + 'memory/Heap.h', RT + 'memory/impl/Heap_DL.cpp'], [('Heap_t', RT + 'memory/impl/Heap_DL.cpp')],
   'The allocator (dlmalloc) threads its state through untyped memory with pointer arithmetic across block borders; this memory model keeps blocks apart by construction, so it cannot express the claim.')
NA('V22', 'Floating-point numbers survive printing and parsing',
   'Printing a double and parsing the text gives a double that is equal up to the printed precision.',
   ['inputs'], 'every double', 'Tests print a few values.', [RT + 'io/impl/FormatString.cpp', RT + 'io/impl/TypeParser.cpp'], [('printString', RT + 'io/impl/FormatString.cpp')],
   'The code chains dozens of double multiplications and pow(); bit-blasted floating-point queries of that size do not terminate, and pow has no usable contract.')
NA('V23', 'File-system operations never damage existing files when they fail',
   'Saving a file either leaves the old contents or the complete new contents.',
   ['crash_points', 'fault_sequences'], 'every failing system call', 'Tests run on a working disk.', [RT + 'filesystem/FileSystem.cpp'], [('makeDirsAndSaveTextIfDifferent', RT + 'filesystem/FileSystem.cpp')],
   'The claim is about the state of the disk between system calls; contracts for the kernel would be assumptions, and nothing would be left to prove.')
