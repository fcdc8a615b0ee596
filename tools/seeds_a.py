H = '''#include <ply-runtime/Precomp.h>
#include <ply-runtime/io/InStream.h>
#include <ply-runtime/io/OutStream.h>
#include <ply-runtime/container/Array.h>
#include <ply-runtime/string/TextEncoding.h>
#include <stdio.h>
#include <string.h>
#include <string>
using namespace ply;
#define CHECK(c) do { if (!(c)) { printf("failed: %s (line %d)\\n", #c, __LINE__); return 1; } } while (0)
'''
SEEDS = [
 dict(id='v01_compare_signed', property='V01', needs='two texts whose first difference involves a byte of 0x80 or more',
      breaks='comparison is no longer the unsigned bytewise order', edits=[('runtime/ply-runtime/string/StringView.cpp', '''    const u8* u0 = (const u8*) a.bytes;
    const u8* u1 = (const u8*) b.bytes;
    const u8* uEnd0 = u0 + compareBytes;''', '''    const char* u0 = a.bytes;
    const char* u1 = b.bytes;
    const char* uEnd0 = u0 + compareBytes;''')],
      demo=H + 'int main() { CHECK(compare("abc", "ab\\xc3") < 0); CHECK(StringView{"\\x80"} > StringView{"\\x7f"}); return 0; }\n'),
 dict(id='v01_split_sep_first', property='V01', needs='a separator that is the last byte, preceded by another separator',
      breaks='splitting drops or invents pieces', edits=[('runtime/ply-runtime/string/StringView.cpp', '''                result.append(StringView::fromRange(splitStart, cur));
                splitStart = nullptr;
            }
        } else {''', '''                result.append(StringView::fromRange(splitStart, cur));
                splitStart = (cur + 1 < end && cur[1] == sep) ? cur + 1 : nullptr;
            }
        } else {''')],
      demo=H + 'int main() { Array<StringView> a = StringView{"a,,b"}.splitByte(\',\'); CHECK(a.numItems() == 2); CHECK(a[0] == "a" && a[1] == "b"); return 0; }\n'),
 dict(id='v03_back_three', property='V03', needs='three continuation bytes at the end with a lead byte of a 3-byte sequence before them',
      breaks='stepping back consumes continuation bytes that do not belong to the character', edits=[('runtime/ply-runtime/string/TextEncoding.cpp', '''                if ((tail[-3] & 0xf0) == 0xe0)
                    return 3;''', '''                if ((tail[-3] & 0xe0) == 0xe0)
                    return 3;''')],
      demo=H + 'int main() { CHECK(UTF8::backNumBytes(StringView{"a\\xe2\\x82\\xac", 4}) == 3); CHECK(UTF8::backNumBytes(StringView{"a\\xf1\\x82\\xac", 4}) == 1); return 0; }\n'),
 dict(id='v04_overflow_small_radix', property='V04', needs='a numeral just above 2^64 whose leading digits are exactly the limit',
      breaks='overflow is not reported for some too large numerals', edits=[('runtime/ply-runtime/io/impl/TypeParser.cpp', 'result > (Limits<u64>::Max - digit) / radix.base', 'result > Limits<u64>::Max / radix.base')],
      demo=H + '''int main() { { ViewInStream i{StringView{"18446744073709551615"}}; CHECK(i.parse<u64>() == 18446744073709551615ull && !i.anyParseError()); }
 { ViewInStream i{StringView{"18446744073709551616"}}; i.parse<u64>(); CHECK(i.anyParseError()); } return 0; }\n'''),
 dict(id='v02_assign_view_of_self', property='V02', needs='a string assigned from a view of part of itself', breaks='reads the released block',
      edits=[('runtime/ply-runtime/string/String.h', '''    template <typename = void>
    PLY_INLINE void operator=(StringView other) {
        char* bytesToFree = this->bytes;
        new (this) String{other};
        if (bytesToFree) {
            PLY_HEAP.free(bytesToFree);
        }
    }''', '''    template <typename = void>
    PLY_INLINE void operator=(StringView other) {
        this->~String();
        new (this) String{other};
    }''')], asan=True,
      demo=H + 'int main() { String s = "hello world"; s = s.view().subStr(6); CHECK(s == "world"); return 0; }\n'),
]
