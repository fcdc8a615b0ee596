From 89e91a95a83cabc73e0c6e9c21b69a1a2df3af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:46 +0000
Subject: [PATCH 1/7] fix: String copy assignment reads freed memory when a
 string is assigned to itself

---
 repos/plywood/src/runtime/ply-runtime/string/String.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/string/String.h b/repos/plywood/src/runtime/ply-runtime/string/String.h
index a42cd5c..50eb045 100644
--- a/repos/plywood/src/runtime/ply-runtime/string/String.h
+++ b/repos/plywood/src/runtime/ply-runtime/string/String.h
@@ -110,8 +110,12 @@ struct String : StringMixin<String> {
     is reset to an empty string.
     */
     PLY_INLINE void operator=(const String& other) {
-        this->~String();
+        // other may be this String, so copy it before the old memory block is freed
+        char* bytesToFree = this->bytes;
         new (this) String{other.view()};
+        if (bytesToFree) {
+            PLY_HEAP.free(bytesToFree);
+        }
     }
     PLY_INLINE void operator=(String&& other) {
         this->~String();
-- 
2.43.0


From dc28b21fb2853dfa48b8db559e29c896d6c20c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:46 +0000
Subject: [PATCH 2/7] fix: compare() gives the wrong sign when lengths differ
 by 2^31 bytes or more

---
 repos/plywood/src/runtime/ply-runtime/string/StringView.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/string/StringView.cpp b/repos/plywood/src/runtime/ply-runtime/string/StringView.cpp
index 2630f10..67b5680 100644
--- a/repos/plywood/src/runtime/ply-runtime/string/StringView.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/string/StringView.cpp
@@ -166,7 +166,10 @@ PLY_NO_INLINE s32 compare(StringView a, StringView b) {
         u0++;
         u1++;
     }
-    return a.numBytes - b.numBytes;
+    // Don't subtract; the lengths may differ by more than an s32 can represent
+    if (a.numBytes == b.numBytes)
+        return 0;
+    return (a.numBytes < b.numBytes) ? -1 : 1;
 }
 
 PLY_NO_INLINE String operator+(StringView a, StringView b) {
-- 
2.43.0


From 30b8e51d799471b6ae75b0fbb7c899c906207da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 3/7] fix: UTF-8 decoder reports stray continuation bytes as
 truncated instead of invalid

---
 repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp b/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
index 097ec1f..d662fd1 100644
--- a/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
@@ -62,6 +62,8 @@ PLY_NO_INLINE DecodeResult UTF8::decodePointSlowPath(StringView view) {
         }
 
         default:
+            // Not a lead byte; no amount of additional input would make it valid
+            result.status = DecodeResult::Status::Invalid;
             break;
     }
 
-- 
2.43.0


From a40a099731b928e8d11ae34d571cd0843376e450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:43 +0000
Subject: [PATCH 4/7] fix: dates before 1970 get the wrong day when the time is
 not midnight, and every weekday is one off

---
 repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp b/repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp
index 15297d1..6deaa5c 100644
--- a/repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp
@@ -50,7 +50,7 @@ PLY_INLINE T floorDiv(T dividend, T divisor) {
     PLY_STATIC_ASSERT(std::is_arithmetic<T>::value);
     PLY_ASSERT(divisor > 0);
     if (dividend < 0) {
-        dividend += divisor - 1;
+        dividend -= divisor - 1;
     }
     return dividend / divisor;
 }
@@ -69,7 +69,7 @@ void setDateFromEpochDays(DateTime* dateTime, s32 days) {
     dateTime->year = y + (m <= 2);
     dateTime->month = safeDemote<u8>(m);
     dateTime->day = safeDemote<u8>(d);
-    dateTime->weekday = safeDemote<u8>(days >= -4 ? (days + 4) % 7 : (days + 5) % 7 + 6);
+    dateTime->weekday = safeDemote<u8>(days >= -3 ? (days + 3) % 7 : (days + 4) % 7 + 6);
 }
 
 // Based on http://howardhinnant.github.io/date_algorithms.html
-- 
2.43.0


From 06eb22d0612099edbef64933e621b2d705c4e75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:01 +0000
Subject: [PATCH 5/7] fix: Array: self-assignment, eraseQuick near the end,
 capacity of adopted arrays

---
 .../src/runtime/ply-runtime/container/Array.h | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Array.h b/repos/plywood/src/runtime/ply-runtime/container/Array.h
index 421a2dd..a99a2ef 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Array.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Array.h
@@ -50,7 +50,7 @@ private:
     template <typename>
     friend class Array;
 
-    PLY_INLINE Array(T* items, u32 numItems, u32 allocator)
+    PLY_INLINE Array(T* items, u32 numItems, u32 allocated)
         : items{items}, numItems_{numItems}, allocated{allocated} {
     }
 
@@ -139,10 +139,8 @@ public:
         arr = other;
     */
     PLY_INLINE void operator=(const Array& other) {
-        ArrayView<T> arrayToFree = {this->items, this->numItems_};
-        new (this) Array{other};
-        subst::destructArray(arrayToFree.items, arrayToFree.numItems);
-        PLY_HEAP.free(arrayToFree.items);
+        // The copy is complete before the old items are released; other could be this Array.
+        *this = Array{other};
     }
 
     /*!
@@ -189,10 +187,8 @@ public:
     */
     template <typename Other, typename = details::ArrayViewType<Other>>
     PLY_INLINE void operator=(Other&& other) {
-        ArrayView<T> arrayToFree = {this->items, this->numItems_};
-        new (this) Array{std::forward<Other>(other)};
-        subst::destructArray(arrayToFree.items, arrayToFree.numItems);
-        PLY_HEAP.free(arrayToFree.items);
+        // The copy is complete before the old items are released; other could be this Array.
+        *this = Array{std::forward<Other>(other)};
     }
 
     /*!
@@ -470,8 +466,9 @@ public:
 
     /*!
     \beginGroup
-    Destructs `count` array items starting at offset `pos`. The last `count` items in the array are
-    moved to the space previously occupied by the erased items. The size of the array then shrinks
+    Destructs `count` array items starting at offset `pos`. The last `count` items in the array (or
+    all items after the erased ones, if there are fewer) are moved to the space previously occupied
+    by the erased items. The size of the array then shrinks
     by `count`.
 
     When the array is large and number of erased items is small, `eraseQuick()` is typically faster
@@ -487,9 +484,11 @@ public:
     PLY_NO_INLINE void eraseQuick(u32 pos, u32 count) {
         PLY_ASSERT(pos + count <= this->numItems_);
         subst::destructArray(this->items + pos, count);
+        // There may be fewer than count items left after the erased ones:
+        u32 numToMove = min(count, this->numItems_ - (pos + count));
         memmove(static_cast<void*>(this->items + pos),
-                static_cast<const void*>(this->items + this->numItems_ - count),
-                count * sizeof(T)); // Underlying type is relocatable
+                static_cast<const void*>(this->items + (this->numItems_ - numToMove)),
+                numToMove * sizeof(T)); // Underlying type is relocatable
         this->numItems_ -= count;
     }
     /*!
-- 
2.43.0


From 3f72b8189657f65e5c7599373f903b2f8be30e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:55 +0000
Subject: [PATCH 6/7] fix: OutStream: write of 2 GB or more, and destruction
 after a failed request for bytes

---
 repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp | 3 ++-
 repos/plywood/src/runtime/ply-runtime/io/OutStream.h   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp b/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp
index 85938ed..cc052eb 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp
@@ -60,7 +60,8 @@ PLY_NO_INLINE bool OutStream::flushInternal() {
         return true;
 
     // this->block->numBytesUsed is the last flushed offset
-    PLY_ASSERT(this->endByte == this->block->bytes + this->block->blockSize);
+    // (After an error, endByte is moved back to prevent further writing.)
+    PLY_ASSERT(this->status.eof || this->endByte == this->block->bytes + this->block->blockSize);
     u32 newWritePos = safeDemote<u32>(this->curByte - this->block->bytes);
     PLY_ASSERT(newWritePos >= this->block->numBytesUsed);
     PLY_ASSERT(newWritePos <= this->block->blockSize);
diff --git a/repos/plywood/src/runtime/ply-runtime/io/OutStream.h b/repos/plywood/src/runtime/ply-runtime/io/OutStream.h
index 3bc3866..60b50ca 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/OutStream.h
+++ b/repos/plywood/src/runtime/ply-runtime/io/OutStream.h
@@ -233,7 +233,7 @@ public:
     */
     PLY_INLINE bool write(StringView src) {
         // FIXME: Re-add race detection
-        if ((s32) src.numBytes > this->endByte - this->curByte) {
+        if (src.numBytes > uptr(this->endByte - this->curByte)) {
             return writeSlowPath(src);
         }
         memcpy(this->curByte, src.bytes, src.numBytes);
-- 
2.43.0


From b847b71ea5ee4cdca0434245cdb3d8b6ad3fa6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:55 +0000
Subject: [PATCH 7/7] fix: InStream: keep unread bytes when a block is too
 small, expose overlay blocks, read what is left at the end

---
 .../ply-runtime/container/BlockList.cpp       |  6 +-
 .../src/runtime/ply-runtime/io/InStream.cpp   | 64 ++++++++++---------
 .../src/runtime/ply-runtime/io/InStream.h     |  4 +-
 3 files changed, 40 insertions(+), 34 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp b/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
index f505e16..e0abd6b 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
@@ -33,9 +33,9 @@ PLY_NO_INLINE BlockList::WeakRef BlockList::Footer::weakRefToNext() const {
     BlockList::WeakRef result;
     result.block = this->nextBlock;
     if (result.block) {
-        u32 fileDelta = safeDemote<u32>((s64) result.block->fileOffset - this->fileOffset);
-        PLY_ASSERT(fileDelta <= this->numBytesUsed);
-        result.byte = result.block->bytes + (this->numBytesUsed - fileDelta);
+        // The next block may begin at an earlier file offset than this one.
+        result.byte = result.block->bytes + safeDemote<u32>(this->fileOffset + this->numBytesUsed -
+                                                            result.block->fileOffset);
         PLY_ASSERT(result.block->viewUsedBytes().contains(result.byte));
     }
     return result;
diff --git a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
index ca9a764..44eb229 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
@@ -86,21 +86,19 @@ PLY_NO_INLINE u32 InStream::tryMakeBytesAvailableInternal(u32 numRequestedBytes)
                 // Copy unread data to overlayBlock (creating overlayBlock first, if needed).
                 if (!overlayBlock) {
                     PLY_ASSERT(numBytesNeededToCompleteRequest == numRequestedBytes);
-                    overlayBlock = BlockList::createOverlayBlock({this->block, this->block->bytes},
-                                                                 numRequestedBytes);
-                }
-                if (overlayBlock) {
-                    memcpy(overlayBlock->bytes + numRequestedBytes -
-                               numBytesNeededToCompleteRequest,
-                           this->curByte, numUnreadBytesInCurrentBlock);
+                    overlayBlock = BlockList::createOverlayBlock(
+                        {this->block, const_cast<char*>(this->curByte)},
+                        max(numRequestedBytes, this->getBlockSize()));
                 }
+                memcpy(overlayBlock->bytes + numRequestedBytes - numBytesNeededToCompleteRequest,
+                       this->curByte, numUnreadBytesInCurrentBlock);
                 numBytesNeededToCompleteRequest -= numUnreadBytesInCurrentBlock;
             }
             // Advance to next block.
             BlockList::Footer* nextBlock = this->block->nextBlock;
-            u32 offsetIntoNextBlock =
-                this->block->numBytesUsed -
-                safeDemote<u32>(nextBlock->fileOffset - this->block->fileOffset);
+            // (The next block may begin at an earlier file offset than an overlay block.)
+            u32 offsetIntoNextBlock = safeDemote<u32>(
+                this->block->fileOffset + this->block->numBytesUsed - nextBlock->fileOffset);
             this->block = nextBlock;
             PLY_ASSERT(offsetIntoNextBlock <= nextBlock->numBytesUsed);
             this->curByte = nextBlock->bytes + offsetIntoNextBlock;
@@ -108,10 +106,22 @@ PLY_NO_INLINE u32 InStream::tryMakeBytesAvailableInternal(u32 numRequestedBytes)
         } else {
             u32 unreadStorageInCurrentBlock = safeDemote<u32>(this->block->end() - this->curByte);
             if (unreadStorageInCurrentBlock < numBytesNeededToCompleteRequest) {
-                // Append a new block
-                BlockList::appendBlockWithRecycle(this->block, max(numBytesNeededToCompleteRequest, this->getBlockSize()));
+                // Append a new block. If there are unread bytes in the current block, the new block
+                // begins with a copy of them.
+                u32 newBlockSize = max(numBytesNeededToCompleteRequest, this->getBlockSize());
+                if (numUnreadBytesInCurrentBlock == 0) {
+                    BlockList::appendBlockWithRecycle(this->block, newBlockSize);
+                } else {
+                    Reference<BlockList::Footer> newBlock = BlockList::createOverlayBlock(
+                        {this->block, const_cast<char*>(this->curByte)}, newBlockSize);
+                    memcpy(newBlock->bytes, this->curByte, numUnreadBytesInCurrentBlock);
+                    newBlock->numBytesUsed = numUnreadBytesInCurrentBlock;
+                    newBlock->prevBlock = this->block;
+                    this->block->nextBlock = newBlock;
+                    this->block = std::move(newBlock);
+                }
                 this->curByte = this->block->bytes;
-                this->endByte = this->block->bytes; // nothing written to this block yet
+                this->endByte = this->block->unused();
             }
             // Current block has enough storage to fulfill the remainder of the request.
             break;
@@ -141,20 +151,22 @@ PLY_NO_INLINE u32 InStream::tryMakeBytesAvailableInternal(u32 numRequestedBytes)
         PLY_ASSERT(this->endByte == this->block->unused());
     }
 
-    u32 numBytesToReturn =
-        numRequestedBytes - numBytesNeededToCompleteRequest + numBytesAvailableToReadInBlock;
-
-    // If we created a overlayBlock, finish copying data to it now, and expose the overlayBlock to
+    // If we created an overlayBlock, finish copying data to it now, and expose the overlayBlock to
     // the caller.
     if (overlayBlock) {
-        PLY_ASSERT(numBytesNeededToCompleteRequest > 0);
-        memcpy(overlayBlock->bytes + numRequestedBytes - numBytesNeededToCompleteRequest,
-               this->curByte, numBytesNeededToCompleteRequest);
-        this->curByte = overlayBlock->bytes;
-        this->endByte = overlayBlock->bytes + numBytesToReturn;
+        u32 numBytesToCopy = min(numBytesNeededToCompleteRequest, numBytesAvailableToReadInBlock);
+        u32 numBytesInOverlay = numRequestedBytes - numBytesNeededToCompleteRequest + numBytesToCopy;
+        memcpy(overlayBlock->bytes + (numBytesInOverlay - numBytesToCopy), this->curByte,
+               numBytesToCopy);
+        overlayBlock->numBytesUsed = numBytesInOverlay;
+        overlayBlock->nextBlock = this->block;
+        this->block = std::move(overlayBlock);
+        this->curByte = this->block->bytes;
+        this->endByte = this->block->unused();
+        return numBytesInOverlay;
     }
 
-    return numBytesToReturn;
+    return numBytesAvailableToReadInBlock;
 }
 
 PLY_NO_INLINE u64 InStream::getSeekPos() const {
@@ -183,9 +195,6 @@ PLY_NO_INLINE void InStream::rewind(const BlockList::WeakRef& pos) {
 }
 
 PLY_NO_INLINE bool InStream::readSlowPath(MutableStringView dst) {
-    if (this->status.eof)
-        return false;
-
     while (dst.numBytes > 0) {
         if (!this->tryMakeBytesAvailable()) {
             memset(dst.bytes, 0, dst.numBytes);
@@ -201,9 +210,6 @@ PLY_NO_INLINE bool InStream::readSlowPath(MutableStringView dst) {
 }
 
 PLY_NO_INLINE bool InStream::skipSlowPath(u32 numBytes) {
-    if (this->status.eof)
-        return false;
-
     while (numBytes > 0) {
         if (!this->tryMakeBytesAvailable()) {
             return false;
diff --git a/repos/plywood/src/runtime/ply-runtime/io/InStream.h b/repos/plywood/src/runtime/ply-runtime/io/InStream.h
index 3127bd6..4016b8b 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/InStream.h
+++ b/repos/plywood/src/runtime/ply-runtime/io/InStream.h
@@ -243,7 +243,7 @@ public:
         // implement memcpy() as a MOV:
         memcpy(dst.bytes, this->curByte, dst.numBytes);
         this->curByte += dst.numBytes;
-        return this->status.eof == 0;
+        return true;
     }
 
     PLY_DLL_ENTRY bool skipSlowPath(u32 numBytes);
@@ -259,7 +259,7 @@ public:
             return this->skipSlowPath(numBytes);
         }
         this->curByte += numBytes;
-        return this->status.eof == 0;
+        return true;
     }
 
     /*!
-- 
2.43.0

