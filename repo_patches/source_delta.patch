From b99062de01ccff50f9652a16c5a03b80cb5fc0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 01/31] fix: UnicodeSet union merges adjacent ranges

_addList left two touching ranges unmerged when the second came from the
other set, so equal sets compared unequal.
---
 UnicodeData/UnicodeSet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index e81737e..b4fba62 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -252,7 +252,7 @@ class UnicodeSet(object):
                     i += 1
                     polarity ^= 1
                 elif b < a: # take b
-                    if len(buffer) > 0 and b < buffer[-1]:
+                    if len(buffer) > 0 and b <= buffer[-1]:
                         b = max(other[j], buffer.pop())
                     else:
                         buffer.append(b)
@@ -263,7 +263,7 @@ class UnicodeSet(object):
                 else: # a == b: take a, drop b
                     if a == UNICODE_SET_HIGH:
                         break
-                    if len(buffer) > 0 and a < buffer[-1]:
+                    if len(buffer) > 0 and a <= buffer[-1]:
                         a = max(self.list[i], buffer.pop())
                     else:
                         buffer.append(a)
-- 
2.43.0


From 7530278bbe6e1cac70fdc61d41bb7ad97eb28f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 02/31] fix: UnicodeSet.addRange returns self on the fast path

---
 UnicodeData/UnicodeSet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index b4fba62..472c9cd 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -444,7 +444,7 @@ class UnicodeSet(object):
                             self.list.extend([limit, UNICODE_SET_HIGH])
                         else:
                             self.list.append(UNICODE_SET_HIGH)
-                    return
+                    return self
 
             # This is slow. Could be much faster using findCodePoint(start)
             # and modifying the list, dealing with adjacent & overlapping ranges.
-- 
2.43.0


From 3452b94ac6ffc6992570654662b18d825e066cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 03/31] fix: UnicodeSet remove, retain and complement of a
 single code point

The range methods ignored ranges of length one, so remove(cp), retain(cp)
and complement(cp) did nothing; retaining an empty range now empties the set.
---
 UnicodeData/UnicodeSet.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 472c9cd..7f872b0 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -472,7 +472,7 @@ class UnicodeSet(object):
         :param end: the last code point in the range to remove.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if _pinCodePoint(start) <= _pinCodePoint(end):
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._retainList(other, 2) # polarity == 2 means set minus
 
@@ -504,9 +504,11 @@ class UnicodeSet(object):
         :param end: the last code point in the range to intersect.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if _pinCodePoint(start) <= _pinCodePoint(end):
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._retainList(other, 0) # polarity == 0: intersect
+        else:
+            self.clear()
 
         return self
 
@@ -539,7 +541,7 @@ class UnicodeSet(object):
         :param end: the last code point in the range.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if _pinCodePoint(start) <= _pinCodePoint(end):
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._exclusiveOrList(other)
 
-- 
2.43.0


From 7cab9e3bbbbd9f0041d6d6f956c7a3f37e0a0217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 04/31] fix: UnicodeSet pins out-of-range code points

The pinned values were computed but not used, so code points outside
U+0000..U+10FFFF corrupted the inversion list.
---
 UnicodeData/UnicodeSet.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 7f872b0..e6894d4 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -397,7 +397,8 @@ class UnicodeSet(object):
         :param cp: the code point to add.
         :return: self, to support chaining.
         """
-        i = self._findCodePoint(_pinCodePoint(cp))
+        cp = _pinCodePoint(cp)
+        i = self._findCodePoint(cp)
 
         if (i & 1) != 0:
             return self
@@ -426,7 +427,9 @@ class UnicodeSet(object):
         :param end: the last code point in the range to add.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if start < end:
+            start = _pinCodePoint(start)
+            end = _pinCodePoint(end)
             length = len(self.list)
             limit = end + 1
 
@@ -472,8 +475,8 @@ class UnicodeSet(object):
         :param end: the last code point in the range to remove.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) <= _pinCodePoint(end):
-            other = [start, end + 1, UNICODE_SET_HIGH]
+        if start <= end:
+            other = [_pinCodePoint(start), _pinCodePoint(end) + 1, UNICODE_SET_HIGH]
             self._retainList(other, 2) # polarity == 2 means set minus
 
         return self
@@ -504,8 +507,8 @@ class UnicodeSet(object):
         :param end: the last code point in the range to intersect.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) <= _pinCodePoint(end):
-            other = [start, end + 1, UNICODE_SET_HIGH]
+        if start <= end:
+            other = [_pinCodePoint(start), _pinCodePoint(end) + 1, UNICODE_SET_HIGH]
             self._retainList(other, 0) # polarity == 0: intersect
         else:
             self.clear()
@@ -541,8 +544,8 @@ class UnicodeSet(object):
         :param end: the last code point in the range.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) <= _pinCodePoint(end):
-            other = [start, end + 1, UNICODE_SET_HIGH]
+        if start <= end:
+            other = [_pinCodePoint(start), _pinCodePoint(end) + 1, UNICODE_SET_HIGH]
             self._exclusiveOrList(other)
 
         return self
-- 
2.43.0


From 35ddb84837145173f66313d25ab741f50e10ea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 05/31] fix: UnicodeSet constructor builds a well-formed list

U+10FFFF, ranges up to it and empty ranges gave a malformed inversion list.
---
 UnicodeData/UnicodeSet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index e6894d4..8d86ace 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -706,9 +706,11 @@ class UnicodeSet(object):
         elif type(arg) is UnicodeSet:
             self.list = arg.list.copy()
         elif type(arg) is int:
-            self.list = [arg, arg + 1, UNICODE_SET_HIGH]
+            self.list = [UNICODE_SET_HIGH]
+            self.add(arg)
         elif type(arg) is range:
-            self.list = [arg.start, arg.stop, UNICODE_SET_HIGH]
+            self.list = [UNICODE_SET_HIGH]
+            self.addRange(arg.start, arg.stop - 1)
         else:
             raise(TypeError("Argument type must be UnicodeSet, int or range."))
 
-- 
2.43.0


From 4521c4691c1071107ebe8314f8c42a9739060fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 06/31] fix: UnicodeSet.contains is False above U+10FFFF

---
 UnicodeData/UnicodeSet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 8d86ace..7ddd31f 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -601,7 +601,7 @@ class UnicodeSet(object):
         """
         if type(arg) is int:
             i = self._findCodePoint(arg)
-            return (i & 1) != 0
+            return (i & 1) != 0 and arg < UNICODE_SET_HIGH
         elif type(arg) is range:
             start = arg.start
             end = arg.stop - 1
-- 
2.43.0


From 87b2e51a462a1f8991f875f5760e3bc207182b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 07/31] fix: UnicodeSet compares unequal to objects that are
 not sets

---
 UnicodeData/UnicodeSet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 7ddd31f..aa42ab7 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -652,8 +652,10 @@ class UnicodeSet(object):
         return result.complementAll(other)
 
     def __eq__(self, other: object):
-        otherSet = typing.cast(UnicodeSet, other)
-        return self.list == otherSet.list
+        if not isinstance(other, UnicodeSet):
+            return NotImplemented
+
+        return self.list == other.list
 
     def __ne__(self, other: object):
         return not self == other
-- 
2.43.0


From cc83e7f765a7ebb9df73fb42fe137fb56e36bf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 08/31] fix: UTrie2 lookup of U+10FFFF

U+10FFFF got the out-of-range error value instead of its own value.
---
 UnicodeData/Utrie2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/Utrie2.py b/UnicodeData/Utrie2.py
index 54846cc..fbd3a86 100644
--- a/UnicodeData/Utrie2.py
+++ b/UnicodeData/Utrie2.py
@@ -86,7 +86,7 @@ class UTrie2(object):
             offset = 0 if c >= 0xDC00 else self.LSCP_INDEX_2_OFFSET - (0xD800 >> self.SHIFT_2)
             return self.indexRaw(offset, c)
 
-        if c >= 0x10FFFF:
+        if c > 0x10FFFF:
             return asciiOffset + self.BAD_UTF8_DATA_OFFSET
 
         return self.highValueIndex if c >= self.highStart else self.indexFromSupp(c)
-- 
2.43.0


From c093da5fea803b92e7c73d135059a309f2bfa052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 09/31] fix: UTrie2 enumeration of ranges that start or end
 inside a block

The enumerator looked at one index-2 entry too many in each block, skipped
null blocks by a fixed length from an unaligned start, and forgot that a
skipped null index-2 block also ends a run of the previous data block. It
then left out or misreported values, e.g. for start=4059, limit=4128.
---
 UnicodeData/Utrie2.py | 35 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/UnicodeData/Utrie2.py b/UnicodeData/Utrie2.py
index fbd3a86..da8c723 100644
--- a/UnicodeData/Utrie2.py
+++ b/UnicodeData/Utrie2.py
@@ -109,25 +109,21 @@ class UTrie2(object):
         # enumerate index-2 blocks
         c = start
         while c < limit and c < self.highStart:
-            tempLimit = min(c + self.CP_PER_INDEX_1_ENTRY, limit)
+            tempLimit = min((c | (self.CP_PER_INDEX_1_ENTRY - 1)) + 1, limit)
 
             if c <= 0xFFFF:
                 # We're in the BMP
                 if not isSurrogate(c):
                     i2Block = (c >> self.SHIFT_2)
-
-                    # if tempLimit is above the BMP, limit it to the BMP
-                    if tempLimit > 0x10000:
-                        tempLimit = 0x10000
                 elif isSurrogateLead(c):
                     # Enumerate values for lead surrogate code points, not code units:
                     # This special block has half the normal length.
-                    i2Block = self.LSCP_INDEX_2_OFFSET
+                    i2Block = self.LSCP_INDEX_2_OFFSET + ((c - 0xD800) >> self.SHIFT_2)
                     tempLimit = min(0xDC00, limit)
                 else:
                     # Switch back to the normal part of the index-2 table.
                     # Enumerate the second half of the surrogates block.
-                    i2Block = 0xDC00 >> self.SHIFT_2
+                    i2Block = c >> self.SHIFT_2
                     tempLimit = min(0xE000, limit)
             else:
                 # supplementary code point
@@ -147,29 +143,18 @@ class UTrie2(object):
                 if prevValue != initialValue:
                     if prev < c: yield range(prev, c), prevValue
 
-                    prevBlock = self.dataNullOffset
                     prev = c
                     prevValue = initialValue
 
-                c += self.CP_PER_INDEX_1_ENTRY
+                prevBlock = self.dataNullOffset
+                c = tempLimit
             else:
                 # enumerate data blocks for one index-2 block
-                if c <= 0xFFFF:
-                    # We're in the BMP
-                    i2Start = 0
-                    i2Limit = (tempLimit >> self.SHIFT_2) - i2Block
-
-                    # if we're in the high surrogate range, i2Limit will be negative,
-                    # so we want to just do the high surroaget block
-                    if i2Limit < 0: i2Limit = 0
-                else:
-                    i2Start = (c >> self.SHIFT_2) & self.INDEX_2_MASK
-                    i2Limit = (tempLimit >> self.SHIFT_2) & self.INDEX_2_MASK
+                # (in the BMP, i2Block is already the entry for c)
+                i2Start = 0 if c <= 0xFFFF else (c >> self.SHIFT_2) & self.INDEX_2_MASK
+                i2Limit = i2Start + ((tempLimit - 1) >> self.SHIFT_2) - (c >> self.SHIFT_2) + 1
 
-                    if (c >> self.SHIFT_1) != (tempLimit >> self.SHIFT_1):
-                        i2Limit = self.INDEX_2_BLOCK_LENGTH
-
-                for i2 in range(i2Start, i2Limit + 1):
+                for i2 in range(i2Start, i2Limit):
                     block = self.index[i2Block + i2] << self.INDEX_SHIFT
 
                     if block == prevBlock and (c - prev) >= self.DATA_BLOCK_LENGTH:
@@ -186,7 +171,7 @@ class UTrie2(object):
                             prev = c
                             prevValue = initialValue
 
-                        c += self.DATA_BLOCK_LENGTH
+                        c = (c | self.DATA_MASK) + 1
                     else:
                         jStart = c & self.DATA_MASK
                         jLimit = min(self.DATA_BLOCK_LENGTH, jStart + tempLimit - c)
-- 
2.43.0


From d32a5dd91b365d195e17be42584b38af70154187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:31 +0000
Subject: [PATCH 10/31] fix: CPTrie enumeration

The enumerator used the data block length as the index-3 block length,
compared runs with the start of the enumeration instead of the start of the
run, and dropped everything from highStart on. It looped for ever, failed an
assertion or left out ranges on most tries.
---
 UnicodeData/CPTrie.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/UnicodeData/CPTrie.py b/UnicodeData/CPTrie.py
index 646e0d3..5503f50 100644
--- a/UnicodeData/CPTrie.py
+++ b/UnicodeData/CPTrie.py
@@ -244,13 +244,17 @@ class CPTrie(object):
         return self.data[dataIndex]
 
     def enumerator(self, start: int = 0, limit: int = 0x110000) -> typing.Iterator[tuple[range, typing.Any]]:
-        if start >= 0x110000 or start >= self.highStart:
+        if start >= 0x110000:
             return
 
         prevI3Block = -1
         prevBlock = -1
         prev = start
-        nullValue = self.data[self.dataNullOffset]
+        # If there is no null block, the null value does not matter: use the high value as ICU does.
+        nullValueOffset = self.dataNullOffset
+        if nullValueOffset >= self.dataLength:
+            nullValueOffset = self.dataLength - UCPTRIE_HIGH_VALUE_NEG_DATA_OFFSET
+        nullValue = self.data[nullValueOffset]
         prevValue = nullValue  # or 0?
 
         c = start
@@ -258,7 +262,7 @@ class CPTrie(object):
             if c <= 0xFFFF and (self.trieType == UCPTRIE_TYPE_FAST or c <= UCPTRIE_SMALL_MAX):
                 i3Block = 0
                 i3Start = c >> UCPTRIE_FAST_SHIFT
-                # i3BlockLength = UCPTRIE_BMP_INDEX_LENGTH if self.trieType == UCPTRIE_TYPE_FAST else UCPTRIE_SMALL_INDEX_LENGTH
+                i3BlockLength = UCPTRIE_BMP_INDEX_LENGTH if self.trieType == UCPTRIE_TYPE_FAST else UCPTRIE_SMALL_INDEX_LENGTH
                 dataBlockLength = UCPTRIE_FAST_DATA_BLOCK_LENGTH
             else:
                 # use the multi-stage index
@@ -271,7 +275,7 @@ class CPTrie(object):
                     i1 += UCPTRIE_SMALL_INDEX_LENGTH
 
                 i3Block = self.index[self.index[i1] + ((c >> UCPTRIE_SHIFT_2) & UCPTRIE_INDEX_2_MASK)]
-                if i3Block == prevI3Block and (c - start) >= UCPTRIE_CP_PER_INDEX_2_ENTRY:
+                if i3Block == prevI3Block and (c - prev) >= UCPTRIE_CP_PER_INDEX_2_ENTRY:
                     # The index-3 block is the same as the previous one, and filled with value.
                     assert (c & (UCPTRIE_CP_PER_INDEX_2_ENTRY - 1)) == 0
                     c += UCPTRIE_CP_PER_INDEX_2_ENTRY
@@ -290,11 +294,11 @@ class CPTrie(object):
                     continue
 
                 i3Start = (c >> UCPTRIE_SHIFT_3) & UCPTRIE_INDEX_3_MASK
-                # i3BlockLength = UCPTRIE_INDEX_3_BLOCK_LENGTH
+                i3BlockLength = UCPTRIE_INDEX_3_BLOCK_LENGTH
                 dataBlockLength = UCPTRIE_SMALL_DATA_BLOCK_LENGTH
 
             # Enumerate data blocks for one index-3 block.
-            for i3 in range(i3Start, dataBlockLength):
+            for i3 in range(i3Start, i3BlockLength):
                 if c >= limit: break
                 if (i3Block & 0x8000) == 0:
                     block = self.index[i3Block + i3]
@@ -305,7 +309,7 @@ class CPTrie(object):
                     block = (self.index[group] << (2 + (2 * gi))) & 0x30000
                     block |= self.index[group + gi + 1]  # C++ code indexes by group++ in previous line
 
-                if block == prevBlock and (c - start) >= dataBlockLength:
+                if block == prevBlock and (c - prev) >= dataBlockLength:
                     # The block is the same as the previous one, and filled with value.
                     assert (c & (dataBlockLength - 1)) == 0
                     c += dataBlockLength
@@ -346,6 +350,10 @@ class CPTrie(object):
             highValue = self.data[di]
             if highValue != prevValue:
                 if prev < c: yield range(prev, c), prevValue
+                prev = c
+                prevValue = highValue
+
+            c = limit
 
         # deliver last range
         if prev < c: yield range(prev, c), prevValue
-- 
2.43.0


From a716605840ee33f0fb2f04c270a0186c07d326df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 11/31] fix: isIDIgnorable accepts the ignorable control
 characters

The result for controls was computed but not returned, so U+0000..U+0008 and
other non-space ISO controls were not identifier-ignorable (nor ID parts).
---
 UnicodeData/CharProps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index fa061fe..6271d32 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -152,8 +152,8 @@ def isIDPart(c: int) -> bool:
     return (gcMask(gc) & ( GC_ND_MASK | GC_NL_MASK | GC_L_MASK | GC_PC_MASK | GC_MC_MASK | GC_MN_MASK)) != 0 or isIDIgnorable(c)
 
 def isIDIgnorable(c: int) -> bool:
-    if c < 0x009F:
-        isISOControl(c) and not isThatASCIIControlSpace(c)
+    if c <= 0x009F:
+        return isISOControl(c) and not isThatASCIIControlSpace(c)
 
     gc = getGeneralCategory(c)
     return gc == GC_FORMAT_CHAR
-- 
2.43.0


From e3ad303924cb5270532c24816eb8c229ed508237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 12/31] fix: getUnicodeProperties returns 0 for a column past
 the last one

Column propsVectorsColumns read the first column of the next vector.
---
 UnicodeData/CharProps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index 6271d32..7552f5b 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -20,7 +20,7 @@ def unicodePropertiesFromVecIndex(vecIndex: int, column: int):
     return propsVectors[vecIndex + column]
 
 def getUnicodeProperties(c: int, column: int):
-    if column > propsVectorsColumns:
+    if column >= propsVectorsColumns:
         return 0
 
     vecIndex = propsVectorTrie.get(c)
-- 
2.43.0


From ffa9ac2294c793c8a85130b60b25f80b1bd4d7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 13/31] fix: getNumericType returns the numeric type

It returned the general category bits of the properties word.
---
 UnicodeData/CharProps.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index 7552f5b..53b5686 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -4,6 +4,7 @@ from .Utrie2 import UTrie2
 from .CharPropsData import *
 from .uprops_h import *
 from .uscript_h import *
+from .uchar_h import U_NT_NONE, U_NT_DECIMAL, U_NT_DIGIT, U_NT_NUMERIC
 # from .UCDTypeDictionaries import generalCategoryNames as generalCategories
 # from .UCDTypeDictionaries import scriptNames as scriptCodes
 # from .UCDTypeDictionaries import blockNames
@@ -171,7 +172,18 @@ def digitValue(c: int) -> int:
     return value if value <= 9 else -1
 
 def numericTypeFromProps(props: int) -> int:
-    return props & 0x1F
+    ntv = numericTypeValueFromProps(props)
+
+    if ntv == UPROPS_NTV_NONE:
+        return U_NT_NONE
+
+    if ntv < UPROPS_NTV_DIGIT_START:
+        return U_NT_DECIMAL
+
+    if ntv < UPROPS_NTV_NUMERIC_START:
+        return U_NT_DIGIT
+
+    return U_NT_NUMERIC
 
 def getNumericType(c: int) -> int:
     props = propsTrie.get(c)
-- 
2.43.0


From 7da7de62396c1f3f55d925164d70c5b468714887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 14/31] fix: CaseProperties decodes the simple titlecase
 mapping

simpleTitleCase was the raw attribute (hex digits or "#"), unlike every other
case mapping.
---
 UnicodeData/CaseProperties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/CaseProperties.py b/UnicodeData/CaseProperties.py
index 3def9bc..42a807d 100644
--- a/UnicodeData/CaseProperties.py
+++ b/UnicodeData/CaseProperties.py
@@ -21,7 +21,7 @@ class CaseProperties(UCDProperties):
 
         self.simpleUpperCase = self.getCodePointsProperty("suc")
         self.simpleLowerCase = self.getCodePointsProperty("slc")
-        self.simpleTitleCase = self.getCharProperty("stc")
+        self.simpleTitleCase = self.getCodePointsProperty("stc")
 
         self.upperCase = self.getCodePointsProperty("uc")
         self.lowerCase = self.getCodePointsProperty("lc")
-- 
2.43.0


From 8b157c0b83c7fa52ac3c87a4a670c153d963104c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 15/31] fix: CaseProperties keeps an empty NFKC_CF mapping

An empty NFKC_CF means the character is removed; it was reported as mapping to
itself.
---
 UnicodeData/CaseProperties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/CaseProperties.py b/UnicodeData/CaseProperties.py
index 42a807d..edc20d4 100644
--- a/UnicodeData/CaseProperties.py
+++ b/UnicodeData/CaseProperties.py
@@ -38,7 +38,7 @@ class CaseProperties(UCDProperties):
         self.changesWhenNFKCCaseFolded = self.getBooleanProperty("CWKCF")
         self.changesWhenTitlecased = self.getBooleanProperty("CWT")
         self.changesWhenUppercased = self.getBooleanProperty("CWU")
-        self.nkfcCasefold = self.getCodePointsProperty("NFKC_CF")
+        self.nkfcCasefold = self.getCodePointsProperty("NFKC_CF") if self.getCharProperty("NFKC_CF") else ""
 
         del self._char
         del self._group
\ No newline at end of file
-- 
2.43.0


From b612493408d314c10cf4a73d518a0a19360fe819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 16/31] fix: ICUData does not remember a data file it failed to
 read

After an error in the table of contents, the next ICUData() took the partly
read file for a loaded one.
---
 UnicodeData/ICUDataFile.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/UnicodeData/ICUDataFile.py b/UnicodeData/ICUDataFile.py
index 3a1d9dc..ad9f2d1 100644
--- a/UnicodeData/ICUDataFile.py
+++ b/UnicodeData/ICUDataFile.py
@@ -106,6 +106,16 @@ class ICUData(object):
         dataFile = open(_dataFilePath, "rb")
         cls._fileData = dataFile.read()
 
+        try:
+            cls._readTOC()
+        except Exception:
+            # don't mistake a file that couldn't be read for one that's already loaded
+            cls._fileData = b""
+            cls._dataOffsets.clear()
+            raise
+
+    @classmethod
+    def _readTOC(cls):
         dh = sstruct.unpack(dataHeaderFormat, cls._fileData[:dataHeaderLength], DataHeader())
         header = typing.cast(DataHeader, dh)
 
-- 
2.43.0


From 7753b5c2513b837bb31e83d7a58bf70f8e8d5a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 17/31] fix: alias constants are integers, not tuples

A trailing comma, copied from the C enum, made a tuple of each; scriptCodes had
tuples among its keys.
---
 UnicodeData/BidiProps.py |  2 +-
 UnicodeData/Blocks.py    |  4 ++--
 UnicodeData/Scripts.py   | 10 +++++-----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/UnicodeData/BidiProps.py b/UnicodeData/BidiProps.py
index 57fb1e4..48ecf49 100644
--- a/UnicodeData/BidiProps.py
+++ b/UnicodeData/BidiProps.py
@@ -25,7 +25,7 @@ UBIDI_IX_JG_LIMIT = 5
 UBIDI_IX_JG_START2 = 6  # *new in format version 2.2, ICU 54
 UBIDI_IX_JG_LIMIT2 = 7
 
-UBIDI_MAX_VALUES_INDEX = 15,
+UBIDI_MAX_VALUES_INDEX = 15
 UBIDI_IX_TOP = 16
 
 # definitions for 16-bit bidi/shaping properties word
diff --git a/UnicodeData/Blocks.py b/UnicodeData/Blocks.py
index e3f2af4..b53dfcd 100644
--- a/UnicodeData/Blocks.py
+++ b/UnicodeData/Blocks.py
@@ -261,7 +261,7 @@ UBLOCK_PRIVATE_USE_AREA = 78  # [E000]
 #
 #* @ stable ICU 2.0
 
-UBLOCK_PRIVATE_USE = UBLOCK_PRIVATE_USE_AREA,
+UBLOCK_PRIVATE_USE = UBLOCK_PRIVATE_USE_AREA
 
 # @stable ICU 2.0
 UBLOCK_CJK_COMPATIBILITY_IDEOGRAPHS = 79  # [F900]
@@ -319,7 +319,7 @@ UBLOCK_CYRILLIC_SUPPLEMENT = 97  # [0500]
 # Unicode 4.0.1 renames the "Cyrillic Supary" block to "Cyrillic Sup".
 # @ stable ICU 2.2
 
-UBLOCK_CYRILLIC_SUPPLEMENTARY = UBLOCK_CYRILLIC_SUPPLEMENT,
+UBLOCK_CYRILLIC_SUPPLEMENTARY = UBLOCK_CYRILLIC_SUPPLEMENT
 # @stable ICU 2.2
 UBLOCK_TAGALOG = 98  # [1700]
 # @stable ICU 2.2
diff --git a/UnicodeData/Scripts.py b/UnicodeData/Scripts.py
index e3a4649..7093e90 100644
--- a/UnicodeData/Scripts.py
+++ b/UnicodeData/Scripts.py
@@ -48,7 +48,7 @@ USCRIPT_THAANA       = 37  # 'Thaa'
 USCRIPT_THAI         = 38  # 'Thai'
 USCRIPT_TIBETAN      = 39  # 'Tibt'
 USCRIPT_CANADIAN_ABORIGINAL = 40  # 'Cans'
-USCRIPT_UCAS         = USCRIPT_CANADIAN_ABORIGINAL,
+USCRIPT_UCAS         = USCRIPT_CANADIAN_ABORIGINAL
 USCRIPT_YI           = 41  # 'Yiii'
 
 # New scripts in Unicode 3.2
@@ -103,17 +103,17 @@ USCRIPT_LATIN_GAELIC                  = 81  # 'Latg'
 USCRIPT_LEPCHA                        = 82  # 'Lepc'
 USCRIPT_LINEAR_A                      = 83  # 'Lina'
 USCRIPT_MANDAIC                       = 84  # 'Mand'
-USCRIPT_MANDAEAN                      = USCRIPT_MANDAIC,
+USCRIPT_MANDAEAN                      = USCRIPT_MANDAIC
 USCRIPT_MAYAN_HIEROGLYPHS             = 85  # 'Maya'
 USCRIPT_MEROITIC_HIEROGLYPHS          = 86  # 'Mero'
-USCRIPT_MEROITIC                      = USCRIPT_MEROITIC_HIEROGLYPHS,
+USCRIPT_MEROITIC                      = USCRIPT_MEROITIC_HIEROGLYPHS
 USCRIPT_NKO                           = 87  # 'Nkoo'
 USCRIPT_ORKHON                        = 88  # 'Orkh'
 USCRIPT_OLD_PERMIC                    = 89  # 'Perm'
 USCRIPT_PHAGS_PA                      = 90  # 'Phag'
 USCRIPT_PHOENICIAN                    = 91  # 'Phnx'
 USCRIPT_MIAO                          = 92  # 'Plrd'
-USCRIPT_PHONETIC_POLLARD              = USCRIPT_MIAO,
+USCRIPT_PHONETIC_POLLARD              = USCRIPT_MIAO
 USCRIPT_RONGORONGO                    = 93  # 'Roro'
 USCRIPT_SARATI                        = 94  # 'Sara'
 USCRIPT_ESTRANGELO_SYRIAC             = 95  # 'Syre'
@@ -167,7 +167,7 @@ USCRIPT_OLD_NORTH_ARABIAN             = 142  # 'Narb'
 USCRIPT_NABATAEAN                     = 143  # 'Nbat'
 USCRIPT_PALMYRENE                     = 144  # 'Palm'
 USCRIPT_KHUDAWADI                     = 145  # 'Sind'
-USCRIPT_SINDHI                        = USCRIPT_KHUDAWADI,
+USCRIPT_SINDHI                        = USCRIPT_KHUDAWADI
 USCRIPT_WARANG_CITI                   = 146  # 'Wara'
 USCRIPT_AFAKA                         = 147  # 'Afak'
 USCRIPT_JURCHEN                       = 148  # 'Jurc'
-- 
2.43.0


From 0140c129509d816121fbf08eafc173c53424fe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 18/31] fix: misspelt and long names in Blocks and Boundaries

These entries were not the short property value names ("Supary Private Use
Area A" for "Sup PUA A"), unlike all the others and UCDTypeDictionaries.
---
 UnicodeData/Blocks.py     | 10 +++++-----
 UnicodeData/Boundaries.py |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/UnicodeData/Blocks.py b/UnicodeData/Blocks.py
index b53dfcd..e907b64 100644
--- a/UnicodeData/Blocks.py
+++ b/UnicodeData/Blocks.py
@@ -786,7 +786,7 @@ UBLOCK_TANGUT_SUPPLEMENT = 307  # [18D00]
 UBLOCK_YEZIDI = 308  # [10E80]
 
 blockNames = {
-    UBLOCK_NO_BLOCK: "No Block",
+    UBLOCK_NO_BLOCK: "NB",
     UBLOCK_BASIC_LATIN: "ASCII",
     UBLOCK_LATIN_1_SUPPLEMENT: "Latin 1 Sup",
     UBLOCK_LATIN_EXTENDED_A: "Latin Ext A",
@@ -862,9 +862,9 @@ blockNames = {
     UBLOCK_YI_RADICALS: "Yi Radicals",
     UBLOCK_HANGUL_SYLLABLES: "Hangul",
     UBLOCK_HIGH_SURROGATES: "High Surrogates",
-    UBLOCK_HIGH_PRIVATE_USE_SURROGATES: "High Private Use Surrogates",
+    UBLOCK_HIGH_PRIVATE_USE_SURROGATES: "High PU Surrogates",
     UBLOCK_LOW_SURROGATES: "Low Surrogates",
-    UBLOCK_PRIVATE_USE_AREA: "Private Use Area",
+    UBLOCK_PRIVATE_USE_AREA: "PUA",
     UBLOCK_CJK_COMPATIBILITY_IDEOGRAPHS: "CJK Compat Ideographs",
     UBLOCK_ALPHABETIC_PRESENTATION_FORMS: "Alphabetic PF",
     UBLOCK_ARABIC_PRESENTATION_FORMS_A: "Arabic PF A",
@@ -895,8 +895,8 @@ blockNames = {
     UBLOCK_SUPPLEMENTAL_MATHEMATICAL_OPERATORS: "Sup Math Operators",
     UBLOCK_KATAKANA_PHONETIC_EXTENSIONS: "Katakana Ext",
     UBLOCK_VARIATION_SELECTORS: "VS",
-    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_A: "Supary Private Use Area A",
-    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_B: "Supary Private Use Area B",
+    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_A: "Sup PUA A",
+    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_B: "Sup PUA B",
     UBLOCK_LIMBU: "Limbu",
     UBLOCK_TAI_LE: "Tai Le",
     UBLOCK_KHMER_SYMBOLS: "Khmer Symbols",
diff --git a/UnicodeData/Boundaries.py b/UnicodeData/Boundaries.py
index 2e70a91..1ce6ca5 100644
--- a/UnicodeData/Boundaries.py
+++ b/UnicodeData/Boundaries.py
@@ -194,7 +194,7 @@ wordBreakNames = {
     WB_E_MODIFIER: "EM",
     WB_GLUE_AFTER_ZWJ: "GAZ",
     WB_ZWJ: "ZWJ",
-    WB_WSEGSPACE: "WSEGSPACE"
+    WB_WSEGSPACE: "WSegSpace"
 }
 
 sentenceBreakNames = {
-- 
2.43.0


From 82afd9570996642b3d87c1afc215f1c7e2109d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 19/31] fix: CPTrie enumeration where fast blocks give way to
 small ones

---
 UnicodeData/CPTrie.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/UnicodeData/CPTrie.py b/UnicodeData/CPTrie.py
index 5503f50..a1b218f 100644
--- a/UnicodeData/CPTrie.py
+++ b/UnicodeData/CPTrie.py
@@ -249,6 +249,7 @@ class CPTrie(object):
 
         prevI3Block = -1
         prevBlock = -1
+        dataBlockLength = 0
         prev = start
         # If there is no null block, the null value does not matter: use the high value as ICU does.
         nullValueOffset = self.dataNullOffset
@@ -295,6 +296,9 @@ class CPTrie(object):
 
                 i3Start = (c >> UCPTRIE_SHIFT_3) & UCPTRIE_INDEX_3_MASK
                 i3BlockLength = UCPTRIE_INDEX_3_BLOCK_LENGTH
+                if dataBlockLength != UCPTRIE_SMALL_DATA_BLOCK_LENGTH:
+                    # A fast block at the same offset is longer, and can end with another value.
+                    prevBlock = -1
                 dataBlockLength = UCPTRIE_SMALL_DATA_BLOCK_LENGTH
 
             # Enumerate data blocks for one index-3 block.
-- 
2.43.0


From 8f2f41729a94a20ef112c09e8e667d526eaf3a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:16 +0000
Subject: [PATCH 20/31] fix: ICUData waits for another thread that is loading
 the data file

---
 UnicodeData/ICUDataFile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/UnicodeData/ICUDataFile.py b/UnicodeData/ICUDataFile.py
index ad9f2d1..0475546 100644
--- a/UnicodeData/ICUDataFile.py
+++ b/UnicodeData/ICUDataFile.py
@@ -9,6 +9,7 @@ Created on May 12, 2020
 import typing
 
 import struct
+import threading
 import pkg_resources
 from fontTools.misc import sstruct  # type: ignore
 
@@ -66,6 +67,7 @@ class TOCEntry:
 class ICUData(object):
     _dataOffsets: dict[str, int] = {}
     _fileData: bytes = b""
+    _populateLock = threading.Lock()
 
     @classmethod
     def getString(cls, offset: int):
@@ -137,7 +139,9 @@ class ICUData(object):
             tocEntryLimit += _tocEntryLength
 
     def __init__(self):
-        ICUData._populateData()
+        # another thread must not mistake a file that's being read for one that's already loaded
+        with ICUData._populateLock:
+            ICUData._populateData()
 
 # def test():
 #     id = ICUData()
-- 
2.43.0


From e042718dc8bf800f05db3a9cc403c773f124a7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 21/31] fix: CharNames.nameIterator finds algorithmic ranges
 that start inside a group

---
 UnicodeData/CharNames.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/UnicodeData/CharNames.py b/UnicodeData/CharNames.py
index 59100b4..3cc8565 100644
--- a/UnicodeData/CharNames.py
+++ b/UnicodeData/CharNames.py
@@ -462,13 +462,7 @@ class CharNames(object):
         char = 0
         algRange = 0
         while char < charLimit:
-            group = cls.getGroup(char)
-            if group and char in group.charRange:
-                # group.nameChoice = self.nameChoice
-                for (code, name) in group.nameIterator(nameChoice):
-                    if name: yield (code, name)
-                char = group.charRange.stop
-            elif algRange < len(cls._algorithmicRanges) and cls._algorithmicRanges[algRange].charInRange(char):
+            if algRange < len(cls._algorithmicRanges) and cls._algorithmicRanges[algRange].charInRange(char):
                 algorithmicRange = cls._algorithmicRanges[algRange]
                 # algorithmicRange.nameChoice = self.nameChoice
                 for (code, name) in algorithmicRange.nameIterator(nameChoice):
@@ -476,7 +470,16 @@ class CharNames(object):
                 char = algorithmicRange.charRange.stop
                 algRange += 1
             else:
-                char += LINES_PER_GROUP
+                # up to the end of the group, or the next algorithmic range if that starts inside the group
+                limit = (char | GROUP_MASK) + 1
+                if algRange < len(cls._algorithmicRanges):
+                    limit = min(limit, cls._algorithmicRanges[algRange].charRange.start)
+                group = cls.getGroup(char)
+                if group:
+                    # group.nameChoice = self.nameChoice
+                    for (code, name) in group.nameIterator(nameChoice):
+                        if name and char <= code < limit: yield (code, name)
+                char = limit
 
     @classmethod
     def charFromName(cls, theName: str, nameChoice:int=U_UNICODE_CHAR_NAME) -> int:
-- 
2.43.0


From 398fe90a29bf42c4824d31cba9fc6f7651a66d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 22/31] fix: raw mapping whose first unit is half of a
 surrogate pair

---
 UnicodeData/Normalizer2.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/UnicodeData/Normalizer2.py b/UnicodeData/Normalizer2.py
index a4de2cb..f635849 100644
--- a/UnicodeData/Normalizer2.py
+++ b/UnicodeData/Normalizer2.py
@@ -222,9 +222,9 @@ class Normalizer2(object):
     def getMappingIndex(self, norm16: int) -> int:
         return norm16 >> OFFSET_SHIFT
 
-    def stringFromData(self, index: int, length: int) -> str:
+    def stringFromData(self, index: int, length: int, lead: int = 0) -> str:
+        # lead is for the lead surrogate of a surrogate pair
         s = ""
-        lead = 0  # for the lead byte of a surrogate pair
         for i in range(length):
             ch = self.extraData[index + i]
 
@@ -272,6 +272,7 @@ class Normalizer2(object):
 
     def getRawDecomposition(self, c: int) -> typing.Optional[str]:
         decomposition = ""
+        lead = 0
         norm16 = self.getNorm16(c)
         if c < self.minDecompNoCP or self.isDecompYes(norm16):
             # c does not decompose
@@ -301,7 +302,11 @@ class Normalizer2(object):
                 ix = rawMappingIndex - rm0
             else:
                 # Copy the normal mapping and replace its first two code units with rm0.
-                decomposition += chr(rm0)
+                # It may be the lead surrogate of a pair whose trail surrogate both mappings share.
+                if isLead(rm0):
+                    lead = rm0
+                else:
+                    decomposition += chr(rm0)
                 ix += 3
                 length -= 2
         else:
@@ -309,7 +314,7 @@ class Normalizer2(object):
 
         if not decomposition and length == 0: return None
 
-        decomposition += self.stringFromData(ix, length)
+        decomposition += self.stringFromData(ix, length, lead)
 
         return decomposition
 
-- 
2.43.0


From e09e55e577b3e9549cdd3b16720d3b026355ef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 23/31] fix: translate header lines whose trailing comment goes
 on over the next lines

---
 module_builder/HeaderToPtyhon.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index 2bbc0b7..0098229 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -94,6 +94,13 @@ class HeaderFile(object):
 
             if line.startswith("#endif"): continue  # ignore "endif for __HEADER_H__
 
+            commentStart = line.rfind("/*")
+            if commentStart > 0 and "*/" not in line[commentStart:] and "//" not in line[:commentStart]:
+                # a trailing comment that goes on over the following lines
+                line = line[:commentStart].strip()
+                while (commentLine := self.sourceFile.readline()):
+                    if "*/" in commentLine: break
+
             if line.startswith("#define") and line.endswith("\\"):
                 inMacro = True
                 macroLine = line[:-1]
-- 
2.43.0


From 711ce8def7bdde574561b4a47c2dfe75f3a8164d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:26 +0000
Subject: [PATCH 24/31] fix: full case mappings with supplementary characters

---
 UnicodeData/CaseProps.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/UnicodeData/CaseProps.py b/UnicodeData/CaseProps.py
index dbc5abb..2e60880 100644
--- a/UnicodeData/CaseProps.py
+++ b/UnicodeData/CaseProps.py
@@ -8,7 +8,7 @@ Created on May 8, 2020
 
 from .CasePropsData import *
 from .Utrie2 import UTrie2
-from .Utilities import arithmeticShift
+from .Utilities import arithmeticShift, charFromSurrogates, isLead, isTrail
 
 # Indexes into ucase_props_indexes
 UCASE_IX_INDEX_TOP = 0
@@ -147,6 +147,18 @@ def getSlotValue(excWord: int, index: int, exceptionIndex: int) -> tuple[int, in
     exceptionIndex += 2 * slot_offset
     return ((ucase_props_exceptions[exceptionIndex]) << 16 | ucase_props_exceptions[exceptionIndex+1], (2 * slot_offset) + 1)
 
+def getFullMapping(exceptionIndex: int, length: int) -> str:
+    # full mappings are stored as UTF-16, so a code point can be a surrogate pair
+    chars: list[str] = []
+    lead = 0
+    for unit in ucase_props_exceptions[exceptionIndex:exceptionIndex + length]:
+        if isLead(unit):
+            lead = unit
+        else:
+            chars.append(chr(charFromSurrogates(lead, unit) if isTrail(unit) else unit))
+
+    return "".join(chars)
+
 def toLower(c: int) -> int:
     props = casePropsTrie.get(c)
 
@@ -228,12 +240,7 @@ def toFullLower(c: int) -> str:
             (full, offset) = getSlotValue(excWord, UCASE_EXC_FULL_MAPPINGS, exceptionIndex)
             full &= UCASE_FULL_LOWER
             if full != 0:
-                chars: list[str] = []
-                exceptionIndex += offset + 1
-                for i in range(full):
-                    chars.append(chr(ucase_props_exceptions[exceptionIndex + i]))
-
-                return "".join(chars)
+                return getFullMapping(exceptionIndex + offset + 1, full)
 
         if hasSlot(excWord, UCASE_EXC_DELTA) and isUpperOrTitle(props):
             (delta, _) = getSlotValue(excWord, UCASE_EXC_DELTA, exceptionIndex2)
@@ -282,11 +289,7 @@ def toUpperOrTitle(c: int, upperNotTitle: bool) -> str:
                 full = (full >> 4) & 0xF
 
             if full != 0:
-                chars: list[str] = []
-                for i in range(full):
-                    chars.append(chr(ucase_props_exceptions[exceptionIndex + i]))
-
-                return "".join(chars)
+                return getFullMapping(exceptionIndex, full)
 
         if hasSlot(excWord, UCASE_EXC_DELTA) and getTypeFromProps(props) == UCASE_LOWER:
             (delta, _) = getSlotValue(excWord, UCASE_EXC_DELTA, exceptionIndex2)
-- 
2.43.0


From 44ffe8eed65dc34e1d117ff692636251806419df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:23 +0000
Subject: [PATCH 25/31] fix: names files without algorithmic ranges or without
 groups

---
 UnicodeData/CharNames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/CharNames.py b/UnicodeData/CharNames.py
index 3cc8565..b1345c4 100644
--- a/UnicodeData/CharNames.py
+++ b/UnicodeData/CharNames.py
@@ -416,7 +416,7 @@ class CharNames(object):
             else:
                 start = midpoint
 
-        return cls._groups[start] if cls._groups[start].msb == groupMSB else None
+        return cls._groups[start] if start < limit and cls._groups[start].msb == groupMSB else None
 
 
     @classmethod
@@ -458,7 +458,7 @@ class CharNames(object):
 
     @classmethod
     def nameIterator(cls, nameChoice: int =U_UNICODE_CHAR_NAME) -> typing.Iterator[tuple[int, str]]:
-        charLimit = max(cls._groups[-1].charRange.stop, cls._algorithmicRanges[-1].charRange.stop)
+        charLimit = max([r.charRange.stop for r in cls._groups[-1:] + cls._algorithmicRanges[-1:]], default=0)
         char = 0
         algRange = 0
         while char < charLimit:
-- 
2.43.0


From 561083c66ea18ffe98d8e863356bc07f1e88a3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:34 +0000
Subject: [PATCH 26/31] fix: header comments with dollar signs, empty comments,
 and C comments in end of line comments

---
 module_builder/HeaderToPtyhon.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index 0098229..8b61596 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -14,8 +14,8 @@ import re
 from pathlib import Path
 
 firstTokenRE = re.compile(r"([^\s]+)")  # first token on a line
-cCommentRE = re.compile(r"/\*\*?(.+?)\*/")  # a /*...*/ comment
-eolCommentRE = re.compile(r"//\s*([^$]+)$")  # //... to end of line comment
+cCommentRE = re.compile(r"/\*\*?(.*?)\*/")  # a /*...*/ comment
+eolCommentRE = re.compile(r"//\s*(.*)$")  # //... to end of line comment
 macroDefineRE = re.compile(r"#define (\w+(?:\(\w+(?:,\s*\w+)?\))?)(?:\s+(.+))?")  # #define with optional arguments and optional value
 typedefEnumRE = re.compile(r"typedef\s+enum\s*\w*\s*\{?")
 endOfEnumRE = re.compile(r"\}\s*\w*\s*;")  # } name ;  with optional name
@@ -55,7 +55,9 @@ class HeaderFile(object):
     @classmethod
     def getTrailingComment(cls, line: str) -> tuple[str, str]:
         comment = ""
-        if (m := cCommentRE.search(line)) or (m := eolCommentRE.search(line)):
+        matches = [m for m in (cCommentRE.search(line), eolCommentRE.search(line)) if m]
+        if matches:
+            m = min(matches, key=lambda match: match.start())  # the other one is part of the comment
             comment = line[m.start(1):m.end(1)]
             line = line[:m.start()].strip()
 
-- 
2.43.0


From a186c05854bebaee2bac812a0346f46a8375311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 27/31] fix: leave out ignored names that are enumerators

---
 module_builder/HeaderToPtyhon.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index 8b61596..36ec973 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -148,10 +148,11 @@ class HeaderFile(object):
                     if not value:
                         value = str(nextValue)
 
-                    if comment:
-                        self.outputLines.append(f"{name} = {value}  # {comment}")
-                    else:
-                        self.outputLines.append(f"{name} = {value}")
+                    if name not in self.ignore:
+                        if comment:
+                            self.outputLines.append(f"{name} = {value}  # {comment}")
+                        else:
+                            self.outputLines.append(f"{name} = {value}")
 
                     intValue = eval(value, variables)
 
-- 
2.43.0


From 628e80de4676a016cc3c72dbc7b542655352afba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 28/31] fix: find declarations by their whole name

---
 module_builder/ModuleBuilder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/module_builder/ModuleBuilder.py b/module_builder/ModuleBuilder.py
index a3f48d4..445099f 100644
--- a/module_builder/ModuleBuilder.py
+++ b/module_builder/ModuleBuilder.py
@@ -110,15 +110,15 @@ class ModuleBuilder(object):
 
     def getScalarDeclaration(self, name: str) -> str:
         # pattern = name + r"=([0-9]+);"
-        pattern = name + r"=(.+);"
+        pattern = r"\b" + name + r"=(.+);"
         return re.findall(pattern, self.source)[0]
 
     def getArrayDeclaration(self, arrayName: str) -> str:
-        pattern = arrayName + r"\[.+?\]=\{(.+?)\};"
+        pattern = r"\b" + arrayName + r"\[.+?\]=\{(.+?)\};"
         return re.findall(pattern, self.source, re.DOTALL)[0]
 
     def getPropsDeclaration(self, name: str) -> str:
-        pattern = name + r"=\{\n(.+?)\n\};"
+        pattern = r"\b" + name + r"=\{\n(.+?)\n\};"
         return re.findall(pattern, self.source, re.DOTALL)[0]
 
     def scalarToPython(self, name: str):
-- 
2.43.0


From fde13c872a64ca971c8dac582bfd395dbe507861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:26 +0000
Subject: [PATCH 29/31] fix: building from a ppucd.txt without a Unicode
 version ends with an error

---
 module_builder/ModuleBuilder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/module_builder/ModuleBuilder.py b/module_builder/ModuleBuilder.py
index 445099f..61845bf 100644
--- a/module_builder/ModuleBuilder.py
+++ b/module_builder/ModuleBuilder.py
@@ -248,6 +248,8 @@ def build():
 
     ucdReader = UCDReader(icuSource, outDir)
     ucdReader.generateDictionaries()
+    if not ucdReader.ucdVersion:
+        raise ValueError("ppucd.txt does not have a Unicode version.")
     ucdReader.writeFile()
 
     ucdVersionFile = open(outDir / "UnicodeVersion.py", "w")
-- 
2.43.0


From 54143bcf3e34f3d671989e20883ebcac5968638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:07 +0000
Subject: [PATCH 30/31] fix: getBinaryProp returns False for a column past the
 last one

---
 UnicodeData/CharProps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index 53b5686..f908e95 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -377,7 +377,7 @@ def binaryPropFromVecIndex(vecIndex: int, propShift: int, column: int) -> bool:
     return (props & (1 << propShift)) != 0
 
 def getBinaryProp(c: int, propShift: int, column: int = 1) -> bool:
-    if propShift >= UPROPS_BINARY_1_TOP:
+    if propShift >= UPROPS_BINARY_1_TOP or column >= propsVectorsColumns:
         return False  # Used to be None
 
     vecIndex = propsVectorTrie.get(c)
-- 
2.43.0


From 7c113206a28a2648ee8ce877c70308a6f410dace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:51 +0000
Subject: [PATCH 31/31] fix: find ICU's license however the source directory is
 written

---
 module_builder/ModuleBuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/module_builder/ModuleBuilder.py b/module_builder/ModuleBuilder.py
index 61845bf..f31e318 100644
--- a/module_builder/ModuleBuilder.py
+++ b/module_builder/ModuleBuilder.py
@@ -238,7 +238,7 @@ def build():
 
     # copy the icu data file from the icu build directory to the test directory
     shutil.copy(icuBuild / f"data/out/icudt{icuVersionShort}l.dat", outDir / "icudata.dat")
-    shutil.copy(icuSource.parent / "LICENSE", outDir)
+    shutil.copy(icuSource.resolve().parent / "LICENSE", outDir)
 
     # ppFile = open(icuSource / "data/unidata/ppucd.txt")
     # ppData = ppFile.read()
-- 
2.43.0

