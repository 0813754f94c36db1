From 2738d5d10675cd3ea291d714a204d5e152b3b40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 01/17] fix: UnicodeSet.addRange returns self from its fast
 path too

The method promises to return the set to support chaining.
---
 UnicodeData/UnicodeSet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index e81737e..2ea557c 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -444,7 +444,7 @@ class UnicodeSet(object):
                             self.list.extend([limit, UNICODE_SET_HIGH])
                         else:
                             self.list.append(UNICODE_SET_HIGH)
-                    return
+                    return self
 
             # This is slow. Could be much faster using findCodePoint(start)
             # and modifying the list, dealing with adjacent & overlapping ranges.
-- 
2.43.0


From 7b599542633c69fda7293fe1bd47991d457ae215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 02/17] fix: UnicodeSet union merges ranges that touch

Two adjacent ranges were left unmerged when the second one came from the
other set, so equal sets compared unequal and getRangeCount() was wrong.
---
 UnicodeData/UnicodeSet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 2ea557c..472c9cd 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -252,7 +252,7 @@ class UnicodeSet(object):
                     i += 1
                     polarity ^= 1
                 elif b < a: # take b
-                    if len(buffer) > 0 and b < buffer[-1]:
+                    if len(buffer) > 0 and b <= buffer[-1]:
                         b = max(other[j], buffer.pop())
                     else:
                         buffer.append(b)
@@ -263,7 +263,7 @@ class UnicodeSet(object):
                 else: # a == b: take a, drop b
                     if a == UNICODE_SET_HIGH:
                         break
-                    if len(buffer) > 0 and a < buffer[-1]:
+                    if len(buffer) > 0 and a <= buffer[-1]:
                         a = max(self.list[i], buffer.pop())
                     else:
                         buffer.append(a)
-- 
2.43.0


From 209ec5590df61ae972d789aae98353aa3bd2b431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:07 +0000
Subject: [PATCH 03/17] fix: UnicodeSet remove/retain/complement of a single
 code point

removeRange(), retainRange() and complementRange() ignored ranges of one code
point, so remove(cp), retain(cp) and complement(cp) did nothing. They also
pinned the ends only for the comparison, and corrupted the list when an end
was not a code point. As in ICU, retaining an empty range leaves nothing.
---
 UnicodeData/UnicodeSet.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 472c9cd..dc2372c 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -472,8 +472,8 @@ class UnicodeSet(object):
         :param end: the last code point in the range to remove.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
-            other = [start, end + 1, UNICODE_SET_HIGH]
+        if start <= end:
+            other = [_pinCodePoint(start), _pinCodePoint(end) + 1, UNICODE_SET_HIGH]
             self._retainList(other, 2) # polarity == 2 means set minus
 
         return self
@@ -504,9 +504,11 @@ class UnicodeSet(object):
         :param end: the last code point in the range to intersect.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
-            other = [start, end + 1, UNICODE_SET_HIGH]
+        if start <= end:
+            other = [_pinCodePoint(start), _pinCodePoint(end) + 1, UNICODE_SET_HIGH]
             self._retainList(other, 0) # polarity == 0: intersect
+        else:
+            self.clear() # the range is empty
 
         return self
 
@@ -539,8 +541,8 @@ class UnicodeSet(object):
         :param end: the last code point in the range.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
-            other = [start, end + 1, UNICODE_SET_HIGH]
+        if start <= end:
+            other = [_pinCodePoint(start), _pinCodePoint(end) + 1, UNICODE_SET_HIGH]
             self._exclusiveOrList(other)
 
         return self
-- 
2.43.0


From aa1766666e9dab0dddfbadbf88e68eee9e60a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:07 +0000
Subject: [PATCH 04/17] fix: UnicodeSet.add and addRange use the pinned code
 points

The arguments were pinned only to search the list; the raw values were then
stored in it, which corrupted the set.
---
 UnicodeData/UnicodeSet.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index dc2372c..14614e4 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -397,7 +397,8 @@ class UnicodeSet(object):
         :param cp: the code point to add.
         :return: self, to support chaining.
         """
-        i = self._findCodePoint(_pinCodePoint(cp))
+        cp = _pinCodePoint(cp)
+        i = self._findCodePoint(cp)
 
         if (i & 1) != 0:
             return self
@@ -426,7 +427,13 @@ class UnicodeSet(object):
         :param end: the last code point in the range to add.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if start > end:
+            return self  # the range is empty
+
+        start = _pinCodePoint(start)
+        end = _pinCodePoint(end)
+
+        if start < end:
             length = len(self.list)
             limit = end + 1
 
-- 
2.43.0


From 35b90f7102d75208fc137806399f9a44db7c57b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:07 +0000
Subject: [PATCH 05/17] fix: UnicodeSet(arg) builds a well-formed list

A code point or range reaching U+10FFFF got a second terminator, and an empty
range became an empty interval inside the list.
---
 UnicodeData/UnicodeSet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 14614e4..e450992 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -710,9 +710,11 @@ class UnicodeSet(object):
         elif type(arg) is UnicodeSet:
             self.list = arg.list.copy()
         elif type(arg) is int:
-            self.list = [arg, arg + 1, UNICODE_SET_HIGH]
+            self.list = [UNICODE_SET_HIGH]
+            self.add(arg)
         elif type(arg) is range:
-            self.list = [arg.start, arg.stop, UNICODE_SET_HIGH]
+            self.list = [UNICODE_SET_HIGH]
+            self.addRange(arg.start, arg.stop - 1)
         else:
             raise(TypeError("Argument type must be UnicodeSet, int or range."))
 
-- 
2.43.0


From 9ac31acab56c46d587a7230af6cf267d3bd4d7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:07 +0000
Subject: [PATCH 06/17] fix: UnicodeSet.contains is False above U+10FFFF

A set reaching U+10FFFF claimed to contain every larger integer.
---
 UnicodeData/UnicodeSet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index e450992..1722cd6 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -604,11 +604,13 @@ class UnicodeSet(object):
         :return: True if the set contans the code point(s), False otherwise.
         """
         if type(arg) is int:
+            if arg >= UNICODE_SET_HIGH: return False
             i = self._findCodePoint(arg)
             return (i & 1) != 0
         elif type(arg) is range:
             start = arg.start
             end = arg.stop - 1
+            if start >= UNICODE_SET_HIGH: return False
             i = self._findCodePoint(start)
             return (i & 1) != 0 and end < self.list[i]
         else:
-- 
2.43.0


From ab0cab7f03f31ec41d28e8bd5102d6962e88a3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:24 +0000
Subject: [PATCH 07/17] fix: UTrie2 lookup of U+10FFFF

The last code point got the value for integers that are not code points.
---
 UnicodeData/Utrie2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/Utrie2.py b/UnicodeData/Utrie2.py
index 54846cc..fbd3a86 100644
--- a/UnicodeData/Utrie2.py
+++ b/UnicodeData/Utrie2.py
@@ -86,7 +86,7 @@ class UTrie2(object):
             offset = 0 if c >= 0xDC00 else self.LSCP_INDEX_2_OFFSET - (0xD800 >> self.SHIFT_2)
             return self.indexRaw(offset, c)
 
-        if c >= 0x10FFFF:
+        if c > 0x10FFFF:
             return asciiOffset + self.BAD_UTF8_DATA_OFFSET
 
         return self.highValueIndex if c >= self.highStart else self.indexFromSupp(c)
-- 
2.43.0


From f1cfcc336b902d0c4e821b5f2fdabba6f3222a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:24 +0000
Subject: [PATCH 08/17] fix: UTrie2.enumerator ranges agree with get()

The loop over the data blocks ran one block too far, so the ranges overlapped
or were assigned to the wrong code points, and a start or limit inside a
block shifted everything after it.
---
 UnicodeData/Utrie2.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/UnicodeData/Utrie2.py b/UnicodeData/Utrie2.py
index fbd3a86..afed367 100644
--- a/UnicodeData/Utrie2.py
+++ b/UnicodeData/Utrie2.py
@@ -109,7 +109,7 @@ class UTrie2(object):
         # enumerate index-2 blocks
         c = start
         while c < limit and c < self.highStart:
-            tempLimit = min(c + self.CP_PER_INDEX_1_ENTRY, limit)
+            tempLimit = min((c | (self.CP_PER_INDEX_1_ENTRY - 1)) + 1, limit)
 
             if c <= 0xFFFF:
                 # We're in the BMP
@@ -122,12 +122,12 @@ class UTrie2(object):
                 elif isSurrogateLead(c):
                     # Enumerate values for lead surrogate code points, not code units:
                     # This special block has half the normal length.
-                    i2Block = self.LSCP_INDEX_2_OFFSET
+                    i2Block = self.LSCP_INDEX_2_OFFSET + ((c - 0xD800) >> self.SHIFT_2)
                     tempLimit = min(0xDC00, limit)
                 else:
                     # Switch back to the normal part of the index-2 table.
                     # Enumerate the second half of the surrogates block.
-                    i2Block = 0xDC00 >> self.SHIFT_2
+                    i2Block = c >> self.SHIFT_2
                     tempLimit = min(0xE000, limit)
             else:
                 # supplementary code point
@@ -147,29 +147,23 @@ class UTrie2(object):
                 if prevValue != initialValue:
                     if prev < c: yield range(prev, c), prevValue
 
-                    prevBlock = self.dataNullOffset
                     prev = c
                     prevValue = initialValue
 
-                c += self.CP_PER_INDEX_1_ENTRY
+                prevBlock = self.dataNullOffset
+                c = tempLimit
             else:
                 # enumerate data blocks for one index-2 block
                 if c <= 0xFFFF:
                     # We're in the BMP
                     i2Start = 0
-                    i2Limit = (tempLimit >> self.SHIFT_2) - i2Block
-
-                    # if we're in the high surrogate range, i2Limit will be negative,
-                    # so we want to just do the high surroaget block
-                    if i2Limit < 0: i2Limit = 0
                 else:
                     i2Start = (c >> self.SHIFT_2) & self.INDEX_2_MASK
-                    i2Limit = (tempLimit >> self.SHIFT_2) & self.INDEX_2_MASK
 
-                    if (c >> self.SHIFT_1) != (tempLimit >> self.SHIFT_1):
-                        i2Limit = self.INDEX_2_BLOCK_LENGTH
+                # the blocks from the one with c to the one with tempLimit - 1
+                i2Limit = i2Start + ((tempLimit - 1) >> self.SHIFT_2) - (c >> self.SHIFT_2) + 1
 
-                for i2 in range(i2Start, i2Limit + 1):
+                for i2 in range(i2Start, i2Limit):
                     block = self.index[i2Block + i2] << self.INDEX_SHIFT
 
                     if block == prevBlock and (c - prev) >= self.DATA_BLOCK_LENGTH:
@@ -186,7 +180,7 @@ class UTrie2(object):
                             prev = c
                             prevValue = initialValue
 
-                        c += self.DATA_BLOCK_LENGTH
+                        c = (c | self.DATA_MASK) + 1
                     else:
                         jStart = c & self.DATA_MASK
                         jLimit = min(self.DATA_BLOCK_LENGTH, jStart + tempLimit - c)
-- 
2.43.0


From efee4d67184c5f2c8658c950584780ff9859dd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:24 +0000
Subject: [PATCH 09/17] fix: CPTrie.enumerator covers the whole range and
 terminates

It looped over the wrong number of index entries (and so never finished, or
skipped code points), treated blocks as uniform that are not, and left out
the range that starts at highStart.
---
 UnicodeData/CPTrie.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/UnicodeData/CPTrie.py b/UnicodeData/CPTrie.py
index 646e0d3..e0be89a 100644
--- a/UnicodeData/CPTrie.py
+++ b/UnicodeData/CPTrie.py
@@ -244,13 +244,14 @@ class CPTrie(object):
         return self.data[dataIndex]
 
     def enumerator(self, start: int = 0, limit: int = 0x110000) -> typing.Iterator[tuple[range, typing.Any]]:
-        if start >= 0x110000 or start >= self.highStart:
+        if start >= 0x110000:
             return
 
         prevI3Block = -1
         prevBlock = -1
         prev = start
-        nullValue = self.data[self.dataNullOffset]
+        nullOffset = self.dataNullOffset if self.dataNullOffset < self.dataLength else self.dataLength - UCPTRIE_HIGH_VALUE_NEG_DATA_OFFSET
+        nullValue = self.data[nullOffset]
         prevValue = nullValue  # or 0?
 
         c = start
@@ -258,7 +259,7 @@ class CPTrie(object):
             if c <= 0xFFFF and (self.trieType == UCPTRIE_TYPE_FAST or c <= UCPTRIE_SMALL_MAX):
                 i3Block = 0
                 i3Start = c >> UCPTRIE_FAST_SHIFT
-                # i3BlockLength = UCPTRIE_BMP_INDEX_LENGTH if self.trieType == UCPTRIE_TYPE_FAST else UCPTRIE_SMALL_INDEX_LENGTH
+                i3BlockLength = UCPTRIE_BMP_INDEX_LENGTH if self.trieType == UCPTRIE_TYPE_FAST else UCPTRIE_SMALL_INDEX_LENGTH
                 dataBlockLength = UCPTRIE_FAST_DATA_BLOCK_LENGTH
             else:
                 # use the multi-stage index
@@ -271,13 +272,14 @@ class CPTrie(object):
                     i1 += UCPTRIE_SMALL_INDEX_LENGTH
 
                 i3Block = self.index[self.index[i1] + ((c >> UCPTRIE_SHIFT_2) & UCPTRIE_INDEX_2_MASK)]
-                if i3Block == prevI3Block and (c - start) >= UCPTRIE_CP_PER_INDEX_2_ENTRY:
+                if i3Block == prevI3Block and (c - prev) >= UCPTRIE_CP_PER_INDEX_2_ENTRY:
                     # The index-3 block is the same as the previous one, and filled with value.
                     assert (c & (UCPTRIE_CP_PER_INDEX_2_ENTRY - 1)) == 0
                     c += UCPTRIE_CP_PER_INDEX_2_ENTRY
                     continue
 
                 prevI3Block = i3Block
+                prevBlock = -1  # the previous block may have been a longer one
                 if i3Block == self.index3NullOffset:
                     # This is the index-3 null block.
                     if nullValue != prevValue:
@@ -290,11 +292,11 @@ class CPTrie(object):
                     continue
 
                 i3Start = (c >> UCPTRIE_SHIFT_3) & UCPTRIE_INDEX_3_MASK
-                # i3BlockLength = UCPTRIE_INDEX_3_BLOCK_LENGTH
+                i3BlockLength = UCPTRIE_INDEX_3_BLOCK_LENGTH
                 dataBlockLength = UCPTRIE_SMALL_DATA_BLOCK_LENGTH
 
             # Enumerate data blocks for one index-3 block.
-            for i3 in range(i3Start, dataBlockLength):
+            for i3 in range(i3Start, i3BlockLength):
                 if c >= limit: break
                 if (i3Block & 0x8000) == 0:
                     block = self.index[i3Block + i3]
@@ -305,7 +307,7 @@ class CPTrie(object):
                     block = (self.index[group] << (2 + (2 * gi))) & 0x30000
                     block |= self.index[group + gi + 1]  # C++ code indexes by group++ in previous line
 
-                if block == prevBlock and (c - start) >= dataBlockLength:
+                if block == prevBlock and (c - prev) >= dataBlockLength:
                     # The block is the same as the previous one, and filled with value.
                     assert (c & (dataBlockLength - 1)) == 0
                     c += dataBlockLength
@@ -346,6 +348,10 @@ class CPTrie(object):
             highValue = self.data[di]
             if highValue != prevValue:
                 if prev < c: yield range(prev, c), prevValue
+                prev = c
+                prevValue = highValue
+
+            c = limit
 
         # deliver last range
         if prev < c: yield range(prev, c), prevValue
-- 
2.43.0


From e5af1ee4812cdaf1ce0d4ef3815e0c9e057324c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 10/17] fix: isIDIgnorable covers the ignorable ISO controls

The result for code points up to U+009F was computed and dropped.
---
 UnicodeData/CharProps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index fa061fe..6271d32 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -152,8 +152,8 @@ def isIDPart(c: int) -> bool:
     return (gcMask(gc) & ( GC_ND_MASK | GC_NL_MASK | GC_L_MASK | GC_PC_MASK | GC_MC_MASK | GC_MN_MASK)) != 0 or isIDIgnorable(c)
 
 def isIDIgnorable(c: int) -> bool:
-    if c < 0x009F:
-        isISOControl(c) and not isThatASCIIControlSpace(c)
+    if c <= 0x009F:
+        return isISOControl(c) and not isThatASCIIControlSpace(c)
 
     gc = getGeneralCategory(c)
     return gc == GC_FORMAT_CHAR
-- 
2.43.0


From 72189fef6c2b6222b18c24c473eaf5ddbb73ae88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 11/17] fix: getUnicodeProperties gives 0 for every column past
 the last

column == propsVectorsColumns read the next vector instead.
---
 UnicodeData/CharProps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index 6271d32..7552f5b 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -20,7 +20,7 @@ def unicodePropertiesFromVecIndex(vecIndex: int, column: int):
     return propsVectors[vecIndex + column]
 
 def getUnicodeProperties(c: int, column: int):
-    if column > propsVectorsColumns:
+    if column >= propsVectorsColumns:
         return 0
 
     vecIndex = propsVectorTrie.get(c)
-- 
2.43.0


From e838779068667b149a4e1c164760fb57fc75e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 12/17] fix: getNumericType gives the numeric type

It gave the general category.
---
 UnicodeData/CharProps.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index 7552f5b..ff61b6e 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -171,7 +171,18 @@ def digitValue(c: int) -> int:
     return value if value <= 9 else -1
 
 def numericTypeFromProps(props: int) -> int:
-    return props & 0x1F
+    ntv = numericTypeValueFromProps(props)
+
+    if ntv == UPROPS_NTV_NONE:
+        return 0  # U_NT_NONE
+
+    if ntv < UPROPS_NTV_DIGIT_START:
+        return 1  # U_NT_DECIMAL
+
+    if ntv < UPROPS_NTV_NUMERIC_START:
+        return 2  # U_NT_DIGIT
+
+    return 3  # U_NT_NUMERIC
 
 def getNumericType(c: int) -> int:
     props = propsTrie.get(c)
-- 
2.43.0


From fbc22f08bc3cf82cfdfc423e3910d25882277989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 13/17] fix: CaseProperties.simpleTitleCase is a character

It was the raw attribute, e.g. "#" or "0041", unlike every other mapping.
---
 UnicodeData/CaseProperties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/CaseProperties.py b/UnicodeData/CaseProperties.py
index 3def9bc..42a807d 100644
--- a/UnicodeData/CaseProperties.py
+++ b/UnicodeData/CaseProperties.py
@@ -21,7 +21,7 @@ class CaseProperties(UCDProperties):
 
         self.simpleUpperCase = self.getCodePointsProperty("suc")
         self.simpleLowerCase = self.getCodePointsProperty("slc")
-        self.simpleTitleCase = self.getCharProperty("stc")
+        self.simpleTitleCase = self.getCodePointsProperty("stc")
 
         self.upperCase = self.getCodePointsProperty("uc")
         self.lowerCase = self.getCodePointsProperty("lc")
-- 
2.43.0


From 473c40f0c04f8ad504a611394e5acee12eeda809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 14/17] fix: ICUData is loaded completely or not at all

The bytes were published before the table of contents was read, so a second
thread saw an empty or partial table, and a load that failed half way was
taken for a success by the next one.  The file was never closed.
---
 UnicodeData/ICUDataFile.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/UnicodeData/ICUDataFile.py b/UnicodeData/ICUDataFile.py
index 3a1d9dc..76a74a3 100644
--- a/UnicodeData/ICUDataFile.py
+++ b/UnicodeData/ICUDataFile.py
@@ -68,18 +68,21 @@ class ICUData(object):
     _fileData: bytes = b""
 
     @classmethod
-    def getString(cls, offset: int):
+    def getString(cls, offset: int, fileData: typing.Optional[bytes] = None):
+        if fileData is None:
+            fileData = cls._fileData
+
         s = ""
 
-        while cls._fileData[offset] != 0:
-            s += chr(cls._fileData[offset])
+        while fileData[offset] != 0:
+            s += chr(fileData[offset])
             offset += 1
 
         return s
 
     @classmethod
-    def getName(cls, offset: int):
-        name = cls.getString(offset)  # Maybe check the prefix?
+    def getName(cls, offset: int, fileData: typing.Optional[bytes] = None):
+        name = cls.getString(offset, fileData)  # Maybe check the prefix?
         prefixOffset = name.index("/")
         return name[prefixOffset+1:]
 
@@ -103,29 +106,36 @@ class ICUData(object):
         if cls._fileData:
             return
 
-        dataFile = open(_dataFilePath, "rb")
-        cls._fileData = dataFile.read()
+        # Another thread may look while this one loads, and loading may fail:
+        # nothing is visible until all of it is there.
+        with open(_dataFilePath, "rb") as dataFile:
+            fileData = dataFile.read()
+
+        dataOffsets: dict[str, int] = {}
 
-        dh = sstruct.unpack(dataHeaderFormat, cls._fileData[:dataHeaderLength], DataHeader())
+        dh = sstruct.unpack(dataHeaderFormat, fileData[:dataHeaderLength], DataHeader())
         header = typing.cast(DataHeader, dh)
 
         # this would be a good place to verify (some of) the magic bytes, the data format,
         # the isBigEndian, charsetFamily and sizeofUChar...
 
         tocOffset = header.headerLength
-        (tocCount, ) = struct.unpack("I", cls._fileData[tocOffset:tocOffset + 4])
+        (tocCount, ) = struct.unpack("I", fileData[tocOffset:tocOffset + 4])
 
         tocEntryStart = tocOffset + 4
         tocEntryLimit = tocEntryStart + _tocEntryLength
 
         for _ in range(tocCount):
-            te = sstruct.unpack(_tocEntryFormat, cls._fileData[tocEntryStart:tocEntryLimit], TOCEntry())
+            te = sstruct.unpack(_tocEntryFormat, fileData[tocEntryStart:tocEntryLimit], TOCEntry())
             tocEntry = typing.cast(TOCEntry, te)
-            name = ICUData.getName(tocEntry.nameOffset + header.headerLength)
-            cls._dataOffsets[name] = tocEntry.dataOffset + header.headerLength
+            name = ICUData.getName(tocEntry.nameOffset + header.headerLength, fileData)
+            dataOffsets[name] = tocEntry.dataOffset + header.headerLength
             tocEntryStart = tocEntryLimit
             tocEntryLimit += _tocEntryLength
 
+        cls._dataOffsets = dataOffsets
+        cls._fileData = fileData
+
     def __init__(self):
         ICUData._populateData()
 
-- 
2.43.0


From f368eab26e568ea9252961a61ffe54ec37bfed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 15/17] fix: CharNames.nameIterator finds every algorithmic
 range

---
 UnicodeData/CharNames.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/UnicodeData/CharNames.py b/UnicodeData/CharNames.py
index 59100b4..3283131 100644
--- a/UnicodeData/CharNames.py
+++ b/UnicodeData/CharNames.py
@@ -456,27 +456,27 @@ class CharNames(object):
 
         return CharNames._getName(code, nameChoice)
 
+    @classmethod
+    def _groupNames(cls, start: int, limit: int, nameChoice: int) -> typing.Iterator[tuple[int, str]]:
+        for group in cls._groups:
+            if group.charRange.stop > start and group.charRange.start < limit:
+                for (code, name) in group.nameIterator(nameChoice):
+                    if start <= code < limit: yield (code, name)
+
     @classmethod
     def nameIterator(cls, nameChoice: int =U_UNICODE_CHAR_NAME) -> typing.Iterator[tuple[int, str]]:
-        charLimit = max(cls._groups[-1].charRange.stop, cls._algorithmicRanges[-1].charRange.stop)
+        # The groups and the algorithmic ranges are sorted, but a range needn't
+        # start or end on a group boundary.
         char = 0
-        algRange = 0
-        while char < charLimit:
-            group = cls.getGroup(char)
-            if group and char in group.charRange:
-                # group.nameChoice = self.nameChoice
-                for (code, name) in group.nameIterator(nameChoice):
-                    if name: yield (code, name)
-                char = group.charRange.stop
-            elif algRange < len(cls._algorithmicRanges) and cls._algorithmicRanges[algRange].charInRange(char):
-                algorithmicRange = cls._algorithmicRanges[algRange]
-                # algorithmicRange.nameChoice = self.nameChoice
-                for (code, name) in algorithmicRange.nameIterator(nameChoice):
-                    if name: yield (code, name)
-                char = algorithmicRange.charRange.stop
-                algRange += 1
-            else:
-                char += LINES_PER_GROUP
+        for algorithmicRange in cls._algorithmicRanges:
+            for (code, name) in cls._groupNames(char, algorithmicRange.charRange.start, nameChoice):
+                if name: yield (code, name)
+            for (code, name) in algorithmicRange.nameIterator(nameChoice):
+                if name: yield (code, name)
+            char = algorithmicRange.charRange.stop
+
+        for (code, name) in cls._groupNames(char, 0x110000, nameChoice):
+            if name: yield (code, name)
 
     @classmethod
     def charFromName(cls, theName: str, nameChoice:int=U_UNICODE_CHAR_NAME) -> int:
-- 
2.43.0


From 64b12f3fe5ee9df89d576e7b0f379eb62ec80ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:11 +0000
Subject: [PATCH 16/17] fix: an empty mapping in the UCD file is an empty
 string

---
 UnicodeData/UCDProperties.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UCDProperties.py b/UnicodeData/UCDProperties.py
index 7de5077..7900f3e 100644
--- a/UnicodeData/UCDProperties.py
+++ b/UnicodeData/UCDProperties.py
@@ -32,10 +32,12 @@ class UCDProperties(object):
         codePointString = self.getCharProperty(property)
 
         if type(codePointString) is str:
-            if len(codePointString) == 0 or codePointString == "#":
+            absent = property not in self._char.attrib and property not in self._group.attrib
+            if absent or codePointString == "#":
                 return f"{int(self.cp, 16):c}"
 
-            codePoints = codePointString.split(" ")
+            # The value may be empty, e.g. NFKC_CF of the default ignorable characters.
+            codePoints = codePointString.split()
             chars: list[str] = []
 
             for codePoint in codePoints:
-- 
2.43.0


From c03b473442edea4da607ac9c519a93bc54f6cc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 17/17] fix: legacy constants and value names agree with ICU

---
 UnicodeData/BidiProps.py  |  2 +-
 UnicodeData/Blocks.py     | 14 +++++++-------
 UnicodeData/Boundaries.py |  2 +-
 UnicodeData/Scripts.py    | 10 +++++-----
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/UnicodeData/BidiProps.py b/UnicodeData/BidiProps.py
index 57fb1e4..48ecf49 100644
--- a/UnicodeData/BidiProps.py
+++ b/UnicodeData/BidiProps.py
@@ -25,7 +25,7 @@ UBIDI_IX_JG_LIMIT = 5
 UBIDI_IX_JG_START2 = 6  # *new in format version 2.2, ICU 54
 UBIDI_IX_JG_LIMIT2 = 7
 
-UBIDI_MAX_VALUES_INDEX = 15,
+UBIDI_MAX_VALUES_INDEX = 15
 UBIDI_IX_TOP = 16
 
 # definitions for 16-bit bidi/shaping properties word
diff --git a/UnicodeData/Blocks.py b/UnicodeData/Blocks.py
index e3f2af4..e907b64 100644
--- a/UnicodeData/Blocks.py
+++ b/UnicodeData/Blocks.py
@@ -261,7 +261,7 @@ UBLOCK_PRIVATE_USE_AREA = 78  # [E000]
 #
 #* @ stable ICU 2.0
 
-UBLOCK_PRIVATE_USE = UBLOCK_PRIVATE_USE_AREA,
+UBLOCK_PRIVATE_USE = UBLOCK_PRIVATE_USE_AREA
 
 # @stable ICU 2.0
 UBLOCK_CJK_COMPATIBILITY_IDEOGRAPHS = 79  # [F900]
@@ -319,7 +319,7 @@ UBLOCK_CYRILLIC_SUPPLEMENT = 97  # [0500]
 # Unicode 4.0.1 renames the "Cyrillic Supary" block to "Cyrillic Sup".
 # @ stable ICU 2.2
 
-UBLOCK_CYRILLIC_SUPPLEMENTARY = UBLOCK_CYRILLIC_SUPPLEMENT,
+UBLOCK_CYRILLIC_SUPPLEMENTARY = UBLOCK_CYRILLIC_SUPPLEMENT
 # @stable ICU 2.2
 UBLOCK_TAGALOG = 98  # [1700]
 # @stable ICU 2.2
@@ -786,7 +786,7 @@ UBLOCK_TANGUT_SUPPLEMENT = 307  # [18D00]
 UBLOCK_YEZIDI = 308  # [10E80]
 
 blockNames = {
-    UBLOCK_NO_BLOCK: "No Block",
+    UBLOCK_NO_BLOCK: "NB",
     UBLOCK_BASIC_LATIN: "ASCII",
     UBLOCK_LATIN_1_SUPPLEMENT: "Latin 1 Sup",
     UBLOCK_LATIN_EXTENDED_A: "Latin Ext A",
@@ -862,9 +862,9 @@ blockNames = {
     UBLOCK_YI_RADICALS: "Yi Radicals",
     UBLOCK_HANGUL_SYLLABLES: "Hangul",
     UBLOCK_HIGH_SURROGATES: "High Surrogates",
-    UBLOCK_HIGH_PRIVATE_USE_SURROGATES: "High Private Use Surrogates",
+    UBLOCK_HIGH_PRIVATE_USE_SURROGATES: "High PU Surrogates",
     UBLOCK_LOW_SURROGATES: "Low Surrogates",
-    UBLOCK_PRIVATE_USE_AREA: "Private Use Area",
+    UBLOCK_PRIVATE_USE_AREA: "PUA",
     UBLOCK_CJK_COMPATIBILITY_IDEOGRAPHS: "CJK Compat Ideographs",
     UBLOCK_ALPHABETIC_PRESENTATION_FORMS: "Alphabetic PF",
     UBLOCK_ARABIC_PRESENTATION_FORMS_A: "Arabic PF A",
@@ -895,8 +895,8 @@ blockNames = {
     UBLOCK_SUPPLEMENTAL_MATHEMATICAL_OPERATORS: "Sup Math Operators",
     UBLOCK_KATAKANA_PHONETIC_EXTENSIONS: "Katakana Ext",
     UBLOCK_VARIATION_SELECTORS: "VS",
-    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_A: "Supary Private Use Area A",
-    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_B: "Supary Private Use Area B",
+    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_A: "Sup PUA A",
+    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_B: "Sup PUA B",
     UBLOCK_LIMBU: "Limbu",
     UBLOCK_TAI_LE: "Tai Le",
     UBLOCK_KHMER_SYMBOLS: "Khmer Symbols",
diff --git a/UnicodeData/Boundaries.py b/UnicodeData/Boundaries.py
index 2e70a91..1ce6ca5 100644
--- a/UnicodeData/Boundaries.py
+++ b/UnicodeData/Boundaries.py
@@ -194,7 +194,7 @@ wordBreakNames = {
     WB_E_MODIFIER: "EM",
     WB_GLUE_AFTER_ZWJ: "GAZ",
     WB_ZWJ: "ZWJ",
-    WB_WSEGSPACE: "WSEGSPACE"
+    WB_WSEGSPACE: "WSegSpace"
 }
 
 sentenceBreakNames = {
diff --git a/UnicodeData/Scripts.py b/UnicodeData/Scripts.py
index e3a4649..7093e90 100644
--- a/UnicodeData/Scripts.py
+++ b/UnicodeData/Scripts.py
@@ -48,7 +48,7 @@ USCRIPT_THAANA       = 37  # 'Thaa'
 USCRIPT_THAI         = 38  # 'Thai'
 USCRIPT_TIBETAN      = 39  # 'Tibt'
 USCRIPT_CANADIAN_ABORIGINAL = 40  # 'Cans'
-USCRIPT_UCAS         = USCRIPT_CANADIAN_ABORIGINAL,
+USCRIPT_UCAS         = USCRIPT_CANADIAN_ABORIGINAL
 USCRIPT_YI           = 41  # 'Yiii'
 
 # New scripts in Unicode 3.2
@@ -103,17 +103,17 @@ USCRIPT_LATIN_GAELIC                  = 81  # 'Latg'
 USCRIPT_LEPCHA                        = 82  # 'Lepc'
 USCRIPT_LINEAR_A                      = 83  # 'Lina'
 USCRIPT_MANDAIC                       = 84  # 'Mand'
-USCRIPT_MANDAEAN                      = USCRIPT_MANDAIC,
+USCRIPT_MANDAEAN                      = USCRIPT_MANDAIC
 USCRIPT_MAYAN_HIEROGLYPHS             = 85  # 'Maya'
 USCRIPT_MEROITIC_HIEROGLYPHS          = 86  # 'Mero'
-USCRIPT_MEROITIC                      = USCRIPT_MEROITIC_HIEROGLYPHS,
+USCRIPT_MEROITIC                      = USCRIPT_MEROITIC_HIEROGLYPHS
 USCRIPT_NKO                           = 87  # 'Nkoo'
 USCRIPT_ORKHON                        = 88  # 'Orkh'
 USCRIPT_OLD_PERMIC                    = 89  # 'Perm'
 USCRIPT_PHAGS_PA                      = 90  # 'Phag'
 USCRIPT_PHOENICIAN                    = 91  # 'Phnx'
 USCRIPT_MIAO                          = 92  # 'Plrd'
-USCRIPT_PHONETIC_POLLARD              = USCRIPT_MIAO,
+USCRIPT_PHONETIC_POLLARD              = USCRIPT_MIAO
 USCRIPT_RONGORONGO                    = 93  # 'Roro'
 USCRIPT_SARATI                        = 94  # 'Sara'
 USCRIPT_ESTRANGELO_SYRIAC             = 95  # 'Syre'
@@ -167,7 +167,7 @@ USCRIPT_OLD_NORTH_ARABIAN             = 142  # 'Narb'
 USCRIPT_NABATAEAN                     = 143  # 'Nbat'
 USCRIPT_PALMYRENE                     = 144  # 'Palm'
 USCRIPT_KHUDAWADI                     = 145  # 'Sind'
-USCRIPT_SINDHI                        = USCRIPT_KHUDAWADI,
+USCRIPT_SINDHI                        = USCRIPT_KHUDAWADI
 USCRIPT_WARANG_CITI                   = 146  # 'Wara'
 USCRIPT_AFAKA                         = 147  # 'Afak'
 USCRIPT_JURCHEN                       = 148  # 'Jurc'
-- 
2.43.0

