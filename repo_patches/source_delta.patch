From 6e0c4c8c23ab6b23b7a13de4eb0ab65184a28d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:58 +0000
Subject: [PATCH 01/15] fix: save BMG script start indices as 16-bit values

The loader reads each script as a 32-bit ID, a 16-bit index and two
padding bytes. The writer used a 32-bit index, so in big-endian files
the index landed in the padding and was read back as 0.
---
 ndspy/bmg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index 1967e52..69b708b 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -299,7 +299,7 @@ class BMG:
             FLW1.extend(struct.pack(se + 'b', bmgID))
 
         for id, startIndex in self.scripts:
-            FLI1.extend(struct.pack(se + 'II', id, startIndex))
+            FLI1.extend(struct.pack(se + 'IHxx', id, startIndex))
 
         # Sections' lengths must be 32-byte aligned
         while len(INF1) % 32: INF1.append(0)
-- 
2.43.0


From 922464f7cfa59963ac57adbe42d89b0115106a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:58 +0000
Subject: [PATCH 02/15] fix: detect BMG endianness from the section count

The file length is ambiguous: a little-endian file of 0x020100 bytes
was taken for a big-endian one. The section count is always tiny, so
its byte order is clear.
---
 ndspy/bmg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index 69b708b..64a3fb9 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -89,11 +89,11 @@ class BMG:
         # Super Princess Peach uses *big-endian* BMGs. What even.
 
         # Well, OK, whatever. We can make an extremely accurate guess by
-        # reading the file length value both ways and seeing which one
+        # reading the section count value both ways and seeing which one
         # seems to make more sense:
-        dataLenLE, = struct.unpack_from('<I', data, 8)
-        dataLenBE, = struct.unpack_from('>I', data, 8)
-        self.endianness = se = '<' if dataLenLE < dataLenBE else '>'
+        sectionCountLE, = struct.unpack_from('<I', data, 12)
+        sectionCountBE, = struct.unpack_from('>I', data, 12)
+        self.endianness = se = '<' if sectionCountLE < sectionCountBE else '>'
         # Still, though... ugh.
 
         magic, dataLen, sectionCount, enc, self.unk14, self.unk18, self.unk1C = \
-- 
2.43.0


From cdac4043a8d67328480082567d31d3e033ed3d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:58 +0000
Subject: [PATCH 03/15] fix: allow saving a MainCodeFile without a code
 settings block

MainCodeFile.save() raised TypeError if no code settings block had been
found when loading.
---
 ndspy/code.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index 0681405..6246611 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -246,9 +246,9 @@ class MainCodeFile:
 
         if compress:
             data = bytearray(codeCompression.compress(data, True))
-            setInt(cso + 0x14, self.ramAddress + len(data))
-        else:
-            setInt(cso + 0x14, 0)
+
+        if cso is not None:
+            setInt(cso + 0x14, self.ramAddress + len(data) if compress else 0)
 
         return data
 
-- 
2.43.0


From 43eeb1483ae21bbe83a0db2f80e63146104e6dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:58 +0000
Subject: [PATCH 04/15] fix: pass unk02 on in SWAR.fromFile()

The argument was accepted but ignored.
---
 ndspy/soundWaveArchive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/soundWaveArchive.py b/ndspy/soundWaveArchive.py
index 4c216f7..70d179c 100644
--- a/ndspy/soundWaveArchive.py
+++ b/ndspy/soundWaveArchive.py
@@ -101,7 +101,7 @@ class SWAR:
         Load a SWAR from a filesystem file.
         """
         with open(filePath, 'rb') as f:
-            return cls(f.read(), unk02=0)
+            return cls(f.read(), unk02)
 
 
     def save(self):
-- 
2.43.0


From bee9327eee06b028d2bf2b0e28f76cd854d63cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:58 +0000
Subject: [PATCH 05/15] fix: allow unnamed empty sequence archive slots when
 saving SDAT

SDAT.save() raised AttributeError if the first sequence archives were
empty slots without names.
---
 ndspy/soundArchive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndspy/soundArchive.py b/ndspy/soundArchive.py
index 54bb0b2..5e4a1e6 100644
--- a/ndspy/soundArchive.py
+++ b/ndspy/soundArchive.py
@@ -400,6 +400,7 @@ class SDAT:
                     if symbol is not None:
                         anyActualSymbols = True
                         break
+                    if entry is None: continue
                     for subSymbol, subEntry in entry.sequences:
                         if subSymbol is not None:
                             anyActualSubsymbols = True
-- 
2.43.0


From 9f59cc6ea84733e786a905d091113f4479134d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:20 +0000
Subject: [PATCH 06/15] fix: store code uncompressed when compressing would not
 shrink it

The footer holds how many bytes longer the code gets when decompressed.
For barely compressible data that number is zero, which marks the data
as uncompressed, or negative, which made compress() raise struct.error.
---
 ndspy/codeCompression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ndspy/codeCompression.py b/ndspy/codeCompression.py
index 59a7c5b..37097b5 100644
--- a/ndspy/codeCompression.py
+++ b/ndspy/codeCompression.py
@@ -256,7 +256,9 @@ def _compress(data: bytes) -> bytearray:
         _lzCommon.compress(bytes(reversed(data)), 3, 0x1002, 18, False, True)
     compressed = bytearray(reversed(compressed))
 
-    if not compressed or (len(data) + 4 < ((len(compressed) + 3) & ~4) + 8):
+    if (not compressed
+            or (len(data) + 4 < ((len(compressed) + 3) & ~4) + 8)
+            or (len(data) <= ((len(compressed) - ignorableC + ignorableD + 3) & ~3) + 8)):
         # Compressed size too large -- copy the raw data over instead
 
         compressed = bytearray(data)
-- 
2.43.0


From 40a4aaef5c2c754f54e858c95a970cde203a7a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:20 +0000
Subject: [PATCH 07/15] fix: reject code compression footers with wrong padding

The check that the footer padding is entirely 0xFF had no effect, so
uncompressed data could be taken for compressed data, and decompress()
raised ValueError instead of returning it as it is.
---
 ndspy/codeCompression.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndspy/codeCompression.py b/ndspy/codeCompression.py
index 37097b5..b685877 100644
--- a/ndspy/codeCompression.py
+++ b/ndspy/codeCompression.py
@@ -49,9 +49,9 @@ def _detectAppendedData(data: bytes) -> int | None:
         if compressedLen > len(data): continue
         for byte in data[-possibleAmt - headerLen  : -possibleAmt - 8]:
             if byte != 0xFF:
-                continue
-
-        return possibleAmt
+                break
+        else:
+            return possibleAmt
 
     return None
 
-- 
2.43.0


From 73b9d4111ca3d19534fcad2f2a31b4d888bef97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:20 +0000
Subject: [PATCH 08/15] fix: encode FromVariableSequenceEvent in the length it
 reports

The event is 3 or 4 bytes long, but save() returned 4 or 6 bytes, which
spilled over into the following events or the end of the sequence. The
reader also took the type of the following event for a part of the
variable ID.
---
 ndspy/soundSequence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index 9601a8e..7b99730 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -586,14 +586,14 @@ class FromVariableSequenceEvent(SequenceEvent):
 
     def save(self, eventsToOffsets=None):
         if self.dataLength == 3:
-            return super().save() + struct.pack('<Bh',
+            return super().save() + struct.pack('<Bb',
                                                 self.subType,
                                                 self.variableID)
         else:
             if self.unknown is None:
                 raise ValueError('FromVariableSequenceEvent: trying to'
                     ' save with unknown, but unknown is None!')
-            return super().save() + struct.pack('<Bbbxx',
+            return super().save() + struct.pack('<Bbb',
                                                 self.subType,
                                                 self.unknown,
                                                 self.variableID)
@@ -607,7 +607,7 @@ class FromVariableSequenceEvent(SequenceEvent):
                                                      startOffset + 2)
         else:
             unknown = None
-            variableID, = struct.unpack_from('<h', data, startOffset + 2)
+            variableID, = struct.unpack_from('<b', data, startOffset + 2)
         return cls(subType, variableID, unknown)
 
     def __str__(self):
-- 
2.43.0


From 1282f69f771dd1e831fb2ef44255bfd5feddd2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:20 +0000
Subject: [PATCH 09/15] fix: render tile lists whose last row is incomplete

renderImageTiles() and renderTilemapTiles() make room for an incomplete
last row, but raised StopIteration when they reached its end.
---
 ndspy/graphics2D.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/ndspy/graphics2D.py b/ndspy/graphics2D.py
index 8083356..9d969f9 100644
--- a/ndspy/graphics2D.py
+++ b/ndspy/graphics2D.py
@@ -407,13 +407,12 @@ def renderImageTiles(tiles, colors, paletteNum=0, width=32):
 
     img = [(0, 0, 0, 0)] * (width * height * 64)
 
-    tileIter = iter(tiles)
-    for y in range(height):
-        for x in range(width):
-            tilePixels = next(tileIter).render(colors, paletteNum)
-            for y2 in range(8):
-                base = ((y * 8 + y2) * width + x) * 8
-                img[base : base + 8] = tilePixels[y2 * 8 : y2 * 8 + 8]
+    for i, tile in enumerate(tiles):
+        y, x = divmod(i, width)
+        tilePixels = tile.render(colors, paletteNum)
+        for y2 in range(8):
+            base = ((y * 8 + y2) * width + x) * 8
+            img[base : base + 8] = tilePixels[y2 * 8 : y2 * 8 + 8]
 
     return img
 
@@ -442,13 +441,12 @@ def renderTilemapTiles(tilemapTiles, imageTiles, colors, width, tileNumOffset=0)
 
     img = [(0, 0, 0, 0)] * (width * height * 64)
 
-    tilemapIter = iter(tilemapTiles)
-    for y in range(height):
-        for x in range(width):
-            tilePixels = next(tilemapIter).render(imageTiles, colors, tileNumOffset)
-            for y2 in range(8):
-                base = ((y * 8 + y2) * width + x) * 8
-                img[base : base + 8] = tilePixels[y2 * 8 : y2 * 8 + 8]
+    for i, tile in enumerate(tilemapTiles):
+        y, x = divmod(i, width)
+        tilePixels = tile.render(imageTiles, colors, tileNumOffset)
+        for y2 in range(8):
+            base = ((y * 8 + y2) * width + x) * 8
+            img[base : base + 8] = tilePixels[y2 * 8 : y2 * 8 + 8]
 
     return img
 
-- 
2.43.0


From 340e8fd14f0b338ca64734b75e86a81cadacf55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:20 +0000
Subject: [PATCH 10/15] fix: let tileAt() and putTile() reach rows beyond the
 width

The row number was compared with the row width, so tile lists that are
taller than wide could not be accessed completely.
---
 ndspy/graphics2D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndspy/graphics2D.py b/ndspy/graphics2D.py
index 9d969f9..fdfbd70 100644
--- a/ndspy/graphics2D.py
+++ b/ndspy/graphics2D.py
@@ -472,7 +472,7 @@ def tileAt(tiles, x, y, *, width=32):
     TODO: maybe rename it somehow to indicate that? Maybe even move it
     into ndspy.__init__ (like the named-list things)?
     """
-    if x >= width or y >= width: return None
+    if x >= width: return None
     if x < 0 or y < 0: return None
     try:
         return tiles[y * width + x]
@@ -490,7 +490,7 @@ def putTile(tiles, x, y, t, *, width=32):
     into ndspy.__init__ (like the named-list things)?
     Returns True if the tile was placed, False otherwise (i.e. OOB)
     """
-    if x >= width or y >= width: return False
+    if x >= width: return False
     if x < 0 or y < 0: return False
     try:
         tiles[y * width + x] = t
-- 
2.43.0


From a7f87137abd8bc468a687720c5cf1587ce4ff5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:19 +0000
Subject: [PATCH 11/15] fix: allow updating the device capacity of ROMs below
 128 KiB

The computed capacity was negative for such ROMs, which made save()
raise ValueError. Zero, meaning 128 KiB, is the smallest capacity.
---
 ndspy/rom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/rom.py b/ndspy/rom.py
index 78af762..068664b 100644
--- a/ndspy/rom.py
+++ b/ndspy/rom.py
@@ -458,7 +458,7 @@ class NintendoDSRom:
         # Now that we know how large the ROM data is, we can update the
         # device capacity value
         if updateDeviceCapacity:
-            self.deviceCapacity = math.ceil(math.log2(len(data))) - 17
+            self.deviceCapacity = max(0, math.ceil(math.log2(len(data))) - 17)
 
         # Now that all the offsets and stuff are determined, write the
         # header data
-- 
2.43.0


From 59795e64d671beaedde0de2bf2da0a269bdadd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:35 +0000
Subject: [PATCH 12/15] fix: keep every file in sortedFileIds when loading a
 ROM

An empty file has the same offset as the file after it, and only one of
the two ended up in the list. The other one was moved to the end of the
ROM when it was saved again.
---
 ndspy/rom.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ndspy/rom.py b/ndspy/rom.py
index 068664b..6cfb0cb 100644
--- a/ndspy/rom.py
+++ b/ndspy/rom.py
@@ -308,13 +308,13 @@ class NintendoDSRom:
         self.files = []
         self.sortedFileIds = []
         if fat:
-            offset2Id = {}
+            offsetsAndIds = []
             for i in range(len(fat) // 8):
                 startOffset, endOffset = struct.unpack_from('<II', fat, 8 * i)
                 self.files.append(data[startOffset:endOffset])
-                offset2Id[startOffset] = i
-            for off in sorted(offset2Id):
-                self.sortedFileIds.append(offset2Id[off])
+                offsetsAndIds.append((startOffset, endOffset, i))
+            for _, _, i in sorted(offsetsAndIds):
+                self.sortedFileIds.append(i)
 
 
     @classmethod
-- 
2.43.0


From 32728789e9db0ff41b0c24eabb94a911abe80eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:11 +0000
Subject: [PATCH 13/15] fix: remember where a jump event leads when reading
 sequences

A subroutine that starts with a jump was taken for an endless loop from
the second call on, so the events after that call were read as raw data.
---
 ndspy/soundSequence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index 7b99730..03bf59d 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -1304,6 +1304,7 @@ def readSequenceEvents(data, notableOffsets=None):
                     fate = parse_at(destination)
                     event.destination = events[destination]
 
+                    fates[off] = fate
                     for off_ in offsetsOfMySequentialEvents:
                         fates[off_] = fate
 
-- 
2.43.0


From 46c758f51f2f27aa0d0d1904c90cae0effff3dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:11 +0000
Subject: [PATCH 14/15] fix: mark empty SSAR sequences as parsed

SSAR.parse() left sequences that have no first event unparsed, so a
parsed SSAR with such a sequence could not be saved.
---
 ndspy/soundSequenceArchive.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndspy/soundSequenceArchive.py b/ndspy/soundSequenceArchive.py
index e185713..b2df255 100644
--- a/ndspy/soundSequenceArchive.py
+++ b/ndspy/soundSequenceArchive.py
@@ -167,6 +167,10 @@ class SSAR:
                 seq.parsed = True
                 seq.firstEvent = event
 
+        # Sequences without any events are parsed now, too
+        for seqName, seq in self.sequences:
+            seq.parsed = True
+
 
     def save(self):
         """
-- 
2.43.0


From 2ac7057af05b09b857d0810408c80851c875ef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:48 +0000
Subject: [PATCH 15/15] fix: return short uncompressed code files unchanged

decompress() raised struct.error for files of fewer than 36 bytes whose
length is not a multiple of 4, because the footer search read before the
start of the data.
---
 ndspy/codeCompression.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ndspy/codeCompression.py b/ndspy/codeCompression.py
index b685877..007eb54 100644
--- a/ndspy/codeCompression.py
+++ b/ndspy/codeCompression.py
@@ -36,9 +36,7 @@ def _detectAppendedData(data: bytes) -> int | None:
     if so, or None if the data doesn't seem to be compressed.
     """
     for possibleAmt in range(0, 0x20, 4):
-        try:
-            headerLen = data[-5 - possibleAmt]
-        except IndexError:
+        if len(data) < possibleAmt + 8:
             return None
 
         compLenHeaderLen, extraSize = struct.unpack_from('<II', data, len(data) - possibleAmt - 8)
-- 
2.43.0

