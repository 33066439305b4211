From 2acef5bafba392679ede5bc34cbf7f20e67bc6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:57 +0000
Subject: [PATCH 01/18] fix: detect loops in the DOS 3.3 catalog chain

readCatalogSectors checked the set of visited sectors but never added to it,
so a catalog sector linking back to an earlier one looped forever.
---
 dos3/dos3.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index a909ca3..7425dfe 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -509,6 +509,7 @@ func readCatalogSectors(diskbytes []byte, debug int) ([]CatalogSector, error) {
 		if seen[ts] {
 			return nil, fmt.Errorf("Catalog tries to read TrackSector track=%d sector=%d twice", nextTrack, nextSector)
 		}
+		seen[ts] = true
 		if nextTrack >= v.NumTracks {
 			return nil, fmt.Errorf("catalog sectors can't be in track %d: disk only has %d tracks", nextTrack, v.NumTracks)
 		}
-- 
2.43.0


From 563c4a032bc6701c4c196b0d7318a7daadefb2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:58 +0000
Subject: [PATCH 02/18] fix: a DOS 3.3 track/sector list without entries
 describes no data

Contents read 122 sectors of zeros when the last track/sector list was empty.
---
 dos3/dos3.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index 7425dfe..62d4466 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -413,6 +413,7 @@ func (fd *FileDesc) Contents(diskbytes []byte) ([]byte, error) {
 		end := 121
 		// If it's the last tsl, stop at the last non-zero TrackSector.
 		if i == len(tsls)-1 {
+			end = -1
 			for j, ts := range tsl.TrackSectors {
 				if ts.Track != 0 || ts.Sector != 0 {
 					end = j
-- 
2.43.0


From 6bd43475d71fe771192ca43a1ac11e3e66783fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:58 +0000
Subject: [PATCH 03/18] fix: do not read past the end of DOS 3.3 file contents
 in GetFile

A text file of zeros only made GetFile panic, and a length header larger than
the file either panicked or returned bytes that are not part of the file.
---
 dos3/dos3.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dos3/dos3.go b/dos3/dos3.go
index 62d4466..5cfd16c 100644
--- a/dos3/dos3.go
+++ b/dos3/dos3.go
@@ -624,7 +624,7 @@ func (o operator) GetFile(filename string) (types.FileInfo, error) {
 	errType := "UNKNOWN"
 	switch fd.Filetype & 0x7f {
 	case FiletypeText: // Text file
-		for data[len(data)-1] == 0 {
+		for len(data) > 0 && data[len(data)-1] == 0 {
 			data = data[:len(data)-1]
 		}
 		fi.Descriptor.Length = len(data)
@@ -638,10 +638,19 @@ func (o operator) GetFile(filename string) (types.FileInfo, error) {
 		case FiletypeInteger:
 			// TODO(zellyn): figure out what address integer basic programs are stored at.
 		case FiletypeBinary:
+			if len(data) < 2 {
+				return types.FileInfo{}, fmt.Errorf("file %q is too short to hold its start address", filename)
+			}
 			fi.StartAddress = uint16(data[0]) + uint16(data[1])<<8
 			data = data[2:]
 		}
+		if len(data) < 2 {
+			return types.FileInfo{}, fmt.Errorf("file %q is too short to hold its length", filename)
+		}
 		length := int(data[0]) + int(data[1])*256
+		if length > len(data)-2 {
+			return types.FileInfo{}, fmt.Errorf("file %q should be %d bytes long, but only %d are present", filename, length, len(data)-2)
+		}
 		data = data[2 : length+2]
 		fi.Descriptor.Length = length
 		fi.Data = data
-- 
2.43.0


From 210d29f02f504cb698ff9c84d574d44117ac592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:59 +0000
Subject: [PATCH 04/18] fix: refuse to write empty NakedOS files instead of
 panicking

WriteFile with no contents sliced past the end of its buffer on the first free
sector. A file owning no sectors does not exist in NakedOS, so return an error.
---
 supermon/supermon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index f3add84..915f137 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -193,6 +193,9 @@ func (sm SectorMap) WriteFile(diskbytes []byte, file byte, contents []byte, over
 	copy(cts, contents)
 	existing := len(sm.SectorsForFile(file))
 	existed := existing > 0
+	if sectorsNeeded == 0 {
+		return existed, fmt.Errorf("cannot write file %d: NakedOS files cannot be empty", file)
+	}
 	free := sm.FreeSectors() + existing
 	if free < sectorsNeeded {
 		return existed, errors.OutOfSpacef("file %d requires %d sectors, but only %d are available", file, sectorsNeeded, free)
-- 
2.43.0


From 6a9410ed4f5e45d4f6178f78db8f1f89425edf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:59 +0000
Subject: [PATCH 05/18] fix: reject characters that Super-Mon symbols cannot
 hold

encodeSymbol silently dropped them, so the name stored was a different one.
---
 supermon/supermon.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 915f137..a4dcced 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -298,6 +298,8 @@ func encodeSymbol(name string) (six []byte, err error) {
 		case '5' <= ch && ch <= '9':
 			value = value<<6 + 0x3b + uint64(ch-'5')
 			bits += 6
+		default:
+			return nil, fmt.Errorf("invalid Super-Mon symbol %q: cannot encode %q", name, ch)
 		}
 		if bits > 48 {
 			return nil, fmt.Errorf("invalid Super-Mon symbol %q: too long", name)
-- 
2.43.0


From 6835608b06ea137b4e5597c9438ef1b5fb81a739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:00 +0000
Subject: [PATCH 06/18] fix: accept valid and reject invalid names in
 ParseCompoundSymbol

The check on the result of encodeSymbol was inverted.
---
 supermon/supermon.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index a4dcced..2178d4c 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -584,8 +584,7 @@ func (st SymbolTable) ParseCompoundSymbol(name string) (address uint16, symAddre
 			return uint16(addr), 0, "", nil
 		}
 		// If it's a valid symbol name, assume that's what it is.
-		if _, err := encodeSymbol(name); err != nil {
-			//nolint:nilerr
+		if _, err := encodeSymbol(name); err == nil {
 			return 0, 0, name, nil
 		}
 		return 0, 0, "", fmt.Errorf("%q is not a valid symbol name or address", name)
-- 
2.43.0


From a24349240d15429b576db6c0a1dc2e46dbaded11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:00 +0000
Subject: [PATCH 07/18] fix: keep Super-Mon symbol chains intact when adding
 and deleting

Empty entries were read with a link to entry 0 and deleted entries kept their
old link, so deleting a symbol could relink an empty entry in place of the real
predecessor, and adding one whose hash is 0 could append to an empty entry.
---
 supermon/supermon.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 2178d4c..4180f1f 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -340,7 +340,7 @@ func (sm SectorMap) ReadSymbolTable(diskbytes []byte) (SymbolTable, error) {
 	for i := 0; i < 0x0fff; i += 5 {
 		address := uint16(symtbl1[i]) + uint16(symtbl1[i+1])<<8
 		if address == 0 {
-			table = append(table, Symbol{})
+			table = append(table, Symbol{Link: -1})
 			continue
 		}
 		linkAddr := uint16(symtbl1[i+2]) + uint16(symtbl1[i+3])<<8
@@ -456,12 +456,14 @@ func (st SymbolTable) DeleteSymbol(name string) bool {
 		if strings.EqualFold(name, sym.Name) {
 			sym.Name = ""
 			sym.Address = 0
+			link := sym.Link
+			sym.Link = -1
 			for j := range st {
 				if i == j {
 					continue
 				}
 				if st[j].Link == i {
-					st[j].Link = sym.Link
+					st[j].Link = link
 					break
 				}
 			}
@@ -499,7 +501,7 @@ func (st SymbolTable) AddSymbol(name string, address uint16) error {
 		return fmt.Errorf("symbol table full")
 	}
 	for j, sym := range st {
-		if addrHash(sym.Address) == hash && sym.Link == -1 {
+		if sym.Address != 0 && addrHash(sym.Address) == hash && sym.Link == -1 {
 			st[j].Link = pos
 			break
 		}
-- 
2.43.0


From 4faba61078553c5982b7ceab93d9e57a75fe1256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:01 +0000
Subject: [PATCH 08/18] fix: reject Applesoft programs whose line links do not
 advance

A link back to the same or an earlier line made Decode loop forever, and a link
to the byte just before the program made it panic.
---
 basic/applesoft/applesoft.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/basic/applesoft/applesoft.go b/basic/applesoft/applesoft.go
index afd80ae..85d3393 100644
--- a/basic/applesoft/applesoft.go
+++ b/basic/applesoft/applesoft.go
@@ -151,14 +151,18 @@ func Decode(raw []byte, location uint16) (Listing, error) {
 	next := int(location)
 	for next != 0 {
 		ofs := calcOffset(next)
-		if ofs < -1 || ofs+1 >= len(raw) {
+		if ofs < 0 || ofs+1 >= len(raw) {
 			return nil, fmt.Errorf("line %d has next line at $%X, which is outside the input range of %s", last, next, bounds)
 		}
+		current := next
 		next = int(raw[ofs]) + 256*int(raw[ofs+1])
 		ofs += 2
 		if next == 0 {
 			break
 		}
+		if next <= current {
+			return nil, fmt.Errorf("line at $%X has next line at $%X, which does not come after it", current, next)
+		}
 		if ofs+1 >= len(raw) {
 			if len(listing) == 0 {
 				return nil, fmt.Errorf("ran out of input trying to read the first line number")
-- 
2.43.0


From 18d5c3225e3ca892bdc3e3e4de6cb01de2c69de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:01 +0000
Subject: [PATCH 09/18] fix: reject Integer BASIC lines shorter than their own
 header

A line length below 4 made Decode panic.
---
 basic/integer/integer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/basic/integer/integer.go b/basic/integer/integer.go
index b51a412..d884528 100644
--- a/basic/integer/integer.go
+++ b/basic/integer/integer.go
@@ -170,6 +170,9 @@ func Decode(raw []byte) (Listing, error) {
 	for len(raw) > 3 {
 		size := int(raw[0])
 		num := int(raw[1]) + 256*int(raw[2])
+		if size < 4 {
+			return nil, fmt.Errorf("line %d has impossible length %d", num, size)
+		}
 		if len(raw) < size {
 			return nil, fmt.Errorf("line %d wants %d bytes; only %d remain", num, size, len(raw))
 		}
-- 
2.43.0


From 107be015abccbabb4e0d07864f861fc364855496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:02 +0000
Subject: [PATCH 10/18] fix: detect loops in ProDOS directory block chains

A directory block linking back to an earlier one made reading the volume loop
forever.
---
 prodos/prodos.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index a4c873a..48d15ed 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -693,6 +693,9 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 	// }
 
 	for block := v.keyBlock.Next; block != 0; block = v.blocks[len(v.blocks)-1].Next {
+		if _, ok := v.firstSubdirBlocks[block]; ok {
+			return v, fmt.Errorf("volume directory tries to read block %d twice", block)
+		}
 		vdb := VolumeDirectoryBlock{}
 		if err := disk.UnmarshalBlock(devicebytes, &vdb, block); err != nil {
 			return v, err
@@ -821,7 +824,12 @@ func readSubdirectory(devicebytes []byte, fd FileDescriptor) (Subdirectory, erro
 		return s, fmt.Errorf("cannot read first block of subdirectory %q (block %d): %v", fd.Name(), fd.KeyPointer, err)
 	}
 
+	seen := map[uint16]bool{}
 	for block := s.keyBlock.Next; block != 0; block = s.blocks[len(s.blocks)-1].Next {
+		if seen[block] {
+			return s, fmt.Errorf("subdirectory %q tries to read block %d twice", fd.Name(), block)
+		}
+		seen[block] = true
 		sdb := SubdirectoryBlock{}
 		if err := disk.UnmarshalBlock(devicebytes, &sdb, block); err != nil {
 			return s, err
-- 
2.43.0


From 02cab14495f2b1b8f64f4297e65a995bfde1b4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:02 +0000
Subject: [PATCH 11/18] fix: detect loops among ProDOS subdirectories

A subdirectory entry pointing at one of its ancestors, or parent pointers that
form a loop, made reading the volume run until memory was exhausted.
---
 prodos/prodos.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index 48d15ed..5149947 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -717,6 +717,9 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 
 	for i := 0; i < len(sdds); i++ {
 		sdd := sdds[i]
+		if _, ok := v.subdirsByBlock[sdd.KeyPointer]; ok {
+			return v, fmt.Errorf("more than one directory entry for the subdirectory at block %d", sdd.KeyPointer)
+		}
 		sub, err := readSubdirectory(devicebytes, sdd)
 		if err != nil {
 			return v, err
@@ -742,7 +745,7 @@ func readVolume(devicebytes []byte, keyBlock uint16, debug int) (Volume, error)
 		if debug > 1 {
 			fmt.Fprintf(os.Stderr, "processing subdir %q\n", name)
 		}
-		parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, v.subdirsByBlock, v.firstSubdirBlocks)
+		parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, v.subdirsByBlock, v.firstSubdirBlocks, 0)
 		if err != nil {
 			return v, err
 		}
@@ -787,7 +790,11 @@ func (s Subdirectory) subdirDescriptors() []FileDescriptor {
 }
 
 // parentDirName returns the full recursive directory name of the given parent directory.
-func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[uint16]*Subdirectory, firstSubdirBlockMap map[uint16]uint16) (string, error) {
+// Depth is the number of subdirectories visited on the way there.
+func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[uint16]*Subdirectory, firstSubdirBlockMap map[uint16]uint16, depth int) (string, error) {
+	if depth > len(subdirMap) {
+		return "", fmt.Errorf("subdirectory for block %d is its own ancestor", parentDirectoryBlock)
+	}
 	if parentDirectoryBlock == keyBlock || firstSubdirBlockMap[parentDirectoryBlock] == keyBlock {
 		return "", nil
 	}
@@ -802,7 +809,7 @@ func parentDirName(parentDirectoryBlock uint16, keyBlock uint16, subdirMap map[u
 		return "", fmt.Errorf("unable to find subdirectory for block %d", parentDirectoryBlock)
 	}
 
-	parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, subdirMap, firstSubdirBlockMap)
+	parentName, err := parentDirName(sd.keyBlock.Header.ParentPointer, keyBlock, subdirMap, firstSubdirBlockMap, depth+1)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 985151d6fd7a65fab2d124518951161a0a5f3327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:03 +0000
Subject: [PATCH 12/18] fix: size ProDOS volume bitmaps without overflowing

NewVolumeBitMap panicked for volumes of more than 61440 blocks.
---
 prodos/prodos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index 5149947..25f023c 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -65,7 +65,7 @@ type VolumeBitMap []bitmapPart
 
 // NewVolumeBitMap returns a volume bitmap of the given size.
 func NewVolumeBitMap(startBlock uint16, blocks uint16) VolumeBitMap {
-	vbm := VolumeBitMap(make([]bitmapPart, (blocks+(512*8)-1)/(512*8)))
+	vbm := VolumeBitMap(make([]bitmapPart, (int(blocks)+(512*8)-1)/(512*8)))
 	for i := range vbm {
 		vbm[i].SetBlock(startBlock + uint16(i))
 	}
-- 
2.43.0


From 59106eb7ce785ac9dd06c85982eb935812854856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:03 +0000
Subject: [PATCH 13/18] fix: make IndexBlock.Set change the index block

It had a value receiver, so it modified a copy.
---
 prodos/prodos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prodos/prodos.go b/prodos/prodos.go
index 25f023c..880baea 100644
--- a/prodos/prodos.go
+++ b/prodos/prodos.go
@@ -441,7 +441,7 @@ func (i IndexBlock) Get(blockNum byte) uint16 {
 }
 
 // Set the blockNum'th block number in an index block.
-func (i IndexBlock) Set(blockNum byte, block uint16) {
+func (i *IndexBlock) Set(blockNum byte, block uint16) {
 	i[blockNum] = byte(block)
 	i[256+int(blockNum)] = byte(block >> 8)
 }
-- 
2.43.0


From 13fc6a3d4f3696f510439fab466246439dc976ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:36 +0000
Subject: [PATCH 14/18] fix: Applesoft token $C0 is TAB(, so listings kept an
 unmatched parenthesis

---
 basic/applesoft/applesoft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basic/applesoft/applesoft.go b/basic/applesoft/applesoft.go
index 85d3393..c6b511e 100644
--- a/basic/applesoft/applesoft.go
+++ b/basic/applesoft/applesoft.go
@@ -75,7 +75,7 @@ var TokensByCode = map[byte]string{
 	0xBD: "CLEAR",
 	0xBE: "GET",
 	0xBF: "NEW",
-	0xC0: "TAB",
+	0xC0: "TAB(",
 	0xC1: "TO",
 	0xC2: "FN",
 	0xC3: "SPC(",
-- 
2.43.0


From 06e16877244b1b5502aeb2f50e1d1fceee13eae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:37 +0000
Subject: [PATCH 15/18] fix: Integer BASIC token $79 is NODSP, not DSP

---
 basic/integer/integer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basic/integer/integer.go b/basic/integer/integer.go
index d884528..c21a32b 100644
--- a/basic/integer/integer.go
+++ b/basic/integer/integer.go
@@ -137,7 +137,7 @@ var TokensByCode = map[byte]string{
 	0x76: "LIST",
 	0x77: "POP",
 	0x78: "NODSP",
-	0x79: "DSP",
+	0x79: "NODSP",
 	0x7A: "NOTRACE",
 	0x7B: "DSP",
 	0x7C: "DSP",
-- 
2.43.0


From b5414f3f97632b04bb9c5f36c6a348297cfa95c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:50 +0000
Subject: [PATCH 16/18] fix: digits inside Integer BASIC strings are
 characters, not number constants

---
 basic/integer/integer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/basic/integer/integer.go b/basic/integer/integer.go
index c21a32b..52513ba 100644
--- a/basic/integer/integer.go
+++ b/basic/integer/integer.go
@@ -214,11 +214,12 @@ func isalnum(b byte) bool {
 func (l Line) String() string {
 	var buf bytes.Buffer
 	fmt.Fprintf(&buf, "%5d ", l.Num)
-	var lastAN bool
+	var lastAN, inQuote bool
 	for i := 0; i < len(l.Bytes); i++ {
 		ch := l.Bytes[i]
 		if ch < 0x80 {
 			lastAN = false
+			inQuote = ch == 0x28
 			token := TokensByCode[ch]
 			buf.WriteString(token)
 			if len(token) > 1 {
@@ -232,7 +233,7 @@ func (l Line) String() string {
 			}
 		} else {
 			ch -= 0x80
-			if !lastAN && ch >= '0' && ch <= '9' {
+			if !lastAN && !inQuote && ch >= '0' && ch <= '9' {
 				if len(l.Bytes) < i+3 {
 					buf.WriteByte('?')
 				} else {
-- 
2.43.0


From dc48100274ffa961de671b0df4e4e73fddc38704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:29 +0000
Subject: [PATCH 17/18] fix: mksd refused programs that fit when their start
 address was not their load address

---
 cmd/sd.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/sd.go b/cmd/sd.go
index 6edca56..45a2fe0 100644
--- a/cmd/sd.go
+++ b/cmd/sd.go
@@ -59,10 +59,10 @@ func (s *SDCmd) Run(globals *types.Globals) error {
 			s.Start, s.Start, s.Address, s.Address, end, end)
 	}
 
-	if int(s.Start)+len(contents) > 0xC000 {
-		end := int(s.Start) + len(contents)
-		return fmt.Errorf("start address %d (%04X) + file length %d (%04X) = %d (%04X), but we can't load past page 0xBF00",
-			s.Start, s.Start, len(contents), len(contents), end, end)
+	if int(s.Address)+len(contents) > 0xC000 {
+		end := int(s.Address) + len(contents)
+		return fmt.Errorf("load address %d (%04X) + file length %d (%04X) = %d (%04X), but we can't load past page 0xBF00",
+			s.Address, s.Address, len(contents), len(contents), end, end)
 	}
 
 	sectors := (len(contents) + 255) / 256
-- 
2.43.0


From 5f203ae36e43773fd953f6350998999b11174f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:37 +0000
Subject: [PATCH 18/18] fix: refuse illegal NakedOS file numbers before writing
 anything

SectorMap.WriteFile wrote the first sector to the disk image (and, when
overwriting 0xFE, freed the reserved sectors of the map) before
SetFileForSector refused the number.
---
 supermon/supermon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/supermon/supermon.go b/supermon/supermon.go
index 4180f1f..95235d5 100644
--- a/supermon/supermon.go
+++ b/supermon/supermon.go
@@ -193,6 +193,9 @@ func (sm SectorMap) WriteFile(diskbytes []byte, file byte, contents []byte, over
 	copy(cts, contents)
 	existing := len(sm.SectorsForFile(file))
 	existed := existing > 0
+	if file == FileIllegal || file == FileFree || file == FileReserved {
+		return existed, fmt.Errorf("illegal file number: 0x%0X", file)
+	}
 	if sectorsNeeded == 0 {
 		return existed, fmt.Errorf("cannot write file %d: NakedOS files cannot be empty", file)
 	}
-- 
2.43.0

