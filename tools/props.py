#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single source of both)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}
LEVEL = {}
def prop(id, title, statement, over, text, why, files, mech, observe, claimed=True, note="", level="proof"):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
    LEVEL[id] = (level, note)
    if claimed is not True:
        NA[id] = claimed

TODO = "check not built yet"

prop("C01", "Sector reordering is exact and lossless",
  "Reordering a 143,360-byte disk image between the DOS, ProDOS and raw sector orders moves every 256-byte sector, whole and unchanged, to the place within its own track that the published sector tables give, for every track; the to-physical and to-logical tables are inverse permutations, so converting there and back gives the original bytes. Images of any other size, and order tables that are not 16 distinct sector numbers, are refused with an error; the input image is never modified.",
  ["inputs"], "all image contents of all lengths, and all order tables",
  "TestSwizzle-style tests use one or two patterned images; a single wrong table entry, track or byte offset only shows for particular sectors.",
  ["disk/open.go", "disk/disk.go"],
  [("Swizzle, validateOrder", "disk/open.go"), ("LogicalToPhysicalByName, PhysicalToLogicalByName", "disk/disk.go")],
  ["disk.Swizzle result", "disk.LogicalToPhysicalByName", "disk.PhysicalToLogicalByName"])

prop("C03", "Sector and block writes touch exactly their own 256 or 512 bytes",
  "Marshalling a structure to a track and sector, or to a 512-byte block, replaces exactly that sector's or block's bytes in the disk image and leaves every other byte unchanged; unmarshalling yields exactly those bytes. A track, sector or block outside the image is refused with an error, with the image unchanged, never a panic.",
  ["inputs"], "all image contents and sizes, all track, sector and block numbers, all structures",
  "Unit tests read a few fixed sectors of fixture images; nothing exercises every position or the out-of-range ones.",
  ["disk/marshal.go"],
  [("UnmarshalLogicalSector, MarshalLogicalSector, ReadSector, WriteSector", "disk/marshal.go"), ("UnmarshalBlock, MarshalBlock", "disk/marshal.go")],
  ["disk image bytes", "returned structures and errors"])

prop("C04", "DOS 3.3 on-disk structures decode and encode exactly",
  "The DOS 3.3 volume table of contents, catalog sectors, file descriptors and track/sector lists are decoded with every field taken from its published offset, and encoding what was decoded gives back the original 256 (or 35) bytes, every byte, known field or not; encoding any structure and decoding it gives the structure back. A VTOC that breaks the format's fixed values (DOS release, sizes, direction, volume, unused bitmap bytes) is reported as invalid and a well-formed one is accepted; free-sector flags follow the published bit layout. Input of the wrong length is refused with an error.",
  ["inputs"], "all 256-byte sectors and all structure values",
  "The tests round-trip a handful of random sectors; one swapped byte or bit shows only for particular values, and field meaning is not tested at all.",
  ["dos3/dos3.go"],
  [("VTOC/CatalogSector/FileDesc/TrackSectorList ToSector, FromSector, Validate", "dos3/dos3.go"), ("TrackFreeSectors", "dos3/dos3.go")],
  ["encoded sectors", "decoded fields", "validation errors"])

prop("C05", "ProDOS on-disk structures decode and encode exactly",
  "ProDOS volume directory, subdirectory and file descriptors, directory key and index blocks are decoded with every field taken from its published offset, and encoding what was decoded gives back the original block (every byte); names and storage types are taken from their length-prefixed and four-bit fields. Decoding never panics, and structures violating the format's fixed values are reported as invalid while well-formed ones are accepted.",
  ["inputs"], "all 512-byte blocks, descriptor bytes and structure values",
  "Tests round-trip random blocks a few times; a wrong shift, mask or offset shows only for particular values and the meaning of fields is untested.",
  ["prodos/prodos.go"],
  [("VolumeDirectoryKeyBlock/SubdirectoryKeyBlock/FileDescriptor/DateTime/... toBytes, fromBytes", "prodos/prodos.go")],
  ["encoded blocks", "decoded fields"])

prop("C11", "Super-Mon symbol names are stored and restored exactly, or refused",
  "Storing an ASCII symbol name and reading it back gives the same name in upper case; a name is accepted exactly when it has three to nine letters and digits and fits the 48 bits available (5 per letter, 6 per digit), or is empty. Everything else is refused with an error, never silently altered.",
  ["inputs"], "all ASCII strings",
  "The tests encode six names; the packing has 36^9 inputs and breaks at particular digit/letter mixes, lengths and capacity limits.",
  ["supermon/supermon.go"],
  [("encodeSymbol, decodeSymbol", "supermon/supermon.go")],
  ["stored bytes", "restored names", "errors"])

prop("C20", "ProDOS free-block bitmap and index block operations are exact",
  "Reading or changing the free flag of a block in a volume bitmap touches exactly that block's bit, most significant bit first, and no other; writing the bitmap to disk writes its blocks at consecutive positions and nothing else. Reading and setting an entry of an index block uses the split low/high byte layout and affects only that entry.",
  ["inputs"], "all bitmap contents and sizes, all block numbers, all index entries",
  "A test marks a few blocks of one bitmap; off-by-one and bit-order errors show only at particular block numbers.",
  ["prodos/prodos.go"],
  [("VolumeBitMap IsFree, MarkUsed, MarkUnused, Write, NewVolumeBitMap", "prodos/prodos.go"), ("IndexBlock Get, Set", "prodos/prodos.go")],
  ["bitmap bits", "disk image bytes", "index entries"])

EX = dict(level="exploration", note="Part of this property is discharged as proof obligations (VH harnesses); the rest (VX harnesses, listed in the evidence as bounded_harnesses) is a bounded stand-in: the executable contract is checked on generated inputs of the compiled code for a fixed time, and is not counted as proved.")
XX = dict(level="exploration", note="Bounded stand-in: the executable contract (VX harnesses, listed in the evidence) is checked on generated inputs of the compiled code for a fixed time; it is not counted as proved.")

prop("C02", "Opening a disk image and writing it back loses nothing",
  "Opening a 143,360-byte image gives the disk system the image's sectors in that system's own sector order, whatever the order of the file (DOS or ProDOS); writing the disk back puts every sector where it came from, so an unchanged disk gives a byte-identical file and a changed one differs exactly in the changed bytes' places. Device images of other sizes (.hdv) are passed through unreordered both ways. Writing back replaces an existing file only when told to.",
  ["inputs"], "all image contents, file orders and system orders",
  "The tests never open and write back an image; a wrong pairing of tables is symmetric for many sectors and only shows for some.",
  ["disk/open.go", "helpers/helpers.go"],
  [("OpenFilename, OpenFile, OpenImage, WriteBack", "disk/open.go"), ("WriteOutput", "helpers/helpers.go")],
  ["operator's bytes", "file written back"])

prop("C06", "The DOS 3.3 catalogue lists exactly the files on the disk",
  "Reading the catalogue of any byte string, however damaged or short, ends without a panic, with a listing or an error, and changes nothing. If the VTOC is valid and the chain of catalogue sectors is finite and inside the disk, the listing has every active entry once, in disk order, and every deleted entry in the list of deleted files; never-used entries are not listed. Name (high bit dropped, trailing spaces cut), locked flag, sector count and type of each are those stored in its entry. Otherwise (bad VTOC, chain that loops or leaves the disk) there is an error and no listing, and the image is not taken for a DOS 3.3 disk.",
  ["inputs"], "all disk images of all lengths",
  "One good image is catalogued in the tests; damaged chains, many catalogue sectors, unusual entries are not.",
  ["dos3/dos3.go"],
  [("readCatalogSectors, ReadCatalog", "dos3/dos3.go"), ("FileDesc Status, FilenameString, descriptor", "dos3/dos3.go"), ("operator.Catalog, OperatorFactory.SeemsToMatch", "dos3/dos3.go")],
  ["dos3.ReadCatalog results", "Operator.Catalog", "SeemsToMatch"])

prop("C07", "Files read from DOS 3.3 disks are exactly the bytes stored",
  "Reading a file by name gives the first active catalogue entry with that name; its contents are the sectors of its track/sector lists in order across all lists, a zero pair standing for a sector of zeroes, ending at the last nonzero pair of the last list. Text files lose their trailing zero bytes; Applesoft and Integer programs are the bytes after their two-byte length; binary files give their stored start address and the bytes after address and length. Length, type and name reported agree. Unknown names, lists that loop or leave the disk, stored lengths beyond the data and unsupported types are errors. Nothing panics, hangs or changes the disk, whatever the image holds.",
  ["inputs"], "all disk images, all file names",
  "No test extracts a file; sparse files, long files, short files and damaged lists each take a different path.",
  ["dos3/dos3.go"],
  [("FileDesc.Contents", "dos3/dos3.go"), ("operator.fileForFilename, operator.GetFile", "dos3/dos3.go")],
  ["Operator.GetFile result", "FileDesc.Contents result"])

prop("C08", "A file written to a NakedOS disk reads back exactly, harming no other",
  "Writing a file to a NakedOS disk stores its bytes, zero-padded to whole sectors, in the first free sectors in disk order (reusing the sectors of the file it replaces), marks exactly those sectors as the file's, and reading it gives those bytes back; every other file's sectors and map entries, and all unrelated bytes of the disk, are unchanged. If the file exists and overwriting was not asked for, if there is not enough room, or the file number is not a valid one, the write is refused with an error and the disk is left as it was. This holds after any sequence of writes and deletes.",
  ["inputs", "histories"], "all sector maps, file numbers, contents and lengths, and all sequences of operations",
  "Tests put one or two files on one disk; space boundaries, fragmentation and replacement with longer or shorter files are not sampled.",
  ["supermon/supermon.go"],
  [("SectorMap.WriteFile, ReadFile, SectorsForFile", "supermon/supermon.go"), ("Operator.PutFile", "supermon/supermon.go")],
  ["disk image bytes", "SectorMap", "Operator.GetFile"], **EX)

prop("C09", "Deleting a NakedOS file frees exactly its sectors",
  "Deleting a file marks every sector of that file free in the sector map, on the disk and in memory, and changes no other map entry and no other byte of the disk; deleting a file by name also removes its symbol and only that one. Deleting a file that does not exist reports so and changes nothing.",
  ["inputs"], "all sector maps and file numbers or names",
  "Tests delete one file on one disk.",
  ["supermon/supermon.go"],
  [("SectorMap.Delete, Persist", "supermon/supermon.go"), ("Operator.Delete", "supermon/supermon.go")],
  ["disk image bytes", "SectorMap"], **EX)

prop("C10", "The NakedOS catalogue and sector map are reported exactly",
  "A disk is taken for NakedOS exactly when track 0 sectors 0 to B are reserved and no sector-map entry is zero. The catalogue lists every file number that owns sectors, once, in increasing order, with its symbolic name (the first symbol with its address) or DFxx, its sector count and length; reading a listed file, by number or by name in any case, gives its sectors' bytes in disk order; files without sectors cannot be read. Queries of the map (owner of a sector, sectors of a file in order, free sectors, first free file number) are exact.",
  ["inputs"], "all sector maps, disk contents and symbol tables",
  "The tests list one disk.",
  ["supermon/supermon.go"],
  [("SectorMap.Verify, FileForSector, SectorsForFile, SectorsByFile, FreeSectors, FirstFreeFile", "supermon/supermon.go"), ("Operator.Catalog, GetFile", "supermon/supermon.go")],
  ["Operator.Catalog", "Operator.GetFile", "SectorMap queries"])

prop("C12", "The Super-Mon symbol table stays consistent and persistent",
  "After any sequence of additions and deletions of symbols, the symbol table holds exactly the symbols that were added and not deleted, each name with the address last given to it; every symbol can be found by following its hash chain; writing the table to the disk and reading it back gives the same table. Adding to a full table is an error. Compound names (DFxx, NAME, DFxx:NAME) are taken apart exactly, and malformed ones refused.",
  ["inputs", "histories"], "all symbol tables and all sequences of additions and deletions",
  "Tests read one table; chains are only broken by particular orders of additions and deletions that share a hash value.",
  ["supermon/supermon.go"],
  [("SymbolTable AddSymbol, DeleteSymbol, SymbolsByAddress, ParseCompoundSymbol, FilesForCompoundName", "supermon/supermon.go"), ("SectorMap ReadSymbolTable, WriteSymbolTable", "supermon/supermon.go")],
  ["SymbolTable", "disk image bytes"], **EX)

prop("C13", "Applesoft programs are listed exactly, and damaged ones refused",
  "Decoding any byte string at any load address ends without a panic or an endless loop. A well-formed program (with or without the two-byte length DOS stores, with up to one byte after it) gives its lines in order, each with its line number and its bytes up to the terminating zero, and the listing shows each token as its published keyword (between spaces) and every other character as itself; control characters are shown as names in chevrons unless raw output is asked for. Links that do not advance or point outside the program, truncated lines and unknown tokens are errors.",
  ["inputs"], "all byte strings and load addresses",
  "One program is decoded in the tests; every token and every way a program can be damaged needs its own input.",
  ["basic/applesoft/applesoft.go", "basic/basic.go"],
  [("Decode, Line.String, Listing.String, TokensByCode", "basic/applesoft/applesoft.go"), ("ChevronControlCodes", "basic/basic.go")],
  ["applesoft.Decode result", "listing text"])

prop("C14", "Integer BASIC programs are listed exactly, and damaged ones refused",
  "Decoding any byte string ends without a panic or an endless loop. A well-formed program (with or without the two-byte length DOS stores) gives its lines in order with number and bytes; the listing shows each token as its published keyword (followed by a space if longer than one character), characters with the high bit dropped, number constants in decimal, and everything after REM and inside strings literally. A line whose length is below four or reaches past the end, or that does not end with the byte 1, is an error.",
  ["inputs"], "all byte strings",
  "One program is decoded in the tests; every token and every way a program can be damaged needs its own input.",
  ["basic/integer/integer.go"],
  [("Decode, Line.String, Listing.String, TokensByCode", "basic/integer/integer.go")],
  ["integer.Decode result", "listing text"])

prop("C15", "The ProDOS catalogue lists exactly the volume's directories",
  "Cataloguing any byte string as a ProDOS volume ends without a panic or endless loop, with a listing or an error, and changes nothing. On a consistent volume the top-level listing, and that of each subdirectory by its path, has every active entry once, in directory order, over all blocks of the directory, with the name, type, block count and length stored in the entry; unknown paths are errors. A directory chain that loops or leaves the device, or two entries for one subdirectory, is an error, and such an image is not taken for a ProDOS disk.",
  ["inputs"], "all device images of all sizes",
  "One volume is read in the tests; multi-block and nested directories and damaged chains are not.",
  ["prodos/prodos.go"],
  [("readVolume, readSubdirectory, parentDirName", "prodos/prodos.go"), ("operator.Catalog, FileDescriptor.descriptor, OperatorFactory.SeemsToMatch", "prodos/prodos.go")],
  ["Operator.Catalog", "SeemsToMatch"], **EX)

prop("C16", "mksd makes a bootable image holding exactly the program",
  "mksd writes a 143,360-byte image whose boot sector is the Standard Delivery loader with the start address (the load address if none is given), followed by the list of the program's pages and the end mark $C0; page k of the program, zero-padded, is on the sector the loader reads k-th, and every other byte is zero; the file is in the requested sector order, or the one its extension stands for (DOS order by default). A load address not on a page boundary, a start address outside the program, a program reaching past $BFFF or with more pages than fit in the boot sector is refused with an error, and then no file is written or changed.",
  ["inputs"], "all programs, load and start addresses, orders and file names",
  "mksd has no tests; the sector interleave and limits matter at particular program sizes.",
  ["cmd/sd.go"],
  [("SDCmd.Run", "cmd/sd.go")],
  ["image file written"])

prop("C17", "Commands that fail change no file; output replaces files only if asked",
  "A put, rm, reorder, mkhello or dump that fails leaves every file byte-identical and creates none; ls and dump never write to any file; ls prints the names in the catalogue, one to a line, the full ones unless short ones are asked for, and dump the bytes of the file named. A command that succeeds changes only its output: the image named (put, rm, mkhello) or the new image (reorder). reorder replaces an existing output file only with the overwrite flag or when converting in place, and put replaces an existing file on the disk only with it. The output file holds exactly the output, and '-' means standard output or input. After put, rm and mkhello the image holds the new file, lacks the deleted one, or starts the named program, with all other files unchanged.",
  ["inputs", "histories"], "all images, names, flags and existing files",
  "The commands have no tests that run them.",
  ["cmd/put.go", "cmd/delete.go", "cmd/reorder.go", "cmd/nakedos.go", "cmd/dump.go", "cmd/catalog.go", "helpers/helpers.go"],
  [("PutCmd.Run", "cmd/put.go"), ("DeleteCmd.Run", "cmd/delete.go"), ("ReorderCmd.Run", "cmd/reorder.go"), ("MkHelloCmd.Run", "cmd/nakedos.go"), ("WriteOutput, FileContentsOrStdIn", "helpers/helpers.go")],
  ["files before and after a command"], **EX)

prop("C18", "reorder picks the right orders and converts the whole image",
  "reorder reads and writes the orders given; an order not given is the opposite of the one given; if neither is given they come from the file extensions (.dsk and .do mean DOS, .po ProDOS, in any case), an extension that says nothing standing for the opposite of the other. If nothing decides, or both come out equal, or the image is not 143,360 bytes, it is an error and nothing is written. Otherwise the output (the new image, or the input itself if none is named) is the input with every sector moved to its place in the new order, and an input that is not the output stays as it was.",
  ["inputs"], "all file names, order flags and image contents",
  "reorder has no tests; the order logic has dozens of combinations.",
  ["cmd/reorder.go", "disk/open.go"],
  [("ReorderCmd.Run, getOrders, oppositeOrder", "cmd/reorder.go"), ("OrderFromFilename, Swizzle", "disk/open.go")],
  ["output file"])

prop("C19", "File type names map to the right types",
  "Every file type has its published full, three-letter and one-letter names, and each (nonempty) name given by a user stands for its type, the first listed if two share a letter; any other name is an error. The list of file types has every type once with its names; the short list leaves out exactly the SOS-only, user-defined and reserved ones. A type's description contains its name; values that are no file type are described as unknown.",
  ["inputs"], "all names and type values",
  "The file type table has no tests.",
  ["types/filetype.go"],
  [("FiletypeForName, FiletypeInfos, Filetype.String", "types/filetype.go")],
  ["returned types, lists and strings"])

prop("C21", "Disk images are opened as the right system and order, or refused",
  "A 143,360-byte image is opened in the order given, or by its extension (.po ProDOS, .do DOS, .dsk or none: DOS first, then ProDOS), and as the system given, or else the first registered system that recognises and can open it in that order; a system and single order both given are not questioned. Unknown systems, orders and extensions, and images nothing recognises, are errors. Other sizes are opened only as .hdv files of whole 512-byte blocks up to 32 MiB, in ProDOS order, as ProDOS; everything else is an error. Extensions count in any letter case. Looking at an image to open it changes none of its bytes.",
  ["inputs"], "all images, file names, orders, systems and lists of registered systems",
  "The tests open no image through this path.",
  ["disk/open.go"],
  [("OpenImage, openDoOrPo, openHDV, OrderFromFilename", "disk/open.go")],
  ["operator and order returned", "errors"])

P.sort(key=lambda p: p["id"])
TECH = "contract-based deductive verification: contracts as ghost Go functions over the real code, VCs generated from go/ssa of the current tree, discharged by simplifier/z3/cvc5"
NOTE = "Every obligation is generated from /repo's current source by symbolic execution of go/ssa, with no bound on inputs, and discharged by the goverify simplifier or an SMT solver. Trusted: goverify itself (its simplifier is self-tested), go/ssa, the solvers, models of the standard library listed in the evidence. A failed obligation is searched for a failing input with the compiled code."
checks = []
for p in P:
    if p["id"] in NA:
        continue
    level, note = LEVEL[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
        technique=TECH, level=level, level_note=(note + " " if note else "") + NOTE))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks,
        not_applicable=[dict(property=k, reason=v) for k, v in NA.items()]), f, indent=1)
    f.write("\n")
