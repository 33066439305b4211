package dos3

import "github.com/zellyn/diskii/verifrt"

// The sector drawn here is arbitrary; concrete runs use random contents.
func vs_sector(name string) []byte { return verifrt.Bytes(name, 256) }

func vs_wrongLen(name string) int {
	n := verifrt.IntGen(name, 0, 1<<40, func(r *verifrt.Rand) int {
		return r.PickInt(0, 1, 35, 128, 255, 257, 300, 512)
	})
	verifrt.Assume(n != 256)
	return n
}

// Decoding a VTOC: every field comes from its documented place
// (Beneath Apple DOS 4-2), and encoding it again restores all 256 bytes.
func VH_C04_VTOCDecode() {
	b := vs_sector("sector")
	orig := verifrt.Clone(b)
	v := VTOC{}
	err := v.FromSector(b)
	verifrt.Assert("a 256-byte VTOC is accepted", err == nil)
	verifrt.Assert("catalog position", v.CatalogTrack == orig[1] && v.CatalogSector == orig[2])
	verifrt.Assert("DOS release", v.DOSRelease == orig[3])
	verifrt.Assert("volume", v.Volume == orig[6])
	verifrt.Assert("track/sector list size", v.TrackSectorListMaxSize == orig[0x27])
	verifrt.Assert("last track", v.LastTrack == orig[0x30])
	verifrt.Assert("track direction", byte(v.TrackDirection) == orig[0x31])
	verifrt.Assert("tracks", v.NumTracks == orig[0x34])
	verifrt.Assert("sectors", v.NumSectors == orig[0x35])
	verifrt.Assert("bytes per sector", int(v.BytesPerSector) == int(orig[0x36])+256*int(orig[0x37]))
	for i := 0; i < 50; i++ {
		for j := 0; j < 4; j++ {
			verifrt.Assert("free sector map", v.FreeSectors[i][j] == orig[0x38+4*i+j])
		}
	}
	out, err := v.ToSector()
	verifrt.Assert("a VTOC can always be encoded", err == nil)
	verifrt.AssertEq("decode then encode restores the sector", out, orig)
	verifrt.AssertEq("input sector unchanged", b, orig)
	verifrt.Cover("vtoc")
}

// Encoding any VTOC value and decoding it gives the value back.
func VH_C04_VTOCEncode() {
	v := VTOC{}
	verifrt.Fill("vtoc", &v)
	was := v
	out, err := v.ToSector()
	verifrt.Assert("a VTOC can always be encoded", err == nil)
	verifrt.Assert("one sector", len(out) == 256)
	verifrt.AssertEq("encoding changes nothing", v, was)
	w := VTOC{}
	w.Track, w.Sector = v.Track, v.Sector
	err = w.FromSector(out)
	verifrt.Assert("decoded", err == nil)
	verifrt.AssertEq("encode then decode restores the VTOC", w, was)
	verifrt.Cover("vtoc")
}

func VH_C04_CatalogDecode() {
	b := vs_sector("sector")
	orig := verifrt.Clone(b)
	cs := CatalogSector{}
	err := cs.FromSector(b)
	verifrt.Assert("a 256-byte catalog sector is accepted", err == nil)
	verifrt.Assert("next sector", cs.NextTrack == orig[1] && cs.NextSector == orig[2])
	for i := 0; i < 7; i++ {
		o := 0x0b + 35*i
		fd := cs.FileDescs[i]
		verifrt.Assert("track/sector list position", fd.TrackSectorListTrack == orig[o] && fd.TrackSectorListSector == orig[o+1])
		verifrt.Assert("file type", byte(fd.Filetype) == orig[o+2])
		verifrt.AssertEq("file name", fd.Filename[:], orig[o+3:o+33])
		verifrt.Assert("sector count", int(fd.SectorCount) == int(orig[o+33])+256*int(orig[o+34]))
	}
	out, err := cs.ToSector()
	verifrt.Assert("a catalog sector can always be encoded", err == nil)
	verifrt.AssertEq("decode then encode restores the sector", out, orig)
	verifrt.AssertEq("input sector unchanged", b, orig)
	verifrt.Cover("catalog")
}

func VH_C04_CatalogEncode() {
	cs := CatalogSector{}
	verifrt.Fill("catalog", &cs)
	was := cs
	out, err := cs.ToSector()
	verifrt.Assert("a catalog sector can always be encoded", err == nil)
	verifrt.Assert("one sector", len(out) == 256)
	verifrt.AssertEq("encoding changes nothing", cs, was)
	w := CatalogSector{}
	w.Track, w.Sector = cs.Track, cs.Sector
	err = w.FromSector(out)
	verifrt.Assert("decoded", err == nil)
	verifrt.AssertEq("encode then decode restores the catalog sector", w, was)
	verifrt.Cover("catalog")
}

func VH_C04_ListDecode() {
	b := vs_sector("sector")
	orig := verifrt.Clone(b)
	tsl := TrackSectorList{}
	err := tsl.FromSector(b)
	verifrt.Assert("a 256-byte track/sector list is accepted", err == nil)
	verifrt.Assert("next list", tsl.NextTrack == orig[1] && tsl.NextSector == orig[2])
	verifrt.Assert("sector offset", int(tsl.SectorOffset) == int(orig[5])+256*int(orig[6]))
	for i := 0; i < 122; i++ {
		verifrt.Assert("pairs", tsl.TrackSectors[i].Track == orig[0x0c+2*i] && tsl.TrackSectors[i].Sector == orig[0x0d+2*i])
	}
	out, err := tsl.ToSector()
	verifrt.Assert("a track/sector list can always be encoded", err == nil)
	verifrt.AssertEq("decode then encode restores the sector", out, orig)
	verifrt.AssertEq("input sector unchanged", b, orig)
	verifrt.Cover("list")
}

func VH_C04_ListEncode() {
	tsl := TrackSectorList{}
	verifrt.Fill("list", &tsl)
	was := tsl
	out, err := tsl.ToSector()
	verifrt.Assert("a track/sector list can always be encoded", err == nil)
	verifrt.Assert("one sector", len(out) == 256)
	verifrt.AssertEq("encoding changes nothing", tsl, was)
	w := TrackSectorList{}
	w.Track, w.Sector = tsl.Track, tsl.Sector
	err = w.FromSector(out)
	verifrt.Assert("decoded", err == nil)
	verifrt.AssertEq("encode then decode restores the list", w, was)
	verifrt.Cover("list")
}

// Anything that is not one sector is refused.
func VH_C04_WrongSize() {
	n := vs_wrongLen("n")
	b := verifrt.Bytes("data", n)
	v, cs, tsl := VTOC{}, CatalogSector{}, TrackSectorList{}
	verifrt.Assert("VTOC of the wrong size refused", v.FromSector(b) != nil)
	verifrt.Assert("catalog sector of the wrong size refused", cs.FromSector(b) != nil)
	verifrt.Assert("track/sector list of the wrong size refused", tsl.FromSector(b) != nil)
	verifrt.Cover("refused")
}

// A VTOC is valid exactly when each of the documented values is right.
func VH_C04_Validate() {
	v := VTOC{}
	verifrt.Fill("vtoc", &v)
	if verifrt.Bool("near") {
		// Start from a good VTOC and spoil at most a couple of bytes.
		good := DefaultVTOC()
		b, _ := good.ToSector()
		b[int(verifrt.Byte("at"))] = verifrt.Byte("value")
		_ = v.FromSector(b)
	}
	clear := true
	for i := 0; i < 50; i++ {
		if v.FreeSectors[i][2] != 0 || v.FreeSectors[i][3] != 0 {
			clear = false
		}
	}
	ok := v.Volume != 255 && v.DOSRelease == 3 && (v.TrackDirection == 1 || v.TrackDirection == -1) &&
		v.NumTracks == 35 && (v.NumSectors == 13 || v.NumSectors == 16) && v.BytesPerSector == 256 &&
		v.TrackSectorListMaxSize == 122 && clear
	was := v
	err := v.Validate()
	verifrt.Assert("valid exactly when every checked value is right", (err == nil) == ok)
	verifrt.AssertEq("validation changes nothing", v, was)
	if err == nil {
		verifrt.Cover("valid")
	} else {
		verifrt.Cover("invalid")
	}
}

// The default VTOC is valid, describes a blank 35x16 disk, and says every
// sector of it is free.
func VH_C04_Default() {
	v := DefaultVTOC()
	verifrt.Assert("default VTOC is valid", v.Validate() == nil)
	verifrt.Assert("catalog at track 17 sector 15", v.CatalogTrack == 17 && v.CatalogSector == 15)
	verifrt.Assert("35 tracks of 16 sectors", v.NumTracks == 35 && v.NumSectors == 16)
	s := verifrt.Byte("sector")
	for t := 0; t < 50; t++ {
		verifrt.Assert("exactly the sectors of the disk are free", v.FreeSectors[t].IsFree(s) == (t < 35 && s < 16))
	}
	verifrt.Cover("default")
}

// A sector is free exactly when its bit is set: sectors 0-7 in the second
// byte of the track's entry, 8-15 in the first.
func VH_C04_IsFree() {
	m := TrackFreeSectors{}
	verifrt.Fill("map", &m)
	s := verifrt.ByteGen("sector", func(r *verifrt.Rand) byte {
		if r.Chance(4) {
			return r.Byte()
		}
		return byte(r.Intn(17))
	})
	was := m
	got := m.IsFree(s)
	var want bool
	switch {
	case s < 8:
		want = (int(m[1])>>s)&1 == 1
	case s < 16:
		want = (int(m[0])>>(s-8))&1 == 1
	}
	verifrt.Assert("free exactly when its bit is set", got == want)
	verifrt.Assert("unused bytes clear", m.UnusedClear() == (m[2] == 0 && m[3] == 0))
	verifrt.AssertEq("map unchanged", m, was)
	verifrt.Cover("free sector map")
}
