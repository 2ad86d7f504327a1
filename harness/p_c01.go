package main

import (
	"bytes"
	"encoding/binary"
	"io"
	"io/fs"
	"os"
	"testing/fstest"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
)

func init() {
	register(&Prop{
		ID: "C01", Level: "exploration", Quick: 56000, Thorough: 560000,
		Rule:  "one case packs 0..14 files (any names, sizes around 0, 1 and page limits, extra tags, PackData over differently chunked readers or PackFile) into a single or split package on disk, reopens it and reads all of it through bulk, mmap and fsys by Enum, GetTagset, ReadFile, Open; distinct by the whole generated input, non-trivial with at least two files",
		MinEv: map[string]int64{"files read back": 1000, "foreign files packed": 100},
		Run:   runC01,
	})
	register(&Prop{
		ID: "C30", Level: "exploration", Quick: 144000, Thorough: 1440000,
		Rule: "even cases: a package is written by the library and taken apart by an independent decoder of the layout (header fields, data placement, table, tag order and widths); odd cases: an independent encoder makes a package with any legal widths, tag order, extra tags, gaps and shared data, the library opens it and everything is compared; distinct by the bytes of the package, non-trivial with at least one entry",
		Run:  runC30,
	})
}

// foreignFile opens content by a file system of the standard library or by a package.
func foreignFile(c *C, data []byte, mt time.Time) (fs.File, func(), error) {
	if c.R.P(1, 2) {
		var f, err = fstest.MapFS{"x": {Data: data, ModTime: mt, Mode: 0644}}.Open("x")
		return f, func() { f.Close() }, err
	}
	var stamp = binary.LittleEndian.AppendUint32(binary.LittleEndian.AppendUint64(nil, uint64(mt.Unix())), uint32(mt.Nanosecond()))
	var img, _ = encImage([]rawEnt{{Name: "x", Data: data, Tags: []MTag{{tMtime, stamp}}}}, nil, false)
	var fpath = c.Path("foreign")
	writeFile(c, fpath, img)
	var p = wpk.NewPackage()
	if err := p.OpenFile(fpath); err != nil {
		return nil, nil, err
	}
	var err error
	if p.Tagger, err = makeTagger(pickOf(c.R, modes), fpath); err != nil {
		return nil, nil, err
	}
	var f, err1 = p.Open("x")
	return f, func() { f.Close(); p.Tagger.Close() }, err1
}

// packOne puts an entry by a random method.
func packOne(c *C, pkg *wpk.Package, w io.WriteSeeker, name string, data []byte, tags []MTag) *Ent {
	var r = c.R
	var e = &Ent{Name: name, Data: data, Tags: tags}
	var ts wpk.TagsetRaw
	var err error
	var key = backslash(r, name)
	var how = r.Int(7)
	switch how {
	case 0: // PackFile of a real file
		var fpath = c.Path("src")
		writeFile(c, fpath, data)
		var f, err1 = os.Open(fpath)
		c.Env(err1)
		ts, err = pkg.PackFile(w, f, key)
		f.Close()
		e.Times = true
		e.Tags = withoutTimes(tags)
		tags = e.Tags
	case 5: // PackFile of a file that is not of the OS
		var mt = time.Unix(int64(r.Int(1<<32)), int64(r.Int(1e9)))
		var f, done, err1 = foreignFile(c, data, mt)
		c.Env(err1)
		ts, err = pkg.PackFile(w, f, key)
		done()
		e.Times = true
		e.Tags = withoutTimes(tags)
		tags = e.Tags
		if err == nil {
			if b, _ := getTag(rawTags(c, "packed", ts), tMtime); !decTime(b).Equal(mt) {
				c.Fail("%s: time tag %x, file has %v", quote(key), b, mt)
			}
		}
		c.Ev("foreign files packed", 1)
	case 1: // odd chunks
		ts, err = pkg.PackData(w, &chunkReader{b: data, next: func() int { return r.Range(0, 40) }, fail: -1, dataEOF: r.P(1, 2)}, key)
	case 2:
		ts, err = pkg.PackData(w, &chunkReader{b: data, fail: -1, dataEOF: true}, key)
	case 3:
		ts, err = pkg.PackData(w, bytes.NewBuffer(append([]byte(nil), data...)), key)
	case 4: // something was read from the source already
		var rd = bytes.NewReader(append(content(r, 5), data...))
		rd.Seek(5, io.SeekStart)
		ts, err = pkg.PackData(w, rd, key)
	default:
		ts, err = pkg.PackData(w, bytes.NewReader(data), key)
	}
	c.T("pack %s %d bytes %s by method %d tags %v", quote(key), len(data), hexShort(data), how, tags)
	c.NoErr(err, "packing %s", quote(name))
	if ts.Path() != name {
		c.Fail("returned tagset of %s has path %s", quote(name), quote(ts.Path()))
	}
	if len(tags) > 0 {
		var nts = ts
		if r.P(1, 2) {
			nts = putTags(ts, tags)
		} else {
			nts = wpk.CopyTagset(ts)
			for _, t := range tags {
				nts = nts.Set(t.ID, wpk.TagRaw(t.B))
			}
		}
		if r.P(1, 2) {
			pkg.SetTagset(key, nts)
		} else {
			pkg.SetupTagset(nts)
		}
	}
	return e
}

func runC01(c *C) {
	var r = c.R
	var split = r.P(1, 2)
	var n = pick(r, 0, 1, 1, 2, 2, 3, 4, 6, 9, 14)
	c.T("split %v, %d files", split, n)
	var m = &Model{}
	var tpath, dpath = c.Path("p.wpk"), c.Path("p.wpk")
	var wpt, wpf *os.File
	var err error
	if split {
		tpath, dpath = wpk.MakeTagsPath(c.Path("p.wpk")), wpk.MakeDataPath(c.Path("p.wpk"))
	}
	wpt, err = os.Create(tpath)
	c.Env(err)
	defer wpt.Close()
	var w io.WriteSeeker = wpt
	var f io.WriteSeeker
	if split {
		wpf, err = os.Create(dpath)
		c.Env(err)
		defer wpf.Close()
		w, f = wpf, wpf
	} else if r.P(1, 3) {
		f = wpt // the same stream for both means a single file too
	}
	var pkg = wpk.NewPackage()
	c.NoErr(pkg.Begin(wpt, f), "Begin")
	for _, name := range anyNames(r, n) {
		m.Ents = append(m.Ents, packOne(c, pkg, w, name, content(r, genSize(r)), extraTags(r, 4)))
	}
	if r.P(1, 2) {
		m.Info = extraTags(r, 4)
		pkg.SetInfo(mkTagset(m.Info))
		c.T("info %v", m.Info)
	}
	c.NoErr(pkg.Sync(wpt, f), "Sync")
	wpt.Close()
	if wpf != nil {
		wpf.Close()
	}
	if n >= 2 {
		c.NonTrivial()
	}
	for _, mode := range modes {
		var p = wpk.NewPackage()
		c.NoErr(p.OpenFile(tpath), "OpenFile")
		if p.IsSplitted() != split {
			c.Fail("IsSplitted is %v", p.IsSplitted())
		}
		p.Tagger, err = makeTagger(mode, dpath)
		c.NoErr(err, "tagger %s", mode)
		fullCheck(c, mode, p, m)
		if len(m.Ents) > 0 { // the package as a whole
			var f, err = p.Open(wpk.PackName)
			if p.HasTagset(wpk.PackName) {
				if err == nil {
					f.Close()
				}
			} else {
				c.NoErr(err, "Open of the package reference")
				var b, err = readAllHandle(f)
				c.NoErr(err, "reading the package reference")
				var want, _ = os.ReadFile(dpath)
				want = want[:p.DataSize()+uint(map[bool]int{false: hdrLen, true: 0}[split])]
				if !bytes.Equal(b, want) {
					c.Fail("%s: the package reference gives %d bytes, want the %d bytes up to the end of the data", mode, len(b), len(want))
				}
			}
		}
		c.NoErr(p.Close(), "Close")
	}
	// the package object which wrote it agrees too
	pkg.Tagger, err = makeTagger("fsys", dpath)
	c.NoErr(err, "tagger")
	fullCheck(c, "writer object", pkg, m)
}

// numbers of tags as published
var publishedTags = []struct {
	name string
	tid  wpk.TID
	n    int
}{
	{"none", wpk.TIDnone, 0}, {"offset", wpk.TIDoffset, 1}, {"size", wpk.TIDsize, 2}, {"path", wpk.TIDpath, 3}, {"fid", wpk.TIDfid, 4},
	{"mtime", wpk.TIDmtime, 5}, {"atime", wpk.TIDatime, 6}, {"ctime", wpk.TIDctime, 7}, {"btime", wpk.TIDbtime, 8}, {"attr", wpk.TIDattr, 9},
	{"mime", wpk.TIDmime, 10}, {"crc32ieee", wpk.TIDcrc32ieee, 11}, {"crc32c", wpk.TIDcrc32c, 12}, {"crc32k", wpk.TIDcrc32k, 13},
	{"crc64iso", wpk.TIDcrc64iso, 14}, {"md5", wpk.TIDmd5, 20}, {"sha1", wpk.TIDsha1, 21}, {"sha224", wpk.TIDsha224, 22},
	{"sha256", wpk.TIDsha256, 23}, {"sha384", wpk.TIDsha384, 24}, {"sha512", wpk.TIDsha512, 25}, {"tmbjpeg", wpk.TIDtmbjpeg, 100},
	{"tmbwebp", wpk.TIDtmbwebp, 101}, {"label", wpk.TIDlabel, 110}, {"link", wpk.TIDlink, 111}, {"keywords", wpk.TIDkeywords, 112},
	{"category", wpk.TIDcategory, 113}, {"version", wpk.TIDversion, 114}, {"author", wpk.TIDauthor, 115}, {"comment", wpk.TIDcomment, 116},
}

func runC30(c *C) {
	for _, t := range publishedTags {
		if int(t.tid) != t.n {
			c.Fail("tag %s is stored with ID %d, published %d", t.name, t.tid, t.n)
		}
	}
	if c.N%2 == 0 {
		runC30w(c)
	} else {
		runC30r(c)
	}
}

func runC30w(c *C) {
	var r = c.R
	var split = r.P(1, 2)
	var s = newSession(split)
	var m = &Model{}
	c.T("write, split %v", split)
	c.NoErr(s.pkg.Begin(s.wpt, s.f()), "Begin")
	var hb, err = decHdr(s.wpt.B)
	if err != nil || hb.Sig != sigBuild || hb.Count != 0 || hb.FttSize != 0 || hb.DatSize != 0 || (hb.DatOff == 0) != split {
		c.Fail("prebuild header %+v, %v", hb, err)
	}
	type put struct {
		name string
		off  uint64
		size int
	}
	var puts []put
	var pos = uint64(0)
	if !split {
		pos = hdrLen
	}
	for _, name := range anyNames(r, r.Int(8)) {
		var data = content(r, genSize(r))
		m.Ents = append(m.Ents, packOne(c, s.pkg, s.w(), name, data, extraTags(r, 4)))
		puts = append(puts, put{name, pos, len(data)})
		pos += uint64(len(data))
	}
	if r.P(1, 2) {
		m.Info = extraTags(r, 4)
		s.pkg.SetInfo(mkTagset(m.Info))
	}
	c.NoErr(s.pkg.Sync(s.wpt, s.f()), "Sync")
	c.Mix(string(s.wpt.B))
	if len(m.Ents) > 0 {
		c.NonTrivial()
	}
	checkImage(c, "written package", s.wpt.B, s.dat(), split, m)
	var rp, _ = decPkg(s.wpt.B, int64(len(s.dat())), split)
	if rp.Hdr.Sig != sigReady {
		c.Fail("signature %q after finalization", rp.Hdr.Sig)
	}
	if end := rp.Hdr.DatOff + rp.Hdr.DatSize; end != pos {
		c.Fail("data area ends at %d, packed up to %d", end, pos)
	}
	if !split && rp.Hdr.FttOff != pos {
		c.Fail("table at %d, data end at %d", rp.Hdr.FttOff, pos)
	}
	if !split && uint64(len(s.wpt.B)) != rp.Hdr.FttOff+rp.Hdr.FttSize {
		c.Fail("file has %d bytes, table ends at %d", len(s.wpt.B), rp.Hdr.FttOff+rp.Hdr.FttSize)
	}
	for i, p := range puts {
		var e = rp.Ents[i]
		if e.Name != p.name || e.Off != p.off || e.Size != uint64(p.size) {
			c.Fail("entry %s at %d+%d, want %s at %d+%d", quote(e.Name), e.Off, e.Size, quote(p.name), p.off, p.size)
		}
		// offset and size in the least width
		var v, _ = getTag(e.Tags, tOffset)
		if !bytes.Equal(v, minUint(p.off)) {
			c.Fail("offset %d of %s encoded as %x", p.off, quote(p.name), v)
		}
		v, _ = getTag(e.Tags, tSize)
		if !bytes.Equal(v, minUint(uint64(p.size))) {
			c.Fail("size %d of %s encoded as %x", p.size, quote(p.name), v)
		}
	}
	// streaming codec of the table and of the header give the same bytes
	var buf bytes.Buffer
	var nw, err1 = s.pkg.FTT.WriteTo(&buf)
	c.NoErr(err1, "FTT.WriteTo")
	if uint64(nw) != rp.Hdr.FttSize || !bytes.Equal(buf.Bytes(), s.wpt.B[rp.Hdr.FttOff:rp.Hdr.FttOff+rp.Hdr.FttSize]) {
		c.Fail("FTT.WriteTo gives other bytes than Sync")
	}
	var hdr wpk.Header
	var nh, err2 = hdr.ReadFrom(bytes.NewReader(s.wpt.B))
	c.NoErr(err2, "Header.ReadFrom")
	buf.Reset()
	var nh2, err3 = hdr.WriteTo(&buf)
	c.NoErr(err3, "Header.WriteTo")
	if nh != hdrLen || nh2 != hdrLen || !bytes.Equal(buf.Bytes(), s.wpt.B[:hdrLen]) {
		c.Fail("header reads %d bytes and writes %d bytes %x, file has %x", nh, nh2, buf.Bytes(), s.wpt.B[:hdrLen])
	}
	if hdr.Count() != len(m.Ents) || hdr.FttSize() != uint(rp.Hdr.FttSize) || hdr.DataSize() != uint(rp.Hdr.DatSize) {
		c.Fail("header accessors: %d %d %d, file has %+v", hdr.Count(), hdr.FttSize(), hdr.DataSize(), rp.Hdr)
	}
}

// genImage makes a package by the independent encoder.
func genImage(c *C, split bool) (tags, dat []byte, m *Model) {
	var r = c.R
	m = &Model{}
	var base = uint64(hdrLen)
	if split {
		base = 0
	}
	var area []byte
	type slot struct {
		off  uint64
		data []byte
	}
	var slots []slot
	for i := r.Int(6); i > 0; i-- {
		if r.P(1, 4) { // unreferenced data of deleted files
			area = append(area, content(r, r.Int(50))...)
		}
		var d = content(r, genSize(r))
		slots = append(slots, slot{base + uint64(len(area)), d})
		area = append(area, d...)
	}
	if r.P(1, 4) {
		area = append(area, content(r, r.Int(50))...)
	}
	var ftt []byte
	m.Info = extraTags(r, 4)
	if r.P(1, 3) {
		m.Info = nil
	}
	var ib = encTags(m.Info)
	ftt = append(ftt, byte(len(ib)), byte(len(ib)>>8))
	ftt = append(ftt, ib...)
	var names = anyNames(r, len(slots)+r.Int(3))
	for i, name := range names {
		if len(slots) == 0 {
			break
		}
		var s = slots[i%len(slots)]
		if r.P(1, 5) {
			s = pickOf(r, slots)
		}
		if len(s.data) > 2 && r.P(1, 6) { // a part of another file
			var a = r.Int(len(s.data))
			s = slot{s.off + uint64(a), s.data[a:]}
		}
		var width = func(v uint64) []byte {
			var k = len(minUint(v))
			for k < 8 && r.P(1, 3) {
				k *= 2
			}
			return encUint(v, k)
		}
		var extra = extraTags(r, 4)
		var all = append([]MTag{{tOffset, width(s.off)}, {tSize, width(uint64(len(s.data)))}, {tPath, []byte(name)}}, extra...)
		shuffle(r, all)
		m.Ents = append(m.Ents, &Ent{Name: name, Data: s.data, Tags: extra})
		var tb = encTags(all)
		ftt = append(ftt, byte(len(tb)), byte(len(tb)>>8))
		ftt = append(ftt, tb...)
		c.T("entry %v at %d+%d", all, s.off, len(s.data))
	}
	ftt = append(ftt, 0, 0)
	var h = RHdr{Sig: sigReady, Count: uint64(len(m.Ents)), FttSize: uint64(len(ftt)), DatOff: base, DatSize: uint64(len(area))}
	if split {
		h.FttOff = hdrLen
		if r.P(1, 3) {
			h.Sig = sigBuild
		}
		if r.P(1, 4) { // the table may stand anywhere
			h.FttOff += uint64(r.Int(100))
		}
		tags = append(h.enc(), content(r, int(h.FttOff)-hdrLen)...)
		tags = append(tags, ftt...)
		dat = area
	} else {
		h.FttOff = base + uint64(len(area))
		tags = append(append(h.enc(), area...), ftt...)
		dat = tags
	}
	if r.P(1, 4) { // rests of an older table
		tags = append(tags, content(r, r.Int(60))...)
		if !split {
			dat = tags
		}
	}
	return
}

func runC30r(c *C) {
	var r = c.R
	var split = r.P(1, 2)
	c.T("read, split %v", split)
	var tags, dat, m = genImage(c, split)
	c.Mix(string(tags))
	if len(m.Ents) > 0 {
		c.NonTrivial()
	}
	var pkg = wpk.NewPackage()
	c.NoErr(pkg.OpenStream(bytes.NewReader(tags)), "OpenStream of a legal package")
	pkg.Tagger = &memTagger{dat}
	fullCheck(c, "independently encoded package", pkg, m)
	if pkg.IsSplitted() != split {
		c.Fail("IsSplitted %v", pkg.IsSplitted())
	}
	// the same by the streaming and the slice table readers
	var h, _ = decHdr(tags)
	for k := 0; k < 2; k++ {
		var hdr wpk.Header
		if _, err := hdr.Parse(tags); err != nil {
			c.Fail("Header.Parse: %v", err)
		}
		var ftt = &wpk.FTT{}
		ftt.Init(&hdr)
		var n int64
		var err error
		var b = tags[h.FttOff : h.FttOff+h.FttSize]
		if k == 0 {
			n, err = ftt.Parse(b)
		} else {
			n, err = ftt.ReadFrom(bytes.NewReader(b))
		}
		c.NoErr(err, "table reader %d", k)
		if n != int64(h.FttSize) {
			c.Fail("table reader %d consumed %d of %d bytes", k, n, h.FttSize)
		}
		fullCheck(c, "table reader", &wpk.Package{FTT: ftt, Tagger: &memTagger{dat}, Workspace: "."}, m)
	}
	// names of the file info
	for _, e := range m.Ents {
		var ts, _ = pkg.GetTagset(e.Name)
		if v, ok := getTag(e.Tags, tMtime); ok {
			var t, tok = ts.TagTime(tMtime)
			switch len(v) {
			case 8:
				var ms = int64(leU64(v))
				if !tok || t.UnixMilli() != ms {
					c.Fail("8 byte time %d reads %v", ms, t)
				}
			case 12:
				var want = time.Unix(int64(leU64(v)), int64(leU32(v[8:])))
				if !tok || !t.Equal(want) {
					c.Fail("12 byte time reads %v, want %v", t, want)
				}
			default:
				if tok {
					c.Fail("time of %d bytes reads %v", len(v), t)
				}
			}
		}
	}
}

func leU64(b []byte) uint64 { var v, _ = decUint(b[:8]); return v }
func leU32(b []byte) uint32 { var v, _ = decUint(b[:4]); return uint32(v) }
