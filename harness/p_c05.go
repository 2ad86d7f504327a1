// C05: malformed packages. C06: I/O faults and short reads.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/metrics"
	"strings"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/util"
)

func init() {
	register(&Prop{
		ID: "C05", Level: "exploration", Quick: 180000, Thorough: 2500000, Workers: 1,
		Rule:   "each case takes a legal image (library or independent encoder, both layouts) or random bytes, breaks it (cuts, bit flips, extreme header fields, extreme offsets, sizes and lengths, doubled and respelled names, missing tags, trailing bytes), then opens it by stream, queries it, parses header and table directly, and, when it opens, reads every entry through bulk, mmap and fsys over the whole and over a shortened data file; panics, faults, stalls, allocations above 200 x size + 4 MiB, duplicate names, entries outside the data area and wrong bytes are violations; non-trivial when the image differs from the legal one",
		MinEv:  map[string]int64{"broken images accepted": 100, "broken images rejected": 100, "entries read": 1000},
		Assume: []string{"allocation is measured over the whole process, cases run one at a time"},
		Run:    runC05,
	})
	register(&Prop{
		ID: "C06", Level: "fault_enumeration", Quick: 12000, Thorough: 150000,
		Rule:  "each case runs a fixed script (begin or append, several files, flush, finalize, open, query; both layouts) once to count its stream operations and then again for every operation failing with an error, with nothing or half of the write done; the call that met the fault has to return an error; files whose packing failed are not listed and the others read back after a later finalization; further cases fail the source reader at every kind of place, fail once each operation of the calls that read or write header, table and numbers, and open the same images through readers that return short counts; distinct by script, non-trivial when a fault was met",
		MinEv: map[string]int64{"faults met": 1000, "source faults": 100, "short-read openings": 1000, "table faults": 1000},
		Run:   runC06,
	})
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// breakImage damages an image in one of many ways; returns the damage as text.
func breakImage(c *C, tags []byte, m *Model, split bool) ([]byte, string) {
	var r = c.R
	var b = append([]byte(nil), tags...)
	var h, err = decHdr(b)
	var fields = []int{24, 32, 40, 48, 56}
	var ext = func() uint64 {
		return pick(r, 0, 1, 2, 63, 64, 65, uint64(len(b)), uint64(len(b))-1, uint64(len(b))+1, 0xff, 0xffff, 1<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<40, 1<<62, 1<<63-1, 1<<63, 1<<64-1, 1<<64-64, uint64(r.Int(len(b)+100)), r.U64()>>uint(r.Int(64)))
	}
	if err != nil {
		return b, "short"
	}
	switch r.Int(12) {
	case 0:
		var n = r.Int(len(b) + 1)
		return b[:n], fmt.Sprintf("cut to %d", n)
	case 1:
		var s = "flip"
		for k := r.Range(1, 4); k > 0; k-- {
			var i = r.Int(len(b))
			b[i] ^= 1 << r.Int(8)
			s += fmt.Sprintf(" %d", i)
		}
		return b, s
	case 2:
		var s = "header"
		for k := r.Range(1, 3); k > 0; k-- {
			var f = pickOf(r, fields)
			var v = ext()
			copy(b[f:], encUint(v, 8))
			s += fmt.Sprintf(" %d=%#x", f, v)
		}
		return b, s
	case 3: // signature
		copy(b, pick(r, sigBuild, sigReady, "Whirlwind 3.3 Package   ", "PK\x03\x04", strings.Repeat("\x00", 24)))
		return b, "signature"
	}
	// the table is taken apart and made again
	if h.FttSize == 0 || h.FttOff+h.FttSize > uint64(len(b)) {
		return b, "no table"
	}
	var ftt = b[h.FttOff : h.FttOff+h.FttSize]
	var sets [][]byte
	for x := ftt; len(x) >= 2; {
		var n = int(leU16(x))
		x = x[2:]
		n = min(n, len(x))
		sets = append(sets, append([]byte(nil), x[:n]...))
		x = x[n:]
		if n == 0 && len(sets) > 1 {
			break
		}
	}
	var s string
	var lie = -1 // entry whose length is stored wrong
	var lielen = 0
	var i = r.Int(len(sets))
	switch r.Int(8) {
	case 0: // a tag gets an extreme value
		var l, _ = refScan(sets[i])
		if len(l) > 0 {
			var k = r.Int(len(l))
			for q := range l { // mostly offset and size
				if (l[q].ID == tOffset || l[q].ID == tSize) && r.P(1, 2) {
					k = q
				}
			}
			l[k].B = encUint(ext(), pick(r, 8, 8, 4, 2, 1))
			if l[k].ID == tOffset || l[k].ID == tSize {
				var v = pick(r, h.DatOff, h.DatOff+h.DatSize, h.DatOff+h.DatSize+1, h.DatOff-1, h.DatSize, h.DatSize+1, ^uint64(0)-h.DatOff, ^uint64(0), 1<<63, 1<<63-1, ^uint64(0)-uint64(r.Int(200)), ext())
				l[k].B = encUint(v, 8)
			}
			s = fmt.Sprintf("tag %v of tagset %d", l[k], i)
			sets[i] = encTags(l)
		}
	case 1: // a tag with a wrong length field
		if len(sets[i]) >= 4 {
			var p = 2
			for k := r.Int(4); k > 0 && p+2 <= len(sets[i]); k-- {
				var np = p + 4 + int(leU16(sets[i][p:]))
				if np+2 > len(sets[i]) {
					break
				}
				p = np
			}
			copy(sets[i][p:], encUint(uint64(pick(r, 0, 1, 2, 0xffff, 0x7fff, r.Int(300))), 2))
			s = fmt.Sprintf("length at %d of tagset %d", p, i)
		}
	case 2: // an entry twice, with another spelling
		if i > 0 {
			var l, _ = refScan(sets[i])
			for k := range l {
				if l[k].ID == tPath {
					var nb = []byte(backslash(r, string(l[k].B)))
					l = append([]MTag(nil), l...)
					l[k].B = nb
				}
			}
			var at = r.Range(1, len(sets)-1)
			sets = append(sets[:at], append([][]byte{encTags(l)}, sets[at:]...)...)
			s = "same entry again"
			if r.P(2, 3) {
				copy(b[24:], encUint(h.Count+1, 8))
			}
		}
	case 3: // a tag is missing, doubled or moved
		var l, _ = refScan(sets[i])
		if len(l) > 0 {
			var k = r.Int(len(l))
			switch r.Int(3) {
			case 0:
				s = fmt.Sprintf("no tag %d", l[k].ID)
				l = append(append([]MTag(nil), l[:k]...), l[k+1:]...)
			case 1:
				s = fmt.Sprintf("second tag %d", l[k].ID)
				l = append(l, MTag{l[k].ID, encUint(ext(), 8)})
			case 2:
				s = fmt.Sprintf("second tag %d ahead", l[k].ID)
				l = append([]MTag{{l[k].ID, encUint(ext(), 8)}}, l...)
			}
			sets[i] = encTags(l)
		}
	case 4: // length of a tagset
		lie, lielen = i, pick(r, 0, 1, 3, len(sets[i])-1, len(sets[i])+1, len(sets[i])+2, 0xffff, r.Int(400))
		s = fmt.Sprintf("length %d of tagset %d", lielen, i)
	case 5: // random tagset
		sets[i] = content(r, r.Int(60))
		s = fmt.Sprintf("random tagset %d", i)
	case 6: // no end mark or early end mark
		if r.P(1, 2) {
			sets = sets[:len(sets)-1]
			s = "no end mark"
		} else {
			sets[i] = nil
			s = fmt.Sprintf("end mark at %d", i)
		}
	case 7: // bytes after the end mark, or a table of many tiny tagsets
		if r.P(1, 2) {
			sets = append(sets, content(r, r.Int(20)))
			s = "bytes after the end mark"
		} else {
			for k := r.Int(3000); k > 0; k-- {
				sets = append(sets, []byte{3, 0, 0, 0})
			}
			copy(b[24:], encUint(ext(), 8))
			s = "many tiny tagsets"
		}
	}
	var nf []byte
	for k, ts := range sets {
		var n = len(ts)
		if k == lie {
			n = max(0, lielen)
		}
		nf = append(nf, byte(n), byte(n>>8))
		nf = append(nf, ts...)
	}
	b = append(append(b[:h.FttOff:h.FttOff], nf...), tags[h.FttOff+h.FttSize:]...)
	copy(b[40:], encUint(uint64(len(nf)), 8))
	if r.P(1, 8) { // size does not follow
		copy(b[40:], encUint(h.FttSize, 8))
	}
	return b, s
}

func leU16(b []byte) uint16 { return uint16(b[0]) | uint16(b[1])<<8 }

func runC05(c *C) {
	var r = c.R
	var split = r.P(1, 2)
	var tags, dat []byte
	var m *Model
	var what string
	var legal []byte
	switch r.Int(10) {
	case 0:
		tags = content(r, r.Int(300))
		if r.P(1, 2) && len(tags) >= 24 {
			copy(tags, pick(r, sigReady, sigBuild))
		}
		if r.P(1, 2) && len(tags) >= 64 { // small numbers
			for f := 24; f < 64; f += 8 {
				copy(tags[f:], encUint(uint64(r.Int(len(tags)+10)), 8))
			}
		}
		dat = tags
		if split {
			dat = content(r, r.Int(200))
		}
		what = "random bytes"
	case 1, 2, 3, 4: // by the library
		var s = newSession(split)
		c.NoErr(s.pkg.Begin(s.wpt, s.f()), "Begin")
		m = &Model{}
		for _, name := range fsNames(r, r.Int(6)) {
			var data = content(r, r.Int(200))
			var _, err = s.pkg.PackData(s.w(), bytes.NewReader(data), name)
			c.NoErr(err, "PackData")
			m.Ents = append(m.Ents, &Ent{Name: name, Data: data})
		}
		s.pkg.SetInfo(mkTagset(extraTags(r, 2)))
		c.NoErr(s.pkg.Sync(s.wpt, s.f()), "Sync")
		legal = s.wpt.B
		tags, what = breakImage(c, legal, m, split)
		dat = s.dat()
	default:
		legal, dat, m = genImage(c, split)
		tags, what = breakImage(c, legal, m, split)
	}
	if !split && what != "random bytes" {
		dat = tags
	}
	c.Mix(string(tags))
	c.T("split %v, %s, %d bytes", split, what, len(tags))
	if !bytes.Equal(tags, legal) {
		c.NonTrivial()
	}
	var limit = uint64(len(tags))*200 + 4<<20
	var start = time.Now()
	var measure = func(step string, f func()) {
		var a = allocated()
		f()
		if d := allocated() - a; d > limit {
			c.Fail("%s of %d bytes allocates %d bytes (%s)", step, len(tags), d, what)
		}
	}
	var pkg = wpk.NewPackage()
	var err error
	measure("OpenStream", func() { err = pkg.OpenStream(bytes.NewReader(tags)) })
	var ierr error
	measure("GetPackageInfo", func() { _, _, ierr = wpk.GetPackageInfo(bytes.NewReader(tags)) })
	// direct parsers, on the whole of the bytes and on the table
	var hdr wpk.Header
	measure("Header.Parse", func() { hdr.Parse(tags) })
	var hdr2 wpk.Header
	measure("Header.ReadFrom", func() { hdr2.ReadFrom(bytes.NewReader(tags)) })
	if h, e := decHdr(tags); e == nil {
		var part = tags[min(uint64(len(tags)), h.FttOff):]
		var lo = hdr
		if h.Count > uint64(len(tags)) { // Init trusts the count; opening checks it
			var b = append([]byte(nil), tags[:hdrLen]...)
			copy(b[24:], encUint(0, 8))
			lo.Parse(b)
		}
		for k := 0; k < 2; k++ {
			measure("table parser", func() {
				var ftt = &wpk.FTT{}
				ftt.Init(&lo)
				var n int64
				if k == 0 {
					n, _ = ftt.Parse(part)
				} else {
					n, _ = ftt.ReadFrom(bytes.NewReader(part))
				}
				if n > int64(len(part)) {
					c.Fail("table parser %d says it has read %d of %d bytes (%s)", k, n, len(part), what)
				}
			})
		}
	}
	if err != nil {
		c.Ev("broken images rejected", 1)
		// the failed package object is still safe to use
		if r.P(1, 4) {
			pkg.Tagger = &memTagger{dat}
			pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool { pkg.ReadFile(fkey); return true })
			pkg.ReadDir(".")
		}
		return
	}
	if ierr != nil {
		c.Fail("opens, but the info query says %v (%s)", ierr, what)
	}
	c.Ev("broken images accepted", 1)
	var h, _ = decHdr(tags)
	if h.FttSize > 0 && (h.FttOff+h.FttSize > uint64(len(tags)) || h.FttOff < hdrLen) {
		c.Fail("accepts the table at %d+%d of %d bytes (%s)", h.FttOff, h.FttSize, len(tags), what)
	}
	var seen = map[string]bool{}
	type ent struct {
		name      string
		ts        wpk.TagsetRaw
		off, size uint64
	}
	var ents []ent
	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		var key = strings.ReplaceAll(fkey, "\\", "/")
		if seen[key] || key != strings.ReplaceAll(ts.Path(), "\\", "/") {
			c.Fail("name %s is listed twice or is not that of its tagset %s (%s)", quote(fkey), quote(ts.Path()), what)
		}
		seen[key] = true
		var l, terr = decTags(ts)
		if terr != nil {
			c.Fail("accepts tagset %x: %v (%s)", []byte(ts), terr, what)
		}
		var ob, _ = getTag(l, tOffset)
		var sb, _ = getTag(l, tSize)
		var off, ok1 = decUint(ob)
		var size, ok2 = decUint(sb)
		if !ok1 || !ok2 {
			c.Fail("accepts entry %s without offset or size (%s)", quote(fkey), what)
		}
		if off < h.DatOff || off > h.DatOff+h.DatSize || size > h.DatOff+h.DatSize-off || h.DatOff+h.DatSize < h.DatOff {
			c.Fail("accepts entry %s at %d+%d outside of the data area %d+%d (%s)", quote(fkey), off, size, h.DatOff, h.DatSize, what)
		}
		if o, s := ts.Pos(); uint64(o) != off || uint64(s) != size {
			c.Fail("entry %s reads %d+%d, stored %d+%d", quote(fkey), o, s, off, size)
		}
		ents = append(ents, ent{fkey, ts, off, size})
		return true
	})
	// every tagset of the table up to the end mark is listed
	if h.FttSize > 0 {
		var x = tags[h.FttOff : h.FttOff+h.FttSize]
		var sets = -1
		for len(x) >= 2 {
			var n = int(leU16(x))
			if n > len(x)-2 {
				break
			}
			x = x[2+n:]
			if sets++; n == 0 && sets > 0 {
				sets--
				break
			}
		}
		if sets != len(ents) {
			c.Fail("lists %d entries of %d in the table (%s)", len(ents), sets, what)
		}
	}
	if len(ents) != pkg.TagsetNum() {
		c.Fail("enumerates %d entries, TagsetNum %d", len(ents), pkg.TagsetNum())
	}
	// reading through every access mode over a whole and a shortened data file
	for k := 0; k < 2; k++ {
		var file = dat
		if k == 1 {
			file = dat[:r.Int(len(dat)+1)]
			if r.P(1, 6) {
				file = nil
			}
		}
		if k == 1 && r.P(1, 2) {
			break
		}
		var fpath = c.Path("data")
		c.Env(os.WriteFile(fpath, file, 0644))
		for _, mode := range modes {
			var tgr, terr = makeTagger(mode, fpath)
			if terr != nil {
				continue
			}
			pkg.Tagger = tgr
			for _, e := range ents {
				var want []byte
				var inside = e.off <= uint64(len(file)) && e.size <= uint64(len(file))-e.off
				if inside {
					want = file[e.off : e.off+e.size]
				}
				var verify = func(how string, b []byte, err error) {
					c.Ev("entries read", 1)
					if err != nil {
						return
					}
					if !inside {
						c.Fail("%s by %s gives %d bytes of entry %s at %d+%d of a file of %d bytes (%s)", how, mode, len(b), quote(e.name), e.off, e.size, len(file), what)
					}
					if !bytes.Equal(b, want) {
						c.Fail("%s by %s of entry %s gives %s, want %s (%s)", how, mode, quote(e.name), hexShort(b), hexShort(want), what)
					}
				}
				var b []byte
				var rerr error
				var lim = limit + 10*uint64(len(file)) + 3<<20
				var a = allocated()
				b, rerr = pkg.ReadFile(e.name)
				if d := allocated() - a; d > lim {
					c.Fail("ReadFile by %s of entry %s at %d+%d of a file of %d bytes allocates %d bytes (%s)", mode, quote(e.name), e.off, e.size, len(file), d, what)
				}
				verify("ReadFile", b, rerr)
				var f wpk.RFile
				f, rerr = pkg.OpenTagset(e.ts)
				if rerr == nil {
					b, rerr = io.ReadAll(f)
					if rerr == nil && len(b) != int(e.size) {
						c.Fail("reading by %s of entry %s of %d bytes at %d of a file of %d bytes gives %d bytes and no error (%s)", mode, quote(e.name), e.size, e.off, len(file), len(b), what)
					}
					verify("Open and read", b, rerr)
					var p [16]byte
					f.ReadAt(p[:], int64(r.Int(40)))
					f.Close()
				}
			}
			pkg.ReadDir(".")
			tgr.Close()
		}
	}
	if d := time.Since(start); d > 60*time.Second {
		c.Fail("takes %v (%s)", d, what)
	}
}

// ---------------------------------------------------------------- C06

var errSource = errors.New("source fault")

// script06 is a fixed sequence of calls; the same seed gives the same calls.
type script06 struct {
	c       *C
	split   bool
	files   []*Ent
	more    []*Ent
	asFile  []bool
	appends bool
	reopen  bool
	flush   bool
	info    []MTag
}

// run executes the script with the fault plan; returns the text of a violation.
func (s *script06) run(fl *Faults, chunk func() int) (calls, met int) {
	var c = s.c
	var ses = newSession(s.split)
	ses.l = nil
	ses.wpt.L, ses.wpt.F, ses.wpt.Chunk = nil, fl, chunk
	if s.split {
		ses.wpf.L, ses.wpf.F = nil, fl
	}
	var m = &Model{}
	// op runs one call; says whether the script may go on
	var op = func(name string, f func() error) (err error, hit bool) {
		calls++
		var before = fl.Hit
		err = f()
		hit = fl.Hit && !before
		if hit {
			met++
			if err == nil {
				c.Fail("%s reports success though %s #%d of the streams failed", name, fl.What, fl.FailAt)
			}
			return
		}
		if err != nil {
			c.Fail("%s fails without a fault of the streams: %v", name, err)
		}
		return
	}
	var pack = func(l []*Ent) {
		for i, e := range l {
			var name = "PackData " + quote(e.Name)
			var err, hit = op(name, func() (err error) {
				if s.asFile[i%len(s.asFile)] {
					_, err = ses.pkg.PackFile(ses.w(), &memFile{src: bytes.NewReader(e.Data), size: int64(len(e.Data)), mod: time.Unix(1, 2)}, e.Name)
				} else {
					_, err = ses.pkg.PackData(ses.w(), &chunkReader{b: e.Data, next: func() int { return 100 }, fail: -1}, e.Name)
				}
				return
			})
			if err != nil && hit {
				if ses.pkg.HasTagset(e.Name) {
					c.Fail("%s failed but is listed", name)
				}
				continue
			}
			var x = e.clone()
			x.Times = true
			x.Tags = nil
			m.Ents = append(m.Ents, x)
		}
	}
	var open = func(what string) bool {
		var p = wpk.NewPackage()
		ses.wpt.F = fl
		var err, hit = op("OpenStream", func() error { return p.OpenStream(ses.wpt) })
		if hit {
			return false
		}
		if d := m.diff(enumView(c, what, p, ses.dat()), rawTags(c, what, p.GetInfo()), true); d != "" {
			c.Fail("%s: %s", what, d)
		}
		var ts wpk.TagsetRaw
		err, hit = op("GetPackageInfo", func() (err error) { _, ts, err = wpk.GetPackageInfo(ses.wpt); return })
		if hit {
			return false
		}
		if err == nil && !sameTags(rawTags(c, what, ts), m.Info) {
			c.Fail("%s: info query gives %v, want %v", what, rawTags(c, what, ts), m.Info)
		}
		return true
	}
	if _, hit := op("Begin", func() error { return ses.pkg.Begin(ses.wpt, ses.f()) }); hit {
		return
	}
	pack(s.files)
	m.Info = s.info
	ses.pkg.SetInfo(mkTagset(s.info))
	if s.split && s.flush {
		if _, hit := op("Sync", func() error { return ses.pkg.Sync(ses.wpt, ses.f()) }); hit {
			return
		}
		pack(s.more[:len(s.more)/2])
	}
	if _, hit := op("Sync", func() error { return ses.pkg.Sync(ses.wpt, ses.f()) }); hit {
		return
	}
	if !open("after Sync") {
		return
	}
	if s.appends {
		if s.reopen {
			var p = wpk.NewPackage()
			if _, hit := op("OpenStream", func() error { return p.OpenStream(ses.wpt) }); hit {
				return
			}
			ses.pkg = p
		}
		if _, hit := op("Append", func() error { return ses.pkg.Append(ses.wpt, ses.f()) }); hit {
			return
		}
		var rest = s.more
		if s.split && s.flush {
			rest = s.more[len(s.more)/2:]
		}
		pack(rest)
		if _, hit := op("Sync", func() error { return ses.pkg.Sync(ses.wpt, ses.f()) }); hit {
			return
		}
		if !open("after append") {
			return
		}
	}
	c.Ev("scripts completed", 1)
	return
}

func runC06(c *C) {
	var r = c.R
	switch c.N % 4 {
	case 0, 1:
		var s = &script06{c: c, split: r.P(1, 2), appends: r.P(1, 2), reopen: r.P(1, 2), flush: r.P(1, 2), info: extraTags(r, 2)}
		var names = fsNames(r, 6)
		for i, n := range names {
			var e = &Ent{Name: n, Data: content(r, pick(r, 0, 1, 50, 99, 250, r.Int(400)))}
			if i < 3 {
				s.files = append(s.files, e)
			} else {
				s.more = append(s.more, e)
			}
			s.asFile = append(s.asFile, r.P(1, 3))
		}
		c.T("script split %v append %v reopen %v flush %v info %v", s.split, s.appends, s.reopen, s.flush, s.info)
		for _, e := range append(append([]*Ent(nil), s.files...), s.more...) {
			c.T("file %s %d bytes", quote(e.Name), len(e.Data))
		}
		var fl = &Faults{FailAt: -1}
		s.run(fl, nil)
		var total = fl.N
		for i := 0; i < total; i++ {
			for mode := 0; mode < 2; mode++ {
				var fl = &Faults{FailAt: i, Mode: mode}
				var _, met = s.run(fl, nil)
				if met > 0 {
					c.NonTrivial()
					c.Ev("faults met", met)
				}
			}
		}
	case 2:
		if r.P(1, 6) {
			runC06tables(c)
			return
		}
		runC06source(c)
	case 3:
		if r.P(1, 5) {
			runC06handles(c)
			return
		}
		runC06short(c)
	}
}

// faultTagger gives handles whose reading goes by pieces, or is broken after some bytes.
type faultTagger struct {
	memTagger
	at   int   // bytes before the break, -1 is never
	err  error // error of the break, EOF or any other
	next func() int
	ends bool // EOF comes with the last bytes
}

type faultHandle struct {
	wpk.RFile
	r  io.Reader
	at int
	e  error
}

func (f *faultHandle) Read(b []byte) (int, error) { return f.r.Read(b) }

func (f *faultHandle) ReadAt(b []byte, off int64) (int, error) {
	if f.at >= 0 && off+int64(len(b)) > int64(f.at) {
		if off >= int64(f.at) {
			return 0, f.e
		}
		var n, _ = f.RFile.ReadAt(b[:int64(f.at)-off], off)
		return n, f.e
	}
	return f.RFile.ReadAt(b, off)
}

func (t *faultTagger) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	var f, err = t.memTagger.OpenTagset(ts)
	if err != nil {
		return nil, err
	}
	var b, rerr = io.ReadAll(f)
	if rerr != nil {
		return nil, rerr
	}
	f.Seek(0, io.SeekStart)
	var at = t.at
	if at >= 0 && len(b) > 0 {
		at %= len(b)
	}
	return &faultHandle{f, &chunkReader{b: b, next: t.next, fail: at, failErr: t.err, dataEOF: t.ends}, at, t.err}, nil
}

// runC06handles reads whole files by handles which give them by pieces, fail or end early.
func runC06handles(c *C) {
	var r = c.R
	var split = r.P(1, 2)
	var tags, dat, m = genImage(c, split)
	var pkg = wpk.NewPackage()
	c.NoErr(pkg.OpenStream(bytes.NewReader(tags)), "OpenStream")
	var tgr = &faultTagger{memTagger: memTagger{dat}, at: -1, ends: r.P(1, 2)}
	pkg.Tagger = tgr
	var u = &wpk.Union{List: []*wpk.Package{pkg, pkg}}
	for k := 0; k < 6; k++ {
		var lim = pick(r, 1, 2, 7, 100, 5000)
		tgr.next = func() int { return r.Range(1, lim) }
		tgr.at, tgr.err = -1, nil
		if k > 1 {
			tgr.at = r.Int(1 << 20)
			tgr.err = pick(r, error(errInjected), io.EOF, io.ErrUnexpectedEOF)
		}
		for _, e := range m.Ents {
			for i, f := range []func() ([]byte, error){
				func() ([]byte, error) { return pkg.ReadFile(e.Name) },
				func() ([]byte, error) { return u.ReadFile(e.Name) },
			} {
				var what = []string{"package", "union"}[i]
				var b, err = f()
				c.Ev("whole files read", 1)
				if tgr.at < 0 {
					if err != nil || !bytes.Equal(b, e.Data) {
						c.Fail("%s: ReadFile of %s in pieces up to %d gives %d bytes, %v, want %d", what, quote(e.Name), lim, len(b), err, len(e.Data))
					}
				} else if err == nil && len(e.Data) > 0 {
					c.Fail("%s: ReadFile of %s of %d bytes succeeds though the handle ends with %v after %d", what, quote(e.Name), len(e.Data), tgr.err, tgr.at%len(e.Data))
				}
			}
			if len(e.Data) > 0 {
				c.NonTrivial()
				c.Mix(fmt.Sprint(len(e.Data), tgr.at, tgr.err))
			}
		}
	}
}

// runC06tables fails every operation of the calls that read and write header, table and single numbers, once each:
// the operations before and after it succeed.
func runC06tables(c *C) {
	var tags, _, _ = genImage(c, false)
	var ref = wpk.NewPackage()
	c.NoErr(ref.OpenStream(bytes.NewReader(tags)), "OpenStream")
	var hdr wpk.Header
	var _, err = hdr.Parse(tags)
	c.NoErr(err, "Header.Parse")
	var at, size = int64(leU64(tags[32:])), int64(leU64(tags[40:]))
	var table = tags[at : at+size]
	c.Mix(string(table))
	for _, call := range []struct {
		name string
		n    int64
		do   func(s *stream42) (int64, error)
		b    []byte
	}{
		{"Header.WriteTo", hdrLen, func(s *stream42) (int64, error) { return hdr.WriteTo(s) }, tags[:hdrLen]},
		{"FTT.WriteTo", size, func(s *stream42) (int64, error) { return ref.FTT.WriteTo(s) }, table},
		{"Header.ReadFrom", hdrLen, func(s *stream42) (int64, error) {
			s.B = tags[:hdrLen]
			var h wpk.Header
			return h.ReadFrom(s)
		}, nil},
		{"FTT.ReadFrom", size, func(s *stream42) (int64, error) {
			s.B = table
			var ftt wpk.FTT
			ftt.Init(&hdr)
			return ftt.ReadFrom(s)
		}, nil},
		{"OpenStream", -1, func(s *stream42) (int64, error) {
			s.B = tags
			return -1, wpk.NewPackage().OpenStream(s)
		}, nil},
		{"GetPackageInfo", -1, func(s *stream42) (int64, error) {
			s.B = tags
			var _, _, err = wpk.GetPackageInfo(s)
			return -1, err
		}, nil},
		{"WriteU16", -1, func(s *stream42) (int64, error) { return -1, util.WriteU16(s, 0x0102) }, []byte{2, 1}},
		{"WriteU32", -1, func(s *stream42) (int64, error) { return -1, util.WriteU32(s, 0x01020304) }, []byte{4, 3, 2, 1}},
		{"WriteU64", -1, func(s *stream42) (int64, error) { return -1, util.WriteU64(s, 0x0102030405060708) }, []byte{8, 7, 6, 5, 4, 3, 2, 1}},
		{"ReadU16", -1, func(s *stream42) (int64, error) {
			s.B = tags[:2]
			var u, err = util.ReadU16(s)
			return -1, num06(err, uint64(u), uint64(tags[0])|uint64(tags[1])<<8)
		}, nil},
		{"ReadU32", -1, func(s *stream42) (int64, error) {
			s.B = tags[24:28]
			var u, err = util.ReadU32(s)
			return -1, num06(err, uint64(u), leU64(tags[24:])&0xffffffff)
		}, nil},
		{"ReadU64", -1, func(s *stream42) (int64, error) {
			s.B = tags[32:40]
			var u, err = util.ReadU64(s)
			return -1, num06(err, u, uint64(at))
		}, nil},
	} {
		var count = &stream42{f: &fault42{at: -1}}
		var n, err = call.do(count)
		c.NoErr(err, "%s", call.name)
		if n != call.n {
			c.Fail("%s gives length %d, want %d", call.name, n, call.n)
		}
		if call.b != nil && !bytes.Equal(count.B, call.b) {
			c.Fail("%s writes %s, want %s", call.name, hexShort(count.B), hexShort(call.b))
		}
		for i := 0; i < count.f.n; i++ {
			var s = &stream42{f: &fault42{at: i, err: errSource}}
			var _, err = call.do(s)
			if !errors.Is(err, errSource) {
				c.Fail("%s with a failing %s (operation %d of %d) gives %v", call.name, s.f.hit, i, count.f.n, err)
			}
			c.Ev("table faults", 1)
		}
		if count.f.n > 0 {
			c.NonTrivial()
		}
	}
}

func num06(err error, got, want uint64) error {
	if err == nil && got != want {
		return fmt.Errorf("number is %d, want %d", got, want)
	}
	return err
}

func runC06source(c *C) {
	var r = c.R
	var h = newHist(c, r.P(1, 2))
	h.begin()
	for k := r.Range(1, 10); k > 0; k-- {
		if r.P(1, 2) {
			h.edit()
			continue
		}
		var name = pickOf(r, h.names)
		var had = h.m.get(name) != nil
		var data = content(r, genSize(r))
		var at = pick(r, 0, len(data)/2, len(data), r.Int(len(data)+1))
		var e = errSource
		if r.P(1, 6) {
			e = io.ErrUnexpectedEOF
		}
		var src = &chunkReader{b: data, next: func() int { return r.Range(1, 3000) }, fail: at, failErr: e}
		if at == len(data) {
			src.b = append(data, 0)
		}
		var err error
		var how = "PackData"
		switch r.Int(3) {
		case 0:
			_, err = h.s.pkg.PackData(h.s.w(), src, h.key(name))
		case 1:
			how = "PackFile"
			_, err = h.s.pkg.PackFile(h.s.w(), &memFile{src: src, mod: time.Unix(5, 5)}, h.key(name))
		case 2:
			how = "PackFile without Stat"
			_, err = h.s.pkg.PackFile(h.s.w(), &memFile{src: src, mod: time.Unix(5, 5), statErr: errSource}, h.key(name))
		}
		c.T("%s %s failing after %d of %d bytes -> %v", how, quote(name), at, len(data), err)
		if err == nil {
			c.Fail("%s of %s reports success though the source failed after %d of %d bytes", how, quote(name), at, len(data))
		}
		if !had && h.s.pkg.HasTagset(name) {
			c.Fail("%s of %s failed but the file is listed", how, quote(name))
		}
		c.Ev("source faults", 1)
		c.NonTrivial()
		if r.P(1, 4) && h.s.split {
			h.sync()
		}
	}
	h.sync()
	h.reopen()
	h.check()
	h.append()
	h.edit()
	h.sync()
}

// oneReader delivers through a chunked MemFile.
func runC06short(c *C) {
	var r = c.R
	var split = r.P(1, 2)
	var tags, dat, m = genImage(c, split)
	var broken = r.P(1, 4)
	if broken {
		var s string
		tags, s = breakImage(c, tags, m, split)
		c.T("%s", s)
	}
	c.Mix(string(tags))
	c.T("short reads of %d bytes, split %v", len(tags), split)
	if len(m.Ents) > 0 {
		c.NonTrivial()
	}
	var ref = wpk.NewPackage()
	var referr = ref.OpenStream(bytes.NewReader(tags))
	var _, refts, refierr = wpk.GetPackageInfo(bytes.NewReader(tags))
	if !broken {
		c.NoErr(referr, "OpenStream")
	}
	for k := 0; k < 6; k++ {
		var lim = pick(r, 1, 2, 3, 7, 23, 24, 25, 63, 64, 65, 200)
		var f = &MemFile{B: tags}
		switch k {
		case 0:
			f.Chunk = func() int { return 1 }
		case 1:
			f.Chunk = func() int { return lim }
		default:
			f.Chunk = func() int { return r.Range(1, lim) }
		}
		var rs io.ReadSeeker = f
		if k >= 4 {
			rs = &eofReader{f, int64(len(tags))}
		}
		var p = wpk.NewPackage()
		var err = p.OpenStream(rs)
		c.Ev("short-read openings", 1)
		if (err == nil) != (referr == nil) {
			c.Fail("reader with pieces up to %d bytes opens with %v, full reader with %v", lim, err, referr)
		}
		if err == nil && !broken {
			if d := m.diff(enumView(c, "short reads", p, dat), rawTags(c, "short reads", p.GetInfo()), true); d != "" {
				c.Fail("reader with pieces up to %d bytes: %s", lim, d)
			}
			if p.DataSize() != ref.DataSize() || p.IsSplitted() != ref.IsSplitted() || p.TagsetNum() != ref.TagsetNum() {
				c.Fail("reader with pieces up to %d bytes: other data size, split flag or number of entries", lim)
			}
		}
		var hdr, ts, ierr = wpk.GetPackageInfo(rs)
		if (ierr == nil) != (refierr == nil) || ierr == nil && !bytes.Equal(ts, refts) {
			c.Fail("info query of reader with pieces up to %d bytes gives %v %v, full reader %v %v", lim, ts, ierr, refts, refierr)
		}
		if ierr == nil {
			var h, _ = decHdr(tags)
			if uint64(hdr.Count()) != h.Count || uint64(hdr.FttSize()) != h.FttSize || uint64(hdr.DataSize()) != h.DatSize {
				c.Fail("info query of reader with pieces up to %d bytes gives another header", lim)
			}
		}
		// header and table readers
		if !broken {
			var h, _ = decHdr(tags)
			f.Pos = 0
			var hdr wpk.Header
			if n, err := hdr.ReadFrom(f); n != hdrLen || err != nil || uint64(hdr.Count()) != h.Count {
				c.Fail("Header.ReadFrom in pieces up to %d: %d bytes, %v", lim, n, err)
			}
			f.Pos = int64(h.FttOff)
			var ftt = &wpk.FTT{}
			ftt.Init(&hdr)
			if n, err := ftt.ReadFrom(f); uint64(n) != h.FttSize || err != nil {
				c.Fail("FTT.ReadFrom in pieces up to %d: %d bytes of %d, %v", lim, n, h.FttSize, err)
			}
			if d := m.diff(enumView(c, "table reader", &wpk.Package{FTT: ftt, Workspace: "."}, dat), rawTags(c, "table reader", ftt.GetInfo()), true); d != "" {
				c.Fail("table reader with pieces up to %d bytes: %s", lim, d)
			}
		}
	}
}

// eofReader gives EOF together with the last bytes.
type eofReader struct {
	*MemFile
	n int64
}

func (e *eofReader) Read(p []byte) (n int, err error) {
	n, err = e.MemFile.Read(p)
	if err == nil && e.Pos >= e.n {
		err = io.EOF
	}
	return
}

var _ = runtime.GC
