// C26: packages beyond 4 GiB. C27: oversize tagsets. C28: file times.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
)

func init() {
	register(&Prop{
		ID: "C26", Level: "exploration", Quick: 3000, Thorough: 30000, Workers: 2,
		Rule:   "each case packs sparse files of sizes around 2^31, 2^32 and up to 6 GiB and small ones behind them, in one or more sessions on sparse disk files, so that offsets and sizes lie on both sides of the limits, then reads them back through the map and OS-file modes at their edges and around the limits, and decodes the table independently; non-trivial when an offset or size is beyond 4 GiB",
		MinEv:  map[string]int64{"reads compared": 2000, "offsets or sizes beyond 4 GiB": 5, "offsets or sizes beyond 2 GiB": 5},
		Assume: []string{"the file system of the scratch directory has sparse files"},
		Run:    runC26,
	})
	register(&Prop{
		ID: "C27", Level: "exploration", Quick: 60000, Thorough: 600000,
		Rule:  "each case brings tagsets of entries or of the package to lengths around 65535 and multiples of 65536 (by long values, many values, long names, replacing) in a written package, demands an error of every flush while one is over the limit, opens what is on disk after the error, then removes it and demands an exact flush; tagsets up to the limit have to be stored exactly; non-trivial when a flush was refused or a tagset of 65500..65535 bytes was stored",
		MinEv: map[string]int64{"flushes refused": 1000, "tagsets at the limit stored": 300},
		Run:   runC27,
	})
	register(&Prop{
		ID: "C28", Level: "exploration", Quick: 18000, Thorough: 180000,
		Rule:   "each case gives files of a scratch directory times to the nanosecond (before 1970, beyond 2038 and 2106 too), packs them by the library or by the pack command, compares the times reported by every info method of the opened package and of views and unions, for the 12-byte and the 8-byte encoding, and the times of the files after the extract command; the reference is the stat system call; non-trivial with a nanosecond part",
		MinEv:  map[string]int64{"times compared": 3000, "extractions": 200},
		Assume: []string{"the scratch file system stores nanoseconds (values are read back before packing)"},
		Run:    runC28,
	})
}

// ---------------------------------------------------------------- C26

const mark = 64

// bigSrc is a virtual file: zeros with marks at its start, end, and around the powers of two.
type bigSrc struct {
	size int64
	seed uint64
	pos  int64
}

func (b *bigSrc) marks() (l []int64) {
	for _, at := range []int64{0, 1<<31 - mark/2, 1<<32 - mark/2, 1<<32 + 1<<31, b.size - mark} {
		if at >= 0 && at+mark <= b.size && (len(l) == 0 || at >= l[len(l)-1]+mark) {
			l = append(l, at)
		}
	}
	return
}

func (b *bigSrc) mark(at int64) []byte {
	var r = Rng{b.seed ^ uint64(at)*0x9e3779b97f4a7c15}
	var p = make([]byte, mark)
	for i := 0; i < mark; i += 8 {
		binary.LittleEndian.PutUint64(p[i:], r.U64()|0x0101010101010101)
	}
	return p
}

// at gives the content at [off, off+n).
func (b *bigSrc) at(off int64, n int) []byte {
	if off >= b.size {
		return nil
	}
	if int64(n) > b.size-off {
		n = int(b.size - off)
	}
	var p = make([]byte, n)
	b.put(p, off)
	return p
}

// put sets marks in zeroed p which is at off.
func (b *bigSrc) put(p []byte, off int64) {
	var n = len(p)
	for _, m := range b.marks() {
		if m < off+int64(n) && m+mark > off {
			var mb = b.mark(m)
			if m >= off {
				copy(p[m-off:], mb)
			} else {
				copy(p, mb[off-m:])
			}
		}
	}
}

func (b *bigSrc) Read(p []byte) (int, error) {
	if b.pos >= b.size {
		return 0, io.EOF
	}
	if int64(len(p)) > b.size-b.pos {
		p = p[:b.size-b.pos]
	}
	clear(p)
	b.put(p, b.pos)
	b.pos += int64(len(p))
	slowBytes.Add(int64(len(p)))
	return len(p), nil
}

// sparseW is a disk file which keeps zeros as holes.
type sparseW struct {
	*os.File
	pos, size int64
}

func openSparse(fpath string) (*sparseW, error) {
	var f, err = os.OpenFile(fpath, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		return nil, err
	}
	var fi, serr = f.Stat()
	if serr != nil {
		return nil, serr
	}
	return &sparseW{f, 0, fi.Size()}, nil
}

func (w *sparseW) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += w.pos
	case io.SeekEnd:
		off += w.size
	}
	if off < 0 {
		return 0, fs.ErrInvalid
	}
	w.pos = off
	return off, nil
}

func (w *sparseW) Read(p []byte) (int, error) {
	var n, err = w.ReadAt(p, w.pos)
	w.pos += int64(n)
	if n > 0 {
		err = nil
	}
	return n, err
}

var zeros [1 << 16]byte

func (w *sparseW) Write(p []byte) (n int, err error) {
	if w.pos >= w.size && len(p) <= len(zeros) && bytes.Equal(p, zeros[:len(p)]) {
		n, err = len(p), w.Truncate(w.pos+int64(len(p)))
	} else {
		n, err = w.WriteAt(p, w.pos)
	}
	w.pos += int64(n)
	w.size = max(w.size, w.pos)
	return
}

// ReadFrom is not the one of os.File.
func (w *sparseW) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{w}, struct{ io.Reader }{r})
}

// slowBytes went through Read calls; the library is expected to use io.Copy, but it is not obliged to.
var slowBytes atomic.Int64

const slowLimit = 40 << 30

// WriteTo makes holes instead of zeros.
func (b *bigSrc) WriteTo(w io.Writer) (n int64, err error) {
	var f, ok = w.(*sparseW)
	if !ok {
		return io.Copy(w, struct{ io.Reader }{b})
	}
	// what is behind is going to be written over, zeros too
	if err = f.Truncate(f.pos); err != nil {
		return
	}
	if err = f.Truncate(f.pos + b.size); err != nil {
		return
	}
	for _, m := range b.marks() {
		if _, err = f.WriteAt(b.mark(m), f.pos+m); err != nil {
			return
		}
	}
	n, b.pos = b.size, b.size
	f.pos += b.size
	f.size = f.pos
	return
}

type bigFile struct {
	*bigSrc
	mod time.Time
}

func (f *bigFile) Stat() (fs.FileInfo, error) {
	return &memFile{name: "big", size: f.size, mod: f.mod}, nil
}
func (f *bigFile) Close() error { return nil }

type bigEnt struct {
	name string
	src  *bigSrc
	off  int64
	data []byte // small ones
	num  int
}

func runC26(c *C) {
	var r = c.R
	var split = r.P(1, 2)
	var tpath, dpath = c.Path("p.wpt"), c.Path("p.wpf")
	if !split {
		tpath, dpath = c.Path("p.wpk"), c.Path("p.wpk")
	}
	var ents []*bigEnt
	var end int64 // of the data
	var start int64
	if !split {
		start = hdrLen
	}
	end = start
	var sessions = r.Range(1, 3)
	var renamed = map[string]string{}
	c.T("split %v", split)
	for s := 0; s < sessions; s++ {
		var wpt, wpf *sparseW
		var err error
		wpt, err = openSparse(tpath)
		c.Env(err)
		var f io.WriteSeeker
		var w = wpt
		if split {
			wpf, err = openSparse(dpath)
			c.Env(err)
			f, w = wpf, wpf
		}
		var done = func() {
			wpt.Close()
			if split {
				wpf.Close()
			}
		}
		var pkg = wpk.NewPackage()
		if s == 0 {
			err = pkg.Begin(wpt, f)
		} else {
			err = pkg.OpenStream(wpt)
			if err == nil {
				checkBig(c, pkg, ents, split, uint64(end-start))
				err = pkg.Append(wpt, f)
			}
		}
		if err != nil {
			done()
			c.Fail("session %d: %v", s, err)
		}
		for k := r.Range(2, 4); k > 0; k-- {
			var e = &bigEnt{name: fmt.Sprintf("%s/f%d", pick(r, "d", "e"), len(ents)), num: len(ents)}
			var size int64
			if r.P(1, 2) && end < 9<<30 && slowBytes.Load() < slowLimit {
				// so that the next offset or this size falls on a limit
				switch r.Int(4) {
				case 0:
					size = pick(r, int64(1)<<31, 1<<32) + int64(pick(r, -1, 0, 1, 100))
				case 1:
					size = pick(r, int64(1)<<31, 1<<32) - end + int64(pick(r, -1, 0, 1))
				case 2:
					size = int64(r.Int(6 << 30))
				case 3:
					size = pick(r, int64(5)<<30, 1<<32+70000, 3<<30)
				}
				if size < 0 {
					size = 1 << 32
				}
			} else {
				size = int64(r.Int(3000))
			}
			e.off = end
			e.src = &bigSrc{size: size, seed: r.U64()}
			var ts wpk.TagsetRaw
			if r.P(1, 3) {
				ts, err = pkg.PackFile(w, &bigFile{&bigSrc{size: size, seed: e.src.seed}, time.Unix(1000, 0)}, e.name)
			} else {
				ts, err = pkg.PackData(w, &bigSrc{size: size, seed: e.src.seed}, e.name)
			}
			c.T("session %d: %s of %d bytes at %d -> %v", s, e.name, size, end, err)
			if err != nil {
				done()
				c.Fail("packing of %d bytes at %d: %v", size, end, err)
			}
			var off, sz = ts.Pos()
			if int64(off) != end || int64(sz) != size || ts.Size() != size {
				done()
				c.Fail("file of %d bytes at %d is recorded as %d at %d", size, end, sz, off)
			}
			end += size
			if max(size, end) > 1<<31 {
				c.Ev("offsets or sizes beyond 2 GiB", 1)
			}
			if max(size, end) > 1<<32 {
				c.Ev("offsets or sizes beyond 4 GiB", 1)
				c.NonTrivial()
			}
			ents = append(ents, e)
			if int64(pkg.DataSize()) != end-start {
				done()
				c.Fail("DataSize is %d, want %d", pkg.DataSize(), end-start)
			}
		}
		// names move, data does not
		if r.P(1, 2) {
			var e = pickOf(r, ents)
			var nn = fmt.Sprintf("r/%d-%d", s, e.num)
			if renamed[e.name] == "" {
				if err = pkg.Rename(e.name, nn); err != nil {
					done()
					c.Fail("Rename: %v", err)
				}
				e.name = nn
			}
		}
		if r.P(1, 3) {
			var e = *pickOf(r, ents)
			var nn = fmt.Sprintf("alias%d", len(ents))
			if err = pkg.PutAlias(e.name, nn); err != nil {
				done()
				c.Fail("PutAlias: %v", err)
			}
			e.name = nn
			ents = append(ents, &e)
		}
		err = pkg.Sync(wpt, f)
		done()
		c.NoErr(err, "Sync of session %d", s)
	}
	// independent view of the table
	var tf, err = os.Open(tpath)
	c.Env(err)
	defer tf.Close()
	var hb [hdrLen]byte
	_, err = io.ReadFull(tf, hb[:])
	c.Env(err)
	var hd, _ = decHdr(hb[:])
	if hd.Sig != sigReady || hd.Count != uint64(len(ents)) || hd.DatSize != uint64(end-start) || hd.DatOff != uint64(start) {
		c.Fail("header %+v, want %d entries, data of %d bytes at %d", hd, len(ents), end-start, start)
	}
	if !split && hd.FttOff != uint64(end) || hd.FttSize > 1<<20 {
		c.Fail("table of %d bytes at %d, data ends at %d", hd.FttSize, hd.FttOff, end)
	}
	var tab = make([]byte, hd.FttSize)
	_, err = tf.ReadAt(tab, int64(hd.FttOff))
	c.NoErr(err, "reading the table of %d bytes at %d", hd.FttSize, hd.FttOff)
	var byname = map[string]*bigEnt{}
	for _, e := range ents {
		byname[e.name] = e
	}
	// info is empty
	if len(tab) < 4 || tab[0] != 0 || tab[1] != 0 {
		c.Fail("table starts with %s", hexShort(tab))
	}
	var b = tab[2:]
	var n = 0
	for len(b) >= 2 {
		var l = int(binary.LittleEndian.Uint16(b))
		if l == 0 {
			break
		}
		var tags, terr = decTags(b[2 : 2+l])
		c.NoErr(terr, "tagset %d", n)
		b = b[2+l:]
		n++
		var name, _ = getTag(tags, tPath)
		var e = byname[string(name)]
		if e == nil {
			c.Fail("stored entry %s is unknown", quote(string(name)))
		}
		var ov, _ = getTag(tags, tOffset)
		var sv, _ = getTag(tags, tSize)
		var off, _ = decUint(ov)
		var size, _ = decUint(sv)
		if int64(off) != e.off || int64(size) != e.src.size {
			c.Fail("stored entry %s is %d bytes at %d, want %d at %d", e.name, size, off, e.src.size, e.off)
		}
	}
	c.Check(n == len(ents), "table has %d entries, want %d", n, len(ents))
	_, err = tf.Seek(0, io.SeekStart)
	c.Env(err)
	var hdr, _, qerr = wpk.GetPackageInfo(tf)
	c.NoErr(qerr, "GetPackageInfo")
	c.Check(int64(hdr.DataSize()) == end-start && hdr.Count() == len(ents), "quick query gives %d bytes, %d entries", hdr.DataSize(), hdr.Count())

	for _, mode := range []string{"mmap", "fsys"} {
		var pkg = openDisk(c, tpath, dpath, mode)
		func() {
			defer pkg.Close()
			checkBig(c, pkg, ents, split, uint64(end-start))
			for _, e := range ents {
				checkBigFile(c, pkg, mode, e)
			}
		}()
	}
}

func checkBig(c *C, pkg *wpk.Package, ents []*bigEnt, split bool, datsize uint64) {
	if pkg.TagsetNum() != len(ents) || pkg.IsSplitted() != split || uint64(pkg.DataSize()) != datsize {
		c.Fail("package of %d entries, split %v, %d bytes opens as %d, %v, %d", len(ents), split, datsize, pkg.TagsetNum(), pkg.IsSplitted(), pkg.DataSize())
	}
	for _, e := range ents {
		var ts, ok = pkg.GetTagset(e.name)
		c.Check(ok, "%s is lost", e.name)
		var off, size = ts.Pos()
		if int64(off) != e.off || int64(size) != e.src.size || ts.Size() != e.src.size {
			c.Fail("%s of %d bytes at %d opens as %d at %d", e.name, e.src.size, e.off, size, off)
		}
		var fi, err = pkg.Stat(e.name)
		if err != nil || fi.Size() != e.src.size {
			c.Fail("Stat of %s of %d bytes: %v", e.name, e.src.size, err)
		}
	}
}

func checkBigFile(c *C, pkg *wpk.Package, mode string, e *bigEnt) {
	var r = c.R
	var f, err = pkg.Open(e.name)
	c.NoErr(err, "%s: Open of %s of %d bytes at %d", mode, e.name, e.src.size, e.off)
	defer f.Close()
	var fi, serr = f.Stat()
	if serr != nil || fi.Size() != e.src.size {
		c.Fail("%s: Stat of the handle of %s: %v", mode, e.name, serr)
	}
	var rf = f.(wpk.RFile)
	var offs = []int64{0, e.src.size - mark, e.src.size - 10, e.src.size, e.src.size + 5, 1<<31 - 40, 1<<31 - 1, 1 << 31, 1<<32 - 40, 1<<32 - 1, 1 << 32, 1<<32 + 1<<31 - 3,
		1<<31 - e.off - 40, 1<<32 - e.off - 40, int64(r.U64() % uint64(e.src.size+1))}
	for _, off := range offs {
		if off < 0 {
			continue
		}
		c.Ev("reads compared", 1)
		var p = make([]byte, 100)
		var want = e.src.at(off, len(p))
		var n, err = rf.ReadAt(p, off)
		if n != len(want) || !bytes.Equal(p[:n], want) || n < len(p) && err != io.EOF {
			c.Fail("%s: ReadAt %d of %s of %d bytes at %d gives %d bytes %s %v, want %s", mode, off, e.name, e.src.size, e.off, n, hexShort(p[:n]), err, hexShort(want))
		}
		var pos int64
		switch r.Int(3) {
		case 0:
			pos, err = rf.Seek(off, io.SeekStart)
		case 1:
			pos, err = rf.Seek(off-e.src.size, io.SeekEnd)
		case 2:
			var cur, _ = rf.Seek(0, io.SeekCurrent)
			pos, err = rf.Seek(off-cur, io.SeekCurrent)
		}
		if err != nil || pos != off {
			c.Fail("%s: Seek to %d of %s of %d bytes gives %d %v", mode, off, e.name, e.src.size, pos, err)
		}
		n, err = io.ReadFull(rf, p)
		if n != len(want) || !bytes.Equal(p[:n], want) {
			c.Fail("%s: reading at %d of %s of %d bytes gives %d bytes %s %v, want %s", mode, off, e.name, e.src.size, n, hexShort(p[:n]), err, hexShort(want))
		}
	}
	if e.src.size < 4000 {
		var b, err = pkg.ReadFile(e.name)
		if err != nil || !bytes.Equal(b, e.src.at(0, int(e.src.size))) {
			c.Fail("%s: ReadFile of %s of %d bytes at %d: %v", mode, e.name, e.src.size, e.off, err)
		}
	}
}

// ---------------------------------------------------------------- C27

func lenTags(l []MTag) (n int) {
	for _, t := range l {
		n += 4 + len(t.B)
	}
	return
}

// big makes tags which together with the given ones have a total length.
func fillTags(r *Rng, have int, total int) (l []MTag) {
	var id = uint16(300)
	for have < total {
		var rest = total - have
		if rest < 4 { // can not be reached exactly by one more tag
			if len(l) == 0 {
				return
			}
			l[len(l)-1].B = append(l[len(l)-1].B, content(r, rest)...)
			return
		}
		var n = min(rest-4, 65535)
		if r.P(1, 2) {
			n = r.Int(n + 1)
		}
		if n > 65535 {
			n = 65535
		}
		l = append(l, MTag{id, content(r, n)})
		have += 4 + n
		id++
	}
	return
}

func runC27(c *C) {
	var r = c.R
	var split = r.P(2, 3)
	var h = newHist(c, split)
	h.small = true
	h.same = false
	h.strict = true
	// short names
	for i := range h.names {
		h.names[i] = fmt.Sprintf("%s%d", pick(r, "f", "dir/g"), i)
	}
	h.begin()
	for k := r.Range(1, 3); k > 0; k-- {
		h.put(pickOf(r, h.names))
	}
	h.sync()
	if r.P(1, 2) {
		h.reopen()
	}
	h.append()
	for k := r.Int(3); k > 0; k-- {
		h.put(pickOf(r, h.names))
	}
	var limit = func() int {
		return pick(r, 65535, 65534, 65533, 65500, 65536, 65537, 65540, 65600, 70000, 65536*2-1, 65536*2, 65536*2+1, 65536+30, 65536+r.Int(200), 65536*3+50, 66000)
	}
	var over = map[string]bool{} // entries over the limit; "\x00info" for the package
	var rounds = r.Range(1, 4)
	var refused, atlimit = 0, 0
	for k := 0; k < rounds; k++ {
		// make something long
		var total = limit()
		var how = r.Int(5)
		switch {
		case how == 0: // info
			h.m.Info = fillTags(r, 0, total)
			h.s.pkg.SetInfo(mkTagset(h.m.Info))
			over["\x00info"] = lenTags(h.m.Info) > 65535
			c.T("info of %d bytes", lenTags(h.m.Info))
			if n := lenTags(h.m.Info); n > 65400 && n <= 65535 {
				atlimit++
			}
		case how == 1: // name
			var name = strings.Repeat("n", max(1, min(total-30+r.Int(30), 65535)))
			if h.m.get(name) != nil {
				continue
			}
			var data = content(r, 5)
			var ts wpk.TagsetRaw
			var err = h.call("PackData", h.com, h.com, func() (err error) {
				ts, err = h.s.pkg.PackData(h.s.w(), bytes.NewReader(data), name)
				return
			})
			c.NoErr(err, "PackData of a name of %d bytes", len(name))
			h.m.Ents = append(h.m.Ents, &Ent{Name: name, Data: data})
			over[name] = len(ts) > 65535
			c.T("name of %d bytes, tagset of %d", len(name), len(ts))
			if len(ts) > 65400 && len(ts) <= 65535 {
				atlimit++
			}
		default:
			if len(h.m.Ents) == 0 {
				continue
			}
			var e = pickOf(r, h.m.Ents)
			if over[e.Name] || len(e.Name) > 1000 {
				continue
			}
			var ts, ok = h.s.pkg.GetTagset(e.Name)
			c.Check(ok, "GetTagset %s", quote(e.Name))
			ts = wpk.CopyTagset(ts)
			if how == 2 { // one value that is replaced
				var n = max(0, total-len(ts)-4)
				var v = content(r, n)
				ts = ts.Set(500, wpk.TagRaw(content(r, 10)))
				ts = ts.Set(501, wpk.TagRaw(content(r, 10)))
				e.Tags, _ = setMTag(e.Tags, MTag{500, v})
				w, _ := ts.Get(501)
				e.Tags, _ = setMTag(e.Tags, MTag{501, append([]byte(nil), w...)})
				ts = ts.Set(500, wpk.TagRaw(v))
			} else {
				for _, t := range fillTags(r, len(ts), total) {
					ts = ts.Set(t.ID, wpk.TagRaw(t.B))
					e.Tags, _ = setMTag(e.Tags, t)
				}
			}
			over[e.Name] = len(ts) > 65535
			c.T("tagset of %s is %d bytes", quote(e.Name), len(ts))
			h.s.pkg.SetTagset(e.Name, ts)
			if len(ts) > 65400 && len(ts) <= 65535 {
				atlimit++
			}
		}
		var bad []string
		for _, n := range sortedKeys(over) {
			if over[n] {
				bad = append(bad, n)
			}
		}
		if len(bad) == 0 {
			h.sync() // checks the image strictly
			c.Ev("tagsets at the limit stored", atlimit)
			if atlimit > 0 {
				c.NonTrivial()
			}
			atlimit = 0
			if h.s.split {
				continue
			}
			h.append()
			continue
		}
		for n := r.Range(1, 2); n > 0; n-- {
			var err = h.call("refused Sync", h.com, h.com, func() error { return h.s.pkg.Sync(h.s.wpt, h.f()) })
			if err == nil {
				c.Fail("flush succeeds with an oversize tagset of %s", quoteAll(bad))
			}
			c.Ev("flushes refused", 1)
			refused++
			if split {
				checkImage(c, "committed state after the refused flush", h.s.wpt.B, h.s.dat(), split, h.com)
			} else if wpk.NewPackage().OpenStream(bytes.NewReader(h.s.wpt.B)) == nil {
				c.Fail("unfinished single package opens after the refused flush")
			}
		}
		// more can be done after it
		if r.P(1, 3) {
			h.put(pickOf(r, h.names))
		}
		// remove what is too long
		for _, n := range bad {
			delete(over, n)
			if n == "\x00info" {
				h.m.Info = extraTags(r, 2)
				h.s.pkg.SetInfo(mkTagset(h.m.Info))
				continue
			}
			if len(n) > 1000 || r.P(1, 2) {
				if len(n) > 1000 && r.P(1, 2) {
					var nn = fmt.Sprintf("renamed%d", k)
					c.NoErr(h.s.pkg.Rename(n, nn), "Rename")
					var x = h.m.get(n).clone()
					h.m.del(n)
					x.Name, x.Loose = nn, true
					h.m.Ents = append(h.m.Ents, x)
					continue
				}
				var _, ok = h.s.pkg.DelTagset(n)
				c.Check(ok && h.m.del(n), "DelTagset %s", quote(n))
			} else {
				var ts, _ = h.s.pkg.GetTagset(n)
				var off, size = ts.Pos()
				h.s.pkg.SetTagset(n, h.s.pkg.BaseTagset(off, size, n))
				h.m.get(n).Tags = nil
			}
		}
		c.T("removed")
		h.sync()
		if !h.s.split {
			h.append()
		}
	}
	if refused > 0 {
		c.NonTrivial()
	}
	h.sync()
	if refused > 0 && r.P(1, 4) { // also while the flushes after the refused one are under way
		replay(c, h, split)
	}
	// and the stored table goes through the open mode
	h.reopen()
	h.check()
}

// ---------------------------------------------------------------- C28

func runBin(c *C, name string, args ...string) string {
	var cmd = exec.Command(filepath.Join(*flBins, name), args...)
	cmd.Dir = c.Dir()
	var b, err = cmd.CombinedOutput()
	if err != nil && cmd.ProcessState == nil {
		c.Env(err)
	}
	c.T("%s %s -> %s", name, strings.Join(args, " "), tail(strings.ReplaceAll(string(b), c.Dir(), "DIR"), 300))
	return string(b)
}

var reDone = regexp.MustCompile(`(?m)^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d done\.$`)

func finished(out string) bool { return reDone.MatchString(out) }

func genTime(r *Rng) time.Time {
	var sec = int64(r.Int(2000000000))
	switch r.Int(8) {
	case 0:
		sec = -int64(r.Int(2000000000))
	case 1:
		sec = int64(1)<<31 + int64(r.Int(1<<30))
	case 2:
		sec = int64(1)<<32 + int64(r.Int(1<<31))
	case 3:
		sec = pick(r, int64(0), -1, 1, 1<<31-1, 1<<31, 1<<32-1, 1<<32)
	}
	var ns = pick(r, r.Int(1000000000), r.Int(1000000000), 0, 1, 999999999, 999999, 1000000, 123456789, 500)
	return time.Unix(sec, int64(ns))
}

func statTimes(c *C, fpath string) (a, m, ct time.Time) {
	var st syscall.Stat_t
	c.Env(syscall.Lstat(fpath, &st))
	return time.Unix(st.Atim.Sec, st.Atim.Nsec), time.Unix(st.Mtim.Sec, st.Mtim.Nsec), time.Unix(st.Ctim.Sec, st.Ctim.Nsec)
}

type ftimes struct{ a, m, c time.Time }

func runC28(c *C) {
	var r = c.R
	var src = c.Path("src")
	var names = fsNames(r, r.Range(1, 5))
	var data = map[string][]byte{}
	var want = map[string]ftimes{}
	for _, n := range names {
		var fpath = filepath.Join(src, n)
		c.Env(os.MkdirAll(filepath.Dir(fpath), 0755))
		data[n] = content(r, r.Int(100))
		writeFile(c, fpath, data[n])
		var at, mt = genTime(r), genTime(r)
		if r.P(3, 4) { // the others have the change time equal to the modification time
			c.Env(os.Chtimes(fpath, at, mt))
		}
		if mt.Nanosecond()%1000000 != 0 {
			c.NonTrivial()
		}
	}
	for _, n := range names {
		var a, m, ct = statTimes(c, filepath.Join(src, n))
		want[n] = ftimes{a, m, ct}
		c.T("%s: mtime %d.%09d atime %d.%09d", quote(n), m.Unix(), m.Nanosecond(), a.Unix(), a.Nanosecond())
	}
	var split = r.P(1, 2)
	var base = c.Path("p.wpk")
	var tpath, dpath = base, base
	if split {
		tpath, dpath = wpk.MakeTagsPath(base), wpk.MakeDataPath(base)
	}
	var gone = map[string]bool{}
	var short = false // all times are kept in the short encoding
	var how = r.Int(4)
	if how == 0 { // pack command
		var args = []string{"-src", src, "-dst", base}
		if split {
			args = append(args, "-split")
		}
		if r.P(1, 2) {
			args = append(args, "-mime", "-link")
		}
		var out = runBin(c, "pack", args...)
		c.Check(finished(out), "pack: %s", out)
	} else {
		var s = newSession(split)
		c.NoErr(s.pkg.Begin(s.wpt, s.f()), "Begin")
		for _, n := range names {
			var f, err = os.Open(filepath.Join(src, n))
			c.Env(err)
			var ts wpk.TagsetRaw
			ts, err = s.pkg.PackFile(s.w(), f, n)
			f.Close()
			c.NoErr(err, "PackFile")
			if how == 1 { // short encoding of the same times
				short = true
				for _, x := range []struct {
					id wpk.TID
					t  time.Time
				}{{wpk.TIDmtime, want[n].m}, {wpk.TIDatime, want[n].a}, {wpk.TIDctime, want[n].c}} {
					var ms = uint64(x.t.UnixMilli())
					if r.P(1, 2) {
						ts = wpk.CopyTagset(ts).Set(x.id, wpk.TagRaw(encUint(ms, 8)))
					} else {
						ts = wpk.CopyTagset(ts).Set(x.id, wpk.UnixmsTag(x.t))
					}
				}
				s.pkg.SetTagset(n, ts)
			}
			if r.P(1, 6) { // some times are not known
				for _, id := range []wpk.TID{wpk.TIDmtime, wpk.TIDatime, wpk.TIDctime, wpk.TIDbtime} {
					if r.P(1, 2) {
						ts = wpk.CopyTagset(ts).Del(id)
						gone[n+string(rune(id))] = true
						c.Ev("absent times", 1)
					}
				}
				s.pkg.SetTagset(n, ts)
			}
		}
		c.NoErr(s.pkg.Sync(s.wpt, s.f()), "Sync")
		if split {
			writeFile(c, dpath, s.wpf.B)
		}
		writeFile(c, tpath, s.wpt.B)
	}
	var round = func(t time.Time) time.Time {
		if short {
			return time.UnixMilli(t.UnixMilli())
		}
		return t
	}
	var mode = pickOf(r, modes)
	var pkg = openDisk(c, tpath, dpath, mode)
	defer pkg.Close()
	type timespec interface {
		ModTime() time.Time
		AccessTime() time.Time
		ChangeTime() time.Time
		BirthTime() time.Time
		HasChangeTime() bool
		HasBirthTime() bool
	}
	var cmp = func(what, n string, fi fs.FileInfo, w ftimes) {
		c.Ev("times compared", 1)
		var lost = func(id wpk.TID) bool { return gone[n+string(rune(id))] }
		var exp = func(id wpk.TID, t time.Time) time.Time {
			if lost(id) {
				return time.Time{}
			}
			return round(t)
		}
		if m := exp(wpk.TIDmtime, w.m); !fi.ModTime().Equal(m) {
			c.Fail("%s: ModTime %v, want %v", what, fi.ModTime().UTC(), m.UTC())
		}
		var t, ok = fi.(timespec)
		if !ok {
			c.Fail("%s: info %T has no access time", what, fi)
		}
		if a := exp(wpk.TIDatime, w.a); !t.AccessTime().Equal(a) {
			c.Fail("%s: AccessTime %v, want %v", what, t.AccessTime().UTC(), a.UTC())
		}
		if ct := exp(wpk.TIDctime, w.c); t.HasChangeTime() == lost(wpk.TIDctime) || !t.ChangeTime().Equal(ct) {
			c.Fail("%s: ChangeTime %v %v, want %v", what, t.HasChangeTime(), t.ChangeTime().UTC(), ct.UTC())
		}
		if t.HasBirthTime() {
			// can not be later than the others were known
			if t.BirthTime().IsZero() || lost(wpk.TIDbtime) {
				c.Fail("%s: birth time is there and it is %v", what, t.BirthTime())
			}
		} else if !t.BirthTime().IsZero() {
			c.Fail("%s: birth time is %v though absent", what, t.BirthTime())
		}
	}
	var u = &wpk.Union{List: []*wpk.Package{pkg}}
	for _, n := range names {
		var w = want[n]
		var ts, ok = pkg.GetTagset(n)
		c.Check(ok, "%s is not packed", quote(n))
		cmp("tagset of "+quote(n), n, ts, w)
		// stored to the nanosecond
		for _, x := range []struct {
			id uint16
			t  time.Time
		}{{tMtime, w.m}, {tAtime, w.a}} {
			if gone[n+string(rune(x.id))] {
				var _, tok = ts.TagTime(wpk.TID(x.id))
				c.Check(!tok && !ts.Has(wpk.TID(x.id)), "time %d of %s is there though absent", x.id, quote(n))
				continue
			}
			var v, _ = getTag(rawTags(c, "tags", ts), x.id)
			var wb = append(encUint(uint64(x.t.Unix()), 8), encUint(uint64(x.t.Nanosecond()), 4)...)
			if short {
				wb = encUint(uint64(x.t.UnixMilli()), 8)
			}
			if !bytes.Equal(v, wb) {
				c.Fail("tag %d of %s is %x, want %x", x.id, quote(n), v, wb)
			}
			var t, tok = ts.TagTime(wpk.TID(x.id))
			if !tok || !t.Equal(round(x.t)) {
				c.Fail("TagTime %d of %s is %v %v, want %v", x.id, quote(n), t, tok, round(x.t))
			}
			var ms, mok = ts.TagUnixms(wpk.TID(x.id))
			if !mok || ms != x.t.UnixMilli() {
				c.Fail("TagUnixms %d of %s is %v %v, want %v", x.id, quote(n), ms, mok, x.t.UnixMilli())
			}
		}
		var fi, err = pkg.Stat(n)
		c.NoErr(err, "Stat")
		cmp("Stat of "+quote(n), n, fi, w)
		var f, oerr = pkg.Open(n)
		c.NoErr(oerr, "Open")
		fi, err = f.Stat()
		f.Close()
		c.NoErr(err, "Stat of the handle")
		cmp("handle of "+quote(n), n, fi, w)
		fi, err = u.Stat(n)
		c.NoErr(err, "Stat of union")
		cmp("union Stat of "+quote(n), n, fi, w)
		for what, d := range map[string]fs.ReadDirFS{"package": pkg, "union": u} {
			var l, lerr = d.ReadDir(path.Dir(n))
			c.NoErr(lerr, "ReadDir")
			for _, de := range l {
				if de.Name() == path.Base(n) {
					fi, err = de.Info()
					c.NoErr(err, "Info")
					cmp(what+" entry "+quote(n), n, fi, w)
				}
			}
		}
		if dir := path.Dir(n); dir != "." {
			var v, verr = pkg.Sub(dir)
			c.NoErr(verr, "Sub")
			fi, err = v.(*wpk.Package).Stat(path.Base(n))
			c.NoErr(err, "Stat in view")
			cmp("view Stat of "+quote(n), n, fi, w)
		}
	}
	// extraction
	if how == 0 || r.P(1, 3) {
		c.Ev("extractions", 1)
		var dst = c.Path("dst")
		var ft = r.P(3, 4)
		var args = []string{"-src", tpath, "-dst", dst, "-md", "-pm", mode}
		if ft {
			args = append(args, "-ft")
		}
		var before = time.Now().Add(-2 * time.Second)
		var out = runBin(c, "extract", args...)
		c.Check(finished(out), "extract: %s", out)
		for _, n := range names {
			var fpath = filepath.Join(dst, n)
			var a, m, _ = statTimes(c, fpath)
			var b, err = os.ReadFile(fpath)
			if err != nil || !bytes.Equal(b, data[n]) {
				c.Fail("extracted %s differs: %v", quote(n), err)
			}
			if gone[n+string(rune(tMtime))] || gone[n+string(rune(tAtime))] {
				continue
			}
			if ft {
				if !m.Equal(round(want[n].m)) || !a.Equal(round(want[n].a)) {
					c.Fail("extracted %s has mtime %v, atime %v, want %v, %v", quote(n), m.UTC(), a.UTC(), round(want[n].m).UTC(), round(want[n].a).UTC())
				}
			} else if m.Before(before) {
				c.Fail("extracted %s has mtime %v without -ft", quote(n), m)
			}
		}
	}
}
