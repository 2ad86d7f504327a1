// C07: nested file handles. C08: io/fs conformance. C09: unions.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"sync/atomic"
	"testing/fstest"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
)

func init() {
	register(&Prop{
		ID: "C07", Level: "exploration", Quick: 72000, Thorough: 720000,
		Rule:  "each case packs 1..6 files (sizes around 0, 1, 4096, 65536 and page limits), opens 1..6 handles through one access mode and runs 20..200 interleaved read, seek, read-at, stat and close calls on them, comparing every result with an in-memory reader over the packed bytes; non-trivial with two handles and a seek",
		MinEv: map[string]int64{"calls compared": 10000},
		Run:   runC07,
	})
	register(&Prop{
		ID: "C08", Level: "exploration", Quick: 12000, Thorough: 150000,
		Rule:  "each case packs a random tree of 0..16 files, opens it in one access mode as a package and as subdirectory views, and compares open, stat, read, walk, directory listing, paging of every size and absent names with a tree model; the conformance test of the standard library (testing/fstest) runs on the same file systems; non-trivial with a subdirectory",
		MinEv: map[string]int64{"directories compared": 1000, "fstest runs": 500, "huge directories": 5},
		Run:   runC08,
	})
	register(&Prop{
		ID: "C09", Level: "exploration", Quick: 48000, Thorough: 480000,
		Rule:  "each case makes a union of 1..4 packages with overlapping names (same name with other content, shared directories, subdirectory views as members), and compares every operation on it and on its subdirectory views with a first-wins overlay model, including page sizes, patterns, package references and closing; non-trivial when a name is in two packages",
		MinEv: map[string]int64{"directories compared": 1000, "unions closed": 1000},
		Run:   runC09,
	})
}

// packDisk packs entries into files on disk; returns paths of the tags and data file.
func packDisk(c *C, base string, split bool, ents []*Ent) (tpath, dpath string) {
	var s = newSession(split)
	s.l = nil
	s.wpt.L = nil
	if split {
		s.wpf.L = nil
	}
	c.NoErr(s.pkg.Begin(s.wpt, s.f()), "Begin")
	for _, e := range ents {
		var ts, err = s.pkg.PackData(s.w(), bytes.NewReader(e.Data), e.Name)
		c.NoErr(err, "PackData %s", quote(e.Name))
		if len(e.Tags) > 0 {
			s.pkg.SetTagset(e.Name, putTags(ts, e.Tags))
		}
	}
	c.NoErr(s.pkg.Sync(s.wpt, s.f()), "Sync")
	tpath, dpath = c.Path(base), c.Path(base)
	if split {
		tpath, dpath = wpk.MakeTagsPath(tpath), wpk.MakeDataPath(dpath)
		writeFile(c, dpath, s.wpf.B)
	}
	writeFile(c, tpath, s.wpt.B)
	return
}

func openDisk(c *C, tpath, dpath, mode string) *wpk.Package {
	var pkg = wpk.NewPackage()
	c.NoErr(pkg.OpenFile(tpath), "OpenFile")
	var err error
	pkg.Tagger, err = makeTagger(mode, dpath)
	c.NoErr(err, "tagger %s", mode)
	return pkg
}

func timeTag(sec int64, nsec int) MTag {
	return MTag{tMtime, append(encUint(uint64(sec), 8), encUint(uint64(nsec), 4)...)}
}

func runC07(c *C) {
	var r = c.R
	var ents []*Ent
	for _, name := range fsNames(r, r.Range(1, 6)) {
		var n = genSize(r)
		if r.P(1, 6) {
			n = pick(r, 65536, 65535, 65537, 4096, 60000, 131072, 0, 1)
		}
		if r.P(1, 120) {
			n = pick(r, 1<<20-1, 1<<20, 1<<20+1, 3<<20, 5<<20+r.Int(1000))
		}
		ents = append(ents, &Ent{Name: name, Data: content(r, n), Tags: []MTag{timeTag(int64(r.Int(1<<31)), r.Int(1000000000))}})
	}
	var split = r.P(1, 2)
	var tpath, dpath = packDisk(c, "p.wpk", split, ents)
	var mode = pickOf(r, modes)
	var pkg = openDisk(c, tpath, dpath, mode)
	defer pkg.Close()
	c.T("mode %s split %v files %v", mode, split, quoteAll(entNames(ents)))
	type hnd struct {
		f   wpk.RFile
		ref *bytes.Reader
		e   *Ent
	}
	var l []*hnd
	var open = func() {
		var e = pickOf(r, ents)
		var f fs.File
		var err error
		if r.P(1, 2) {
			f, err = pkg.Open(e.Name)
		} else {
			var ts, _ = pkg.GetTagset(e.Name)
			f, err = pkg.OpenTagset(ts)
		}
		c.NoErr(err, "open %s", quote(e.Name))
		var rf, ok = f.(wpk.RFile)
		c.Check(ok, "the handle of %s has no reader interfaces", quote(e.Name))
		l = append(l, &hnd{rf, bytes.NewReader(e.Data), e})
		c.T("open %s of %d bytes", quote(e.Name), len(e.Data))
	}
	for k := r.Range(1, 4); k > 0; k-- {
		open()
	}
	var seeks, maxh = 0, 0
	for k := r.Range(20, 200); k > 0; k-- {
		maxh = max(maxh, len(l))
		if len(l) == 0 || r.P(1, 40) && len(l) < 8 {
			open()
			continue
		}
		var i = r.Int(len(l))
		var h = l[i]
		var size = len(h.e.Data)
		var near = func() int64 {
			return int64(pick(r, 0, 1, size, size-1, size+1, size/2, r.Int(size+20), 4096, 65536, size*2+5, 1<<30))
		}
		c.Ev("calls compared", 1)
		switch r.Int(12) {
		case 0, 1, 2, 3: // Read
			var p = content(r, pick(r, 0, 1, 2, 7, 64, 512, r.Int(200), size, size+1))
			var q = append([]byte(nil), p...)
			var keep = append([]byte(nil), p...)
			var pos, _ = h.ref.Seek(0, io.SeekCurrent)
			var n, err = h.f.Read(p)
			c.T("#%d read %d at %d -> %d %v", i, len(p), pos, n, err)
			if n < 0 || n > len(p) {
				c.Fail("Read of %d bytes returns %d", len(p), n)
			}
			var rn, rerr = h.ref.Read(q[:n])
			if n > 0 {
				if rn != n || rerr != nil || !bytes.Equal(p[:n], q[:n]) {
					c.Fail("Read at %d of %s (%d bytes, %s) gives %d bytes %s, file has %s", pos, quote(h.e.Name), size, mode, n, hexShort(p[:n]), hexShort(q[:rn]))
				}
				if err != nil && !(err == io.EOF && h.ref.Len() == 0) {
					c.Fail("Read at %d of %s (%d bytes) gives %v after %d bytes", pos, quote(h.e.Name), size, err, n)
				}
			} else if len(p) > 0 {
				if pos < int64(size) {
					c.Fail("Read at %d of %s (%d bytes) gives nothing and %v", pos, quote(h.e.Name), size, err)
				}
				if err != io.EOF {
					c.Fail("Read at %d of %s (%d bytes) gives %v, want EOF", pos, quote(h.e.Name), size, err)
				}
			} else if err != nil && err != io.EOF {
				c.Fail("empty Read gives %v", err)
			}
			if !bytes.Equal(p[n:], keep[n:]) && pos >= int64(size) {
				c.Fail("Read at the end of %s writes into the buffer", quote(h.e.Name))
			}
		case 4, 5, 6: // ReadAt
			var p = make([]byte, pick(r, 0, 1, 3, 100, r.Int(300), size, size+1))
			var q = make([]byte, len(p))
			var off = near()
			if r.P(1, 20) {
				off = -int64(r.Range(1, 100))
			}
			var n, err = h.f.ReadAt(p, off)
			c.T("#%d readat %d at %d -> %d %v", i, len(p), off, n, err)
			if off < 0 {
				if n != 0 || err == nil {
					c.Fail("ReadAt %d of %s gives %d bytes %v", off, quote(h.e.Name), n, err)
				}
				continue
			}
			var rn, _ = h.ref.ReadAt(q, off)
			if n != rn || !bytes.Equal(p[:n], q[:rn]) {
				c.Fail("ReadAt of %d bytes at %d of %s (%d bytes, %s) gives %d bytes %s, want %d bytes %s", len(p), off, quote(h.e.Name), size, mode, n, hexShort(p[:n]), rn, hexShort(q[:rn]))
			}
			if n < len(p) && err != io.EOF || n == len(p) && err != nil && !(err == io.EOF && off+int64(n) >= int64(size)) {
				c.Fail("ReadAt of %d bytes at %d of %s (%d bytes) gives %d bytes and %v", len(p), off, quote(h.e.Name), size, n, err)
			}
		case 7, 8, 9: // Seek
			var whence = r.Int(3)
			var off = near()
			switch whence {
			case 1:
				var pos, _ = h.ref.Seek(0, io.SeekCurrent)
				off = pick(r, 0, 1, -1, near()-pos, -pos, -pos-1)
			case 2:
				off = pick(r, 0, -1, 1, -int64(size), -int64(size)-1, near()-int64(size))
			default:
				if r.P(1, 10) {
					off = -1
				}
			}
			if r.P(1, 40) {
				whence = pick(r, 3, -1, 100)
			}
			var n, err = h.f.Seek(off, whence)
			var rn, rerr = h.ref.Seek(off, whence)
			c.T("#%d seek %d %d -> %d %v", i, off, whence, n, err)
			if (err == nil) != (rerr == nil) || err == nil && n != rn {
				c.Fail("Seek %d,%d of %s (%d bytes, %s) gives %d %v, want %d %v", off, whence, quote(h.e.Name), size, mode, n, err, rn, rerr)
			}
			seeks++
		case 10: // Stat
			var fi, err = h.f.Stat()
			c.NoErr(err, "Stat of %s", quote(h.e.Name))
			var sec, nsec = int64(leU64(h.e.Tags[0].B)), int64(leU32(h.e.Tags[0].B[8:]))
			if fi.Size() != int64(size) || fi.Name() != path.Base(h.e.Name) || fi.IsDir() || !fi.Mode().IsRegular() || !fi.ModTime().Equal(time.Unix(sec, nsec)) {
				c.Fail("Stat of %s: %d bytes, name %s, dir %v, mode %v, time %v", quote(h.e.Name), fi.Size(), quote(fi.Name()), fi.IsDir(), fi.Mode(), fi.ModTime())
			}
		case 11: // close or read all
			if r.P(1, 3) {
				c.T("#%d close", i)
				c.NoErr(h.f.Close(), "Close of %s", quote(h.e.Name))
				l = append(l[:i], l[i+1:]...)
				continue
			}
			var b, err = io.ReadAll(h.f)
			var q, _ = io.ReadAll(h.ref)
			if err != nil || !bytes.Equal(b, q) {
				c.Fail("the rest of %s (%d bytes, %s) reads as %d bytes %s %v, want %d bytes %s", quote(h.e.Name), size, mode, len(b), hexShort(b), err, len(q), hexShort(q))
			}
		}
	}
	for _, h := range l {
		var b, err = io.ReadAll(h.f)
		var q, _ = io.ReadAll(h.ref)
		if err != nil || !bytes.Equal(b, q) {
			c.Fail("the rest of %s reads as %s %v, want %s", quote(h.e.Name), hexShort(b), err, hexShort(q))
		}
		c.NoErr(h.f.Close(), "Close of %s", quote(h.e.Name))
	}
	if maxh >= 2 && seeks > 0 {
		c.NonTrivial()
	}
}

// tree is a model of a file system: path -> entry (nil for directories).
type tree map[string]*Ent

func mkTree(ents []*Ent) tree {
	var t = tree{".": nil}
	for _, e := range ents {
		t[e.Name] = e
		for d := path.Dir(e.Name); d != "."; d = path.Dir(d) {
			t[d] = nil
		}
	}
	return t
}

func (t tree) list(dir string) (l []string) {
	for p := range t {
		if p != "." && path.Dir(p) == dir {
			l = append(l, path.Base(p))
		}
	}
	sort.Strings(l)
	return
}

func (t tree) sub(dir string) tree {
	if dir == "." {
		return t
	}
	var s = tree{".": nil}
	for p, e := range t {
		if x, ok := strings.CutPrefix(p, dir+"/"); ok {
			s[x] = e
		}
	}
	return s
}

func (t tree) dirs() (l []string) {
	for p, e := range t {
		if e == nil {
			l = append(l, p)
		}
	}
	sort.Strings(l)
	return
}

func (t tree) files() (l []string) {
	for p, e := range t {
		if e != nil {
			l = append(l, p)
		}
	}
	sort.Strings(l)
	return
}

func checkInfo(c *C, what, name string, fi fs.FileInfo, e *Ent) {
	if fi.Name() != name && name != "." {
		c.Fail("%s: name is %s, want %s", what, quote(fi.Name()), quote(name))
	}
	if e == nil {
		if !fi.IsDir() || !fi.Mode().IsDir() {
			c.Fail("%s: directory has IsDir %v mode %v", what, fi.IsDir(), fi.Mode())
		}
		return
	}
	if fi.IsDir() || !fi.Mode().IsRegular() || fi.Size() != int64(len(e.Data)) {
		c.Fail("%s: file of %d bytes has IsDir %v mode %v size %d", what, len(e.Data), fi.IsDir(), fi.Mode(), fi.Size())
	}
	if v, ok := getTag(e.Tags, tMtime); ok && len(v) == 12 {
		if want := time.Unix(int64(leU64(v)), int64(leU32(v[8:]))); !fi.ModTime().Equal(want) {
			c.Fail("%s: time %v, want %v", what, fi.ModTime(), want)
		}
	}
}

func checkList(c *C, what string, t tree, dir string, l []fs.DirEntry, want []string) {
	var got []string
	for _, de := range l {
		got = append(got, de.Name())
	}
	if strings.Join(got, "\x01") != strings.Join(want, "\x01") || len(got) != len(want) {
		c.Fail("%s gives %s, want %s", what, quoteAll(got), quoteAll(want))
	}
	for _, de := range l {
		var p = path.Join(dir, de.Name())
		var e = t[p]
		if de.IsDir() != (e == nil) || de.Type().IsDir() != (e == nil) || de.Type()&^fs.ModeType != 0 || de.Type().IsRegular() == (e == nil) {
			c.Fail("%s: entry %s has IsDir %v type %v", what, quote(p), de.IsDir(), de.Type())
		}
		var fi, err = de.Info()
		c.NoErr(err, "%s: Info of entry %s", what, quote(p))
		checkInfo(c, what+": Info of entry "+quote(p), de.Name(), fi, e)
	}
}

// checkFS compares a file system with a tree.
func checkFS(c *C, what string, fsys fs.FS, t tree) {
	var r = c.R
	// walk sees everything once, in order
	var seen []string
	var err = fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			c.Fail("%s: walk at %s: %v", what, quote(p), err)
		}
		seen = append(seen, p)
		var e, ok = t[p]
		if !ok {
			c.Fail("%s: walk gives %s which is not there", what, quote(p))
		}
		if d.IsDir() != (e == nil) {
			c.Fail("%s: walk says IsDir %v on %s", what, d.IsDir(), quote(p))
		}
		return nil
	})
	c.NoErr(err, "%s: walk", what)
	if len(seen) != len(t) {
		c.Fail("%s: walk gives %s, want %d paths", what, quoteAll(seen), len(t))
	}
	// a file has no subtree
	for p, e := range t {
		if e != nil && r.P(1, 4) {
			if s, err := fs.Sub(fsys, p); err == nil {
				if l, lerr := fs.ReadDir(s, "."); lerr == nil && len(l) > 0 {
					c.Fail("%s: Sub of file %s has %d entries", what, quote(p), len(l))
				}
				if _, serr := fs.Stat(s, path.Base(p)); serr == nil {
					c.Fail("%s: Sub of file %s has %s", what, quote(p), quote(path.Base(p)))
				}
			}
		}
	}
	for _, dir := range t.dirs() {
		c.Ev("directories compared", 1)
		var want = t.list(dir)
		var l, err = fs.ReadDir(fsys, dir)
		c.NoErr(err, "%s: ReadDir %s", what, quote(dir))
		checkList(c, what+": ReadDir "+quote(dir), t, dir, l, want)
		if st, ok := fsys.(fs.StatFS); ok {
			var fi, err = st.Stat(dir)
			c.NoErr(err, "%s: Stat %s", what, quote(dir))
			checkInfo(c, what+": Stat "+quote(dir), path.Base(dir), fi, nil)
		}
		// by handle
		var f, ferr = fsys.Open(dir)
		c.NoErr(ferr, "%s: Open %s", what, quote(dir))
		var fi, serr = f.Stat()
		c.NoErr(serr, "%s: Stat of the handle of %s", what, quote(dir))
		checkInfo(c, what+": handle of "+quote(dir), path.Base(dir), fi, nil)
		var rd, ok = f.(fs.ReadDirFile)
		c.Check(ok, "%s: the handle of %s can not be listed", what, quote(dir))
		if r.P(1, 3) { // all at once, then nothing
			l, err = rd.ReadDir(pick(r, -1, 0, -5))
			c.NoErr(err, "%s: ReadDir(-1) of the handle of %s", what, quote(dir))
			checkList(c, what+": ReadDir(-1) of the handle of "+quote(dir), t, dir, l, want)
			l, err = rd.ReadDir(-1)
			if len(l) != 0 || err != nil {
				c.Fail("%s: second ReadDir(-1) of the handle of %s gives %d entries, %v", what, quote(dir), len(l), err)
			}
		} else { // by pages
			var page = pick(r, 1, 1, 2, 3, len(want), len(want)+1, 100)
			if page < 1 {
				page = 1
			}
			var got []fs.DirEntry
			for step := 0; ; step++ {
				if step > len(want)+3 {
					c.Fail("%s: paging by %d of %s does not end", what, page, quote(dir))
				}
				l, err = rd.ReadDir(page)
				if len(l) > page {
					c.Fail("%s: ReadDir(%d) of the handle of %s gives %d entries", what, page, quote(dir), len(l))
				}
				got = append(got, l...)
				if err == io.EOF {
					break
				}
				c.NoErr(err, "%s: ReadDir(%d) of the handle of %s", what, page, quote(dir))
				if len(l) == 0 {
					c.Fail("%s: ReadDir(%d) of the handle of %s gives nothing and no EOF", what, page, quote(dir))
				}
				if len(got) > len(want) {
					c.Fail("%s: ReadDir(%d) of the handle of %s repeats entries", what, page, quote(dir))
				}
			}
			checkList(c, fmt.Sprintf("%s: paging by %d of %s", what, page, quote(dir)), t, dir, got, want)
			if l, err = rd.ReadDir(1); len(l) != 0 || err != io.EOF {
				c.Fail("%s: ReadDir after the end of %s gives %d entries, %v", what, quote(dir), len(l), err)
			}
			if r.P(1, 2) {
				if l, err = rd.ReadDir(-1); len(l) != 0 || err != nil {
					c.Fail("%s: ReadDir(-1) after the end of %s gives %d entries, %v", what, quote(dir), len(l), err)
				}
			}
		}
		f.Close()
		if _, err := fs.ReadFile(fsys, dir); err == nil {
			c.Fail("%s: ReadFile of directory %s succeeds", what, quote(dir))
		}
	}
	for _, name := range t.files() {
		var e = t[name]
		var b, err = fs.ReadFile(fsys, name)
		if err != nil || !bytes.Equal(b, e.Data) {
			c.Fail("%s: ReadFile %s gives %d bytes %s, %v, want %d bytes %s", what, quote(name), len(b), hexShort(b), err, len(e.Data), hexShort(e.Data))
		}
		var fi, serr = fs.Stat(fsys, name)
		c.NoErr(serr, "%s: Stat %s", what, quote(name))
		checkInfo(c, what+": Stat "+quote(name), path.Base(name), fi, e)
		var f, ferr = fsys.Open(name)
		c.NoErr(ferr, "%s: Open %s", what, quote(name))
		fi, serr = f.Stat()
		c.NoErr(serr, "%s: Stat of the handle of %s", what, quote(name))
		checkInfo(c, what+": handle of "+quote(name), path.Base(name), fi, e)
		if b, err = readAllHandle(f); err != nil || !bytes.Equal(b, e.Data) {
			c.Fail("%s: reading %s gives %d bytes %s, %v", what, quote(name), len(b), hexShort(b), err)
		}
		if l, err := fs.ReadDir(fsys, name); err == nil {
			c.Fail("%s: ReadDir of file %s gives %d entries", what, quote(name), len(l))
		}
		c.Ev("files compared", 1)
	}
	// absent names
	for k := 0; k < 6; k++ {
		var name = fsName(r)
		if l := t.files(); len(l) > 0 && r.P(2, 3) {
			name = pickOf(r, l)
			switch r.Int(5) {
			case 0:
				name += "x"
			case 1:
				name = name[:len(name)-1]
			case 2:
				name += "/x"
			case 3:
				name = strings.ToUpper(name)
			case 4:
				name = path.Dir(name) + "x"
			}
		}
		if !fs.ValidPath(name) || name == wpk.PackName || strings.HasPrefix(name, wpk.PackName+"/") {
			continue
		}
		if _, ok := t[name]; ok {
			continue
		}
		checkAbsent(c, what, fsys, name)
	}
	// names which io/fs does not allow; backslashes are slashes here
	for k := 0; k < 4; k++ {
		var paths = sortedKeys(t)
		var name = pickOf(r, paths)
		name = pick(r, name+"/", name+"/.", "/"+name, "./"+name, name+"/..", "a/../"+name, name+"//", "./.", "./", "/", "..", "../"+name, "//", ".\\", ".\\.", name+"\\")
		if _, ok := t[strings.ReplaceAll(name, "\\", "/")]; ok {
			continue
		}
		checkInvalid(c, what, fsys, name)
	}
}

func checkInvalid(c *C, what string, fsys fs.FS, name string) {
	if f, err := fsys.Open(name); err == nil {
		c.Fail("%s: Open of not allowed %s gives %v", what, quote(name), f)
	}
	if _, err := fs.Stat(fsys, name); err == nil {
		c.Fail("%s: Stat of not allowed %s succeeds", what, quote(name))
	}
	if b, err := fs.ReadFile(fsys, name); err == nil {
		c.Fail("%s: ReadFile of not allowed %s gives %d bytes", what, quote(name), len(b))
	}
	if l, err := fs.ReadDir(fsys, name); err == nil {
		c.Fail("%s: ReadDir of not allowed %s gives %d entries", what, quote(name), len(l))
	}
	c.Ev("names which are not allowed", 1)
}

func checkAbsent(c *C, what string, fsys fs.FS, name string) {
	if f, err := fsys.Open(name); !isNotExist(err) || f != nil {
		c.Fail("%s: Open of absent %s gives %v %v", what, quote(name), f, err)
	}
	if _, err := fs.Stat(fsys, name); !isNotExist(err) {
		c.Fail("%s: Stat of absent %s gives %v", what, quote(name), err)
	}
	if b, err := fs.ReadFile(fsys, name); !isNotExist(err) {
		c.Fail("%s: ReadFile of absent %s gives %d bytes, %v", what, quote(name), len(b), err)
	}
	if l, err := fs.ReadDir(fsys, name); !isNotExist(err) {
		c.Fail("%s: ReadDir of absent %s gives %d entries, %v", what, quote(name), len(l), err)
	}
	if s, err := fs.Sub(fsys, name); !isNotExist(err) || s != nil {
		c.Fail("%s: Sub of absent %s gives %v", what, quote(name), err)
	}
	c.Ev("absent names", 1)
}

// stdFS hides Glob (patterns of a package match files only, as documented) and refuses
// names with backslashes, which the package takes for slashes.
type stdFS struct{ p fs.FS }

func (s stdFS) bad(name string) error {
	if !fs.ValidPath(name) || strings.ContainsRune(name, '\\') {
		return &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	return nil
}
func (s stdFS) Open(name string) (fs.File, error) {
	if err := s.bad(name); err != nil {
		return nil, err
	}
	return s.p.Open(name)
}
func (s stdFS) Stat(name string) (fs.FileInfo, error) {
	if err := s.bad(name); err != nil {
		return nil, err
	}
	return fs.Stat(s.p, name)
}
func (s stdFS) ReadFile(name string) ([]byte, error) {
	if err := s.bad(name); err != nil {
		return nil, err
	}
	return fs.ReadFile(s.p, name)
}
func (s stdFS) ReadDir(name string) ([]fs.DirEntry, error) {
	if err := s.bad(name); err != nil {
		return nil, err
	}
	return fs.ReadDir(s.p, name)
}
func (s stdFS) Sub(dir string) (fs.FS, error) {
	if err := s.bad(dir); err != nil {
		return nil, err
	}
	var x, err = fs.Sub(s.p, dir)
	if err != nil {
		return nil, err
	}
	return stdFS{x}, nil
}

func stdCheck(c *C, what string, fsys fs.FS, t tree) {
	var files = t.files()
	var err error
	if len(files) == 0 {
		err = fstest.TestFS(stdFS{fsys})
	} else {
		err = fstest.TestFS(stdFS{fsys}, files...)
	}
	if err != nil {
		var s = err.Error()
		if len(s) > 1500 {
			s = s[:1500]
		}
		c.Fail("%s: testing/fstest: %s", what, s)
	}
	c.Ev("fstest runs", 1)
}

func genTreeEnts(r *Rng, n int) (ents []*Ent) {
	for _, name := range fsNames(r, n) {
		var e = &Ent{Name: name, Data: content(r, pick(r, 0, 1, r.Int(100), genSize(r)))}
		if r.P(1, 2) {
			e.Tags = []MTag{timeTag(int64(r.Int(1<<31)), r.Int(1000000000))}
		}
		ents = append(ents, e)
	}
	return
}

func runC08(c *C) {
	var r = c.R
	if r.P(1, 8) {
		liveDir(c)
		return
	}
	if r.P(1, 400) {
		hugeDir(c)
		return
	}
	var ents = genTreeEnts(r, r.Int(17))
	var t = mkTree(ents)
	var split = r.P(1, 2)
	var mode = pickOf(r, modes)
	c.T("mode %s split %v files %s", mode, split, strings.Join(entNames(ents), " "))
	var tpath, dpath = packDisk(c, "p.wpk", split, ents)
	var pkg = openDisk(c, tpath, dpath, mode)
	defer pkg.Close()
	if len(t.dirs()) > 1 {
		c.NonTrivial()
	}
	checkFS(c, "package", pkg, t)
	if r.P(1, 3) {
		stdCheck(c, "package", pkg, t)
	}
	var keys = entNames(ents)
	var glob = func(what string, f fs.FS) {
		for k := 0; k < 4; k++ {
			var pat = genPattern(r, keys)
			var res, err = fs.Glob(f, pat)
			checkGlob(c, what, pat, keys, res, err)
		}
	}
	glob("package", pkg)
	// pages by the table itself
	for k := 0; k < 3; k++ {
		var dir = pickOf(r, t.dirs())
		var want = t.list(dir)
		var n = pick(r, 1, 2, len(want), len(want)+1, len(want)+r.Int(50), -1, 0)
		var l, err = pkg.ReadDirN(dir, n)
		if n > len(want) {
			c.Check(err == nil || err == io.EOF, "ReadDirN(%s, %d) of %d entries gives %v", quote(dir), n, len(want), err)
		} else {
			c.NoErr(err, "ReadDirN(%s, %d) of %d entries", quote(dir), n, len(want))
		}
		if n > 0 && n < len(want) {
			want = want[:n]
		}
		checkList(c, fmt.Sprintf("ReadDirN(%s, %d)", quote(dir), n), t, dir, l, want)
	}
	var fsys fs.FS = pkg
	var at = t
	var name = "package"
	for k := 0; k < 3 && len(at.dirs()) > 1; k++ {
		var dir = pickOf(r, at.dirs())
		var s, err = fs.Sub(fsys, dir)
		c.NoErr(err, "Sub %s of %s", quote(dir), name)
		fsys, at = s, at.sub(dir)
		if dir != "." {
			var l []string
			for _, k := range keys {
				if strings.HasPrefix(k, dir+"/") {
					l = append(l, k[len(dir)+1:])
				}
			}
			keys = l
		}
		name += " sub " + quote(dir)
		glob(name, s)
		checkFS(c, name, fsys, at)
		if r.P(1, 4) {
			stdCheck(c, name, fsys, at)
		}
	}
}

// hugeDir has directories of thousands of entries.
func hugeDir(c *C) {
	var r = c.R
	var pkg = wpk.NewPackage()
	var n = r.Range(1000, pick(r, 1500, 4000, 9000))
	var dir = pick(r, ".", "d", "d/e")
	var pre = ""
	if dir != "." {
		pre = dir + "/"
	}
	var dirs = map[string]bool{}
	var all []string
	for i := 0; i < n; i++ {
		var name = fmt.Sprintf("%x", r.Int(1<<24)<<16|i)
		if r.P(1, 3) {
			name += pick(r, ".", "-", " ", "é") + "x"
		}
		var key = pre + name
		if r.P(1, 20) {
			dirs[name] = true
			key += "/x"
		}
		pkg.SetTagset(key, pkg.BaseTagset(hdrLen, 0, key))
		all = append(all, name)
	}
	sort.Strings(all)
	c.T("directory %s of %d entries", dir, n)
	var same = func(what string, l []fs.DirEntry, want []string) {
		if len(l) != len(want) {
			c.Fail("%s gives %d entries, want %d", what, len(l), len(want))
		}
		for i, de := range l {
			if de.Name() != want[i] || de.IsDir() != dirs[want[i]] {
				c.Fail("%s: entry #%d of %d is %s dir %v, want %s dir %v", what, i, len(want), quote(de.Name()), de.IsDir(), quote(want[i]), dirs[want[i]])
			}
		}
	}
	for i, fsys := range []wpk.CompleteFS{pkg, &wpk.Union{List: []*wpk.Package{pkg}}} {
		var what = []string{"package", "union"}[i]
		var l, err = fsys.ReadDir(dir)
		c.NoErr(err, "ReadDir of %s", what)
		same("ReadDir of "+what, l, all)
		var f, oerr = fsys.Open(dir)
		c.NoErr(oerr, "Open of %s", what)
		var rd = f.(fs.ReadDirFile)
		var got []fs.DirEntry
		for {
			var k = pick(r, 1, 7, 100, 1000, 1024, 5000)
			l, err = rd.ReadDir(k)
			if err == io.EOF && len(l) == 0 {
				break
			}
			c.NoErr(err, "page of %s", what)
			c.Check(len(l) == min(k, n-len(got)), "page of %d at %d of %d gives %d entries", k, len(got), n, len(l))
			got = append(got, l...)
		}
		same("paging of "+what, got, all)
		var m, gerr = fsys.Glob(pre + "*")
		c.NoErr(gerr, "Glob of %s", what)
		c.Check(len(m) == n-len(dirs), "Glob of %s gives %d of %d files", what, len(m), n-len(dirs))
		c.NoErr(fs.WalkDir(fsys, ".", func(string, fs.DirEntry, error) error { return nil }), "WalkDir of %s", what)
	}
	c.Ev("huge directories", 1)
	c.Mix(fmt.Sprint(n, dir))
	c.NonTrivial()
}

// liveDir reads a directory by a handle while the table is edited.
func liveDir(c *C) {
	var r = c.R
	var pkg = wpk.NewPackage()
	var put = func(name string) { pkg.SetTagset(name, pkg.BaseTagset(hdrLen, 0, name)) }
	var dir = pick(r, ".", "d", "d/e")
	var pre = ""
	if dir != "." {
		pre = dir + "/"
	}
	var stay, seen = map[string]bool{}, map[string]int{}
	var all []string
	for _, s := range segs {
		if r.P(1, 4) && s != "..." && s != "..a" {
			all = append(all, s)
			if r.P(1, 4) {
				put(pre + s + "/x")
			} else {
				put(pre + s)
			}
			stay[s] = true
		}
	}
	if len(all) == 0 {
		return
	}
	var ever = map[string]bool{}
	for _, s := range all {
		ever[s] = true
	}
	var f, err = pkg.Open(dir)
	c.NoErr(err, "Open of directory %s", quote(dir))
	var rd = f.(fs.ReadDirFile)
	var edit = func() {
		for k := r.Int(4); k > 0; k-- {
			var s = pickOf(r, segs)
			if r.P(1, 2) {
				s = pickOf(r, all)
			}
			if s == "..." || s == "..a" {
				continue
			}
			if r.P(2, 3) {
				pkg.DelTagset(pre + s)
				pkg.DelTagset(pre + s + "/x")
				delete(stay, s)
				c.T("delete %s", quote(s))
			} else if !ever[s] || stay[s] {
				if !pkg.HasTagset(pre + s + "/x") {
					put(pre + s)
				}
				ever[s] = true
				c.T("put %s", quote(s))
			}
		}
		if r.P(1, 8) {
			for _, s := range all {
				pkg.DelTagset(pre + s)
				pkg.DelTagset(pre + s + "/x")
			}
			stay = map[string]bool{}
			c.T("delete all")
		}
	}
	var ended = false
	for k := 0; k < 60; k++ {
		var n = pick(r, 1, 1, 2, 3, 0, -1, 100)
		var l, err = rd.ReadDir(n)
		c.T("ReadDir(%d) -> %d %v", n, len(l), err)
		c.Ev("pages of an edited directory", 1)
		if n > 0 && (len(l) > n || len(l) == 0 && err != io.EOF || len(l) > 0 && err != nil) || n <= 0 && err != nil {
			c.Fail("ReadDir(%d) of an edited directory gives %d entries, %v", n, len(l), err)
		}
		for _, d := range l {
			if seen[d.Name()]++; seen[d.Name()] > 1 {
				c.Fail("%s is listed twice by one handle", quote(d.Name()))
			}
			if !ever[d.Name()] {
				c.Fail("%s is listed but never was there", quote(d.Name()))
			}
		}
		if ended && len(l) > 0 {
			c.Fail("ReadDir(%d) after the end gives %d entries", n, len(l))
		}
		if n <= 0 || err == io.EOF {
			if !ended {
				for s := range stay {
					if seen[s] == 0 {
						c.Fail("%s was there all the time but is not listed", quote(s))
					}
				}
			}
			ended = true
			if r.P(1, 3) {
				break
			}
		}
		edit()
	}
	f.Close()
	c.NonTrivial()
}

// cntTagger counts closings.
type cntTagger struct {
	wpk.Tagger
	n    *atomic.Int64
	err  error
	fail bool // nothing can be opened
}

func (t *cntTagger) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	if t.fail {
		return nil, errInjected
	}
	return t.Tagger.OpenTagset(ts)
}

func (t *cntTagger) Close() error {
	t.n.Add(1)
	t.Tagger.Close()
	return t.err
}

func runC09(c *C) {
	var r = c.R
	var n = r.Range(1, 4)
	// names are shared so that packages overlap; a name is a file or a directory in all of them
	var names = fsNames(r, r.Range(2, 14))
	var u wpk.Union
	var views []tree // per package
	var keys [][]string
	var closed []*atomic.Int64
	var paths []string
	var owners = map[string]int{}
	var anysub = r.P(1, 3)
	var closeErr = -1
	for i := 0; i < n; i++ {
		var ents []*Ent
		for _, name := range names {
			if r.P(1, 2) {
				ents = append(ents, &Ent{Name: name, Data: content(r, r.Int(200)), Tags: []MTag{timeTag(int64(r.Int(1<<31)), i)}})
				owners[name]++
			}
		}
		shuffle(r, ents)
		var pre = ""
		if anysub { // a member is a view of a subdirectory
			pre = pick(r, "sub", "x/y", "img", wpk.PackName)
			for _, e := range ents {
				e.Name = pre + "/" + e.Name
			}
			if r.P(1, 2) {
				ents = append(ents, &Ent{Name: pre + "1/other", Data: []byte("other")})
			}
		}
		var split = r.P(1, 3)
		var mode = pickOf(r, modes)
		var tpath, dpath = packDisk(c, fmt.Sprintf("p%d.wpk", i), split, ents)
		var pkg = openDisk(c, tpath, dpath, mode)
		var cnt = &atomic.Int64{}
		var ct = &cntTagger{Tagger: pkg.Tagger, n: cnt}
		if r.P(1, 6) {
			ct.err = errInjected
			closeErr = i
		}
		pkg.Tagger = ct
		var whole = mkTree(ents)
		var own = entNames(ents)
		if pre != "" {
			var s, err = pkg.Sub(pre)
			if err != nil { // nothing below
				pkg.Tagger.Close()
				continue
			}
			pkg = s.(*wpk.Package)
			whole = whole.sub(pre)
			var l []string
			for _, name := range own {
				if x, ok := strings.CutPrefix(name, pre+"/"); ok {
					l = append(l, x)
				}
			}
			own = l
		}
		u.List = append(u.List, pkg)
		views = append(views, whole)
		keys = append(keys, own)
		closed = append(closed, cnt)
		paths = append(paths, dpath)
		c.T("package %d %s split %v prefix %q: %s", i, mode, split, pre, strings.Join(own, " "))
	}
	for _, k := range owners {
		if k > 1 {
			c.NonTrivial()
		}
	}
	// the overlay
	var overlay = func(views []tree) tree {
		var t = tree{}
		for _, v := range views {
			for p, e := range v {
				if _, ok := t[p]; !ok {
					t[p] = e
				}
			}
		}
		return t
	}
	if len(u.List) == 0 {
		var _, err = u.Open("a")
		c.Check(isNotExist(err), "Open on empty union gives %v", err)
		return
	}
	checkUnion(c, "union", &u, views, keys, overlay(views))
	if r.P(1, 4) {
		stdCheck(c, "union", &u, overlay(views))
	}
	// references to packages
	if u.List[0].Workspace == "." {
		var k = r.Int(len(u.List))
		var f, err = u.Open(fmt.Sprintf("%s/%d", wpk.PackName, k))
		c.NoErr(err, "Open of reference %d", k)
		var b, rerr = readAllHandle(f)
		var want, _ = os.ReadFile(paths[k])
		want = want[:len(b)]
		if rerr != nil || !bytes.Equal(b, want) || len(b) < int(u.List[k].DataSize()) {
			c.Fail("reference %d reads %d bytes, %v", k, len(b), rerr)
		}
		_, err = u.Open(fmt.Sprintf("%s/%d", wpk.PackName, len(u.List)+r.Int(3)))
		c.Check(isNotExist(err), "Open of reference beyond the list gives %v", err)
		if _, err = u.Open(wpk.PackName + "/" + pick(r, "x", "", "-1", "1x", "0x0", "0b0", "0o0", "0_0", "+0", " 0", "0 ", "0/", "/0", "0.0", "18446744073709551616", "4294967296")); err == nil {
			c.Fail("Open of a bad reference succeeds")
		}
	}
	// subdirectories
	var all = overlay(views)
	for k := 0; k < 2; k++ {
		var dir = pickOf(r, all.dirs())
		var s, err = u.Sub(dir)
		c.NoErr(err, "Sub %s", quote(dir))
		var su = s.(*wpk.Union)
		var sv []tree
		var sk [][]string
		for i, v := range views {
			if _, ok := v[dir]; ok {
				sv = append(sv, v.sub(dir))
				if dir == "." {
					sk = append(sk, keys[i])
					continue
				}
				var l []string
				for _, key := range keys[i] {
					if x, ok := strings.CutPrefix(key, dir+"/"); ok {
						l = append(l, x)
					}
				}
				sk = append(sk, l)
			}
		}
		if len(su.List) != len(sv) {
			c.Fail("Sub %s has %d packages, want %d", quote(dir), len(su.List), len(sv))
		}
		checkUnion(c, "union sub "+quote(dir), su, sv, sk, all.sub(dir))
	}
	if r.P(1, 3) {
		fileOverDir(c)
	}
	if r.P(1, 30) { // references of more than one digit
		var lu wpk.Union
		var k = r.Range(9, 120)
		for i := 0; i <= k; i++ {
			lu.List = append(lu.List, &wpk.Package{FTT: u.List[0].FTT, Workspace: ".", Tagger: u.List[0].Tagger})
		}
		for _, i := range []int{8, 9, k - 1, k} {
			var f, err = lu.Open(fmt.Sprintf("%s/%d", wpk.PackName, i))
			c.NoErr(err, "Open of reference %d of %d packages", i, k+1)
			f.Close()
		}
		var _, err = lu.Open(fmt.Sprintf("%s/%d", wpk.PackName, k+1))
		c.Check(isNotExist(err), "Open of reference %d of %d packages gives %v", k+1, k+1, err)
		c.Ev("references of two and more digits", 1)
	}
	// a file of the first package is not replaced by others when it can not be opened
	if r.P(1, 3) {
		var k = r.Int(len(u.List))
		var bad = u.List[k].Tagger.(*cntTagger)
		bad.fail = true
		var first = map[string]int{}
		for i, l := range keys {
			for _, key := range l {
				if _, ok := first[key]; !ok {
					first[key] = i
				}
			}
		}
		for key, i := range first {
			c.Ev("lookups with a failing package", 1)
			var f, err = u.Open(key)
			var b, rerr = u.ReadFile(key)
			if u.List[i].Tagger == wpk.Tagger(bad) {
				if err == nil || rerr == nil {
					c.Fail("%s of package %d which can not be opened: Open gives %v, ReadFile %d bytes, %v", quote(key), i, err, len(b), rerr)
				}
				continue
			}
			c.NoErr(err, "Open %s of package %d while %d fails", quote(key), i, k)
			f.Close()
			if rerr != nil || !bytes.Equal(b, views[i][key].Data) {
				c.Fail("ReadFile %s of package %d while %d fails gives %s %v", quote(key), i, k, hexShort(b), rerr)
			}
		}
		bad.fail = false
	}
	// closing
	var err = u.Close()
	if (err != nil) != (closeErr >= 0 && closed[min(closeErr, len(closed)-1)] != nil && anyClosedErr(&u)) {
		c.Fail("Close gives %v, failing member %d", err, closeErr)
	}
	if err != nil && !errors.Is(err, errInjected) {
		c.Fail("Close gives %v", err)
	}
	for i, cnt := range closed {
		if cnt.Load() != 1 {
			c.Fail("package %d of %d is closed %d times", i, len(closed), cnt.Load())
		}
	}
	c.Ev("unions closed", 1)
}

// fileOverDir: a name is a file of one package and a directory of a later one.
func fileOverDir(c *C) {
	var r = c.R
	var names = fsNames(r, r.Range(2, 6))
	var k = pickOf(r, names)
	var first, n = r.Int(3), r.Range(2, 4)
	if first >= n {
		first = n - 1
	}
	var u wpk.Union
	var data = content(r, r.Int(100))
	for i := 0; i < n; i++ {
		var ents []*Ent
		for _, name := range names {
			if name != k && r.P(1, 2) {
				ents = append(ents, &Ent{Name: name, Data: content(r, r.Int(100))})
			}
		}
		var as = "absent"
		switch {
		case i == first:
			as = "file"
			ents = append(ents, &Ent{Name: k, Data: data})
		case i > first && i == first+1 || r.P(1, 2): // a directory never hides a file
			as = "directory"
			ents = append(ents, &Ent{Name: k + "/" + pickOf(r, segs), Data: content(r, 3)})
			if r.P(1, 2) {
				ents = append(ents, &Ent{Name: k + "/~/~", Data: content(r, 3)})
			}
		case i > first && r.P(1, 2):
			as = "another file"
			ents = append(ents, &Ent{Name: k, Data: []byte("another file")})
		}
		shuffle(r, ents)
		c.T("package %d: %s is %s", i, quote(k), as)
		var tpath, dpath = packDisk(c, fmt.Sprintf("q%d.wpk", i), false, ents)
		u.List = append(u.List, openDisk(c, tpath, dpath, pickOf(r, modes)))
	}
	defer u.Close()
	c.Ev("files over directories", 1)
	var e = &Ent{Name: k, Data: data}
	var f, err = u.Open(k)
	c.NoErr(err, "Open of %s", quote(k))
	var fi, serr = f.Stat()
	c.NoErr(serr, "Stat of the handle of %s", quote(k))
	checkInfo(c, "handle of "+quote(k), path.Base(k), fi, e)
	var b, rerr = readAllHandle(f)
	if rerr != nil || !bytes.Equal(b, data) {
		c.Fail("Open of %s reads %s %v", quote(k), hexShort(b), rerr)
	}
	if b, rerr = u.ReadFile(k); rerr != nil || !bytes.Equal(b, data) {
		c.Fail("ReadFile of %s gives %s %v", quote(k), hexShort(b), rerr)
	}
	fi, serr = u.Stat(k)
	c.NoErr(serr, "Stat of %s", quote(k))
	checkInfo(c, "Stat of "+quote(k), path.Base(k), fi, e)
	var dir = path.Dir(k)
	var l, lerr = u.ReadDir(dir)
	c.NoErr(lerr, "ReadDir of %s", quote(dir))
	var num = 0
	for _, d := range l {
		if d.Name() == path.Base(k) {
			num++
			var fi, ierr = d.Info()
			c.NoErr(ierr, "Info of %s", quote(k))
			checkInfo(c, "listed "+quote(k), path.Base(k), fi, e)
			c.Check(!d.IsDir(), "%s is listed as a directory", quote(k))
		}
	}
	c.Check(num == 1, "%s is listed %d times", quote(k), num)
	num = 0
	for _, key := range u.AllKeys() {
		if key == k {
			num++
		}
	}
	c.Check(num == 1, "%s is %d times in the key list", quote(k), num)
}

func anyClosedErr(u *wpk.Union) bool {
	for _, p := range u.List {
		if p.Tagger.(*cntTagger).err != nil {
			return true
		}
	}
	return false
}

func checkUnion(c *C, what string, u *wpk.Union, views []tree, keys [][]string, all tree) {
	var r = c.R
	checkFS(c, what, u, all)
	// key list: every file once, first packages first
	var got = u.AllKeys()
	var want []string
	var seen = map[string]bool{}
	for _, l := range keys {
		for _, k := range l {
			if !seen[k] {
				seen[k] = true
				want = append(want, k)
			}
		}
	}
	if strings.Join(got, "\x01") != strings.Join(want, "\x01") {
		c.Fail("%s: AllKeys gives %s, want %s", what, quoteAll(got), quoteAll(want))
	}
	// patterns
	for k := 0; k < 4; k++ {
		var pat = genPattern(r, want)
		var res, err = u.Glob(pat)
		checkGlob(c, what, pat, want, res, err)
	}
	// pages
	for k := 0; k < 3; k++ {
		var dir = pickOf(r, all.dirs())
		var names = all.list(dir)
		var n = pick(r, 1, 2, len(names), len(names)+1, -1, 0)
		var l, err = u.ReadDirN(dir, n)
		var wn = names
		if n > 0 && n < len(names) {
			wn = names[:n]
		}
		if n > len(names) {
			if err != nil && err != io.EOF {
				c.Fail("%s: ReadDirN(%s, %d) gives %v", what, quote(dir), n, err)
			}
		} else {
			c.NoErr(err, "%s: ReadDirN(%s, %d)", what, quote(dir), n)
		}
		checkList(c, fmt.Sprintf("%s: ReadDirN(%s, %d)", what, quote(dir), n), all, dir, l, wn)
	}
}

func genPattern(r *Rng, names []string) string {
	var s = "*"
	if len(names) > 0 {
		s = pickOf(r, names)
	}
	var b strings.Builder
	for _, ch := range s {
		switch {
		case ch == '/':
			b.WriteRune(ch)
		case r.P(1, 6):
			b.WriteString(pick(r, "*", "?", "[a-z]", "[!x]", "[^a]", "["+string(ch)+"]", "["+string(ch)+"-"+string(ch)+"x]"))
		case r.P(1, 12):
			b.WriteString("*")
		default:
			b.WriteRune(ch)
		}
	}
	if r.P(1, 5) {
		return pick(r, "*", "*/*", "*.*", "?", "*/*.jpg", "[", "a[", "*/*/*", "[a-c]*", "**", "")
	}
	return b.String()
}

func checkGlob(c *C, what, pat string, names []string, res []string, err error) {
	var want []string
	var _, perr = path.Match(pat, "")
	if perr != nil {
		if err == nil {
			c.Fail("%s: Glob(%q) gives %s though the pattern is malformed", what, pat, quoteAll(res))
		}
		return
	}
	c.NoErr(err, "%s: Glob(%q)", what, pat)
	for _, n := range names {
		if ok, _ := path.Match(pat, n); ok {
			want = append(want, n)
		}
	}
	if strings.Join(res, "\x01") != strings.Join(want, "\x01") || len(res) != len(want) {
		c.Fail("%s: Glob(%q) gives %s, want %s", what, pat, quoteAll(res), quoteAll(want))
	}
	c.Ev("patterns compared", 1)
}
