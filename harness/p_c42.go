// C42: a refused call says what it refused and why.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"strings"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
)

func init() {
	register(&Prop{
		ID: "C42", Level: "exploration", Quick: 24000, Thorough: 600000,
		Rule:  "each case makes calls that have to be refused and examines the error of each: lookups of absent names of every neighbourhood by packages, nested views, unions and views of unions through all the io/fs methods; edits by name with absent and occupied names in both spellings; a script of writing calls with every stream operation failing in turn, sources that fail, with own error values of several types; images made by an independent encoder with exactly one defect each, and what the defect is known by construction; data files which are shorter than the table says, absent files, closed handles; the Lua calls on absent, occupied, unopened and protected things; the same calls that have to succeed are mixed in and may give no error; non-trivial always",
		MinEv: map[string]int64{"lookups refused": 20000, "edits refused": 5000, "faults met": 10000, "defects named": 5000, "lua messages": 5000, "closed handles": 500, "short data": 500},
		Run:   runC42,
	})
}

func runC42(c *C) {
	c.NonTrivial()
	switch c.N % 6 {
	case 0:
		runC42lookup(c)
	case 1:
		runC42edit(c)
	case 2:
		runC42fault(c)
	case 3:
		runC42open(c)
	case 4:
		runC42lua(c)
	case 5:
		runC42short(c)
	}
}

func norm42(s string) string { return strings.ReplaceAll(s, "\\", "/") }

// wantErr examines an error of a refused call.
func wantErr(c *C, what string, err error, kind error, name string) {
	if err == nil {
		c.Fail("%s gives no error", what)
	}
	if kind != nil && !errors.Is(err, kind) {
		c.Fail("%s gives error %q (%T), which is not %q", what, err, err, kind)
	}
	var pe *fs.PathError
	if !errors.As(err, &pe) {
		c.Fail("%s gives %T %q which has no file name", what, err, err)
	}
	if norm42(pe.Path) != norm42(name) {
		c.Fail("%s: the error is about %s, not about %s: %v", what, quote(pe.Path), quote(name), err)
	}
	if pe.Op == "" || pe.Err == nil {
		c.Fail("%s: empty parts of error %#v", what, pe)
	}
}

// absent42 gives a name that is neither a file nor a directory of the set, often near to one of them.
func absent42(r *Rng, files map[string]bool) string {
	var names = sortedKeys(files)
	for {
		var s = fsName(r)
		if len(names) > 0 {
			var n = pickOf(r, names)
			switch r.Int(8) {
			case 0:
				s = n + pick(r, "x", "0", " ", ".bak", "~", "%d", "%!s")
			case 1:
				s = n + "/" + pick(r, "x", "a", "index.html")
			case 2:
				s = n[:r.Int(len(n))]
			case 3:
				s = strings.ToUpper(n)
			case 4:
				if i := strings.LastIndexByte(n, '/'); i > 0 {
					s = n[:i] + "x"
				}
			case 5:
				if i := strings.LastIndexByte(n, '/'); i > 0 {
					s = n[:i+1] + "absent" + pick(r, "", "%s", "%", "100%n")
				}
			}
		}
		s = strings.Trim(s, "/")
		if !fs.ValidPath(s) || s == "." || strings.HasPrefix(s, "@pack") {
			continue
		}
		var bad = files[s]
		for n := range files {
			bad = bad || strings.HasPrefix(n, s+"/")
		}
		if !bad {
			return s
		}
	}
}

// below42 gives the names below a directory.
func below42(files map[string]bool, dir string) map[string]bool {
	var m = map[string]bool{}
	for n := range files {
		if strings.HasPrefix(n, dir+"/") {
			m[n[len(dir)+1:]] = true
		}
	}
	return m
}

func dirsOf42(files map[string]bool) []string {
	var m = map[string]bool{}
	for n := range files {
		for i := range n {
			if n[i] == '/' {
				m[n[:i]] = true
			}
		}
	}
	return sortedKeys(m)
}

// makePkg42 writes a package with given names to disk and opens it.
func makePkg42(c *C, base string, names []string) *wpk.Package {
	var r = c.R
	var p = c.Path(base)
	var f, err = os.Create(p)
	c.Env(err)
	defer f.Close()
	var pkg = wpk.NewPackage()
	c.NoErr(pkg.Begin(f, nil), "Begin")
	for _, n := range names {
		var _, err = pkg.PackData(f, bytes.NewReader(content(r, r.Range(0, 40))), n)
		c.NoErr(err, "PackData %s", quote(n))
	}
	c.NoErr(pkg.Sync(f, nil), "Sync")
	var q = wpk.NewPackage()
	c.NoErr(q.OpenFile(p), "OpenFile")
	q.Tagger, err = makeTagger(pickOf(r, modes), p)
	c.NoErr(err, "MakeTagger")
	return q
}

type fs42 struct {
	fsys  wpk.CompleteFS
	files map[string]bool
	what  string
}

// view42 goes down to a subdirectory.
func view42(c *C, v fs42) fs42 {
	var dirs = dirsOf42(v.files)
	if len(dirs) == 0 {
		return v
	}
	var d = pickOf(c.R, dirs)
	var sub, err = v.fsys.Sub(d)
	if err != nil || sub == nil {
		c.Fail("%s: Sub of directory %s gives %v", v.what, quote(d), err)
	}
	return fs42{sub.(wpk.CompleteFS), below42(v.files, d), v.what + "/" + d}
}

func runC42lookup(c *C) {
	var r = c.R
	var v fs42
	var n1 = fsNames(r, r.Range(0, 8))
	var p1 = makePkg42(c, "1.wpk", n1)
	defer p1.Tagger.Close()
	var all = map[string]bool{}
	for _, n := range n1 {
		all[n] = true
	}
	v = fs42{p1, all, "package"}
	var nu int
	if r.P(1, 2) {
		var u = &wpk.Union{List: []*wpk.Package{p1}}
		nu = 1
		if r.P(2, 3) {
			var n2 = fsNames(r, r.Range(0, 6))
			for { // files of one may not be directories of another
				var ok = true
				for _, a := range n1 {
					for _, b := range n2 {
						ok = ok && !strings.HasPrefix(a, b+"/") && !strings.HasPrefix(b, a+"/")
					}
				}
				if ok {
					break
				}
				n2 = n2[:len(n2)-1]
			}
			var p2 = makePkg42(c, "2.wpk", n2)
			defer p2.Tagger.Close()
			u.List = append(u.List, p2)
			nu = 2
			for _, n := range n2 {
				all[n] = true
			}
		}
		v = fs42{u, all, "union"}
	}
	c.T("%s %s", v.what, quoteAll(sortedKeys(all)))
	for k := r.Int(3); k > 0; k-- {
		v = view42(c, v)
		nu = 0
	}
	for k := r.Range(3, 12); k > 0; k-- {
		var name = absent42(r, v.files)
		var given = name
		if r.P(1, 3) {
			given = backslash(r, name)
		}
		c.T("absent %s", quote(given))
		var what string
		var err error
		switch r.Int(9) {
		case 0:
			what = "Open"
			_, err = v.fsys.Open(given)
		case 1:
			what = "Stat"
			_, err = v.fsys.Stat(given)
		case 2:
			what = "ReadFile"
			_, err = v.fsys.ReadFile(given)
		case 3:
			what = "ReadDir"
			_, err = v.fsys.ReadDir(given)
		case 4:
			what = "Sub"
			var sub fs.FS
			sub, err = v.fsys.Sub(given)
			if sub != nil && err != nil {
				c.Fail("%s: Sub of %s gives both file system and error %v", v.what, quote(given), err)
			}
		case 5:
			what = "fs.ReadFile"
			_, err = fs.ReadFile(v.fsys, given)
		case 6:
			what = "fs.ReadDir"
			_, err = fs.ReadDir(v.fsys, given)
		case 7:
			what = "fs.WalkDir"
			var got string
			fs.WalkDir(v.fsys, given, func(p string, d fs.DirEntry, e error) error {
				got, err = p, e
				return e
			})
			if got != given {
				c.Fail("%s: WalkDir of %s tells about %s", v.what, quote(given), quote(got))
			}
		case 8:
			if nu > 0 {
				what, given = "Open", fmt.Sprintf("%s/%d", wpk.PackName, nu+r.Int(5))
				_, err = v.fsys.Open(given)
			} else {
				what = "Glob"
				var pat = name + pick(r, "[", "[]", "/[z-a", "\\[", "a[^")
				if _, e := path.Match(norm42(pat), ""); e != nil {
					if _, err = v.fsys.Glob(pat); !errors.Is(err, path.ErrBadPattern) {
						c.Fail("%s: Glob of malformed %s gives %v", v.what, quote(pat), err)
					}
				}
				c.Ev("lookups refused", 1)
				continue
			}
		}
		wantErr(c, v.what+": "+what+" of absent "+quote(given), err, fs.ErrNotExist, given)
		c.Ev("lookups refused", 1)
	}
	// the other kind of name: a directory is not a file, a file is not a directory
	if dirs := dirsOf42(v.files); len(dirs) > 0 {
		var d = pickOf(r, dirs)
		var _, err = v.fsys.ReadFile(d)
		wantErr(c, v.what+": ReadFile of directory "+quote(d), err, nil, d)
	}
	for n := range v.files {
		var _, err = v.fsys.Stat(n)
		c.NoErr(err, "%s: Stat of %s", v.what, quote(n))
		var f, ferr = v.fsys.Open(n)
		c.NoErr(ferr, "%s: Open of %s", v.what, quote(n))
		c.NoErr(f.Close(), "%s: Close of %s", v.what, quote(n))
		_, err = v.fsys.ReadFile(n)
		c.NoErr(err, "%s: ReadFile of %s", v.what, quote(n))
		_, err = v.fsys.ReadDir(n)
		wantErr(c, v.what+": ReadDir of file "+quote(n), err, nil, n)
		if r.P(1, 2) {
			break
		}
	}
}

func runC42edit(c *C) {
	var r = c.R
	var s = newSession(r.P(1, 2))
	c.NoErr(s.pkg.Begin(s.wpt, s.f()), "Begin")
	var files = map[string]bool{}
	var put = func(pkg *wpk.Package, key string) error {
		var data = content(r, r.Int(50))
		if r.P(1, 3) {
			var _, err = pkg.PackFile(s.w(), &memFile{src: bytes.NewReader(data), name: "x", size: int64(len(data)), mod: time.Unix(1e9, 0)}, key)
			return err
		}
		var _, err = pkg.PackData(s.w(), bytes.NewReader(data), key)
		return err
	}
	for _, n := range fsNames(r, r.Range(2, 9)) {
		c.NoErr(put(s.pkg, n), "packing of %s", quote(n))
		files[n] = true
	}
	var pkg, own, pre = s.pkg, files, ""
	if dirs := dirsOf42(files); len(dirs) > 0 && r.P(1, 3) {
		pre = pickOf(r, dirs)
		var sub, err = pkg.Sub(pre)
		c.NoErr(err, "Sub %s", quote(pre))
		pkg, own = sub.(*wpk.Package), below42(files, pre)
	}
	c.T("workspace %s, %s", quote(pre), quoteAll(sortedKeys(own)))
	for k := r.Range(3, 10); k > 0; k-- {
		var have = pickOf(r, sortedKeys(own))
		var other = pickOf(r, sortedKeys(own))
		var no = absent42(r, own)
		var g = func(n string) string {
			if r.P(1, 3) {
				return backslash(r, n)
			}
			return n
		}
		var num, size = pkg.TagsetNum(), len(s.dat())
		switch r.Int(7) {
		case 0:
			var k = g(have)
			wantErr(c, "packing to occupied "+quote(k), put(pkg, k), fs.ErrExist, k)
		case 1:
			var a, b = g(no), pick(r, have, no+"1")
			wantErr(c, "Rename of absent "+quote(a), pkg.Rename(a, b), fs.ErrNotExist, a)
		case 2:
			var a, b = g(have), g(other)
			wantErr(c, "Rename of "+quote(a)+" to occupied "+quote(b), pkg.Rename(a, b), fs.ErrExist, b)
		case 3:
			var a, b = g(no), pick(r, have, no+"1")
			wantErr(c, "PutAlias of absent "+quote(a), pkg.PutAlias(a, b), fs.ErrNotExist, a)
		case 4:
			var a, b = g(have), g(other)
			wantErr(c, "PutAlias of "+quote(a)+" to occupied "+quote(b), pkg.PutAlias(a, b), fs.ErrExist, b)
		case 5: // a directory on itself meets its own first file
			var dirs = dirsOf42(own)
			if len(dirs) == 0 {
				continue
			}
			var d = pickOf(r, dirs)
			var n, err = pkg.RenameDir(g(d), g(d), false)
			if n != 0 {
				c.Fail("RenameDir of %s to itself moves %d", quote(d), n)
			}
			var pe *fs.PathError
			if !errors.As(err, &pe) || !errors.Is(err, fs.ErrExist) || !own[norm42(pe.Path)] || !strings.HasPrefix(norm42(pe.Path), d+"/") {
				c.Fail("RenameDir of %s to itself gives %v", quote(d), err)
			}
			n, err = pkg.RenameDir(g(d), g(d), true)
			if n != 0 || err != nil {
				c.Fail("RenameDir of %s to itself with skipping moves %d, %v", quote(d), n, err)
			}
		case 6: // what may be done gives no error
			var k = g(no)
			var bad bool
			for n := range own {
				bad = bad || strings.HasPrefix(no, n+"/")
			}
			if bad {
				continue
			}
			switch r.Int(3) {
			case 0:
				c.NoErr(put(pkg, k), "packing to free %s", quote(k))
			case 1:
				c.NoErr(pkg.PutAlias(g(have), k), "PutAlias to free %s", quote(k))
			case 2:
				c.NoErr(pkg.Rename(g(have), k), "Rename to free %s", quote(k))
				delete(own, have)
				if pre != "" {
					delete(files, pre+"/"+have)
				}
			}
			own[no] = true
			if pre != "" {
				files[pre+"/"+no] = true
			}
			continue
		}
		if pkg.TagsetNum() != num || len(s.dat()) != size {
			c.Fail("a refused call changes the package: %d entries, %d bytes instead of %d, %d", pkg.TagsetNum(), len(s.dat()), num, size)
		}
		c.Ev("edits refused", 1)
	}
	if r.P(1, 4) { // a tagset that can not be stored
		var have = pickOf(r, sortedKeys(files))
		var ts, _ = s.pkg.GetTagset(have)
		if r.P(1, 2) {
			for k := 0; k < 2; k++ {
				ts = ts.Put(wpk.TID(1000+k), make(wpk.TagRaw, 40000))
			}
			s.pkg.SetTagset(have, ts)
		} else {
			s.pkg.SetInfo(mkTagset([]MTag{{1000, make([]byte, 40000)}, {1001, make([]byte, 40000)}}))
		}
		var err = s.pkg.Sync(s.wpt, s.f())
		if !errors.Is(err, wpk.ErrRangeTSSize) {
			c.Fail("Sync of a too long tagset gives %v", err)
		}
		c.Ev("edits refused", 1)
	} else {
		c.NoErr(s.pkg.Sync(s.wpt, s.f()), "Sync")
	}
}

// own error values: compared by identity, by type, wrapped, and those the standard library gives.
type err42 struct{ n int }

func (e *err42) Error() string { return fmt.Sprintf("own error %d", e.n) }

// fault42 fails one of the operations of several streams.
type fault42 struct {
	n, at int
	err   error
	hit   string
}

func (f *fault42) step(what string) error {
	f.n++
	if f.n-1 == f.at {
		f.hit = what
		return f.err
	}
	return nil
}

type stream42 struct {
	MemFile
	f *fault42
}

func (s *stream42) Read(p []byte) (int, error) {
	if err := s.f.step("read"); err != nil {
		return 0, err
	}
	return s.MemFile.Read(p)
}
func (s *stream42) Write(p []byte) (int, error) {
	if err := s.f.step("write"); err != nil {
		return 0, err
	}
	return s.MemFile.Write(p)
}
func (s *stream42) Seek(o int64, w int) (int64, error) {
	if err := s.f.step("seek"); err != nil {
		return 0, err
	}
	return s.MemFile.Seek(o, w)
}

// file42 is a source with failing Stat and Read.
type file42 struct {
	memFile
	f *fault42
}

func (s *file42) Stat() (fs.FileInfo, error) {
	if err := s.f.step("stat of source"); err != nil {
		return nil, err
	}
	return s.memFile.Stat()
}
func (s *file42) Read(p []byte) (int, error) {
	if err := s.f.step("read of source"); err != nil {
		return 0, err
	}
	return s.memFile.Read(p)
}

type src42 struct {
	io.Reader
	f *fault42
}

func (s *src42) Read(p []byte) (int, error) {
	if err := s.f.step("read of source"); err != nil {
		return 0, err
	}
	return s.Reader.Read(p)
}

// tagger42 opens nested files over failing streams.
type tagger42 struct {
	b []byte
	f *fault42
}
type nested42 struct {
	wpk.PkgReader
	f  *fault42
	ts wpk.TagsetRaw
}

func (n *nested42) Read(p []byte) (int, error) {
	if err := n.f.step("read of nested file"); err != nil {
		return 0, err
	}
	return n.PkgReader.Read(p)
}
func (n *nested42) Stat() (fs.FileInfo, error) { return n.ts, nil }
func (n *nested42) Close() error               { return nil }
func (t *tagger42) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	if err := t.f.step("open of nested file"); err != nil {
		return nil, err
	}
	var off, size = ts.Pos()
	return &nested42{bytes.NewReader(t.b[off : off+size]), t.f, ts}, nil
}
func (t *tagger42) Close() error { return t.f.step("close of tagger") }

func runC42fault(c *C) {
	var r = c.R
	var split = r.P(1, 2)
	var e error
	switch r.Int(5) {
	case 0:
		e = &err42{r.Int(1000)}
	case 1:
		e = &fs.PathError{Op: "write", Path: "/dev/sdz", Err: fs.ErrPermission}
	case 2:
		e = fmt.Errorf("device: %w", &err42{r.Int(1000)})
	case 3:
		e = io.ErrClosedPipe
	case 4:
		e = os.ErrDeadlineExceeded
	}
	var names = fsNames(r, r.Range(1, 4))
	var datas [][]byte
	for range names {
		datas = append(datas, content(r, r.Int(80)))
	}
	var kinds = make([]int, len(names))
	for i := range kinds {
		kinds[i] = r.Int(2)
	}
	var flush, app = r.P(1, 2) && split, r.P(1, 2)
	var info = extraTags(r, 2)
	// one run; gives the first call that returned an error
	var run = func(f *fault42) (call string, got error) {
		var wpt, wpf = &stream42{f: f}, &stream42{f: f}
		var w io.WriteSeeker = wpt
		var wf io.WriteSeeker
		if split {
			w, wf = wpf, wpf
		}
		var pkg = wpk.NewPackage()
		var do = func(what string, err error) bool {
			if err != nil {
				call, got = what, err
			}
			return err != nil
		}
		if do("Begin", pkg.Begin(wpt, wf)) {
			return
		}
		pkg.SetInfo(mkTagset(info))
		for i, n := range names {
			if app && i == len(names)-1 {
				if do("Sync", pkg.Sync(wpt, wf)) {
					return
				}
				var nx = wpk.NewPackage()
				if do("OpenStream", nx.OpenStream(wpt)) || do("Append", nx.Append(wpt, wf)) {
					return
				}
				pkg = nx
			}
			var err error
			if kinds[i] == 0 {
				_, err = pkg.PackData(w, &src42{bytes.NewReader(datas[i]), f}, n)
			} else {
				_, err = pkg.PackFile(w, &file42{memFile{src: bytes.NewReader(datas[i]), name: "x", size: int64(len(datas[i])), mod: time.Unix(1e9, 0)}, f}, n)
			}
			if do("packing", err) {
				return
			}
			if flush && i == 0 && do("Sync", pkg.Sync(wpt, wf)) {
				return
			}
		}
		if do("Sync", pkg.Sync(wpt, wf)) {
			return
		}
		var hdr wpk.Header
		if _, err := wpt.Seek(0, io.SeekStart); do("Seek", err) {
			return
		}
		if _, err := hdr.ReadFrom(wpt); do("Header.ReadFrom", err) {
			return
		}
		if _, err := wpt.Seek(int64(leU64(wpt.B[32:])), io.SeekStart); do("Seek", err) {
			return
		}
		var ftt = &wpk.FTT{}
		ftt.Init(&hdr)
		if _, err := ftt.ReadFrom(wpt); do("FTT.ReadFrom", err) {
			return
		}
		var out = &stream42{f: f}
		if _, err := hdr.WriteTo(out); do("Header.WriteTo", err) {
			return
		}
		if _, err := ftt.WriteTo(out); do("FTT.WriteTo", err) {
			return
		}
		if _, _, err := wpk.GetPackageInfo(wpt); do("GetPackageInfo", err) {
			return
		}
		var q = wpk.NewPackage()
		if do("OpenStream", q.OpenStream(wpt)) {
			return
		}
		var dat = wpt.B
		if split {
			dat = wpf.B
		}
		q.Tagger = &tagger42{dat, f}
		var u = &wpk.Union{List: []*wpk.Package{q}}
		for i, fsys := range []wpk.CompleteFS{q, u} {
			var b, err = fsys.ReadFile(names[0])
			if do(fmt.Sprintf("ReadFile %d", i), err) {
				return
			}
			if !bytes.Equal(b, datas[0]) {
				c.Fail("ReadFile gives %s, want %s", hexShort(b), hexShort(datas[0]))
			}
			var h fs.File
			if h, err = fsys.Open(names[0]); do(fmt.Sprintf("Open %d", i), err) {
				return
			}
			if _, err = io.ReadAll(h); do("Read", err) {
				return
			}
		}
		if do("Union.Close", u.Close()) {
			return
		}
		return
	}
	var count = &fault42{at: -1}
	if call, err := run(count); err != nil {
		c.Fail("%s without any fault gives %v", call, err)
	}
	c.T("split %v, %d files, %d operations, error %T", split, len(names), count.n, e)
	var from, step = 0, 1
	if count.n > 60 {
		from, step = r.Int(2), 2
	}
	for at := from; at < count.n; at += step {
		var f = &fault42{at: at, err: e}
		var call, err = run(f)
		if f.hit == "" {
			c.Fail("operation %d of %d is not reached", at, count.n)
		}
		if err == nil {
			c.Fail("operation %d (%s) fails, but all the calls give no error", at, f.hit)
		}
		if !errors.Is(err, e) {
			c.Fail("operation %d (%s) fails with %q, %s gives %q which does not have it", at, f.hit, e, call, err)
		}
		c.Ev("faults met", 1)
	}
}

// runC42open makes images with one defect and looks what the opening says.
func runC42open(c *C) {
	var r = c.R
	var split = r.P(1, 2)
	var legal, dat, m = genImage(c, split)
	_ = dat
	for k := r.Range(4, 10); k > 0; k-- {
		var b = append([]byte(nil), legal...)
		var h, err = decHdr(b)
		c.Env(err)
		var set = func(f int, v uint64) { copy(b[f:], encUint(v, 8)) }
		var want []error
		var head = true // known from the header
		var key, tid = "", -1
		var what string
		switch d := r.Int(9); {
		case d == 0:
			var n = r.Int(hdrLen)
			b = b[:n]
			what, want = fmt.Sprintf("cut to %d bytes", n), []error{io.EOF, io.ErrUnexpectedEOF}
		case d == 1:
			var s = pick(r, "Whirlwind 3.3 Package   ", "Whirlwind 3.4 Package  x", "whirlwind 3.4 Package   ", "Whirlwind 3.4 Prebuild x", strings.Repeat("\x00", 24), "PK\x03\x04                    ")
			copy(b, s)
			what, want = "signature "+s, []error{wpk.ErrSignBad}
		case d == 2:
			if split {
				continue
			}
			copy(b, sigBuild)
			if r.P(1, 2) { // as it is left in the middle of writing
				b = b[:r.Range(hdrLen, len(b))]
			}
			what, want = "not finished", []error{wpk.ErrSignPre}
		case d == 3:
			if h.FttSize == 0 {
				continue
			}
			want = []error{wpk.ErrSignFTT}
			switch r.Int(6) {
			case 0:
				set(32, uint64(pick(r, 0, 1, 63)))
				what = "table inside of header"
			case 1:
				set(32, pick(r, uint64(len(b)), uint64(len(b))+1, 1<<40, 1<<63, 1<<64-1, uint64(len(b))-h.FttSize+1))
				what = "table behind the end"
			case 2:
				set(40, pick(r, uint64(len(b))-h.FttOff+1, 1<<40, 1<<63, 1<<64-1))
				what = "table too long"
			case 3:
				set(24, pick(r, h.FttSize, 1<<32, 1<<63, 1<<64-1))
				what = "too many entries"
			case 4:
				set(56, pick(r, uint64(1<<63), 1<<64-1))
				what = "data size"
			case 5: // bytes after the end mark which belong to the table
				var at = h.FttOff + h.FttSize
				b = append(append(append([]byte(nil), b[:at]...), content(r, r.Range(1, 9))...), b[at:]...)
				set(40, h.FttSize+1)
				what, head = "table is longer than its content", false
			}
		case d == 4 && h.FttSize > 0: // cut together with the file
			var n = int(h.FttOff) + r.Int(int(h.FttSize))
			if n+1 > len(b) || int(h.FttOff+h.FttSize) != len(b) {
				continue
			}
			b = b[:n]
			what, want = "table is cut", []error{wpk.ErrSignFTT}
		default:
			if h.FttSize == 0 || len(m.Ents) == 0 {
				continue
			}
			var pkg, err = decPkg(legal, int64(len(dat)), split)
			if err != nil || len(pkg.Ents) == 0 {
				continue
			}
			head = false
			var i = r.Int(len(pkg.Ents))
			var sets [][]byte
			for _, e := range pkg.Ents {
				sets = append(sets, encTags(e.Tags))
			}
			var tags = append([]MTag(nil), pkg.Ents[i].Tags...)
			var name = pkg.Ents[i].Name
			var end = h.DatOff + h.DatSize
			switch r.Int(7) {
			case 0:
				tags, _ = delMTag(tags, tPath)
				what, want, key, tid = "no path", []error{wpk.ErrNoPath}, "", tPath
			case 1:
				if r.P(1, 2) {
					tags, _ = delMTag(tags, tOffset)
				} else {
					tags, _ = setMTag(tags, MTag{tOffset, make([]byte, pick(r, 0, 3, 5, 9))})
				}
				what, want, key, tid = "no offset", []error{wpk.ErrNoOffset}, name, tOffset
			case 2:
				if r.P(1, 2) {
					tags, _ = delMTag(tags, tSize)
				} else {
					tags, _ = setMTag(tags, MTag{tSize, make([]byte, pick(r, 0, 3, 5, 9))})
				}
				what, want, key, tid = "no size", []error{wpk.ErrNoSize}, name, tSize
			case 3:
				var l = []uint64{end + 1, end + 100, 1 << 62, 1<<64 - 1}
				if h.DatOff > 0 {
					l = append(l, 0, h.DatOff-1)
				}
				tags, _ = setMTag(tags, MTag{tOffset, encUint(pickOf(r, l), 8)})
				what, want, key, tid = "offset", []error{wpk.ErrOutOff}, name, tOffset
			case 4:
				var room = end - pkg.Ents[i].Off
				tags, _ = setMTag(tags, MTag{tSize, encUint(pick(r, room+1, room+100, 1<<62, 1<<63, 1<<64-1), 8)})
				what, want, key, tid = "size", []error{wpk.ErrOutSize}, name, tSize
			case 5: // again
				var dup = append([]MTag(nil), tags...)
				dup, _ = setMTag(dup, MTag{tPath, []byte(backslash(r, name))})
				var at = r.Range(i+1, len(sets))
				sets = append(sets[:at:at], append([][]byte{encTags(dup)}, sets[at:]...)...)
				what, want, key, tid = "twice", []error{fs.ErrExist}, name, tPath
			case 6:
				var ts = encTags(tags)
				sets[i] = ts[:len(ts)-1]
				tags = nil
				what, want = "tagset is cut", []error{io.ErrUnexpectedEOF}
				if l := len(pkg.Ents[i].Tags); l > 0 && len(pkg.Ents[i].Tags[l-1].B) == 0 && len(sets[i]) == 0 {
					continue
				}
			}
			if tags != nil && what != "twice" {
				sets[i] = encTags(tags)
			}
			var info = encTags(pkg.Info)
			var nf = append(encUint(uint64(len(info)), 2), info...)
			for _, ts := range sets {
				nf = append(append(nf, encUint(uint64(len(ts)), 2)...), ts...)
			}
			nf = append(nf, 0, 0)
			b = append(append(b[:h.FttOff:h.FttOff], nf...), legal[h.FttOff+h.FttSize:]...)
			if int(h.FttOff+h.FttSize) != len(legal) && split == false && h.FttOff < h.DatOff+h.DatSize {
				continue
			}
			set(40, uint64(len(nf)))
			set(24, uint64(len(sets)))
			what = fmt.Sprintf("%s of entry %d %s", what, i, quote(name))
		}
		if want == nil {
			continue
		}
		c.T("split %v, %s", split, what)
		var pkg = wpk.NewPackage()
		var oerr = pkg.OpenStream(bytes.NewReader(b))
		var is = func(err error) bool {
			for _, w := range want {
				if errors.Is(err, w) {
					return true
				}
			}
			return false
		}
		if !is(oerr) {
			c.Fail("opening of a package with defect %q gives %v, want %v", what, oerr, want)
		}
		if r.P(1, 8) {
			var p = c.Path("b.wpt")
			writeFile(c, p, b)
			if err := wpk.NewPackage().OpenFile(p); err == nil || err.Error() != oerr.Error() {
				c.Fail("OpenFile of a package with defect %q gives %v, OpenStream %v", what, err, oerr)
			}
		}
		if tid >= 0 {
			var te *wpk.ErrTag
			if !errors.As(oerr, &te) || int(te.TID) != tid || norm42(te.Key) != norm42(key) {
				c.Fail("opening of a package with defect %q gives %#v, want tag %d of %s", what, oerr, tid, quote(key))
			}
		}
		if head {
			if _, _, err := wpk.GetPackageInfo(bytes.NewReader(b)); !is(err) {
				c.Fail("info query of a package with defect %q gives %v, want %v", what, err, want)
			}
		}
		c.Ev("defects named", 1)
	}
	if err := wpk.NewPackage().OpenStream(bytes.NewReader(legal)); err != nil {
		c.Fail("opening of the package without defects gives %v", err)
	}
	if _, _, err := wpk.GetPackageInfo(bytes.NewReader(legal)); err != nil {
		c.Fail("info query of the package without defects gives %v", err)
	}
}

// runC42short looks at what the openings of nested files say.
func runC42short(c *C) {
	var r = c.R
	var names = fsNames(r, r.Range(1, 5))
	var s = newSession(r.P(1, 2))
	c.NoErr(s.pkg.Begin(s.wpt, s.f()), "Begin")
	var datas [][]byte
	for _, n := range names {
		var data = content(r, r.Range(1, 200))
		var _, err = s.pkg.PackData(s.w(), bytes.NewReader(data), n)
		c.NoErr(err, "PackData")
		datas = append(datas, data)
	}
	c.NoErr(s.pkg.Sync(s.wpt, s.f()), "Sync")
	var pkg = wpk.NewPackage()
	c.NoErr(pkg.OpenStream(bytes.NewReader(s.wpt.B)), "OpenStream")
	var d = c.Path("d.wpf")
	var mode = pickOf(r, modes)
	var u = &wpk.Union{List: []*wpk.Package{pkg}}
	var fsys wpk.CompleteFS = pkg
	if r.P(1, 3) {
		fsys = u
	}
	c.T("%s split %v %d files", mode, s.split, len(names))
	switch r.Int(4) {
	case 0, 1: // shorter than the table says
		var i = len(names) - 1 - r.Int(r.Range(1, len(names)))
		var ts, _ = pkg.GetTagset(names[i])
		var off, size = ts.Pos()
		var n = int(off) + r.Int(int(size))
		writeFile(c, d, s.dat()[:n])
		var err error
		pkg.Tagger, err = makeTagger(mode, d)
		c.NoErr(err, "MakeTagger")
		defer pkg.Tagger.Close()
		for k := i; k < len(names); k++ {
			var err error
			var what = pick(r, "Open", "ReadFile", "OpenTagset")
			switch what {
			case "Open":
				_, err = fsys.Open(names[k])
			case "ReadFile":
				_, err = fsys.ReadFile(names[k])
			case "OpenTagset":
				var ts, _ = pkg.GetTagset(names[k])
				_, err = pkg.OpenTagset(ts)
			}
			var te *wpk.ErrTag
			if !errors.As(err, &te) || te.Key != names[k] || te.TID != wpk.TIDsize && te.TID != wpk.TIDoffset || !errors.Is(err, wpk.ErrOutSize) && !errors.Is(err, wpk.ErrOutOff) {
				c.Fail("%s: %s of %s whose data file is cut gives %v", mode, what, quote(names[k]), err)
			}
			c.Ev("short data", 1)
		}
		for k := 0; k < i; k++ {
			var b, err = fsys.ReadFile(names[k])
			c.NoErr(err, "ReadFile of %s whose data is whole", quote(names[k]))
			c.Check(bytes.Equal(b, datas[k]), "wrong content of %s", quote(names[k]))
		}
	case 2: // nothing there
		var no = c.Path(pick(r, "absent.wpf", "no%d.wpf", "100%s"))
		var err error
		var tgr wpk.Tagger
		if tgr, err = makeTagger(mode, no); err == nil {
			if mode != "fsys" {
				c.Fail("%s: MakeTagger of absent file gives no error", mode)
			}
			pkg.Tagger = tgr
			_, err = fsys.ReadFile(names[0])
		}
		wantErr(c, mode+": absent data file", err, fs.ErrNotExist, no)
		err = wpk.NewPackage().OpenFile(no)
		wantErr(c, "OpenFile of absent", err, fs.ErrNotExist, no)
		if ok, err := wpk.FileExists(no); ok || err != nil {
			c.Fail("FileExists of absent gives %v %v", ok, err)
		}
		if ok, err := wpk.DirExists(no); ok || err != nil {
			c.Fail("DirExists of absent gives %v %v", ok, err)
		}
		var long = c.Path(strings.Repeat("n", 300))
		if ok, err := wpk.FileExists(long); ok || err == nil {
			c.Fail("FileExists of impossible name gives %v %v", ok, err)
		} else {
			wantErr(c, "FileExists of impossible name", err, nil, long)
		}
		if ok, err := wpk.DirExists(long); ok || err == nil {
			c.Fail("DirExists of impossible name gives %v %v", ok, err)
		}
		c.Ev("short data", 1)
	case 3: // closed handles
		writeFile(c, d, s.dat())
		var err error
		pkg.Tagger, err = makeTagger(mode, d)
		c.NoErr(err, "MakeTagger")
		for i, n := range names {
			var f, err = fsys.Open(n)
			c.NoErr(err, "Open")
			var rf = f.(wpk.RFile)
			c.NoErr(f.Close(), "Close of %s", quote(n))
			var p = make([]byte, len(datas[i]))
			if k, err := rf.ReadAt(p, 0); mode != "bulk" || err != nil {
				if err == nil || !errors.Is(err, fs.ErrClosed) {
					c.Fail("%s: reading of closed %s gives %d, %v", mode, quote(n), k, err)
				}
			}
			if k, err := rf.Read(p); mode != "bulk" || err != nil {
				if err == nil || !errors.Is(err, fs.ErrClosed) {
					c.Fail("%s: reading of closed %s gives %d, %v", mode, quote(n), k, err)
				}
			}
			c.Ev("closed handles", 1)
		}
		c.NoErr(pkg.Tagger.Close(), "%s: Close of package", mode)
		if mode == "mmap" {
			if _, err := fsys.Open(names[0]); !errors.Is(err, fs.ErrClosed) {
				c.Fail("mmap: opening in closed package gives %v", err)
			}
			c.Ev("closed handles", 1)
			if err := u.Close(); !errors.Is(err, fs.ErrClosed) {
				c.Fail("mmap: second Close gives %v", err)
			}
		}
	}
}

// runC42lua looks at the messages of the Lua calls.
func runC42lua(c *C) {
	var r = c.R
	var l = newLvm(c)
	defer l.ls.Close()
	var says = func(parts []string, format string, args ...any) {
		var stmt = fmt.Sprintf(format, args...)
		var ok, vals, msg = l.do(stmt)
		if ok {
			c.Fail("%s raises no error and gives %v", head(stmt, 300), vals)
		}
		for _, p := range parts {
			if !strings.Contains(msg, p) {
				c.Fail("message of %s does not tell %s: %s", head(stmt, 300), quote(p), quote(msg))
			}
		}
		c.Ev("lua messages", 1)
	}
	var exist, notexist = fs.ErrExist.Error(), fs.ErrNotExist.Error()
	var opened, closed = "already opened", "does not opened"
	var split = r.P(1, 2)
	var p, d = c.Path("p%d.wpt"), c.Path("p%s.wpf")
	var args = luaStr(p)
	if split {
		args += ", " + luaStr(d)
	}
	l.must(0, "pkg = wpk.new()")
	// not opened yet
	for k := r.Int(3); k > 0; k-- {
		switch r.Int(5) {
		case 0:
			says([]string{closed}, "pkg:putdata(\"x\", \"y\")")
		case 1:
			says([]string{closed}, "pkg:flush()")
		case 2:
			says([]string{closed}, "pkg:finalize()")
		case 3:
			var no = c.Path(pick(r, "absent", "ab%sent", "100%", "a b"))
			says([]string{no, "no such file"}, "pkg:load(%s)", luaStr(no))
		case 4:
			var no = c.Path("nodir%d", "p.wpt")
			says([]string{no, "no such file"}, "pkg:begin(%s)", luaStr(no))
		}
	}
	l.must(0, "pkg:begin(%s)", args)
	var files = map[string]bool{}
	for _, n := range fsNames(r, r.Range(2, 6)) {
		if r.P(1, 4) {
			n += pick(r, "%", "%d", "%s.txt", "%%", "100%n", "'", "\"")
			if files[n] {
				continue
			}
		}
		l.must(0, "pkg:putdata(%s, %s)", luaStr(n), luaStr(string(content(r, r.Int(30)))))
		files[n] = true
	}
	var src = c.Path("src")
	writeFile(c, src, []byte("source"))
	for k := r.Range(4, 16); k > 0; k-- {
		var have = pickOf(r, sortedKeys(files))
		var other = pickOf(r, sortedKeys(files))
		var no = absent42(r, files)
		var hl, ol, nl = luaStr(have), luaStr(other), luaStr(no)
		var t = anyTag(r)
		switch r.Int(22) {
		case 0:
			says([]string{have, exist}, "pkg:putdata(%s, \"y\")", hl)
		case 1:
			says([]string{have, exist}, "pkg:putfile(%s, %s)", hl, luaStr(src))
		case 2:
			var a = c.Path(pick(r, "absent", "ab%sent", "100%"))
			says([]string{a, "no such file"}, "pkg:putfile(%s, %s)", nl, luaStr(a))
			if ok, vals, _ := l.do("return pkg:hasfile(" + nl + ")"); !ok || vals[0].String() != "false" {
				c.Fail("refused putfile leaves %s", quote(no))
			}
		case 3:
			says([]string{no, notexist}, "pkg:rename(%s, \"nn\")", nl)
		case 4:
			says([]string{other, exist}, "pkg:rename(%s, %s)", hl, ol)
		case 5:
			says([]string{no, notexist}, "pkg:putalias(%s, \"nn\")", nl)
		case 6:
			says([]string{other, exist}, "pkg:putalias(%s, %s)", hl, ol)
		case 7:
			says([]string{no, notexist}, "pkg:filesize(%s)", nl)
		case 8:
			says([]string{no, notexist}, "pkg:gettag(%s, %s)", nl, t.key(r))
		case 9:
			says([]string{no, notexist}, "pkg:hastag(%s, %s)", nl, t.key(r))
		case 10:
			says([]string{no, notexist}, "pkg:gettags(%s)", nl)
		case 11:
			says([]string{no, notexist}, "pkg:settag(%s, \"comment\", \"x\")", nl)
		case 12:
			says([]string{no, notexist}, "pkg:addtag(%s, \"comment\", \"x\")", nl)
		case 13:
			says([]string{no, notexist}, "pkg:deltag(%s, \"comment\")", nl)
		case 14:
			says([]string{no, notexist}, "pkg:%s(%s, {comment=\"x\"})", pick(r, "settags", "addtags", "deltags"), nl)
		case 15: // unknown name of tag
			var bad = pick(r, "nosuchtag", "Mime", "100%d", "fi d", "%s")
			switch r.Int(6) {
			case 0:
				says([]string{bad, "undefined"}, "pkg:gettag(%s, %s)", hl, luaStr(bad))
			case 1:
				says([]string{bad, "undefined"}, "pkg:settag(%s, %s, \"x\")", hl, luaStr(bad))
			case 2:
				says([]string{bad, "undefined"}, "pkg:addtag(%s, %s, \"x\")", hl, luaStr(bad))
			case 3:
				says([]string{bad, "undefined"}, "pkg:%s(%s, {comment=\"x\", [%s]=\"x\"})", pick(r, "settags", "addtags", "deltags"), hl, luaStr(bad))
			case 4:
				says([]string{bad, "undefined"}, "pkg:putdata(%s, \"x\", {[%s]=\"x\"})", nl, luaStr(bad))
			case 5:
				says([]string{bad, "undefined"}, "pkg:setupinfo({[%s]=\"x\"})", luaStr(bad))
			}
		case 16: // protected
			var name = pick(r, "offset", "size", "path")
			switch r.Int(4) {
			case 0:
				says([]string{name, "protected"}, "pkg:settag(%s, \"%s\", 1)", hl, name)
			case 1:
				says([]string{name, "protected"}, "pkg:addtag(%s, \"%s\", 1)", hl, name)
			case 2:
				says([]string{name, "protected"}, "pkg:deltag(%s, \"%s\")", hl, name)
			case 3:
				says([]string{name, "protected"}, "pkg:%s(%s, {comment=\"x\", %s=1})", pick(r, "settags", "addtags", "deltags"), hl, name)
			}
		case 17: // two defects of a table are both told
			says([]string{"nosuch1", "nosuch2"}, "pkg:%s(%s, {nosuch1=\"x\", nosuch2=\"x\"})", pick(r, "settags", "addtags", "deltags"), hl)
		case 18:
			says([]string{opened}, "pkg:begin(%s)", luaStr(c.Path("q.wpt")))
			if _, err := os.Stat(c.Path("q.wpt")); err == nil {
				c.Fail("refused begin makes the file")
			}
		case 19:
			says([]string{opened}, "pkg:append()")
		case 20:
			says([]string{opened}, "pkg:load(%s)", args)
		case 21: // what may be done raises nothing
			l.must(1, "return pkg:filesize(%s)", hl)
			l.must(1, "return pkg:gettags(%s)", hl)
			l.must(1, "return pkg:hasfile(%s)", nl)
			l.must(1, "return pkg:settag(%s, \"comment\", \"x\")", hl)
		}
	}
	l.must(0, "pkg:finalize()")
	says([]string{closed}, "pkg:%s", pick(r, "putdata('x','y')", "flush()", "finalize()", "putfile('x','"+src+"')"))
}
