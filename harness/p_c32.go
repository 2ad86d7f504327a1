// C32: consumers of the standard library on a package. C33: readers of a package which is being extended.
// C34: independent packages (race detector).
package main

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"net/http/httptest"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing/fstest"
	"testing/iotest"
	"text/template"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
)

func init() {
	register(&Prop{
		ID: "C32", Level: "exploration", Quick: 9000, Thorough: 250000,
		Rule:   "each case packs a random tree, opens it in one access mode and gives the package, a subdirectory view, a union or a view of a union to consumers of the standard library - net/http file server (plain, range, conditional requests, listings, redirects, absent names), os.CopyFS, archive/zip and archive/tar writers, text/template, io/fs helpers and walks with early ends, testing/iotest - and compares every result with that of the same consumer on an in-memory tree (testing/fstest.MapFS); non-trivial with at least two files",
		MinEv:  map[string]int64{"requests compared": 20000, "partial answers": 2000, "not modified answers": 300, "trees copied": 300, "archives compared": 300, "templates executed": 300, "reader tests": 1000},
		Assume: []string{"the in-memory tree of testing/fstest and the consumers themselves behave as documented"},
		Run:    runC32,
	})
	register(&Prop{
		ID: "C33", Level: "exploration", Quick: 12000, Thorough: 300000,
		Rule:  "each case writes a package on disk through a random history of editing sessions that only appends to it, opens readers in all access modes at random moments (for split packages in the middle of a session too), keeps them and handles of their files open during all the later sessions, lets some of them load the package again, and compares each reader with the state committed when it loaded the package, and the writing object with its own state; non-trivial when a reader was compared after a later commit",
		MinEv: map[string]int64{"readers compared": 20000, "readers compared after a later commit": 10000, "handles continued after a later commit": 3000, "readers opened in a session": 1000, "files read by the writer": 3000},
		Run:   runC33,
	})
	register(&Prop{
		ID: "C34", Level: "exploration", Quick: 900, Thorough: 20000, Workers: 2,
		Rule:   "race detector build; each case runs 3..6 scenarios of the other properties at once, each with packages, tagsets, maps, scripts and files of its own; every oracle has to hold as if it were alone, and the race detector watches for anything that independent objects share; the identity of a case is the set of scenarios; non-trivial always",
		MinEv:  map[string]int64{"scenarios run together": 2500},
		Assume: []string{"the race detector sees only the interleavings that happened"},
		Run:    runC34,
	})
}

// ---------------------------------------------------------------- C32

func mapFS(t tree) fstest.MapFS {
	var m = fstest.MapFS{}
	for p, e := range t {
		if p == "." {
			continue
		}
		if e == nil {
			m[p] = &fstest.MapFile{Mode: fs.ModeDir | 0555}
			continue
		}
		var f = &fstest.MapFile{Data: e.Data, Mode: 0444}
		if v, ok := getTag(e.Tags, tMtime); ok && len(v) == 12 {
			f.ModTime = time.Unix(int64(leU64(v)), int64(leU32(v[8:])))
		}
		m[p] = f
	}
	return m
}

func runC32(c *C) {
	var r = c.R
	var ents = genTreeEnts(r, r.Range(1, 12))
	for _, e := range ents {
		if r.P(1, 4) { // something readable
			e.Data = []byte(strings.Repeat(pick(r, "<html>", "text ", "{}\n", "a{{`b`}}c", "{{", "\x89PNG\r\n", "body {}"), r.Range(1, 200)))
		}
	}
	if r.P(1, 4) {
		var have = mkTree(ents)
		for _, n := range []string{"index.html", "a/index.html", "img/index.html"} {
			if _, ok := have[n]; !ok && have[path.Dir(n)] == nil && r.P(1, 2) {
				ents = append(ents, &Ent{Name: n, Data: []byte("<p>" + n)})
				have = mkTree(ents)
			}
		}
	}
	var split = r.P(1, 2)
	var mode = pickOf(r, modes)
	var t = mkTree(ents)
	c.T("mode %s split %v files %s", mode, split, strings.Join(entNames(ents), " "))
	if len(ents) > 1 {
		c.NonTrivial()
	}
	var fsys fs.FS
	if r.P(1, 3) { // the tree is divided between members of a union, with shadowed files
		var n = r.Range(1, 3)
		var parts = make([][]*Ent, n)
		for _, e := range ents {
			var at = r.Int(n)
			parts[at] = append(parts[at], e)
			for k := at + 1; k < n; k++ {
				if r.P(1, 4) {
					parts[k] = append(parts[k], &Ent{Name: e.Name, Data: content(r, r.Int(50))})
				}
			}
		}
		var u wpk.Union
		for i, l := range parts {
			var tp, dp = packDisk(c, fmt.Sprintf("p%d.wpk", i), split, l)
			u.List = append(u.List, openDisk(c, tp, dp, mode))
		}
		defer u.Close()
		fsys = &u
		c.T("union of %d", n)
	} else {
		var tp, dp = packDisk(c, "p.wpk", split, ents)
		var pkg = openDisk(c, tp, dp, mode)
		defer pkg.Close()
		fsys = pkg
	}
	if dirs := t.dirs(); len(dirs) > 1 && r.P(1, 3) {
		var dir = pickOf(r, dirs)
		var s, err = fs.Sub(fsys, dir)
		c.NoErr(err, "Sub %s", quote(dir))
		fsys, t = s, t.sub(dir)
		c.T("view %s", quote(dir))
	}
	var ref = mapFS(t)
	httpCheck(c, fsys, ref, t)
	for k := 0; k < 3; k++ {
		switch r.Int(6) {
		case 0:
			copyCheck(c, fsys, t)
		case 1:
			zipCheck(c, fsys, t)
		case 2:
			tarCheck(c, fsys, t)
		case 3:
			tmplCheck(c, fsys, ref, t)
		case 4:
			walkCheck(c, fsys, ref, t)
		case 5:
			for _, name := range t.files() {
				var f, err = fsys.Open(name)
				c.NoErr(err, "Open %s", quote(name))
				if err = iotest.TestReader(f, t[name].Data); err != nil {
					c.Fail("testing/iotest on %s of %d bytes: %v", quote(name), len(t[name].Data), err)
				}
				f.Close()
				c.Ev("reader tests", 1)
			}
		}
	}
}

// serve makes one request.
func serve(fsys fs.FS, req *http.Request) (res *http.Response, body []byte) {
	var w = httptest.NewRecorder()
	http.FileServer(http.FS(fsys)).ServeHTTP(w, req)
	res = w.Result()
	body, _ = io.ReadAll(res.Body)
	return
}

func httpCheck(c *C, fsys, ref fs.FS, t tree) {
	var r = c.R
	var paths = append(t.files(), t.dirs()...)
	sort.Strings(paths)
	for k := r.Range(4, 10); k > 0; k-- {
		var p = pickOf(r, paths)
		var e = t[p]
		if p == "." {
			p = ""
		}
		if r.P(1, 10) {
			p += pick(r, "x", "/x", "/", ".bak", "//")
		}
		if e == nil && p != "" && r.P(1, 2) {
			p += "/"
		}
		var q = "/" + p
		if r.P(1, 20) {
			q = pick(r, "/./", "//", "/a/../") + p
		}
		var req = httptest.NewRequest(pick(r, "GET", "GET", "GET", "HEAD"), "/", nil)
		req.URL.Path = q
		var n = 0
		if e != nil {
			n = len(e.Data)
		}
		switch r.Int(6) {
		case 0, 1:
			var s []string
			for i := pick(r, 1, 1, 1, 2, 3); i > 0; i-- {
				var a = r.Int(n + 2)
				s = append(s, pick(r, fmt.Sprintf("%d-%d", a, a+r.Int(n+2)), fmt.Sprintf("%d-", a), fmt.Sprintf("-%d", r.Int(n+2)), "0-0", "x"))
			}
			req.Header.Set("Range", "bytes="+strings.Join(s, ","))
		}
		if e != nil && r.P(1, 3) {
			var fi, err = fs.Stat(ref, strings.TrimSuffix(p, "/"))
			if err == nil && !fi.ModTime().IsZero() {
				var d = pick(r, 0, 0, -1, 1, 1000)
				req.Header.Set(pick(r, "If-Modified-Since", "If-Modified-Since", "If-Unmodified-Since", "If-Range"), fi.ModTime().Add(time.Duration(d)*time.Second).UTC().Format(http.TimeFormat))
			}
		}
		c.T("%s %q %v", req.Method, q, req.Header)
		var a, ab = serve(fsys, req.Clone(req.Context()))
		var b, bb = serve(ref, req.Clone(req.Context()))
		c.Ev("requests compared", 1)
		switch b.StatusCode {
		case 206:
			c.Ev("partial answers", 1)
		case 304:
			c.Ev("not modified answers", 1)
		}
		var what = fmt.Sprintf("%s %q %v", req.Method, q, req.Header)
		if a.StatusCode != b.StatusCode {
			c.Fail("%s: status %d, want %d", what, a.StatusCode, b.StatusCode)
		}
		var norm = func(res *http.Response, body []byte) (string, string) {
			var s = string(body)
			var ct = res.Header.Get("Content-Type")
			if i := strings.Index(ct, "boundary="); i >= 0 {
				var bnd = ct[i+9:]
				res.Header.Set("Content-Type", ct[:i])
				s = strings.ReplaceAll(s, bnd, "BOUNDARY")
			}
			var l []string
			for k, v := range res.Header {
				l = append(l, k+": "+strings.Join(v, "|"))
			}
			sort.Strings(l)
			return strings.Join(l, "\n"), s
		}
		var ah, as = norm(a, ab)
		var bh, bs = norm(b, bb)
		if ah != bh {
			c.Fail("%s: headers\n%s\nwant\n%s", what, ah, bh)
		}
		if as != bs {
			c.Fail("%s: body of %d bytes %s, want %d bytes %s", what, len(as), hexShort([]byte(as)), len(bs), hexShort([]byte(bs)))
		}
	}
}

func copyCheck(c *C, fsys fs.FS, t tree) {
	var dst = c.Path(fmt.Sprintf("copy%d", c.R.U64()))
	c.NoErr(os.CopyFS(dst, fsys), "os.CopyFS")
	var got = map[string]bool{}
	c.Env(filepath.WalkDir(dst, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		var rel, _ = filepath.Rel(dst, p)
		got[rel] = true
		var e, ok = t[rel]
		c.Check(ok, "os.CopyFS made %s", quote(rel))
		c.Check(d.IsDir() == (e == nil), "os.CopyFS made %s a directory: %v", quote(rel), d.IsDir())
		if e != nil {
			var b, err = os.ReadFile(p)
			c.Env(err)
			c.Check(bytes.Equal(b, e.Data), "os.CopyFS made %s of %d bytes %s, want %d bytes %s", quote(rel), len(b), hexShort(b), len(e.Data), hexShort(e.Data))
		}
		return nil
	}))
	c.Check(len(got) == len(t), "os.CopyFS made %d of %d paths", len(got), len(t))
	c.Ev("trees copied", 1)
}

func zipCheck(c *C, fsys fs.FS, t tree) {
	var buf bytes.Buffer
	var w = zip.NewWriter(&buf)
	c.NoErr(w.AddFS(fsys), "zip.AddFS")
	c.NoErr(w.Close(), "zip.Close")
	var z, err = zip.NewReader(bytes.NewReader(buf.Bytes()), int64(buf.Len()))
	c.NoErr(err, "zip.NewReader")
	var files = 0
	for _, f := range z.File {
		if strings.HasSuffix(f.Name, "/") {
			continue
		}
		files++
		var e = t[f.Name]
		c.Check(e != nil, "zip archive has %s", quote(f.Name))
		var rd, err = f.Open()
		c.NoErr(err, "zip %s", quote(f.Name))
		var b, rerr = io.ReadAll(rd)
		c.Check(rerr == nil && bytes.Equal(b, e.Data), "zip archive has %s of %d bytes, %v, want %d", quote(f.Name), len(b), rerr, len(e.Data))
		if v, ok := getTag(e.Tags, tMtime); ok && len(v) == 12 {
			if want := int64(leU64(v)); want > 315532800+86400 && f.Modified.Unix() != want {
				c.Fail("zip archive has %s of time %v, want %v", quote(f.Name), f.Modified, time.Unix(want, 0))
			}
		}
	}
	c.Check(files == len(t.files()), "zip archive has %d files of %d", files, len(t.files()))
	c.Ev("archives compared", 1)
}

func tarCheck(c *C, fsys fs.FS, t tree) {
	var buf bytes.Buffer
	var w = tar.NewWriter(&buf)
	c.NoErr(w.AddFS(fsys), "tar.AddFS")
	c.NoErr(w.Close(), "tar.Close")
	var rd = tar.NewReader(&buf)
	var files = 0
	for {
		var h, err = rd.Next()
		if err == io.EOF {
			break
		}
		c.NoErr(err, "tar")
		if h.Typeflag == tar.TypeDir {
			continue
		}
		files++
		var e = t[h.Name]
		c.Check(e != nil && h.Typeflag == tar.TypeReg, "tar archive has %s of type %c", quote(h.Name), h.Typeflag)
		var b, rerr = io.ReadAll(rd)
		c.Check(rerr == nil && bytes.Equal(b, e.Data), "tar archive has %s of %d bytes, %v, want %d", quote(h.Name), len(b), rerr, len(e.Data))
		if v, ok := getTag(e.Tags, tMtime); ok && len(v) == 12 {
			var want = time.Unix(int64(leU64(v)), int64(leU32(v[8:]))).Round(time.Second)
			c.Check(h.ModTime.Equal(want), "tar archive has %s of time %v, want %v", quote(h.Name), h.ModTime, want)
		}
	}
	c.Check(files == len(t.files()), "tar archive has %d files of %d", files, len(t.files()))
	c.Ev("archives compared", 1)
}

func tmplCheck(c *C, fsys, ref fs.FS, t tree) {
	var r = c.R
	var files = t.files()
	if len(files) == 0 {
		return
	}
	var pats []string
	for k := r.Range(1, 3); k > 0; k-- {
		var n = pickOf(r, files)
		pats = append(pats, pick(r, n, n, path.Join(path.Dir(n), "*"+path.Ext(n)), n+"x"))
	}
	for _, p := range pats { // patterns of a package match files only
		var l, err = fs.Glob(ref, p)
		if err != nil {
			return
		}
		for _, n := range l {
			if t[n] == nil {
				return
			}
		}
	}
	var run = func(f fs.FS) (s string, ok bool) {
		var x, err = template.New("").ParseFS(f, pats...)
		if err != nil {
			return "", false
		}
		var b strings.Builder
		for _, p := range pats {
			if err = x.ExecuteTemplate(&b, path.Base(p), nil); err != nil {
				fmt.Fprintf(&b, "error %s", path.Base(p))
			}
		}
		return b.String(), true
	}
	// names which are equal in their last parts replace each other in the order of the list
	var base = map[string]bool{}
	for _, n := range files {
		if base[path.Base(n)] {
			return
		}
		base[path.Base(n)] = true
	}
	var a, aok = run(fsys)
	var b, bok = run(ref)
	c.Check(a == b && aok == bok, "templates of %s: %q %v, want %q %v", quoteAll(pats), head(a, 200), aok, head(b, 200), bok)
	c.Ev("templates executed", 1)
}

// walkCheck compares walks which end or skip early.
func walkCheck(c *C, fsys, ref fs.FS, t tree) {
	var r = c.R
	var all = append(t.files(), t.dirs()...)
	sort.Strings(all)
	var act = map[string]error{}
	for k := r.Int(4); k > 0; k-- {
		act[pickOf(r, all)] = pick(r, fs.SkipDir, fs.SkipDir, fs.SkipAll, errInjected)
	}
	var root = pickOf(r, all)
	var run = func(f fs.FS) (s string) {
		var l []string
		var err = fs.WalkDir(f, root, func(p string, d fs.DirEntry, err error) error {
			l = append(l, fmt.Sprintf("%s %v %v", p, d.IsDir(), err))
			return act[p]
		})
		return strings.Join(l, "\n") + fmt.Sprint(errors.Is(err, errInjected), err == nil)
	}
	var a, b = run(fsys), run(ref)
	c.Check(a == b, "walk of %s with %v gives\n%s\nwant\n%s", quote(root), act, a, b)
	c.Ev("walks compared", 1)
}

// ---------------------------------------------------------------- C33

type reader33 struct {
	pkg     *wpk.Package
	m       *Model
	mode    string
	commits int // when it was loaded
	mid     bool
	hs      []*hnd33
}

type hnd33 struct {
	f       fs.File
	e       *Ent
	at      int
	commits int
}

func runC33(c *C) {
	var r = c.R
	var split = r.P(2, 3)
	var h = newHist(c, split)
	h.strict = r.P(1, 4)
	var tpath, dpath = c.Path("p.wpk"), c.Path("p.wpk")
	if split {
		tpath, dpath = c.Path("p.wpt"), c.Path("p.wpf")
	}
	var disk = func(m *MemFile, fpath string) {
		var f, err = os.Create(fpath)
		c.Env(err)
		m.D = f
	}
	disk(h.s.wpt, tpath)
	defer h.s.wpt.D.Close()
	if split {
		disk(h.s.wpf, dpath)
		defer h.s.wpf.D.Close()
	}
	var rs []*reader33
	defer func() {
		for _, x := range rs {
			for _, hd := range x.hs {
				hd.f.Close()
			}
			x.pkg.Close()
		}
	}()
	var load = func(x *reader33) {
		c.NoErr(x.pkg.OpenFile(tpath), "OpenFile")
		x.m, x.commits, x.mid = h.com.clone(), h.ncommit, h.open
		if h.open && h.ncommit > 0 {
			c.Ev("readers opened in a session", 1)
		}
	}
	var ready = func() bool { return h.com != nil && (split || !h.open) }
	var compare = func(x *reader33) {
		var what = fmt.Sprintf("%s reader of commit %d after commit %d", x.mode, x.commits, h.ncommit)
		fullCheck(c, what, x.pkg, x.m)
		c.Ev("readers compared", 1)
		if h.ncommit > x.commits {
			c.Ev("readers compared after a later commit", 1)
			c.NonTrivial()
		}
	}
	var look = func() {
		switch r.Int(6) {
		case 0, 1: // new reader
			if ready() && len(rs) < 8 {
				var x = &reader33{pkg: wpk.NewPackage(), mode: pickOf(r, modes)}
				c.T("open reader %d, %s, commit %d, in session %v", len(rs), x.mode, h.ncommit, h.open)
				load(x)
				var err error
				x.pkg.Tagger, err = makeTagger(x.mode, dpath)
				c.NoErr(err, "tagger")
				rs = append(rs, x)
				compare(x)
			}
		case 2: // handle
			if len(rs) > 0 {
				var x = pickOf(r, rs)
				if len(x.m.Ents) == 0 {
					return
				}
				var e = pickOf(r, x.m.Ents)
				var ts, ok = x.pkg.GetTagset(e.Name)
				c.Check(ok, "reader has no %s", quote(e.Name))
				var f, err = x.pkg.OpenTagset(ts)
				c.NoErr(err, "open %s by a reader", quote(e.Name))
				x.hs = append(x.hs, &hnd33{f: f, e: e, commits: h.ncommit})
			}
		case 3: // go on with handles
			for _, x := range rs {
				for _, hd := range x.hs {
					if r.P(1, 2) {
						continue
					}
					if hd.at == len(hd.e.Data) || r.P(1, 4) {
						hd.at = r.Int(len(hd.e.Data) + 1)
						var _, err = hd.f.(io.Seeker).Seek(int64(hd.at), io.SeekStart)
						c.NoErr(err, "Seek")
					}
					var b = make([]byte, r.Int(len(hd.e.Data)-hd.at+1))
					var n, err = io.ReadFull(hd.f, b)
					c.NoErr(err, "%s: Read of the handle of %s", x.mode, quote(hd.e.Name))
					c.Check(bytes.Equal(b, hd.e.Data[hd.at:hd.at+n]), "%s: handle of %s of commit %d after commit %d gives %s at %d, want %s", x.mode, quote(hd.e.Name), hd.commits, h.ncommit, hexShort(b), hd.at, hexShort(hd.e.Data[hd.at:hd.at+n]))
					hd.at += n
					if h.ncommit > hd.commits {
						c.Ev("handles continued after a later commit", 1)
					}
				}
			}
		case 4: // load again by the same object
			if len(rs) > 0 && ready() && r.P(1, 2) {
				var i = r.Int(len(rs))
				var x = rs[i]
				c.T("reader %d of commit %d loads commit %d", i, x.commits, h.ncommit)
				load(x)
				if x.mode == "bulk" { // it keeps the bytes of its time
					x.pkg.Close()
					var err error
					x.pkg.Tagger, err = makeTagger(x.mode, dpath)
					c.NoErr(err, "tagger")
				}
				compare(x)
				return
			}
			fallthrough
		case 5:
			if len(rs) > 0 {
				compare(pickOf(r, rs))
			}
		}
	}
	// the writing object reads what it has packed
	var own = func() {
		if r.P(1, 3) {
			var mode = pick(r, "mmap", "fsys")
			var t, err = makeTagger(mode, dpath)
			c.NoErr(err, "tagger")
			defer t.Close()
			h.s.pkg.Tagger = t
			for _, e := range h.m.Ents {
				if r.P(1, 2) {
					checkEntry(c, "writing object by "+mode, h.s.pkg, e)
					c.Ev("files read by the writer", 1)
				}
			}
			h.s.pkg.Tagger = nil
		}
	}
	h.begin()
	for k := r.Range(2, 6); k > 0; k-- {
		for n := r.Int(7); n > 0; n-- {
			h.edit()
			for r.P(1, 3) {
				look()
			}
			own()
		}
		if split && r.P(1, 6) {
			c.T("abandon")
			h.reopen()
			h.append()
			look()
			continue
		}
		h.sync()
		look()
		look()
		if split && r.P(1, 3) {
			continue
		}
		if r.P(1, 2) {
			h.reopen()
			look()
		}
		h.append()
		look()
	}
	for _, x := range rs {
		compare(x)
	}
}

// ---------------------------------------------------------------- C34

func runC34(c *C) {
	var r = c.R
	var ids = []string{"C01", "C02", "C07", "C08", "C09", "C10", "C11", "C12", "C18", "C18", "C20", "C21", "C22", "C23", "C24", "C25", "C27", "C29", "C30", "C32", "C33"}
	var n = r.Range(3, 6)
	var one = r.P(1, 3) // the same scenario several times
	var id = pickOf(r, ids)
	var subs []*C
	var jobs []func()
	for i := 0; i < n; i++ {
		if !one || i == 0 {
			id = pickOf(r, ids)
		}
		var sub = newC(id, r.Int(1000000), c.Seed, c.Tier)
		var p = props[id]
		c.T("%s case %d", id, sub.N)
		subs = append(subs, sub)
		jobs = append(jobs, func() {
			defer sub.cleanup()
			defer func() {
				if e := recover(); e != nil {
					if s, ok := e.(skipcase); ok {
						sub.Ev("skipped", 1)
						_ = s
						return
					}
					panic(e)
				}
			}()
			p.Run(sub)
		})
	}
	c.NonTrivial()
	together(c, jobs...)
	for _, sub := range subs {
		if sub.ev["skipped"] == 0 {
			c.Ev("scenarios run together", 1)
			c.Ev("scenarios of "+sub.ID, 1)
		}
	}
}
