// C31: what is opened is released, and closed handles are safe.
package main

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"

	lua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"
)

func init() {
	register(&Prop{
		ID: "C31", Level: "exploration", Quick: 4000, Thorough: 150000, Workers: 1,
		Rule:  "each case is one of: handles of packages, views and unions opened, read and closed in any order, some twice, some used afterwards, some after their package was closed; openings that fail (broken tables, shortened or absent data files, directories in their place); Lua sessions with failing calls; pack and extract under a limit of open files lower than the number of files. Garbage collection is off while a case runs, and the open files and mappings of the process below the directory of the case are counted from /proc after every step: never more than the open handles explain, none after everything was closed or has failed; non-trivial when something was opened",
		MinEv: map[string]int64{"handles closed": 10000, "calls after close": 5000, "calls after package close": 500, "failed openings": 1500, "resource counts": 20000, "lua steps": 4000, "commands under a limit": 60},
		Setup: func(seed int64, tier string) error {
			debug.SetGCPercent(-1) // finalizers close what was forgotten
			return nil
		},
		Run: runC31,
	})
}

// held lists open files and mappings of the process below the directory.
func held(c *C, dir string) (fds, maps []string) {
	c.Ev("resource counts", 1)
	var d, err = os.Open("/proc/self/fd")
	c.Env(err)
	var names, _ = d.Readdirnames(-1)
	d.Close()
	for _, n := range names {
		if l, err := os.Readlink("/proc/self/fd/" + n); err == nil && strings.HasPrefix(l, dir+"/") {
			fds = append(fds, strings.TrimPrefix(l, dir+"/"))
		}
	}
	var b, merr = os.ReadFile("/proc/self/maps")
	c.Env(merr)
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, dir+"/"); i >= 0 {
			maps = append(maps, l[i+len(dir)+1:])
		}
	}
	return
}

// noneHeld fails if something is still open.
func noneHeld(c *C, dir, when string) {
	var fds, maps = held(c, dir)
	if len(fds) > 0 || len(maps) > 0 {
		c.Fail("%s: open files %q and mappings %q are left", when, fds, maps)
	}
}

func runC31(c *C) {
	var ms runtime.MemStats
	if c.N%64 == 0 {
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 1<<30 {
			runtime.GC()
		}
	}
	switch {
	case c.N%50 == 49:
		runC31limit(c)
	case c.N%4 == 0, c.N%4 == 1:
		runC31handles(c)
	case c.N%4 == 2:
		runC31fail(c)
	default:
		runC31lua(c)
	}
}

type hnd31 struct {
	f      fs.File
	rf     wpk.RFile
	e      *Ent
	what   string
	closed bool
	orphan bool // package was closed
}

// use31 checks that what the handle gives is the content, or an error if that may be.
func use31(c *C, h *hnd31) {
	var r = c.R
	var size = len(h.e.Data)
	var may = h.closed || h.orphan
	var state = "open handle"
	if h.closed {
		state = "closed handle"
		c.Ev("calls after close", 1)
	} else if h.orphan {
		state = "handle of closed package"
		c.Ev("calls after package close", 1)
	}
	var bad = func(call string, n int, err error) {
		c.Fail("%s of %s (%s) gives %d bytes and %v, not the content of %d bytes", call, h.what, state, n, err, size)
	}
	switch r.Int(5) {
	case 0:
		var off = int64(r.Int(size + 3))
		var p = make([]byte, pick(r, 1, 7, 100, r.Int(size+2)+1))
		var n, err = h.rf.ReadAt(p, off)
		if n > len(p) || n > 0 && (off+int64(n) > int64(size) || !bytes.Equal(p[:n], h.e.Data[off:off+int64(n)])) {
			bad("ReadAt", n, err)
		}
		if n < len(p) && err == nil {
			bad("ReadAt", n, err)
		}
		if !may && (n != max(0, min(len(p), size-int(off))) || err != nil && err != io.EOF) {
			bad("ReadAt", n, err)
		}
	case 1, 2:
		var off = int64(r.Int(size + 1))
		var pos, err = h.rf.Seek(off, io.SeekStart)
		if err != nil {
			if !may {
				bad("Seek", int(pos), err)
			}
			var p [64]byte
			var n, rerr = h.rf.Read(p[:])
			if rerr == nil && n > 0 && !bytes.Contains(h.e.Data, p[:n]) {
				bad("Read", n, rerr)
			}
			return
		}
		var b, rerr = io.ReadAll(h.rf)
		if rerr != nil && !may || rerr == nil && !bytes.Equal(b, h.e.Data[off:]) || rerr != nil && !bytes.HasPrefix(h.e.Data[off:], b) {
			bad("reading", len(b), rerr)
		}
	case 3:
		var fi, err = h.f.Stat()
		if err != nil {
			if !may {
				bad("Stat", 0, err)
			}
			return
		}
		if fi.Size() != int64(size) || fi.IsDir() {
			bad("Stat", int(fi.Size()), err)
		}
	case 4:
		var p = make([]byte, r.Int(20))
		var n, err = h.rf.Read(p)
		if n > 0 && !bytes.Contains(h.e.Data, p[:n]) || n > len(p) {
			bad("Read", n, err)
		}
		if err != nil && err != io.EOF && !may {
			bad("Read", n, err)
		}
	}
}

func runC31handles(c *C) {
	var r = c.R
	var np = pick(r, 1, 1, 1, 2, 3)
	type pk struct {
		pkg    *wpk.Package
		ents   []*Ent
		mode   string
		closed bool
	}
	var l []*pk
	var u = &wpk.Union{}
	for i := 0; i < np; i++ {
		var ents []*Ent
		for _, name := range fsNames(r, r.Range(1, 6)) {
			var n = genSize(r)
			if r.P(1, 5) {
				n = pick(r, 65536, 65537, 4096, 60000, 131072, 0, 1, 200000)
			}
			ents = append(ents, &Ent{Name: name, Data: content(r, n)})
		}
		var split = r.P(1, 2)
		var tpath, dpath = packDisk(c, fmt.Sprintf("p%d.wpk", i), split, ents)
		var p = &pk{ents: ents, mode: pickOf(r, modes)}
		p.pkg = openDisk(c, tpath, dpath, p.mode)
		c.T("package %d: %s split %v %v", i, p.mode, split, quoteAll(entNames(ents)))
		l = append(l, p)
		u.List = append(u.List, p.pkg)
	}
	var dir = c.Dir()
	var hs []*hnd31
	var extra = func(when string) {
		var open = 0
		for _, h := range hs {
			if !h.closed {
				open++
			}
		}
		var fds, maps = held(c, dir)
		if len(fds) > open+np || len(maps) > open+np {
			c.Fail("%s: %d open files and %d mappings with %d packages and %d open handles", when, len(fds), len(maps), np, open)
		}
	}
	var ucl = false
	for k := r.Range(10, 80); k > 0; k-- {
		var p = pickOf(r, l)
		switch op := r.Int(20); {
		case op < 5 && len(hs) < 12: // open
			var e = pickOf(r, p.ents)
			var f fs.File
			var err error
			var how = r.Int(4)
			switch how {
			case 0:
				f, err = p.pkg.Open(e.Name)
			case 1:
				var ts, _ = p.pkg.GetTagset(e.Name)
				var rf wpk.RFile
				if rf, err = p.pkg.OpenTagset(ts); err == nil {
					f = rf
				}
			case 2:
				var i = strings.LastIndexByte(e.Name, '/')
				if i <= 0 {
					continue
				}
				var sub, serr = p.pkg.Sub(e.Name[:i])
				c.NoErr(serr, "Sub %s", quote(e.Name[:i]))
				f, err = sub.Open(e.Name[i+1:])
			case 3: // union gives it from the first package
				for _, q := range l {
					var found = false
					for _, x := range q.ents {
						if x.Name == e.Name {
							e, p, found = x, q, true
							break
						}
					}
					if found {
						break
					}
				}
				f, err = u.Open(e.Name)
			}
			if err != nil {
				if !p.closed {
					c.Fail("opening of %s by %s fails: %v", quote(e.Name), p.mode, err)
				}
				continue
			}
			var rf, ok = f.(wpk.RFile)
			if !ok {
				c.Fail("the handle of %s has no reader interfaces", quote(e.Name))
			}
			hs = append(hs, &hnd31{f: f, rf: rf, e: e, what: fmt.Sprintf("%s by %s", quote(e.Name), p.mode), orphan: p.closed})
			c.NonTrivial()
		case op < 11 && len(hs) > 0: // use
			use31(c, pickOf(r, hs))
		case op < 14 && len(hs) > 0: // close
			var h = pickOf(r, hs)
			var err = h.f.Close()
			if err != nil && !h.closed {
				c.Fail("Close of %s fails: %v", h.what, err)
			}
			c.T("close %s (closed %v) -> %v", h.what, h.closed, err)
			if !h.closed {
				c.Ev("handles closed", 1)
			}
			h.closed = true
			for i := r.Int(4); i > 0; i-- {
				use31(c, h)
			}
			extra("after Close")
		case op == 14: // whole file
			var e = pickOf(r, p.ents)
			var b, err = p.pkg.ReadFile(e.Name)
			if err != nil && !p.closed || err == nil && !bytes.Equal(b, e.Data) {
				c.Fail("ReadFile of %s by %s gives %d bytes and %v", quote(e.Name), p.mode, len(b), err)
			}
			extra("after ReadFile")
		case op == 15: // names and directories
			var f, err = p.pkg.Open(pick(r, "none", ".", "../x", "", "no/such"))
			if err == nil {
				f.Stat()
				f.Close()
			}
			p.pkg.ReadDir(".")
			p.pkg.Glob("*")
			p.pkg.Stat(p.ents[0].Name)
			extra("after listing")
		case op == 16: // through the standard library
			var fsys fs.FS = p.pkg
			var ok = !p.closed
			if r.P(1, 2) {
				fsys = u
				for _, q := range l {
					ok = ok && !q.closed
				}
			}
			var werr = fs.WalkDir(fsys, ".", func(fpath string, d fs.DirEntry, err error) error {
				if err != nil || d.IsDir() {
					return err
				}
				_, err = fs.ReadFile(fsys, fpath)
				return err
			})
			if werr != nil && ok {
				c.Fail("walking fails: %v", werr)
			}
			extra("after walking")
		case op == 17 && r.P(1, 3): // close a package under its handles
			if p.closed {
				p.pkg.Close()
				continue
			}
			c.NoErr(p.pkg.Close(), "Close of package")
			p.closed = true
			for _, h := range hs {
				for _, e := range p.ents {
					h.orphan = h.orphan || h.e == e
				}
			}
			c.T("close package %s", p.mode)
			extra("after Close of package")
		}
	}
	for _, i := range perm(r, len(hs)) {
		if h := hs[i]; !h.closed {
			var err = h.f.Close()
			c.NoErr(err, "Close of %s", h.what)
			h.closed = true
			c.Ev("handles closed", 1)
			if r.P(1, 2) {
				use31(c, h)
			}
		}
	}
	if r.P(1, 2) {
		u.Close()
		ucl = true
	} else {
		for _, p := range l {
			if !p.closed {
				c.NoErr(p.pkg.Close(), "Close of package")
			}
		}
	}
	noneHeld(c, dir, fmt.Sprintf("everything is closed (by union %v)", ucl))
	for _, h := range hs {
		h.orphan = true
		use31(c, h)
	}
}

func perm(r *Rng, n int) (l []int) {
	for i := 0; i < n; i++ {
		l = append(l, i)
	}
	shuffle(r, l)
	return
}

func runC31fail(c *C) {
	var r = c.R
	var dir = c.Dir()
	var split = r.P(1, 2)
	var tags, dat, m = genImage(c, split)
	var tpath, dpath = c.Path("x.wpt"), c.Path("x.wpf")
	var what = "nothing"
	switch r.Int(4) {
	case 0: // table is broken
		tags, what = breakImage(c, tags, m, split)
		if !split {
			dat = tags
		}
	case 1: // data is lost in part
		if n := len(dat); n > 0 {
			dat = dat[:r.Int(n)]
			what = "short data"
		}
	case 2: // data is absent
		what = "no data"
	case 3: // directory instead of data
		what = "directory"
	}
	c.T("split %v, broken: %s", split, what)
	c.Mix(string(tags))
	writeFile(c, tpath, tags)
	switch what {
	case "no data":
	case "directory":
		c.Env(os.Mkdir(dpath, 0755))
	default:
		writeFile(c, dpath, dat)
	}
	for k := 0; k < 2; k++ {
		var pkg = wpk.NewPackage()
		var err = pkg.OpenFile(tpath)
		noneHeld(c, dir, fmt.Sprintf("OpenFile -> %v", err))
		if err != nil {
			c.Ev("failed openings", 1)
			c.NonTrivial()
		}
		for _, mode := range modes {
			var tgr, terr = makeTagger(mode, dpath)
			if terr != nil {
				c.Ev("failed openings", 1)
				c.NonTrivial()
				noneHeld(c, dir, fmt.Sprintf("MakeTagger of %s -> %v", mode, terr))
				continue
			}
			pkg.Tagger = tgr
			var names []string
			pkg.Enum(func(fkey string, _ wpk.TagsetRaw) bool {
				names = append(names, fkey)
				return len(names) < 8
			})
			var open []fs.File
			for _, n := range names {
				var f, err = pkg.Open(n)
				if err == nil {
					open = append(open, f)
				} else {
					c.Ev("failed openings", 1)
					c.NonTrivial()
				}
				if _, err = pkg.ReadFile(n); err != nil {
					c.Ev("failed openings", 1)
				}
			}
			var fds, maps = held(c, dir)
			if len(fds) > len(open)+1 || len(maps) > len(open)+1 {
				c.Fail("%s by %s: %d open files, %d mappings with %d open handles", what, mode, len(fds), len(maps), len(open))
			}
			for _, f := range open {
				f.Close()
				c.Ev("handles closed", 1)
			}
			fds, maps = held(c, dir)
			if len(fds) > 1 || len(maps) > 1 {
				c.Fail("%s by %s: %d open files, %d mappings after all handles were closed", what, mode, len(fds), len(maps))
			}
			tgr.Close()
			noneHeld(c, dir, fmt.Sprintf("%s, package by %s is closed", what, mode))
		}
		wpk.GetPackageInfo(bytes.NewReader(tags))
	}
}

func runC31lua(c *C) {
	var r = c.R
	var x = newLvm(c)
	defer x.ls.Close()
	var dir = c.Path("w") + "/"
	c.Env(os.MkdirAll(dir+"d/empty", 0755))
	x.ls.SetGlobal("DIR", lua.LString(dir))
	for i := 0; i < 3; i++ {
		writeFile(c, dir+fmt.Sprintf("d/f%d", i), content(r, pick(r, 0, 1, 100, 5000)))
	}
	writeFile(c, dir+"junk", content(r, pick(r, 0, 10, 64, 200)))
	x.must(0, "pkg = wpk.new()")
	var opened, split = false, false
	var n = 0
	var saved = map[bool]bool{}
	var step = func(name string) {
		c.Ev("lua steps", 1)
		var fds, maps = held(c, c.Dir())
		var lim = 0
		if opened {
			lim = 1
			if split {
				lim = 2
			}
		}
		if len(fds) > lim || len(maps) > 0 {
			c.Fail("after %s (session open %v, split %v): open files %q, mappings %q", name, opened, split, fds, maps)
		}
	}
	var try = func(format string, args ...any) bool {
		var ok, _, _ = x.do(fmt.Sprintf(format, args...))
		if !ok {
			c.Ev("failed openings", 1)
		}
		return ok
	}
	for k := r.Range(5, 40); k > 0; k-- {
		var what string
		switch r.Int(16) {
		case 0, 1:
			if opened {
				continue
			}
			what = "begin"
			split = r.P(1, 2)
			if split {
				switch r.Int(5) {
				case 0:
					what = "begin in a missing directory"
					try(`pkg:begin(DIR.."b.wpt", DIR.."none/b.wpf")`)
					saved[true] = false
					x.must(0, "pkg = wpk.new()")
				case 1:
					what = "begin with a directory as data"
					try(`pkg:begin(DIR.."b.wpt", DIR.."d")`)
					saved[true] = false
					x.must(0, "pkg = wpk.new()")
				default:
					x.must(0, `pkg:begin(DIR.."b.wpt", DIR.."b.wpf")`)
					opened = true
					saved[true] = false
				}
			} else {
				x.must(0, `pkg:begin(DIR.."a.wpk")`)
				opened = true
				saved[false] = false
			}
			c.NonTrivial()
		case 2, 3:
			if opened {
				what = "load while open"
				try(`pkg:load(DIR.."junk")`)
				break
			}
			split = r.P(1, 2)
			what = "load"
			if !saved[split] || r.P(1, 4) {
				try(`pkg:load(DIR..%s)`, luaStr(pick(r, "junk", "none", "d", "d/f0")))
				break
			}
			if split {
				x.must(0, `pkg:load(DIR.."b.wpt", DIR.."b.wpf")`)
			} else {
				x.must(0, `pkg:load(DIR.."a.wpk")`)
			}
			step(what)
			if r.P(2, 3) {
				what = "append"
				if split && r.P(1, 4) { // data file has gone
					what = "append without data file"
					c.Env(os.Rename(dir+"b.wpf", dir+"b.gone"))
					if try(`pkg:append()`) {
						c.Fail("append succeeds without the data file")
					}
					c.Env(os.Rename(dir+"b.gone", dir+"b.wpf"))
					break
				}
				x.must(0, `pkg:append()`)
				opened = true
				saved[split] = false
			}
		case 4, 5:
			what = "putfile"
			n++
			try(`pkg:putfile("n%d", DIR.."d/f%d")`, n, r.Int(3))
		case 6:
			what = "refused putfile"
			n++
			switch r.Int(4) {
			case 0:
				try(`pkg:putfile("n%d", DIR.."none")`, n)
			case 1:
				try(`pkg:putfile("n%d", DIR.."d")`, n)
			case 2:
				try(`pkg:putfile("n1", DIR.."d/f0")`)
				try(`pkg:putfile("n1", DIR.."d/f0")`)
			case 3:
				try(`pkg:putfile("m%d", DIR.."d/f1", {nosuchtag=1})`, n)
			}
		case 7:
			what = "putdata"
			n++
			try(`pkg:putdata("n%d", "data")`, n)
		case 8:
			what = "flush"
			if try(`pkg:flush()`) {
				saved[true] = true
			}
		case 9, 10:
			what = "finalize"
			if try(`pkg:finalize()`) {
				saved[split] = true
				opened = false
			} else if opened {
				c.Fail("finalize of an open session fails")
			}
		case 11:
			what = "path.enum"
			try(`return path.enum(DIR..%s, %s)`, luaStr(pick(r, "d", "d/empty", "none", "junk", "")), pick(r, "0", "1", "2", "nil", "-1"))
		case 12:
			what = "path.glob"
			try(`return path.glob(DIR..%s)`, luaStr(pick(r, "*", "d/*", "[", "none/*")))
		case 13:
			what = "existence"
			try(`return checkfile(DIR..%s)`, luaStr(pick(r, "junk", "d", "none")))
		case 14:
			what = "automatic tags"
			try(`pkg.%s = true`, pick(r, "automime", "md5", "crc32", "sha256", "autofid"))
		case 15:
			if opened {
				continue
			}
			what = "new"
			x.must(0, "pkg = wpk.new()")
		}
		step(what)
	}
	if opened {
		x.must(0, "pkg:finalize()")
		opened = false
	}
	step("the last finalize")
}

// runC31limit runs the commands with less descriptors than there are files.
func runC31limit(c *C) {
	var r = c.R
	var src = c.Path("src")
	c.Env(os.Mkdir(src, 0755))
	var files = map[string][]byte{}
	var n = r.Range(60, 200)
	var lim = r.Range(24, 40)
	for i := 0; i < n; i++ {
		var rel = fmt.Sprintf("f%d", i)
		if r.P(1, 3) {
			rel = fmt.Sprintf("d%d/f%d", i%7, i)
			c.Env(os.MkdirAll(filepath.Join(src, filepath.Dir(rel)), 0755))
		}
		if r.P(1, 3) {
			rel += ".txt"
		}
		files[rel] = content(r, pick(r, 0, 1, 10, 100, r.Int(3000)))
		writeFile(c, filepath.Join(src, rel), files[rel])
	}
	var many = r.P(1, 3) // many small packages instead of one
	var np = 1
	if many {
		np = r.Range(45, 70)
	}
	var split = r.P(1, 2)
	var run = func(name string, args ...string) {
		var b = &binRun{name: name, args: args, nof: lim, env: []string{"GOGC=off"}}
		var out = b.run(c)
		c.Ev("commands under a limit", 1)
		if !finished(out) {
			c.Fail("%s of %d files, %d packages with a limit of %d open files does not finish: %s", name, n, np, lim, tail(out, 500))
		}
	}
	var args = []string{"-dst", c.Path("p.wpk"), "-src", src, "-mime=" + strconv.FormatBool(r.P(1, 2)), "-link=" + strconv.FormatBool(r.P(1, 2))}
	if split {
		args = append(args, "-split")
	}
	run("pack", args...)
	var pkgs []string
	var main = c.Path("p.wpk")
	if split {
		main = wpk.MakeTagsPath(main)
	}
	pkgs = append(pkgs, main)
	for i := 1; i < np; i++ {
		var name = fmt.Sprintf("x%d", i)
		var data = content(r, r.Int(50))
		var ents = []*Ent{{Name: name, Data: data}}
		var sp = r.P(1, 2)
		var tp, _ = packDisk(c, fmt.Sprintf("q%d.wpk", i), sp, ents)
		pkgs = append(pkgs, tp)
		files[name] = data
	}
	c.NonTrivial()
	var mode = pickOf(r, modes)
	var dst = c.Path("dst")
	c.Env(os.Mkdir(dst, 0755))
	run("extract", "-dst", dst, "-pm", mode, "-src", strings.Join(pkgs, ";"))
	for rel, want := range files {
		var b, err = os.ReadFile(filepath.Join(dst, rel))
		if err != nil || !bytes.Equal(b, want) {
			c.Fail("extract by %s under a limit of %d open files: %s has %d bytes (%v), want %d", mode, lim, rel, len(b), err, len(want))
		}
	}
	noneHeld(c, c.Dir(), "commands have ended")
}
