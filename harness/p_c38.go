// C38: memory follows the table and the request, never the data.
package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
)

func init() {
	register(&Prop{
		ID: "C38", Level: "exploration", Quick: 400, Thorough: 6000, Workers: 1,
		Rule:   "each case packs files of 24 MiB to 1 GiB (sparse ones, or made at reading) by every packing call, opens packages with such data by every opening call and the info query, opens nested files by the map and OS-file modes, reads parts of them and the whole in pieces, flushes and loads tables of up to 20000 entries, puts files with all hashes by a Lua script, and runs the three commands on large files, and measures what was allocated by each call (the counters of the runtime) or the largest resident set of the command (the kernel's account) against a bound which has only the table and the request in it; non-trivial when a bound is at most a quarter of the data",
		MinEv:  map[string]int64{"calls measured": 3000, "commands measured": 10},
		Assume: []string{"allocations of the runtime itself stay below the slack of 1 MiB per call", "a resident set of 80 MiB is enough for a command of this size"},
		Run:    runC38,
	})
}

// alloc runs f and demands a bound on what it has allocated.
func alloc(c *C, limit, data int64, what string, f func()) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	var n = int64(b.TotalAlloc - a.TotalAlloc)
	if n > limit {
		c.Fail("%s allocates %d bytes, the limit is %d, data has %d bytes", what, n, limit, data)
	}
	if limit <= data/4 {
		c.NonTrivial()
	}
	c.Ev("calls measured", 1)
	if top := int64(n * 1000 / limit); top > 250 {
		c.Ev("calls above a quarter of the limit", 1)
	}
}

// nullSeeker takes data to nowhere.
type nullSeeker struct{ pos, end int64 }

func (n *nullSeeker) Write(p []byte) (int, error) {
	n.pos += int64(len(p))
	n.end = max(n.end, n.pos)
	return len(p), nil
}

func (n *nullSeeker) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += n.pos
	case io.SeekEnd:
		off += n.end
	}
	n.pos = off
	return off, nil
}

const slack = 1 << 20

func runC38(c *C) {
	var r = c.R
	switch r.Int(20) {
	case 0:
		bigCommands(c)
	case 1, 2:
		bigLua(c)
	case 3, 4, 5, 6:
		bigTable(c)
	default:
		bigData(c)
	}
}

func sparseFile(c *C, fpath string, size int64, seed uint64) *bigSrc {
	var src = &bigSrc{size: size, seed: seed}
	var f, err = openSparse(fpath)
	c.Env(err)
	defer f.Close()
	_, err = src.WriteTo(f)
	c.Env(err)
	return &bigSrc{size: size, seed: seed}
}

func bigData(c *C) {
	var r = c.R
	var size = func() int64 { return pick(r, 24<<20, 40<<20, 64<<20+int64(r.Int(100000)), 200<<20, 1<<30) }
	var split = r.P(1, 2)
	// packing to nowhere
	var pkg = wpk.NewPackage()
	var wpt, w = &nullSeeker{}, &nullSeeker{}
	var wpf io.WriteSeeker = w
	if !split {
		wpf, w = nil, wpt
	}
	c.NoErr(pkg.Begin(wpt, wpf), "Begin")
	for k := r.Range(1, 3); k > 0; k-- {
		var n = min(size(), 200<<20)
		var name = fmt.Sprintf("n%d", k)
		var err error
		switch r.Int(4) {
		case 0:
			alloc(c, slack, n, "PackData of a stream", func() { _, err = pkg.PackData(w, &bigSrc{size: n, seed: 1}, name) })
		case 1:
			alloc(c, slack, n, "PackData of a plain reader", func() { _, err = pkg.PackData(w, struct{ io.Reader }{&bigSrc{size: n, seed: 1}}, name) })
		case 2:
			alloc(c, slack, n, "PackFile of a foreign file", func() {
				_, err = pkg.PackFile(w, &bigFile{&bigSrc{size: n, seed: 2}, time.Unix(1000, 0)}, name)
			})
		case 3:
			var fpath = c.Path("src")
			os.Remove(fpath)
			sparseFile(c, fpath, n, 3)
			var f, ferr = os.Open(fpath)
			c.Env(ferr)
			alloc(c, slack, n, "PackFile of a disk file", func() { _, err = pkg.PackFile(w, f, name) })
			f.Close()
		}
		c.NoErr(err, "packing")
		c.T("packed %d bytes", n)
	}
	alloc(c, slack, 24<<20, "Sync", func() { c.NoErr(pkg.Sync(wpt, wpf), "Sync") })
	// a package on disk
	var tpath, dpath = c.Path("p.wpt"), c.Path("p.wpf")
	if !split {
		tpath, dpath = c.Path("p.wpk"), c.Path("p.wpk")
	}
	var ft, err = openSparse(tpath)
	c.Env(err)
	defer ft.Close()
	var fw, ff = ft, io.WriteSeeker(nil)
	if split {
		fw, err = openSparse(dpath)
		c.Env(err)
		defer fw.Close()
		ff = fw
	}
	pkg = wpk.NewPackage()
	c.NoErr(pkg.Begin(ft, ff), "Begin")
	var srcs []*bigSrc
	var total int64
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		var b = &bigSrc{size: size(), seed: r.U64()}
		if r.P(1, 5) {
			b.size = int64(r.Int(5000))
		}
		if i == 0 {
			b.size = max(b.size, 24<<20)
		}
		_, err = pkg.PackData(fw, b, fmt.Sprintf("dir/f%d", i))
		c.NoErr(err, "PackData")
		srcs = append(srcs, &bigSrc{size: b.size, seed: b.seed})
		total += b.size
	}
	c.NoErr(pkg.Sync(ft, ff), "Sync")
	c.T("split %v, %d files of %d bytes", split, len(srcs), total)
	pkg = wpk.NewPackage()
	switch r.Int(3) {
	case 0:
		alloc(c, slack, total, "OpenFile", func() { c.NoErr(pkg.OpenFile(tpath), "OpenFile") })
	case 1:
		alloc(c, slack, total, "OpenStream", func() { c.NoErr(pkg.OpenStream(ft), "OpenStream") })
	case 2:
		var f, err = os.Open(tpath)
		c.Env(err)
		alloc(c, slack, total, "OpenStream of a file", func() { c.NoErr(pkg.OpenStream(f), "OpenStream") })
		f.Close()
	}
	alloc(c, slack, total, "GetPackageInfo", func() { _, _, err = wpk.GetPackageInfo(ft) })
	c.NoErr(err, "GetPackageInfo")
	var mode = pick(r, "mmap", "fsys")
	alloc(c, slack, total, mode+".MakeTagger", func() { pkg.Tagger, err = makeTagger(mode, dpath) })
	c.NoErr(err, "tagger")
	defer pkg.Close()
	for k := r.Range(2, 6); k > 0; k-- {
		var i = r.Int(len(srcs))
		if r.P(1, 2) {
			i = 0
		}
		var b = srcs[i]
		var f fs.File
		var fsys fs.FS = pkg
		var name = fmt.Sprintf("dir/f%d", i)
		switch r.Int(4) {
		case 0:
			var u = &wpk.Union{List: []*wpk.Package{pkg}}
			fsys = u
		case 1:
			alloc(c, slack, total, "Sub", func() { fsys, err = pkg.Sub("dir") })
			c.NoErr(err, "Sub")
			name = filepath.Base(name)
		}
		if r.P(1, 3) {
			var fi fs.FileInfo
			alloc(c, slack, b.size, "Stat", func() { fi, err = fs.Stat(fsys, name) })
			c.Check(err == nil && fi.Size() == b.size, "Stat: %v", err)
		}
		if r.P(1, 3) {
			alloc(c, slack, total, "Glob and ReadDir", func() { fs.Glob(fsys, "*/*"); fs.ReadDir(fsys, ".") })
		}
		alloc(c, slack, b.size, mode+" Open", func() { f, err = fsys.Open(name) })
		c.NoErr(err, "Open %s", name)
		var rf, ok = f.(wpk.RFile)
		c.Check(ok, "handle is no RFile")
		var buf = make([]byte, 5000)
		for j := r.Range(1, 6); j > 0; j-- {
			var off = int64(r.U64() % uint64(b.size+1))
			var n int
			alloc(c, slack, b.size, mode+" reading of 5000 bytes", func() {
				if j&1 == 0 {
					n, err = rf.ReadAt(buf, off)
				} else {
					rf.Seek(off, io.SeekStart)
					n, err = io.ReadFull(rf, buf)
				}
			})
			c.Check(bytes.Equal(buf[:n], b.at(off, len(buf))), "%d bytes at %d of %d differ, error %v", n, off, b.size, err)
		}
		if b.size <= 64<<20+100000 && r.P(1, 2) {
			alloc(c, slack, b.size, mode+" copying in pieces", func() {
				rf.Seek(0, io.SeekStart)
				var n int64
				n, err = io.Copy(struct{ io.Writer }{io.Discard}, rf)
				c.Check(n == b.size && err == nil, "copied %d of %d, %v", n, b.size, err)
			})
		}
		alloc(c, slack, b.size, "Close", func() { f.Close() })
		if b.size <= 40<<20 && r.P(1, 3) {
			var got []byte
			alloc(c, 2*b.size+slack, b.size, "ReadFile", func() { got, err = fs.ReadFile(fsys, name) })
			c.Check(err == nil && int64(len(got)) == b.size && bytes.Equal(got[:min(b.size, mark)], b.at(0, mark)), "ReadFile gives %d bytes, %v", len(got), err)
		}
	}
}

// bigTable measures the work on tables with many entries.
func bigTable(c *C) {
	var r = c.R
	var n = pick(r, 1000, 3000, 10000, 20000)
	var s = newSession(r.P(1, 2))
	s.wpt.L = nil
	if s.split {
		s.wpf.L = nil
	}
	c.NoErr(s.pkg.Begin(s.wpt, s.f()), "Begin")
	var one = bytes.Repeat([]byte("x"), 10)
	for i := 0; i < n; i++ {
		s.pkg.PackData(s.w(), bytes.NewReader(one), fmt.Sprintf("directory%d/name%d", i%50, i))
	}
	c.NoErr(s.pkg.Sync(s.wpt, s.f()), "Sync")
	var hd, err = decHdr(s.wpt.B)
	c.NoErr(err, "header")
	var table = int64(hd.FttSize)
	c.T("table of %d entries, %d bytes", n, table)
	// one more flush
	if s.split {
		alloc(c, 16*table+slack, 1<<40, "flush", func() { c.NoErr(s.pkg.Sync(s.wpt, s.f()), "Sync") })
	}
	var pkg = wpk.NewPackage()
	alloc(c, 32*table+slack, 1<<40, "loading", func() { c.NoErr(pkg.OpenStream(bytes.NewReader(s.wpt.B)), "OpenStream") })
	c.Check(pkg.TagsetNum() == n, "%d entries", pkg.TagsetNum())
	pkg.Tagger = &memTagger{s.dat()}
	alloc(c, slack, 1<<40, "info query", func() { _, _, err = wpk.GetPackageInfo(bytes.NewReader(s.wpt.B)) })
	c.NoErr(err, "GetPackageInfo")
	// the same by a view, a union and a view of it
	var v, verr = pkg.Sub("directory7")
	c.NoErr(verr, "Sub")
	var u = &wpk.Union{List: []*wpk.Package{{FTT: wpk.NewPackage().FTT, Tagger: pkg.Tagger, Workspace: "."}, pkg, pkg}}
	var uv, uverr = u.Sub("directory7")
	c.NoErr(uverr, "Sub of the union")
	for k := 0; k < 20; k++ {
		var fsys, name = pick[fs.FS](r, pkg, v, u, uv), ""
		if i := r.Int(n); fsys == fs.FS(pkg) || fsys == fs.FS(u) {
			name = fmt.Sprintf("directory%d/name%d", i%50, i)
		} else {
			name = fmt.Sprintf("name%d", i/50*50+7)
		}
		alloc(c, 32<<10, table, "lookup of a file", func() {
			var fi, err = fs.Stat(fsys, name)
			c.Check(err == nil && fi.Size() == 10, "Stat of %s in %T: %v", name, fsys, err)
			f, err := fsys.Open(name)
			c.NoErr(err, "Open")
			f.Close()
			b, err := fs.ReadFile(fsys, name)
			c.Check(err == nil && len(b) == 10, "ReadFile of %s in %T: %v", name, fsys, err)
		})
		c.Ev("lookups measured", 1)
	}
	// lookups do not depend on the number of entries
	for k := 0; k < 20; k++ {
		var i = r.Int(n)
		var name = fmt.Sprintf("directory%d/name%d", i%50, i)
		alloc(c, 16<<10, table, "lookup", func() {
			_, ok := pkg.GetTagset(name)
			c.Check(ok && pkg.HasTagset(name), "no %s", name)
			_, err = pkg.Stat(name)
			c.NoErr(err, "Stat")
		})
	}
	c.NonTrivial()
}

// bigLua puts large files by a script.
func bigLua(c *C) {
	var r = c.R
	var l = newLvm(c)
	defer l.ls.Close()
	var n = int64(pick(r, 24<<20, 32<<20, 48<<20))
	sparseFile(c, c.Path("big"), n, 7)
	var args = luaStr(c.Path("a.wpk"))
	if r.P(1, 2) {
		args = luaStr(c.Path("a.wpt")) + ", " + luaStr(c.Path("a.wpf"))
	}
	l.must(0, "pkg = wpk.new()")
	for _, h := range []string{"crc32", "crc64", "md5", "sha1", "sha224", "sha256", "sha384", "sha512", "automime", "autofid"} {
		if r.P(1, 2) {
			l.must(0, "pkg.%s = true", h)
			c.T("%s", h)
		}
	}
	l.must(0, "pkg:begin(%s)", args)
	alloc(c, 4*slack, n, "putfile of Lua", func() { l.must(-1, "pkg:putfile(\"%s\", %s)", pick(r, "big", "big.txt"), luaStr(c.Path("big"))) })
	alloc(c, 2*slack, n, "finalize of Lua", func() { l.must(0, "pkg:finalize()") })
	l.must(0, "pkg = wpk.new()")
	alloc(c, 2*slack, n, "load of Lua", func() { l.must(0, "pkg:load(%s)", args) })
	alloc(c, 2*slack, n, "append of Lua", func() { l.must(0, "pkg:append()") })
	l.must(0, "pkg:finalize()")
}

// bigCommands measures the resident set of the commands.
func bigCommands(c *C) {
	var r = c.R
	const limit = 80 << 20
	var n int64 = 160 << 20
	c.Env(os.Mkdir(c.Path("src"), 0755))
	c.Env(os.Mkdir(c.Path("dst"), 0755))
	sparseFile(c, c.Path("src", pick(r, "big", "big.txt")), n, 9)
	var run = func(name string, args ...string) {
		var ctx, cancel = context.WithTimeout(context.Background(), 200*time.Second)
		defer cancel()
		// a child begins with the account of its parent, so it is started by a small one
		var self, serr = os.Executable()
		c.Env(serr)
		var cmd = exec.CommandContext(ctx, self, append([]string{"-resident", filepath.Join(*flBins, name)}, args...)...)
		cmd.Dir = c.Dir()
		cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + c.Dir()}
		var out, err = cmd.CombinedOutput()
		if cmd.ProcessState == nil {
			c.Env(err)
		}
		var rss int64 = -1
		if i := strings.LastIndex(string(out), "resident set "); i >= 0 {
			fmt.Sscanf(string(out[i:]), "resident set %d", &rss)
		}
		if rss < 0 {
			c.Env(fmt.Errorf("no account of %s: %s", name, tail(string(out), 300)))
		}
		if name != "build" {
			c.Check(finished(string(out)), "%s does not complete: %s", name, tail(string(out), 1000))
		} else {
			c.Check(strings.Contains(string(out), "step end"), "%s does not complete: %s", name, tail(string(out), 1000))
		}
		c.T("%s: resident set below the limit: %v", name, rss <= limit)
		c.Check(rss <= limit, "%s takes a resident set of %d bytes for a file of %d, the limit is %d", name, rss, n, limit)
		c.Ev("commands measured", 1)
	}
	var dst = c.Path("p.wpk")
	if r.P(1, 2) {
		var args = []string{"-src", c.Path("src"), "-dst", dst}
		if r.P(1, 2) {
			args = append(args, "-split")
		}
		for _, a := range []string{"-mime", "-link"} {
			if r.P(1, 2) {
				args = append(args, a)
			}
		}
		run("pack", args...)
	} else {
		var file, _ = filepath.Glob(c.Path("src", "*"))
		var script = "local p = wpk.new() p.automime = true p.sha256 = true p:begin(" + luaStr(dst) + ") p:putfile(\"big\", " + luaStr(file[0]) + ") p:finalize() print(\"step end\")"
		writeFile(c, c.Path("s.lua"), []byte(script))
		run("build", c.Path("s.lua"))
	}
	os.RemoveAll(c.Path("src"))
	if _, err := os.Stat(dst); err != nil {
		dst = wpk.MakeTagsPath(dst)
	}
	run("extract", "-src", dst, "-dst", c.Path("dst"), "-pm", "fsys")
	c.NonTrivial()
}

// residentMain runs a command and tells its largest resident set.
func residentMain(args []string) {
	var cmd = exec.Command(args[0], args[1:]...)
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	cmd.Run()
	if cmd.ProcessState != nil {
		if ru, ok := cmd.ProcessState.SysUsage().(*syscall.Rusage); ok {
			fmt.Printf("\nresident set %d\n", int64(ru.Maxrss)<<10)
		}
	}
	os.Exit(0)
}
