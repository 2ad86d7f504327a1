// C39: equal work gives equal bytes. C40: reading changes nothing.
package main

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	lua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"
)

func init() {
	register(&Prop{
		ID: "C39", Level: "exploration", Quick: 9000, Thorough: 200000,
		Rule:  "each case does the same work two to four times and compares the bytes of the packages after every flush: a random history of editing sessions (with failing sources, refused flushes, lost sessions), the same list of files delivered by different readers to streams in memory and to disk files with both spellings of the names while other packages are being made, sessions which change nothing, flushes repeated, a Lua script, or the pack command over an unchanged tree; non-trivial with two equal packages that have files",
		MinEv: map[string]int64{"packages compared": 10000, "histories repeated": 2000, "scripts repeated": 500, "packings repeated": 100, "idle sessions": 1000},
		Run:   runC39,
	})
	register(&Prop{
		ID: "C40", Level: "exploration", Quick: 6000, Thorough: 120000,
		Rule:  "each case takes the state of a directory (names, types, modes, owners, times, bytes) with one to three packages, opens them in one or several access modes, reads them in random order by all methods, through views and unions, by consumers of the standard library, by a Lua script or by the extract command, also with names and calls that must fail, overwrites everything it was given (byte slices, lists, appended tagsets), edits tables without a flush, and demands that every later read gives what the first one gave, and that the directory at the end is as it was; non-trivial always",
		MinEv: map[string]int64{"directories compared": 5000, "results overwritten": 50000, "reads compared": 50000, "scripts that only read": 500, "commands that only read": 100},
		Run:   runC40,
	})
}

// ---------------------------------------------------------------- C39

func runC39(c *C) {
	var r = c.R
	switch r.Int(16) {
	case 0, 1, 2, 3, 4, 5:
		sameHistory(c)
	case 6, 7, 8, 9, 10:
		sameFiles(c)
	case 11, 12, 13, 14:
		sameScript(c)
	default:
		if r.P(1, 4) {
			sameCommand(c)
		} else {
			sameFiles(c)
		}
	}
}

// sameHistory runs a history twice.
func sameHistory(c *C) {
	var state = *c.R
	var split = c.R.P(1, 2)
	var images [2][]string
	var last [2]*hist
	for pass := 0; pass < 2; pass++ {
		*c.R = state
		c.R.Int(2)
		var h = newHist(c, split)
		h.strict = false
		h.flushed = func(what string) {
			images[pass] = append(images[pass], fmt.Sprintf("%s: %x %x", what, sha256.Sum256(h.s.wpt.B), sha256.Sum256(h.s.dat())))
		}
		h.run(c.R.Range(1, 6))
		last[pass] = h
	}
	if len(images[0]) != len(images[1]) {
		c.Fail("the same history makes %d flushes, repeated %d", len(images[0]), len(images[1]))
	}
	for i := range images[0] {
		if images[0][i] != images[1][i] {
			c.Fail("the same history gives other bytes at flush #%d: %s, repeated %s", i+1, images[0][i], images[1][i])
		}
		c.Ev("packages compared", 1)
	}
	same39(c, "the same history", last[0].s.wpt.B, last[1].s.wpt.B)
	same39(c, "the same history, data", last[0].s.dat(), last[1].s.dat())
	c.Ev("histories repeated", 1)
	if len(last[0].m.Ents) > 0 {
		c.NonTrivial()
	}
}

func same39(c *C, what string, a, b []byte) {
	if bytes.Equal(a, b) {
		c.Ev("packages compared", 1)
		return
	}
	var i = 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	c.Fail("%s gives other bytes: %d and %d of them, the first difference at %d: %s and %s", what, len(a), len(b), i, hexShort(a[i:]), hexShort(b[i:]))
}

// sameFiles packs a list of files by different ways of delivery.
func sameFiles(c *C) {
	var r = c.R
	var split = r.P(1, 2)
	type item struct {
		name string
		data []byte
		mod  time.Time
		file bool
		tags []MTag
	}
	var items []*item
	for _, n := range anyNames(r, r.Range(1, 12)) {
		var it = &item{name: n, data: content(r, genSize(r)), mod: time.Unix(int64(r.Int(1<<31)), int64(r.Int(1000000000))), file: r.P(1, 2)}
		if r.P(1, 6) {
			it.mod = pick(r, time.Time{}, time.Unix(0, 0))
		}
		if r.P(1, 2) {
			it.tags = extraTags(r, 5)
		}
		items = append(items, it)
	}
	var info = extraTags(r, 3)
	var aliases [][2]string
	for k := r.Int(4); k > 0; k-- {
		aliases = append(aliases, [2]string{pickOf(r, items).name, fmt.Sprintf("alias/%d", k)})
	}
	var dels []string
	for k := r.Int(3); k > 0; k-- {
		dels = append(dels, pickOf(r, items).name)
	}
	var flushes = map[int]bool{}
	for i := range items {
		flushes[i] = r.P(1, 4)
	}
	var ways = []string{"plain", "chunks", "disk", "noise", "sessions"}
	shuffle(r, ways[1:])
	c.T("split %v, files %s, aliases %v, deleted %s, flushes %v, ways %v", split, func() (l []string) {
		for _, it := range items {
			l = append(l, fmt.Sprintf("%s %v %d %s %v", quote(it.name), it.file, len(it.data), hexShort(it.data), it.tags))
		}
		return
	}(), aliases, quoteAll(dels), flushes, ways)
	var firstT, firstD []byte
	for n, way := range ways[:r.Range(2, 4)] {
		var s = newSession(split)
		var wpt, wpf, w io.WriteSeeker = s.wpt, s.f(), s.w()
		var ft, fd *os.File
		if way == "disk" {
			var err error
			ft, err = os.Create(c.Path("t"))
			c.Env(err)
			defer ft.Close()
			wpt, w = ft, ft
			if split {
				fd, err = os.Create(c.Path("d"))
				c.Env(err)
				defer fd.Close()
				wpf, w = fd, fd
			}
		}
		var pkg = s.pkg
		var noise *wpk.Package
		var noiseBuf = &MemFile{}
		if way == "noise" {
			noise = wpk.NewPackage()
			c.NoErr(noise.Begin(noiseBuf, nil), "Begin")
		}
		c.NoErr(pkg.Begin(wpt, wpf), "Begin")
		pkg.SetInfo(mkTagset(info))
		for i, it := range items {
			var key = it.name
			var src io.Reader = bytes.NewReader(it.data)
			switch way {
			case "chunks":
				src = &chunkReader{b: it.data, next: func() int { return r.Range(0, 900) }, fail: -1, dataEOF: r.P(1, 2)}
				key = backslash(r, it.name)
			case "noise":
				runtime.GC()
				noise.PackData(noiseBuf, strings.NewReader(it.name), fmt.Sprintf("noise%d", i))
				pkg.Enum(func(string, wpk.TagsetRaw) bool { return r.P(1, 2) })
				pkg.Glob("*")
				pkg.HasTagset(it.name + "?")
			case "disk":
				src = bytes.NewBuffer(append([]byte(nil), it.data...))
			}
			var ts wpk.TagsetRaw
			var err error
			if it.file {
				ts, err = pkg.PackFile(w, &memFile{src: src, name: "x", size: int64(len(it.data)), mod: it.mod}, key)
			} else {
				ts, err = pkg.PackData(w, src, key)
			}
			c.NoErr(err, "packing %s", quote(it.name))
			if it.tags != nil {
				pkg.SetTagset(key, putTags(ts, it.tags))
			}
			if flushes[i] && (split || way == "sessions") {
				// the place of the table in the tags file of a split package is told by its flushes
				c.NoErr(pkg.Sync(wpt, wpf), "Sync")
				if !split || way == "sessions" {
					if r.P(1, 2) && way == "sessions" {
						pkg = wpk.NewPackage()
						c.NoErr(pkg.OpenStream(bytes.NewReader(s.wpt.B)), "OpenStream")
					}
					c.NoErr(pkg.Append(wpt, wpf), "Append")
				}
			}
		}
		for _, a := range aliases {
			c.NoErr(pkg.PutAlias(a[0], a[1]), "PutAlias")
		}
		for _, d := range dels {
			pkg.DelTagset(d)
		}
		c.NoErr(pkg.Sync(wpt, wpf), "Sync")
		var bt, bd = s.wpt.B, []byte(nil)
		if split {
			bd = s.wpf.B
		}
		if way == "disk" {
			var err error
			bt, err = os.ReadFile(c.Path("t"))
			c.Env(err)
			if split {
				bd, err = os.ReadFile(c.Path("d"))
				c.Env(err)
			}
		}
		if !split { // something of an older table may stay behind
			var h, err = decHdr(bt)
			c.NoErr(err, "header")
			bt = append([]byte(nil), bt[:h.FttOff+h.FttSize]...)
		} else {
			bt, bd = append([]byte(nil), bt...), append([]byte(nil), bd...)
		}
		if n == 0 {
			firstT, firstD = bt, bd
		} else {
			same39(c, fmt.Sprintf("packing of %d files by way %q", len(items), way), firstT, bt)
			same39(c, fmt.Sprintf("data of %d files by way %q", len(items), way), firstD, bd)
		}
		if way != "disk" && r.P(1, 2) {
			idle39(c, s, pkg)
		}
	}
	c.NonTrivial()
}

// idle39 makes sessions that change nothing.
func idle39(c *C, s *session, pkg *wpk.Package) {
	var r = c.R
	var image = func() (table, data, whole []byte) {
		var h, err = decHdr(s.wpt.B)
		c.NoErr(err, "header")
		table = append(table, s.wpt.B[h.FttOff:h.FttOff+h.FttSize]...)
		data = append(data, s.dat()[h.DatOff:h.DatOff+h.DatSize]...)
		return table, data, append(whole, s.wpt.B...)
	}
	var table, data, whole = image()
	for k := r.Range(1, 3); k > 0; k-- {
		if r.P(1, 2) {
			pkg = wpk.NewPackage()
			c.NoErr(pkg.OpenStream(bytes.NewReader(s.wpt.B)), "OpenStream")
		}
		var appended = !s.split || r.P(1, 2)
		if appended {
			c.NoErr(pkg.Append(s.wpt, s.f()), "Append")
		}
		c.NoErr(pkg.Sync(s.wpt, s.f()), "Sync")
		var t, d, w = image()
		if k2 := r.Int(3); k2 == 0 && s.split { // again without a session
			c.NoErr(pkg.Sync(s.wpt, s.f()), "Sync")
			t, d, _ = image()
		}
		same39(c, "table after a session which changes nothing", table, t)
		same39(c, "data after a session which changes nothing", data, d)
		if !s.split {
			same39(c, "a session which changes nothing", whole, w)
		}
		c.Ev("idle sessions", 1)
	}
}

// sameScript runs a Lua script twice.
func sameScript(c *C) {
	var r = c.R
	var sb strings.Builder
	var stmt = func(format string, args ...any) { fmt.Fprintf(&sb, format+"\n", args...) }
	var split = r.P(1, 2)
	c.Env(os.MkdirAll(c.Path("src"), 0755))
	var far = time.Now().Add(time.Hour) // reading does not change the access time
	for i := 0; i < 3; i++ {
		var f = c.Path("src", fmt.Sprintf("f%d%s", i, pick(r, "", ".txt", ".png", ".tga")))
		writeFile(c, f, content(r, r.Int(3000)))
		c.Env(os.Chtimes(f, far, time.Unix(int64(r.Int(1<<30)), 5)))
	}
	var srcs, err = filepath.Glob(c.Path("src", "*"))
	c.Env(err)
	stmt("pkg = wpk.new()")
	for _, p := range []string{"autofid", "automime", "crc32", "crc64", "md5", "sha1", "sha224", "sha256", "sha384", "sha512"} {
		if r.P(1, 3) {
			stmt("pkg.%s = true", p)
		}
	}
	if r.P(1, 3) {
		stmt("pkg.secret = %s", luaStr(string(content(r, 9))))
	}
	var values = map[string]func() string{
		"author":   func() string { return luaStr(fmt.Sprint("author ", r.Int(100))) },
		"comment":  func() string { return luaStr(strings.Repeat("c", r.Int(40))) },
		"keywords": func() string { return luaStr("k") },
		"version":  func() string { return luaStr(fmt.Sprint(r.Int(10), ".0")) },
		"link":     func() string { return luaStr("http://x/") },
		"mime":     func() string { return luaStr("text/x") },
		"fid":      func() string { return fmt.Sprint(r.Int(1 << 20)) },
		"label":    func() string { return luaStr("label") },
		"category": func() string { return luaStr("any") },
	}
	var table = func() string {
		var l []string
		for _, k := range sortedKeys(values) {
			if r.P(1, 2) {
				if k == "fid" && r.P(1, 2) { // a tag told by its number and by its name
					l = append(l, fmt.Sprintf("[%d] = %d", wpk.TIDfid, r.Int(1000)))
				}
				l = append(l, fmt.Sprintf("%s = %s", k, values[k]()))
			}
		}
		for k := r.Int(4); k > 0; k-- {
			l = append(l, fmt.Sprintf("[%d] = %s", r.Range(500, 700), luaStr(string(content(r, r.Int(20))))))
		}
		shuffle(r, l)
		return "{" + strings.Join(l, ", ") + "}"
	}
	stmt("pkg:begin(OUT)")
	if r.P(1, 2) {
		stmt("pkg:setupinfo(%s)", table())
	}
	var n = r.Range(2, 10)
	for i := 0; i < n; i++ {
		var tags = ""
		if r.P(2, 3) {
			tags = ", " + table()
		}
		if r.P(1, 2) {
			stmt("pkg:putdata(\"n%d\", %s%s)", i, luaStr(string(content(r, r.Int(60)))), tags)
		} else {
			stmt("pkg:putfile(\"n%d\", %s%s)", i, luaStr(pickOf(r, srcs)), tags)
		}
		switch r.Int(8) {
		case 0:
			stmt("pkg:settags(\"n%d\", %s)", r.Int(i+1), table())
		case 1:
			stmt("pkg:addtags(\"n%d\", %s)", r.Int(i+1), table())
		case 2:
			stmt("pkg:putalias(\"n%d\", \"a/n%d\")", r.Int(i+1), i)
		case 3:
			stmt("pkg:deltags(\"n%d\", %s)", r.Int(i+1), table())
		case 4:
			if split {
				stmt("pkg:flush()")
			}
		case 5:
			stmt("pkg:finalize() pkg:append()")
		}
	}
	if r.P(1, 4) {
		stmt("pkg:renamedir(\"a\", \"b/c\")")
	}
	stmt("pkg:finalize()")
	if r.P(1, 2) {
		stmt("pkg = wpk.new() pkg:load(OUT)")
		stmt("pkg:append() pkg:putdata(\"more\", \"x\", %s) pkg:finalize()", table())
	}
	var script = sb.String()
	c.T("script %s", strings.ReplaceAll(script, c.Dir(), "DIR"))
	var images [2][2][]byte
	for pass := 0; pass < 2; pass++ {
		var tpath, dpath = c.Path(fmt.Sprintf("o%d.wpk", pass)), ""
		var out = luaStr(tpath)
		if split {
			tpath, dpath = c.Path(fmt.Sprintf("o%d.wpt", pass)), c.Path(fmt.Sprintf("o%d.wpf", pass))
			out = luaStr(tpath) + ", " + luaStr(dpath)
		}
		var text = strings.ReplaceAll(script, "OUT", out)
		var l = newLvm(c)
		if err := l.ls.DoString(text); err != nil {
			l.ls.Close()
			c.Fail("script fails: %v\n%s", err, head(text, 4000))
		}
		l.ls.Close()
		var err error
		images[pass][0], err = os.ReadFile(tpath)
		c.Env(err)
		if split {
			images[pass][1], err = os.ReadFile(dpath)
			c.Env(err)
		}
	}
	same39(c, "the same script", images[0][0], images[1][0])
	same39(c, "the same script, data", images[0][1], images[1][1])
	c.Ev("scripts repeated", 1)
	c.NonTrivial()
}

// sameCommand packs an unchanged tree twice.
func sameCommand(c *C) {
	var r = c.R
	var split = r.P(1, 2)
	var roots []string
	var far = time.Now().Add(time.Hour)
	for k := r.Range(1, 3); k > 0; k-- {
		var root = c.Path(fmt.Sprintf("tree%d", k))
		c.Env(os.MkdirAll(root, 0755))
		for i, n := range srcNames(r, r.Range(1, 30)) {
			if strings.ContainsAny(n, "$%\\") {
				continue
			}
			if k > 1 {
				n = fmt.Sprintf("k%d-%d", k, i)
			}
			var f = filepath.Join(root, n)
			c.Env(os.MkdirAll(filepath.Dir(f), 0755))
			writeFile(c, f, content(r, genSize(r)))
			c.Env(os.Chtimes(f, far, time.Unix(int64(r.Int(1<<30)), 5)))
		}
		roots = append(roots, root)
	}
	var extra []string
	for _, a := range []string{"-mime", "-link"} {
		if r.P(1, 2) {
			extra = append(extra, a)
		}
	}
	var images [2][2][]byte
	for pass := 0; pass < 2; pass++ {
		var dst = c.Path(fmt.Sprintf("o%d.wpk", pass))
		var args = append([]string{"-src", strings.Join(roots, ";"), "-dst", dst}, extra...)
		if split {
			args = append(args, "-split")
		}
		var b = &binRun{name: "pack", args: args}
		if pass == 1 {
			b.env = []string{"GOMAXPROCS=1", "GOGC=5", "TZ=Asia/Tokyo"}
		}
		var out = b.run(c)
		c.Check(finished(out), "pack does not finish: %s", tail(out, 1000))
		var err error
		if split {
			images[pass][0], err = os.ReadFile(wpk.MakeTagsPath(dst))
			c.Env(err)
			images[pass][1], err = os.ReadFile(wpk.MakeDataPath(dst))
			c.Env(err)
		} else {
			images[pass][0], err = os.ReadFile(dst)
			c.Env(err)
		}
	}
	same39(c, "packing of the same tree", images[0][0], images[1][0])
	same39(c, "packing of the same tree, data", images[0][1], images[1][1])
	c.Ev("packings repeated", 1)
	c.NonTrivial()
}

// ---------------------------------------------------------------- C40

func runC40(c *C) {
	var r = c.R
	c.NonTrivial()
	c.Env(os.Chmod(c.Dir(), 0755))
	c.Env(os.MkdirAll(c.Path("ro"), 0755))
	var npkg = pick(r, 1, 1, 2, 3)
	var all [][]*Ent
	var tpaths, dpaths []string
	for i := 0; i < npkg; i++ {
		var ents = genTreeEnts(r, r.Range(1, 10))
		var split = r.P(1, 2)
		var t, d = packDisk(c, fmt.Sprintf("ro/p%d.wpk", i), split, ents)
		all = append(all, ents)
		tpaths, dpaths = append(tpaths, t), append(dpaths, d)
	}
	if r.P(1, 2) {
		writeFile(c, c.Path("ro", "neighbour.txt"), content(r, 40))
	}
	var old = time.Unix(int64(r.Int(1<<30)), 7)
	for _, f := range append(append([]string(nil), tpaths...), dpaths...) {
		c.Env(os.Chtimes(f, old, old))
	}
	var before = snap(c.Path("ro"))
	for i := range all {
		c.T("package %s of %s", filepath.Base(tpaths[i]), strings.Join(entNames(all[i]), " "))
	}
	switch r.Int(12) {
	case 0, 1:
		for i := range tpaths {
			readByScript(c, tpaths[i], dpaths[i], all[i])
		}
	case 2:
		if r.P(1, 3) {
			var dst = c.Path("dst")
			c.Env(os.MkdirAll(dst, 0777))
			c.Env(os.Chmod(dst, 0777))
			for _, mode := range modes {
				var args = []string{"-src", strings.Join(tpaths, ";"), "-dst", dst, "-pm", mode}
				if r.P(1, 2) {
					args = append(args, "-ft")
				}
				(&binRun{name: "extract", args: args, user: r.P(1, 2)}).run(c)
				c.Ev("commands that only read", 1)
			}
			break
		}
		fallthrough
	default:
		readByAll(c, tpaths, dpaths, all)
	}
	if d := diffSnap(before, snap(c.Path("ro"))); d != "" {
		c.Fail("reading changes the directory of the packages: %s", d)
	}
	c.Ev("directories compared", 1)
}

// readByScript reads a package by Lua, with edits which are never flushed.
func readByScript(c *C, tpath, dpath string, ents []*Ent) {
	var r = c.R
	var l = newLvm(c)
	defer l.ls.Close()
	var args = luaStr(tpath)
	if dpath != tpath {
		args += ", " + luaStr(dpath)
	}
	l.must(0, "pkg = wpk.new()")
	l.must(0, "pkg:load(%s)", args)
	for k := r.Range(5, 30); k > 0; k-- {
		var n = luaStr(pickOf(r, ents).Name)
		switch r.Int(14) {
		case 0:
			l.do("return tostring(pkg)")
		case 1:
			l.do(fmt.Sprintf("return pkg:hasfile(%s), pkg:filesize(%s)", n, n))
		case 2:
			l.do(fmt.Sprintf("local t = pkg:gettags(%s) for k in pairs(t) do t[k] = 'x' end", n))
		case 3:
			l.do("local t = pkg:getinfo() t.label = 'x'")
		case 4:
			l.do("return pkg:glob('*'), pkg:glob('a/*')")
		case 5:
			l.do("return pkg:sumsize(), pkg.recnum, pkg.tagnum, pkg.fftsize, pkg.datasize, pkg.label, pkg.pkgpath, pkg.datpath")
		case 6:
			l.do(fmt.Sprintf("pkg:putdata(%s, 'data')", luaStr("new")))
		case 7:
			l.do(fmt.Sprintf("pkg:putfile(%s, %s)", luaStr("new"), luaStr(tpath)))
		case 8:
			l.do("pkg:finalize()")
		case 9:
			l.do("pkg:flush()")
		case 10:
			l.do(fmt.Sprintf("pkg:settag(%s, 'comment', 'x') pkg:deltag(%s, 'comment')", n, n))
		case 11:
			l.do("pkg.label = 'other' pkg:setupinfo({label = 'third'})")
		case 12:
			l.do(fmt.Sprintf("pkg:putalias(%s, 'never/%d')", n, k))
		case 13:
			l.do(fmt.Sprintf("pkg:gettag(%s, 'crc32') pkg:gettag(%s, 12345)", n, n))
		}
	}
	if r.P(1, 3) {
		l.do(fmt.Sprintf("pkg:rename(%s, 'moved') pkg:delalias('moved') pkg:renamedir('a', 'zz')", luaStr(pickOf(r, ents).Name)))
	}
	if r.P(1, 3) {
		l.do(fmt.Sprintf("local b = wpk.new() b:load(%s) b = nil collectgarbage()", luaStr(tpath+".none")))
	}
	var v = l.must(1, "return pkg.datasize")
	if _, ok := v[0].(lua.LNumber); !ok {
		c.Fail("datasize is %v", v[0])
	}
	c.Ev("scripts that only read", 1)
}

type reader40 struct {
	what string
	fsys fs.FS
	t    tree
	pkg  *wpk.Package // nil for a union or a view
	ents []*Ent
}

// readByAll reads packages by everything at once.
func readByAll(c *C, tpaths, dpaths []string, all [][]*Ent) {
	var r = c.R
	var rs []*reader40
	var opened []*wpk.Package
	var each = pickOf(r, modes)
	for i := range tpaths {
		for _, mode := range modes {
			if mode != each && r.P(1, 2) {
				continue
			}
			var pkg = openDisk(c, tpaths[i], dpaths[i], mode)
			opened = append(opened, pkg)
			rs = append(rs, &reader40{what: fmt.Sprintf("package %d %s", i, mode), fsys: pkg, t: mkTree(all[i]), pkg: pkg, ents: all[i]})
		}
	}
	defer func() {
		for _, p := range opened {
			p.Close()
		}
	}()
	if r.P(1, 2) {
		var u = &wpk.Union{}
		var joined []*Ent
		var have = map[string]bool{}
		for i := range tpaths {
			var pkg = openDisk(c, tpaths[i], dpaths[i], pickOf(r, modes))
			opened = append(opened, pkg)
			u.List = append(u.List, pkg)
			for _, e := range all[i] {
				if !have[e.Name] {
					joined = append(joined, e)
					have[e.Name] = true
				}
			}
		}
		if !clash40(joined) {
			rs = append(rs, &reader40{what: "union", fsys: u, t: mkTree(joined), ents: joined})
		}
	}
	for k := r.Range(10, 60); k > 0; k-- {
		var x = pickOf(r, rs)
		readOnce(c, x)
	}
	for k := r.Int(4); k > 0; k-- { // what is not there is not made, what is no package stays
		var p = pick(r, filepath.Dir(tpaths[0])+"/none.wpk", tpaths[0]+"/x", filepath.Dir(tpaths[0]), filepath.Dir(tpaths[0])+"/neighbour.txt", tpaths[0], dpaths[0])
		var pkg = wpk.NewPackage()
		var err = pkg.OpenFile(p)
		if tgr, e := makeTagger(pickOf(r, modes), p); e == nil {
			if err == nil && pkg.TagsetNum() > 0 && p == dpaths[0] {
				pkg.Tagger = tgr
				pkg.ReadFile(all[0][0].Name)
			}
			tgr.Close()
		}
		wpk.FileExists(p)
		wpk.DirExists(p)
	}
	for _, x := range rs { // and everything as at the first time
		if x.pkg != nil {
			fullCheck(c, x.what+" at the end", x.pkg, &Model{Ents: x.ents})
			c.Ev("reads compared", len(x.ents))
		}
		checkFS(c, x.what+" at the end", x.fsys, x.t)
	}
}

// clash40 tells that a name is a file here and a directory there.
func clash40(ents []*Ent) bool {
	for _, a := range ents {
		for _, b := range ents {
			if strings.HasPrefix(a.Name, b.Name+"/") {
				return true
			}
		}
	}
	return false
}

func scribble(c *C, b []byte) {
	for i := range b {
		b[i] ^= 0xa5
	}
	c.Ev("results overwritten", 1)
}

func readOnce(c *C, x *reader40) {
	var r = c.R
	var e = pickOf(r, x.ents)
	switch r.Int(16) {
	case 0, 1, 2:
		var b, err = fs.ReadFile(x.fsys, e.Name)
		c.NoErr(err, "%s: ReadFile %s", x.what, quote(e.Name))
		c.Check(bytes.Equal(b, e.Data), "%s: ReadFile %s gives %s, want %s", x.what, quote(e.Name), hexShort(b), hexShort(e.Data))
		c.Ev("reads compared", 1)
		scribble(c, b)
		scribble(c, b[:cap(b)])
	case 3, 4:
		var f, err = x.fsys.Open(e.Name)
		c.NoErr(err, "%s: Open %s", x.what, quote(e.Name))
		defer f.Close()
		var b = make([]byte, len(e.Data))
		_, err = io.ReadFull(f, b)
		c.NoErr(err, "%s: reading %s", x.what, quote(e.Name))
		c.Check(bytes.Equal(b, e.Data), "%s: %s reads %s, want %s", x.what, quote(e.Name), hexShort(b), hexShort(e.Data))
		c.Ev("reads compared", 1)
		scribble(c, b)
		if s, ok := f.(io.ReadSeeker); ok { // again by the same handle
			s.Seek(0, io.SeekStart)
			var again, err = io.ReadAll(s)
			c.NoErr(err, "%s: reading %s", x.what, quote(e.Name))
			c.Check(bytes.Equal(again, e.Data), "%s: %s reads %s the second time, want %s", x.what, quote(e.Name), hexShort(again), hexShort(e.Data))
			c.Ev("reads compared", 1)
		}
		if w, ok := f.(io.WriterTo); ok && r.P(1, 2) { // a writer may not keep or change what it is given, but it may fail
			w.WriteTo(failWriter{})
		}
	case 5:
		var l, err = fs.ReadDir(x.fsys, pick(r, ".", path40(e.Name)))
		c.NoErr(err, "%s: ReadDir", x.what)
		for i := range l {
			l[i] = nil
		}
		c.Ev("results overwritten", 1)
	case 6:
		var l, err = fs.Glob(x.fsys, pick(r, "*", "*/*", "a*", "["))
		if err == nil {
			for i := range l {
				l[i] = "overwritten"
			}
			c.Ev("results overwritten", 1)
		}
	case 7:
		if u, ok := x.fsys.(*wpk.Union); ok {
			var l = u.AllKeys()
			sort.Sort(sort.Reverse(sort.StringSlice(l)))
			for i := range l {
				l[i] = "overwritten"
			}
			c.Ev("results overwritten", 1)
		}
	case 8: // a tagset in hand is continued in a copy, as it is demanded
		if x.pkg != nil {
			var ts, _ = x.pkg.GetTagset(e.Name)
			var a = wpk.CopyTagset(ts).Put(601, wpk.StrTag("continuation")).Put(602, wpk.StrTag(strings.Repeat("x", r.Int(300))))
			c.Check(a.Has(601) && a.Has(602), "%s: continued tagset of %s is %s", x.what, quote(e.Name), hexShort(a))
			checkEntry(c, x.what+" after a tagset in hand was continued", x.pkg, e)
			c.Ev("results overwritten", 1)
		}
	case 9:
		if x.pkg != nil {
			var ts, _ = x.pkg.GetTagset(e.Name)
			var cp = wpk.CopyTagset(ts)
			cp = cp.Set(601, wpk.StrTag("x"))
			cp, _ = cp.DelOk(tMtime)
			cp = cp.Set(wpk.TIDpath, wpk.StrTag("q"))
			scribble(c, cp)
		}
	case 10: // the table is walked with an end
		if x.pkg != nil {
			var n = r.Int(4)
			x.pkg.Enum(func(string, wpk.TagsetRaw) bool { n--; return n > 0 })
		}
	case 11:
		checkFS(c, x.what, x.fsys, x.t)
		c.Ev("reads compared", len(x.ents))
	case 12:
		for _, n := range []string{"none", "/abs", "a//b", "..", e.Name + "/", e.Name + "/x", ""} {
			var f, err = x.fsys.Open(n)
			if err == nil {
				f.Close()
			}
			fs.ReadFile(x.fsys, n)
			fs.ReadDir(x.fsys, n)
			fs.Sub(x.fsys, n)
			fs.Stat(x.fsys, n)
		}
	case 13: // a view, with everything it gives overwritten
		var dir = path40(e.Name)
		var sub, err = fs.Sub(x.fsys, dir)
		c.NoErr(err, "%s: Sub %s", x.what, quote(dir))
		fs.WalkDir(sub, ".", func(p string, d fs.DirEntry, err error) error {
			if err == nil && !d.IsDir() {
				if b, err := fs.ReadFile(sub, p); err == nil {
					scribble(c, b)
				}
			}
			return nil
		})
	case 14: // a handle on a directory
		var f, err = x.fsys.Open(path40(e.Name))
		c.NoErr(err, "%s: Open %s", x.what, quote(path40(e.Name)))
		defer f.Close()
		if d, ok := f.(fs.ReadDirFile); ok {
			for k := r.Int(4); k > 0; k-- {
				var l, _ = d.ReadDir(r.Range(-1, 3))
				for i := range l {
					l[i] = nil
				}
			}
		}
		f.Read(make([]byte, 5))
	case 15:
		if x.pkg != nil {
			if r.P(1, 2) {
				var b, err = x.pkg.ReadFile(wpk.PackName)
				if err == nil {
					scribble(c, b)
				}
			}
			if f, err := x.pkg.Open(wpk.PackName); err == nil {
				io.Copy(io.Discard, io.LimitReader(f, int64(r.Int(100))))
				f.Close()
			}
		}
	}
}

func path40(name string) string { return filepath.Dir(name) }

type failWriter struct{}

func (failWriter) Write(p []byte) (int, error) { return len(p) / 2, errors.New("refused") }
