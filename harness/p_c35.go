// C35: places taken by packages. C36: interrupted commands. C37: extraction is complete or fails.
package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"

	lua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"
)

func init() {
	register(&Prop{
		ID: "C35", Level: "exploration", Quick: 40000, Thorough: 400000,
		Rule:  "each case runs a history of sessions with edits, failing sources, refused and repeated flushes, a long run of flushes and append sessions with tables that grow, shrink or stay, the same by a Lua script on disk files, the pack command over packages packed before, or a script which puts the package into itself, and measures after every flush the data area told by the header against the bytes packed, the end of a single file against the end of its table, and the tags file of a split package against the largest table it has had; non-trivial with three flushes",
		MinEv: map[string]int64{"data areas measured": 10000, "tags files measured": 5000, "Lua flushes": 1000, "repeated packings": 50, "sessions lost in Lua": 300, "packages put into itself": 20},
		Run:   runC35,
	})
}

// ---------------------------------------------------------------- C35

func runC35(c *C) {
	var r = c.R
	switch r.Int(24) {
	case 0:
		if r.P(1, 3) {
			selfPut(c)
		} else {
			packTwice(c)
		}
	case 1, 2, 3:
		luaSizes(c)
	case 4, 5, 6, 7, 8, 9, 10, 11:
		longRun(c)
	default:
		var h = newHist(c, r.P(1, 2))
		h.sizes, h.strict = true, r.P(1, 4)
		h.run(r.Range(1, 8))
		if h.ncommit >= 3 {
			c.NonTrivial()
		}
	}
}

// longRun makes many flushes with a table which grows, shrinks, or stays.
func longRun(c *C) {
	var r = c.R
	var h = newHist(c, r.P(2, 3))
	h.sizes, h.strict, h.small = true, false, true
	h.begin()
	for k := r.Range(0, 20); k > 0; k-- {
		h.put(fmt.Sprintf("start/%d", k))
	}
	var way = r.Int(5)
	var next = 0
	c.T("long run, way %d", way)
	for k := r.Range(20, 60); k > 0; k-- {
		switch way {
		case 0: // nothing is changed
		case 1: // one more file each time
			h.put(fmt.Sprintf("file%d", next))
			next++
		case 2: // up and down
			if len(h.m.Ents) > 0 && r.P(1, 2) {
				h.editTable()
			} else {
				h.put(fmt.Sprintf("file%d", next))
				next++
			}
		case 3: // info of different lengths
			h.m.Info = []MTag{{500, content(r, r.Int(300))}}
			h.s.pkg.SetInfo(mkTagset(h.m.Info))
		default:
			h.edit()
		}
		h.sync()
		switch r.Int(6) {
		case 0:
			h.reopen()
			h.append()
		case 1:
			h.append()
		default:
			if !h.s.split {
				h.append()
			} else if r.P(1, 12) { // lost session
				h.put(fmt.Sprintf("lost%d", next))
				next++
				h.reopen()
				h.append()
			}
		}
	}
	h.sync()
	h.check()
	c.NonTrivial()
}

// luaSizes makes the same by a Lua object on disk.
func luaSizes(c *C) {
	var r = c.R
	var l = newLvm(c)
	defer l.ls.Close()
	var split = r.P(2, 3)
	var tpath, dpath = c.Path("a.wpk"), ""
	var args = luaStr(tpath)
	if split {
		tpath, dpath = c.Path("b.wpt"), c.Path("b.wpf")
		args = luaStr(tpath) + ", " + luaStr(dpath)
	}
	if r.P(1, 3) { // files of another package are there
		writeFile(c, tpath, content(r, 5000))
		if split {
			writeFile(c, dpath, content(r, 5000))
		}
	}
	var srcs []int
	for i := 0; i < 3; i++ {
		var b = content(r, r.Int(3000))
		srcs = append(srcs, len(b))
		writeFile(c, c.Path(fmt.Sprintf("src%d", i)), b)
	}
	var packed, n = 0, 0
	var maxTable, maxEnd uint64
	var names []string
	var maxData int
	var measure = func(what string) {
		var b, err = os.ReadFile(tpath)
		c.Env(err)
		hd, err := decHdr(b)
		c.NoErr(err, "header")
		maxTable = max(maxTable, hd.FttSize)
		c.Check(hd.DatSize == uint64(packed), "after %s the data area has %d bytes, packed were %d", what, hd.DatSize, packed)
		c.Ev("Lua flushes", 1)
		l.want(lua.LNumber(packed), "return pkg.datasize")
		if split {
			checkTagsFile(c, "after "+what, len(b), maxTable)
			var fi, err = os.Stat(dpath)
			c.Env(err)
			maxData = max(maxData, packed)
			c.Check(fi.Size() >= int64(packed) && fi.Size() <= int64(maxData), "after %s the data file has %d bytes, packed were %d, %d with a lost session", what, fi.Size(), packed, maxData)
			return
		}
		maxEnd = max(maxEnd, hd.FttOff+hd.FttSize)
		c.Check(hd.FttOff == hdrLen+uint64(packed) && uint64(len(b)) <= maxEnd, "after %s the file has %d bytes with the table at %d, packed were %d, farthest end %d", what, len(b), hd.FttOff, packed, maxEnd)
	}
	l.must(0, "pkg = wpk.new()")
	l.must(0, "pkg:begin(%s)", args)
	for k := r.Range(5, 30); k > 0; k-- {
		for e := r.Int(4); e > 0; e-- {
			switch r.Int(7) {
			case 0, 1:
				var d = strings.Repeat("x", r.Int(200))
				l.must(-1, "pkg:putdata(\"n%d\", %s)", n, luaStr(d))
				packed += len(d)
				names = append(names, fmt.Sprintf("n%d", n))
			case 2:
				var i = r.Int(3)
				l.must(-1, "pkg:putfile(\"n%d\", %s)", n, luaStr(c.Path(fmt.Sprintf("src%d", i))))
				packed += srcs[i]
				names = append(names, fmt.Sprintf("n%d", n))
			case 3:
				if len(names) > 0 {
					l.must(-1, "pkg:putalias(\"%s\", \"n%d\")", pickOf(r, names), n)
					names = append(names, fmt.Sprintf("n%d", n))
				}
			case 4:
				if len(names) > 0 {
					var i = r.Int(len(names))
					l.must(-1, "pkg:rename(\"%s\", \"n%d\")", names[i], n)
					names[i] = fmt.Sprintf("n%d", n)
				}
			case 5:
				if len(names) > 0 {
					var i = r.Int(len(names))
					l.must(-1, "pkg:delalias(\"%s\")", names[i])
					names = append(names[:i], names[i+1:]...)
				}
			case 6:
				if len(names) > 0 {
					l.must(-1, "pkg:settag(\"%s\", \"comment\", %s)", pickOf(r, names), luaStr(strings.Repeat("c", r.Int(100))))
				}
			}
			n++
		}
		if split && r.P(2, 3) {
			l.must(0, "pkg:flush()")
			measure("flush")
			if r.P(1, 6) { // the session is lost, its bytes are written over by the next one
				var lost = r.Range(1, 3000)
				l.must(-1, "pkg:putdata(\"lost%d\", %s)", n, luaStr(strings.Repeat("L", lost)))
				maxData = max(maxData, packed+lost)
				l.must(0, "pkg = wpk.new()")
				l.must(0, "pkg:load(%s)", args)
				l.must(0, "pkg:append()")
				c.Ev("sessions lost in Lua", 1)
			}
			continue
		}
		l.must(0, "pkg:finalize()")
		measure("finalize")
		if r.P(1, 3) {
			l.must(0, "pkg = wpk.new()")
			l.must(0, "pkg:load(%s)", args)
		}
		l.must(0, "pkg:append()")
	}
	l.must(0, "pkg:finalize()")
	measure("finalize")
	c.NonTrivial()
}

// packTwice packs over what was packed before.
func packTwice(c *C) {
	var r = c.R
	var split = r.P(1, 2)
	var dst = c.Path("out.wpk")
	var fill = func(name string, n int) (sum int) {
		for i := 0; i < n; i++ {
			var f = c.Path(name, fmt.Sprintf("d%d", r.Int(3)), fmt.Sprintf("f%d", i))
			c.Env(os.MkdirAll(filepath.Dir(f), 0755))
			var b = content(r, r.Int(4000))
			writeFile(c, f, b)
			sum += len(b)
		}
		return
	}
	var dirs, sums = []string{"s0", "s1", "s2"}, []int{}
	for _, d := range dirs {
		c.Env(os.Mkdir(c.Path(d), 0755))
		sums = append(sums, fill(d, pick(r, 0, 1, 3, 40)))
	}
	for k := r.Range(2, 4); k > 0; k-- {
		var i = r.Int(3)
		var args = []string{"-src", c.Path(dirs[i]), "-dst", dst}
		if split {
			args = append(args, "-split")
		}
		for _, a := range []string{"-mime", "-link"} {
			if r.P(1, 3) {
				args = append(args, a)
			}
		}
		var out = (&binRun{name: "pack", args: args}).run(c)
		c.Check(finished(out), "pack does not finish: %s", tail(out, 1000))
		var tpath, dpath = dst, dst
		if split {
			tpath, dpath = wpk.MakeTagsPath(dst), wpk.MakeDataPath(dst)
		}
		var b, err = os.ReadFile(tpath)
		c.Env(err)
		hd, err := decHdr(b)
		c.NoErr(err, "header")
		c.Check(hd.DatSize == uint64(sums[i]), "the data area has %d bytes, packed were %d", hd.DatSize, sums[i])
		if split {
			checkTagsFile(c, "after packing", len(b), hd.FttSize)
			var fi, err = os.Stat(dpath)
			c.Env(err)
			c.Check(fi.Size() == int64(sums[i]), "the data file has %d bytes, packed were %d", fi.Size(), sums[i])
		} else {
			c.Check(uint64(len(b)) == hdrLen+uint64(sums[i])+hd.FttSize, "the package has %d bytes, header, %d of files and %d of table are in it", len(b), sums[i], hd.FttSize)
		}
		c.Ev("repeated packings", 1)
	}
	c.NonTrivial()
}

// ---------------------------------------------------------------- C37

func init() {
	register(&Prop{
		ID: "C37", Level: "exploration", Quick: 16000, Thorough: 160000,
		Rule:   "each case makes one or more packages and a destination with files in it, plants at most one of some thirty faults (place taken by a directory or a file, refused permissions, full device, file size limit, truncated or missing data, broken or unfinished package, names that can not be files, places of the packages themselves by name or by links, times that may not be set), runs the extract command as an unprivileged user and compares the destination and the packages with what they have to be; if it says that it is done, every file must be there with its bytes and, if asked, its times; without a fault it must be done; non-trivial with a fault or two files",
		MinEv:  map[string]int64{"extractions finished": 1000, "extractions failed": 1000, "files compared": 3000, "times compared": 500, "packages guarded": 3000, "other files guarded": 3000},
		Assume: []string{"the extract command of the working tree is run as user 65534; a write that this user may not do is not seen"},
		Run:    runC37,
	})
}

type pkg37 struct {
	tpath, dpath string
	split        bool
	ents         []*Ent
}

func (p *pkg37) parts() []string {
	if p.split {
		return []string{p.tpath, p.dpath}
	}
	return []string{p.tpath}
}

func runC37(c *C) {
	var r = c.R
	c.Env(os.Chmod(c.Dir(), 0755))
	c.Env(os.MkdirAll(c.Path("src"), 0755))
	var dst = c.Path("dst")
	var dstarg = dst
	var fault string
	if r.P(3, 5) {
		fault = pick(r, "dir at file", "file at dir", "file at parent", "foreign root", "foreign dir", "foreign file", "foreign times", "full device", "size limit", "cut data", "no data part", "broken package",
			"unfinished package", "foreign bytes", "own name", "own data part", "other package", "hard link", "symbolic link", "outside", "collision", "long name", "zero byte", "no source", "no destination", "bad entry",
			"empty name", "data in second", "unreadable package", "unreadable data", "destination is file")
	}
	var withTimes = r.P(1, 2) || fault == "foreign times"
	var mode = pickOf(r, modes)
	var npkg = pick(r, 1, 1, 1, 2, 3)
	if fault == "other package" || fault == "data in second" {
		npkg = max(npkg, 2)
	}
	var forceSplit = fault == "own data part" || fault == "no data part" || fault == "cut data" || fault == "data in second" || fault == "unreadable data"
	var split = r.P(1, 2) || forceSplit
	var pkgs []*pkg37
	var pool = srcNames(r, 10) // without conflicts
	for i := 0; i < npkg; i++ {
		var p = &pkg37{split: split}
		if !forceSplit {
			p.split = r.P(1, 2)
		}
		shuffle(r, pool)
		for _, n := range pool[:r.Range(1, min(6, len(pool)))] {
			if strings.ContainsAny(n, "\n$%") || len(n) > 900 {
				continue
			}
			var size = genSize(r)
			if r.P(1, 12) {
				size = r.Int(400000)
			}
			var e = &Ent{Name: n, Data: content(r, size)}
			switch r.Int(5) {
			case 0:
				e.Tags = append(e.Tags, timeTag(int64(r.Int(1<<31)), r.Int(1000000000)))
			case 1, 2, 3:
				e.Tags = append(e.Tags, timeTag(int64(r.Int(1<<31)), r.Int(1000000000)))
				e.Tags = append(e.Tags, MTag{tAtime, append(encUint(uint64(r.Int(1<<31)), 8), encUint(uint64(r.Int(1000000000)), 4)...)})
			}
			p.ents = append(p.ents, e)
		}
		pkgs = append(pkgs, p)
	}
	var first = pkgs[0]
	var hit = pickOf(r, pkgs)
	if len(hit.ents) == 0 {
		hit.ents = []*Ent{{Name: "x", Data: content(r, 100)}}
	}
	var victim = pickOf(r, hit.ents)
	var add = func(p *pkg37, name string) {
		for i, e := range p.ents {
			if e.Name == name {
				p.ents = append(p.ents[:i], p.ents[i+1:]...)
				break
			}
		}
		p.ents = append(p.ents, &Ent{Name: name, Data: content(r, r.Range(1, 3000))})
		shuffle(r, p.ents)
	}
	for i, p := range pkgs { // paths are needed before
		p.tpath = c.Path("src", fmt.Sprintf("pack%d.wpk", i))
		p.dpath = p.tpath
		if p.split {
			p.tpath, p.dpath = wpk.MakeTagsPath(p.tpath), wpk.MakeDataPath(p.dpath)
		}
	}
	switch fault { // faults in what is packed
	case "own name":
		dst = c.Path("src")
		add(hit, filepath.Base(hit.tpath))
	case "own data part":
		dst = c.Path("src")
		add(hit, filepath.Base(hit.dpath))
	case "other package":
		dst = c.Path("src")
		var o = pickOf(r, pkgs)
		for o == hit {
			o = pickOf(r, pkgs)
		}
		add(hit, filepath.Base(pickOf(r, o.parts())))
	case "outside":
		add(hit, pick(r, "../out", "a/../../out", "..", "../src/x"))
	case "collision":
		add(hit, "q")
		add(hit, pick(r, "q/w", "q/w/e"))
	case "long name":
		add(hit, strings.Repeat("n", r.Range(256, 300)))
	case "zero byte":
		add(hit, "a\x00b")
	case "empty name":
		add(hit, pick(r, "", ".", "/"))
	case "full device":
		victim.Data = content(r, r.Range(1, 5000))
	case "size limit":
		victim.Data = content(r, r.Range(3000, 20000))
	case "cut data":
		victim.Data = content(r, r.Range(1, 5000))
	}
	if dstarg = dst; r.P(1, 4) {
		dstarg += "/"
	}
	var paths []string
	for i, p := range pkgs {
		packDisk(c, fmt.Sprintf("src/pack%d.wpk", i), p.split, p.ents)
		paths = append(paths, p.tpath)
	}
	// the destination with something in it
	c.Env(os.MkdirAll(dst, 0755))
	var all = map[string]*Ent{} // the last one wins
	var times = map[string]int{}
	for _, p := range pkgs {
		for _, e := range p.ents {
			all[filepath.Clean(e.Name)] = e
			times[filepath.Clean(e.Name)]++
		}
	}
	var free = func(rel string) bool {
		if _, ok := all[rel]; ok {
			return false
		}
		for n := range all {
			if strings.HasPrefix(n, rel+"/") || strings.HasPrefix(rel, n+"/") {
				return false
			}
		}
		return true
	}
	for _, rel := range []string{"other.txt", "sub/other", "a.old", ".keep", "dir.d/deep/er"} {
		if r.P(1, 2) && free(rel) {
			c.Env(os.MkdirAll(filepath.Dir(filepath.Join(dst, rel)), 0755))
			writeFile(c, filepath.Join(dst, rel), content(r, r.Int(100)))
		}
	}
	var place = filepath.Join(dst, victim.Name)
	for _, n := range sortedKeys(all) { // older files
		var e = all[n]
		if r.P(1, 4) && free37(dst, n) && !strings.Contains(n, "\x00") && n != "." && len(n) < 250 && filepath.IsLocal(n) && fault != "collision" && !isPart(pkgs, filepath.Join(dst, n)) && n != victim.Name {
			c.Env(os.MkdirAll(filepath.Dir(filepath.Join(dst, n)), 0755))
			writeFile(c, filepath.Join(dst, n), content(r, len(e.Data)+r.Int(300)))
		}
	}
	chownAll(c, dst)
	chownAll(c, c.Path("src"))
	// faults of the destination and the packages
	var foreign = func(fpath string, mode os.FileMode) {
		c.Env(os.Lchown(fpath, 0, 0))
		c.Env(os.Chmod(fpath, mode))
	}
	var mkdirs = func(d string) {
		c.Env(os.MkdirAll(d, 0755))
		chownAll(c, dst)
	}
	var fsz = 0
	var cutTo = func(fpath string, n int64) { c.Env(os.Truncate(fpath, n)) }
	var sizeOf = func(fpath string) int64 {
		var fi, err = os.Stat(fpath)
		c.Env(err)
		return fi.Size()
	}
	switch fault {
	case "dir at file":
		mkdirs(place)
	case "file at dir", "file at parent":
		var i = strings.IndexByte(victim.Name, '/')
		if fault == "file at parent" {
			i = strings.LastIndexByte(victim.Name, '/')
		}
		if i <= 0 {
			fault = ""
			break
		}
		var at = filepath.Join(dst, victim.Name[:i])
		mkdirs(filepath.Dir(at))
		os.RemoveAll(at)
		writeFile(c, at, []byte("here is a file"))
		c.Env(os.Lchown(at, 65534, 65534))
	case "foreign root":
		if fi, err := os.Lstat(place); err == nil && fi.Mode().IsRegular() {
			c.Env(os.Remove(place))
		}
		foreign(dst, 0755)
	case "foreign dir":
		if filepath.Dir(place) == dst {
			foreign(dst, 0755)
		} else {
			mkdirs(filepath.Dir(place))
			foreign(filepath.Dir(place), 0755)
		}
	case "foreign file":
		mkdirs(filepath.Dir(place))
		writeFile(c, place, []byte("foreign"))
		foreign(place, 0444)
	case "foreign times":
		mkdirs(filepath.Dir(place))
		writeFile(c, place, []byte("foreign"))
		foreign(place, 0666)
	case "full device":
		if _, err := os.Stat("/dev/full"); err != nil {
			fault = ""
			break
		}
		mkdirs(filepath.Dir(place))
		os.Remove(place)
		c.Env(os.Symlink("/dev/full", place))
	case "size limit":
		fsz = 1
	case "cut data":
		cutTo(hit.dpath, int64(r.Int(int(sizeOf(hit.dpath)))))
	case "no data part":
		c.Env(os.Remove(hit.dpath))
	case "data in second":
		cutTo(pkgs[1].dpath, sizeOf(pkgs[1].dpath)/2)
	case "broken package":
		cutTo(hit.tpath, int64(r.Int(int(sizeOf(hit.tpath)))))
	case "unfinished package", "foreign bytes", "bad entry":
		var b, err = os.ReadFile(hit.tpath)
		c.Env(err)
		switch fault {
		case "unfinished package":
			copy(b, sigBuild)
		case "foreign bytes":
			b = content(r, len(b))
			b[0] = 0
		case "bad entry":
			var hd, err = decHdr(b)
			c.NoErr(err, "header")
			var bad = hit.ents
			bad = append(bad[:len(bad):len(bad)], &Ent{Name: "badentry", Data: nil})
			var ftt []byte
			var put = func(t []byte) { ftt = append(append(ftt, byte(len(t)), byte(len(t)>>8)), t...) }
			put(nil)
			var off = hd.DatOff
			for _, e := range bad {
				var size = uint64(len(e.Data))
				var o = off
				if e.Name == "badentry" {
					o, size = off-uint64(r.Int(50)), uint64(r.Range(51, 5000))
				}
				put(encTags(append([]MTag{{tOffset, minUint(o)}, {tSize, minUint(size)}, {tPath, []byte(e.Name)}}, e.Tags...)))
				off += uint64(len(e.Data))
			}
			ftt = append(ftt, 0, 0)
			hd.Count, hd.FttSize = uint64(len(bad)), uint64(len(ftt))
			b = append(b[:hd.FttOff:hd.FttOff], ftt...)
			copy(b, hd.enc())
			all["badentry"] = &Ent{Name: "badentry", Data: []byte("can not be")}
		}
		writeFile(c, hit.tpath, b)
	case "hard link":
		mkdirs(filepath.Dir(place))
		os.Remove(place)
		c.Env(os.Link(pickOf(r, pickOf(r, pkgs).parts()), place))
	case "symbolic link":
		mkdirs(filepath.Dir(place))
		os.Remove(place)
		c.Env(os.Symlink(pickOf(r, pickOf(r, pkgs).parts()), place))
	case "no source":
		var l = append([]string{c.Path("src", "absent.wpk")}, paths...)
		shuffle(r, l)
		paths = l
	case "no destination":
		dstarg = c.Path("dst", "absent")
	case "destination is file":
		dstarg = c.Path("dst", "isfile")
		writeFile(c, dstarg, []byte("file"))
	case "unreadable package":
		foreign(hit.tpath, 0600)
	case "unreadable data":
		foreign(hit.dpath, 0600)
	}
	c.T("fault %q at %s, packages %v, first %s", fault, quote(victim.Name), npkg, quoteAll(entNames(first.ents)))
	if fault != "" || len(all) >= 2 {
		c.NonTrivial()
	}
	var before = snap(dst)
	var srcs = map[string][]byte{}
	for _, p := range pkgs {
		for _, f := range p.parts() {
			srcs[f], _ = os.ReadFile(f)
		}
	}
	var args = []string{"-src", strings.Join(paths, ";"), "-dst", dstarg, "-pm", mode}
	if withTimes {
		args = append(args, "-ft")
	}
	if r.P(1, 3) && fault != "no destination" {
		args = append(args, "-md")
	}
	var out = (&binRun{name: "extract", args: args, user: true, fsz: fsz}).run(c)
	var done = finished(out)
	if done {
		c.Ev("extractions finished", 1)
	} else {
		c.Ev("extractions failed", 1)
		c.Check(fault != "", "nothing is wrong, but extract is not done: %s", tail(out, 1500))
	}
	// the packages are as they were
	for _, f := range sortedKeys(srcs) {
		var b, err = os.ReadFile(f)
		if srcs[f] == nil && err != nil {
			continue
		}
		c.Check(err == nil && bytes.Equal(b, srcs[f]), "after extraction (fault %q) the package file %s has %d bytes (%v), it had %d\nextract says: %s", fault, filepath.Base(f), len(b), err, len(srcs[f]), head(out, 1000))
		c.Ev("packages guarded", 1)
	}
	// times before the files are read
	var stats = map[string]syscall.Stat_t{}
	for n := range all {
		var st syscall.Stat_t
		if syscall.Lstat(filepath.Join(dst, n), &st) == nil {
			stats[n] = st
		}
	}
	var exact = func(n string, e *Ent, why string) {
		var st, ok = stats[n]
		c.Check(ok, "%s, but there is no %s (fault %q): %s", why, quote(n), fault, tail(out, 1500))
		if st.Mode&syscall.S_IFMT == syscall.S_IFLNK && len(e.Data) == 0 {
			return
		}
		c.Check(st.Mode&syscall.S_IFMT == syscall.S_IFREG, "%s, but %s is not a file (mode %o, fault %q): %s", why, quote(n), st.Mode, fault, tail(out, 1500))
		var b, err = os.ReadFile(filepath.Join(dst, n))
		c.Check(err == nil && bytes.Equal(b, e.Data), "%s, but %s has %d bytes %s (%v), want %d bytes %s (fault %q): %s", why, quote(n), len(b), hexShort(b), err, len(e.Data), hexShort(e.Data), fault, tail(out, 1500))
		c.Ev("files compared", 1)
	}
	if done {
		for _, n := range sortedKeys(all) {
			var e = all[n]
			if fault == "collision" || !filepath.IsLocal(n) || n == "." {
				c.Fail("extract is done, but %s can not be extracted: %s", quote(n), tail(out, 1500))
			}
			exact(n, e, "extract is done")
			var mt, mok = getTag(e.Tags, tMtime)
			var at, aok = getTag(e.Tags, tAtime)
			if withTimes && mok && aok {
				var st = stats[n]
				var m, a = decTime(mt), decTime(at)
				if st.Mtim.Sec != m.Unix() || st.Mtim.Nsec != int64(m.Nanosecond()) || st.Atim.Sec != a.Unix() || st.Atim.Nsec != int64(a.Nanosecond()) {
					c.Fail("extract -ft is done, but times of %s are %d.%09d and %d.%09d, want %v and %v (fault %q)", quote(n), st.Mtim.Sec, st.Mtim.Nsec, st.Atim.Sec, st.Atim.Nsec, m.UnixNano(), a.UnixNano(), fault)
				}
				c.Ev("times compared", 1)
			}
		}
	} else {
		for _, s := range reReported.FindAllStringSubmatch(out, -1) {
			var n = filepath.Clean(s[1])
			if e := all[n]; e != nil && times[n] == 1 && fault != "collision" && fault != "foreign times" {
				exact(n, e, "extract reports the file")
			}
		}
	}
	// the rest is as it was
	var after = snap(dst)
	for _, k := range sortedKeys(before) {
		if all[k] != nil {
			continue
		}
		c.Check(before[k] == after[k], "the destination had %s (%s), after extraction it is %q", quote(k), before[k], after[k])
		c.Ev("other files guarded", 1)
	}
	for _, k := range sortedKeys(after) {
		if _, ok := before[k]; ok || all[k] != nil {
			continue
		}
		var parent = false
		for n := range all {
			parent = parent || strings.HasPrefix(n, k+"/")
		}
		c.Check(parent, "extraction made %s (%s)", quote(k), after[k])
	}
}

var reReported = regexp.MustCompile(`(?m)^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d #\d+ +\d+ bytes   (.*)$`)

func isPart(pkgs []*pkg37, fpath string) bool {
	for _, p := range pkgs {
		for _, f := range p.parts() {
			if f == fpath {
				return true
			}
		}
	}
	return false
}

// free37 tells that nothing is at the name and its parents are directories, if any.
func free37(dst, n string) bool {
	if _, err := os.Lstat(filepath.Join(dst, n)); err == nil {
		return false
	}
	for i := range n {
		if n[i] == '/' {
			if fi, err := os.Lstat(filepath.Join(dst, n[:i])); err == nil && !fi.IsDir() {
				return false
			}
		}
	}
	return true
}

func chownAll(c *C, dir string) {
	c.Env(filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		return os.Lchown(p, 65534, 65534)
	}))
}

// selfPut puts the package that is written into itself by a script; it runs under a limit of file size.
func selfPut(c *C) {
	var r = c.R
	var split = r.P(1, 2)
	var tpath, dpath = c.Path("w.wpk"), c.Path("w.wpk")
	var args = luaStr(tpath)
	if split {
		tpath, dpath = c.Path("w.wpt"), c.Path("w.wpf")
		args = luaStr(tpath) + ", " + luaStr(dpath)
	}
	var self = pick(r, tpath, dpath, dpath)
	if r.P(1, 3) { // by another name
		self = c.Path("link")
		c.Env(os.Symlink(pick(r, tpath, dpath), self))
	}
	var text = strings.Repeat("text ", r.Range(1, 2000))
	var script = fmt.Sprintf(`pkg = wpk.new()
pkg:begin(%s)
pkg:putdata("a", %s)
print(pcall(function() pkg:putfile("self", %s) end))
pkg:putdata("b", "behind")
pkg:finalize()
print("step end")
`, args, luaStr(text), luaStr(self))
	var fpath = c.Path("s.lua")
	writeFile(c, fpath, []byte(script))
	var out = (&binRun{name: "build", args: []string{fpath}, fsz: 4000}).run(c)
	c.Check(strings.Contains(out, "step end"), "a script which puts the package into itself does not complete: %s", tail(out, 1000))
	var got = readState(c, "package put into itself", tpath)
	c.Check(got != nil && got["a"] == text && got["b"] == "behind", "package put into itself is %v", got)
	var fi, err = os.Stat(dpath)
	c.Env(err)
	c.Check(fi.Size() < int64(3*len(text)+5000), "package put into itself has %d bytes for %d of data", fi.Size(), len(text))
	c.Ev("packages put into itself", 1)
	c.NonTrivial()
}
