// C16 extraction is confined, C17 pack and extract reproduce a tree.
package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"io/fs"
	"mime"
	"net/http"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
)

func init() {
	register(&Prop{
		ID: "C16", Level: "exploration", Quick: 4000, Thorough: 40000,
		Rule:   "each case makes a package by the independent encoder with parent references, absolute paths, backslashes, doubled and odd separators, variables and zero bytes in the names (aimed at real neighbours of the destination), or with files a careless tool could restore as links and others to write through them, runs the extract command on it as an unprivileged user whose whole writable world is the scratch tree, in every opening mode and with several spellings of the destination, and compares the tree around the destination before and after (names, types, modes, sizes, times, content); non-trivial when a name, taken literally, leads outside",
		MinEv:  map[string]int64{"names leading outside": 2000, "extractions finished": 100, "files extracted": 300, "link tags": 800},
		Assume: []string{"the extract command of the working tree is run as user 65534; a write that this user may not do is not seen"},
		Run:    runC16,
	})
	register(&Prop{
		ID: "C17", Level: "exploration", Quick: 3000, Thorough: 30000,
		Rule:  "each case makes one or more source trees (odd but legal names, empty and large files, links, destination inside of the source, files that can not be read, equal names in two sources), runs the pack command with a choice of flags and the extract command in a choice of modes, and compares the extracted tree with the sources and the sources with their state before; with a fault planted the tool must not report that it is done; non-trivial when a tree with at least two files came back or a fault was met",
		MinEv: map[string]int64{"files compared": 3000, "faults": 200, "mime tags": 300, "link tags": 300, "times restored": 300},
		Run:   runC17,
	})
}

// snap is the state of a tree: relative name to a description.
func snap(root string, skip ...string) map[string]string {
	var m = map[string]string{}
	filepath.WalkDir(root, func(fpath string, d fs.DirEntry, err error) error {
		for _, s := range skip {
			if fpath == s {
				if d != nil && d.IsDir() {
					return fs.SkipDir
				}
				return nil
			}
		}
		var rel, _ = filepath.Rel(root, fpath)
		if err != nil {
			m[rel] = "error " + err.Error()
			return nil
		}
		var st syscall.Stat_t
		if syscall.Lstat(fpath, &st) != nil {
			return nil
		}
		var s = fmt.Sprintf("%o %d", st.Mode, st.Uid)
		switch st.Mode & syscall.S_IFMT {
		case syscall.S_IFREG:
			var b, _ = os.ReadFile(fpath)
			s += fmt.Sprintf(" size %d mtime %d.%d %x", st.Size, st.Mtim.Sec, st.Mtim.Nsec, sha256.Sum256(b))
		case syscall.S_IFLNK:
			var l, _ = os.Readlink(fpath)
			s += " -> " + l
		}
		m[rel] = s
		return nil
	})
	return m
}

func diffSnap(a, b map[string]string) string {
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("%q appeared: %s", k, b[k])
		}
	}
	for _, k := range sortedKeys(a) {
		if _, ok := b[k]; !ok {
			return fmt.Sprintf("%q is gone", k)
		}
		if a[k] != b[k] {
			return fmt.Sprintf("%q changed: %s, was %s", k, b[k], a[k])
		}
	}
	return ""
}

type binRun struct {
	name string
	args []string
	dir  string
	env  []string
	user bool // unprivileged
	fsz  int  // file size limit in KiB
	nof  int  // open files limit
}

// run returns the output; a command that does not end is a violation.
func (b *binRun) run(c *C) string {
	var ctx, cancel = context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	var prog = filepath.Join(*flBins, b.name)
	var cmd = exec.CommandContext(ctx, prog, b.args...)
	if b.fsz > 0 {
		cmd = exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", fmt.Sprintf("ulimit -f %d; exec \"$0\" \"$@\"", b.fsz*2), prog}, b.args...)...)
	}
	if b.nof > 0 {
		cmd = exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", fmt.Sprintf("ulimit -n %d; exec \"$0\" \"$@\"", b.nof), prog}, b.args...)...)
	}
	cmd.Dir = b.dir
	if cmd.Dir == "" {
		cmd.Dir = c.Dir()
	}
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + c.Dir()}, b.env...)
	if b.user {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	}
	var out, err = cmd.CombinedOutput()
	if ctx.Err() != nil {
		c.Fail("%s %v does not end", b.name, b.args)
	}
	if err != nil && cmd.ProcessState == nil {
		c.Env(err)
	}
	c.T("%s %s -> %s", b.name, strings.Join(b.args, " "), tail(strings.ReplaceAll(string(out), c.Dir(), "DIR"), 300))
	if bytes.Contains(out, []byte("panic:")) || bytes.Contains(out, []byte("fatal error:")) {
		c.Fail("%s %v crashes: %s", b.name, b.args, head(string(out), 2000))
	}
	return string(out)
}

type rawEnt struct {
	Name string
	Data []byte
	Tags []MTag
}

// encImage encodes a package from entries with any names.
func encImage(ents []rawEnt, info []MTag, split bool) (tags, dat []byte) {
	var base uint64 = hdrLen
	if split {
		base = 0
	}
	var ftt []byte
	var put = func(b []byte) {
		ftt = append(ftt, byte(len(b)), byte(len(b)>>8))
		ftt = append(ftt, b...)
	}
	put(encTags(info))
	for _, e := range ents {
		put(encTags(append([]MTag{{tOffset, minUint(base + uint64(len(dat)))}, {tSize, minUint(uint64(len(e.Data)))}, {tPath, []byte(e.Name)}}, e.Tags...)))
		dat = append(dat, e.Data...)
	}
	ftt = append(ftt, 0, 0)
	var h = RHdr{Sig: sigReady, Count: uint64(len(ents)), FttSize: uint64(len(ftt)), DatOff: base, DatSize: uint64(len(dat))}
	if split {
		h.FttOff = hdrLen
		return append(h.enc(), ftt...), dat
	}
	h.FttOff = base + uint64(len(dat))
	tags = append(append(h.enc(), dat...), ftt...)
	return tags, tags
}

// ---------------------------------------------------------------- C16

func runC16(c *C) {
	var r = c.R
	c.Env(os.Chmod(c.Dir(), 0755))
	// the whole world of the unprivileged user
	var root = c.Path("world")
	var mk = func(rel string) string {
		var d = filepath.Join(root, rel)
		c.Env(os.MkdirAll(d, 0755))
		return d
	}
	var depth = r.Range(1, 4)
	var up []string
	for i := 0; i < depth; i++ {
		up = append(up, string(rune('p'+i)))
	}
	var updir = strings.Join(up, "/")
	var dst = mk(updir + "/dst")
	mk(updir + "/dst2/sub")
	mk(updir + "/neighbour/sub")
	mk("p/other")
	mk("cwd")
	mk("home")
	var victims = []string{updir + "/victim.txt", updir + "/dst2/victim.txt", updir + "/dst2/sub/v", updir + "/neighbour/victim", "p/other/victim", "victim", "cwd/victim", "home/victim", updir + "/dstvictim"}
	for _, v := range victims {
		writeFile(c, filepath.Join(root, v), []byte("victim "+v))
	}
	if r.P(1, 3) { // something is in the destination already
		mk(updir + "/dst/sub")
		writeFile(c, filepath.Join(dst, "old.txt"), []byte("old"))
	}
	c.Env(filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		return os.Lchown(p, 65534, 65534)
	}))
	var unique = fmt.Sprintf("wpkverif-%d-%d-%d", os.Getpid(), c.N, r.Int(1<<30))
	// a relative spelling of a path of the world seen from the destination
	var aim = func() string {
		var v = pickOf(r, victims)
		if r.P(1, 3) {
			v = path.Join(path.Dir(v), pick(r, "new.txt", "newdir/new.txt"))
		}
		switch r.Int(5) {
		case 0: // absolute
			return filepath.Join(root, v)
		case 1: // through the root of the file system
			return strings.Repeat("../", 40) + strings.TrimPrefix(filepath.Join(root, v), "/")
		}
		var rel, _ = filepath.Rel(dst, filepath.Join(root, v))
		return rel
	}
	var evil = func() string {
		var s = aim()
		for k := r.Int(3); k > 0; k-- {
			switch r.Int(12) {
			case 0:
				s = strings.ReplaceAll(s, "/", `\`)
			case 1:
				s = backslash(r, s)
			case 2:
				s = strings.ReplaceAll(s, "/", pick(r, "//", "/./", `/\`, `\/`, "/.//"))
			case 3:
				s = pick(r, "sub/../", "a/b/../../", "./", "/", "//", `\`, `\\`, "/./", "///", "././", "old.txt/../", "a/../") + s
			case 4:
				s += pick(r, "", "/", "/.", `\`)
			case 5:
				s = strings.Replace(s, "..", pick(r, "....", "...", ".. ", ".\x00.", "%2e%2e", "..;"), 1)
			case 6:
				s = pick(r, "$HOME/victim", "${HOME}/victim", "%HOME%/victim", "$UPDIR/victim.txt", "${UPDIR}/victim.txt", "%UPDIR%/victim.txt", "%UPDIR%\\victim.txt", "~/victim", "~")
			case 7:
				s = "C:" + s
			case 8:
				s = strings.Repeat("../", 30) + pick(r, "tmp/", "dev/shm/", "var/tmp/") + unique
			case 9:
				s = pick(r, "", "..", ".", "/", "../", "/..", "a/..", `..\`, `..\..`, "../..", "sub/../..", "...", "..../x", "..x/y", "x../y")
			case 10:
				s = "dst/../" + s
			case 11:
				s = strings.Replace(s, "../", "..\\", 1)
			}
		}
		return s
	}
	var split = r.P(1, 2)
	var lnkname, lnkto = pick(r, "lnk", "sub/lnk", "old.txt", "lnk.d/lnk"), aim()
	var mkpkg = func(name string, bad, links bool) string {
		var ents []rawEnt
		var used = map[string]bool{}
		for _, n := range fsNames(r, r.Range(0, 4)) {
			ents = append(ents, rawEnt{n, content(r, r.Int(50)), nil})
			used[n] = true
		}
		if bad {
			for k := r.Range(1, 3); k > 0; k-- {
				var s = evil()
				if used[s] || len(s) > 4000 {
					continue
				}
				used[s] = true
				var lit = strings.ReplaceAll(s, `\`, "/")
				if !strings.HasPrefix(path.Join(dst, lit)+"/", dst+"/") || strings.HasPrefix(lit, "/") || strings.Contains(lit, "UPDIR") {
					c.Ev("names leading outside", 1)
					c.NonTrivial()
				}
				var e = rawEnt{s, []byte("evil"), nil}
				if r.P(1, 2) {
					e.Tags = []MTag{timeTag(1000, 0), {tAtime, append(encUint(1000, 8), encUint(0, 4)...)}, {tLink, []byte(aim())}, {tAttr, encUint(04777, 4)}}
				}
				ents = append(ents, e)
				c.T("name %q", strings.ReplaceAll(s, root, "ROOT"))
			}
			if r.P(1, 2) {
				shuffle(r, ents)
			}
		}
		if links {
			// a file that a careless tool could restore as a link, then writing through it
			var ln, to, outer = lnkname, lnkto, path.Dir(lnkto)
			var tgt = pick(r, to, outer, outer)
			var e = rawEnt{ln, pick(r, nil, []byte(tgt)), []MTag{{tLink, []byte(tgt)}, timeTag(1000, 0), {tAtime, append(encUint(1000, 8), encUint(0, 4)...)}}}
			if r.P(1, 2) {
				e.Tags = append(e.Tags, MTag{tAttr, encUint(uint64(pick(r, 0120777, 0x08000000|0777, 0400|1024)), 4)})
			}
			if r.P(1, 3) {
				e.Tags = append(e.Tags, MTag{tMime, []byte(pick(r, "inode/symlink", "inode/directory"))})
			}
			var put = func(e rawEnt) {
				if !used[e.Name] {
					used[e.Name] = true
					ents = append(ents, e)
				}
			}
			if name == "again" && r.P(2, 3) {
				e = rawEnt{ln, []byte("evil"), nil}
			}
			put(e)
			c.Ev("link tags", 1)
			c.NonTrivial()
			switch r.Int(3) {
			case 0:
				put(rawEnt{ln + "/" + path.Base(to), []byte("evil"), nil})
			case 1:
				put(rawEnt{ln + "/new.txt", []byte("evil"), nil})
				put(rawEnt{ln + "/" + path.Base(to), []byte("evil"), nil})
			}
		}
		var tags, dat = encImage(ents, extraTags(r, 2), split)
		var base = c.Path(name + ".wpk")
		if split {
			writeFile(c, wpk.MakeTagsPath(base), tags)
			writeFile(c, wpk.MakeDataPath(base), dat)
			return wpk.MakeTagsPath(base)
		}
		writeFile(c, base, tags)
		return base
	}
	var src string
	if r.P(1, 3) {
		src = mkpkg("links", false, true)
		if r.P(1, 2) {
			src += ";" + mkpkg("again", r.P(1, 3), true)
		}
	} else {
		src = mkpkg("evil", true, r.P(1, 6))
	}
	switch r.Int(4) {
	case 0:
		src = mkpkg("good", false, false) + ";" + src
	case 1:
		src += ";" + mkpkg("good", false, false)
	}
	// spellings of the destination
	var cwd = filepath.Join(root, "cwd")
	var dstarg = dst
	switch r.Int(8) {
	case 0:
		dstarg += "/"
	case 1:
		cwd, dstarg = dst, pick(r, ".", "./", "")
		if dstarg == "" {
			dstarg = "../dst"
		}
	case 2:
		dstarg, _ = filepath.Rel(cwd, dst)
	case 3:
		cwd, dstarg = filepath.Dir(dst), pick(r, "dst", "./dst", "dst/", "dst/.")
	case 4:
		dstarg = "$UPDIR/dst"
	case 5:
		dstarg = filepath.Join(dst, "made", "new")
	}
	var args = []string{"-src", src, "-dst", dstarg, "-md"}
	if m := r.Int(4); m < 3 {
		args = append(args, "-pm", modes[m])
	}
	if r.P(1, 2) {
		args = append(args, "-ft")
	}
	// a destination made below dst must stay the limit, what is above it is outside
	var limit = dst
	if dstarg == filepath.Join(dst, "made", "new") {
		limit = dstarg
		c.Env(os.MkdirAll(dstarg, 0755))
		os.Lchown(filepath.Dir(dstarg), 65534, 65534)
		os.Lchown(dstarg, 65534, 65534)
	}
	var before = snap(c.Dir(), limit)
	var out = (&binRun{name: "extract", args: args, dir: cwd, user: true,
		env: []string{"HOME=" + filepath.Join(root, "home"), "UPDIR=" + filepath.Join(root, updir), "TMPDIR=" + filepath.Join(root, "home")}}).run(c)
	if d := diffSnap(before, snap(c.Dir(), limit)); d != "" {
		c.Fail("extracting into %s: outside of it %s\nextract says: %s", strings.ReplaceAll(limit, c.Dir(), "DIR"), d, head(out, 1500))
	}
	for _, d := range []string{"/tmp/", "/dev/shm/", "/var/tmp/"} {
		if _, err := os.Lstat(d + unique); err == nil {
			os.Remove(d + unique)
			c.Fail("extraction wrote %s", d+unique)
		}
	}
	if finished(out) {
		c.Ev("extractions finished", 1)
	} else {
		c.Ev("extractions refused", 1)
	}
	// nothing beneath the destination leads out of it
	filepath.WalkDir(limit, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.Type()&fs.ModeSymlink != 0 {
			c.Fail("extraction made a link %s", p)
		}
		if err == nil && d.Type().IsRegular() {
			c.Ev("files extracted", 1)
			if fi, err := d.Info(); err == nil && fi.Mode()&(fs.ModeSetuid|fs.ModeSetgid) != 0 {
				c.Fail("extracted file %s has mode %v", p, fi.Mode())
			}
		}
		return nil
	})
}

// ---------------------------------------------------------------- C17

var srcSegs = []string{"a", "b", "dir", "Dir", "img1", "img10", "x.txt", "y.jpg", "page.html", "s.css", "d.json", "noext", "файл.txt", "with space", "...", "..x", "x..", ".hidden",
	"$HOME", "${HOME}", "%HOME%", "-dash", "a;b", "new\nline", "*", "[a]", "q?", "a'b\"c", "done.", "#1", "~", "@pack", "a=b", "p.wpk", "x.wpt", "UPPER.TXT", "e%20", ":", "COM1", "trail ", "trail.",
	".#lock", "#save#", "~$doc.docx", "old~", "x.tmp", "x.bak", ".git", ".gitignore", ".DS_Store", "Thumbs.db", "desktop.ini", "__MACOSX", "._x", "core", "a.swp", "lost+found", "NTUSER.DAT"}

// srcNames gives relative names without conflicts.
func srcNames(r *Rng, n int) (l []string) {
	var used, dirs = map[string]bool{}, map[string]bool{}
	for try := 0; len(l) < n && try < 20*n; try++ {
		var p []string
		for k := pick(r, 1, 1, 2, 2, 3, 5); k > 0; k-- {
			if r.P(1, 60) {
				p = append(p, strings.Repeat("L", r.Range(100, 250)))
				continue
			}
			p = append(p, pickOf(r, srcSegs))
		}
		var s = strings.Join(p, "/")
		var bad = used[s] || dirs[s]
		for i := range s {
			if s[i] == '/' && used[s[:i]] {
				bad = true
			}
		}
		if bad {
			continue
		}
		for i := range s {
			if s[i] == '/' {
				dirs[s[:i]] = true
			}
		}
		used[s] = true
		l = append(l, s)
	}
	return
}

func srcData(r *Rng, name string) []byte {
	var n = genSize(r)
	switch r.Int(12) {
	case 0:
		n = 0
	case 1:
		n = pick(r, 511, 512, 513, 4096, 32767, 32768, 32769, 65535, 65536)
	case 2:
		n = r.Int(300000)
	}
	var b = content(r, n)
	switch r.Int(6) { // for sniffing
	case 0:
		b = append([]byte("<!DOCTYPE HTML><p>"), b...)
	case 1:
		b = append([]byte("\x89PNG\x0d\x0a\x1a\x0a"), b...)
	case 2:
		b = []byte(strings.Repeat("plain text ", n/12+1))
	case 3:
		b = append([]byte("GIF89a"), b...)
	}
	return b
}

type srcTree struct {
	dir   string
	files map[string][]byte
}

func runC17(c *C) {
	var r = c.R
	var nsrc = pick(r, 1, 1, 1, 2, 3)
	var trees []*srcTree
	var all = map[string][]byte{}
	var from = map[string]string{}
	var names = srcNames(r, r.Range(0, 6)*nsrc)
	var dup = false
	for i := 0; i < nsrc; i++ {
		var t = &srcTree{dir: c.Path(fmt.Sprintf("src%d", i)), files: map[string][]byte{}}
		if r.P(1, 6) {
			t.dir = c.Path(fmt.Sprintf("s r c %d", i), "in.side")
		}
		c.Env(os.MkdirAll(t.dir, 0755))
		trees = append(trees, t)
	}
	for _, n := range names {
		var t = pickOf(r, trees)
		t.files[n] = srcData(r, n)
		all[n] = t.files[n]
	}
	if nsrc > 1 && len(names) > 0 && r.P(1, 8) { // the same name in two sources
		var n = pickOf(r, names)
		var k = 0
		for _, t := range trees {
			t.files[n] = []byte("twice" + t.dir)
			if k++; k == 2 {
				break
			}
		}
		for _, t := range trees {
			if _, ok := t.files[n]; ok && string(t.files[n]) != "twice"+t.dir {
				k++
			}
		}
		dup = k >= 2
	}
	for _, t := range trees {
		for n, b := range t.files {
			var fpath = filepath.Join(t.dir, n)
			c.Env(os.MkdirAll(filepath.Dir(fpath), 0755))
			if r.P(1, 12) { // a link to a file elsewhere
				var real = c.Path(fmt.Sprintf("real-%x", sha256.Sum256([]byte(t.dir+n)))[:50])
				writeFile(c, real, b)
				c.Env(os.Symlink(real, fpath))
			} else {
				writeFile(c, fpath, b)
			}
			c.Env(os.Chtimes(fpath, genTime(r), genTime(r)))
			from[n] = fpath
		}
		if r.P(1, 4) {
			c.Env(os.MkdirAll(filepath.Join(t.dir, "empty", "dir"), 0755))
		}
	}
	// a fault that can not be packed
	var fault = ""
	if dup {
		fault = "the same name in two sources"
	}
	var limit, user, absent = 0, false, ""
	var t0 = pickOf(r, trees)
	var split = r.P(1, 2)
	var base = c.Path("out", "p.wpk")
	c.Env(os.Mkdir(c.Path("out"), 0755))
	var inside = false
	if fault == "" {
		switch k := r.Int(24); k {
		case 0: // dangling link
			if os.Symlink(c.Path("nowhere"), filepath.Join(t0.dir, pick(r, "AAdangling", "zzdangling"))) == nil {
				fault = "dangling link"
			}
		case 1: // link to a directory
			if os.Symlink(c.Path("out"), filepath.Join(t0.dir, "dirlink")) == nil {
				fault = "link to a directory"
			}
		case 2, 3, 4: // can not be read by the user who packs
			user = true
			c.Env(os.Chmod(c.Dir(), 0755))
			c.Env(os.Chmod(c.Path("out"), 0777))
			var p = filepath.Join(t0.dir, pick(r, "0locked", "zlocked", "dlocked"))
			if k == 2 {
				writeFile(c, p, content(r, r.Int(100)))
				c.Env(os.Chmod(p, 0))
				fault = "file without permission"
			} else if k == 3 {
				c.Env(os.Mkdir(p, 0))
				fault = "directory without permission"
			} else if len(names) > 0 { // a directory that can be listed and not entered
				c.Env(os.Mkdir(p, 0755))
				writeFile(c, filepath.Join(p, "in"), []byte("x"))
				c.Env(os.Chmod(p, 0444))
				fault = "directory that can not be entered"
			}
		case 5: // the destination is full
			for _, p := range []string{base, wpk.MakeTagsPath(base), wpk.MakeDataPath(base)} {
				os.Remove(p)
				c.Env(os.Symlink("/dev/full", p))
			}
			fault = "full device"
		case 6: // the size limit of the process
			var sum = 0
			for _, b := range all {
				sum += len(b)
			}
			if limit = sum / 2048; limit > 0 {
				fault = "file size limit"
			}
		case 7: // a socket
			var fd, err = syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
			if err == nil {
				var cwd = filepath.Join(t0.dir, "sock")
				if len(cwd) < 100 && syscall.Bind(fd, &syscall.SockaddrUnix{Name: cwd}) == nil {
					fault = "socket"
				}
				syscall.Close(fd)
			}
		case 8: // name that is not UTF-8
			if os.WriteFile(filepath.Join(t0.dir, "bad\xffname"), []byte("x"), 0644) == nil {
				if err := fs.WalkDir(os.DirFS(t0.dir), ".", func(n string, d fs.DirEntry, err error) error {
					if err == nil && !d.IsDir() {
						var f, ferr = os.DirFS(t0.dir).Open(n)
						if ferr == nil {
							f.Close()
						}
						return ferr
					}
					return err
				}); err != nil {
					fault = "?" // may be packed, may be refused
				}
				all["bad\xffname"] = []byte("x")
				t0.files["bad\xffname"] = []byte("x")
			}
		case 13: // a source that is not there
			absent = c.Path(pick(r, "nothing", "src0x", "out/nothing/below"))
			fault = "absent source"
		case 14: // a source that is a file
			absent = c.Path("plainfile")
			writeFile(c, absent, []byte("x"))
			fault = "source which is a file"
		case 9, 10, 11, 12: // the package is written into the source
			inside = true
			base = filepath.Join(t0.dir, pick(r, "dst.wpk", "000.wpk", "zzz.wpk"))
			for _, p := range []string{base, wpk.MakeTagsPath(base), wpk.MakeDataPath(base)} {
				if _, ok := from[strings.TrimPrefix(p, t0.dir+"/")]; ok {
					return
				}
			}
			limit = 8192
			if r.P(1, 2) { // over an older one
				writeFile(c, base, content(r, 5000))
				if split {
					c.Env(os.Remove(base))
					writeFile(c, wpk.MakeTagsPath(base), content(r, 3000))
					writeFile(c, wpk.MakeDataPath(base), content(r, 3000))
				}
			}
		}
	}
	var tpath, dpath = base, base
	if split {
		tpath, dpath = wpk.MakeTagsPath(base), wpk.MakeDataPath(base)
	}
	var srcarg []string
	var cwd = c.Dir()
	for _, t := range trees {
		var s = t.dir
		switch r.Int(6) {
		case 0:
			s += "/"
		case 1:
			s, _ = filepath.Rel(cwd, s)
		case 2:
			s = strings.Replace(s, c.Dir(), pick(r, "$WORK", "${WORK}", "%WORK%"), 1)
		case 3:
			s = strings.ReplaceAll(s, "/", `\`)
		}
		srcarg = append(srcarg, s)
	}
	if absent != "" {
		var k = r.Int(len(srcarg) + 1)
		srcarg = append(srcarg[:k], append([]string{absent}, srcarg[k:]...)...)
	}
	var args = []string{"-src", strings.Join(srcarg, ";") + pick(r, "", "", ";"), "-dst", pick(r, base, strings.ReplaceAll(base, "/", `\`), strings.Replace(base, c.Dir(), "${WORK}", 1))}
	var putmime, putlink = r.P(1, 2), r.P(1, 2)
	if putmime {
		args = append(args, "-mime")
	}
	if putlink {
		args = append(args, "-link")
	}
	if split {
		args = append(args, "-split")
	}
	if r.P(1, 3) {
		args = append(args, "-log=false")
	}
	var outs = []string{tpath}
	if split {
		outs = append(outs, dpath)
	}
	var before []map[string]string
	for _, t := range trees {
		before = append(before, snap(t.dir, outs...))
	}
	type tm struct{ a, m time.Time }
	var times = map[string]tm{}
	for n, p := range from {
		if fi, err := os.Stat(p); err == nil {
			var st = fi.Sys().(*syscall.Stat_t)
			times[n] = tm{time.Unix(st.Atim.Sec, st.Atim.Nsec), time.Unix(st.Mtim.Sec, st.Mtim.Nsec)}
		}
	}
	c.T("%d sources, %d files, split %v, fault %q, inside %v", nsrc, len(all), split, fault, inside)
	for _, n := range sortedKeys(all) {
		c.T("%s: %d bytes", quote(n), len(all[n]))
	}
	var out = (&binRun{name: "pack", args: args, dir: cwd, user: user, fsz: limit, env: []string{"WORK=" + c.Dir()}}).run(c)
	for i, t := range trees {
		if d := diffSnap(before[i], snap(t.dir, outs...)); d != "" {
			c.Fail("packing changed the source: %s\npack says: %s", d, tail(out, 1000))
		}
	}
	if fault != "" {
		c.Ev("faults", 1)
		c.NonTrivial()
		if fault == "?" {
			if !finished(out) {
				return
			}
		} else {
			if finished(out) {
				c.Fail("pack is done in spite of a %s: %s", fault, tail(out, 1500))
			}
			// what is left must not look like a complete package without the files
			if fault != "full device" {
				var b, err = os.ReadFile(tpath)
				if err == nil && !split && wpk.NewPackage().OpenStream(bytes.NewReader(b)) == nil {
					c.Fail("pack met a %s and leaves a package that opens", fault)
				}
			}
			return
		}
	}
	if !finished(out) {
		c.Fail("pack fails: %s", tail(out, 1500))
	}
	// the tags that were asked for
	var tb, err = os.ReadFile(tpath)
	c.NoErr(err, "package of pack")
	var fi, serr = os.Stat(dpath)
	c.NoErr(serr, "data of pack")
	var rp *RPkg
	if rp, err = decPkg(tb, fi.Size(), split); err != nil {
		c.Fail("package of pack: %v", err)
	}
	if rp.Hdr.Sig != sigReady && !split {
		c.Fail("package of pack is not finalized: %q", rp.Hdr.Sig)
	}
	var have = map[string]*REnt{}
	for _, e := range rp.Ents {
		have[e.Name] = e
		if _, ok := all[e.Name]; !ok {
			c.Fail("package has %s that is not in the sources %s", quote(e.Name), quoteAll(sortedKeys(all)))
		}
	}
	for n, b := range all {
		var e = have[n]
		if e == nil {
			c.Fail("pack is done without %s", quote(n))
		}
		var mt, mok = getTag(e.Tags, tMime)
		var lk, lok = getTag(e.Tags, tLink)
		if mok != putmime || lok != putlink {
			c.Fail("%s: mime tag %v, asked %v; link tag %v, asked %v", quote(n), mok, putmime, lok, putlink)
		}
		if putmime {
			c.Ev("mime tags", 1)
			var want = mime.TypeByExtension(path.Ext(n))
			if want == "" {
				want = http.DetectContentType(b[:min(len(b), 512)])
			}
			if string(mt) != want {
				c.Fail("%s: mime tag %q, want %q", quote(n), mt, want)
			}
		}
		if putlink {
			c.Ev("link tags", 1)
			var p = string(lk)
			if !filepath.IsAbs(p) {
				p = filepath.Join(cwd, p)
			}
			var a, aerr = os.Stat(p)
			var b, berr = os.Stat(filepath.Join(treeOf(trees, n).dir, n))
			if aerr != nil || berr != nil || !os.SameFile(a, b) {
				c.Fail("%s: link tag %q is not the original file %s: %v %v", quote(n), lk, from[n], aerr, berr)
			}
			if !strings.HasSuffix(string(lk), n) {
				c.Fail("%s: link tag %q", quote(n), lk)
			}
		}
	}
	// extraction
	var rounds = r.Range(1, 2)
	for k := 0; k < rounds; k++ {
		var dst = c.Path(fmt.Sprintf("dst%d", k), "in")
		var ft = r.P(1, 2)
		var dirty = r.P(1, 4)
		if dirty { // older and longer files in place
			c.Env(os.MkdirAll(dst, 0755))
			writeFile(c, filepath.Join(dst, "older"), []byte("older"))
			for _, n := range sortedKeys(all) {
				if r.P(1, 2) {
					var p = filepath.Join(dst, n)
					c.Env(os.MkdirAll(filepath.Dir(p), 0755))
					writeFile(c, p, content(r, len(all[n])+r.Range(1, 100)))
				}
			}
		}
		var args = []string{"-src", pick(r, tpath, strings.Replace(tpath, c.Dir(), "$WORK", 1), tpath+";", strings.ReplaceAll(tpath, "/", `\`)), "-dst", pick(r, dst, dst+"/", "%WORK%"+strings.TrimPrefix(dst, c.Dir()))}
		if !dirty || r.P(1, 2) {
			args = append(args, "-md")
		}
		if m := r.Int(4); m < 3 {
			args = append(args, "-pm", modes[m])
		}
		if ft {
			args = append(args, "-ft")
		}
		if r.P(1, 3) {
			args = append(args, "-sl=false")
		}
		// two packages at once
		var more = map[string][]byte{}
		if r.P(1, 5) {
			var ents []rawEnt
			for i := r.Range(1, 3); i > 0; i-- {
				var e = rawEnt{fmt.Sprintf("second/%d", i), content(r, r.Int(500)), nil}
				ents = append(ents, e)
				more[e.Name] = e.Data
			}
			var tags, dat = encImage(ents, nil, !split)
			var p = c.Path(fmt.Sprintf("second%d.wpk", k))
			if !split {
				writeFile(c, wpk.MakeDataPath(p), dat)
				p = wpk.MakeTagsPath(p)
			}
			writeFile(c, p, tags)
			if r.P(1, 2) {
				args[1] += ";" + p
			} else {
				args[1] = p + ";" + args[1]
			}
		}
		var pkgstate = snap(c.Dir(), filepath.Dir(dst))
		var start = time.Now().Add(-2 * time.Second)
		var out = (&binRun{name: "extract", args: args, dir: cwd, env: []string{"WORK=" + c.Dir()}}).run(c)
		if !finished(out) {
			c.Fail("extract fails: %s", tail(out, 1500))
		}
		if d := diffSnap(pkgstate, snap(c.Dir(), filepath.Dir(dst))); d != "" {
			c.Fail("extract changed what is outside of the destination: %s", d)
		}
		var cnt = 0
		filepath.WalkDir(dst, func(p string, d fs.DirEntry, err error) error {
			if err == nil && !d.IsDir() {
				cnt++
			}
			return nil
		})
		var want = len(all) + len(more)
		if dirty {
			want++
		}
		if cnt != want {
			c.Fail("%d files are extracted, want %d", cnt, want)
		}
		for n, b := range more {
			var x, err = os.ReadFile(filepath.Join(dst, n))
			if err != nil || !bytes.Equal(x, b) {
				c.Fail("extracted %s of the second package differs: %v", quote(n), err)
			}
			c.Ev("files compared", 1)
		}
		for n, b := range all {
			var p = filepath.Join(dst, n)
			var fi, serr = os.Stat(p)
			c.NoErr(serr, "extracted %s", quote(n))
			var st = fi.Sys().(*syscall.Stat_t)
			var x, err = os.ReadFile(p)
			if err != nil || !bytes.Equal(x, b) {
				c.Fail("extracted %s differs: %d bytes, source has %d: %v", quote(n), len(x), len(b), err)
			}
			c.Ev("files compared", 1)
			var w, known = times[n]
			if ft && known {
				var at, mt = time.Unix(st.Atim.Sec, st.Atim.Nsec), fi.ModTime()
				if !mt.Equal(w.m) || !at.Equal(w.a) {
					c.Fail("extracted %s has mtime %v, atime %v, want %v, %v", quote(n), mt.UTC(), at.UTC(), w.m.UTC(), w.a.UTC())
				}
				c.Ev("times restored", 1)
			} else if !ft && fi.ModTime().Before(start) {
				c.Fail("extracted %s has mtime %v without -ft", quote(n), fi.ModTime())
			}
		}
	}
	if len(all) > 1 {
		c.NonTrivial()
	}
	// damaged or colliding: extract must not say that it is done
	if r.P(1, 4) && len(all) > 0 {
		var dst = c.Path("dstx")
		c.Env(os.Mkdir(dst, 0755))
		var what = ""
		var n = pickOf(r, sortedKeys(all))
		var limit = 0
		switch r.Int(3) {
		case 0: // directory in place of the file
			what = "directory in the place of a file"
			c.Env(os.MkdirAll(filepath.Join(dst, n), 0755))
		case 1: // file in place of a directory
			if i := strings.IndexByte(n, '/'); i > 0 {
				what = "file in the place of a directory"
				writeFile(c, filepath.Join(dst, n[:i]), []byte("x"))
			}
		case 2: // full
			for _, m := range sortedKeys(all) {
				if len(all[m])/1024 > 4 {
					limit = len(all[m]) / 2048
					what = "file size limit"
				}
			}
		}
		if what != "" {
			c.Ev("faults", 1)
			var out = (&binRun{name: "extract", args: []string{"-src", tpath, "-dst", dst, "-pm", pickOf(r, modes)}, dir: cwd, fsz: limit}).run(c)
			if finished(out) {
				c.Fail("extract is done in spite of a %s: %s", what, tail(out, 1500))
			}
		}
	}
}

func treeOf(trees []*srcTree, n string) *srcTree {
	for _, t := range trees {
		if _, ok := t.files[n]; ok {
			return t
		}
	}
	panic(skipcase{errors.New("tree").Error()})
}
