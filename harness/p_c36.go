// C36: commands that are stopped, killed, or meet a fault while a package is written.
package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
)

func init() {
	register(&Prop{
		ID: "C36", Level: "exploration", Quick: 8000, Thorough: 80000,
		Rule:   "each case runs the pack command or a Lua script by the build command, over nothing or over packages made before, and stops it: by a kill at a line of its output, after some time, or at the N-th system call on the package files, by a file size limit, by a source that can not be read, by package files that can not be opened, or by exit, error or fault in the script; then every package file around is opened, and has to be rejected or be exactly the state which the steps told before the stop allow; then the command is run again and must complete; non-trivial when the command was stopped",
		Assume: []string{"the stop is the end of the process, not a loss of the disk cache", "kills at system calls are made by strace where it works; there is no demand on their number"},
		MinEv:  map[string]int64{"stopped": 2000, "rejected after stop": 1000, "opened after stop": 500, "completed again": 2000},
		Run:    runC36,
	})
}

// stop is a way to end a command.
type stop struct {
	line    int           // kill after this number of lines of output
	after   time.Duration // kill after this time
	syscall int           // kill at this call on the given paths
	paths   []string
	fsz     int // file size limit in KiB
}

// runStopped runs a command as the unprivileged user; says whether it was killed.
func runStopped(c *C, name string, args []string, s stop) (out string, killed bool) {
	var prog = filepath.Join(*flBins, name)
	var argv = append([]string{prog}, args...)
	if s.syscall > 0 {
		const calls = "openat,write,pwrite64,lseek,copy_file_range,splice,sendfile,ftruncate,truncate,unlink,unlinkat,rename,renameat,renameat2,close,fsync"
		var l = []string{"/usr/bin/strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=" + calls}
		for _, p := range s.paths {
			l = append(l, "-P", p)
		}
		l = append(l, "-e", fmt.Sprintf("inject=%s:signal=SIGKILL:when=%d", calls, s.syscall))
		argv = append(l, argv...)
	}
	if s.fsz > 0 {
		argv = append([]string{"/bin/sh", "-c", fmt.Sprintf("ulimit -f %d; exec \"$0\" \"$@\"", s.fsz*2)}, argv...)
	}
	var ctx, cancel = context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	var cmd = exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Dir = c.Path("world")
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + c.Path("world"), "GOMAXPROCS=1"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	var pr, pw, err = os.Pipe()
	c.Env(err)
	cmd.Stdout, cmd.Stderr = pw, pw
	if err = cmd.Start(); err != nil {
		pr.Close()
		pw.Close()
		c.Env(err)
	}
	pw.Close()
	var mux sync.Mutex
	var kill = func() {
		mux.Lock()
		defer mux.Unlock()
		killed = true
		cmd.Process.Kill()
	}
	if s.after > 0 {
		var t = time.AfterFunc(s.after, kill)
		defer t.Stop()
	}
	var b strings.Builder
	var rd = bufio.NewReader(pr)
	for n := 1; ; n++ {
		var line, err = rd.ReadString('\n')
		b.WriteString(line)
		if err != nil {
			break
		}
		if n == s.line {
			kill()
		}
	}
	pr.Close()
	cmd.Wait()
	if ctx.Err() != nil {
		c.Fail("%s %v does not end", name, args)
	}
	mux.Lock()
	defer mux.Unlock()
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		killed = true
	} else {
		killed = false // it was faster
	}
	out = b.String()
	if bytes.Contains([]byte(out), []byte("panic:")) || bytes.Contains([]byte(out), []byte("fatal error:")) {
		c.Fail("%s %v crashes: %s", name, args, head(out, 2000))
	}
	c.T("%s %s, stop %+v -> killed %v", name, strings.ReplaceAll(strings.Join(args, " "), c.Dir(), "DIR"), s, killed)
	return
}

// state36 is the content of a package by names; nil for one that is rejected.
type state36 map[string]string

func readState(c *C, what, tpath string) state36 {
	var pkg = wpk.NewPackage()
	if err := pkg.OpenFile(tpath); err != nil {
		return nil
	}
	var dpath = tpath
	if pkg.IsSplitted() {
		dpath = wpk.MakeDataPath(tpath)
	}
	var m = state36{}
	if pkg.TagsetNum() == 0 {
		return m
	}
	var err error
	if pkg.Tagger, err = makeTagger(pickOf(c.R, modes), dpath); err != nil {
		c.Fail("%s: the package %s opens, but its data does not: %v", what, filepath.Base(tpath), err)
	}
	defer pkg.Close()
	var bad string
	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		var b, err = pkg.ReadFile(fkey)
		if err != nil {
			bad = fmt.Sprintf("%s: the package %s opens, but its file %s does not: %v", what, filepath.Base(tpath), quote(fkey), err)
			return false
		}
		m[fkey] = string(b)
		return true
	})
	if bad != "" {
		c.Fail("%s", bad)
	}
	return m
}

func (s state36) same(o state36) bool {
	if (s == nil) != (o == nil) || len(s) != len(o) {
		return false
	}
	for n, b := range s {
		if ob, ok := o[n]; !ok || ob != b {
			return false
		}
	}
	return true
}

func (s state36) String() string {
	if s == nil {
		return "rejected"
	}
	var l []string
	for n, b := range s {
		l = append(l, fmt.Sprintf("%s(%d)", quote(n), len(b)))
	}
	sort.Strings(l)
	return head(fmt.Sprintf("%d files %s", len(l), strings.Join(l, " ")), 600)
}

func (s state36) clone() state36 {
	var m = state36{}
	for n, b := range s {
		m[n] = b
	}
	return m
}

// oneOf demands that the package is in one of given states.
func oneOf(c *C, what, tpath string, allowed ...state36) state36 {
	var got = readState(c, what, tpath)
	for _, s := range allowed {
		if got.same(s) {
			if got == nil {
				c.Ev("rejected after stop", 1)
			} else {
				c.Ev("opened after stop", 1)
			}
			return got
		}
	}
	c.Fail("%s: the package %s is %v, allowed are %v", what, filepath.Base(tpath), got, allowed)
	return nil
}

func fillTree(c *C, dir string, n, big int) state36 {
	var r = c.R
	var m = state36{}
	for i := 0; i < n; i++ {
		var name = fmt.Sprintf("f%02d", i)
		switch r.Int(3) {
		case 0:
			name = fmt.Sprintf("d%d/f%02d", r.Int(3), i)
		case 1:
			name = fmt.Sprintf("d/e%d/f%02d", r.Int(2), i)
		}
		var size = genSize(r)
		if r.P(1, 4) {
			size = r.Int(big)
		}
		var b = content(r, size)
		c.Env(os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0755))
		writeFile(c, filepath.Join(dir, name), b)
		m[name] = string(b)
	}
	c.Env(os.MkdirAll(dir, 0755))
	return m
}

func runC36(c *C) {
	c.Env(os.Chmod(c.Dir(), 0755))
	c.Env(os.MkdirAll(c.Path("world", "out"), 0755))
	if c.R.P(1, 2) {
		stopPack(c)
	} else {
		stopScript(c)
	}
}

func genStop(c *C, lines int, paths []string) (s stop, how string) {
	var r = c.R
	switch r.Int(8) {
	case 0, 1, 2:
		s.line = r.Range(1, lines)
		how = "kill at a line"
	case 3:
		s.after = time.Duration(r.Range(300, 9000)) * time.Microsecond
		how = "kill by time"
	case 4, 5:
		s.syscall = r.Range(1, 12+2*lines)
		if r.P(1, 2) {
			s.syscall = r.Range(1, 12)
		}
		s.paths = paths
		how = "kill at a system call"
	default:
		s.fsz = pick(r, 1, 1, 2, r.Range(1, 8), r.Range(1, 60))
		how = "file size limit"
	}
	return
}

// stopPack stops the pack command.
func stopPack(c *C) {
	var r = c.R
	var out = c.Path("world", "out")
	var src, oldsrc = c.Path("world", "src"), c.Path("world", "old")
	var want = fillTree(c, src, pick(r, 1, 2, 5, 12, 30), 60000)
	var old state36
	var split = r.P(1, 2)
	var dst = filepath.Join(out, "p.wpk")
	var tpath, dpath = dst, dst
	if split {
		tpath, dpath = wpk.MakeTagsPath(dst), wpk.MakeDataPath(dst)
	}
	var other state36
	var otherpath string
	chownAll(c, c.Path("world"))
	// files can be taken from two folders
	var src2 = c.Path("world", "src2")
	var two = r.P(1, 3)
	var where = map[string]string{}
	for _, n := range sortedKeys(want) {
		where[n] = filepath.Join(src, n)
	}
	if two {
		for _, n := range sortedKeys(want) {
			if r.P(1, 2) {
				where[n] = filepath.Join(src2, n)
				c.Env(os.MkdirAll(filepath.Dir(where[n]), 0755))
				c.Env(os.Rename(filepath.Join(src, n), where[n]))
			}
		}
		c.Env(os.MkdirAll(src2, 0755))
		chownAll(c, c.Path("world"))
	}
	var args = func(dir string, split bool) (l []string) {
		if dir == src && two {
			dir += ";" + src2
		}
		l = []string{"-src", dir, "-dst", dst}
		if split {
			l = append(l, "-split")
		}
		return
	}
	var full = func(src string, split bool) {
		var o, _ = runStopped(c, "pack", args(src, split), stop{})
		c.Check(finished(o), "pack does not complete: %s", tail(o, 1500))
	}
	if r.P(1, 2) { // an older package is at this place
		old = fillTree(c, oldsrc, pick(r, 1, 3, 8, 20), 80000)
		chownAll(c, c.Path("world"))
		full(oldsrc, split)
	}
	if r.P(1, 4) { // a package in other layout is beside
		var d = c.Path("world", "oth")
		other = fillTree(c, d, 3, 1000)
		chownAll(c, c.Path("world"))
		full(d, !split)
		otherpath = dst
		if !split {
			otherpath = wpk.MakeTagsPath(dst)
		}
	}
	var s, how = genStop(c, 4+len(want), []string{tpath, dpath})
	var undo func()
	var foreign = func(fpath string, mode os.FileMode) (fd func()) {
		var st syscall.Stat_t
		c.Env(syscall.Stat(fpath, &st))
		c.Env(os.Lchown(fpath, 0, 0))
		c.Env(os.Chmod(fpath, mode))
		return func() {
			c.Env(os.Lchown(fpath, 65534, 65534))
			c.Env(os.Chmod(fpath, os.FileMode(st.Mode&0777)))
		}
	}
	var sure = false // can not complete
	if r.P(1, 3) {
		s = stop{}
		how = pick(r, "source can not be read", "source folder can not be read", "source folder can not be read", "package can not be opened", "package can not be opened", "data part can not be opened", "place can not be written")
		switch how {
		case "source can not be read":
			undo = foreign(where[pickOf(r, sortedKeys(want))], 0600)
		case "source folder can not be read":
			var fpath = filepath.Dir(where[pickOf(r, sortedKeys(want))])
			undo = foreign(fpath, pick[os.FileMode](r, 0700, 0000, 0711))
		case "package can not be opened", "data part can not be opened":
			var fpath = tpath
			if how == "data part can not be opened" {
				fpath = dpath
			}
			if _, err := os.Stat(fpath); err != nil { // a directory is there
				c.Env(os.Mkdir(fpath, 0755))
				undo = func() { c.Env(os.Remove(fpath)) }
			} else {
				undo = foreign(fpath, 0444)
			}
		case "place can not be written":
			undo = foreign(out, 0555)
			// files which are there already can be opened
			sure = old == nil
		}
		sure = sure || how != "place can not be written"
	}
	c.T("pack %v over %v, stop by %s", want, old, how)
	var text, killed = runStopped(c, "pack", args(src, split), s)
	var done = finished(text)
	if sure && done {
		c.Fail("pack is done (%s): %s", how, tail(text, 1500))
	}
	var what = fmt.Sprintf("after pack stopped by %s", how)
	if done {
		oneOf(c, "after pack has completed", tpath, want)
	} else {
		c.NonTrivial()
		c.Ev("stopped", 1)
		c.Ev("pack: "+how, 1)
		var empty state36
		if split {
			empty = state36{}
		}
		oneOf(c, what, tpath, nil, empty, old, want)
		if !killed && s.fsz == 0 && sure {
			// the command was told about the fault, nothing complete can come out
			oneOf(c, what, tpath, nil, empty, old)
		}
	}
	if otherpath != "" {
		var got = readState(c, what, otherpath)
		c.Check(got.same(other), "%s: the other package %s is %v, it was %v", what, filepath.Base(otherpath), got, other)
	}
	if undo != nil {
		undo()
	}
	if !done {
		full(src, split)
		var got = readState(c, "packed again", tpath)
		c.Check(got.same(want), "packed again the package is %v, want %v", got, want)
		c.Ev("completed again", 1)
	}
}

// stopScript stops a Lua script.
func stopScript(c *C) {
	var r = c.R
	var out = c.Path("world", "out")
	var src = c.Path("world", "src")
	var files = fillTree(c, src, r.Range(2, 8), 40000)
	var names = sortedKeys(files)
	var split = r.P(1, 2)
	var tpath, dpath = filepath.Join(out, "p.wpk"), ""
	var open = luaStr(tpath)
	if split {
		tpath, dpath = filepath.Join(out, "p.wpt"), filepath.Join(out, "p.wpf")
		open = luaStr(tpath) + ", " + luaStr(dpath)
	}
	chownAll(c, c.Path("world"))
	// steps with the state they leave on disk
	type step struct {
		text  string
		after state36
		mid   []state36 // what else can be seen during it
	}
	var steps []step
	var cur, disk = state36{}, state36(nil)
	var first state36 // what is there before
	var add = func(text string, after state36, mid ...state36) {
		steps = append(steps, step{text, after, mid})
		disk = after
	}
	var n = 0
	var edit = func() {
		switch r.Int(6) {
		case 0, 1:
			var b = strings.Repeat(fmt.Sprintf("text %d ", n), r.Int(300))
			add(fmt.Sprintf("pkg:putdata(\"n%d\", %s)", n, luaStr(b)), disk)
			cur[fmt.Sprintf("n%d", n)] = b
		case 2, 3:
			var f = pickOf(r, names)
			add(fmt.Sprintf("pkg:putfile(\"n%d\", %s)", n, luaStr(filepath.Join(src, f))), disk)
			cur[fmt.Sprintf("n%d", n)] = files[f]
		case 4:
			if l := sortedKeys(cur); len(l) > 0 {
				var a = pickOf(r, l)
				switch r.Int(3) {
				case 0:
					add(fmt.Sprintf("pkg:rename(\"%s\", \"n%d\")", a, n), disk)
					cur[fmt.Sprintf("n%d", n)] = cur[a]
					delete(cur, a)
				case 1:
					add(fmt.Sprintf("pkg:putalias(\"%s\", \"n%d\")", a, n), disk)
					cur[fmt.Sprintf("n%d", n)] = cur[a]
				default:
					add(fmt.Sprintf("pkg:delalias(\"%s\")", a), disk)
					delete(cur, a)
				}
			}
		case 5: // a failure which the script handles
			add(fmt.Sprintf("pcall(function() pkg:putfile(\"n%d\", %s) end)", n, luaStr(filepath.Join(src, "absent"))), disk)
		}
		n++
	}
	var session = func() {
		for k := r.Range(1, 6); k > 0; k-- {
			edit()
		}
		for split && r.P(1, 2) {
			add("pkg:flush()", cur.clone(), disk)
			for k := r.Int(4); k > 0; k-- {
				edit()
			}
		}
		add("pkg:finalize()", cur.clone(), disk)
	}
	var opened = state36(nil) // after begin or append
	if split {
		opened = state36{}
	}
	var script = func(stopAt int, how string) string {
		var b strings.Builder
		for i, s := range steps {
			if i == stopAt {
				b.WriteString(how + "\n")
			}
			fmt.Fprintf(&b, "%s\nprint(\"step %d\")\n", s.text, i+1)
		}
		return b.String()
	}
	var run = func(fpath string, s stop) (string, bool) { return runStopped(c, "build", []string{fpath}, s) }
	if r.P(1, 2) { // an older package made by another script
		add("local pkg = wpk.new() pkg:begin("+open+")", nil)
		session()
		steps[0].text = "pkg = wpk.new() pkg:begin(" + open + ")"
		var fpath = c.Path("world", "old.lua")
		writeFile(c, fpath, []byte(script(-1, "")+"print(\"step end\")\n"))
		var o, _ = run(fpath, stop{})
		c.Check(strings.Contains(o, "step end"), "build does not complete the script: %s", tail(o, 1500))
		first = cur.clone()
		steps = nil
		disk = first
	}
	if first != nil && r.P(2, 3) {
		add("pkg = wpk.new() pkg:load("+open+")", disk)
		if split {
			add("pkg:append()", disk)
		} else {
			add("pkg:append()", nil, disk)
		}
	} else {
		cur = state36{}
		add("pkg = wpk.new() pkg:begin("+open+")", opened, disk, nil)
	}
	session()
	for r.P(1, 2) {
		if r.P(1, 2) {
			add("pkg = wpk.new() pkg:load("+open+")", disk)
		}
		if split {
			add("pkg:append()", disk)
		} else {
			add("pkg:append()", nil, disk)
		}
		session()
	}
	var s stop
	var how string
	var at, cmd = -1, ""
	if r.P(1, 2) {
		at = r.Range(1, len(steps)-1)
		cmd = pick(r, "os.exit(0)", "os.exit(1)", "error(\"stop\")", "nosuch()", "local x = nil; x.y = 1", "wpk.new():load(\"/nonexistent\")", "pkg:putfile(\"z\", \"/nonexistent\")", "do return end")
		how = "a script ended by " + cmd
		if len(steps) < 2 {
			at = -1
		}
	} else {
		s, how = genStop(c, len(steps), []string{tpath, filepath.Join(out, "p.wpf")})
	}
	var fpath = c.Path("world", "main.lua")
	writeFile(c, fpath, []byte(script(at, cmd)+"print(\"step end\")\n"))
	for i, st := range steps {
		c.T("%d %s", i+1, strings.ReplaceAll(st.text, c.Dir(), "DIR"))
	}
	var text, killed = run(fpath, s)
	var count = strings.Count(text, "step ")
	var done = strings.Contains(text, "step end") // the end of the line is written apart
	if done {
		count--
		c.Check(at < 0 && count == len(steps), "the script is completed after %d of %d steps", count, len(steps))
	} else {
		c.NonTrivial()
		c.Ev("stopped", 1)
		c.Ev("build: "+strings.SplitN(how, " ended", 2)[0], 1)
	}
	if at >= 0 {
		c.Check(count == at, "the script has made %d steps, the end was after %d: %s", count, at, tail(text, 1000))
	} else if !done && !killed && s.fsz == 0 {
		c.Fail("the script stops after step %d of %d with nothing wrong: %s", count, len(steps), tail(text, 1500))
	}
	var what = fmt.Sprintf("after %d steps of %d, stopped by %s", count, len(steps), how)
	var allowed []state36
	if count > 0 {
		allowed = append(allowed, steps[count-1].after)
	} else {
		allowed = append(allowed, first)
	}
	if at < 0 && count < len(steps) {
		allowed = append(allowed, steps[count].after)
		allowed = append(allowed, steps[count].mid...)
		if !killed && s.fsz == 0 {
			allowed = allowed[:1]
		}
	}
	oneOf(c, what, tpath, allowed...)
	if !done && at < 0 && r.P(1, 2) {
		// made once more from the beginning
		os.Remove(tpath)
		os.Remove(filepath.Join(out, "p.wpf"))
		if first == nil {
			var o, _ = run(fpath, stop{})
			c.Check(strings.Contains(o, "step end\n"), "build does not complete the script: %s", tail(o, 1500))
			oneOf(c, "built again", tpath, disk)
			c.Ev("completed again", 1)
		}
	}
}
