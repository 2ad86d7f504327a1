// C12: rename, alias, delete. C23: spelling of names. C24: subdirectory views. C25: info and header queries.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"strings"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
)

func init() {
	register(&Prop{
		ID: "C12", Level: "exploration", Quick: 72000, Thorough: 720000,
		Rule:  "each case makes a package (fresh or parsed back from its table) of 2..14 entries in related directories and runs 6..40 rename, alias, delete and directory-rename calls on it through the package and subdirectory views, checking after every call the whole table, the raw tagsets of all untouched entries, tagsets handed out before, and the image written afterwards; non-trivial with a successful directory rename or three successful renames",
		MinEv: map[string]int64{"table compared": 20000, "directory renames": 1000, "refused calls": 5000},
		Run:   runC12,
	})
	register(&Prop{
		ID: "C23", Level: "exploration", Quick: 120000, Thorough: 1200000,
		Rule:  "each case runs one history twice, with slashes and with random backslashes, on packages and on views, and demands equal answers, byte-equal images and no backslash in any name given out; then every reading method of packages, views and unions is asked under both spellings, and under changed letter case; some cases run one Lua script on two packages, with both spellings of every name and pattern; non-trivial when a name with a separator was respelled",
		MinEv: map[string]int64{"respelled calls": 50000, "reads under both spellings": 10000, "respelled Lua calls": 5000, "Lua calls done": 2000},
		Run:   runC23,
	})
	register(&Prop{
		ID: "C24", Level: "exploration", Quick: 48000, Thorough: 480000,
		Rule:  "each case keeps several nested views of one package under edits made through views and parent, and compares enumeration, lookup, listing, patterns, reading and path conversion of every view with the filtered parent model after each edit; non-trivial with a sibling sharing a textual prefix and two views",
		MinEv: map[string]int64{"views compared": 20000},
		Run:   runC24,
	})
	register(&Prop{
		ID: "C25", Level: "exploration", Quick: 240000, Thorough: 2400000,
		Rule:  "each case writes a package through 1..5 sessions and compares the quick info query, the opening and the writer object with the model and with the header fields decoded independently in every state, then damages the header; non-trivial with package info or a second session",
		MinEv: map[string]int64{"states compared": 10000, "damaged headers": 20000},
		Run:   runC25,
	})
}

// ---------------------------------------------------------------- C12

// handle is a package or a view of it with the prefix of the names.
type handle struct {
	pkg *wpk.Package
	pre string
}

func (h handle) full(name string) string { return h.pre + name }

func related(r *Rng, n int) (l []string) {
	var dirs = []string{"d/", "d/e/", "dd/", "D/", "d/e/f/", "q/", "q/w/", "d.e/", "", "de/"}
	var base = []string{"a", "b", "c", "x.txt", "e", "aa", "f", "A"}
	var seen = map[string]bool{}
	for try := 0; len(l) < n && try < 20*n; try++ {
		var s = pickOf(r, dirs) + pickOf(r, base)
		switch r.Int(12) {
		case 0:
			s = anyName(r)
		case 1:
			s = pickOf(r, dirs) + anyName(r)
		case 2:
			s = pickOf(r, dirs) + strings.Repeat("n", pick(r, 250, 251, 252, 253, 254, 255, 256, 257, 1000))
		}
		if !seen[s] && plainEnd(s) {
			seen[s] = true
			l = append(l, s)
		}
	}
	return
}

// plainEnd is false on names which could turn into the name of a directory itself
// (empty or dot) by taking a prefix away; their meaning in a view is not specified.
func plainEnd(s string) bool {
	return s != "" && s != "." && !strings.HasSuffix(s, "/") && !strings.HasSuffix(s, "/.")
}

func rawTable(pkg *wpk.Package) (keys []string, m map[string]string) {
	m = map[string]string{}
	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		keys = append(keys, fkey)
		m[fkey] = string(ts)
		return true
	})
	return
}

func runC12(c *C) {
	var r = c.R
	var split = r.P(1, 2)
	var s = newSession(split)
	var m = &Model{}
	c.NoErr(s.pkg.Begin(s.wpt, s.f()), "Begin")
	var names = related(r, r.Range(4, 24))
	for _, name := range names[:r.Range(2, min(14, len(names)))] {
		var e = &Ent{Name: name, Data: content(r, r.Int(60)), Tags: extraTags(r, 3)}
		var ts, err = s.pkg.PackData(s.w(), bytes.NewReader(e.Data), name)
		c.NoErr(err, "PackData %s", quote(name))
		if len(e.Tags) > 0 {
			// the path is not always the last tag
			if r.P(1, 2) {
				var l = append([]MTag{{tPath, []byte(name)}}, e.Tags...)
				var off, size = ts.Pos()
				l = append(l, MTag{tOffset, minUint(uint64(off))}, MTag{tSize, minUint(uint64(size))})
				ts = mkTagset(l)
			} else {
				ts = putTags(ts, e.Tags)
			}
			s.pkg.SetTagset(name, ts)
		}
		m.Ents = append(m.Ents, e)
	}
	c.NoErr(s.pkg.Sync(s.wpt, s.f()), "Sync")
	var dat = append([]byte(nil), s.dat()...)
	var fresh = r.P(1, 3)
	if !fresh {
		s.pkg = wpk.NewPackage()
		if r.P(1, 4) {
			// table alone, from a stream
			c.NoErr(s.pkg.OpenStream(bytes.NewReader(s.wpt.B)), "OpenStream")
		} else {
			c.NoErr(s.pkg.OpenStream(&MemFile{B: append([]byte(nil), s.wpt.B...)}), "OpenStream")
		}
	}
	c.T("split %v parsed %v files %s", split, !fresh, quoteAll(m.names()))
	var l = []handle{{s.pkg, ""}}
	for _, d := range []string{"d", "d/e", "q"} {
		if v, err := s.pkg.Sub(d); err == nil {
			l = append(l, handle{v.(*wpk.Package), d + "/"})
		}
	}
	// tagsets handed out earlier stay as they were
	var holds []wpk.TagsetRaw
	var was []string
	var moved, dirmoves = 0, 0
	for k := r.Range(6, 40); k > 0; k-- {
		var h = pickOf(r, l)
		var pkg = h.pkg
		var inview = func() (n []string) {
			for _, e := range m.Ents {
				if x, ok := strings.CutPrefix(e.Name, h.pre); ok {
					n = append(n, x)
				}
			}
			return
		}()
		var some = func() string {
			if len(inview) > 0 && r.P(3, 4) {
				return pickOf(r, inview)
			}
			return pickOf(r, names)
		}
		var keysBefore, before = rawTable(s.pkg)
		var touched = map[string]bool{}
		var newcomers = map[string]bool{} // names which may appear
		var old, nn = some(), pickOf(r, names)
		if r.P(1, 4) {
			nn = some()
		}
		if r.P(1, 6) {
			nn = anyName(r)
		}
		if !plainEnd(old) || !plainEnd(nn) {
			continue
		}
		if ts, ok := pkg.GetTagset(old); ok && len(holds) < 10 {
			holds = append(holds, ts)
			was = append(was, string(ts))
		}
		switch r.Int(9) {
		case 0, 1: // rename
			var err = pkg.Rename(old, nn)
			var e, o = m.get(h.full(old)), m.get(h.full(nn))
			c.T("view %q: Rename %s %s -> %v", h.pre, quote(old), quote(nn), err)
			switch {
			case e == nil:
				c.Check(isNotExist(err), "Rename of absent %s gives %v", quote(old), err)
				c.Ev("refused calls", 1)
			case o != nil:
				c.Check(isExist(err), "Rename of %s to existing %s gives %v", quote(old), quote(nn), err)
				c.Ev("refused calls", 1)
			default:
				c.NoErr(err, "Rename %s %s", quote(old), quote(nn))
				var x = e.clone()
				x.Name, x.Loose = h.full(nn), true
				m.del(e.Name)
				m.Ents = append(m.Ents, x)
				touched[h.full(old)], newcomers[h.full(nn)] = true, true
				moved++
			}
		case 2, 3: // alias
			var err = pkg.PutAlias(old, nn)
			var e, o = m.get(h.full(old)), m.get(h.full(nn))
			c.T("view %q: PutAlias %s %s -> %v", h.pre, quote(old), quote(nn), err)
			switch {
			case e == nil:
				c.Check(isNotExist(err), "PutAlias of absent %s gives %v", quote(old), err)
				c.Ev("refused calls", 1)
			case o != nil:
				c.Check(isExist(err), "PutAlias to existing %s gives %v", quote(nn), err)
				c.Ev("refused calls", 1)
			default:
				c.NoErr(err, "PutAlias %s %s", quote(old), quote(nn))
				var x = e.clone()
				x.Name, x.Loose = h.full(nn), false
				m.Ents = append(m.Ents, x)
				newcomers[x.Name] = true
			}
		case 4: // delete
			var ts, ok = pkg.DelTagset(old)
			var e = m.get(h.full(old))
			c.T("view %q: DelTagset %s -> %v", h.pre, quote(old), ok)
			c.Check(ok == (e != nil), "DelTagset of %s says %v", quote(old), ok)
			if ok {
				c.Check(string(ts) == before[e.Name], "DelTagset of %s gives another tagset", quote(old))
				m.del(e.Name)
				touched[e.Name] = true
			} else {
				c.Check(len(ts) == 0, "DelTagset of absent %s gives a tagset", quote(old))
				c.Ev("refused calls", 1)
			}
		default: // directory
			var od, nd = pick(r, "d", "d/e", "dd", "q", "D", "nodir", "d/e/f", "", "e"), pick(r, "q", "q/w", "dd", "new", "d", "d/e", "d/z", "x/y/z", "", "n"+strings.Repeat("o", 254))
			if r.P(1, 8) && len(inview) > 0 {
				od = path.Dir(pickOf(r, inview))
				if od == "." || od == "/" || strings.HasPrefix(od, "../") || od == ".." {
					od = "d"
				}
			}
			var skip = r.P(1, 2)
			var so, sn = od, nd
			if r.P(1, 6) && od != "" {
				so += "/"
			}
			if r.P(1, 6) && nd != "" {
				sn += "/"
			}
			var op, np = od, nd
			if op != "" {
				op += "/"
			}
			if np != "" {
				np += "/"
			}
			op, np = h.pre+op, h.pre+np
			var n, err = pkg.RenameDir(so, sn, skip)
			c.T("view %q: RenameDir %q %q skip %v -> %d %v", h.pre, so, sn, skip, n, err)
			c.Ev("directory renames", 1)
			dirRename(c, s.pkg, m, op, np, skip, n, err, touched, newcomers, keysBefore)
			if n > 0 {
				dirmoves++
			}
		}
		// the rest is as it was, byte for byte
		var keys, after = rawTable(s.pkg)
		for _, k := range keysBefore {
			if touched[k] {
				continue
			}
			if x, ok := after[k]; !ok || x != before[k] {
				c.Fail("entry %s was not named by the call but changed: present %v\n%x\n%x", quote(k), ok, before[k], x)
			}
		}
		for _, k := range keys {
			if _, ok := before[k]; !ok && !newcomers[k] {
				c.Fail("entry %s appeared", quote(k))
			}
		}
		// places of the entries which were not touched
		var a, b []string
		for _, k := range keysBefore {
			if !touched[k] {
				a = append(a, k)
			}
		}
		for _, k := range keys {
			if !newcomers[k] {
				b = append(b, k)
			}
		}
		if strings.Join(a, "\x01") != strings.Join(b, "\x01") {
			c.Fail("order of the other entries changed: %s, was %s", quoteAll(b), quoteAll(a))
		}
		if d := m.diff(enumView(c, "table", s.pkg, dat), nil, false); d != "" {
			c.Fail("table: %s", d)
		}
		s.pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
			if ts.Path() != fkey {
				c.Fail("entry %s has path tag %s", quote(fkey), quote(ts.Path()))
			}
			return true
		})
		c.Ev("table compared", 1)
	}
	for i, ts := range holds {
		if string(ts) != was[i] {
			c.Fail("a tagset handed out before was changed:\n%x\n%x", was[i], []byte(ts))
		}
	}
	if !bytes.Equal(dat, s.dat()[:len(dat)]) {
		c.Fail("data was changed")
	}
	c.NoErr(s.pkg.Append(s.wpt, s.f()), "Append")
	c.NoErr(s.pkg.Sync(s.wpt, s.f()), "Sync")
	for _, e := range m.Ents {
		e.Loose = true
	}
	checkImage(c, "image afterwards", s.wpt.B, s.dat(), split, m)
	if dirmoves > 0 || moved >= 3 {
		c.NonTrivial()
	}
}

// dirRename checks what a directory rename from prefix op to prefix np did, and carries the model over.
func dirRename(c *C, pkg *wpk.Package, m *Model, op, np string, skip bool, n int, err error, touched, newcomers map[string]bool, order []string) {
	var overlap = strings.HasPrefix(op, np) || strings.HasPrefix(np, op)
	var src, conflicts []string
	for _, e := range m.Ents {
		if rest, ok := strings.CutPrefix(e.Name, op); ok {
			src = append(src, e.Name)
			if m.get(np+rest) != nil {
				conflicts = append(conflicts, e.Name)
			}
		}
	}
	if err != nil && !isExist(err) && !(isNotExist(err) && len(src) == 0) {
		c.Fail("RenameDir gives %v", err)
	}
	if skip && isExist(err) {
		c.Fail("RenameDir with skipping gives %v", err)
	}
	if len(src) == 0 {
		c.Ev("refused calls", 1)
		c.Check(n == 0, "RenameDir of an empty directory gives %d", n)
		return
	}
	if !overlap {
		if len(conflicts) == 0 || skip {
			c.NoErr(err, "RenameDir")
		} else if !isExist(err) {
			c.Fail("RenameDir onto existing %s gives %v", quoteAll(conflicts), err)
		}
	}
	if len(conflicts) > 0 {
		c.Ev("refused calls", 1)
	}
	// who moved: a source is gone from its place or its place is taken by another one
	var num = 0
	var nm = &Model{Info: m.Info}
	var place = map[string]*Ent{}
	for _, e := range m.Ents {
		place[e.Name] = e
	}
	var after = map[string][]byte{}
	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		after[fkey] = ts
		return true
	})
	if overlap {
		// A chain is possible only here: an entry may take the place its neighbour has left. The first of a chain
		// is still in its place if the name is, nobody else could get there, and so on down the chain.
		var moved = map[string]bool{}
		var leaves func(e *Ent) bool
		leaves = func(e *Ent) bool {
			if v, ok := moved[e.Name]; ok {
				return v
			}
			var rest, below = strings.CutPrefix(e.Name, op)
			if !below || np == op {
				moved[e.Name] = false
				return false
			}
			var _, present = after[e.Name]
			var v = !present
			if back, ok := strings.CutPrefix(e.Name, np); ok && present {
				if p := place[op+back]; p != nil {
					v = leaves(p)
				}
			}
			if nn := np + rest; v && after[nn] == nil {
				c.Fail("RenameDir %q %q: entry %s is neither at its place nor at %s", op, np, quote(e.Name), quote(nn))
			}
			moved[e.Name] = v
			return v
		}
		for _, e := range m.Ents {
			var x = e.clone()
			if rest, ok := strings.CutPrefix(e.Name, op); ok {
				x.Loose = true
				if leaves(e) {
					x.Name = np + rest
					num++
				}
			}
			nm.Ents = append(nm.Ents, x)
		}
		var used = map[string]bool{}
		for i, x := range nm.Ents {
			if used[x.Name] || !sameEnt(c, pkg, after[x.Name], x) {
				c.Fail("RenameDir %q %q: at %s is not entry %s", op, np, quote(x.Name), quote(m.Ents[i].Name))
			}
			used[x.Name] = true
		}
		if n != num {
			c.Fail("RenameDir %q %q gives %d, moved are %d", op, np, n, num)
		}
		if err == nil && !skip && len(conflicts) == 0 && n != len(src) {
			c.Fail("RenameDir %q %q gives %d of %d", op, np, n, len(src))
		}
	} else {
		for _, e := range m.Ents {
			var x = e.clone()
			if rest, ok := strings.CutPrefix(e.Name, op); ok && place[np+rest] == nil {
				var _, moved = after[np+rest]
				if moved {
					x.Name, x.Loose = np+rest, true
					num++
				} else if err == nil {
					c.Fail("RenameDir %q %q left %s", op, np, quote(e.Name))
				}
			}
			nm.Ents = append(nm.Ents, x)
		}
		if n != num {
			c.Fail("RenameDir %q %q gives %d, moved are %d", op, np, n, num)
		}
		if !skip && len(conflicts) > 0 { // it stops at the first conflict, in the order of the table
			var stopped = ""
			var conf = map[string]bool{}
			for _, k := range conflicts {
				conf[k] = true
			}
			for _, k := range order {
				if rest, ok := strings.CutPrefix(k, op); ok {
					if conf[k] {
						stopped = k
					} else if _, moved := after[np+rest]; moved && stopped != "" {
						c.Fail("RenameDir %q %q has to stop at %s but moves %s", op, np, quote(stopped), quote(k))
					}
				}
			}
		}
	}
	for i, e := range nm.Ents {
		if e.Name != m.Ents[i].Name {
			touched[m.Ents[i].Name] = true
			newcomers[e.Name] = true
		}
	}
	m.Ents = nm.Ents
}

func sameEnt(c *C, pkg *wpk.Package, ts []byte, e *Ent) bool {
	if ts == nil {
		return false
	}
	var tags, err = decTags(ts)
	if err != nil {
		return false
	}
	var v, _ = getTag(tags, tSize)
	var n, _ = decUint(v)
	return sameTags(extraOf(tags), e.Tags) && n == uint64(len(e.Data))
}

// ---------------------------------------------------------------- C23

// respell changes separators.
func respell(r *Rng, s string) string {
	var b = []byte(s)
	for i := range b {
		if b[i] == '/' && r.P(2, 3) {
			b[i] = '\\'
		}
	}
	return string(b)
}

// runC23lua runs one script on two packages of one interpreter, with slashes and with random backslashes.
func runC23lua(c *C) {
	var r = c.R
	var l = newLvm(c)
	defer l.ls.Close()
	var split = r.P(1, 2)
	var reopen = r.P(1, 3)
	var paths [2][2]string
	for i, v := range []string{"pa", "pb"} {
		paths[i] = [2]string{c.Path(v + ".wpt"), c.Path(v + ".wpf")}
		var args = luaStr(paths[i][0])
		if split {
			args += ", " + luaStr(paths[i][1])
		}
		l.must(0, "%s = wpk.new() %s:begin(%s)", v, v, args)
		if reopen {
			l.must(0, "%s:finalize() %s = wpk.new() %s:load(%s) %s:append()", v, v, v, args, v)
		}
	}
	var src = c.Path("src.txt")
	writeFile(c, src, content(r, r.Int(200)))
	var names = fsNames(r, r.Range(3, 9))
	for i, n := range names {
		if !strings.Contains(n, "/") && r.P(2, 3) {
			names[i] = pick(r, "d/", "d/e/", "D/") + n
		}
	}
	var respelled = false
	var lit = func(n int) string { // literal for a format
		return strings.ReplaceAll(luaStr(string(content(r, r.Int(n)))), "%", "\\037")
	}
	// one call for both packages: verbs are %n for the spelled argument, the other text is common
	var both = func(call string, args ...string) {
		var la, lb []any
		for _, a := range args {
			var b = respell(r, a)
			respelled = respelled || a != b
			la, lb = append(la, luaStr(a)), append(lb, luaStr(b))
		}
		var ca, cb = fmt.Sprintf(call, la...), fmt.Sprintf(call, lb...)
		var oka, va, ma = l.do("return pa:" + ca)
		var okb, vb, mb = l.do("return pb:" + cb)
		c.Ev("respelled Lua calls", 1)
		var x, y = fmt.Sprint(oka, va), fmt.Sprint(okb, vb)
		if oka {
			c.Ev("Lua calls done", 1)
		}
		if x != y {
			c.Fail("%s gives %s %s, %s gives %s %s", ca, x, ma, cb, y, mb)
		}
	}
	for k := r.Range(6, 25); k > 0; k-- {
		var n1, n2 = pickOf(r, names), pickOf(r, names)
		var d1, d2 = path.Dir(n1), pick(r, path.Dir(n2), "new/dir", path.Dir(n1)+"/sub")
		switch r.Int(14) {
		case 0, 1, 2:
			both("putdata(%s, "+lit(60)+")", n1)
		case 3:
			both("putfile(%s, "+strings.ReplaceAll(luaStr(src), "%", "\\037")+", {atime=1700000000000})", n1) // reading can move access time
		case 4:
			both("rename(%s, %s)", n1, n2)
		case 5:
			both("putalias(%s, %s)", n1, n2)
		case 6:
			both("delalias(%s)", n1)
		case 7:
			if d1 != "." && d2 != "." {
				both("renamedir(%s, %s"+pick(r, "", ", true", ", false")+")", d1+pick(r, "", "/"), d2)
			}
		case 8:
			both("hasfile(%s)", n1)
			both("filesize(%s)", n1)
		case 9:
			both("settag(%s, \"comment\", "+lit(9)+")", n1)
		case 10:
			both("addtag(%s, \"label\", "+lit(9)+")", n1)
		case 11:
			both("gettag(%s, \"path\")", n1)
			both("hastag(%s, \"label\")", n1)
			both("deltag(%s, \"label\")", n1)
		case 12:
			both("settags(%s, {comment=\"x\", [300]=\"0a\"})", n1)
			both("addtags(%s, {comment=\"y\", [301]=\"0b\"})", n1)
			both("deltags(%s, {[300]=1})", n1)
			both("gettag(%s, \"comment\")", n1)
		case 13:
			var pat = pick(r, n1, d1+"/*", "*/*", "d/*/*", path.Dir(n1)+"/?"+path.Base(n1), "[a-z]/*", "*")
			if !strings.Contains(pat, "[") || !strings.Contains(n1, "[") {
				both("glob(%s)", pat)
			}
		}
	}
	both("glob(%s)", "*")
	both("glob(%s)", "*/*")
	both("glob(%s)", "*/*/*")
	l.must(0, "pa:finalize() pb:finalize()")
	for i := range paths[0] {
		if i == 1 && !split {
			break
		}
		var a, _ = os.ReadFile(paths[0][i])
		var b, _ = os.ReadFile(paths[1][i])
		if i == 0 {
			for _, img := range [][]byte{a, b} {
				var dsz = int64(len(img))
				if fi, err := os.Stat(paths[0][1]); err == nil && split {
					dsz = fi.Size()
				}
				var rp, err = decPkg(img, dsz, split)
				c.NoErr(err, "layout")
				for _, e := range rp.Ents {
					if strings.Contains(e.Name, "\\") {
						c.Fail("script has stored name with backslash %s", quote(e.Name))
					}
				}
			}
		}
		if !bytes.Equal(a, b) {
			c.Fail("file #%d written by scripts differs: %d and %d bytes", i, len(a), len(b))
		}
	}
	if respelled {
		c.NonTrivial()
	}
	c.Mix(fmt.Sprint("lua", split, names))
}

func errKind(err error) string {
	switch {
	case err == nil:
		return "ok"
	case isExist(err):
		return "exist"
	case isNotExist(err):
		return "not exist"
	}
	return "other: " + err.Error()
}

func flipCase(s string) string {
	var b = []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		} else if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
		}
	}
	return string(b)
}

// liveTagger serves nested files from the stream that is written now.
type liveTagger struct{ s *session }

func (t *liveTagger) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	return (&memTagger{t.s.dat()}).OpenTagset(ts)
}
func (t *liveTagger) Close() error { return nil }

func runC23(c *C) {
	var r = c.R
	if r.P(1, 30) {
		runC23lua(c)
		return
	}
	var split = r.P(1, 2)
	var sa, sb = newSession(split), newSession(split)
	for _, s := range []*session{sa, sb} {
		s.wpt.L, s.l = nil, nil
		if split {
			s.wpf.L = nil
		}
		s.pkg.Tagger = &liveTagger{s}
		c.NoErr(s.pkg.Begin(s.wpt, s.f()), "Begin")
	}
	var names = fsNames(r, r.Range(3, 14))
	for i, n := range names {
		if !strings.Contains(n, "/") && r.P(1, 2) {
			names[i] = pick(r, "d/", "d/e/", "D/") + n
		}
	}
	{ // distinct and no file is a directory
		var seen = map[string]bool{}
		var l []string
		for _, n := range names {
			var bad = seen[n]
			for _, o := range l {
				bad = bad || strings.HasPrefix(o, n+"/") || strings.HasPrefix(n, o+"/")
			}
			seen[n] = true
			if !bad {
				l = append(l, n)
			}
		}
		names = l
	}
	var pa, pb = []*wpk.Package{sa.pkg}, []*wpk.Package{sb.pkg}
	var same = func(what string, a, b any) {
		c.Ev("respelled calls", 1)
		var x, y = fmt.Sprint(a), fmt.Sprint(b)
		if x != y {
			c.Fail("%s: with slashes %s, respelled %s", what, quote(x), quote(y))
		}
	}
	var respelled = 0
	for k := r.Range(8, 40); k > 0; k-- {
		var i = r.Int(len(pa))
		var a, b = pa[i], pb[i]
		var n1, n2 = pickOf(r, names), pickOf(r, names)
		var rel = func(s string) string {
			if a.Workspace != "." && r.P(1, 2) {
				if x, ok := strings.CutPrefix(s, a.Workspace+"/"); ok {
					return x
				}
			}
			return s
		}
		n1, n2 = rel(n1), rel(n2)
		var m1, m2 = respell(r, n1), respell(r, n2)
		if m1 != n1 {
			respelled++
		}
		var op = r.Int(13)
		c.T("#%d view %s op %d %q %q", k, a.Workspace, op, m1, m2)
		switch op {
		case 0, 1, 2:
			var data = content(r, r.Int(80))
			var _, ea = a.PackData(sa.w(), bytes.NewReader(data), n1)
			var _, eb = b.PackData(sb.w(), bytes.NewReader(data), m1)
			same("PackData "+m1, errKind(ea), errKind(eb))
		case 3:
			var data = content(r, r.Int(80))
			var t = time.Unix(int64(r.Int(1<<31)), 5)
			var _, ea = a.PackFile(sa.w(), &memFile{src: bytes.NewReader(data), mod: t}, n1)
			var _, eb = b.PackFile(sb.w(), &memFile{src: bytes.NewReader(data), mod: t}, m1)
			same("PackFile "+m1, errKind(ea), errKind(eb))
		case 4:
			same("Rename "+m1+" "+m2, errKind(a.Rename(n1, n2)), errKind(b.Rename(m1, m2)))
		case 5:
			same("PutAlias "+m1+" "+m2, errKind(a.PutAlias(n1, n2)), errKind(b.PutAlias(m1, m2)))
		case 6:
			var ta, oka = a.DelTagset(n1)
			var tb, okb = b.DelTagset(m1)
			same("DelTagset "+m1, []any{oka, []byte(ta)}, []any{okb, []byte(tb)})
		case 7:
			var d1, d2 = path.Dir(n1), pick(r, path.Dir(n2), "new/dir", path.Dir(n1)+"/sub")
			if d1 == "." || d2 == "." {
				continue
			}
			var skip = r.P(1, 2)
			var sl = pick(r, "", "/")
			var na, ea = a.RenameDir(d1+sl, d2+sl, skip)
			var nb, eb = b.RenameDir(respell(r, d1+sl), respell(r, d2+sl), skip)
			same("RenameDir "+d1+" "+d2, []any{na, errKind(ea)}, []any{nb, errKind(eb)})
		case 8:
			var ta, oka = a.GetTagset(n1)
			var tb, okb = b.GetTagset(m1)
			same("GetTagset "+m1, []any{oka, []byte(ta), a.HasTagset(n1)}, []any{okb, []byte(tb), b.HasTagset(m1)})
			if oka {
				ta, tb = wpk.CopyTagset(ta).Set(110, wpk.StrTag("x")), wpk.CopyTagset(tb).Set(110, wpk.StrTag("x"))
				a.SetTagset(n1, ta)
				b.SetTagset(m1, tb)
			}
		case 9: // path in the tagset is respelled
			var ta, oka = a.GetTagset(n1)
			var tb, _ = b.GetTagset(n1)
			if oka {
				var id = r.Range(200, 210)
				ta = wpk.CopyTagset(ta).Set(wpk.TID(id), wpk.StrTag("y"))
				tb = wpk.CopyTagset(tb).Set(wpk.TID(id), wpk.StrTag("y"))
				tb = tb.Set(wpk.TIDpath, wpk.StrTag(respell(r, tb.Path())))
				a.SetupTagset(ta)
				b.SetupTagset(tb)
			}
		case 10:
			if len(pa) < 5 {
				var d = path.Dir(n1)
				if d == "." {
					continue
				}
				var va, ea = a.Sub(d)
				var vb, eb = b.Sub(respell(r, d))
				same("Sub "+d, errKind(ea), errKind(eb))
				if ea == nil {
					pa, pb = append(pa, va.(*wpk.Package)), append(pb, vb.(*wpk.Package))
					same("Workspace", va.(*wpk.Package).Workspace, vb.(*wpk.Package).Workspace)
				}
			}
		case 11:
			same("BaseTagset", []byte(a.BaseTagset(5, 6, n1)), []byte(b.BaseTagset(5, 6, m1)))
		case 12: // letter case
			var f = flipCase(n1)
			if f != n1 && !func() bool { _, ok := a.GetTagset(f); return ok }() {
				var g = respell(r, f)
				var _, ok = b.GetTagset(g)
				c.Check(!ok && !b.HasTagset(g), "%s is found though only %s may be there", quote(g), quote(n1))
				var _, err = b.ReadFile(g)
				c.Check(isNotExist(err), "ReadFile of %s gives %v", quote(g), err)
				c.Check(isNotExist(b.Rename(g, "x")), "%s is renamed", quote(g))
			}
		}
		var ka, ta = rawTable(sa.pkg)
		var kb, tb = rawTable(sb.pkg)
		same("names", ka, kb)
		for _, k := range kb {
			if strings.Contains(k, "\\") {
				c.Fail("a name with backslash is listed: %s", quote(k))
			}
			if ta[k] != tb[k] {
				c.Fail("tagset of %s: with slashes %x, respelled %x", quote(k), ta[k], tb[k])
			}
		}
	}
	c.NoErr(sa.pkg.Sync(sa.wpt, sa.f()), "Sync")
	c.NoErr(sb.pkg.Sync(sb.wpt, sb.f()), "Sync")
	if !bytes.Equal(sa.wpt.B, sb.wpt.B) || !bytes.Equal(sa.dat(), sb.dat()) {
		c.Fail("images differ: %d and %d bytes", len(sa.wpt.B), len(sb.wpt.B))
	}
	if respelled > 0 {
		c.NonTrivial()
	}
	// a foreign package with backslashes
	var foreign = wpk.NewPackage()
	{
		var rp, err = decPkg(sa.wpt.B, int64(len(sa.dat())), split)
		c.NoErr(err, "layout")
		var tab = encTags(rp.Info)
		tab = append(encUint(uint64(len(tab)), 2), tab...)
		for _, e := range rp.Ents {
			for i := range e.Tags {
				if e.Tags[i].ID == tPath {
					e.Tags[i].B = []byte(respell(r, string(e.Tags[i].B)))
				}
			}
			var b = encTags(e.Tags)
			tab = append(append(tab, encUint(uint64(len(b)), 2)...), b...)
		}
		tab = append(tab, 0, 0)
		var img = append([]byte(nil), sa.wpt.B...)
		img = append(img[:rp.Hdr.FttOff], tab...)
		c.Check(uint64(len(tab)) == rp.Hdr.FttSize, "harness: table of %d bytes, was %d", len(tab), rp.Hdr.FttSize)
		c.NoErr(foreign.OpenStream(bytes.NewReader(img)), "OpenStream of a package with backslashes in path tags")
		foreign.Tagger = &liveTagger{sa}
	}
	// reading under both spellings
	var _, raw = rawTable(sa.pkg)
	var files = sortedKeys(raw)
	var u = &wpk.Union{List: []*wpk.Package{sa.pkg, foreign}}
	type rfs interface {
		fs.StatFS
		fs.ReadFileFS
		fs.ReadDirFS
		fs.GlobFS
		fs.SubFS
	}
	type target struct {
		name string
		f    rfs
		pre  string
	}
	var targets = []target{{"package", sa.pkg, ""}, {"foreign package", foreign, ""}, {"union", u, ""}}
	if r.P(1, 3) {
		targets = append(targets, target{"union of one", &wpk.Union{List: []*wpk.Package{pick(r, sa.pkg, foreign)}}, ""})
	}
	for _, d := range []string{"d", "d/e", "D", "img"} {
		for i, base := range []rfs{sa.pkg, foreign, u} {
			var sub, err = base.Sub(respell(r, d))
			var exp, eerr = sa.pkg.Sub(d)
			_ = exp
			same("Sub "+d, errKind(eerr), errKind(err))
			if err == nil {
				targets = append(targets, target{fmt.Sprintf("view %s of #%d", d, i), sub.(rfs), d + "/"})
			}
		}
	}
	var clean = func(what string, l []string) {
		for _, s := range l {
			if strings.Contains(s, "\\") {
				c.Fail("%s gives a name with backslash %s", what, quote(s))
			}
		}
	}
	for _, t := range targets {
		var below []string
		for _, n := range files {
			if x, ok := strings.CutPrefix(n, t.pre); ok {
				below = append(below, x)
			}
		}
		var dirs = map[string]bool{}
		for k := 0; k < 6 && len(below) > 0; k++ {
			var n = pickOf(r, below)
			var m = respell(r, n)
			c.Ev("reads under both spellings", 1)
			var a, ea = t.f.ReadFile(n)
			var b, eb = t.f.ReadFile(m)
			if ea != nil || eb != nil || !bytes.Equal(a, b) {
				c.Fail("%s: ReadFile %s %v, %s %v", t.name, quote(n), ea, quote(m), eb)
			}
			var fa, fea = t.f.Stat(n)
			var fb, feb = t.f.Stat(m)
			if fea != nil || feb != nil || fa.Name() != fb.Name() || fa.Size() != fb.Size() || fa.Name() != path.Base(n) {
				c.Fail("%s: Stat %s %v, %s %v", t.name, quote(n), fea, quote(m), feb)
			}
			var h, eh = t.f.Open(m)
			if eh != nil {
				c.Fail("%s: Open %s: %v", t.name, quote(m), eh)
			}
			b, eb = readAllHandle(h)
			if eb != nil || !bytes.Equal(a, b) {
				c.Fail("%s: Open %s reads %v", t.name, quote(m), eb)
			}
			for d := path.Dir(n); d != "."; d = path.Dir(d) {
				dirs[d] = true
			}
			var f = flipCase(n)
			if f != n {
				var there = false
				for _, x := range below {
					there = there || x == f || strings.HasPrefix(x, f+"/")
				}
				if !there {
					var _, e1 = t.f.ReadFile(respell(r, f))
					var _, e2 = t.f.Stat(respell(r, f))
					var _, e3 = t.f.Open(respell(r, f))
					if !isNotExist(e1) || !isNotExist(e2) || !isNotExist(e3) {
						c.Fail("%s: %s is found as %s: %v %v %v", t.name, quote(n), quote(f), e1, e2, e3)
					}
				}
			}
		}
		for _, d := range sortedKeys(dirs) {
			if _, ok := raw[t.pre+d]; ok {
				continue // a file and a directory at once
			}
			var m = respell(r, d)
			var la, ea = t.f.ReadDir(d)
			var lb, eb = t.f.ReadDir(m)
			var na, nb []string
			for _, x := range la {
				na = append(na, x.Name())
			}
			for _, x := range lb {
				nb = append(nb, x.Name())
			}
			same(t.name+": ReadDir "+m, []any{na, errKind(ea)}, []any{nb, errKind(eb)})
			c.Check(ea == nil && len(na) > 0, "%s: ReadDir %s gives %v", t.name, quote(d), ea)
			clean(t.name+": ReadDir "+d, na)
			var fi, e1 = t.f.Stat(m)
			if e1 != nil || !fi.IsDir() || fi.Name() != path.Base(d) {
				c.Fail("%s: Stat of directory %s gives %v", t.name, quote(m), e1)
			}
			var h, e2 = t.f.Open(m)
			if e2 != nil {
				c.Fail("%s: Open of directory %s gives %v", t.name, quote(m), e2)
			}
			var lc, e3 = h.(fs.ReadDirFile).ReadDir(-1)
			if e3 != nil || len(lc) != len(la) {
				c.Fail("%s: handle of %s lists %d entries %v, want %d", t.name, quote(m), len(lc), e3, len(la))
			}
			var _, e4 = t.f.Sub(m)
			c.NoErr(e4, "%s: Sub %s", t.name, quote(m))
			var pat = d + "/" + pick(r, "*", "?*", "*/*")
			var ga, e5 = t.f.Glob(pat)
			var gb, e6 = t.f.Glob(respell(r, pat))
			same(t.name+": Glob "+pat, []any{ga, errKind(e5)}, []any{gb, errKind(e6)})
			clean(t.name+": Glob", ga)
			if e5 != nil || len(ga) == 0 && !strings.ContainsAny(d, "*?[") && strings.HasSuffix(pat, "/*") && !strings.HasSuffix(pat, "*/*") && anyFile(la) {
				c.Fail("%s: Glob %s gives nothing, %v", t.name, pat, e5)
			}
		}
	}
	clean("AllKeys", u.AllKeys())
	if len(u.AllKeys()) != len(files) {
		c.Fail("AllKeys of twin packages gives %d names, want %d", len(u.AllKeys()), len(files))
	}
	var kf, tf = rawTable(foreign)
	clean("Enum of a foreign package", kf)
	for _, k := range kf {
		if tf[k] != raw[k] {
			c.Fail("foreign package keeps %x for %s, want %x", tf[k], quote(k), raw[k])
		}
	}
	if r.P(1, 2) {
		var f, err = u.Open(wpk.PackName + "\\0")
		c.NoErr(err, "Open %s\\0", wpk.PackName)
		f.Close()
	}
}

func anyFile(l []fs.DirEntry) bool {
	for _, e := range l {
		if !e.IsDir() {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- C24

func runC24(c *C) {
	var r = c.R
	var split = r.P(1, 2)
	var s = newSession(split)
	s.wpt.L = nil
	if split {
		s.wpf.L = nil
	}
	c.NoErr(s.pkg.Begin(s.wpt, s.f()), "Begin")
	s.pkg.Tagger = &liveTagger{s}
	var m = &Model{}
	var dirs = []string{"d/", "d/e/", "d1/", "dd/", "d.x/", "d/e1/", "d/e/f/", "D/", "d e/", "d-/", "d/d/", "d/d/d/", "e/", ""}
	var base = []string{"a", "b", "c.txt", "aa", "A", "x"}
	var newName = func() string { return pickOf(r, dirs) + pickOf(r, base) }
	var add = func(h handle, name string) {
		var data = content(r, r.Int(50))
		var err error
		var e = &Ent{Name: h.full(name), Data: data}
		if r.P(1, 3) {
			_, err = h.pkg.PackFile(s.w(), &memFile{src: bytes.NewReader(data), mod: time.Unix(77, 0)}, name)
			e.Tags = []MTag{timeTag(77, 0)}
		} else {
			_, err = h.pkg.PackData(s.w(), bytes.NewReader(data), name)
		}
		c.T("view %q: pack %q -> %v", h.pre, name, err)
		if m.get(e.Name) != nil {
			c.Check(isExist(err), "packing existing %s gives %v", quote(e.Name), err)
			return
		}
		c.NoErr(err, "packing %s", quote(e.Name))
		m.Ents = append(m.Ents, e)
	}
	var root = handle{s.pkg, ""}
	for k := r.Range(3, 14); k > 0; k-- {
		add(root, newName())
	}
	var l = []handle{root}
	var views = 0
	for k := r.Range(4, 20); k > 0; k-- {
		var h = pickOf(r, l)
		var inview []string
		for _, e := range m.Ents {
			if x, ok := strings.CutPrefix(e.Name, h.pre); ok {
				inview = append(inview, x)
			}
		}
		var some = func() string {
			if len(inview) > 0 && r.P(3, 4) {
				return pickOf(r, inview)
			}
			return newName()
		}
		switch r.Int(11) {
		case 0, 1:
			add(h, newName())
		case 2, 3, 4: // nested view
			if len(l) > 7 {
				break
			}
			var dir = path.Dir(some())
			if r.P(1, 4) {
				dir = strings.TrimSuffix(pickOf(r, dirs), "/")
			}
			if r.P(1, 8) && len(dir) > 1 {
				dir = dir[:len(dir)-1] // textual prefix
				dir = strings.TrimSuffix(dir, "/")
			}
			if dir == "" {
				dir = "."
			}
			var v, err = h.pkg.Sub(dir)
			c.T("view %q: Sub %q -> %v", h.pre, dir, err)
			var pre = h.pre + dir + "/"
			if dir == "." {
				pre = h.pre
			}
			var exists = dir == "."
			for _, e := range m.Ents {
				exists = exists || strings.HasPrefix(e.Name, pre)
			}
			if !exists {
				c.Check(isNotExist(err) && v == nil, "Sub of absent %s in %q gives %v", quote(dir), h.pre, err)
				break
			}
			c.NoErr(err, "Sub %s in %q", quote(dir), h.pre)
			l = append(l, handle{v.(*wpk.Package), pre})
			views++
		case 5:
			var a, b = some(), newName()
			var err = h.pkg.Rename(a, b)
			c.T("view %q: Rename %q %q -> %v", h.pre, a, b, err)
			var e = m.get(h.full(a))
			switch {
			case e == nil:
				c.Check(isNotExist(err), "Rename of absent gives %v", err)
			case m.get(h.full(b)) != nil:
				c.Check(isExist(err), "Rename to existing gives %v", err)
			default:
				c.NoErr(err, "Rename")
				m.del(e.Name)
				var x = e.clone()
				x.Name, x.Loose = h.full(b), true
				m.Ents = append(m.Ents, x)
			}
		case 6:
			var a, b = some(), newName()
			var err = h.pkg.PutAlias(a, b)
			c.T("view %q: PutAlias %q %q -> %v", h.pre, a, b, err)
			var e = m.get(h.full(a))
			switch {
			case e == nil:
				c.Check(isNotExist(err), "PutAlias of absent gives %v", err)
			case m.get(h.full(b)) != nil:
				c.Check(isExist(err), "PutAlias to existing gives %v", err)
			default:
				c.NoErr(err, "PutAlias")
				var x = e.clone()
				x.Name, x.Loose = h.full(b), true
				m.Ents = append(m.Ents, x)
			}
		case 7:
			var a = some()
			var _, ok = h.pkg.DelTagset(a)
			c.T("view %q: DelTagset %q -> %v", h.pre, a, ok)
			c.Check(ok == m.del(h.full(a)), "DelTagset %s in %q gives %v", quote(a), h.pre, ok)
		case 8:
			var od, nd = pick(r, "e", "d", "d/e", "d/d"), pick(r, "n", "n/m", "d1", "z")
			var n, err = h.pkg.RenameDir(od, nd, true)
			c.NoErr(err, "RenameDir")
			var want = 0
			for _, e := range m.clone().Ents {
				if rest, ok := strings.CutPrefix(e.Name, h.pre+od+"/"); ok && m.get(h.pre+nd+"/"+rest) == nil {
					var x = e.clone()
					x.Name, x.Loose = h.pre+nd+"/"+rest, true
					m.del(e.Name)
					m.Ents = append(m.Ents, x)
					want++
				}
			}
			c.T("view %q: RenameDir %q %q -> %d", h.pre, od, nd, n)
			c.Check(n == want, "RenameDir %s %s in %q gives %d, want %d", od, nd, h.pre, n, want)
		case 9: // retag
			var a = some()
			var ts, ok = h.pkg.GetTagset(a)
			var e = m.get(h.full(a))
			c.Check(ok == (e != nil), "GetTagset %s in %q gives %v", quote(a), h.pre, ok)
			if ok {
				var v = content(r, 5)
				ts = wpk.CopyTagset(ts).Set(200, wpk.TagRaw(v))
				e.Tags, _ = setMTag(e.Tags, MTag{200, v})
				if r.P(1, 2) {
					h.pkg.SetTagset(a, ts)
				} else {
					h.pkg.SetupTagset(ts)
				}
			}
		case 10: // a tagset made through the view
			var a, src = newName(), some()
			var e = m.get(h.full(src))
			if e == nil || m.get(h.full(a)) != nil {
				break
			}
			var ts, _ = h.pkg.GetTagset(src)
			var off, size = ts.Pos()
			h.pkg.SetTagset(a, h.pkg.BaseTagset(off, size, a))
			c.T("view %q: SetTagset %q as %q", h.pre, a, src)
			m.Ents = append(m.Ents, &Ent{Name: h.full(a), Data: e.Data, Loose: true})
		}
		for _, h := range l {
			checkView(c, h, m)
		}
	}
	if views >= 2 {
		c.NonTrivial()
	}
	c.NoErr(s.pkg.Sync(s.wpt, s.f()), "Sync")
	checkImage(c, "image", s.wpt.B, s.dat(), split, m)
}

func checkView(c *C, h handle, m *Model) {
	var r = c.R
	c.Ev("views compared", 1)
	var what = fmt.Sprintf("view %q", h.pre)
	// the parent order is taken for the view
	var want []string
	var ents = map[string]*Ent{}
	for _, e := range m.Ents {
		if x, ok := strings.CutPrefix(e.Name, h.pre); ok {
			want = append(want, x)
			ents[x] = e
		}
	}
	var got []string
	h.pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		got = append(got, fkey)
		if ts.Path() != h.full(fkey) {
			c.Fail("%s: entry %s has path %s", what, quote(fkey), quote(ts.Path()))
		}
		return true
	})
	if len(got) != len(want) {
		c.Fail("%s: lists %s, want %s", what, quoteAll(got), quoteAll(want))
	}
	for _, n := range got {
		if ents[n] == nil {
			c.Fail("%s: lists %s, want %s", what, quoteAll(got), quoteAll(want))
		}
	}
	// stop on demand
	if len(got) > 1 {
		var k, n = r.Range(1, len(got)), 0
		h.pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
			n++
			return n < k
		})
		c.Check(n == k, "%s: Enum stopped after %d of %d", what, n, k)
	}
	// conversions
	for k := 0; k < 3; k++ {
		var rel = pick(r, "a", "d/x", "e", "x y/z", "..a")
		if len(got) > 0 && r.P(1, 2) {
			rel = pickOf(r, got)
		}
		if f := h.pkg.FullPath(rel); f != h.full(rel) {
			c.Fail("%s: FullPath(%s) is %s", what, quote(rel), quote(f))
		}
		if t := h.pkg.TrimPath(h.full(rel)); t != rel {
			c.Fail("%s: TrimPath(%s) is %s", what, quote(h.full(rel)), quote(t))
		}
	}
	if h.pre != "" {
		var ws = strings.TrimSuffix(h.pre, "/")
		for _, foreign := range []string{ws + "1/a", ws + "x", "other", ws[:len(ws)-1], ws[:len(ws)-1] + "/a", "x" + ws + "/a", ws + ".txt", strings.ToUpper(ws) + "/a"} {
			if strings.HasPrefix(foreign, h.pre) || foreign == ws || foreign == "" {
				continue
			}
			if t := h.pkg.TrimPath(foreign); t != "" {
				c.Fail("%s: TrimPath of foreign %s is %s", what, quote(foreign), quote(t))
			}
		}
		if t := h.pkg.TrimPath(ws + "/"); t != "." {
			c.Fail("TrimPath of its own directory with slash is %s", quote(t))
		}
		if t := h.pkg.TrimPath(ws); t != "." {
			c.Fail("%s: TrimPath of its own directory is %s", what, quote(t))
		}
		if f := h.pkg.FullPath("."); f != ws {
			c.Fail("%s: FullPath of dot is %s", what, quote(f))
		}
	}
	// lookups inside
	for k := 0; k < 3 && len(got) > 0; k++ {
		var n = pickOf(r, got)
		var e = ents[n]
		var ts, ok = h.pkg.GetTagset(n)
		c.Check(ok && h.pkg.HasTagset(n), "%s: %s is listed but not found", what, quote(n))
		c.Check(ts.Path() == h.full(n), "%s: GetTagset %s gives %s", what, quote(n), quote(ts.Path()))
		var b, err = h.pkg.ReadFile(n)
		if err != nil || !bytes.Equal(b, e.Data) {
			c.Fail("%s: ReadFile %s gives %s %v, want %s", what, quote(n), hexShort(b), err, hexShort(e.Data))
		}
		var fi, serr = h.pkg.Stat(n)
		if serr != nil || fi.Size() != int64(len(e.Data)) || fi.Name() != path.Base(n) || fi.IsDir() {
			c.Fail("%s: Stat %s gives %v", what, quote(n), serr)
		}
		var f, oerr = h.pkg.Open(n)
		c.NoErr(oerr, "%s: Open %s", what, quote(n))
		if b, err = readAllHandle(f); err != nil || !bytes.Equal(b, e.Data) {
			c.Fail("%s: Open %s reads %s %v, want %s", what, quote(n), hexShort(b), err, hexShort(e.Data))
		}
	}
	// nothing outside
	for k := 0; k < 3 && len(m.Ents) > 0 && h.pre != ""; k++ {
		var e = pickOf(r, m.Ents)
		for _, n := range []string{"../" + e.Name, "/" + e.Name, e.Name, "./" + e.Name, "../" + path.Base(path.Dir(strings.TrimSuffix(h.pre, "/")+"1")) + "/" + path.Base(e.Name), wpk.PackName} {
			if ents[n] != nil {
				continue
			}
			var isdir = false
			for x := range ents {
				isdir = isdir || strings.HasPrefix(x, n+"/")
			}
			if isdir {
				continue
			}
			var _, ok = h.pkg.GetTagset(n)
			if ok || h.pkg.HasTagset(n) {
				c.Fail("%s: %s is found", what, quote(n))
			}
			if _, err := h.pkg.Open(n); !isNotExist(err) {
				c.Fail("%s: Open %s gives %v", what, quote(n), err)
			}
			if _, err := h.pkg.ReadFile(n); !isNotExist(err) {
				c.Fail("%s: ReadFile %s gives %v", what, quote(n), err)
			}
			if _, err := h.pkg.Stat(n); !isNotExist(err) {
				c.Fail("%s: Stat %s gives %v", what, quote(n), err)
			}
		}
	}
	// listing; names which are file and directory at once are left out
	var kind = map[string]int{}
	for _, n := range want {
		if i := strings.IndexByte(n, '/'); i >= 0 {
			kind[n[:i]] |= 1
		} else {
			kind[n] |= 2
		}
	}
	var lst, err = h.pkg.ReadDir(".")
	if len(want) > 0 {
		c.NoErr(err, "%s: ReadDir", what)
	}
	var keys = sortedKeys(kind)
	if len(lst) != len(keys) {
		c.Fail("%s: ReadDir gives %d entries, want %s", what, len(lst), quoteAll(keys))
	}
	for i, n := range keys {
		if lst[i].Name() != n || kind[n] != 3 && lst[i].IsDir() != (kind[n] == 1) {
			c.Fail("%s: ReadDir entry %d is %s dir %v, want %s", what, i, quote(lst[i].Name()), lst[i].IsDir(), quote(n))
		}
	}
	// patterns see relative names only
	var pat = pick(r, "*", "*/*", "d*", "*/*/*", "?", "e/*")
	var res, gerr = h.pkg.Glob(pat)
	c.NoErr(gerr, "%s: Glob %s", what, pat)
	var exp []string
	for _, n := range got {
		if ok, _ := path.Match(pat, n); ok {
			exp = append(exp, n)
		}
	}
	if strings.Join(exp, "\x01") != strings.Join(res, "\x01") {
		c.Fail("%s: Glob %s gives %s, want %s", what, pat, quoteAll(res), quoteAll(exp))
	}
}

// ---------------------------------------------------------------- C25

func checkQueries(c *C, what string, tags, dat []byte, split bool, m *Model) {
	c.Ev("states compared", 1)
	var hd, err = decHdr(tags)
	c.NoErr(err, "%s: header", what)
	var hdr, info, qerr = wpk.GetPackageInfo(bytes.NewReader(tags))
	c.NoErr(qerr, "%s: GetPackageInfo", what)
	var pkg = wpk.NewPackage()
	c.NoErr(pkg.OpenStream(bytes.NewReader(tags)), "%s: OpenStream", what)
	if !bytes.Equal(info, pkg.GetInfo()) {
		c.Fail("%s: quick query gives info %s, opening %s", what, hexShort(info), hexShort(pkg.GetInfo()))
	}
	if !sameTags(rawTags(c, what+" info", info), m.Info) {
		c.Fail("%s: info is %v, want %v", what, rawTags(c, what, info), m.Info)
	}
	var num = 0
	pkg.Enum(func(string, wpk.TagsetRaw) bool { num++; return true })
	if hdr.Count() != len(m.Ents) || pkg.TagsetNum() != len(m.Ents) || num != len(m.Ents) {
		c.Fail("%s: header counts %d, package %d, enumerated %d, want %d", what, hdr.Count(), pkg.TagsetNum(), num, len(m.Ents))
	}
	if uint64(hdr.FttSize()) != hd.FttSize {
		c.Fail("%s: FttSize %d, stored %d", what, hdr.FttSize(), hd.FttSize)
	}
	// the table size is the real one
	var p, perr = decPkg(tags, int64(len(dat)), split)
	c.NoErr(perr, "%s: layout", what)
	_ = p
	if pkg.DataSize() != hdr.DataSize() || uint64(hdr.DataSize()) != hd.DatSize {
		c.Fail("%s: DataSize of package %d, of header %d, stored %d", what, pkg.DataSize(), hdr.DataSize(), hd.DatSize)
	}
	if pkg.IsSplitted() != split {
		c.Fail("%s: IsSplitted %v", what, pkg.IsSplitted())
	}
	c.NoErr(hdr.IsReady(), "%s: IsReady", what)
}

func runC25(c *C) {
	var r = c.R
	var split = r.P(1, 2)
	var h = newHist(c, split)
	h.small = true
	h.strict = false
	var sessions = r.Range(1, 5)
	var anyinfo = false
	// bytes of the data area that was packed, to be told by the header
	for k := 0; k < sessions; k++ {
		switch {
		case k == 0 || r.P(1, 8):
			if k > 0 && r.P(1, 2) {
				h.s.pkg = wpk.NewPackage()
				h.m = &Model{}
			}
			if r.P(1, 4) { // info may be given before the beginning
				h.m.Info = extraTags(r, 3)
				h.s.pkg.SetInfo(mkTagset(h.m.Info))
			}
			h.begin()
			h.s.wpt.B = h.s.wpt.B[:hdrLen]
			if split {
				h.s.wpf.B = h.s.wpf.B[:0]
			}
		default:
			if r.P(2, 3) {
				h.reopen()
			}
			if split && r.P(1, 4) { // rest of a session that was stopped before its flush
				c.Ev("stopped sessions", 1)
				h.s.wpf.B = append(h.s.wpf.B, content(r, r.Range(1, 3000))...)
			}
			h.append()
		}
		var building = func(what string) {
			if split {
				checkQueries(c, what, h.s.wpt.B, h.s.dat(), split, h.com)
				return
			}
			c.Ev("unfinished packages", 1)
			var _, _, qerr = wpk.GetPackageInfo(bytes.NewReader(h.s.wpt.B))
			var oerr = wpk.NewPackage().OpenStream(bytes.NewReader(h.s.wpt.B))
			if qerr == nil || oerr == nil {
				c.Fail("%s: unfinished package: quick query says %v, opening %v", what, qerr, oerr)
			}
		}
		building("just begun")
		for n := r.Int(6); n > 0; n-- {
			h.edit()
			// the writer knows what is there
			var pkg = h.s.pkg
			if pkg.TagsetNum() != len(h.m.Ents) {
				c.Fail("TagsetNum is %d, want %d", pkg.TagsetNum(), len(h.m.Ents))
			}
			if pkg.IsSplitted() != split {
				c.Fail("IsSplitted of the writer is %v", pkg.IsSplitted())
			}
			if !sameTags(rawTags(c, "info", pkg.GetInfo()), h.m.Info) {
				c.Fail("GetInfo of the writer gives %v, want %v", rawTags(c, "info", pkg.GetInfo()), h.m.Info)
			}
			var pos = h.s.w().(*MemFile).Pos
			if !split {
				pos -= hdrLen
			}
			// bytes of a source that failed may be counted or not before they are flushed
			if n := int64(pkg.DataSize()); n != pos && n != pos-int64(h.junk) {
				c.Fail("DataSize of the writer is %d, stream has %d", pkg.DataSize(), pos)
			}
			if r.P(1, 3) {
				building("while writing")
			}
		}
		var datend, junk = h.s.w().(*MemFile).Pos, int64(h.junk)
		h.sync()
		if hd, err := decHdr(h.s.wpt.B); err == nil {
			if end := int64(hd.DatOff + hd.DatSize); end != datend && end != datend-junk {
				c.Fail("header after flush tells the end of data %d, data was packed up to %d", end, datend)
			}
		}
		anyinfo = anyinfo || len(h.m.Info) > 0
		checkQueries(c, fmt.Sprintf("after flush #%d", h.ncommit), h.s.wpt.B, h.s.dat(), split, h.com)
		var pkg = h.s.pkg
		var hd, _ = decHdr(h.s.wpt.B)
		if uint64(pkg.DataSize()) != hd.DatSize || pkg.IsSplitted() != split || pkg.TagsetNum() != int(hd.Count) {
			c.Fail("writer after flush: DataSize %d, IsSplitted %v, TagsetNum %d, header has %d, %d", pkg.DataSize(), pkg.IsSplitted(), pkg.TagsetNum(), hd.DatSize, hd.Count)
		}
		var end = int64(len(h.s.dat()))
		if split && int64(hd.DatSize) > end {
			c.Fail("data size %d of %d bytes", hd.DatSize, end)
		}
	}
	if anyinfo || sessions > 1 {
		c.NonTrivial()
	}
	// a file under its name
	if r.P(1, 4) {
		var fpath = c.Path("p.wpk")
		writeFile(c, fpath, h.s.wpt.B)
		var pkg = wpk.NewPackage()
		c.NoErr(pkg.OpenFile(fpath), "OpenFile")
		c.Check(pkg.TagsetNum() == len(h.com.Ents), "OpenFile gives %d entries", pkg.TagsetNum())
		var err = pkg.OpenFile(fpath + "x")
		c.Check(isNotExist(err), "OpenFile of absent file gives %v", err)
	}
	// damaged headers
	var img = h.s.wpt.B
	var try = func(what string, b []byte, reject bool) {
		c.Ev("damaged headers", 1)
		var _, info, qerr = wpk.GetPackageInfo(bytes.NewReader(b))
		var pkg = wpk.NewPackage()
		var oerr = pkg.OpenStream(bytes.NewReader(b))
		if oerr == nil && qerr != nil {
			c.Fail("%s: opening accepts, quick query says %v", what, qerr)
		}
		if oerr == nil && !bytes.Equal(info, pkg.GetInfo()) {
			c.Fail("%s: info of opening and quick query differ", what)
		}
		if reject && (oerr == nil || qerr == nil) {
			c.Fail("%s: opening says %v, quick query says %v", what, oerr, qerr)
		}
	}
	for k := 0; k < 6; k++ {
		var b = append([]byte(nil), img...)
		var hd, _ = decHdr(b)
		var with = func(f func(h *RHdr)) []byte {
			var x = hd
			f(&x)
			copy(b, x.enc())
			return b
		}
		var huge = pick(r, uint64(len(b))+1, 1<<31, 1<<32, 1<<62, 1<<63, ^uint64(0), ^uint64(0)-hd.FttSize+1)
		switch r.Int(10) {
		case 0:
			var n = r.Int(hdrLen)
			try(fmt.Sprintf("cut to %d bytes", n), b[:n], true)
		case 9: // header of just begun package
			with(func(h *RHdr) { h.Count, h.FttOff, h.FttSize, h.DatSize = 0, h.DatOff, 0, 0 })
			var n = pick(r, r.Range(0, hdrLen-1), r.Range(hdrLen-8, hdrLen-1), hdrLen)
			copy(b, pick(r, sigReady, sigBuild))
			try(fmt.Sprintf("header of empty package cut to %d bytes", n), b[:n], n < hdrLen)
		case 1:
			var i = r.Int(24)
			b[i] ^= byte(1 + r.Int(255))
			try(fmt.Sprintf("signature byte %d changed", i), b, string(b[:24]) != sigReady)
		case 2:
			copy(b, sigBuild)
			try("prebuild signature", b, !split)
		case 3:
			try("foreign file", content(r, r.Range(0, 300)), true)
		case 4:
			try(fmt.Sprintf("table offset %d", huge), with(func(h *RHdr) { h.FttOff = huge }), hd.FttSize > 0)
		case 5:
			try(fmt.Sprintf("table size %d", huge), with(func(h *RHdr) { h.FttSize = huge }), true)
		case 6:
			var v = pick(r, huge, hd.Count+1, 0)
			try(fmt.Sprintf("count %d", v), with(func(h *RHdr) { h.Count = v }), v == huge && v > 1<<40)
		case 7:
			try("data fields", with(func(h *RHdr) { h.DatOff, h.DatSize = pick(r, h.DatOff, huge, 1), pick(r, h.DatSize, huge, 0) }), false)
		case 8:
			var n = r.Int(len(b) + 1)
			try(fmt.Sprintf("cut to %d of %d", n, len(b)), b[:n], n < hdrLen)
		}
	}
}

var _ = errors.Is
var _ io.Reader
