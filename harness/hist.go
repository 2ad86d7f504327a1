// Histories of editing sessions run on the library and on the model at once.
package main

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"strings"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
)

// span is a call on the writing side in the log of writes.
type span struct {
	what     string
	from, to int    // numbers of writes before and after the call
	old, new *Model // committed state before and after; nil: nothing that opens
}

// hist is a writing side with its model.
type hist struct {
	c                    *C
	s                    *session
	same                 bool   // single package: the same stream is given for both
	m                    *Model // state of the package object
	com                  *Model // last committed state, nil if there is no openable one
	open                 bool   // between Begin/Append and Sync
	spans                []span
	names                []string
	strict               bool   // check images by the decoder after each flush
	dataEnd              uint64 // end of the data area at last commit
	ncommit, nerr, nedit int
	small                bool
	junk                 int // bytes of failed sources since the last flush

	// account of the data area of the package since Begin
	packed, comPacked int // bytes of files
	waste, comWaste   int // bytes of failed sources, they may stay
	sizes             bool
	flushed           func(what string)
	maxTable, maxEnd  uint64 // the largest table written, and the farthest end of one in a single file
}

func newHist(c *C, split bool) *hist {
	var r = c.R
	var h = &hist{c: c, s: newSession(split), m: &Model{}, strict: true}
	h.same = !split && r.P(1, 3)
	h.names = anyNames(r, r.Range(3, 9))
	for i, n := 0, len(h.names); i < n; i++ { // neighbours in directories
		if r.P(1, 2) {
			h.names = append(h.names, pick(r, "d", "d/e", "dd", "img")+"/"+h.names[i])
		}
	}
	var seen = map[string]bool{}
	var l []string
	for _, n := range h.names {
		if !seen[n] {
			seen[n] = true
			l = append(l, n)
		}
	}
	h.names = l
	c.T("split %v", split)
	return h
}

func (h *hist) f() io.WriteSeeker {
	if h.same {
		return h.s.wpt
	}
	return h.s.f()
}

// call records the writes of a call; old and new committed states are given for the calls that switch them.
func (h *hist) call(what string, old, new *Model, f func() error) error {
	var from = len(h.s.l.Ops)
	var err = f()
	h.spans = append(h.spans, span{what, from, len(h.s.l.Ops), old, new})
	return err
}

func (h *hist) begin() {
	h.c.T("Begin")
	var empty *Model
	if h.s.split {
		empty = &Model{}
	}
	var given = h.c.R.P(1, 3)
	if given { // info may be set before the beginning
		h.m.Info = extraTags(h.c.R, 3)
		h.s.pkg.SetInfo(mkTagset(h.m.Info))
	}
	var info = h.m.Info
	var err = h.call("Begin", h.com, empty, func() error { return h.s.pkg.Begin(h.s.wpt, h.f()) })
	h.c.NoErr(err, "Begin")
	// Begin is for a new empty package; its info is set by the owner of the object
	h.m = &Model{Info: rawTags(h.c, "info after Begin", h.s.pkg.GetInfo())}
	if given && !sameTags(h.m.Info, info) {
		h.c.Fail("info set before Begin is %v, after it %v", info, h.m.Info)
	}
	h.com = empty
	h.open = true
	h.junk = 0
	h.packed, h.waste, h.comPacked, h.comWaste = 0, 0, 0, 0
	if h.s.split {
		// a file begun anew is written from its start
		h.s.wpf.Pos = 0
		h.dataEnd = 0
	} else {
		h.dataEnd = hdrLen
	}
}

func (h *hist) append() {
	h.c.T("Append")
	var after *Model
	if h.s.split {
		after = h.com
	}
	var err = h.call("Append", h.com, after, func() error { return h.s.pkg.Append(h.s.wpt, h.f()) })
	h.c.NoErr(err, "Append")
	h.com = after
	h.open = true
}

func (h *hist) sync() {
	h.c.T("Sync")
	var com = h.m.clone()
	var err = h.call("Sync", h.com, com, func() error { return h.s.pkg.Sync(h.s.wpt, h.f()) })
	h.c.NoErr(err, "Sync")
	h.com = com
	h.junk = 0
	if !h.s.split {
		h.open = false
	}
	h.ncommit++
	if h.strict {
		h.check()
	}
	h.comPacked, h.comWaste = h.packed, h.waste
	if h.sizes {
		h.checkSizes()
	}
	if h.flushed != nil {
		h.flushed(fmt.Sprintf("flush #%d", h.ncommit))
	}
	if hd, err := decHdr(h.s.wpt.B); err == nil {
		h.dataEnd = hd.DatOff + hd.DatSize
	}
}

// refused makes a flush which has to fail: a tagset is longer than the table can tell.
func (h *hist) refused() {
	var r = h.c.R
	var pkg = h.s.pkg
	var long = wpk.StrTag(strings.Repeat("*", 65000))
	var undo func()
	if len(h.m.Ents) > 0 && r.P(3, 4) {
		var name = pickOf(r, h.m.Ents).Name
		var ts, _ = pkg.GetTagset(name)
		pkg.SetTagset(name, wpk.CopyTagset(ts).Set(501, long).Set(502, long))
		undo = func() { pkg.SetTagset(name, ts) }
	} else {
		var info = pkg.GetInfo()
		pkg.SetInfo(wpk.CopyTagset(info).Set(501, long).Set(502, long))
		undo = func() { pkg.SetInfo(info) }
	}
	var err = h.call("refused Sync", h.com, h.com, func() error { return pkg.Sync(h.s.wpt, h.f()) })
	h.c.T("Sync with a long tagset -> %v", err)
	if err == nil {
		h.c.Fail("flush succeeds with an oversize tagset")
	}
	h.c.Ev("flushes refused", 1)
	undo()
}

func (h *hist) check() {
	checkImage(h.c, fmt.Sprintf("after flush #%d", h.ncommit), h.s.wpt.B, h.s.dat(), h.s.split, h.com)
	// the object which wrote it agrees
	if d := h.m.diff(enumView(h.c, "writer object", h.s.pkg, h.s.dat()), rawTags(h.c, "info", h.s.pkg.GetInfo()), true); d != "" {
		h.c.Fail("writer object after flush #%d: %s", h.ncommit, d)
	}
}

// reopen drops the package object and loads the committed state again.
func (h *hist) reopen() {
	var fresh = h.c.R.P(2, 3)
	h.c.T("reopen by new object %v", fresh)
	if fresh {
		h.s.pkg = wpk.NewPackage()
	}
	h.c.NoErr(h.s.pkg.OpenStream(bytes.NewReader(h.s.wpt.B)), "OpenStream")
	h.m = h.com.clone()
	for _, e := range h.m.Ents {
		e.Loose = false
	}
	h.order()
	h.com = h.m.clone()
	h.open = false
	h.junk = 0
	h.packed, h.waste = h.comPacked, h.comWaste
}

// checkSizes compares the places taken by the package with what was put in.
func (h *hist) checkSizes() {
	var c = h.c
	var hd, err = decHdr(h.s.wpt.B)
	c.NoErr(err, "header")
	h.maxTable = max(h.maxTable, hd.FttSize)
	if hd.DatSize < uint64(h.packed) || hd.DatSize > uint64(h.packed+h.waste) {
		c.Fail("after flush #%d the data area has %d bytes, packed were %d (and %d of failed sources)", h.ncommit, hd.DatSize, h.packed, h.waste)
	}
	c.Ev("data areas measured", 1)
	if h.s.split {
		checkTagsFile(c, fmt.Sprintf("after flush #%d", h.ncommit), len(h.s.wpt.B), h.maxTable)
		return
	}
	if hd.FttOff != hd.DatOff+hd.DatSize {
		c.Fail("after finalization #%d the table is at %d, data ends at %d", h.ncommit, hd.FttOff, hd.DatOff+hd.DatSize)
	}
	h.maxEnd = max(h.maxEnd, hd.FttOff+hd.FttSize)
	if uint64(len(h.s.wpt.B)) > h.maxEnd {
		c.Fail("after finalization #%d the file has %d bytes, the farthest end of a table is %d", h.ncommit, len(h.s.wpt.B), h.maxEnd)
	}
}

// checkTagsFile demands a place in proportion to the largest table.
func checkTagsFile(c *C, what string, n int, maxTable uint64) {
	if uint64(n) > hdrLen+4*maxTable+512 {
		c.Fail("%s the tags file has %d bytes, the largest table has %d", what, n, maxTable)
	}
	c.Ev("tags files measured", 1)
}

// order takes the order of the entries from the package: places of renamed entries are not specified,
// but they are fixed once they are stored.
func (h *hist) order() {
	var l []*Ent
	h.s.pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		if e := h.m.get(fkey); e != nil {
			l = append(l, e)
		}
		return true
	})
	if len(l) == len(h.m.Ents) {
		h.m.Ents = l
	}
}

func (h *hist) key(name string) string {
	if h.c.R.P(1, 4) {
		return backslash(h.c.R, name)
	}
	return name
}

func (h *hist) size() int {
	if h.small {
		return h.c.R.Int(40)
	}
	return genSize(h.c.R)
}

// memFS file for PackFile.
type memFile struct {
	src     io.Reader
	name    string
	size    int64
	mod     time.Time
	statErr error
}

func (f *memFile) Stat() (fs.FileInfo, error) {
	if f.statErr != nil {
		return nil, f.statErr
	}
	return f, nil
}
func (f *memFile) Read(p []byte) (int, error) { return f.src.Read(p) }
func (f *memFile) Close() error               { return nil }
func (f *memFile) Name() string               { return f.name }
func (f *memFile) Size() int64                { return f.size }
func (f *memFile) Mode() fs.FileMode          { return 0644 }
func (f *memFile) ModTime() time.Time         { return f.mod }
func (f *memFile) IsDir() bool                { return false }
func (f *memFile) Sys() any                   { return nil }

func (h *hist) put(name string) {
	var r, c = h.c.R, h.c
	var data = content(r, h.size())
	var key = h.key(name)
	var had = h.m.get(name) != nil
	var src io.Reader = bytes.NewReader(data)
	switch r.Int(4) {
	case 0:
		src = &chunkReader{b: data, next: func() int { return r.Range(0, 700) }, fail: -1, dataEOF: r.P(1, 2)}
	case 1:
		src = bytes.NewBuffer(append([]byte(nil), data...))
	case 2:
		if r.P(1, 2) { // something was read from the source already
			var k = r.Range(1, 9)
			var rd = bytes.NewReader(append(content(r, k), data...))
			rd.Seek(int64(k), io.SeekStart)
			src = rd
		}
	}
	var err error
	var ts wpk.TagsetRaw
	if r.P(1, 10) && !had { // the source fails in the middle; its bytes may stay in the data, but there is no entry
		var at = r.Int(len(data) + 1)
		err = h.call("PackData", h.com, h.com, func() (err error) {
			_, err = h.s.pkg.PackData(h.s.w(), &chunkReader{b: append(data, 0), next: func() int { return r.Range(1, 3000) }, fail: at, failErr: errSource}, key)
			return
		})
		c.T("PackData %s failing after %d bytes -> %v", quote(key), at, err)
		c.Check(err != nil && !h.s.pkg.HasTagset(name), "PackData of %s with failing source gives %v, listed %v", quote(name), err, h.s.pkg.HasTagset(name))
		h.nerr++
		h.junk += at
		h.waste += at
		return
	}
	var e = &Ent{Name: name, Data: data}
	var how = "PackData"
	if r.P(1, 3) {
		how = "PackFile"
		var mod = time.Unix(int64(r.Int(2000000000)), int64(r.Int(1000000000)))
		var f = &memFile{src: src, name: "x", size: int64(len(data)), mod: mod}
		err = h.call(how, h.com, h.com, func() (err error) { ts, err = h.s.pkg.PackFile(h.s.w(), f, key); return })
		e.Tags = []MTag{{tMtime, append(encUint(uint64(mod.Unix()), 8), encUint(uint64(mod.Nanosecond()), 4)...)}}
	} else {
		err = h.call(how, h.com, h.com, func() (err error) { ts, err = h.s.pkg.PackData(h.s.w(), src, key); return })
	}
	c.T("%s %s %d bytes %s -> %v", how, quote(key), len(data), hexShort(data), err)
	if had {
		c.Check(isExist(err), "%s of existing %s gives %v", how, quote(name), err)
		h.nerr++
		return
	}
	c.NoErr(err, "%s %s", how, quote(name))
	h.m.Ents = append(h.m.Ents, e)
	h.packed += len(data)
	if r.P(1, 3) {
		var tags = extraTags(r, 3)
		for _, t := range tags {
			e.Tags, _ = setMTag(e.Tags, t)
		}
		ts = wpk.CopyTagset(ts)
		for _, t := range tags {
			ts = ts.Set(t.ID, wpk.TagRaw(t.B))
		}
		c.T("with tags %v", tags)
		h.s.pkg.SetTagset(key, ts)
	}
}

// edit makes one editing operation.
func (h *hist) edit() {
	var r, c = h.c.R, h.c
	h.nedit++
	var name = pickOf(r, h.names)
	if r.P(1, 2) && len(h.m.Ents) > 0 {
		name = pickOf(r, h.m.Ents).Name
	}
	var other = pickOf(r, h.names)
	switch r.Int(12) {
	case 0, 1, 2, 3, 4:
		h.put(pickOf(r, h.names))
	case 5: // alias
		var err = h.s.pkg.PutAlias(h.key(name), h.key(other))
		c.T("PutAlias %s %s -> %v", quote(name), quote(other), err)
		var e, o = h.m.get(name), h.m.get(other)
		switch {
		case e == nil:
			c.Check(isNotExist(err), "alias of absent %s gives %v", quote(name), err)
			h.nerr++
		case o != nil:
			c.Check(isExist(err), "alias to existing %s gives %v", quote(other), err)
			h.nerr++
		default:
			c.NoErr(err, "alias")
			var n = e.clone()
			n.Name, n.Loose = other, false
			h.m.Ents = append(h.m.Ents, n)
		}
	case 6, 7: // rename
		var err = h.s.pkg.Rename(h.key(name), h.key(other))
		c.T("Rename %s %s -> %v", quote(name), quote(other), err)
		var e, o = h.m.get(name), h.m.get(other)
		switch {
		case e == nil:
			c.Check(isNotExist(err), "rename of absent %s gives %v", quote(name), err)
			h.nerr++
		case o != nil:
			c.Check(isExist(err), "rename to existing %s gives %v", quote(other), err)
			h.nerr++
		default:
			c.NoErr(err, "rename")
			var n = e.clone()
			n.Name, n.Loose = other, true
			h.m.del(name)
			h.m.Ents = append(h.m.Ents, n)
		}
	case 8: // delete
		var _, ok = h.s.pkg.DelTagset(h.key(name))
		c.T("DelTagset %s -> %v", quote(name), ok)
		c.Check(ok == h.m.del(name), "DelTagset of %s says %v", quote(name), ok)
	case 9: // new tags
		var ts, ok = h.s.pkg.GetTagset(h.key(name))
		var e = h.m.get(name)
		c.Check(ok == (e != nil), "GetTagset of %s says %v", quote(name), ok)
		if !ok {
			return
		}
		ts = wpk.CopyTagset(ts)
		var add = extraTags(r, 3)
		for _, t := range add {
			ts = ts.Set(t.ID, wpk.TagRaw(t.B))
			e.Tags, _ = setMTag(e.Tags, t)
		}
		if len(e.Tags) > 0 && r.P(1, 2) {
			var id = pickOf(r, e.Tags).ID
			ts = ts.Del(id)
			e.Tags, _ = delMTag(e.Tags, id)
		}
		c.T("tags of %s: %v", quote(name), e.Tags)
		if r.P(1, 2) {
			h.s.pkg.SetTagset(h.key(name), ts)
		} else {
			h.s.pkg.SetupTagset(ts)
		}
	case 10: // directory
		var olddir, newdir = pick(r, "d", "d/e", "dd", "img", "nodir"), pick(r, "q", "q/w", "dd", "img", "z")
		if olddir == newdir {
			return
		}
		var skip = r.P(1, 2)
		var n, err = h.s.pkg.RenameDir(h.key(olddir), h.key(newdir), skip)
		var want = 0
		var conflict = false
		for _, e := range h.m.clone().Ents {
			if rest, ok := strings.CutPrefix(e.Name, olddir+"/"); ok {
				if h.m.get(newdir+"/"+rest) != nil {
					conflict = true
					if !skip {
						break
					}
					continue
				}
				want++
				if !conflict {
				}
			}
		}
		c.T("RenameDir %s %s skip %v -> %d %v", olddir, newdir, skip, n, err)
		c.Check(isExist(err) == (conflict && !skip) && (err == nil || isExist(err)), "RenameDir %s %s skip %v with conflict %v gives %v", olddir, newdir, skip, conflict, err)
		if err == nil {
			c.Check(n == want, "RenameDir %s %s gives %d, want %d", olddir, newdir, n, want)
			h.moveDir(olddir, newdir, nil)
		} else {
			// which of the others were moved before the stop is taken from the package; their number has to agree
			var moved = h.moveDir(olddir, newdir, func(nn string) bool { return h.s.pkg.HasTagset(nn) })
			c.Check(n == moved, "RenameDir %s %s stopped by conflict says %d, moved %d", olddir, newdir, n, moved)
			h.nerr++
		}
	case 11:
		h.m.Info = extraTags(r, 3)
		if r.P(1, 6) {
			h.m.Info = nil
		}
		c.T("info %v", h.m.Info)
		h.s.pkg.SetInfo(mkTagset(h.m.Info))
	}
}

func (h *hist) moveDir(olddir, newdir string, only func(string) bool) (n int) {
	for _, e := range h.m.clone().Ents {
		if rest, ok := strings.CutPrefix(e.Name, olddir+"/"); ok {
			var nn = newdir + "/" + rest
			if h.m.get(nn) != nil || only != nil && !only(nn) {
				continue
			}
			var x = e.clone()
			x.Name, x.Loose = nn, true
			h.m.del(e.Name)
			h.m.Ents = append(h.m.Ents, x)
			n++
		}
	}
	return
}

// run makes a random history.
func (h *hist) run(sessions int) {
	var r = h.c.R
	h.begin()
	for k := 0; k < sessions; k++ {
		for n := r.Int(8); n > 0; n-- {
			h.edit()
		}
		if r.P(1, 10) {
			h.refused()
			for n := r.Int(3); n > 0; n-- {
				h.edit()
			}
		}
		if h.s.split {
			for r.P(1, 3) { // flushes in the middle
				h.sync()
				for n := r.Int(5); n > 0; n-- {
					h.edit()
				}
			}
			if r.P(1, 6) { // the writer is gone without a flush
				h.c.T("abandon")
				h.reopen()
				h.append()
				continue
			}
		}
		h.sync()
		if k == sessions-1 {
			break
		}
		switch r.Int(8) {
		case 0:
			if r.P(1, 2) {
				h.s.pkg = wpk.NewPackage()
			} else if r.P(1, 2) {
				h.s.pkg.SetInfo(nil)
			}
			h.begin()
		case 1, 2, 3:
			h.append()
		default:
			h.reopen()
			if h.strict {
				h.check()
			}
			// a ready package may be edited before the append starts
			for n := r.Int(3); n > 0 && !h.s.split; n-- {
				h.editTable()
			}
			h.append()
		}
	}
}

// editTable makes an operation which writes nothing.
func (h *hist) editTable() {
	var r = h.c.R
	if len(h.m.Ents) > 0 {
		var e = pickOf(r, h.m.Ents)
		var _, ok = h.s.pkg.DelTagset(e.Name)
		h.c.T("DelTagset %s before Append -> %v", quote(e.Name), ok)
		h.c.Check(ok, "DelTagset of %s", quote(e.Name))
		h.m.del(e.Name)
	}
}
