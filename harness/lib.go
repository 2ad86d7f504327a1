// Glue between the library under test and the model.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/bulk"
	"github.com/schwarzlichtbezirk/wpk/fsys"
	"github.com/schwarzlichtbezirk/wpk/mmap"
)

var modes = []string{"bulk", "mmap", "fsys"}

func makeTagger(mode, fpath string) (wpk.Tagger, error) {
	switch mode {
	case "bulk":
		return bulk.MakeTagger(fpath)
	case "mmap":
		return mmap.MakeTagger(fpath)
	}
	return fsys.MakeTagger(fpath)
}

func putTags(ts wpk.TagsetRaw, l []MTag) wpk.TagsetRaw {
	ts = wpk.CopyTagset(ts)
	for _, t := range l {
		ts = ts.Put(t.ID, wpk.TagRaw(t.B))
	}
	return ts
}

func mkTagset(l []MTag) wpk.TagsetRaw {
	return wpk.TagsetRaw(encTags(l))
}

// rawTags decodes a tagset by the independent decoder.
func rawTags(c *C, what string, ts wpk.TagsetRaw) []MTag {
	var l, err = decTags(ts)
	if err != nil {
		c.Fail("%s: tagset %s is broken: %v", what, hexShort(ts), err)
	}
	return l
}

func extraOf(l []MTag) (r []MTag) {
	for _, t := range l {
		if t.ID != tOffset && t.ID != tSize && t.ID != tPath {
			r = append(r, t)
		}
	}
	return
}

// enumView lists the package by Enum, with content from the data slice.
func enumView(c *C, what string, pkg *wpk.Package, dat []byte) (l []*Ent) {
	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		var tags = rawTags(c, what, ts)
		var ids = map[uint16]int{}
		for _, t := range tags {
			ids[t.ID]++
		}
		if ids[tOffset] != 1 || ids[tSize] != 1 || ids[tPath] != 1 {
			c.Fail("%s: entry %s has %d offset, %d size, %d path tags", what, quote(fkey), ids[tOffset], ids[tSize], ids[tPath])
		}
		var off, size = ts.Pos()
		if uint64(off) > uint64(len(dat)) || uint64(size) > uint64(len(dat))-uint64(off) {
			c.Fail("%s: entry %s at %d+%d is outside of %d bytes", what, quote(fkey), off, size, len(dat))
		}
		if ts.Size() != int64(size) {
			c.Fail("%s: entry %s Size() %d, Pos() %d", what, quote(fkey), ts.Size(), size)
		}
		l = append(l, &Ent{Name: fkey, Data: dat[off : off+size], Tags: extraOf(tags)})
		return true
	})
	return
}

func readAllHandle(f fs.File) (b []byte, err error) {
	defer f.Close()
	return io.ReadAll(f)
}

// fullCheck compares an opened package having a tagger with the model through all reading methods.
func fullCheck(c *C, what string, pkg *wpk.Package, m *Model) {
	var order []string
	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		order = append(order, fkey)
		return true
	})
	var want = m.names()
	if len(order) != len(want) {
		c.Fail("%s: lists %s, want %s", what, quoteAll(order), quoteAll(want))
	}
	var loose = map[string]bool{}
	for _, e := range m.Ents {
		if e.Loose {
			loose[e.Name] = true
		}
	}
	if len(loose) == 0 {
		for i := range want {
			if want[i] != order[i] {
				c.Fail("%s: lists %s, want %s", what, quoteAll(order), quoteAll(want))
			}
		}
	}
	if pkg.TagsetNum() != len(want) {
		c.Fail("%s: TagsetNum %d, want %d", what, pkg.TagsetNum(), len(want))
	}
	for _, e := range m.Ents {
		checkEntry(c, what, pkg, e)
	}
	var info = rawTags(c, what+" info", pkg.GetInfo())
	if !sameTags(info, m.Info) {
		c.Fail("%s: package info %v, want %v", what, info, m.Info)
	}
}

func checkEntry(c *C, what string, pkg *wpk.Package, e *Ent) {
	var ts, ok = pkg.GetTagset(e.Name)
	if !ok || !pkg.HasTagset(e.Name) {
		c.Fail("%s: no tagset of %s", what, quote(e.Name))
	}
	var tags = rawTags(c, what+" "+quote(e.Name), ts)
	var x = extraOf(tags)
	if e.Times {
		x = withoutTimes(x)
	}
	if !sameTags(x, e.Tags) || len(tags) != len(extraOf(tags))+3 {
		c.Fail("%s: tags of %s are %v, want %v and offset, size, path", what, quote(e.Name), tags, e.Tags)
	}
	for _, t := range e.Tags {
		var v, ok = ts.Get(t.ID)
		if !ok || !bytes.Equal(v, t.B) || !ts.Has(t.ID) {
			c.Fail("%s: tag %d of %s reads %s %v, want %s", what, t.ID, quote(e.Name), hexShort(v), ok, hexShort(t.B))
		}
	}
	if ts.Path() != e.Name {
		c.Fail("%s: Path() of %s is %s", what, quote(e.Name), quote(ts.Path()))
	}
	if ts.Size() != int64(len(e.Data)) {
		c.Fail("%s: Size() of %s is %d, want %d", what, quote(e.Name), ts.Size(), len(e.Data))
	}
	var b, err = pkg.ReadFile(e.Name)
	if err != nil {
		c.Fail("%s: ReadFile %s of %d bytes: %v", what, quote(e.Name), len(e.Data), err)
	}
	if !bytes.Equal(b, e.Data) {
		c.Fail("%s: ReadFile %s gives %d bytes %s, want %d bytes %s", what, quote(e.Name), len(b), hexShort(b), len(e.Data), hexShort(e.Data))
	}
	var f fs.File
	if e.Name == wpk.PackName {
		f, err = pkg.OpenTagset(ts)
	} else {
		f, err = pkg.Open(e.Name)
	}
	if err != nil {
		c.Fail("%s: Open %s: %v", what, quote(e.Name), err)
	}
	if b, err = readAllHandle(f); err != nil || !bytes.Equal(b, e.Data) {
		c.Fail("%s: reading %s gives %d bytes %s, %v, want %d bytes %s", what, quote(e.Name), len(b), hexShort(b), err, len(e.Data), hexShort(e.Data))
	}
	c.Ev("files read back", 1)
}

// memTagger serves nested files from a slice.
type memTagger struct{ b []byte }

func (t *memTagger) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	return bulk.NewSliceFile(t.b, ts)
}
func (t *memTagger) Close() error { return nil }

// session is a package being written on in-memory streams.
type session struct {
	split    bool
	wpt, wpf *MemFile
	l        *Log
	pkg      *wpk.Package
}

func newSession(split bool) *session {
	var s = &session{split: split, l: &Log{}}
	s.wpt = &MemFile{N: 0, L: s.l}
	if split {
		s.wpf = &MemFile{N: 1, L: s.l}
	}
	s.pkg = wpk.NewPackage()
	return s
}

// f gives the data stream for Begin, Append, Sync: nil for a single file.
func (s *session) f() io.WriteSeeker {
	if s.split {
		return s.wpf
	}
	return nil
}

// w gives the stream to pack into.
func (s *session) w() io.WriteSeeker {
	if s.split {
		return s.wpf
	}
	return s.wpt
}

func (s *session) dat() []byte {
	if s.split {
		return s.wpf.B
	}
	return s.wpt.B
}

func writeFile(c *C, fpath string, b []byte) {
	c.Env(os.WriteFile(fpath, b, 0644))
}

func isExist(err error) bool    { return errors.Is(err, fs.ErrExist) }
func isNotExist(err error) bool { return errors.Is(err, fs.ErrNotExist) }

// checkImage opens a written image by the library and by the independent decoder and compares both with the model.
func checkImage(c *C, what string, tags, dat []byte, split bool, m *Model) {
	var pkg = wpk.NewPackage()
	if err := pkg.OpenStream(bytes.NewReader(tags)); err != nil {
		c.Fail("%s: does not open: %v", what, err)
	}
	if pkg.IsSplitted() != split {
		c.Fail("%s: IsSplitted %v", what, pkg.IsSplitted())
	}
	if d := m.diff(enumView(c, what, pkg, dat), rawTags(c, what, pkg.GetInfo()), true); d != "" {
		c.Fail("%s: reopened package: %s", what, d)
	}
	var rp, err = decPkg(tags, int64(len(dat)), split)
	if err != nil {
		c.Fail("%s: layout: %v", what, err)
	}
	if d := m.diff(rp.view(dat), rp.Info, true); d != "" {
		c.Fail("%s: independent decoder: %s", what, d)
	}
	c.Ev("images checked", 1)
}

// recoverText runs f and returns its panic as text.
func recoverText(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprint(e)
		}
	}()
	f()
	return
}
