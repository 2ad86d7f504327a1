// Independent codec of the published WPK layout and the reference model of a package.
// Nothing here uses the library.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
)

const (
	sigReady = "Whirlwind 3.4 Package   "
	sigBuild = "Whirlwind 3.4 Prebuild  "
	hdrLen   = 64
)

const (
	tOffset = 1
	tSize   = 2
	tPath   = 3
	tFid    = 4
	tMtime  = 5
	tAtime  = 6
	tCtime  = 7
	tBtime  = 8
	tAttr   = 9
	tMime   = 10
	tLabel  = 110
	tLink   = 111
)

// MTag is a tag of the model.
type MTag struct {
	ID uint16
	B  []byte
}

func (t MTag) String() string { return fmt.Sprintf("%d:%s", t.ID, hexShort(t.B)) }

func hexShort(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x..(%d)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// RHdr is a decoded header.
type RHdr struct {
	Sig                                     string
	Count, FttOff, FttSize, DatOff, DatSize uint64
}

func decHdr(b []byte) (h RHdr, err error) {
	if len(b) < hdrLen {
		return h, fmt.Errorf("header of %d bytes", len(b))
	}
	h.Sig = string(b[:24])
	h.Count = binary.LittleEndian.Uint64(b[24:])
	h.FttOff = binary.LittleEndian.Uint64(b[32:])
	h.FttSize = binary.LittleEndian.Uint64(b[40:])
	h.DatOff = binary.LittleEndian.Uint64(b[48:])
	h.DatSize = binary.LittleEndian.Uint64(b[56:])
	return
}

func (h RHdr) enc() []byte {
	var b = make([]byte, hdrLen)
	copy(b, h.Sig)
	binary.LittleEndian.PutUint64(b[24:], h.Count)
	binary.LittleEndian.PutUint64(b[32:], h.FttOff)
	binary.LittleEndian.PutUint64(b[40:], h.FttSize)
	binary.LittleEndian.PutUint64(b[48:], h.DatOff)
	binary.LittleEndian.PutUint64(b[56:], h.DatSize)
	return b
}

// decTags splits a tagset.
func decTags(b []byte) (l []MTag, err error) {
	for len(b) > 0 {
		if len(b) < 4 {
			return l, fmt.Errorf("tag header cut at %d bytes", len(b))
		}
		var id, n = binary.LittleEndian.Uint16(b), int(binary.LittleEndian.Uint16(b[2:]))
		if len(b) < 4+n {
			return l, fmt.Errorf("tag %d of %d bytes cut at %d bytes", id, n, len(b)-4)
		}
		l = append(l, MTag{id, append([]byte(nil), b[4:4+n]...)})
		b = b[4+n:]
	}
	return
}

func encTags(l []MTag) (b []byte) {
	for _, t := range l {
		b = binary.LittleEndian.AppendUint16(b, t.ID)
		b = binary.LittleEndian.AppendUint16(b, uint16(len(t.B)))
		b = append(b, t.B...)
	}
	return
}

func getTag(l []MTag, id uint16) ([]byte, bool) {
	for _, t := range l {
		if t.ID == id {
			return t.B, true
		}
	}
	return nil, false
}

func decUint(b []byte) (uint64, bool) {
	switch len(b) {
	case 1:
		return uint64(b[0]), true
	case 2:
		return uint64(binary.LittleEndian.Uint16(b)), true
	case 4:
		return uint64(binary.LittleEndian.Uint32(b)), true
	case 8:
		return binary.LittleEndian.Uint64(b), true
	}
	return 0, false
}

func encUint(v uint64, n int) []byte {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], v)
	return b[:n]
}

// minUint encodes with the least number of bytes of 1, 2, 4, 8.
func minUint(v uint64) []byte {
	switch {
	case v > 0xffffffff:
		return encUint(v, 8)
	case v > 0xffff:
		return encUint(v, 4)
	case v > 0xff:
		return encUint(v, 2)
	}
	return encUint(v, 1)
}

// REnt is a decoded table entry.
type REnt struct {
	Off, Size uint64
	Name      string
	Tags      []MTag // all the tags in order
}

// Extra returns the tags besides offset, size and path.
func (e *REnt) Extra() (l []MTag) {
	for _, t := range e.Tags {
		if t.ID != tOffset && t.ID != tSize && t.ID != tPath {
			l = append(l, t)
		}
	}
	return
}

// RPkg is a decoded package.
type RPkg struct {
	Hdr  RHdr
	Info []MTag
	Ents []*REnt
}

// decPkg decodes strictly. datlen is the length of the stream with the data.
func decPkg(tags []byte, datlen int64, split bool) (p *RPkg, err error) {
	p = &RPkg{}
	if p.Hdr, err = decHdr(tags); err != nil {
		return
	}
	var h = p.Hdr
	if h.Sig != sigReady && !(split && h.Sig == sigBuild) {
		return p, fmt.Errorf("signature %q", h.Sig)
	}
	if split != (h.DatOff == 0) {
		return p, fmt.Errorf("data offset %d, split %v", h.DatOff, split)
	}
	if !split && h.DatOff != hdrLen {
		return p, fmt.Errorf("data offset %d", h.DatOff)
	}
	if h.DatOff+h.DatSize > uint64(datlen) {
		return p, fmt.Errorf("data area %d+%d beyond the %d bytes", h.DatOff, h.DatSize, datlen)
	}
	if h.FttSize == 0 {
		if h.Count != 0 {
			return p, fmt.Errorf("no table but %d entries", h.Count)
		}
		return
	}
	if h.FttOff < hdrLen || h.FttOff+h.FttSize > uint64(len(tags)) {
		return p, fmt.Errorf("table %d+%d of %d bytes", h.FttOff, h.FttSize, len(tags))
	}
	if !split && h.FttOff < h.DatOff+h.DatSize {
		return p, fmt.Errorf("table at %d inside the data area ending at %d", h.FttOff, h.DatOff+h.DatSize)
	}
	var b = tags[h.FttOff : h.FttOff+h.FttSize]
	var next = func() (ts []byte, err error) {
		if len(b) < 2 {
			return nil, fmt.Errorf("table cut before a length")
		}
		var n = int(binary.LittleEndian.Uint16(b))
		b = b[2:]
		if len(b) < n {
			return nil, fmt.Errorf("table cut inside a tagset")
		}
		ts, b = b[:n], b[n:]
		return
	}
	var ts []byte
	if ts, err = next(); err != nil {
		return
	}
	if p.Info, err = decTags(ts); err != nil {
		return p, fmt.Errorf("info: %w", err)
	}
	var names = map[string]bool{}
	for {
		if ts, err = next(); err != nil {
			return
		}
		if len(ts) == 0 {
			break
		}
		var e = &REnt{}
		if e.Tags, err = decTags(ts); err != nil {
			return p, fmt.Errorf("entry %d: %w", len(p.Ents), err)
		}
		var ids = map[uint16]bool{}
		for _, t := range e.Tags {
			if ids[t.ID] {
				return p, fmt.Errorf("entry %d: tag %d twice", len(p.Ents), t.ID)
			}
			ids[t.ID] = true
		}
		var v []byte
		var ok bool
		if v, ok = getTag(e.Tags, tPath); !ok {
			return p, fmt.Errorf("entry %d: no path", len(p.Ents))
		}
		e.Name = string(v)
		if v, ok = getTag(e.Tags, tOffset); ok {
			e.Off, ok = decUint(v)
		}
		if !ok {
			return p, fmt.Errorf("entry %q: no offset", e.Name)
		}
		if v, ok = getTag(e.Tags, tSize); ok {
			e.Size, ok = decUint(v)
		}
		if !ok {
			return p, fmt.Errorf("entry %q: no size", e.Name)
		}
		if e.Off < h.DatOff || e.Off > h.DatOff+h.DatSize || e.Size > h.DatOff+h.DatSize-e.Off {
			return p, fmt.Errorf("entry %q: %d+%d outside the data area %d+%d", e.Name, e.Off, e.Size, h.DatOff, h.DatSize)
		}
		if names[e.Name] {
			return p, fmt.Errorf("entry %q twice", e.Name)
		}
		names[e.Name] = true
		p.Ents = append(p.Ents, e)
	}
	if len(b) != 0 {
		return p, fmt.Errorf("%d bytes after the end mark", len(b))
	}
	if uint64(len(p.Ents)) != h.Count {
		return p, fmt.Errorf("%d entries, header says %d", len(p.Ents), h.Count)
	}
	return
}

// Ent is an entry of the model.
type Ent struct {
	Name  string
	Data  []byte
	Tags  []MTag // besides offset, size and path
	Loose bool   // was renamed: its place in the order is not specified
	Times bool   // carries file times which the model does not know
}

func (e *Ent) clone() *Ent {
	var n = *e
	n.Tags = append([]MTag(nil), e.Tags...)
	return &n
}

// Model is an ordered table.
type Model struct {
	Ents []*Ent
	Info []MTag
}

func (m *Model) find(name string) int {
	for i, e := range m.Ents {
		if e.Name == name {
			return i
		}
	}
	return -1
}

func (m *Model) get(name string) *Ent {
	if i := m.find(name); i >= 0 {
		return m.Ents[i]
	}
	return nil
}

func (m *Model) del(name string) bool {
	var i = m.find(name)
	if i < 0 {
		return false
	}
	m.Ents = append(append([]*Ent(nil), m.Ents[:i]...), m.Ents[i+1:]...)
	return true
}

func (m *Model) clone() *Model {
	var n = &Model{Info: append([]MTag(nil), m.Info...)}
	for _, e := range m.Ents {
		n.Ents = append(n.Ents, e.clone())
	}
	return n
}

func (m *Model) names() (l []string) {
	for _, e := range m.Ents {
		l = append(l, e.Name)
	}
	return
}

func setMTag(l []MTag, t MTag) ([]MTag, bool) {
	for i := range l {
		if l[i].ID == t.ID {
			l = append([]MTag(nil), l...)
			l[i] = t
			return l, false
		}
	}
	return append(append([]MTag(nil), l...), t), true
}

func delMTag(l []MTag, id uint16) ([]MTag, bool) {
	for i := range l {
		if l[i].ID == id {
			return append(append([]MTag(nil), l[:i]...), l[i+1:]...), true
		}
	}
	return l, false
}

// sameTags compares tag lists as maps (the order of tags is not specified).
func sameTags(a, b []MTag) bool {
	if len(a) != len(b) {
		return false
	}
	for _, t := range a {
		var v, ok = getTag(b, t.ID)
		if !ok || !bytes.Equal(v, t.B) {
			return false
		}
	}
	return true
}

func withoutTimes(l []MTag) (r []MTag) {
	for _, t := range l {
		if t.ID < tMtime || t.ID > tBtime {
			r = append(r, t)
		}
	}
	return
}

// diffView compares what was read back with the model; got are entries with content.
func (m *Model) diff(got []*Ent, info []MTag, order bool) string {
	var byname = map[string]*Ent{}
	for _, e := range got {
		if byname[e.Name] != nil {
			return fmt.Sprintf("name %s is listed twice", quote(e.Name))
		}
		byname[e.Name] = e
	}
	for _, w := range m.Ents {
		var g = byname[w.Name]
		if g == nil {
			return fmt.Sprintf("name %s is missing, have %s", quote(w.Name), quoteAll(entNames(got)))
		}
		if !bytes.Equal(g.Data, w.Data) {
			return fmt.Sprintf("content of %s differs: %d bytes %s, want %d bytes %s", quote(w.Name), len(g.Data), hexShort(g.Data), len(w.Data), hexShort(w.Data))
		}
		var gt = g.Tags
		if w.Times {
			gt = withoutTimes(gt)
		}
		if !sameTags(gt, w.Tags) {
			return fmt.Sprintf("tags of %s differ: %v, want %v", quote(w.Name), gt, w.Tags)
		}
	}
	if len(got) != len(m.Ents) {
		return fmt.Sprintf("names %s, want %s", quoteAll(entNames(got)), quoteAll(m.names()))
	}
	if !sameTags(info, m.Info) {
		return fmt.Sprintf("package info %v, want %v", info, m.Info)
	}
	if order {
		var a, b []string
		var loose = map[string]bool{}
		for _, e := range m.Ents {
			if e.Loose {
				loose[e.Name] = true
			} else {
				a = append(a, e.Name)
			}
		}
		for _, e := range got {
			if !loose[e.Name] {
				b = append(b, e.Name)
			}
		}
		for i := range a {
			if a[i] != b[i] {
				return fmt.Sprintf("order %s, want %s", quoteAll(b), quoteAll(a))
			}
		}
	}
	return ""
}

func entNames(l []*Ent) (r []string) {
	for _, e := range l {
		r = append(r, e.Name)
	}
	return
}

// view turns a decoded package into entries with content.
func (p *RPkg) view(dat []byte) (l []*Ent) {
	for _, e := range p.Ents {
		l = append(l, &Ent{Name: e.Name, Data: dat[e.Off : e.Off+e.Size], Tags: e.Extra()})
	}
	return
}
