// C10: tagset as an ordered map. C11: tag values.
package main

import (
	"bytes"
	"encoding/binary"
	"math"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/util"
)

func init() {
	register(&Prop{
		ID: "C10", Level: "exploration", Quick: 300000, Thorough: 6000000,
		Rule:  "two of three cases run 5..60 random put/add/set/delete calls (values of 0..65535 bytes, IDs including 0, values that alias the tagset, callers' buffers overwritten afterwards) over a pool of tagsets and copies inside guarded buffers, comparing bytes, lookups, count, flags and iteration of the whole pool with a list model after every call; one of three feeds random and cut bytes to all reading functions against a reference scanner; distinct by the calls, non-trivial when at least 3 tags were present or the bytes were broken",
		MinEv: map[string]int64{"edits compared": 1000, "malformed tagsets": 100},
		Run:   runC10,
	})
	register(&Prop{
		ID: "C11", Level: "exploration", Quick: 1200000, Thorough: 20000000,
		Rule:  "each case takes one value of every type (limits, neighbours of powers of two, random bits), compares the encoding byte for byte with the published one, decodes it by the tag and the tagset methods, and decodes random bytes of every length 0..20; distinct by the values",
		MinEv: map[string]int64{"values": 1000},
		Run:   runC11,
	})
}

// mTagset is a tagset under test with its model.
type mTagset struct {
	ts    wpk.TagsetRaw
	m     []MTag
	guard []byte // buffer around the slice which must not change
	lo, n int
	ref   []byte
}

func checkTagset(c *C, what string, t *mTagset) {
	var want = encTags(t.m)
	if !bytes.Equal(t.ts, want) {
		c.Fail("%s: tagset is %s, want %v", what, hexFull(t.ts), t.m)
	}
	if t.ts.Num() != len(t.m) {
		c.Fail("%s: Num is %d, want %d", what, t.ts.Num(), len(t.m))
	}
	for _, g := range t.m {
		var v, ok = t.ts.Get(g.ID)
		if !ok || !bytes.Equal(v, g.B) || !t.ts.Has(g.ID) {
			c.Fail("%s: tag %d reads %s %v, has %v, want %s", what, g.ID, hexShort(v), ok, t.ts.Has(g.ID), hexShort(g.B))
		}
	}
	var it = t.ts.Iterator()
	if len(t.m) > 0 { // restarted in the middle
		for n := 1 + len(t.ts)%len(t.m); n > 0; n-- {
			it.Next()
		}
		it.Reset()
		if it.TID() != 0 || it.TagLen() != 0 || it.Passed() || it.Failed() {
			c.Fail("%s: after Reset TID is %d, TagLen %d, passed %v, failed %v", what, it.TID(), it.TagLen(), it.Passed(), it.Failed())
		}
	}
	for k := 0; k < 2; k++ {
		var i = 0
		for it.Next() {
			if i >= len(t.m) || it.TID() != t.m[i].ID || !bytes.Equal(it.Tag(), t.m[i].B) || it.TagLen() != len(t.m[i].B) || it.Failed() {
				c.Fail("%s: iteration %d step %d gives %d:%s", what, k, i, it.TID(), hexShort(it.Tag()))
			}
			i++
		}
		if i != len(t.m) || !it.Passed() || it.Failed() {
			c.Fail("%s: iteration ends after %d of %d, passed %v, failed %v", what, i, len(t.m), it.Passed(), it.Failed())
		}
		it.Reset()
		if it.TID() != 0 || it.TagLen() != 0 || it.Passed() && len(t.m) > 0 || it.Failed() {
			c.Fail("%s: after Reset TID is %d, TagLen %d, passed %v, failed %v", what, it.TID(), it.TagLen(), it.Passed(), it.Failed())
		}
	}
}

func hexFull(b []byte) string {
	if len(b) > 400 {
		b = b[:400]
	}
	return hexShort(b[:min(len(b), 24)]) + "..." + hexShort(b[max(0, len(b)-24):])
}

func runC10(c *C) {
	var r = c.R
	if c.N%3 == 2 {
		runC10bad(c)
		return
	}
	var ids = []uint16{0, 1, 2, 3, 4, 5, 10, 11, 110, 255, 256, 0x0a00, 65535, 1000}
	shuffle(r, ids)
	ids = ids[:r.Range(2, 8)]
	var bigs = r.P(1, 12)
	var val = func() []byte {
		var n = pick(r, 0, 0, 1, 1, 2, 3, 4, 5, 8, 12, 20, r.Int(40), r.Int(300))
		if bigs && r.P(1, 3) {
			n = pick(r, 255, 256, 257, 4096, 32767, 65535-r.Int(3))
		}
		return content(r, n)
	}
	var pool []*mTagset
	// a tagset inside of a larger buffer, as tagsets of an opened package are
	{
		var m = []MTag{}
		for _, id := range ids[:r.Int(len(ids)+1)] {
			m = append(m, MTag{id, val()})
		}
		var b = encTags(m)
		var pre, post = content(r, r.Int(20)), content(r, r.Int(200))
		var g = append(append(append([]byte(nil), pre...), b...), post...)
		var inner = wpk.TagsetRaw(g[len(pre) : len(pre)+len(b)])
		pool = append(pool, &mTagset{ts: inner, m: m, guard: g, ref: append([]byte(nil), g...)})
		pool = append(pool, &mTagset{ts: wpk.CopyTagset(inner), m: append([]MTag(nil), m...)})
	}
	pool = append(pool, &mTagset{ts: wpk.TagsetRaw{}})
	if r.P(1, 3) {
		pool = append(pool, &mTagset{})
	}
	var maxtags = 0
	for k := r.Range(5, 60); k > 0; k-- {
		var i = 1 + r.Int(len(pool)-1)
		var t = pool[i]
		var id = pickOf(r, ids)
		var v = val()
		var alias = ""
		if len(t.m) > 0 && r.P(1, 8) { // value taken from the tagset itself
			var g = pickOf(r, t.m)
			var x, _ = t.ts.Get(g.ID)
			v, alias = x, " aliasing its own tag"
		}
		var vcopy = append([]byte(nil), v...)
		var what string
		switch op := r.Int(6); op {
		case 0: // put of a new tag
			if _, ok := getTag(t.m, id); ok {
				continue
			}
			what = "Put"
			t.ts = t.ts.Put(id, v)
			t.m = append(t.m, MTag{id, vcopy})
		case 1:
			what = "AddOk"
			var ts, ok = t.ts.AddOk(id, v)
			var _, had = getTag(t.m, id)
			if ok == had {
				c.Fail("AddOk of tag %d says %v, present before %v", id, ok, had)
			}
			t.ts = ts
			if !had {
				t.m = append(t.m, MTag{id, vcopy})
			}
		case 2, 3:
			what = "SetOk"
			var ts, ok = t.ts.SetOk(id, v)
			var m, added = setMTag(t.m, MTag{id, vcopy})
			if ok != added {
				c.Fail("SetOk of tag %d says added %v, want %v", id, ok, added)
			}
			t.ts, t.m = ts, m
		case 4:
			what = "DelOk"
			var ts, ok = t.ts.DelOk(id)
			var m, had = delMTag(t.m, id)
			if ok != had {
				c.Fail("DelOk of tag %d says %v, want %v", id, ok, had)
			}
			t.ts, t.m = ts, m
		case 5:
			if r.P(1, 2) && len(pool) < 6 {
				what = "CopyTagset"
				pool = append(pool, &mTagset{ts: wpk.CopyTagset(t.ts), m: append([]MTag(nil), t.m...)})
			} else { // chain forms
				what = "Set/Add/Del"
				switch r.Int(3) {
				case 0:
					t.ts = t.ts.Set(id, v)
					t.m, _ = setMTag(t.m, MTag{id, vcopy})
				case 1:
					t.ts = t.ts.Add(id, v)
					if _, had := getTag(t.m, id); !had {
						t.m = append(t.m, MTag{id, vcopy})
					}
				case 2:
					t.ts = t.ts.Del(id)
					t.m, _ = delMTag(t.m, id)
				}
			}
		}
		c.T("#%d %s %d %s%s", i, what, id, hexShort(vcopy), alias)
		if alias == "" {
			for j := range v { // the caller's buffer is his own
				v[j] ^= 0x5a
			}
		}
		for j, t := range pool {
			checkTagset(c, what, t)
			if t.guard != nil && !bytes.Equal(t.guard, t.ref) {
				c.Fail("%s on tagset #%d changed the bytes around or in the tagset #%d it was copied from", what, i, j)
			}
			maxtags = max(maxtags, len(t.m))
		}
		for _, id := range []uint16{0, id, uint16(r.U64())} {
			var w, had = getTag(t.m, id)
			var x, ok = t.ts.Get(id)
			if ok != had || !bytes.Equal(x, w) || t.ts.Has(id) != had {
				c.Fail("Get(%d) is %s %v, want %s %v", id, hexShort(x), ok, hexShort(w), had)
			}
		}
		c.Ev("edits compared", 1)
	}
	if maxtags >= 3 {
		c.NonTrivial()
	}
}

// refScan gives the tags before the first broken one.
func refScan(b []byte) (l []MTag, whole bool) {
	for len(b) > 0 {
		if len(b) < 4 {
			return l, false
		}
		var n = int(binary.LittleEndian.Uint16(b[2:]))
		if len(b)-4 < n {
			return l, false
		}
		l = append(l, MTag{binary.LittleEndian.Uint16(b), b[4 : 4+n]})
		b = b[4+n:]
	}
	return l, true
}

func runC10bad(c *C) {
	var r = c.R
	var b []byte
	switch r.Int(4) {
	case 0:
		b = content(r, r.Int(40))
	case 1: // plausible, then cut
		b = encTags(extraTags(r, 6))
		b = b[:r.Int(len(b)+1)]
	case 2: // with a wrong length
		b = encTags([]MTag{{1, encUint(r.U64(), 1<<r.Int(4))}, {2, content(r, r.Int(9))}, {3, []byte(fsName(r))}, {5, content(r, r.Int(14))}})
		for k := r.Range(1, 3); k > 0; k-- {
			b[r.Int(len(b))] = byte(r.U64())
		}
	case 3:
		b = encTags([]MTag{{3, []byte(anyName(r))}, {5, content(r, pick(r, 8, 12, 7))}, {7, content(r, pick(r, 8, 12, 13))}, {8, content(r, pick(r, 8, 12))}, {6, content(r, pick(r, 8, 12))}})
		if r.P(1, 2) {
			b = append(b, content(r, r.Range(1, 5))...)
		}
	}
	// exact capacity, so that any read beyond the end is a fault
	b = append(make([]byte, 0, len(b)), b...)
	b = b[:len(b):len(b)]
	var ref = append([]byte(nil), b...)
	var ts = wpk.TagsetRaw(b)
	var l, whole = refScan(ref)
	c.T("bytes %x whole %v", ref, whole)
	if !whole {
		c.NonTrivial()
		c.Ev("malformed tagsets", 1)
	} else if len(l) > 2 {
		c.NonTrivial()
	}
	if ts.Num() != len(l) {
		c.Fail("Num is %d, reference finds %d", ts.Num(), len(l))
	}
	var it = ts.Iterator()
	var n = 0
	for it.Next() {
		if n >= len(l) || it.TID() != l[n].ID || !bytes.Equal(it.Tag(), l[n].B) {
			c.Fail("iteration step %d gives %d:%s", n, it.TID(), hexShort(it.Tag()))
		}
		n++
	}
	if n != len(l) || it.Passed() != whole || it.Failed() == whole {
		c.Fail("iteration ends after %d of %d, passed %v, failed %v, whole %v", n, len(l), it.Passed(), it.Failed(), whole)
	}
	if !whole && (it.Tag() != nil || it.TagLen() != 0) {
		c.Fail("failed iterator has a tag")
	}
	for k := 0; k < 3; k++ {
		if it.Next() {
			c.Fail("Next after the end")
		}
	}
	var check = []uint16{0, 1, 2, 3, 5, 6, 7, 8, 65535, uint16(r.U64())}
	for _, t := range l {
		check = append(check, t.ID)
	}
	for _, id := range check {
		var w, had = getTag(l, id)
		var v, ok = ts.Get(id)
		if ok != had || ts.Has(id) != had || !bytes.Equal(v, w) {
			c.Fail("Get(%d) is %s %v, want %s %v", id, hexShort(v), ok, hexShort(w), had)
		}
		var s, sok = ts.TagStr(id)
		if sok != had || s != string(w) {
			c.Fail("TagStr(%d) is %q %v", id, s, sok)
		}
		var _, bok = ts.TagBool(id)
		var _, b8 = ts.TagByte(id)
		var _, b16 = ts.TagUint16(id)
		var _, b32 = ts.TagUint32(id)
		var _, b64 = ts.TagUint64(id)
		var _, bn = ts.TagNumber(id)
		var u, bu = ts.TagUint(id)
		var _, bt = ts.TagTime(id)
		var _, bm = ts.TagUnixms(id)
		var k = len(w)
		if bok != (had && k == 1) || b8 != (had && k == 1) || b16 != (had && k == 2) || b32 != (had && k == 4) || b64 != (had && k == 8) ||
			bn != (had && k == 8) || bu != (had && (k == 1 || k == 2 || k == 4 || k == 8)) || bt != (had && (k == 8 || k == 12)) || bm != bt {
			c.Fail("typed lookups of tag %d of %d bytes: %v %v %v %v %v %v %v %v %v", id, k, bok, b8, b16, b32, b64, bn, bu, bt, bm)
		}
		if x, ok := decUint(w); bu && (!ok || x != uint64(u)) {
			c.Fail("TagUint(%d) is %d, want %d", id, u, x)
		}
	}
	// the file-info methods
	var off, size = ts.Pos()
	var ow, _ = getTag(l, 1)
	var sw, hass = getTag(l, 2)
	var ox, _ = decUint(ow)
	var sx, _ = decUint(sw)
	if uint64(off) != ox || uint64(size) != sx || uint64(ts.Size()) != sx {
		c.Fail("Pos is %d %d, want %d %d", off, size, ox, sx)
	}
	var pw, _ = getTag(l, 3)
	if ts.Path() != string(pw) {
		c.Fail("Path is %q, want %q", ts.Path(), pw)
	}
	if ts.IsDir() == hass || ts.Mode().IsDir() == hass || ts.Type().IsDir() == hass {
		c.Fail("directory marks do not follow the size tag")
	}
	ts.Name()
	ts.Sys()
	ts.Info()
	ts.ModTime()
	ts.AccessTime()
	ts.ChangeTime()
	ts.BirthTime()
	var _, h7 = getTag(l, 7)
	var _, h8 = getTag(l, 8)
	if ts.HasChangeTime() != h7 || ts.HasBirthTime() != h8 {
		c.Fail("HasChangeTime %v, HasBirthTime %v", ts.HasChangeTime(), ts.HasBirthTime())
	}
	wpk.CopyTagset(ts)
	if !bytes.Equal(b, ref) {
		c.Fail("reading functions changed the bytes")
	}
}

func runC11(c *C) {
	var r = c.R
	var u64 = func() uint64 {
		switch r.Int(5) {
		case 0:
			return pick[uint64](r, 0, 1, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000001, math.MaxInt64, 1<<63, math.MaxUint64)
		case 1:
			return uint64(1)<<r.Int(64) - 1
		case 2:
			return uint64(1)<<r.Int(64) + uint64(r.Int(3))
		}
		return r.U64() >> uint(r.Int(64))
	}
	var u = u64()
	c.T("value %#x", u)
	c.NonTrivial()
	c.Ev("values", 1)
	var last wpk.TagRaw
	var put = func(what string, t wpk.TagRaw, want []byte) (wpk.TagRaw, wpk.TagsetRaw) {
		if !bytes.Equal(t, want) {
			c.Fail("%s of %#x encodes as %x, want %x", what, u, []byte(t), want)
		}
		// the value belongs to its owner only: what was made before is changed to the last byte of its space
		if what != "StrTag" {
			for i := range last {
				last[i] ^= 0xff
			}
			for i := range last[len(last):cap(last)] {
				last[len(last):cap(last)][i] ^= 0xff
			}
			if !bytes.Equal(t, want) {
				c.Fail("%s of %#x changes to %x with another tag", what, u, []byte(t))
			}
			last = append(wpk.TagRaw{}, t...)
			last, t = t, last
		}
		// between other tags, at any alignment
		var ts = wpk.TagsetRaw{}.Put(77, content(r, r.Int(5))).Put(33, t).Put(78, content(r, r.Int(5)))
		return t, ts
	}
	// uint
	var t, ts = put("UintTag", wpk.UintTag(uint(u)), minUint(u))
	if v, ok := t.TagUint(); !ok || uint64(v) != u {
		c.Fail("TagUint of %#x is %#x %v", u, v, ok)
	}
	if v, ok := ts.TagUint(33); !ok || uint64(v) != u {
		c.Fail("tagset TagUint of %#x is %#x %v", u, v, ok)
	}
	for _, l := range []int{1, 2, 4, 8} {
		if len(minUint(u)) <= l {
			t, ts = put("UintLenTag", wpk.UintLenTag(uint(u), l), encUint(u, l))
			if v, ok := t.TagUint(); !ok || uint64(v) != u {
				c.Fail("TagUint of %d bytes of %#x is %#x %v", l, u, v, ok)
			}
		}
	}
	// fixed sizes
	t, ts = put("Uint64Tag", wpk.Uint64Tag(u), encUint(u, 8))
	if v, ok := t.TagUint64(); !ok || v != u {
		c.Fail("TagUint64 of %#x is %#x %v", u, v, ok)
	}
	if v, ok := ts.TagUint64(33); !ok || v != u {
		c.Fail("tagset TagUint64 of %#x is %#x %v", u, v, ok)
	}
	var u32 = uint32(u)
	t, ts = put("Uint32Tag", wpk.Uint32Tag(u32), encUint(uint64(u32), 4))
	if v, ok := t.TagUint32(); !ok || v != u32 {
		c.Fail("TagUint32 of %#x is %#x %v", u32, v, ok)
	}
	if v, ok := ts.TagUint32(33); !ok || v != u32 {
		c.Fail("tagset TagUint32 of %#x is %#x %v", u32, v, ok)
	}
	var u16 = uint16(u)
	t, ts = put("Uint16Tag", wpk.Uint16Tag(u16), encUint(uint64(u16), 2))
	if v, ok := t.TagUint16(); !ok || v != u16 {
		c.Fail("TagUint16 of %#x is %#x %v", u16, v, ok)
	}
	if v, ok := ts.TagUint16(33); !ok || v != u16 {
		c.Fail("tagset TagUint16 of %#x is %#x %v", u16, v, ok)
	}
	var u8 = uint8(u)
	t, ts = put("ByteTag", wpk.ByteTag(u8), []byte{u8})
	if v, ok := t.TagByte(); !ok || v != u8 {
		c.Fail("TagByte of %#x is %#x %v", u8, v, ok)
	}
	if v, ok := ts.TagByte(33); !ok || v != u8 {
		c.Fail("tagset TagByte of %#x is %#x %v", u8, v, ok)
	}
	var b = u&1 == 1
	t, ts = put("BoolTag", wpk.BoolTag(b), []byte{byte(u & 1)})
	if v, ok := t.TagBool(); !ok || v != b {
		c.Fail("TagBool of %v is %v %v", b, v, ok)
	}
	if v, ok := ts.TagBool(33); !ok || v != b {
		c.Fail("tagset TagBool of %v is %v %v", b, v, ok)
	}
	// float
	var f = math.Float64frombits(u)
	if r.P(1, 2) {
		f = pick(r, 0, math.Copysign(0, -1), 1, -1, 1.5, math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, float64(int64(u)), float64(int64(u))/1000)
	}
	t, ts = put("NumberTag", wpk.NumberTag(f), encUint(math.Float64bits(f), 8))
	if v, ok := t.TagNumber(); !ok || math.Float64bits(v) != math.Float64bits(f) {
		c.Fail("TagNumber of %v is %v %v", f, v, ok)
	}
	if v, ok := ts.TagNumber(33); !ok || math.Float64bits(v) != math.Float64bits(f) {
		c.Fail("tagset TagNumber of %v is %v %v", f, v, ok)
	}
	// string
	var s = anyName(r)
	t, ts = put("StrTag", wpk.StrTag(s), []byte(s))
	if v, ok := t.TagStr(); !ok || v != s {
		c.Fail("TagStr of %q is %q %v", s, v, ok)
	}
	if v, ok := ts.TagStr(33); !ok || v != s {
		c.Fail("tagset TagStr of %q is %q %v", s, v, ok)
	}
	// time
	var sec = int64(u) >> uint(pick(r, 10, 20, 30, 31, 33, 34))
	var nsec = pick(r, 0, 1, 999999999, 999999, 1000000, 500000000, r.Int(1000000000))
	var tm = time.Unix(sec, int64(nsec))
	if r.P(1, 2) {
		tm = tm.UTC()
	} else if r.P(1, 2) {
		tm = tm.In(time.FixedZone("x", r.Range(-40000, 40000)))
	}
	c.Mix(tm.String())
	t, ts = put("TimeTag", wpk.TimeTag(tm), append(encUint(uint64(sec), 8), encUint(uint64(nsec), 4)...))
	if v, ok := t.TagTime(); !ok || !v.Equal(tm) {
		c.Fail("TagTime of %v is %v %v", tm, v, ok)
	}
	if v, ok := ts.TagTime(33); !ok || !v.Equal(tm) {
		c.Fail("tagset TagTime of %v is %v %v", tm, v, ok)
	}
	var ms = sec*1000 + int64(nsec)/1000000
	if sec > -1<<53 && sec < 1<<53 {
		if v, ok := t.TagUnixms(); !ok || v != ms {
			c.Fail("TagUnixms of %v is %v %v", tm, v, ok)
		}
		if v, ok := ts.TagUnixms(33); !ok || v != ms {
			c.Fail("tagset TagUnixms of %v is %v %v", tm, v, ok)
		}
		t, ts = put("UnixmsTag", wpk.UnixmsTag(tm), encUint(uint64(ms), 8))
		if v, ok := t.TagUnixms(); !ok || v != ms {
			c.Fail("TagUnixms of milliseconds %v is %v %v", ms, v, ok)
		}
		if v, ok := ts.TagUnixms(33); !ok || v != ms {
			c.Fail("tagset TagUnixms of milliseconds %v is %v %v", ms, v, ok)
		}
		var want = time.UnixMilli(ms)
		if v, ok := t.TagTime(); !ok || !v.Equal(want) {
			c.Fail("TagTime of milliseconds %v is %v %v", ms, v, ok)
		}
		if v, ok := ts.TagTime(33); !ok || !v.Equal(want) {
			c.Fail("tagset TagTime of milliseconds %v is %v %v", ms, v, ok)
		}
	}
	// any nonzero byte is true
	t, ts = put("ByteTag", wpk.ByteTag(byte(u)), []byte{byte(u)})
	if v, ok := t.TagBool(); !ok || v != (byte(u) != 0) {
		c.Fail("TagBool of byte %d is %v %v", byte(u), v, ok)
	}
	if v, ok := ts.TagBool(33); !ok || v != (byte(u) != 0) {
		c.Fail("tagset TagBool of byte %d is %v %v", byte(u), v, ok)
	}
	// unacceptable lengths
	for l := 0; l <= 20; l++ {
		var x = wpk.TagRaw(content(r, l))
		var _, ok1 = x.TagBool()
		var _, ok2 = x.TagByte()
		var _, ok3 = x.TagUint16()
		var _, ok4 = x.TagUint32()
		var _, ok5 = x.TagUint64()
		var v6, ok6 = x.TagUint()
		var _, ok7 = x.TagNumber()
		var _, ok8 = x.TagTime()
		var _, ok9 = x.TagUnixms()
		if ok1 != (l == 1) || ok2 != (l == 1) || ok3 != (l == 2) || ok4 != (l == 4) || ok5 != (l == 8) || ok6 != (l == 1 || l == 2 || l == 4 || l == 8) ||
			ok7 != (l == 8) || ok8 != (l == 8 || l == 12) || ok9 != (l == 8 || l == 12) {
			c.Fail("decoding of %d bytes: bool %v, byte %v, u16 %v, u32 %v, u64 %v, uint %v, number %v, time %v, ms %v", l, ok1, ok2, ok3, ok4, ok5, ok6, ok7, ok8, ok9)
		}
		if w, _ := decUint(x); ok6 && uint64(v6) != w {
			c.Fail("TagUint of %x is %#x", []byte(x), v6)
		}
	}
	// stream and slice integers at any alignment
	var buf = make([]byte, 32)
	var at = r.Int(16)
	util.SetU16(buf[at:], u16)
	if !bytes.Equal(buf[at:at+2], encUint(uint64(u16), 2)) || util.GetU16(buf[at:]) != u16 {
		c.Fail("SetU16/GetU16 of %#x at %d", u16, at)
	}
	util.SetU32(buf[at:], u32)
	if !bytes.Equal(buf[at:at+4], encUint(uint64(u32), 4)) || util.GetU32(buf[at:]) != u32 {
		c.Fail("SetU32/GetU32 of %#x at %d", u32, at)
	}
	util.SetU64(buf[at:], u)
	if !bytes.Equal(buf[at:at+8], encUint(u, 8)) || util.GetU64(buf[at:]) != u {
		c.Fail("SetU64/GetU64 of %#x at %d", u, at)
	}
	util.SetF64(buf[at:], f)
	if !bytes.Equal(buf[at:at+8], encUint(math.Float64bits(f), 8)) || math.Float64bits(util.GetF64(buf[at:])) != math.Float64bits(f) {
		c.Fail("SetF64/GetF64 of %v at %d", f, at)
	}
	var f32 = float32(f)
	util.SetF32(buf[at:], f32)
	if !bytes.Equal(buf[at:at+4], encUint(uint64(math.Float32bits(f32)), 4)) || math.Float32bits(util.GetF32(buf[at:])) != math.Float32bits(f32) {
		c.Fail("SetF32/GetF32 of %v at %d", f32, at)
	}
	var w bytes.Buffer
	util.WriteU16(&w, u16)
	util.WriteU32(&w, u32)
	util.WriteU64(&w, u)
	util.WriteF32(&w, f32)
	util.WriteF64(&w, f)
	var want = bytes.Join([][]byte{encUint(uint64(u16), 2), encUint(uint64(u32), 4), encUint(u, 8), encUint(uint64(math.Float32bits(f32)), 4), encUint(math.Float64bits(f), 8)}, nil)
	if !bytes.Equal(w.Bytes(), want) {
		c.Fail("stream integers are %x, want %x", w.Bytes(), want)
	}
	var rd = bytes.NewReader(want)
	var a1, e1 = util.ReadU16(rd)
	var a2, e2 = util.ReadU32(rd)
	var a3, e3 = util.ReadU64(rd)
	var a4, e4 = util.ReadF32(rd)
	var a5, e5 = util.ReadF64(rd)
	if e1 != nil || e2 != nil || e3 != nil || e4 != nil || e5 != nil || a1 != u16 || a2 != u32 || a3 != u || math.Float32bits(a4) != math.Float32bits(f32) || math.Float64bits(a5) != math.Float64bits(f) {
		c.Fail("reading %x gives %v %v %v %v %v", want, a1, a2, a3, a4, a5)
	}
}
