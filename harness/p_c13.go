// C13: concurrent packing. C14: linearizable table, snapshots. C15: concurrent readers.
// Everything here is built with the race detector. The goroutines of a case share nothing of the
// harness while they run, so that the harness does not order what the library leaves unordered.
package main

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"path"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/util"
)

func init() {
	register(&Prop{
		ID: "C13", Level: "exploration", Quick: 3000, Thorough: 60000, Workers: 3,
		Rule:   "race detector build; each case runs 2..8 goroutines packing own and contested names from sources that yield, sleep or look the package up in the middle of the data, together with lookups, listings and flushes, then checks ranges, outcomes, every state flushed meanwhile (replayed from the log of writes) and the final image; the identity of a case includes the order in which the data got into the package; non-trivial when the ranges of two goroutines alternate",
		MinEv:  map[string]int64{"files packed": 5000, "refused contested calls": 500, "flushes meanwhile": 300, "cases with alternating goroutines": 300},
		Assume: []string{"the race detector sees only the interleavings that happened"},
		Run:    runC13,
	})
	register(&Prop{
		ID: "C14", Level: "exploration", Quick: 24000, Thorough: 240000, Workers: 3,
		Rule:   "race detector build; each case records a history of 3..5 goroutines with 4..9 calls each on the ordered map or on a package, its views and unions (set, get, has, delete, push, pop, count, enumeration, listing, pattern, existence of a directory), checked for linearizability by porcupine against an ordered list, runs a stress with permanent keys, renames and editing callbacks, or looks up and enumerates tables of up to 1500 entries while the ones in front of them come and go; the identity of a case includes the observed results and their order; non-trivial when two calls of different goroutines overlapped",
		MinEv:  map[string]int64{"histories checked": 2000, "snapshots in histories": 2000, "stress enumerations": 1000, "overlapping pairs": 5000, "lookups in large tables": 100000},
		Assume: []string{"the race detector sees only the interleavings that happened"},
		Run:    runC14,
	})
	register(&Prop{
		ID: "C15", Level: "exploration", Quick: 1200, Thorough: 30000, Workers: 3,
		Rule:   "race detector build; each case opens a package on disk in one access mode and runs 3..8 goroutines, each with its own handles and some with common ones used only to read at places, which open, read, seek, read at, stat, list, page, match and close through the package, views and unions, comparing everything with the originals; non-trivial always (at least three goroutines read the same files)",
		MinEv:  map[string]int64{"calls compared": 50000, "calls on common handles": 3000},
		Assume: []string{"the race detector sees only the interleavings that happened"},
		Run:    runC15,
	})
}

// together runs functions at once and fails the case with the first message or on a deadlock.
func together(c *C, fs ...func()) {
	var start = make(chan struct{})
	var msgs = make([]string, len(fs))
	var wg sync.WaitGroup
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			debug.SetPanicOnFault(true)
			<-start
			msgs[i] = guard(f)
		}()
	}
	var done = make(chan struct{})
	go func() {
		wg.Wait()
		close(done)
	}()
	close(start)
	select {
	case <-done:
	case <-time.After(90 * time.Second):
		var buf = make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		panic(&violation{msg: "deadlock: the goroutines of a case did not end in 90 s\n" + string(buf), stop: true})
	}
	for i, m := range msgs {
		if m != "" {
			c.Fail("goroutine %d: %s", i, m)
		}
	}
}

func fail(format string, args ...any) {
	panic(&violation{msg: fmt.Sprintf(format, args...)})
}

// ---------------------------------------------------------------- C13

type packed struct {
	name string
	data []byte
	g    int
	ts   wpk.TagsetRaw
	err  error
}

func runC13(c *C) {
	var r = c.R
	var split = r.P(2, 3)
	var s = newSession(split)
	var ng = r.Range(2, 8)
	var flushes = split && r.P(2, 3)
	c.NoErr(s.pkg.Begin(s.wpt, s.f()), "Begin")
	s.pkg.Tagger = &memTagger{}
	var m = &Model{}
	// some files before
	for i := r.Int(3); i > 0; i-- {
		var e = &Ent{Name: fmt.Sprintf("before%d", i), Data: content(r, r.Int(50))}
		var _, err = s.pkg.PackData(s.w(), bytes.NewReader(e.Data), e.Name)
		c.NoErr(err, "PackData")
		m.Ents = append(m.Ents, e)
	}
	if split {
		c.NoErr(s.pkg.Sync(s.wpt, s.f()), "Sync")
		if r.P(1, 3) {
			// append session by another object
			s.pkg = wpk.NewPackage()
			c.NoErr(s.pkg.OpenStream(bytes.NewReader(s.wpt.B)), "OpenStream")
			c.NoErr(s.pkg.Append(s.wpt, s.f()), "Append")
		}
	}
	var contested []string
	for i := r.Int(4); i > 0; i-- {
		contested = append(contested, fmt.Sprintf("d/same%d", i))
	}
	var view *wpk.Package
	if r.P(1, 3) { // names are given through a view too
		var ts, err = s.pkg.PackData(s.w(), bytes.NewReader(nil), "d/first")
		c.NoErr(err, "PackData %v", ts)
		m.Ents = append(m.Ents, &Ent{Name: "d/first"})
		var v, verr = s.pkg.Sub("d")
		c.NoErr(verr, "Sub")
		view = v.(*wpk.Package)
	}
	var logFrom = len(s.l.Ops)
	var res = make([][]*packed, ng)
	var lookups = make([]int, ng+2)
	var jobs []func()
	for g := 0; g < ng; g++ {
		var own []string
		for i := r.Range(1, 6); i > 0; i-- {
			own = append(own, fmt.Sprintf("%s%d-%d", pick(r, "d/", "", "e/"), g, i))
		}
		own = append(own, contested...)
		shuffle(r, own)
		var rr = &Rng{r.U64()}
		jobs = append(jobs, func() {
			for _, name := range own {
				var p = &packed{name: name, data: content(rr, pick(rr, 0, 1, rr.Int(100), rr.Int(100), rr.Int(3000), 40000)), g: g}
				var pkg, key = s.pkg, name
				if x, ok := strings.CutPrefix(name, "d/"); ok && view != nil && rr.P(1, 2) {
					pkg, key = view, x
				}
				var how = rr.Int(5)
				var src io.Reader = &chunkReader{b: p.data, fail: -1, next: func() int {
					switch how {
					case 0:
						runtime.Gosched()
					case 1:
						time.Sleep(time.Duration(rr.Int(150)) * time.Microsecond)
					case 2: // the source looks at the package
						if _, ok := s.pkg.GetTagset(name); ok && !strings.Contains(name, "same") {
							fail("%s is listed before it is packed", name)
						}
						lookups[g]++
					}
					return rr.Range(1, 2000)
				}}
				if how == 3 {
					src = bytes.NewReader(p.data)
				}
				if rr.P(1, 4) {
					var f = &memFile{src: src, mod: time.Unix(1, 2)}
					p.ts, p.err = pkg.PackFile(s.w(), f, key)
				} else {
					p.ts, p.err = pkg.PackData(s.w(), src, key)
				}
				if rr.P(1, 3) {
					runtime.Gosched()
				}
				if _, ok := pkg.GetTagset(key); !ok {
					fail("%s is not there after its packing (%v)", name, p.err)
				}
				res[g] = append(res[g], p)
			}
		})
	}
	var nflush = 0
	if flushes {
		var rr = &Rng{r.U64()}
		var n = r.Range(1, 6)
		jobs = append(jobs, func() {
			for i := 0; i < n; i++ {
				if err := s.pkg.Sync(s.wpt, s.f()); err != nil {
					fail("Sync: %v", err)
				}
				nflush++
				if rr.P(1, 2) {
					time.Sleep(time.Duration(rr.Int(200)) * time.Microsecond)
				}
			}
		})
	}
	if r.P(2, 3) {
		var rr = &Rng{r.U64()}
		var n = r.Range(3, 30)
		var before = m.names()
		jobs = append(jobs, func() {
			for i := 0; i < n; i++ {
				var seen = map[string]bool{}
				switch rr.Int(5) {
				case 0:
					s.pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
						if seen[fkey] || ts.Path() != fkey {
							fail("Enum gives %s with path %s, seen %v", fkey, ts.Path(), seen[fkey])
						}
						seen[fkey] = true
						return true
					})
					for _, b := range before {
						if !seen[b] {
							fail("Enum misses %s", b)
						}
					}
				case 1:
					var l, err = s.pkg.ReadDir(".")
					if err != nil && len(before) > 0 {
						fail("ReadDir: %v", err)
					}
					for _, d := range l {
						if seen[d.Name()] {
							fail("ReadDir gives %s twice", d.Name())
						}
						seen[d.Name()] = true
					}
				case 2:
					for _, b := range before {
						if !s.pkg.HasTagset(b) {
							fail("HasTagset of %s is false", b)
						}
					}
				case 3:
					if _, err := s.pkg.Glob("*"); err != nil {
						fail("Glob: %v", err)
					}
				case 4:
					if s.pkg.TagsetNum() < len(before) {
						fail("TagsetNum is less than before")
					}
				}
				lookups[ng]++
				runtime.Gosched()
			}
		})
	}
	c.T("split %v, %d goroutines, contested %v, flushes %v, view %v", split, ng, contested, flushes, view != nil)
	together(c, jobs...)
	for i, l := range res {
		for _, p := range l {
			c.T("goroutine %d: %s %d bytes -> %v", i, p.name, len(p.data), p.err)
		}
	}
	c.Ev("flushes meanwhile", nflush)
	for _, n := range lookups {
		c.Ev("lookups meanwhile", n)
	}
	// outcomes
	var winners = map[string]*packed{}
	var all []*packed
	for _, l := range res {
		for _, p := range l {
			if p.err == nil {
				if winners[p.name] != nil {
					c.Fail("%s was packed twice", p.name)
				}
				winners[p.name] = p
				all = append(all, p)
				c.Ev("files packed", 1)
			} else if !isExist(p.err) || !strings.Contains(p.name, "same") {
				c.Fail("packing of %s gives %v", p.name, p.err)
			} else {
				c.Ev("refused contested calls", 1)
			}
		}
	}
	for _, n := range contested {
		if winners[n] == nil {
			c.Fail("no one of %d could pack %s", ng, n)
		}
	}
	// ranges
	type rng struct {
		off, end uint
		p        *packed
	}
	var l []rng
	for _, p := range all {
		var off, size = p.ts.Pos()
		if int(size) != len(p.data) {
			c.Fail("%s of %d bytes has size %d", p.name, len(p.data), size)
		}
		if off+size > uint(len(s.dat())) || !bytes.Equal(s.dat()[off:off+size], p.data) {
			c.Fail("%s of %d bytes is not at its place %d", p.name, len(p.data), off)
		}
		l = append(l, rng{off, off + size, p})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].off < l[j].off || l[i].off == l[j].off && l[i].end < l[j].end })
	var turns = 0
	for i := range l {
		c.Mix(l[i].p.name)
		if i > 0 {
			if l[i].off < l[i-1].end {
				c.Fail("ranges of %s and %s overlap", l[i-1].p.name, l[i].p.name)
			}
			if l[i].p.g != l[i-1].p.g {
				turns++
			}
		}
	}
	if turns >= ng {
		c.NonTrivial()
		c.Ev("cases with alternating goroutines", 1)
	}
	// the table
	for _, p := range all {
		m.Ents = append(m.Ents, &Ent{Name: p.name, Data: p.data, Loose: true, Times: true})
	}
	if d := m.diff(enumView(c, "writer", s.pkg, s.dat()), nil, true); d != "" {
		c.Fail("table of the writer: %s", d)
	}
	c.NoErr(s.pkg.Sync(s.wpt, s.f()), "Sync")
	checkImage(c, "final image", s.wpt.B, s.dat(), split, m)
	// states flushed meanwhile: every prefix that ends with a header
	if nflush == 0 {
		return
	}
	var st, sd []byte
	var byname = map[string]*Ent{}
	for _, e := range m.Ents {
		byname[e.Name] = e
	}
	var apply = func(b []byte, o WOp) []byte {
		if end := int(o.Off) + len(o.B); end > len(b) {
			b = append(b, make([]byte, end-len(b))...)
		}
		copy(b[o.Off:], o.B)
		return b
	}
	var last = 0
	for i, o := range s.l.Ops {
		if o.F == 0 {
			st = apply(st, o)
		} else {
			sd = apply(sd, o)
		}
		if i < logFrom || o.F != 0 || o.Off != 0 {
			continue
		}
		var rp, err = decPkg(st, int64(len(sd)), true)
		c.NoErr(err, "state flushed meanwhile, write %d", i)
		if len(rp.Ents) < last {
			c.Fail("a later flush has %d entries, earlier %d", len(rp.Ents), last)
		}
		last = len(rp.Ents)
		for _, e := range rp.view(sd) {
			var w = byname[e.Name]
			if w == nil || !bytes.Equal(w.Data, e.Data) {
				c.Fail("state flushed meanwhile has %s of %d bytes, unknown or wrong", e.Name, len(e.Data))
			}
		}
		c.Ev("flushed states checked", 1)
	}
}

// ---------------------------------------------------------------- C14

const (
	oPoke = iota
	oPush
	oPeek
	oHas
	oDel
	oPop
	oLen
	oRange
	oNames
	oSorted
	oAny
	oInit
)

var opNames = []string{"set", "push", "get", "has", "delete", "pop", "count", "range", "names", "sorted names", "any", "init"}

type linIn struct {
	op   int
	k, v byte
}

type linOut struct {
	ok   bool
	k, v byte
	n    int
	list string
}

func (o linOut) String() string { return fmt.Sprintf("%v %d %d %d %x", o.ok, o.k, o.v, o.n, o.list) }

// the state is a string of pairs key, value in insertion order
func linFind(s string, k byte) int {
	for i := 0; i < len(s); i += 2 {
		if s[i] == k {
			return i
		}
	}
	return -1
}

func linNames(s string) string {
	var b []byte
	for i := 0; i < len(s); i += 2 {
		b = append(b, s[i])
	}
	return string(b)
}

var linModel = porcupine.Model{
	Init: func() any { return "" },
	Step: func(state, input, output any) (bool, any) {
		var s, in, out = state.(string), input.(linIn), output.(linOut)
		var i = linFind(s, in.k)
		switch in.op {
		case oPoke:
			if i >= 0 {
				return true, s[:i+1] + string(rune0(in.v)) + s[i+2:]
			}
			return true, s + pair(in.k, in.v)
		case oPush:
			if i >= 0 {
				return out.ok, s
			}
			return !out.ok, s + pair(in.k, in.v)
		case oPeek:
			if i >= 0 {
				return out.ok && out.v == s[i+1], s
			}
			return !out.ok, s
		case oHas:
			return out.ok == (i >= 0), s
		case oDel:
			if i >= 0 {
				return out.ok && out.v == s[i+1], s[:i] + s[i+2:]
			}
			return !out.ok, s
		case oPop:
			if s == "" {
				return !out.ok, s
			}
			var n = len(s) - 2
			return out.ok && out.k == s[n] && out.v == s[n+1], s[:n]
		case oLen:
			return out.n == len(s)/2, s
		case oRange:
			return out.list == s, s
		case oNames:
			return out.list == linNames(s), s
		case oSorted:
			var b = []byte(linNames(s))
			sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
			return out.list == string(b), s
		case oAny:
			return out.ok == (s != ""), s
		case oInit:
			return true, ""
		}
		return false, s
	},
	DescribeOperation: func(in, out any) string {
		var i = in.(linIn)
		return fmt.Sprintf("%s(%d,%d) -> %v", opNames[i.op], i.k, i.v, out.(linOut))
	},
}

func pair(k, v byte) string    { return string([]byte{k, v}) }
func rune0(v byte) []byte      { return []byte{v} }
func keyName(k byte) string    { return "d/k" + string(rune('a'+k)) }
func nameKey(name string) byte { return name[len(name)-1] - 'a' }

type linTarget struct {
	ops []int
	do  func(rr *Rng, in linIn, nested func()) linOut
}

func seqTarget() linTarget {
	var m util.SeqMap[byte, byte]
	m.Init(0)
	return linTarget{
		ops: []int{oPoke, oPoke, oPush, oPush, oPeek, oHas, oDel, oDel, oPop, oLen, oRange, oRange, oInit},
		do: func(rr *Rng, in linIn, nested func()) (o linOut) {
			switch in.op {
			case oPoke:
				m.Poke(in.k, in.v)
			case oPush:
				o.ok = m.Push(in.k, in.v)
			case oPeek:
				o.v, o.ok = m.Peek(in.k)
			case oHas:
				o.ok = m.Has(in.k)
			case oDel:
				o.v, o.ok = m.Delete(in.k)
			case oPop:
				o.k, o.v, o.ok = m.Pop()
			case oLen:
				o.n = m.Len()
			case oInit:
				m.Init(int(in.v) % 3)
			case oRange:
				var b []byte
				m.Range(func(k, v byte) bool {
					if nested != nil {
						nested()
					}
					b = append(b, k, v)
					return true
				})
				o.list = string(b)
			}
			return
		},
	}
}

func mkTs(k, v byte) wpk.TagsetRaw {
	return wpk.TagsetRaw{}.Put(wpk.TIDoffset, wpk.UintTag(0)).Put(wpk.TIDsize, wpk.UintTag(uint(v))).Put(wpk.TIDpath, wpk.StrTag(keyName(k)))
}

func tsVal(ts wpk.TagsetRaw) byte {
	return byte(ts.Size())
}

func pkgTarget(c *C) linTarget {
	var pkg = wpk.NewPackage()
	// a view has to have something to be made; its only entry is taken away then
	pkg.SetTagset(keyName(0), mkTs(0, 1))
	var v, err = pkg.Sub("d")
	c.NoErr(err, "Sub")
	pkg.DelTagset(keyName(0))
	var view = v.(*wpk.Package)
	var u = &wpk.Union{List: []*wpk.Package{pkg}}
	return linTarget{
		ops: []int{oPoke, oPoke, oPoke, oPeek, oPeek, oHas, oDel, oDel, oLen, oRange, oRange, oNames, oSorted, oSorted, oAny},
		do: func(rr *Rng, in linIn, nested func()) (o linOut) {
			var p, name = pkg, keyName(in.k)
			if rr.P(1, 2) {
				p, name = view, name[2:]
			}
			switch in.op {
			case oPoke:
				if rr.P(1, 3) {
					p.SetupTagset(mkTs(in.k, in.v))
				} else {
					p.SetTagset(name, mkTs(in.k, in.v))
				}
			case oPeek:
				var ts wpk.TagsetRaw
				switch rr.Int(3) {
				case 0:
					var fi, err = p.Stat(name)
					if o.ok = err == nil; o.ok {
						o.v = byte(fi.Size())
					}
				case 1:
					var fi, err = u.Stat(keyName(in.k))
					if o.ok = err == nil; o.ok {
						o.v = byte(fi.Size())
					}
				default:
					if ts, o.ok = p.GetTagset(name); o.ok {
						o.v = tsVal(ts)
					}
				}
			case oHas:
				o.ok = p.HasTagset(name)
			case oDel:
				var ts wpk.TagsetRaw
				if ts, o.ok = p.DelTagset(name); o.ok {
					o.v = tsVal(ts)
				}
			case oLen:
				o.n = p.TagsetNum()
			case oRange:
				var b []byte
				p.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
					if nested != nil {
						nested()
					}
					if ts.Path() != "d/"+strings.TrimPrefix(fkey, "d/") {
						fail("enumeration gives %s with path %s", fkey, ts.Path())
					}
					b = append(b, nameKey(fkey), tsVal(ts))
					return true
				})
				o.list = string(b)
			case oNames:
				var l []string
				switch rr.Int(3) {
				case 0:
					l, _ = pkg.Glob("d/*")
				case 1:
					l, _ = view.Glob("k?")
				default:
					l = u.AllKeys()
				}
				var b []byte
				for _, n := range l {
					b = append(b, nameKey(n))
				}
				o.list = string(b)
			case oSorted:
				var l []fs.DirEntry
				switch rr.Int(3) {
				case 0:
					l, _ = pkg.ReadDir("d")
				case 1:
					l, _ = view.ReadDir(".")
				default:
					l, _ = u.ReadDir("d")
				}
				var b []byte
				for _, d := range l {
					b = append(b, nameKey(d.Name()))
				}
				o.list = string(b)
			case oAny:
				var err error
				switch rr.Int(4) {
				case 0:
					_, err = pkg.Sub("d")
				case 1:
					_, err = pkg.Stat("d")
				case 2:
					_, err = pkg.OpenDir("d")
				default:
					_, err = u.Open("d")
				}
				o.ok = err == nil
			}
			return
		},
	}
}

func runC14(c *C) {
	if c.R.P(1, 6) {
		stressC14(c)
		return
	}
	if c.R.P(1, 12) {
		largeC14(c)
		return
	}
	var r = c.R
	var t linTarget
	if r.P(1, 2) {
		t = seqTarget()
	} else {
		t = pkgTarget(c)
	}
	var ng = r.Range(3, 5)
	var nk = r.Range(2, 4)
	var hist = make([][]porcupine.Operation, ng)
	var base = time.Now()
	var jobs []func()
	var val = byte(1)
	for g := 0; g < ng; g++ {
		var n = r.Range(4, 9)
		var rr = &Rng{r.U64()}
		var v0 = val
		val += byte(n*3 + 1)
		jobs = append(jobs, func() {
			var v = v0
			var call func(client int, deep bool)
			call = func(client int, deep bool) {
				var in = linIn{op: pickOf(rr, t.ops), k: byte(rr.Int(nk))}
				if deep {
					in.op = pick(rr, oPoke, oDel, oHas, oPeek)
				}
				if in.op == oInit && !rr.P(1, 3) {
					in.op = oPush
				}
				if in.op == oPoke || in.op == oPush {
					in.v = v
					v++
				}
				var nested func()
				if in.op == oRange && !deep && rr.P(1, 2) {
					var left = 2
					nested = func() {
						if left > 0 {
							left--
							call(client+100, true)
						}
					}
				}
				var from = time.Since(base)
				var out = t.do(rr, in, nested)
				var to = time.Since(base)
				hist[g] = append(hist[g], porcupine.Operation{ClientId: client, Input: in, Call: int64(from), Output: out, Return: int64(to)})
			}
			for i := 0; i < n; i++ {
				call(g, false)
				switch rr.Int(6) {
				case 0:
					runtime.Gosched()
				case 1:
					for k := rr.Int(300); k > 0; k-- {
						_ = rr.U64()
					}
				}
			}
		})
	}
	together(c, jobs...)
	var ops []porcupine.Operation
	for _, l := range hist {
		ops = append(ops, l...)
	}
	var byret = append([]porcupine.Operation(nil), ops...)
	sort.SliceStable(byret, func(i, j int) bool { return byret[i].Return < byret[j].Return })
	var pairs = 0
	for i, o := range ops {
		for _, p := range ops[i+1:] {
			if o.ClientId%100 != p.ClientId%100 && o.Call <= p.Return && p.Call <= o.Return {
				pairs++
			}
		}
		if o.Input.(linIn).op >= oRange && o.Input.(linIn).op <= oSorted {
			c.Ev("snapshots in histories", 1)
		}
	}
	for _, o := range byret {
		c.T("#%d [%d,%d] %s", o.ClientId, o.Call, o.Return, linModel.DescribeOperation(o.Input, o.Output))
	}
	c.Ev("overlapping pairs", pairs)
	if pairs > 0 {
		c.NonTrivial()
	}
	var res = porcupine.CheckOperationsTimeout(linModel, ops, 20*time.Second)
	switch res {
	case porcupine.Illegal:
		c.Fail("history of %d calls is not linearizable", len(ops))
	case porcupine.Unknown:
		c.Ev("histories not decided in time", 1)
	default:
		c.Ev("histories checked", 1)
	}
}

// stressC14: permanent keys, churn, own renames and callbacks which edit.
func stressC14(c *C) {
	var r = c.R
	// parsed table: all tagsets are in one buffer
	var s = newSession(false)
	s.wpt.L = nil
	c.NoErr(s.pkg.Begin(s.wpt, nil), "Begin")
	var perm []string
	for i := r.Range(1, 8); i > 0; i-- {
		var n = fmt.Sprintf("p/%d", i)
		perm = append(perm, n)
		var _, err = s.pkg.PackData(s.wpt, strings.NewReader(n), n)
		c.NoErr(err, "PackData")
	}
	var ng = r.Range(2, 5)
	for g := 0; g < ng; g++ {
		var n = fmt.Sprintf("own%d", g)
		var _, err = s.pkg.PackData(s.wpt, strings.NewReader(n), n)
		c.NoErr(err, "PackData")
	}
	c.NoErr(s.pkg.Sync(s.wpt, nil), "Sync")
	var pkg = wpk.NewPackage()
	c.NoErr(pkg.OpenStream(bytes.NewReader(s.wpt.B)), "OpenStream")
	pkg.Tagger = &memTagger{s.wpt.B}
	var u = &wpk.Union{List: []*wpk.Package{pkg}}
	c.T("stress: %d permanent keys, %d goroutines", len(perm), ng)
	var final = make([]string, ng)
	var enums = make([]int, 2*ng)
	var jobs []func()
	for g := 0; g < ng; g++ {
		var rr = &Rng{r.U64()}
		var steps = r.Range(5, 30)
		jobs = append(jobs, func() { // editor of its own names
			var name = fmt.Sprintf("own%d", g)
			for i := 0; i < steps; i++ {
				switch rr.Int(5) {
				case 0:
					var nn = fmt.Sprintf("own%d-%s", g, strings.Repeat("x", rr.Int(4)))
					var err = pkg.Rename(name, nn)
					if (nn == name) != isExist(err) || nn != name && err != nil {
						fail("Rename %s %s: %v", name, nn, err)
					}
					name = nn
				case 1:
					var nn = fmt.Sprintf("own%d+%d", g, i)
					if err := pkg.PutAlias(name, nn); err != nil {
						fail("PutAlias: %v", err)
					}
					if _, ok := pkg.DelTagset(nn); !ok {
						fail("DelTagset")
					}
				case 2:
					var ts, ok = pkg.GetTagset(name)
					if !ok {
						fail("%s is lost", name)
					}
					pkg.SetTagset(name, wpk.CopyTagset(ts).Set(200, wpk.ByteTag(byte(i))))
				case 3:
					if b, err := pkg.ReadFile(name); err != nil || string(b) != fmt.Sprintf("own%d", g) {
						fail("ReadFile %s: %q %v", name, b, err)
					}
				case 4: // callback which edits
					var seen = map[string]bool{}
					pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
						if seen[fkey] {
							fail("%s is enumerated twice", fkey)
						}
						seen[fkey] = true
						var k = fmt.Sprintf("own%d.cb%d", g, rr.Int(3))
						if rr.P(1, 2) {
							pkg.SetTagset(k, pkg.BaseTagset(64, 1, k))
						} else {
							pkg.DelTagset(k)
						}
						if !strings.HasPrefix(fkey, "own") && !pkg.HasTagset(fkey) {
							fail("%s is lost", fkey)
						}
						return true
					})
					for _, p := range perm {
						if !seen[p] {
							fail("enumeration misses %s", p)
						}
					}
				}
			}
			final[g] = name
		})
		var r2 = &Rng{r.U64()}
		jobs = append(jobs, func() { // observer
			for i := 0; i < steps; i++ {
				enums[g]++
				var order []string
				var note = func(n string) {
					if strings.HasPrefix(n, "p/") {
						order = append(order, n)
					}
				}
				switch r2.Int(5) {
				case 0:
					pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
						if ts.Path() != fkey {
							fail("entry %s has path %s", fkey, ts.Path())
						}
						note(fkey)
						return true
					})
				case 1:
					for _, n := range u.AllKeys() {
						note(n)
					}
				case 2:
					var l, _ = pkg.Glob("*/*")
					for _, n := range l {
						note(n)
					}
				case 3:
					var l, err = pkg.ReadDir("p")
					if err != nil || len(l) != len(perm) {
						fail("ReadDir gives %d of %d, %v", len(l), len(perm), err)
					}
					continue
				case 4:
					var d, err = pkg.Open("p")
					if err != nil {
						fail("Open of a directory: %v", err)
					}
					var n = 0
					for {
						var l, err = d.(fs.ReadDirFile).ReadDir(2)
						n += len(l)
						if err != nil {
							break
						}
					}
					if n != len(perm) {
						fail("paging gives %d of %d", n, len(perm))
					}
					continue
				}
				if strings.Join(order, " ") != strings.Join(perm, " ") {
					fail("permanent names are seen as %v, want %v", order, perm)
				}
			}
		})
	}
	together(c, jobs...)
	for _, n := range enums {
		c.Ev("stress enumerations", n)
	}
	for g, n := range final {
		var b, err = pkg.ReadFile(n)
		if err != nil || string(b) != fmt.Sprintf("own%d", g) {
			c.Fail("%s reads %q %v", n, b, err)
		}
		c.Mix(n)
	}
	// one point in time, though the callback edits everything
	var was, _ = rawTable(pkg)
	var got []string
	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		if len(got) == 0 {
			for i, n := range was {
				if i%2 == 0 {
					pkg.DelTagset(n)
				}
				pkg.SetTagset(n+"new", pkg.BaseTagset(64, 1, n+"new"))
			}
		}
		got = append(got, fkey)
		return true
	})
	if strings.Join(got, " ") != strings.Join(was, " ") {
		c.Fail("enumeration with an editing callback gives %v, want %v", got, was)
	}
	c.NonTrivial()
}

// largeC14: many entries stand behind some which come and go; each is found with its own value all the time.
func largeC14(c *C) {
	var r = c.R
	var n = pick(r, r.Range(20, 60), r.Range(60, 300), r.Range(300, 1500))
	var hot = r.Range(1, 6)
	type target struct {
		put, add func(k, v int)
		del      func(k int) bool
		get      func(k int) (int, bool)
		list     func(f func(k, v int))
		length   func() int
	}
	var t target
	if r.P(1, 2) {
		var m util.SeqMap[int, int]
		m.Init(r.Int(2) * n)
		t = target{
			put:    func(k, v int) { m.Poke(k, v) },
			add:    func(k, v int) { m.Push(k, v) },
			del:    func(k int) bool { var _, ok = m.Delete(k); return ok },
			get:    func(k int) (int, bool) { return m.Peek(k) },
			list:   func(f func(k, v int)) { m.Range(func(k, v int) bool { f(k, v); return true }) },
			length: m.Len,
		}
	} else {
		var pkg = wpk.NewPackage()
		var name = func(k int) string { return fmt.Sprintf("d%d/%d", k%7, k) }
		var ts = func(k, v int) wpk.TagsetRaw {
			return wpk.TagsetRaw{}.Put(wpk.TIDoffset, wpk.UintTag(0)).Put(wpk.TIDsize, wpk.UintTag(uint(v))).Put(wpk.TIDpath, wpk.StrTag(name(k)))
		}
		var put = func(k, v int) { pkg.SetTagset(name(k), ts(k, v)) }
		t = target{
			put: put,
			add: put,
			del: func(k int) bool { var _, ok = pkg.DelTagset(name(k)); return ok },
			get: func(k int) (int, bool) {
				var x, ok = pkg.GetTagset(name(k))
				if ok && x.Path() != name(k) {
					fail("entry %d has the path %s", k, x.Path())
				}
				return int(x.Size()), ok
			},
			list: func(f func(k, v int)) {
				pkg.Enum(func(fkey string, x wpk.TagsetRaw) bool {
					var k, err = strconv.Atoi(fkey[strings.IndexByte(fkey, '/')+1:])
					if err != nil || name(k) != x.Path() {
						fail("entry %s has the path %s", fkey, x.Path())
					}
					f(k, int(x.Size()))
					return true
				})
			},
			length: pkg.TagsetNum,
		}
	}
	var val = func(k int) int { return k*3 + 1 }
	for k := 0; k < hot; k++ {
		t.put(k, 0)
	}
	for k := hot; k < hot+n; k++ {
		t.put(k, val(k))
	}
	var from, to int32 = int32(hot), int32(hot + n)
	c.T("%d entries behind %d which come and go", n, hot)
	var jobs []func()
	var live atomic.Int32
	var editors = r.Range(1, 2)
	live.Store(int32(editors))
	for g := 0; g < editors; g++ {
		var rr = &Rng{r.U64()}
		var steps = r.Range(40, 200)
		jobs = append(jobs, func() {
			defer live.Add(-1)
			for i := 0; i < steps; i++ {
				var k = rr.Int(hot)
				switch rr.Int(4) {
				case 0:
					t.put(k, i)
				case 1:
					t.add(k, i)
				default:
					t.del(k)
				}
				if rr.P(1, 8) {
					var k = int(from) + rr.Int(n)
					t.put(k, val(k)) // the same value
				}
				if rr.P(1, 6) {
					runtime.Gosched()
				}
			}
		})
	}
	var looks = make([]int, 4)
	for g := range looks {
		var rr = &Rng{r.U64()}
		jobs = append(jobs, func() {
			for live.Load() > 0 || looks[g] < 10 {
				looks[g]++
				if rr.P(1, 24) {
					var want = from
					t.list(func(k, v int) {
						if k < hot {
							return
						}
						if k != int(want) || v != val(k) {
							fail("enumeration gives %d with %d where %d is expected", k, v, want)
						}
						want++
					})
					if want != to {
						fail("enumeration gives %d of %d", want-from, n)
					}
					continue
				}
				if rr.P(1, 24) {
					if l := t.length(); l < n || l > n+hot {
						fail("length is %d with %d permanent entries and %d others", l, n, hot)
					}
				}
				var k = int(from) + rr.Int(n)
				if v, ok := t.get(k); !ok || v != val(k) {
					fail("entry %d is found %v with %d, want %d", k, ok, v, val(k))
				}
			}
		})
	}
	together(c, jobs...)
	for _, n := range looks {
		c.Ev("lookups in large tables", n)
	}
	c.NonTrivial()
}

// ---------------------------------------------------------------- C15

func runC15(c *C) {
	var r = c.R
	var names = fsNames(r, r.Range(3, 9))
	var ents []*Ent
	for _, n := range names {
		ents = append(ents, &Ent{Name: n, Data: content(r, pick(r, 0, 1, r.Int(200), 5000, 65536, 70000, r.Int(100000))), Tags: []MTag{timeTag(int64(r.Int(1<<31)), 5)}})
	}
	var split = r.P(1, 2)
	var mode = pickOf(r, modes)
	var tpath, dpath = packDisk(c, "p.wpk", split, ents)
	var pkg = openDisk(c, tpath, dpath, mode)
	defer pkg.Close()
	var t = mkTree(ents)
	// a second package below in the union
	var ents2 []*Ent
	for _, n := range names {
		if r.P(1, 2) {
			ents2 = append(ents2, &Ent{Name: n, Data: content(r, r.Int(100))})
		}
	}
	ents2 = append(ents2, &Ent{Name: "only-second", Data: content(r, 3000)})
	if _, ok := t["only-second"]; ok {
		c.Env(fs.ErrExist)
	}
	var t2, d2 = packDisk(c, "q.wpk", false, ents2)
	var pkg2 = openDisk(c, t2, d2, pickOf(r, modes))
	defer pkg2.Close()
	var over = mkTree(append(append([]*Ent(nil), ents...), ents2[len(ents2)-1]))
	var u = &wpk.Union{List: []*wpk.Package{pkg, pkg2}}
	type view struct {
		f fs.FS
		t tree
	}
	var roots = []view{{pkg, t}, {u, over}}
	if d := t.dirs(); len(d) > 1 {
		var dir = d[1+r.Int(len(d)-1)]
		var s, err = pkg.Sub(dir)
		c.NoErr(err, "Sub")
		roots = append(roots, view{s, t.sub(dir)})
		s, err = u.Sub(dir)
		c.NoErr(err, "Sub")
		roots = append(roots, view{s, over.sub(dir)})
	}
	c.T("mode %s split %v files %s", mode, split, quoteAll(names))
	var ng = r.Range(3, 8)
	// handles used by all goroutines at once: reading at a place does not move anything
	type shared struct {
		f fs.File
		e *Ent
	}
	var common []shared
	for k := r.Int(3); k > 0; k-- {
		var v = pickOf(r, roots)
		var files = v.t.files()
		if len(files) == 0 {
			continue
		}
		var name = pickOf(r, files)
		var f, err = v.f.Open(name)
		c.NoErr(err, "Open %s", name)
		common = append(common, shared{f, v.t[name]})
	}
	var atcalls atomic.Int64
	var calls = make([]int, ng)
	var jobs []func()
	for g := 0; g < ng; g++ {
		var rr = &Rng{r.U64()}
		var steps = r.Range(15, 110)
		jobs = append(jobs, func() {
			type hnd struct {
				f   fs.File
				ref *bytes.Reader
				e   *Ent
			}
			var l []hnd
			for i := 0; i < steps; i++ {
				calls[g]++
				if len(common) > 0 && rr.P(1, 3) {
					var h = pickOf(rr, common)
					var p = make([]byte, pick(rr, 1, 10, 100, 1000))
					var off = rr.Int(len(h.e.Data) + 1)
					if rr.P(1, 4) {
						off = 0
					}
					var n, err = h.f.(io.ReaderAt).ReadAt(p, int64(off))
					var want = h.e.Data[off:min(off+len(p), len(h.e.Data))]
					if !bytes.Equal(p[:n], want) || (err == nil) != (n == len(p)) || err != nil && err != io.EOF {
						fail("%s: ReadAt %d of %d bytes of a common handle of %s gives %d bytes %v, want %d", mode, off, len(p), h.e.Name, n, err, len(want))
					}
					if fi, err := h.f.Stat(); err != nil || fi.Size() != int64(len(h.e.Data)) {
						fail("%s: Stat of a common handle of %s: %v", mode, h.e.Name, err)
					}
					atcalls.Add(1)
					continue
				}
				var v = pickOf(rr, roots)
				var op = rr.Int(12)
				if op < 5 && len(l) > 0 { // use a handle
					var k = rr.Int(len(l))
					var h = l[k]
					switch op {
					case 0, 1:
						var p = make([]byte, pick(rr, 1, 100, 4096, 30000))
						var q = make([]byte, len(p))
						var n, err = io.ReadFull(h.f, p)
						var rn, _ = io.ReadFull(h.ref, q)
						if n != rn || !bytes.Equal(p[:n], q[:rn]) {
							fail("%s: reading %s gives %d bytes %v, want %d", mode, h.e.Name, n, err, rn)
						}
					case 2:
						var off = int64(rr.Int(len(h.e.Data) + 1))
						h.f.(io.Seeker).Seek(off, io.SeekStart)
						h.ref.Seek(off, io.SeekStart)
					case 3:
						var p = make([]byte, 100)
						var q = make([]byte, 100)
						var off = int64(rr.Int(len(h.e.Data) + 1))
						var n, _ = h.f.(io.ReaderAt).ReadAt(p, off)
						var rn, _ = h.ref.ReadAt(q, off)
						if n != rn || !bytes.Equal(p[:n], q[:rn]) {
							fail("%s: ReadAt %d of %s gives %d bytes, want %d", mode, off, h.e.Name, n, rn)
						}
						var fi, err = h.f.Stat()
						if err != nil || fi.Size() != int64(len(h.e.Data)) {
							fail("%s: Stat of the handle of %s: %v", mode, h.e.Name, err)
						}
					case 4:
						if err := h.f.Close(); err != nil {
							fail("%s: Close of %s: %v", mode, h.e.Name, err)
						}
						l = append(l[:k], l[k+1:]...)
					}
					if rr.P(1, 4) {
						runtime.Gosched()
					}
					continue
				}
				var files = v.t.files()
				if len(files) == 0 {
					continue
				}
				var name = pickOf(rr, files)
				var e = v.t[name]
				switch op {
				case 6:
					var b, err = fs.ReadFile(v.f, name)
					if err != nil || !bytes.Equal(b, e.Data) {
						fail("%s: ReadFile %s gives %d bytes %v, want %d", mode, name, len(b), err, len(e.Data))
					}
				case 7:
					var fi, err = fs.Stat(v.f, name)
					if err != nil || fi.Size() != int64(len(e.Data)) || fi.Name() != path.Base(name) {
						fail("Stat %s: %v", name, err)
					}
				case 8:
					var dir = pickOf(rr, v.t.dirs())
					var want = v.t.list(dir)
					var d, err = v.f.Open(dir)
					if err != nil {
						fail("Open of directory %s: %v", dir, err)
					}
					var got []string
					for {
						var l, err = d.(fs.ReadDirFile).ReadDir(1 + rr.Int(3))
						for _, x := range l {
							got = append(got, x.Name())
						}
						if err != nil {
							break
						}
						runtime.Gosched()
					}
					d.Close()
					if strings.Join(got, "/") != strings.Join(want, "/") {
						fail("paging of %s gives %v, want %v", dir, got, want)
					}
				case 9:
					var dir = pickOf(rr, v.t.dirs())
					var want = v.t.list(dir)
					var l, err = fs.ReadDir(v.f, dir)
					var got []string
					for _, x := range l {
						got = append(got, x.Name())
						if e := v.t[path.Join(dir, x.Name())]; x.IsDir() != (e == nil) {
							fail("entry %s of %s is a directory: %v", x.Name(), dir, x.IsDir())
						}
					}
					if err != nil || strings.Join(got, "/") != strings.Join(want, "/") {
						fail("ReadDir %s gives %v %v, want %v", dir, got, err, want)
					}
				case 10:
					var _, err = v.f.Open("absent/name")
					if !isNotExist(err) {
						fail("Open of an absent name: %v", err)
					}
					var res, gerr = fs.Glob(v.f, "*")
					var n = 0
					for _, f := range files {
						if !strings.Contains(f, "/") {
							n++
						}
					}
					if gerr != nil || len(res) != n {
						fail("Glob gives %v %v, want %d names", res, gerr, n)
					}
				case 11:
					if dir := path.Dir(name); dir != "." {
						var s, err = fs.Sub(v.f, dir)
						if err != nil {
							fail("Sub %s: %v", dir, err)
						}
						var b, rerr = fs.ReadFile(s, path.Base(name))
						if rerr != nil || !bytes.Equal(b, e.Data) {
							fail("%s: ReadFile %s in a view of %s: %v", mode, path.Base(name), dir, rerr)
						}
					}
				default:
					if len(l) >= 4 {
						continue
					}
					var f, err = v.f.Open(name)
					if err != nil {
						fail("%s: Open %s: %v", mode, name, err)
					}
					l = append(l, hnd{f, bytes.NewReader(e.Data), e})
				}
			}
			for _, h := range l {
				var b, err = io.ReadAll(h.f)
				var q, _ = io.ReadAll(h.ref)
				if err != nil || !bytes.Equal(b, q) {
					fail("%s: the rest of %s reads %d bytes %v, want %d", mode, h.e.Name, len(b), err, len(q))
				}
				if err := h.f.Close(); err != nil {
					fail("%s: Close of %s: %v", mode, h.e.Name, err)
				}
			}
		})
	}
	together(c, jobs...)
	for _, h := range common {
		if b, err := io.ReadAll(h.f); err != nil || !bytes.Equal(b, h.e.Data) {
			c.Fail("%s: a common handle of %s reads %d bytes %v after reading at places, want %d", mode, h.e.Name, len(b), err, len(h.e.Data))
		}
		c.NoErr(h.f.Close(), "Close of a common handle")
	}
	c.Ev("calls on common handles", int(atcalls.Load()))
	for _, n := range calls {
		c.Ev("calls compared", n)
	}
	c.NonTrivial()
}
