// C41: edits by name made at once with packing, flushing and reading.
package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/schwarzlichtbezirk/wpk"
)

func init() {
	register(&Prop{
		ID: "C41", Level: "exploration", Quick: 6000, Thorough: 60000, Workers: 3,
		Rule:   "race detector build; each case records a history of 3..5 goroutines which pack (with slow sources), rename, alias, move directories and flush one package, directly and through views, checked for linearizability by porcupine against a table of names (each flush is a call whose result is the stored table), runs duels in which several goroutines released by one barrier want the same name or a flush meets a rename, or runs a stress where whole directories, single files and aliases move while a flusher and enumerations check that every file is there; files are told by their sizes; the identity of a case includes the results and their order; non-trivial when two calls of different goroutines overlapped",
		MinEv:  map[string]int64{"histories checked": 1000, "overlapping pairs": 5000, "duels": 20000, "flushes in duels and stress": 10000, "enumerations meanwhile": 5000},
		Assume: []string{"the race detector and the barriers see only the interleavings that happened"},
		Run:    runC41,
	})
}

func runC41(c *C) {
	switch c.R.Int(8) {
	case 0, 1:
		duels41(c)
	case 2:
		stress41(c)
	default:
		history41(c)
	}
}

// ---------------------------------------------------------------- histories

const (
	ePack = iota
	ePackFile
	eRename
	eAlias
	eMove
	eFlush
)

type in41 struct {
	op   int
	a, b byte // names, or directories
	id   byte
}

type out41 struct {
	err   byte // 0 done, 1 exists, 2 does not exist, 3 anything else
	n     int
	table string // sorted pairs name, id
}

func (o out41) String() string { return fmt.Sprintf("%d %d %x", o.err, o.n, o.table) }

func kind41(err error) byte {
	switch {
	case err == nil:
		return 0
	case isExist(err):
		return 1
	case isNotExist(err):
		return 2
	}
	return 3
}

func name41(b byte) string { return fmt.Sprintf("%c/%d", 'a'+b>>4, b&15) }

func get41(s string, n byte) (byte, bool) {
	for i := 0; i < len(s); i += 2 {
		if s[i] == n {
			return s[i+1], true
		}
	}
	return 0, false
}

// set41 puts, replaces, or deletes (id 0) a name.
func set41(s string, n, id byte) string {
	var b []byte
	var done = id == 0
	for i := 0; i < len(s); i += 2 {
		if !done && s[i] >= n {
			b, done = append(b, n, id), true
		}
		if s[i] != n {
			b = append(b, s[i], s[i+1])
		}
	}
	if !done {
		b = append(b, n, id)
	}
	return string(b)
}

func step41(s string, in in41) (string, out41) {
	switch in.op {
	case ePack, ePackFile:
		if _, ok := get41(s, in.a); ok {
			return s, out41{err: 1}
		}
		return set41(s, in.a, in.id), out41{}
	case eRename, eAlias:
		var id, ok = get41(s, in.a)
		if !ok {
			return s, out41{err: 2}
		}
		if _, ok = get41(s, in.b); ok {
			return s, out41{err: 1}
		}
		s = set41(s, in.b, id)
		if in.op == eRename {
			s = set41(s, in.a, 0)
		}
		return s, out41{}
	case eMove:
		var n = 0
		var s1 = s
		for i := 0; i < len(s); i += 2 {
			if s[i]>>4 == in.a {
				var to = in.b<<4 | s[i]&15
				if _, ok := get41(s, to); !ok {
					s1 = set41(set41(s1, to, s[i+1]), s[i], 0)
					n++
				}
			}
		}
		return s1, out41{n: n}
	}
	return s, out41{table: s}
}

var model41 = porcupine.Model{
	Init: func() any { return "" },
	Step: func(st, in, out any) (bool, any) {
		var s, o = step41(st.(string), in.(in41))
		return o == out.(out41), s
	},
	DescribeOperation: func(in, out any) string {
		var i = in.(in41)
		var o = out.(out41)
		switch i.op {
		case ePack, ePackFile:
			return fmt.Sprintf("pack %s #%d -> %d", name41(i.a), i.id, o.err)
		case eRename:
			return fmt.Sprintf("rename %s %s -> %d", name41(i.a), name41(i.b), o.err)
		case eAlias:
			return fmt.Sprintf("alias %s %s -> %d", name41(i.a), name41(i.b), o.err)
		case eMove:
			return fmt.Sprintf("move %c %c -> %d, %d", 'a'+i.a, 'a'+i.b, o.n, o.err)
		}
		var l []string
		for k := 0; k+1 < len(o.table); k += 2 {
			l = append(l, fmt.Sprintf("%s #%d", name41(o.table[k]), o.table[k+1]))
		}
		return "flush -> " + strings.Join(l, ", ")
	},
}

// stored41 is the flushed table; size of each file is its number.
func stored41(s *session, timed *[256]bool) string {
	var rp, err = decPkg(s.wpt.B, 1<<40, s.split)
	if err != nil {
		fail("flushed table: %v", err)
	}
	var t string
	for _, e := range rp.Ents {
		if len(e.Name) != 3 || e.Size == 0 || e.Size > 255 {
			fail("flushed table has %s of %d bytes", quote(e.Name), e.Size)
		}
		if _, ok := getTag(e.Tags, tMtime); ok != timed[e.Size] {
			fail("flushed table has file #%d at %s with times %v, should be %v", e.Size, e.Name, ok, timed[e.Size])
		}
		t = set41(t, (e.Name[0]-'a')<<4|(e.Name[2]-'0'), byte(e.Size))
	}
	return t
}

// slow41 is a source of n bytes which gives way to others.
func slow41(r *Rng, n int) io.Reader {
	var how = r.Int(6)
	if how < 2 {
		return bytes.NewReader(make([]byte, n))
	}
	return &chunkReader{b: make([]byte, n), fail: -1, next: func() int {
		switch how {
		case 2, 3:
			runtime.Gosched()
		case 4:
			time.Sleep(time.Duration(r.Int(120)) * time.Microsecond)
		}
		return 1 + n/2
	}}
}

func spin41(r *Rng) {
	switch r.Int(5) {
	case 0:
		runtime.Gosched()
	case 1:
		for k := r.Int(400); k > 0; k-- {
			_ = r.U64()
		}
	}
}

func history41(c *C) {
	var r = c.R
	var s = newSession(r.P(5, 6))
	c.NoErr(s.pkg.Begin(s.wpt, s.f()), "Begin")
	var nd, nl = r.Range(1, 3), r.Range(2, 3)
	var timed [256]bool
	var id = byte(1)
	var views = make([]*wpk.Package, nd)
	var hist [][]porcupine.Operation
	var base = time.Now()
	var do = func(rr *Rng, in in41) (o out41) {
		var n1, n2 = name41(in.a), name41(in.b)
		var pkg = s.pkg
		if v := views[in.a>>4%byte(nd)]; in.op != eMove && in.op != eFlush && v != nil && rr.P(1, 3) && (in.op < eRename || in.a>>4 == in.b>>4) {
			pkg, n1, n2 = v, n1[2:], n2[2:]
		} else if rr.P(1, 6) {
			n1, n2 = strings.ReplaceAll(n1, "/", `\`), strings.ReplaceAll(n2, "/", `\`)
		}
		var err error
		switch in.op {
		case ePack:
			_, err = pkg.PackData(s.w(), slow41(rr, int(in.id)), n1)
		case ePackFile:
			_, err = pkg.PackFile(s.w(), &memFile{src: slow41(rr, int(in.id)), mod: time.Unix(5, 6)}, n1)
		case eRename:
			err = pkg.Rename(n1, n2)
		case eAlias:
			err = pkg.PutAlias(n1, n2)
		case eMove:
			o.n, err = s.pkg.RenameDir(string(rune('a'+in.a)), string(rune('a'+in.b)), true)
		case eFlush:
			if err = s.pkg.Sync(s.wpt, s.f()); err == nil {
				o.table = stored41(s, &timed)
			}
		}
		if o.err = kind41(err); o.err == 3 {
			fail("%s: %v", model41.DescribeOperation(in, o), err)
		}
		return
	}
	var any = func(rr *Rng) byte { return byte(rr.Int(nd)<<4 | rr.Int(nl)) }
	// files before
	var first []porcupine.Operation
	for d := 0; d < nd; d++ {
		for l := 0; l < nl; l++ {
			if r.P(1, 3) {
				var in = in41{op: ePack, a: byte(d<<4 | l), id: id}
				id++
				first = append(first, porcupine.Operation{ClientId: 90, Input: in, Call: int64(len(first))*2 - 1000, Output: do(r, in), Return: int64(len(first))*2 - 999})
				if views[d] == nil {
					var v, err = s.pkg.Sub(string(rune('a' + d)))
					c.NoErr(err, "Sub")
					views[d] = v.(*wpk.Package)
				}
			}
		}
	}
	var ng = r.Range(3, 5)
	var flusher = -1
	if s.split && r.P(4, 5) {
		flusher = r.Int(ng)
	}
	hist = make([][]porcupine.Operation, ng)
	var jobs []func()
	for g := 0; g < ng; g++ {
		var rr = &Rng{r.U64()}
		var ins []in41
		for k := r.Range(3, 7); k > 0; k-- {
			var in = in41{op: pick(r, ePack, ePack, ePackFile, eRename, eRename, eRename, eAlias, eMove), a: any(r), b: any(r)}
			if g == flusher {
				in = in41{op: eFlush}
			}
			if in.op == eMove {
				in.a, in.b = byte(r.Int(nd)), byte(r.Int(nd))
				if in.a == in.b {
					in.op, in.a, in.b = eRename, any(r), any(r)
				}
			}
			if in.op <= ePackFile {
				in.id, in.b = id, 0
				timed[id] = in.op == ePackFile
				id++
			}
			ins = append(ins, in)
		}
		jobs = append(jobs, func() {
			for _, in := range ins {
				var from = time.Since(base)
				var o = do(rr, in)
				var to = time.Since(base)
				hist[g] = append(hist[g], porcupine.Operation{ClientId: g, Input: in, Call: int64(from), Output: o, Return: int64(to)})
				spin41(rr)
			}
		})
	}
	together(c, jobs...)
	var ops = first
	for _, l := range hist {
		ops = append(ops, l...)
	}
	// the end
	c.NoErr(s.pkg.Sync(s.wpt, s.f()), "Sync")
	var end out41
	if m := guard(func() { end.table = stored41(s, &timed) }); m != "" {
		c.Fail("%s", m)
	}
	var t = int64(time.Since(base))
	ops = append(ops, porcupine.Operation{ClientId: 91, Input: in41{op: eFlush}, Call: t, Output: end, Return: t + 1})
	var byret = append([]porcupine.Operation(nil), ops...)
	sort.SliceStable(byret, func(i, j int) bool { return byret[i].Return < byret[j].Return })
	var pairs = 0
	for i, o := range ops {
		for _, p := range ops[i+1:] {
			if o.ClientId != p.ClientId && o.Call <= p.Return && p.Call <= o.Return {
				pairs++
			}
		}
	}
	for _, o := range byret {
		c.T("#%d [%d,%d] %s", o.ClientId, o.Call, o.Return, model41.DescribeOperation(o.Input, o.Output))
		c.Mix(model41.DescribeOperation(o.Input, o.Output))
	}
	c.Ev("overlapping pairs", pairs)
	if pairs > 0 {
		c.NonTrivial()
	}
	switch porcupine.CheckOperationsTimeout(model41, ops, 20*time.Second) {
	case porcupine.Illegal:
		c.Fail("history of %d calls is not linearizable", len(ops))
	case porcupine.Unknown:
		c.Ev("histories not decided in time", 1)
	default:
		c.Ev("histories checked", 1)
	}
}

// ---------------------------------------------------------------- duels

// barrier41 releases goroutines at once, again and again.
type barrier41 struct {
	n     int32
	count atomic.Int32
	round atomic.Int32
}

func (b *barrier41) wait() {
	var r = b.round.Load()
	if b.count.Add(1) == b.n {
		b.count.Store(0)
		b.round.Add(1)
		return
	}
	for b.round.Load() == r {
		runtime.Gosched()
	}
}

func duels41(c *C) {
	var r = c.R
	var s = newSession(true)
	var ng = r.Range(2, 4)
	var rounds = r.Range(40, 160)
	c.NoErr(s.pkg.Begin(s.wpt, s.f()), "Begin")
	var size = map[string]int{} // what has to be in the package
	var put = func(name string, n int) {
		var _, err = s.pkg.PackData(s.w(), bytes.NewReader(make([]byte, n)), name)
		c.NoErr(err, "PackData")
		size[name] = n
	}
	for i := r.Int(4) * 10; i > 0; i-- {
		put(fmt.Sprintf("fill/%d", i), 1)
	}
	// each round is prepared beforehand: what each goroutine has and wants
	type try struct {
		op       int // ePack.. eMove, eFlush, or none
		from, to string
		n        int
		err      error
		num      int
		tab      *RPkg
	}
	var all = make([][]try, rounds)
	var next = 2
	var flushes = r.P(1, 2)
	for k := range all {
		all[k] = make([]try, ng)
		var want = fmt.Sprintf("want/%d", k)
		for g := range all[k] {
			var t = &all[k][g]
			t.op = pick(r, ePack, ePack, ePackFile, eRename, eRename, eRename, eAlias, eMove)
			t.to, t.n = want, next
			next++
			switch t.op {
			case eRename, eAlias:
				t.from = fmt.Sprintf("own/%d-%d", k, g)
				put(t.from, t.n)
			case eMove: // the directory has the only file
				t.from = fmt.Sprintf("dir%d-%d/%d", k, g, k)
				put(t.from, t.n)
			}
			if flushes && g == 0 {
				*t = try{op: eFlush}
			}
		}
	}
	var bar = barrier41{n: int32(ng)}
	var jobs []func()
	for g := 0; g < ng; g++ {
		var rr = &Rng{r.U64()}
		jobs = append(jobs, func() {
			for k := range all {
				bar.wait()
				var t = &all[k][g]
				for i := rr.Int(40); i > 0; i-- {
					_ = rr.U64()
				}
				switch t.op {
				case ePack:
					_, t.err = s.pkg.PackData(s.w(), bytes.NewReader(make([]byte, t.n)), t.to)
				case ePackFile:
					_, t.err = s.pkg.PackFile(s.w(), &memFile{src: bytes.NewReader(make([]byte, t.n)), mod: time.Unix(5, 6)}, t.to)
				case eRename:
					t.err = s.pkg.Rename(t.from, t.to)
				case eAlias:
					t.err = s.pkg.PutAlias(t.from, t.to)
				case eMove:
					t.num, t.err = s.pkg.RenameDir(t.from[:strings.IndexByte(t.from, '/')], "want", false)
				case eFlush:
					if t.err = s.pkg.Sync(s.wpt, s.f()); t.err == nil {
						t.tab, t.err = decPkg(s.wpt.B, 1<<40, true)
					}
				}
			}
		})
	}
	c.T("%d goroutines, %d rounds, flushes %v, %d files before", ng, rounds, flushes, len(size))
	together(c, jobs...)
	// one of them has won, all the rest was refused and has lost nothing
	for k, l := range all {
		var won = -1
		var tries = 0
		for g, t := range l {
			if t.op == eFlush {
				continue
			}
			tries++
			if t.err == nil && (t.op != eMove || t.num == 1) {
				if won >= 0 {
					c.Fail("round %d: %s is given to goroutines %d and %d: %v, %v", k, t.to, won, g, l[won], t)
				}
				won = g
			} else if !isExist(t.err) {
				c.Fail("round %d: operation %d from %s to %s gives %d, %v", k, t.op, t.from, t.to, t.num, t.err)
			}
		}
		c.Ev("duels", 1)
		if tries == 0 {
			continue
		}
		if won < 0 {
			c.Fail("round %d: no one of %d got %s", k, tries, l[0].to)
		}
		var t = l[won]
		c.Mix(fmt.Sprint(won))
		size[t.to] = t.n
		if t.op == eRename || t.op == eMove {
			delete(size, t.from)
		}
	}
	var have = map[string]int{}
	s.pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		have[fkey] = int(ts.Size())
		if ts.Path() != fkey {
			c.Fail("entry %s has path %s", fkey, ts.Path())
		}
		return true
	})
	if d := diff41(have, size); d != "" {
		c.Fail("after all the rounds %s", d)
	}
	c.NoErr(s.pkg.Sync(s.wpt, s.f()), "Sync")
	var rp, err = decPkg(s.wpt.B, 1<<40, true)
	c.NoErr(err, "flushed table")
	have = map[string]int{}
	for _, e := range rp.Ents {
		have[e.Name] = int(e.Size)
	}
	if d := diff41(have, size); d != "" {
		c.Fail("after all the rounds the flushed table %s", d)
	}
	// each flush has every file that was there, under one of its names
	if flushes {
		var packed = map[int]int{} // file -> round in which it comes
		for k, l := range all {
			for _, t := range l {
				if t.op <= ePackFile && t.err == nil {
					packed[t.n] = k
				}
			}
		}
		for k, l := range all {
			var t = l[0]
			if t.err != nil {
				c.Fail("round %d: flush gives %v", k, t.err)
			}
			var num = map[int]int{}
			for _, e := range t.tab.Ents {
				num[int(e.Size)]++
			}
			for kk, ll := range all {
				for _, tt := range ll {
					if tt.op == eFlush {
						continue
					}
					var lo, hi = 1, 1
					switch {
					case tt.op <= ePackFile:
						if tt.err != nil || kk > k {
							lo, hi = 0, 0
						} else if kk == k {
							lo = 0
						}
					case tt.op == eAlias && tt.err == nil:
						if kk < k {
							lo, hi = 2, 2
						} else if kk == k {
							hi = 2
						}
					}
					if n := num[tt.n]; n < lo || n > hi {
						c.Fail("flush of round %d has file of %d bytes %d times, %d..%d is expected (round %d: operation %d from %s to %s -> %v)", k, tt.n, n, lo, hi, kk, tt.op, tt.from, tt.to, tt.err)
					}
				}
			}
			c.Ev("flushes in duels and stress", 1)
		}
	}
	c.NonTrivial()
}

func diff41(have, want map[string]int) string {
	for n, v := range want {
		if h, ok := have[n]; !ok {
			return fmt.Sprintf("has no %s of %d bytes", n, v)
		} else if h != v {
			return fmt.Sprintf("has %s of %d bytes, want %d", n, h, v)
		}
	}
	for n, v := range have {
		if _, ok := want[n]; !ok {
			return fmt.Sprintf("has %s of %d bytes, should not", n, v)
		}
	}
	return ""
}

// ---------------------------------------------------------------- stress

// stress41: sizes 1..60 belong to a directory which is moved, 100.. to files which are renamed one by one,
// 1000.. to files packed meanwhile.
func stress41(c *C) {
	var r = c.R
	var s = newSession(true)
	c.NoErr(s.pkg.Begin(s.wpt, s.f()), "Begin")
	var put = func(name string, n int) {
		var _, err = s.pkg.PackData(s.w(), bytes.NewReader(make([]byte, n)), name)
		c.NoErr(err, "PackData")
	}
	var nperm, nown = r.Range(3, 60), r.Range(1, 4)
	for i := 1; i <= nperm; i++ {
		put(fmt.Sprintf("a/%s%d", pick(r, "", "d/", "long name of a file "), i), i)
	}
	for i := 0; i < nown; i++ {
		put(fmt.Sprintf("c/x%d", i), 100+i)
	}
	var fillers = r.Int(3) * 50
	for i := 0; i < fillers; i++ {
		put(fmt.Sprintf("fill/%d", i), 500)
	}
	var stop atomic.Bool
	var left atomic.Int32
	var jobs []func()
	var mover = func(f func(k int), n int) {
		left.Add(1)
		jobs = append(jobs, func() {
			defer func() {
				if left.Add(-1) == 0 {
					stop.Store(true)
				}
			}()
			for k := 0; k < n; k++ {
				f(k)
			}
		})
	}
	// the directory is moved as a whole
	if r.P(3, 4) {
		mover(func(k int) {
			var from, to = "a", "b"
			if k&1 == 1 {
				from, to = to, from
			}
			if n, err := s.pkg.RenameDir(from, to, k&2 == 0); err != nil || n != nperm {
				fail("RenameDir %s %s gives %d, %v, there are %d files", from, to, n, err, nperm)
			}
		}, r.Range(4, 30))
	}
	// single files
	for i := 0; i < nown; i++ {
		var view *wpk.Package
		if r.P(1, 2) {
			var v, err = s.pkg.Sub("c")
			c.NoErr(err, "Sub")
			view = v.(*wpk.Package)
		}
		mover(func(k int) {
			var from, to = fmt.Sprintf("c/x%d", i), fmt.Sprintf("c/y%d", i)
			if k&1 == 1 {
				from, to = to, from
			}
			var err error
			if view != nil {
				err = view.Rename(from[2:], to[2:])
			} else {
				err = s.pkg.Rename(from, to)
			}
			if err != nil {
				fail("Rename %s %s: %v", from, to, err)
			}
		}, r.Range(20, 200))
	}
	// aliases of a file that is never there under one name for a long time
	var nalias atomic.Int32
	if r.P(1, 2) {
		mover(func(k int) {
			var err = s.pkg.PutAlias(fmt.Sprintf("c/%c0", "xy"[k&1]), fmt.Sprintf("al/%d", k))
			if err == nil {
				nalias.Add(1)
			} else if !isNotExist(err) {
				fail("PutAlias: %v", err)
			}
		}, r.Range(5, 30))
	}
	// files packed meanwhile
	var npack = r.Int(20)
	if npack > 0 {
		var rr = &Rng{r.U64()}
		mover(func(k int) {
			if _, err := s.pkg.PackFile(s.w(), &memFile{src: slow41(rr, 1000+k), mod: time.Unix(5, 6)}, fmt.Sprintf("n/%d", k)); err != nil {
				fail("PackFile: %v", err)
			}
		}, npack)
	}
	// names that come and go, so that the count of entries at any moment means something
	if r.P(1, 2) {
		mover(func(k int) {
			if k&1 == 0 {
				s.pkg.SetTagset("gone", s.pkg.BaseTagset(0, 0, "gone"))
			} else if _, ok := s.pkg.DelTagset("gone"); !ok {
				fail("there is nothing to delete")
			}
		}, 2*r.Range(10, 100))
	}
	// info is changed meanwhile, each flush stores one of its values whole
	var infoDone, infoFrom atomic.Int32
	var infos = r.P(1, 2)
	if infos {
		var long = content(r, r.Range(1, 300))
		mover(func(k int) {
			infoFrom.Store(int32(k) + 1)
			s.pkg.SetInfo(mkTagset([]MTag{{600, []byte(strconv.Itoa(k + 1))}, {601, long[:k%len(long)]}, {602, []byte(strconv.Itoa(k + 1))}}))
			infoDone.Store(int32(k) + 1)
		}, r.Range(10, 300))
	}
	var appends = r.P(1, 2)
	var nflush, check = 0, func(what string, num map[int]int, na, nb int, whole bool) {
		for i := 1; i <= nperm; i++ {
			if num[i] == 0 || whole && num[i] > 1 {
				fail("%s has file of %d bytes %d times", what, i, num[i])
			}
		}
		if whole && na > 0 && nb > 0 {
			fail("%s has %d files in one directory and %d in other, they are moved at once", what, na, nb)
		}
		for i := 0; i < nown; i++ {
			if n := num[100+i]; n == 0 || whole && n > 1 && i > 0 {
				fail("%s has file of %d bytes %d times", what, 100+i, n)
			}
		}
		if num[500] != fillers {
			fail("%s has %d other files, want %d", what, num[500], fillers)
		}
		for k := 1; k < npack; k++ {
			if num[1000+k] > 0 && num[1000+k-1] == 0 {
				fail("%s has file %d and has no file %d which was packed before", what, k, k-1)
			}
		}
	}
	if r.P(3, 4) {
		jobs = append(jobs, func() {
			for !stop.Load() {
				var lo = infoDone.Load()
				if err := s.pkg.Sync(s.wpt, s.f()); err != nil {
					fail("Sync: %v", err)
				}
				var hi = infoFrom.Load()
				var rp, err = decPkg(s.wpt.B, 1<<40, true)
				if err != nil {
					fail("flushed table: %v", err)
				}
				if infos {
					var a, _ = getTag(rp.Info, 600)
					var b, _ = getTag(rp.Info, 602)
					var n, _ = strconv.Atoi(string(a))
					if string(a) != string(b) || int32(n) < lo || int32(n) > hi {
						fail("flushed info is %q and %q, values from %d to %d were set", a, b, lo, hi)
					}
				}
				if appends { // as a script does at each flush
					if err := s.pkg.Append(s.wpt, s.f()); err != nil {
						fail("Append: %v", err)
					}
				}
				var num = map[int]int{}
				var na, nb int
				for _, e := range rp.Ents {
					num[int(e.Size)]++
					if strings.HasPrefix(e.Name, "a/") {
						na++
					}
					if strings.HasPrefix(e.Name, "b/") {
						nb++
					}
					if _, ok := getTag(e.Tags, tMtime); ok != (e.Size >= 1000) {
						fail("flushed %s has times %v", e.Name, ok)
					}
				}
				check("flushed table", num, na, nb, true)
				nflush++
				runtime.Gosched()
			}
		})
	}
	for w := r.Range(1, 2); w > 0; w-- {
		var slot = new(int)
		var glob = r.P(1, 3)
		jobs = append(jobs, func() {
			for !stop.Load() {
				var num = map[int]int{}
				s.pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
					if ts.Path() != fkey {
						fail("Enum gives %s with path %s", fkey, ts.Path())
					}
					num[int(ts.Size())]++
					return true
				})
				check("enumeration", num, 0, 0, false)
				if glob {
					var l, err = s.pkg.Glob("c/??")
					if err != nil || len(l) < nown {
						fail("Glob gives %q, %v, there are %d files", l, err, nown)
					}
				}
				*slot++
				runtime.Gosched()
			}
		})
		defer func() { c.Ev("enumerations meanwhile", *slot) }()
	}
	c.T("stress: %d files are moved, %d renamed, %d packed, %d others", nperm, nown, npack, fillers)
	together(c, jobs...)
	c.Ev("flushes in duels and stress", nflush)
	var num = map[int]int{}
	var total = 0
	var places [][2]uint // of files packed meanwhile
	s.pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		num[int(ts.Size())]++
		total++
		if off, size := ts.Pos(); size >= 1000 {
			places = append(places, [2]uint{off, off + size})
		}
		return true
	})
	sort.Slice(places, func(i, j int) bool { return places[i][0] < places[j][0] })
	for i, p := range places {
		c.Check(p[1] <= uint(len(s.dat())), "file packed meanwhile is at %d..%d, there are %d bytes", p[0], p[1], len(s.dat()))
		c.Check(i == 0 || p[0] >= places[i-1][1], "files packed meanwhile are at %d..%d and %d..%d", places[(i+len(places)-1)%len(places)][0], places[(i+len(places)-1)%len(places)][1], p[0], p[1])
	}
	var want = nperm + nown + npack + fillers + int(nalias.Load())
	if total != want || num[100] != 1+int(nalias.Load()) || s.pkg.TagsetNum() != want {
		c.Fail("at the end there are %d entries (%d by count), %d with the aliased file, want %d, %d", total, s.pkg.TagsetNum(), num[100], want, 1+nalias.Load())
	}
	c.Mix(fmt.Sprint(nflush, nalias.Load()))
	c.NonTrivial()
}
