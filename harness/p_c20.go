// C20: environment expansion. C21: path and string helpers. C22: ordered map.
package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"unsafe"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/util"
)

const envAlpha = "$%{}AB1/" // exhaustive part

func init() {
	register(&Prop{
		ID: "C20", Level: "exploration", Quick: 4096 + 200000, Thorough: 32768 + 6000000,
		Rule:  "the first 8^4 cases (8^5 at thorough tier) take together every string of up to 7 (8) characters over the alphabet " + envAlpha + " with A and B defined or not in map and environment; the other cases are long random mixes of patterns, broken patterns, odd bytes and values; the result is compared with a reference scanner and the input buffer with its copy; non-trivial when the string has a $ or %",
		MinEv: map[string]int64{"strings": 100000},
		Setup: func(seed int64, tier string) error {
			for k, v := range envOS {
				os.Setenv(k, v)
			}
			os.Unsetenv("WPKV_UNDEF")
			os.Unsetenv("A")
			os.Unsetenv("B")
			return nil
		},
		Run: runC20,
	})
	register(&Prop{
		ID: "C21", Level: "exploration", Quick: 1200000, Thorough: 12000000,
		Rule: "each case runs every helper on random byte strings kept in writable memory (all byte values, separators, dots, cases) against byte-wise references, twice for idempotence, and checks that the argument's memory and all earlier results are unchanged at the end; the first 1024 cases enumerate all pairs of path parts of up to 3 characters over ./\\ab; non-trivial when a character to be changed was present",
		Run:  runC21,
	})
	register(&Prop{
		ID: "C22", Level: "exploration", Quick: 500000, Thorough: 9000000,
		Rule: "each case runs 5..120 calls of the ordered map over 1..12 keys against a list model, with iterations which stop at any place and whose callback edits the map; some maps have up to 70000 keys; non-trivial with at least 3 keys and one deletion",
		Run:  runC22,
	})
}

// inbuf makes a string backed by writable memory, so that a change of the argument is visible.
func inbuf(b []byte) (string, []byte) {
	var m = append([]byte{0xee}, b...)
	m = append(m, 0xee)
	if len(b) == 0 {
		return "", m
	}
	return unsafe.String(&m[1], len(b)), m
}

func isFirst(ch byte) bool {
	return ch == '_' || ch >= 'A' && ch <= 'Z' || ch >= 'a' && ch <= 'z'
}
func isVar(ch byte) bool { return isFirst(ch) || ch >= '0' && ch <= '9' }

// refEnv is the rule read literally. again: the closing % of an undefined %VAR% may open the next pattern.
func refEnv(s string, look func(string) (string, bool), again bool) string {
	var out strings.Builder
	for i := 0; i < len(s); {
		var name func(from int) int // end of the name or -1
		name = func(from int) int {
			if from >= len(s) || !isFirst(s[from]) {
				return -1
			}
			for from < len(s) && isVar(s[from]) {
				from++
			}
			return from
		}
		var end, next = -1, 0
		var v string
		if s[i] == '$' {
			if e := name(i + 1); e >= 0 {
				v, end, next = s[i+1:e], e, e
			} else if i+1 < len(s) && s[i+1] == '{' {
				if e := name(i + 2); e >= 0 && e < len(s) && s[e] == '}' {
					v, end, next = s[i+2:e], e+1, e+1
				}
			}
		} else if s[i] == '%' {
			if e := name(i + 1); e >= 0 && e < len(s) && s[e] == '%' {
				v, end, next = s[i+1:e], e+1, e+1
				if again {
					next = e
				}
			}
		}
		if end < 0 {
			out.WriteByte(s[i])
			i++
			continue
		}
		if val, ok := look(v); ok {
			out.WriteString(val)
			i = end
		} else {
			out.WriteString(s[i:next])
			i = next
		}
	}
	return out.String()
}

var envOS = map[string]string{"WPKV_A": "os-a", "WPKV_EMPTY": "", "WPKV_LONG": strings.Repeat("long/", 1300), "_": "underscore", "WPKV_PAT": "$WPKV_A%WPKV_A%", "wpkv_a": "lower"}

func checkEnv(c *C, b []byte, m map[string]string) {
	var s, mem = inbuf(b)
	var keep = append([]byte(nil), mem...)
	var look = func(k string) (string, bool) {
		if v, ok := m[k]; ok {
			return v, true
		}
		return os.LookupEnv(k)
	}
	var got = util.Envfmt(s, m)
	if !bytes.Equal(mem, keep) {
		c.Fail("Envfmt(%q) changed its argument to %q", b, mem[1:len(mem)-1])
	}
	var w1 = refEnv(string(b), look, false)
	if got != w1 {
		if w2 := refEnv(string(b), look, true); got != w2 {
			c.Fail("Envfmt(%q) with %v gives %q, want %q", b, m, got, w1)
		}
	}
}

func runC20(c *C) {
	var r = c.R
	var nexh, tail = 4096, 3
	if c.Tier == "thorough" {
		nexh = 32768
	}
	if c.N < nexh {
		// all the strings that begin with the digits of N, and the short ones
		var pre []byte
		for x, k := c.N, nexh; k > 1; k /= 8 {
			pre = append(pre, envAlpha[x%8])
			x /= 8
		}
		c.Mix(string(pre))
		c.NonTrivial()
		c.sample = "all strings beginning with " + string(pre) + " or a prefix of it"
		var maps = []map[string]string{nil, {"A": ""}, {"A": "xyz", "B": "q"}, {"AB": "12345", "A1": "%B%", "B": "$A", "1": "digit", "1A": "dA", "": "empty"}}
		var n = 0
		var b = append([]byte(nil), pre...)
		var rec func(k int)
		rec = func(k int) {
			checkEnv(c, b, maps[n%len(maps)])
			n++
			checkEnv(c, b, maps[(n+1)%len(maps)])
			if k == 0 {
				return
			}
			for i := 0; i < len(envAlpha); i++ {
				b = append(b, envAlpha[i])
				rec(k - 1)
				b = b[:len(b)-1]
			}
		}
		rec(tail)
		for k := range pre {
			for _, m := range maps {
				checkEnv(c, pre[:k], m)
			}
		}
		c.Ev("strings", n)
		return
	}
	var m map[string]string
	if r.P(3, 4) {
		m = map[string]string{}
		for k := r.Int(5); k > 0; k-- {
			m[pick(r, "1", "9a", "12", "", "A B", "Я", "A", "B", "VAR", "WPKV_A", "_x1", "a", "WPKV_UNDEF2", "Q9")] = pick(r, "", "v", "value", "/any/path", "%A%", "$B", "${", "ü", strings.Repeat("z", 300), strings.Repeat("z", pick(r, 1023, 1024, 1025, 5000)))
		}
	}
	var b []byte
	for k := r.Range(1, 14); k > 0; k-- {
		var v = pick(r, "A", "B", "VAR", "WPKV_A", "WPKV_UNDEF", "WPKV_EMPTY", "WPKV_LONG", "WPKV_PAT", "wpkv_a", "_x1", "_", "a", "9a", "1", "12", "", "A B", "Q9", "Я")
		switch r.Int(9) {
		case 0:
			b = append(b, "$"+v...)
		case 1:
			b = append(b, "${"+v+"}"...)
		case 2:
			b = append(b, "%"+v+"%"...)
		case 3:
			b = append(b, pick(r, "${"+v, "%"+v, "$"+v+"}", "{"+v+"}", "$ {"+v+"}", "$$"+v, "%%"+v+"%%", "${"+v+"%", "%"+v+"}", "${$"+v+"}")...)
		case 4:
			b = append(b, pick(r, "$", "%", "{", "}", "/", "\\", "${", "$}", "%%", "$%", "\x00", "\xff")...)
		case 5:
			b = append(b, byte(r.U64()))
		default:
			b = append(b, pick(r, "/", "dir", "file.txt", " ", "-", ".", ":", "1", "_")...)
		}
	}
	if bytes.ContainsAny(b, "$%") {
		c.NonTrivial()
	}
	c.T("%q %v", b, m)
	c.Ev("strings", 1)
	checkEnv(c, b, m)
}

func refJoin(dir, base, seps string) string {
	if dir == "" || dir == "." {
		return base
	}
	if base == "" || base == "." {
		return dir
	}
	if strings.IndexByte(seps, dir[len(dir)-1]) >= 0 {
		dir = dir[:len(dir)-1]
	}
	if strings.IndexByte(seps, base[0]) >= 0 {
		base = base[1:]
	}
	return dir + "/" + base
}

func refName(s string) string {
	if i := strings.LastIndexAny(s, "/\\"); i >= 0 {
		s = s[i+1:]
	}
	if i := strings.IndexByte(s, '.'); i >= 0 {
		s = s[:i]
	}
	return s
}

func refExt(s, ext string) string {
	var i = strings.LastIndexByte(s, '/')
	if j := strings.LastIndexByte(s, '.'); j > i {
		s = s[:j]
	}
	return s + ext
}

func mapBytes(b []byte, f func(byte) byte) string {
	var r = append([]byte(nil), b...)
	for i := range r {
		r[i] = f(r[i])
	}
	return string(r)
}

func runC21(c *C) {
	var r = c.R
	type held struct {
		what string
		got  string
		want string
	}
	var res []held
	var mems, keeps [][]byte
	var in = func(b []byte) string {
		var s, m = inbuf(b)
		mems, keeps = append(mems, m), append(keeps, append([]byte(nil), m...))
		return s
	}
	var see = func(what, got, want string) {
		if got != want {
			c.Fail("%s gives %q, want %q", what, got, want)
		}
		res = append(res, held{what, got, want})
	}
	var toslash = func(ch byte) byte {
		if ch == '\\' {
			return '/'
		}
		return ch
	}
	var lower = func(ch byte) byte {
		if ch >= 'A' && ch <= 'Z' {
			return ch + 32
		}
		return ch
	}
	var upper = func(ch byte) byte {
		if ch >= 'a' && ch <= 'z' {
			return ch - 32
		}
		return ch
	}
	var norm = func(b []byte) {
		for _, f := range []struct {
			name string
			fn   func(string) string
			ref  func(byte) byte
		}{
			{"ToSlash", util.ToSlash, toslash}, {"ToLower", util.ToLower, lower}, {"ToUpper", util.ToUpper, upper},
			{"ToKey", util.ToKey, func(ch byte) byte { return lower(toslash(ch)) }},
		} {
			var want = mapBytes(b, f.ref)
			var got = f.fn(in(b))
			see(f.name+"("+quote(string(b))+")", got, want)
			see(f.name+" twice on "+quote(string(b)), f.fn(got), want)
		}
		see("PathName("+quote(string(b))+")", util.PathName(in(b)), refName(string(b)))
		see("MakeTagsPath("+quote(string(b))+")", wpk.MakeTagsPath(in(b)), refExt(string(b), ".wpt"))
		see("MakeDataPath("+quote(string(b))+")", wpk.MakeDataPath(in(b)), refExt(string(b), ".wpf"))
		see("TempPath("+quote(string(b))+")", wpk.TempPath(in(b)), refJoin(os.TempDir(), string(b), "/"))
		var s = in(b)
		if x := util.S2B(s); !bytes.Equal(x, b) || len(x) != len(s) {
			c.Fail("S2B(%q) gives %q", b, x)
		}
		var cp = append([]byte(nil), b...)
		if x := util.B2S(cp); x != string(b) {
			c.Fail("B2S(%q) gives %q", b, x)
		}
		if x := util.B2S(util.S2B(s)); x != s {
			c.Fail("B2S(S2B(%q)) gives %q", b, x)
		}
	}
	var join = func(d, b []byte) {
		see("JoinPath("+quote(string(d))+", "+quote(string(b))+")", util.JoinPath(in(d), in(b)), refJoin(string(d), string(b), "/"))
		see("JoinFilePath("+quote(string(d))+", "+quote(string(b))+")", util.JoinFilePath(in(d), in(b)), refJoin(string(d), string(b), "/"))
	}
	if c.N < 1024 { // exhaustive short parts
		const alpha = "./\\ab"
		var all [][]byte
		var rec func(b []byte, k int)
		rec = func(b []byte, k int) {
			all = append(all, append([]byte(nil), b...))
			if k == 0 {
				return
			}
			for i := 0; i < len(alpha); i++ {
				rec(append(append([]byte(nil), b...), alpha[i]), k-1)
			}
		}
		rec(nil, 3)
		c.NonTrivial()
		c.T("enumeration part %d", c.N)
		for i := c.N; i < len(all)*len(all); i += 1024 {
			var d, b = all[i/len(all)], all[i%len(all)]
			// several separators in a row at the joint are not specified
			if bytes.HasSuffix(d, []byte("//")) || bytes.HasPrefix(b, []byte("//")) {
				continue
			}
			join(d, b)
			norm(append(append([]byte(nil), d...), b...))
		}
	} else {
		var gen = func() []byte {
			switch r.Int(4) {
			case 0:
				return content(r, r.Int(40))
			case 1:
				return []byte(backslash(r, anyName(r)))
			case 2:
				var b []byte
				for k := r.Int(30); k > 0; k-- {
					b = append(b, pick[byte](r, '/', '\\', '.', 'A', 'Z', 'a', 'z', '@', '[', '`', '{', 0xc0, 0xda, 0xdc, 0xfc, 0x7f, 0x80, 0, '_', '0'))
				}
				return b
			}
			var b = []byte(backslash(r, fsName(r)) + pick(r, "", ".wpk", ".tar.gz", ".", "/"))
			return append([]byte(pick(r, "", "C:\\", "/", "./", "../", "\\\\srv\\")), b...)
		}
		var b, d = gen(), gen()
		c.T("%q %q", b, d)
		if bytes.ContainsAny(b, "\\ABCZaz.") {
			c.NonTrivial()
		}
		norm(b)
		norm(d)
		if !bytes.HasSuffix(d, []byte("//")) && !bytes.HasPrefix(b, []byte("//")) {
			join(d, b)
		}
	}
	c.Ev("results compared", len(res))
	for i := range mems {
		if !bytes.Equal(mems[i], keeps[i]) {
			c.Fail("an argument %q was changed to %q", keeps[i], mems[i])
		}
	}
	for _, h := range res {
		if h.got != h.want {
			c.Fail("result of %s changed later to %q", h.what, h.got)
		}
	}
}

// hugeC22 has many thousands of keys, and compares everything at a few points only.
func hugeC22(c *C) {
	var r = c.R
	var m util.SeqMap[int, int]
	var n = r.Range(5000, pick(r, 10000, 40000, 70000))
	var l = make([]int, 0, n)
	var vals = map[int]int{}
	m.Init(pick(r, 0, n, r.Int(100)))
	for i := 0; i < n; i++ {
		if i%3 == 0 {
			c.Check(!m.Push(i*7, i), "Push of new key %d says it was present", i*7)
		} else {
			m.Poke(i*7, i)
		}
		l = append(l, i*7)
		vals[i*7] = i
	}
	c.T("%d keys", n)
	for k := r.Range(2, 8); k > 0; k-- {
		switch r.Int(4) {
		case 0, 1:
			var i = pick(r, 0, len(l)-1, len(l)/2, r.Int(len(l)), r.Int(100), len(l)-1-r.Int(100))
			var key = l[i]
			c.T("Delete #%d of %d", i, len(l))
			var v, ok = m.Delete(key)
			c.Check(ok && v == vals[key], "Delete of key %d gives %d %v, want %d", key, v, ok, vals[key])
			l = append(append([]int(nil), l[:i]...), l[i+1:]...)
			delete(vals, key)
		case 2:
			c.T("Pop")
			var key, v, ok = m.Pop()
			var want = l[len(l)-1]
			c.Check(ok && key == want && v == vals[want], "Pop gives %d %d %v, want %d %d", key, v, ok, want, vals[want])
			l = l[:len(l)-1]
			delete(vals, want)
		case 3:
			var key = pickOf(r, l)
			vals[key] = -key
			m.Poke(key, -key)
		}
	}
	c.Check(m.Len() == len(l), "Len %d, want %d", m.Len(), len(l))
	for _, key := range l {
		var v, ok = m.Peek(key)
		if !ok || v != vals[key] || !m.Has(key) {
			c.Fail("Peek of key %d of %d keys gives %d %v, Has %v, want %d", key, len(l), v, ok, m.Has(key), vals[key])
		}
	}
	var i = 0
	m.Range(func(key, v int) bool {
		if i >= len(l) || l[i] != key || v != vals[key] {
			c.Fail("iteration step %d of %d gives %d %d", i, len(l), key, v)
		}
		i++
		return true
	})
	c.Check(i == len(l), "iteration gives %d of %d", i, len(l))
	c.Ev("huge maps", 1)
	c.Mix(fmt.Sprint(n))
	c.NonTrivial()
}

func runC22(c *C) {
	var r = c.R
	if r.P(1, 5000) {
		hugeC22(c)
		return
	}
	var m util.SeqMap[string, int]
	type kv struct {
		k string
		v int
	}
	var l []kv
	var find = func(k string) int {
		for i := range l {
			if l[i].k == k {
				return i
			}
		}
		return -1
	}
	var keys []string
	for k := r.Range(1, 12); k > 0; k-- {
		keys = append(keys, pick(r, "", "a", "b", "key", "Key", "x/")+pick(r, "", "1", "2", "\x00", "яя"))
	}
	var steps = r.Range(5, 120)
	var large = r.P(1, 40)
	if large { // many keys, mostly added at the beginning
		for k := r.Range(30, pick(r, 60, 150, 1100)); k > 0; k-- {
			keys = append(keys, fmt.Sprint("k", k))
		}
		c.T("%d keys", len(keys))
	}
	m.Init(r.Int(5))
	var val = 0
	var maxk, dels = 0, 0
	// edit applies a random change to both; returns its text
	var edit = func() {
		var k = pickOf(r, keys)
		val++
		switch r.Int(8) {
		case 0, 1, 2:
			c.T("Poke %q %d", k, val)
			m.Poke(k, val)
			if i := find(k); i >= 0 {
				l[i].v = val
			} else {
				l = append(l, kv{k, val})
			}
		case 3, 4:
			c.T("Push %q %d", k, val)
			var had = m.Push(k, val)
			var i = find(k)
			if had != (i >= 0) {
				c.Fail("Push of %q says %v, present before: %v", k, had, i >= 0)
			}
			if i < 0 {
				l = append(l, kv{k, val})
			}
		case 5, 6:
			c.T("Delete %q", k)
			var v, ok = m.Delete(k)
			var i = find(k)
			if ok != (i >= 0) || ok && v != l[i].v || !ok && v != 0 {
				c.Fail("Delete of %q gives %d %v, model %v", k, v, ok, l)
			}
			if i >= 0 {
				l = append(append([]kv(nil), l[:i]...), l[i+1:]...)
				dels++
			}
		case 7:
			c.T("Pop")
			var k, v, ok = m.Pop()
			if ok != (len(l) > 0) || ok && (k != l[len(l)-1].k || v != l[len(l)-1].v) || !ok && (k != "" || v != 0) {
				c.Fail("Pop gives %q %d %v, model %v", k, v, ok, l)
			}
			if ok {
				l = l[:len(l)-1]
				dels++
			}
		}
		maxk = max(maxk, len(l))
	}
	var agree = func() {
		if m.Len() != len(l) {
			c.Fail("Len %d, model %v", m.Len(), l)
		}
		for _, k := range append(keys, "absent") {
			var i = find(k)
			var v, ok = m.Peek(k)
			if ok != (i >= 0) || m.Has(k) != ok || ok && v != l[i].v || !ok && v != 0 {
				c.Fail("Peek of %q gives %d %v, Has %v, model %v", k, v, ok, m.Has(k), l)
			}
		}
		var n = 0
		m.Range(func(k string, v int) bool {
			if n >= len(l) || l[n].k != k || l[n].v != v {
				c.Fail("iteration step %d gives %q %d, model %v", n, k, v, l)
			}
			n++
			return true
		})
		if n != len(l) {
			c.Fail("iteration gives %d of %v", n, l)
		}
		c.Ev("states compared", 1)
	}
	if large {
		for _, k := range keys {
			if find(k) < 0 {
				val++
				m.Poke(k, val)
				l = append(l, kv{k, val})
			}
		}
		c.T("all of them are put")
	}
	for k := steps; k > 0; k-- {
		switch {
		case r.P(1, 30) && (!large || r.P(1, 4)):
			c.T("Init")
			m.Init(r.Int(20))
			l = nil
		case r.P(1, 6): // iteration which is stopped and whose callback edits the map
			var snap = append([]kv(nil), l...)
			var stop = r.Int(len(snap) + 2)
			var edits = r.P(1, 2)
			c.T("Range stop %d edits %v", stop, edits)
			var n = 0
			m.Range(func(k string, v int) bool {
				if n >= len(snap) || snap[n].k != k || snap[n].v != v {
					c.Fail("iteration over %v edited meanwhile gives %q %d at step %d", snap, k, v, n)
				}
				n++
				if edits {
					edit()
					if r.P(1, 10) {
						m.Init(0)
						l = nil
					}
				}
				return n != stop
			})
			var want = len(snap)
			if stop > 0 && stop < want {
				want = stop
			}
			if n != want {
				c.Fail("iteration over %v gave %d steps, want %d", snap, n, want)
			}
			c.Ev("edited iterations", 1)
		default:
			edit()
		}
		agree()
	}
	if maxk >= 3 && dels > 0 {
		c.NonTrivial()
	}
}
