// The Lua API: C18 tags, C19 whole scripts, C29 helper functions.
package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"hash"
	"hash/crc32"
	"hash/crc64"
	"math"
	"mime"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/h2non/filetype"
	lua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"
	lw "github.com/schwarzlichtbezirk/wpk/luawpk"
)

func init() {
	register(&Prop{
		ID: "C18", Level: "exploration", Quick: 3000, Thorough: 60000, Setup: setupZone,
		Rule:  "each case drives the Lua API by generated statements: switches the automatic tags, puts data and files with explicit tags of every documented type and spelling (good and unacceptable), edits tags one by one and by tables, reads them back in every way, renames and aliases, finalizes, loads and appends by the same and by new objects; a model of raw tags with own CRC and HMAC computation is compared after each statement and with the table on disk by the independent decoder; non-trivial when automatic tags were compared or a statement was refused",
		MinEv: map[string]int64{"hash tags compared": 5000, "statements refused": 3000, "tags read back": 20000, "file IDs compared": 2000, "mime tags": 1000},
		Run:   runC18,
	})
	register(&Prop{
		ID: "C19", Level: "exploration", Quick: 5000, Thorough: 60000,
		Rule:  "each case is a generated script run statement by statement under pcall: begin, load, append, puts, aliases, renames, deletes, tag and info edits, flush and finalize, in right and wrong states, on existing and missing names, single and split; results of every call are compared with a model, what is on disk after every flush and finalization with the model by the independent decoder and by a second Lua object; part of the scripts are run again as a whole by the build command; some scripts ask for names of thousands of files at once; non-trivial when something was written to disk",
		MinEv: map[string]int64{"images checked": 3000, "statements refused": 5000, "scripts repeated": 100, "read by another object": 500, "names given at once": 10000},
		Run:   runC19,
	})
	register(&Prop{
		ID: "C29", Level: "exploration", Quick: 5000, Thorough: 60000, Setup: setupC29,
		Rule:  "each case calls the helper functions of the Lua library with generated arguments (any bytes, paths, patterns, times, layouts, variables, directories with files) and compares with references that do not use the repository; wrong arguments have to raise an error; non-trivial always",
		MinEv: map[string]int64{"calls compared": 30000, "calls refused": 2000},
		Run:   runC29,
	})
}

// lvm is a Lua state whose statements are run one by one.
type lvm struct {
	c      *C
	ls     *lua.LState
	script strings.Builder
}

func newLvm(c *C) *lvm {
	var l = &lvm{c: c, ls: lua.NewState()}
	lw.InitLuaVM(l.ls)
	return l
}

// luaStr is a Lua literal of any bytes.
func luaStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		var ch = s[i]
		if ch >= ' ' && ch < 127 && ch != '"' && ch != '\\' {
			b.WriteByte(ch)
		} else {
			fmt.Fprintf(&b, "\\%03d", ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func luaNum(v float64) string { return strconv.FormatFloat(v, 'g', -1, 64) }

// do runs statements under pcall.
func (l *lvm) do(stmt string) (ok bool, vals []lua.LValue, msg string) {
	fmt.Fprintf(&l.script, "pcall(function() %s end)\n", stmt)
	l.ls.SetTop(0)
	if err := l.ls.DoString("return pcall(function() " + stmt + " end)"); err != nil {
		l.c.Fail("statement %s breaks the interpreter: %v", quote(stmt), err)
	}
	var n = l.ls.GetTop()
	if n == 0 {
		l.c.Fail("statement %s gives nothing", quote(stmt))
	}
	for i := 1; i <= n; i++ {
		vals = append(vals, l.ls.Get(i))
	}
	ok = lua.LVAsBool(vals[0])
	vals = vals[1:]
	if !ok {
		if len(vals) > 0 {
			msg = vals[0].String()
		}
		if strings.Contains(msg, "runtime error") || strings.Contains(msg, "nil pointer") || strings.Contains(msg, "out of range [") || strings.Contains(msg, "interface conversion") {
			l.c.Fail("statement %s crashes in the library: %s", quote(stmt), msg)
		}
		vals = nil
	}
	l.c.T("%s => %v %s", strings.ReplaceAll(head(stmt, 300), l.c.dir, "DIR"), ok, head(fmt.Sprint(vals)+msg, 100))
	return
}

// must runs a statement which has to succeed and give n values.
func (l *lvm) must(n int, format string, args ...any) []lua.LValue {
	var stmt = fmt.Sprintf(format, args...)
	var ok, vals, msg = l.do(stmt)
	if !ok {
		l.c.Fail("%s raises %s", head(stmt, 400), msg)
	}
	if n >= 0 && len(vals) != n {
		l.c.Fail("%s gives %d values %v, want %d", head(stmt, 400), len(vals), vals, n)
	}
	return vals
}

// refuse runs a statement which has to raise an error.
func (l *lvm) refuse(why string, format string, args ...any) {
	var stmt = fmt.Sprintf(format, args...)
	var ok, vals, _ = l.do(stmt)
	if ok {
		l.c.Fail("%s raises no error (%s) and gives %v", head(stmt, 400), why, vals)
	}
	l.c.Ev("statements refused", 1)
}

func (l *lvm) want(want lua.LValue, format string, args ...any) {
	var v = l.must(1, format, args...)
	if v[0].Type() != want.Type() || v[0].String() != want.String() {
		l.c.Fail("%s gives %s %s, want %s %s", head(fmt.Sprintf(format, args...), 400), v[0].Type(), quote(v[0].String()), want.Type(), quote(want.String()))
	}
}

func (l *lvm) pack(name string) *lw.LuaPackage {
	var ud, ok = l.ls.GetGlobal(name).(*lua.LUserData)
	if !ok {
		l.c.Fail("%s is no userdata", name)
	}
	return ud.Value.(*lw.LuaPackage)
}

// ---------------------------------------------------------------- tag types

const (
	kAny = iota
	kBin
	kStr
	kUint
	kTime
)

type tagName struct {
	id    uint16
	kind  int
	names []string
}

// the published list of named tags
var tagNames = []tagName{
	{1, kUint, []string{"offset"}}, {2, kUint, []string{"size"}}, {3, kStr, []string{"path"}}, {4, kUint, []string{"fid"}},
	{5, kTime, []string{"mtime"}}, {6, kTime, []string{"atime"}}, {7, kTime, []string{"ctime"}}, {8, kTime, []string{"btime"}},
	{9, kUint, []string{"attr"}}, {10, kStr, []string{"mime"}}, {12, kBin, []string{"crc32", "crc32c"}}, {11, kBin, []string{"crc32ieee"}},
	{13, kBin, []string{"crc32k"}}, {14, kBin, []string{"crc64", "crc64iso"}}, {20, kBin, []string{"md5"}}, {21, kBin, []string{"sha1"}},
	{22, kBin, []string{"sha224"}}, {23, kBin, []string{"sha256"}}, {24, kBin, []string{"sha384"}}, {25, kBin, []string{"sha512"}},
	{100, kBin, []string{"tmbjpeg"}}, {101, kBin, []string{"tmbwebp"}}, {110, kStr, []string{"label"}}, {111, kStr, []string{"link"}},
	{112, kStr, []string{"keywords"}}, {113, kStr, []string{"category"}}, {114, kStr, []string{"version"}}, {115, kStr, []string{"author"}}, {116, kStr, []string{"comment"}},
}

func tagOf(id uint16) *tagName {
	for i := range tagNames {
		if tagNames[i].id == id {
			return &tagNames[i]
		}
	}
	return &tagName{id: id, kind: kAny}
}

// key gives a Lua expression of a tag ID.
func (t *tagName) key(r *Rng) string {
	if len(t.names) == 0 || r.P(1, 4) {
		return strconv.Itoa(int(t.id))
	}
	return luaStr(pickOf(r, t.names))
}

const iso = "2006-01-02T15:04:05.999Z07:00"

// read gives the documented Lua value of a raw tag.
func (t *tagName) read(b []byte) lua.LValue {
	switch t.kind {
	case kBin:
		return lua.LString(hex.EncodeToString(b))
	case kUint:
		var v, _ = decUint(b)
		return lua.LNumber(v)
	case kTime:
		return lua.LString(decTime(b).UTC().Format(iso))
	}
	return lua.LString(b)
}

func decTime(b []byte) time.Time {
	switch len(b) {
	case 8:
		return time.UnixMilli(int64(leU64(b)))
	case 12:
		return time.Unix(int64(leU64(b)), int64(leU32(b[8:])))
	}
	return time.Time{}
}

func (t *tagName) protected() bool { return t.id == tOffset || t.id == tSize || t.id == tPath }

func anyTag(r *Rng) *tagName {
	if r.P(1, 6) {
		return tagOf(uint16(pick(r, 0, 15, 30, 200, 500, 5000, 65535, 300+r.Int(500))))
	}
	for {
		var t = &tagNames[r.Int(len(tagNames))]
		if !t.protected() && t.id != tFid {
			return t
		}
	}
}

var badKeys = []string{`"nosuchtag"`, `""`, `"Mime"`, `"CRC32"`, `-1`, `65536`, `65546`, `1.5`, `10.25`, `true`, `{}`, `1e300`, `-65526`, `"mime "`, `function() end`}
var badVals = []string{`{}`, `function() end`, `pkg`, `{"x"}`}

// value gives a Lua expression and the raw tag it means; nil for an unacceptable one.
func (t *tagName) value(r *Rng, good bool) (expr string, raw []byte) {
	if !good {
		if r.P(1, 4) {
			return pickOf(r, badVals), nil
		}
		if r.P(1, 8) {
			var n = 65536 + pick(r, 0, 1, 5, 20, 65536, r.Int(100))
			if t.kind == kBin {
				return fmt.Sprintf("string.rep(\"5a\", %d)", n), nil
			}
			if t.kind == kStr || t.kind == kAny {
				return fmt.Sprintf("string.rep(\"x\", %d)", n), nil
			}
		}
		switch t.kind {
		case kBin:
			return pick(r, `"0"`, `"abc"`, `"xy"`, `"0x12"`, `"12 34"`, `true`, `false`, `-1`, `1.5`, `1e300`, `" 12"`, `-0.5`, `2^64`), nil
		case kUint:
			return pick(r, `-1`, `1.5`, `"abc"`, `""`, `"-1"`, `"1.5"`, `"18446744073709551616"`, `2^64`, `1e300`, `" 1"`, `"0x10"`, `-2^40`, `0/0`, `1/0`), nil
		case kTime:
			return pick(r, `"abc"`, `""`, `"2020-13-01T00:00:00Z"`, `"2020-01-01"`, `true`, `false`, `"2020-01-01T00:00:00"`, `"2020-02-30T00:00:00Z"`, `"2020-01-01 00:00:00Z"`), nil
		}
		return pickOf(r, badVals), nil
	}
	var str = func() (string, []byte) {
		var b = content(r, pick(r, 0, 1, 3, 10, 100, r.Int(300), 1000))
		if r.P(1, 3) {
			b = []byte(pick(r, "true", "false", "0", "123", "key;word", "файл", "a\x00b", " ", "nil"))
		}
		return luaStr(string(b)), b
	}
	var num = func() (string, uint64) {
		var v = r.U64() >> (11 + r.Int(53)) // exact as float
		switch r.Int(4) {
		case 0:
			v = pick(r, uint64(0), 1, 255, 256, 65535, 65536, 1<<32-1, 1<<32, 1<<53, 127, 128)
		case 1:
			v = uint64(r.Int(1000))
		}
		return strconv.FormatUint(v, 10), v
	}
	switch t.kind {
	case kBin:
		if r.P(1, 4) {
			var s, v = num()
			return s, minUint(v)
		}
		var b = content(r, pick(r, 0, 1, 4, 8, 16, 20, 64, r.Int(100)))
		var h = hex.EncodeToString(b)
		if r.P(1, 3) {
			h = strings.ToUpper(h)
		}
		return luaStr(h), append([]byte{}, b...)
	case kStr:
		switch r.Int(8) {
		case 0:
			var v = r.P(1, 2)
			return fmt.Sprint(v), []byte(fmt.Sprint(v))
		case 1:
			var n = r.Int(100000) - 500
			return strconv.Itoa(n), []byte(strconv.Itoa(n))
		case 2:
			var n = float64(r.Int(1000)) + 0.5
			return luaNum(n), []byte(luaNum(n))
		}
		return str()
	case kUint:
		if t.id == tFid && r.P(1, 2) { // IDs which follow each other, around the bounds of the widths
			var v = pick(r, uint64(253), 65533, 65533, 1<<32-3) + uint64(r.Int(6))
			return strconv.FormatUint(v, 10), minUint(v)
		}
		switch r.Int(6) {
		case 0:
			if r.P(1, 2) {
				return "true", []byte{1}
			}
			return "false", []byte{0}
		case 1, 2:
			var v = r.U64() >> r.Int(64)
			if r.P(1, 4) {
				v = math.MaxUint64
			}
			if t.id == tFid { // the counter of the IDs may not be brought to its end
				v >>= 1
			}
			var s = strconv.FormatUint(v, 10)
			if r.P(1, 6) {
				s = "00" + s
			}
			return luaStr(s), minUint(v)
		}
		var s, v = num()
		return s, minUint(v)
	case kTime:
		var tm = genTime(r)
		if r.P(1, 2) {
			var ms = tm.UnixMilli()
			return strconv.FormatInt(ms, 10), encUint(uint64(ms), 8)
		}
		var loc = time.FixedZone("", 60*(r.Int(26*60)-12*60))
		var layout = pick(r, iso, "2006-01-02T15:04:05Z07:00", time.RFC3339Nano)
		var s = tm.In(loc).Format(layout)
		var back, err = time.Parse(time.RFC3339Nano, s)
		if err != nil {
			return "0", encUint(0, 8)
		}
		return luaStr(s), append(encUint(uint64(back.Unix()), 8), encUint(uint64(back.Nanosecond()), 4)...)
	}
	switch r.Int(5) {
	case 0:
		if r.P(1, 2) {
			return "true", []byte{1}
		}
		return "false", []byte{0}
	case 1:
		var s, v = num()
		return s, minUint(v)
	case 2:
		var f = pick(r, -1.0, 0.5, -0.25, 1.75, 3.14159, -1e10, 1e-5, 123456.789)
		var b = encUint(math.Float64bits(f), 8)
		return luaNum(f), b
	}
	return str()
}

// ---------------------------------------------------------------- C18

type auto struct {
	fid, mime bool
	secret    string
	h         map[string]bool
}

var autoHash = []struct {
	name string
	id   uint16
	mk   func() hash.Hash
}{
	{"crc32", 12, nil}, {"crc64", 14, nil}, {"md5", 20, md5.New}, {"sha1", 21, sha1.New},
	{"sha224", 22, sha256.New224}, {"sha256", 23, sha256.New}, {"sha384", 24, sha512.New384}, {"sha512", 25, sha512.New},
}

func newAuto() *auto { return &auto{h: map[string]bool{}} }

func hashOf(k int, data []byte, secret string) []byte {
	switch k {
	case 0:
		var v = crc32.Checksum(data, crc32.MakeTable(0x82f63b78))
		return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
	case 1:
		var v = crc64.Checksum(data, crc64.MakeTable(0xD800000000000000))
		var b = make([]byte, 8)
		for i := range b {
			b[i] = byte(v >> (56 - 8*i))
		}
		return b
	}
	var h = hmac.New(autoHash[k].mk, []byte(secret))
	h.Write(data)
	return h.Sum(nil)
}

func mimeOf(name string, data []byte) string {
	var ext = strings.Map(func(ch rune) rune {
		if ch >= 'A' && ch <= 'Z' {
			return ch + 32
		}
		return ch
	}, path.Ext(name))
	if s := mime.TypeByExtension(ext); s != "" {
		return s
	}
	if s, ok := lw.MimeExt[ext]; ok {
		return s
	}
	if k, err := filetype.MatchReader(bytes.NewReader(data)); err == nil && k != filetype.Unknown {
		return k.MIME.Value
	}
	return "application/octet-stream"
}

type lua18 struct {
	*lvm
	m     *Model
	a     *auto
	split bool
	dead  int // bytes of refused puts
}

// compare checks one entry in every way it can be read.
func (x *lua18) compare(e *Ent) {
	var c, r = x.c, x.c.R
	var ts, ok = x.pack("pkg").GetTagset(e.Name)
	if !ok {
		c.Fail("%s is not in the table", quote(e.Name))
	}
	var raw = rawTags(c, "tagset of "+quote(e.Name), ts)
	if !sameTags(extraOf(raw), e.Tags) {
		c.Fail("tags of %s are %v, want %v", quote(e.Name), extraOf(raw), e.Tags)
	}
	var n = luaStr(e.Name)
	switch r.Int(3) {
	case 0:
		for _, t := range e.Tags {
			x.want(tagOf(t.ID).read(t.B), "return pkg:gettag(%s, %s)", n, tagOf(t.ID).key(r))
			c.Ev("tags read back", 1)
		}
		var t = anyTag(r)
		var _, has = getTag(e.Tags, t.id)
		x.want(lua.LBool(has), "return pkg:hastag(%s, %s)", n, t.key(r))
		if !has {
			x.must(0, "return pkg:gettag(%s, %s)", n, t.key(r))
		}
		x.want(lua.LString(e.Name), `return pkg:gettag(%s, pick or "path")`, n)
		x.want(lua.LNumber(len(e.Data)), `return pkg:gettag(%s, 2)`, n)
		x.want(lua.LNumber(len(e.Data)), `return pkg:filesize(%s)`, n)
	case 1:
		var v = x.must(1, "return pkg:gettags(%s)", n)
		var tb, ok = v[0].(*lua.LTable)
		if !ok {
			c.Fail("gettags gives %v", v[0])
		}
		var all = append([]MTag{{tPath, []byte(e.Name)}, {tSize, minUint(uint64(len(e.Data)))}}, e.Tags...)
		x.compareTable(tb, all, map[uint16]bool{tOffset: true})
	}
}

// compareTable checks a table made from tags; keys may be any documented names or numbers.
func (x *lua18) compareTable(tb *lua.LTable, tags []MTag, ignore map[uint16]bool) {
	var seen = map[uint16]bool{}
	tb.ForEach(func(k, v lua.LValue) {
		var id uint16
		switch k := k.(type) {
		case lua.LNumber:
			id = uint16(k)
		case lua.LString:
			var found = false
			for _, t := range tagNames {
				for _, n := range t.names {
					if n == string(k) {
						id, found = t.id, true
						if n != t.names[0] { // always one and the same name of those with several
							x.c.Fail("tag %d has the key %s", id, n)
						}
					}
				}
			}
			if !found {
				x.c.Fail("key %v of the tags table is no tag name", k)
			}
		default:
			x.c.Fail("key %v of the tags table", k)
		}
		if seen[id] {
			x.c.Fail("tag %d is twice in the table", id)
		}
		seen[id] = true
		if ignore[id] {
			return
		}
		var b, ok = getTag(tags, id)
		if !ok {
			x.c.Fail("table has tag %d that is not set", id)
		}
		var want = tagOf(id).read(b)
		if want.Type() != v.Type() || want.String() != v.String() {
			x.c.Fail("tag %d in the table is %v %s, want %v %s", id, v.Type(), quote(v.String()), want.Type(), quote(want.String()))
		}
		x.c.Ev("tags read back", 1)
	})
	for _, t := range tags {
		if !seen[t.ID] {
			x.c.Fail("tag %d is not in the table", t.ID)
		}
	}
}

// tagTable gives a Lua table expression with its meaning; with bad a part of it is unacceptable.
func (x *lua18) tagTable(max int, bad bool) (expr string, tags []MTag) {
	var r = x.c.R
	var parts []string
	for k := r.Int(max + 1); k > 0; k-- {
		var t = anyTag(r)
		if r.P(1, 20) || x.a.fid && r.P(1, 8) {
			t = tagOf(tFid)
		}
		if _, ok := getTag(tags, t.id); ok {
			continue
		}
		var v, raw = t.value(r, true)
		if fid, ok := x.nextFid(); ok && t.id == tFid && r.P(1, 2) {
			v, raw = strconv.FormatUint(fid, 10), minUint(fid)
		}
		tags = append(tags, MTag{t.id, raw})
		parts = append(parts, fmt.Sprintf("[%s]=%s", t.key(r), v))
	}
	if bad {
		switch r.Int(4) {
		case 0: // bad key
			parts = append(parts, fmt.Sprintf("[%s]=%s", pick(r, `"nosuchtag"`, `-1`, `65536`, `1.5`, `true`, `"Mime"`, `1e300`, `{}`), pick(r, `"x"`, `1`, `true`)))
		case 1: // protected
			parts = append(parts, fmt.Sprintf("[%s]=%s", tagOf(uint16(pick(r, 1, 2, 3))).key(r), pick(r, `0`, `1`, `100`, `"100"`, `"other"`)))
			if strings.HasSuffix(parts[len(parts)-1], `"other"`) {
				parts[len(parts)-1] = fmt.Sprintf("[%s]=%s", tagOf(3).key(r), `"other"`)
			}
		default:
			for {
				var t = anyTag(r)
				if _, ok := getTag(tags, t.id); ok {
					continue
				}
				var v, _ = t.value(r, false)
				parts = append(parts, fmt.Sprintf("[%s]=%s", t.key(r), v))
				break
			}
		}
	}
	shuffle(r, parts)
	return "{" + strings.Join(parts, ", ") + "}", tags
}

// put packs data or a file and checks the tags which appear.
func (x *lua18) put(name string) {
	var c, r = x.c, x.c.R
	var data = content(r, pick(r, 0, 1, 10, 100, 511, 4096, 8192, 9000, r.Int(3000), 40000))
	if r.P(1, 4) {
		data = append([]byte(pick(r, "\x89PNG\x0d\x0a\x1a\x0a", "GIF89a", "\xff\xd8\xff", "PK\x03\x04", "%PDF-1.4", "ID3", "<html>")), data...)
	}
	var bad = r.P(1, 6)
	var expr, tags = x.tagTable(5, bad)
	var n = luaStr(name)
	var file = r.P(1, 2)
	var at, mt time.Time
	var stmt string
	if file {
		var fpath = c.Path("src-" + fmt.Sprint(r.Int(5)) + pick(r, "", ".txt", ".dat"))
		writeFile(c, fpath, data)
		c.Env(os.Chtimes(fpath, genTime(r), genTime(r)))
		at, mt, _ = statTimes(c, fpath)
		stmt = fmt.Sprintf("return pkg:putfile(%s, %s, %s)", n, luaStr(fpath), expr)
	} else {
		stmt = fmt.Sprintf("return pkg:putdata(%s, %s, %s)", n, luaStr(string(data)), expr)
	}
	if !bad && len(tags) == 0 && r.P(1, 2) {
		stmt = strings.Replace(stmt, ", {})", pick(r, ")", ", nil)"), 1)
	}
	var old = x.m.get(name)
	if bad || old != nil {
		x.refuse("unacceptable tags or existing name", "%s", stmt)
		c.Check(x.pack("pkg").HasTagset(name) == (old != nil), "after a refused put %s is listed %v", n, old == nil)
		if old != nil {
			x.compare(old)
		} else {
			x.dead += len(data)
		}
		c.NonTrivial()
		return
	}
	x.must(0, "%s", stmt)
	var ts, ok = x.pack("pkg").GetTagset(name)
	if !ok {
		c.Fail("%s is not listed after the put", n)
	}
	var raw = rawTags(c, "tagset of "+n, ts)
	var e = &Ent{Name: name, Data: data, Tags: tags}
	for k, h := range autoHash {
		if !x.a.h[h.name] {
			continue
		}
		if _, ok := getTag(tags, h.id); !ok {
			e.Tags = append(e.Tags, MTag{h.id, hashOf(k, data, x.a.secret)})
			c.Ev("hash tags compared", 1)
			c.NonTrivial()
		}
	}
	if _, ok := getTag(tags, tMime); !ok && x.a.mime {
		e.Tags = append(e.Tags, MTag{tMime, []byte(mimeOf(name, data))})
		c.Ev("mime tags", 1)
	}
	if _, ok := getTag(tags, tFid); !ok && x.a.fid {
		var b, has = getTag(raw, tFid)
		var fid, dok = decUint(b)
		if !has || !dok {
			c.Fail("%s has no file ID: %v", n, raw)
		}
		for _, o := range x.m.Ents {
			if b, ok := getTag(o.Tags, tFid); ok {
				if v, ok := decUint(b); ok && v == fid {
					c.Fail("file ID %d of %s is the one of %s too", fid, n, quote(o.Name))
				}
			}
			c.Ev("file IDs compared", 1)
		}
		e.Tags = append(e.Tags, MTag{tFid, b})
		c.NonTrivial()
	}
	for _, t := range raw { // file times
		if t.ID >= tMtime && t.ID <= tBtime {
			if _, ok := getTag(tags, t.ID); !ok {
				e.Tags = append(e.Tags, t)
				if file && t.ID == tMtime && !decTime(t.B).Equal(mt) || file && t.ID == tAtime && !decTime(t.B).Equal(at) {
					c.Fail("%s: time tag %v, file has %v, %v", n, t, mt, at)
				}
			}
		}
	}
	if file {
		if _, ok := getTag(e.Tags, tMtime); !ok {
			c.Fail("%s has no mtime", n)
		}
	}
	x.m.Ents = append(x.m.Ents, e)
	x.compare(e)
}

// tagEdit is one statement on the tags of an entry.
func (x *lua18) tagEdit() {
	var c, r = x.c, x.c.R
	if len(x.m.Ents) == 0 {
		return
	}
	var e = pickOf(r, x.m.Ents)
	var n = luaStr(e.Name)
	var t = anyTag(r)
	if len(e.Tags) > 0 && r.P(1, 2) {
		t = tagOf(pickOf(r, e.Tags).ID)
	}
	if t.id == tFid && r.P(3, 4) {
		t = anyTag(r)
	}
	var _, has = getTag(e.Tags, t.id)
	switch r.Int(12) {
	case 0, 1:
		var v, raw = t.value(r, true)
		var added bool
		e.Tags, added = setMTag(e.Tags, MTag{t.id, raw})
		x.want(lua.LBool(added), "return pkg:settag(%s, %s, %s)", n, t.key(r), v)
	case 2:
		var v, raw = t.value(r, true)
		if !has {
			e.Tags = append(e.Tags, MTag{t.id, raw})
		}
		x.want(lua.LBool(!has), "return pkg:addtag(%s, %s, %s)", n, t.key(r), v)
	case 3:
		e.Tags, _ = delMTag(e.Tags, t.id)
		x.want(lua.LBool(has), "return pkg:deltag(%s, %s)", n, t.key(r))
	case 4, 5:
		var expr, tags = x.tagTable(5, false)
		for _, t := range tags {
			e.Tags, _ = setMTag(e.Tags, t)
		}
		x.must(0, "return pkg:settags(%s, %s)", n, expr)
	case 6:
		var expr, tags = x.tagTable(5, false)
		var cnt = 0
		for _, t := range tags {
			if _, ok := getTag(e.Tags, t.ID); !ok {
				e.Tags = append(e.Tags, t)
				cnt++
			}
		}
		x.want(lua.LNumber(cnt), "return pkg:addtags(%s, %s)", n, expr)
	case 7:
		var parts []string
		var cnt = 0
		var ids = map[uint16]bool{}
		for k := r.Int(5); k > 0; k-- {
			var t = anyTag(r)
			if len(e.Tags) > 0 && r.P(2, 3) {
				t = tagOf(pickOf(r, e.Tags).ID)
			}
			if ids[t.id] {
				continue
			}
			ids[t.id] = true
			var ok bool
			if e.Tags, ok = delMTag(e.Tags, t.id); ok {
				cnt++
			}
			parts = append(parts, fmt.Sprintf("[%s]=%s", t.key(r), pick(r, "true", "1", `""`, "{}", "false")))
		}
		x.want(lua.LNumber(cnt), "return pkg:deltags(%s, {%s})", n, strings.Join(parts, ", "))
	case 8: // protected
		var p = tagOf(uint16(pick(r, 1, 2, 3)))
		var v = pick(r, `0`, `1`, `"1"`, `"other"`)
		switch r.Int(4) {
		case 0:
			x.refuse("protected tag", "return pkg:settag(%s, %s, %s)", n, p.key(r), v)
		case 1:
			x.refuse("protected tag", "return pkg:addtag(%s, %s, %s)", n, p.key(r), v)
		case 2:
			x.refuse("protected tag", "return pkg:deltag(%s, %s)", n, p.key(r))
		case 3:
			x.refuse("protected tag", "return pkg:deltags(%s, {[%s]=true, comment=true})", n, p.key(r))
		}
		c.NonTrivial()
	case 9: // unacceptable
		var v, _ = t.value(r, false)
		var bk = pickOf(r, badKeys)
		switch r.Int(9) {
		case 0:
			x.refuse("value", "return pkg:settag(%s, %s, %s)", n, t.key(r), v)
		case 1:
			if !has {
				x.refuse("value", "return pkg:addtag(%s, %s, %s)", n, t.key(r), v)
			}
		case 2:
			x.refuse("key", "return pkg:settag(%s, %s, \"x\")", n, bk)
		case 3:
			x.refuse("key", "return pkg:addtag(%s, %s, \"x\")", n, bk)
		case 4:
			x.refuse("key", "return pkg:deltag(%s, %s)", n, bk)
		case 5:
			x.refuse("key", "return pkg:gettag(%s, %s)", n, bk)
		case 6:
			x.refuse("key", "return pkg:hastag(%s, %s)", n, bk)
		case 7:
			x.refuse("key", "return pkg:deltags(%s, {[%s]=true})", n, bk)
		case 8:
			x.refuse("value", "return pkg:settag(%s, %s)", n, t.key(r))
		}
		c.NonTrivial()
	case 10: // a table with something unacceptable changes nothing
		var expr, _ = x.tagTable(4, true)
		x.refuse("table", "return pkg:%s(%s, %s)", pick(r, "settags", "addtags"), n, expr)
		c.NonTrivial()
	case 11: // no such file
		var miss = luaStr(e.Name + "?missing")
		var v, _ = t.value(r, true)
		switch r.Int(8) {
		case 0:
			x.refuse("missing", "return pkg:settag(%s, %s, %s)", miss, t.key(r), v)
		case 1:
			x.refuse("missing", "return pkg:addtag(%s, %s, %s)", miss, t.key(r), v)
		case 2:
			x.refuse("missing", "return pkg:deltag(%s, %s)", miss, t.key(r))
		case 3:
			x.refuse("missing", "return pkg:gettag(%s, %s)", miss, t.key(r))
		case 4:
			x.refuse("missing", "return pkg:hastag(%s, %s)", miss, t.key(r))
		case 5:
			x.refuse("missing", "return pkg:gettags(%s)", miss)
		case 6:
			x.refuse("missing", "return pkg:settags(%s, {comment=\"x\"})", miss)
		case 7:
			x.refuse("missing", "return pkg:deltags(%s, {comment=true})", miss)
		}
	}
	x.compare(e)
}

// nextFid is an ID a bit greater than all that are in use.
func (x *lua18) nextFid() (uint64, bool) {
	var top uint64
	for _, e := range x.m.Ents {
		if b, ok := getTag(e.Tags, tFid); ok {
			if v, ok := decUint(b); ok && v > top {
				top = v
			}
		}
	}
	if top >= 1<<52 {
		return 0, false
	}
	return top + uint64(x.c.R.Range(1, 3)), true
}

// claimFid gives an entry by hand the ID that is one of the next, so that automatic ones have to go over it.
func (x *lua18) claimFid() {
	var r = x.c.R
	var fid, ok = x.nextFid()
	if !ok || len(x.m.Ents) == 0 {
		return
	}
	var e = pickOf(r, x.m.Ents)
	var n, t, mt = luaStr(e.Name), tagOf(tFid), MTag{tFid, minUint(fid)}
	var _, has = getTag(e.Tags, tFid)
	switch r.Int(4) {
	case 0:
		e.Tags, _ = setMTag(e.Tags, mt)
		x.want(lua.LBool(!has), "return pkg:settag(%s, %s, %d)", n, t.key(r), fid)
	case 1:
		if !has {
			e.Tags = append(e.Tags, mt)
		}
		x.want(lua.LBool(!has), "return pkg:addtag(%s, %s, %d)", n, t.key(r), fid)
	case 2:
		e.Tags, _ = setMTag(e.Tags, mt)
		x.must(0, "return pkg:settags(%s, {[%s]=%d})", n, t.key(r), fid)
	case 3:
		var cnt = 0
		if !has {
			e.Tags = append(e.Tags, mt)
			cnt = 1
		}
		x.want(lua.LNumber(cnt), "return pkg:addtags(%s, {[%s]=%d})", n, t.key(r), fid)
	}
	x.compare(e)
	x.c.Ev("file IDs claimed by hand", 1)
}

func (x *lua18) toggle() {
	var r = x.c.R
	switch k := r.Int(11); k {
	case 0:
		x.a.fid = r.P(2, 3)
		x.must(0, "pkg.autofid = %v", x.a.fid)
		x.want(lua.LBool(x.a.fid), "return pkg.autofid")
	case 1:
		x.a.mime = r.P(2, 3)
		x.must(0, "pkg.automime = %v", x.a.mime)
		x.want(lua.LBool(x.a.mime), "return pkg.automime")
	case 2:
		x.a.secret = string(content(r, pick(r, 0, 1, 10, 63, 64, 65, 128, 129, 200)))
		x.must(0, "pkg.secret = %s", luaStr(x.a.secret))
		x.want(lua.LString(x.a.secret), "return pkg.secret")
	default:
		var h = autoHash[k-3]
		x.a.h[h.name] = r.P(2, 3)
		x.must(0, "pkg.%s = %v", h.name, x.a.h[h.name])
		for _, o := range autoHash {
			x.want(lua.LBool(x.a.h[o.name]), "return pkg.%s", o.name)
		}
	}
}

func (x *lua18) info() {
	var c, r = x.c, x.c.R
	switch r.Int(5) {
	case 0:
		var expr, tags = x.tagTable(5, false)
		if _, ok := getTag(tags, tFid); ok {
			return
		}
		x.must(0, "return pkg:setupinfo(%s)", expr)
		x.m.Info = tags
	case 1:
		var expr, _ = x.tagTable(3, true)
		x.refuse("table", "return pkg:setupinfo(%s)", expr)
	case 2:
		var b = content(r, r.Int(50))
		x.must(0, "pkg.label = %s", luaStr(string(b)))
		x.m.Info, _ = setMTag(x.m.Info, MTag{tLabel, b})
	case 3:
		var v = x.must(1, "return pkg:getinfo()")
		var tb, ok = v[0].(*lua.LTable)
		c.Check(ok, "getinfo gives %v", v[0])
		x.compareTable(tb, x.m.Info, nil)
	}
	if b, ok := getTag(x.m.Info, tLabel); ok {
		x.want(lua.LString(b), "return pkg.label")
	} else {
		x.want(lua.LNil, "return pkg.label")
	}
	var raw = rawTags(c, "info", x.pack("pkg").GetInfo())
	if !sameTags(raw, x.m.Info) {
		c.Fail("package info %v, want %v", raw, x.m.Info)
	}
}

// runC18odd reads tags whose stored length is not one of their type.
func runC18odd(c *C) {
	var r = c.R
	var ents []*Ent
	for i, name := range fsNames(r, r.Range(1, 4)) {
		var e = &Ent{Name: name, Data: content(r, i)}
		for k := r.Range(1, 5); k > 0; k-- {
			var id = pickOf(r, tagNames).id
			if id <= tPath || r.P(1, 8) {
				id = uint16(r.Range(120, 65535))
			}
			if _, ok := getTag(e.Tags, id); !ok {
				e.Tags = append(e.Tags, MTag{id, content(r, pick(r, 0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 16, 20))})
			}
		}
		ents = append(ents, e)
	}
	var split = r.P(1, 2)
	var tpath, dpath = packDisk(c, "odd.wpk", split, ents)
	var x = newLvm(c)
	defer x.ls.Close()
	var args = luaStr(tpath)
	if split {
		args += ", " + luaStr(dpath)
	}
	x.must(0, "pkg = wpk.new()")
	x.must(0, "pkg:load(%s)", args)
	for _, e := range ents {
		var n = luaStr(e.Name)
		var bad []*tagName
		for _, m := range e.Tags {
			var t = tagOf(m.ID)
			c.Mix(fmt.Sprint(t.kind, len(m.B)))
			x.want(lua.LTrue, "return pkg:hastag(%s, %s)", n, t.key(r))
			var l = len(m.B)
			switch {
			case t.kind == kUint && l != 1 && l != 2 && l != 4 && l != 8, t.kind == kTime && l != 8 && l != 12:
				bad = append(bad, t)
				x.refuse("stored value has wrong length", "return pkg:gettag(%s, %s)", n, t.key(r))
			case t.kind == kTime:
			default:
				x.want(t.read(m.B), "return pkg:gettag(%s, %s)", n, t.key(r))
			}
		}
		if len(bad) == 0 {
			continue
		}
		c.NonTrivial()
		x.refuse("a stored value has wrong length", "return pkg:gettags(%s)", n)
		for _, t := range bad {
			x.want(lua.LTrue, "return pkg:deltag(%s, %s)", n, t.key(r))
			x.want(lua.LFalse, "return pkg:hastag(%s, %s)", n, t.key(r))
			c.Ev("values of wrong length refused", 1)
		}
		x.must(1, "return pkg:gettags(%s)", n)
		for _, m := range e.Tags {
			if t := tagOf(m.ID); t.kind == kBin || t.kind == kStr || t.kind == kAny {
				x.want(t.read(m.B), "return pkg:gettag(%s, %s)", n, t.key(r))
			}
		}
	}
}

func runC18(c *C) {
	var r = c.R
	if r.P(1, 40) {
		runC18odd(c)
		return
	}
	var x = &lua18{lvm: newLvm(c), m: &Model{}, a: newAuto(), split: r.P(1, 2)}
	defer x.ls.Close()
	var p, d = c.Path("p.wpt"), c.Path("p.wpf")
	var args, dpath = luaStr(p), p
	if x.split {
		args += ", " + luaStr(d)
		dpath = d
	}
	var names = anyNames(r, r.Range(3, 8))
	for i := range names {
		if r.P(2, 3) {
			names[i] += pick(r, ".txt", ".jpg", ".JPG", ".json", ".Html", ".css", ".unknown", ".go", ".wpk", ".", ".yaml", ".YAML", ".psd", ".d/noext", ".mp4", ".tar.gz", ".EOT", ".eot", ".Psb", ".map", ".MAP", ".MPA", ".cda")
		}
		names[i] = strings.ReplaceAll(names[i], "\\", "/")
	}
	x.must(0, "pkg = wpk.new()")
	for _, h := range autoHash {
		x.want(lua.LFalse, "return pkg.%s", h.name)
	}
	x.want(lua.LFalse, "return pkg.autofid")
	x.want(lua.LFalse, "return pkg.automime")
	for k := r.Int(10); k > 0; k-- {
		x.toggle()
	}
	x.must(0, "pkg:begin(%s)", args)
	for s := r.Range(1, 3); s > 0; s-- {
		for k := r.Range(4, 14); k > 0; k-- {
			switch r.Int(10) {
			case 0, 1, 2, 3:
				x.put(pickOf(r, names))
			case 4:
				x.toggle()
			case 5:
				x.info()
			case 6:
				if len(x.m.Ents) > 0 {
					var e = pickOf(r, x.m.Ents)
					var nn = e.Name + pick(r, "~", ".bin", "/x")
					if x.m.get(nn) != nil {
						continue
					}
					if r.P(1, 2) {
						x.must(0, "pkg:putalias(%s, %s)", luaStr(e.Name), luaStr(nn))
						var y = e.clone()
						y.Name = nn
						x.m.Ents = append(x.m.Ents, y)
					} else {
						x.must(0, "pkg:rename(%s, %s)", luaStr(e.Name), luaStr(nn))
						e.Name, e.Loose = nn, true
					}
				}
			default:
				if x.a.fid && r.P(1, 3) {
					x.claimFid()
				} else {
					x.tagEdit()
				}
			}
			if r.P(1, 10) && x.split {
				x.must(0, "pkg:flush()")
			}
		}
		x.must(0, "pkg:finalize()")
		var tb, terr = os.ReadFile(p)
		c.Env(terr)
		var db, derr = os.ReadFile(dpath)
		c.Env(derr)
		checkImage(c, "package of the script", tb, db, x.split, x.m)
		if s > 1 {
			if r.P(2, 3) { // a new object knows nothing of the switches of the old one
				x.must(0, "pkg = wpk.new()")
				x.a = newAuto()
				for k := r.Int(5); k > 0; k-- {
					x.toggle()
				}
				if r.P(1, 2) {
					x.a.fid = true
					x.must(0, "pkg.autofid = true")
				}
				x.must(0, "pkg:load(%s)", args)
			}
			x.must(0, "pkg:append()")
		}
	}
	for _, e := range x.m.Ents {
		x.compare(e)
	}
}

// ---------------------------------------------------------------- C19

type lua19 struct {
	*lvm
	m      *Model
	opened bool
	known  bool // content of the table is known to the model
	tp, dp string
	loaded bool              // has a path to append to
	failed bool              // loading has failed
	com    map[string]*Model // committed state by tags path; nil: does not open
	dead   bool              // data of refused puts is in the data area
	zero   bool
}

func (x *lua19) paths(split bool) (args string) {
	args = `DIR.."a.wpk"`
	if split {
		args = `DIR.."b.wpt", DIR.."b.wpf"`
	}
	return
}

// runC19many asks for names of many files at once.
func runC19many(c *C) {
	var r = c.R
	var n = r.Range(3000, 12000)
	var dirs = r.Range(1, 5)
	var script = c.Path("many.lua")
	var out = c.Path("out")
	writeFile(c, script, []byte(fmt.Sprintf(`
local pkg = wpk.new()
pkg:begin(%s)
for i = 1, %d do pkg:putdata("d"..(i %% %d).."/f"..i, "x"..i) end
local t = {pkg:glob("*/*")}
local u = {pkg:glob("d0/*")}
local f = assert(io.open(%s, "w"))
f:write(#t, "\n", #u, "\n", pkg.tagnum, "\n", pkg:sumsize(), "\n")
for _, n in ipairs(t) do f:write(n, "\n") end
f:close()
pkg:finalize()
`, luaStr(c.Path("p.wpk")), n, dirs, luaStr(out))))
	if err := lw.RunLuaVM(script); err != nil {
		c.Fail("script that asks for names of %d files: %v", n, err)
	}
	var d0, sum int
	var names []string
	for i := 1; i <= n; i++ {
		if i%dirs == 0 {
			d0++
		}
		sum += len(fmt.Sprint("x", i))
		names = append(names, fmt.Sprintf("d%d/f%d", i%dirs, i))
	}
	var b, err = os.ReadFile(out)
	c.NoErr(err, "output of the script")
	var got = strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	var want = append([]string{fmt.Sprint(n), fmt.Sprint(d0), fmt.Sprint(n), fmt.Sprint(sum)}, names...)
	if len(got) < 4 || strings.Join(got[:4], " ") != strings.Join(want[:4], " ") {
		c.Fail("numbers of %d files are %v, want %v", n, got[:min(4, len(got))], want[:4])
	}
	sort.Strings(got[4:])
	sort.Strings(want[4:])
	if strings.Join(got, " ") != strings.Join(want, " ") {
		c.Fail("names of %d files differ", n)
	}
	var pk = wpk.NewPackage()
	c.NoErr(pk.OpenFile(c.Path("p.wpk")), "OpenFile")
	c.Check(pk.TagsetNum() == n, "package has %d files, want %d", pk.TagsetNum(), n)
	c.Ev("names given at once", n)
	c.Mix(fmt.Sprint("many", n))
	c.NonTrivial()
}

// runC19pipe puts sources that can be read only once.
func runC19pipe(c *C) {
	var r = c.R
	var x = newLvm(c)
	defer x.ls.Close()
	var p, d = c.Path("p.wpt"), ""
	var args = luaStr(p)
	if r.P(1, 2) {
		d = c.Path("p.wpf")
		args += ", " + luaStr(d)
	}
	x.must(0, "pkg = wpk.new()")
	x.must(0, "pkg:begin(%s)", args)
	var m = &Model{}
	var hash = map[string]bool{}
	for k := r.Range(2, 8); k > 0; k-- {
		var name = pick(r, "a.txt", "b.bin", "c", "d/e.jpg", "d/f")
		switch r.Int(5) {
		case 0:
			var h = pickOf(r, autoHash)
			hash[h.name] = !hash[h.name]
			x.must(0, "pkg.%s = %v", h.name, hash[h.name])
		case 1, 2:
			var data = content(r, r.Int(200))
			if m.get(name) != nil {
				x.refuse("name is occupied", "pkg:putdata(%s, %s)", luaStr(name), luaStr(string(data)))
				continue
			}
			x.must(0, "pkg:putdata(%s, %s)", luaStr(name), luaStr(string(data)))
			m.Ents = append(m.Ents, &Ent{Name: name, Data: data})
		default:
			if m.get(name) != nil {
				continue
			}
			var fifo = c.Path(fmt.Sprintf("fifo%d", k))
			c.Env(syscall.Mkfifo(fifo, 0600))
			var data = content(r, pick(r, 0, 10, 5000, r.Int(100000)))
			var done = make(chan error, 1)
			go func() {
				var f, err = os.OpenFile(fifo, os.O_WRONLY, 0)
				if err == nil {
					_, err = f.Write(data)
					f.Close()
				}
				done <- err
			}()
			var ok, _, _ = x.do(fmt.Sprintf("pkg:putfile(%s, %s)", luaStr(name), luaStr(fifo)))
			var werr error
			select {
			case werr = <-done:
			case <-time.After(3 * time.Second): // source was not read up to the end
				if f, err := os.OpenFile(fifo, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
					time.Sleep(time.Millisecond)
					f.Close()
				}
				werr = <-done
			}
			if ok {
				c.Check(werr == nil, "pipe was not read up to the end: %v", werr)
			}
			c.NonTrivial()
			var any = false
			for _, v := range hash {
				any = any || v
			}
			c.Mix(fmt.Sprint(ok, any, len(m.Ents)))
			if ok {
				m.Ents = append(m.Ents, &Ent{Name: name, Data: data})
				c.Ev("pipes packed", 1)
			} else {
				c.Check(any, "pipe can not be put to the package when nothing has to be computed")
				x.want(lua.LFalse, "return pkg:hasfile(%s)", luaStr(name))
				c.Ev("pipes refused", 1)
			}
			x.want(lua.LNumber(len(m.Ents)), "return pkg.tagnum")
		}
	}
	x.must(0, "pkg:finalize()")
	if d == "" {
		d = p
	}
	var pk = openDisk(c, p, d, pickOf(r, modes))
	defer pk.Tagger.Close()
	c.Check(pk.TagsetNum() == len(m.Ents), "package has %d files, want %d", pk.TagsetNum(), len(m.Ents))
	for _, e := range m.Ents {
		var b, err = pk.ReadFile(e.Name)
		if err != nil || !bytes.Equal(b, e.Data) {
			c.Fail("%s has %d bytes, %v, want %d", quote(e.Name), len(b), err, len(e.Data))
		}
	}
}

func runC19(c *C) {
	var r = c.R
	if r.P(1, 60) {
		runC19pipe(c)
		return
	}
	if r.P(1, 250) {
		runC19many(c)
		return
	}
	var x = &lua19{lvm: newLvm(c), m: &Model{}, com: map[string]*Model{}, known: true}
	defer x.ls.Close()
	var dir = c.Path("w") + "/"
	c.Env(os.Mkdir(dir, 0755))
	x.ls.SetGlobal("DIR", lua.LString(dir))
	var srcdir = c.Path("s") + "/"
	c.Env(os.Mkdir(srcdir, 0755))
	var src = map[string][]byte{}
	for i := 0; i < 3; i++ {
		var n = fmt.Sprintf("file%d", i)
		src[n] = content(r, pick(r, 0, 1, 100, 5000, r.Int(300)))
		writeFile(c, srcdir+n, src[n])
	}
	fmt.Fprintf(&x.script, "SRC = %s\n", luaStr(srcdir))
	x.ls.SetGlobal("SRC", lua.LString(srcdir))
	var names = []string{"a", "b.txt", "d/a", "d/b", "d/e/f", "dd/a", "d2/x", "img/1.jpg", "файл", "with space", "x%y", "$HOME/z", "D/a"}
	shuffle(r, names)
	names = names[:r.Range(3, len(names))]
	var name = func() string { return pickOf(r, names) }
	var existing = func() string {
		if len(x.m.Ents) == 0 {
			return name()
		}
		return pickOf(r, x.m.Ents).Name
	}
	x.must(0, "pkg = wpk.new()")
	var commit = func(what string) {
		x.com[x.tp] = x.m.clone()
		x.checkDisk(what)
		c.NonTrivial()
	}
	var steps = r.Range(6, 40)
	var next []int // operations to be made at once
	for k := 0; k < steps || len(next) > 0; k++ {
		var op = r.Int(40)
		if !x.known && op > 7 {
			op = r.Int(8)
		}
		var again = len(next) > 0
		if again {
			op, next = next[0], next[1:]
		}
		switch op {
		case 0, 1: // begin
			var split = r.P(1, 2)
			if x.opened {
				if r.P(1, 3) {
					x.refuse("already opened", "return pkg:begin(%s)", x.paths(split))
				}
				continue
			}
			if r.P(1, 8) {
				x.refuse("no such directory", `return pkg:begin(DIR.."none/x.wpk")`)
				x.known = false // what the object holds after that is not specified
				x.loaded = false
				continue
			}
			x.must(0, "pkg:begin(%s)", x.paths(split))
			var info = x.m.Info
			if !x.known {
				info = rawTags(c, "info", x.pack("pkg").GetInfo())
			}
			x.m = &Model{Info: info}
			x.opened, x.known, x.loaded, x.dead, x.failed = true, true, true, false, false
			x.tp, x.dp = "a.wpk", ""
			if split {
				x.tp, x.dp = "b.wpt", "b.wpf"
				x.com[x.tp] = &Model{}
			} else {
				delete(x.com, x.tp)
			}
		case 2, 3: // load
			var split = r.P(1, 2)
			if again {
				split = true
			}
			if x.opened {
				if r.P(1, 3) {
					x.refuse("already opened", "return pkg:load(%s)", x.paths(split))
				}
				continue
			}
			var tp = "a.wpk"
			if split {
				tp = "b.wpt"
			}
			var com = x.com[tp]
			if com == nil {
				x.refuse("no such package or not finalized", "return pkg:load(%s)", x.paths(split))
				x.known, x.loaded, x.failed = false, false, true
				continue
			}
			if !again && x.loaded && r.P(1, 5) { // a package that has lost a part of its table
				var b, err = os.ReadFile(dir + tp)
				c.Env(err)
				var h, _ = decHdr(b)
				if h.FttSize > 0 {
					b = b[:h.FttOff+h.FttSize]
					switch r.Int(3) {
					case 0:
						b = b[:len(b)-1-r.Int(int(h.FttSize))]
					case 1:
						b[h.FttOff], b[h.FttOff+1] = 0xff, 0xff
					case 2:
						b[h.FttOff+uint64(r.Int(int(h.FttSize)))] ^= byte(r.Range(1, 255))
					}
					writeFile(c, srcdir+"bad", b)
					if wpk.NewPackage().OpenStream(bytes.NewReader(b)) != nil {
						x.refuse("broken package", `return pkg:load(SRC.."bad")`)
						x.known, x.loaded, x.failed = false, false, true
						next = append(next, 4)
						continue
					}
				}
			}
			if r.P(1, 2) {
				x.must(0, "pkg = wpk.new()")
			}
			x.must(0, "pkg:load(%s)", x.paths(split))
			x.m = com.clone()
			x.known, x.loaded, x.dead, x.failed = true, true, true, false
			if r.P(1, 4) { // the data is not where the header says
				var before = dirBytes(c, dir)
				x.must(0, "pkg = wpk.new()")
				if split {
					x.must(0, `pkg:load(DIR.."b.wpt")`)
				} else {
					x.must(0, `pkg:load(DIR.."a.wpk", DIR.."a.wpk")`)
				}
				x.refuse("other data path", "return pkg:append()")
				if after := dirBytes(c, dir); after != before {
					c.Fail("refused append changed the files")
				}
				c.Ev("appends with wrong data path", 1)
				x.must(0, "pkg = wpk.new()")
				x.must(0, "pkg:load(%s)", x.paths(split))
			}
			x.tp, x.dp = tp, ""
			if split {
				x.dp = "b.wpf"
			}
			x.queries()
		case 4: // append
			if x.opened {
				x.refuse("already opened", "return pkg:append()")
				continue
			}
			if x.failed && !x.loaded {
				var before = dirBytes(c, dir)
				x.refuse("loading has failed", "return pkg:append()")
				if after := dirBytes(c, dir); after != before {
					c.Fail("refused append changed the files")
				}
				c.Ev("appends after a failed load", 1)
			}
			if !x.known || !x.loaded {
				continue
			}
			// by another object the file could have been replaced
			if x.com[x.tp] == nil {
				continue
			}
			x.must(0, "pkg:append()")
			x.opened = true
			if x.dp == "" {
				delete(x.com, x.tp)
			}
		case 5: // finalize
			if !x.opened {
				x.refuse("not opened", "return pkg:finalize()")
				continue
			}
			x.must(0, "pkg:finalize()")
			x.opened = false
			commit("after finalize")
		case 6: // flush
			if !x.opened || x.dp == "" {
				x.refuse("not opened or single", "return pkg:flush()")
				continue
			}
			x.must(0, "pkg:flush()")
			commit("after flush")
			if r.P(1, 2) {
				x.otherObject()
			}
		case 7: // a new object, the old one was closed
			if x.opened { // or it is gone in the middle of the session
				if r.P(1, 2) {
					continue
				}
				x.opened = false
				c.Ev("abandoned sessions", 1)
				if x.dp != "" && x.com[x.tp] != nil && r.P(2, 3) {
					next = []int{2, 4, 8, 5} // work goes on from the last flush
				}
			}
			x.must(0, "pkg = wpk.new()")
			x.m = &Model{}
			x.known, x.loaded = true, false
			x.refuse("not loaded", "return pkg:append()")
		case 8, 9, 10, 11, 12, 13, 14: // putdata
			var n = name()
			var data = content(r, pick(r, 0, 1, 20, 300, 4096, r.Int(200)))
			var tags, expr = []MTag(nil), ""
			if r.P(1, 2) {
				var v = string(content(r, r.Int(30)))
				tags = []MTag{{tLabel + 6, []byte(v)}}
				expr = fmt.Sprintf(", {comment=%s}", luaStr(v))
			}
			if !x.opened {
				x.refuse("not opened", "return pkg:putdata(%s, %s%s)", luaStr(n), luaStr(string(data)), expr)
				continue
			}
			if x.m.get(n) != nil {
				x.refuse("exists", "return pkg:putdata(%s, %s%s)", luaStr(n), luaStr(string(data)), expr)
				x.one(n)
				continue
			}
			x.must(0, "return pkg:putdata(%s, %s%s)", luaStr(n), luaStr(string(data)), expr)
			x.m.Ents = append(x.m.Ents, &Ent{Name: n, Data: data, Tags: tags, Times: true})
			x.one(n)
		case 15, 16, 17: // putfile
			var n = name()
			var f = pick(r, "file0", "file1", "file2")
			if r.P(1, 6) {
				f = pick(r, "none", ".", "none/none", "")
				x.refuse("no such file", "return pkg:putfile(%s, SRC..%s)", luaStr(n), luaStr(f))
				if x.opened {
					x.dead = true
				}
				x.one(n)
				continue
			}
			if !x.opened || x.m.get(n) != nil {
				x.refuse("not opened or exists", "return pkg:putfile(%s, SRC..%s)", luaStr(n), luaStr(f))
				x.one(n)
				continue
			}
			x.must(0, "return pkg:putfile(%s, SRC..%s)", luaStr(n), luaStr(f))
			x.m.Ents = append(x.m.Ents, &Ent{Name: n, Data: src[f], Times: true})
			x.one(n)
		case 18: // wrong arguments
			var n = name()
			var had = x.m.get(n) != nil
			x.refuse("arguments", "return %s", pick(r,
				fmt.Sprintf("pkg:putdata(%s)", luaStr(n)),
				fmt.Sprintf("pkg:putdata(%s, {})", luaStr(n)),
				fmt.Sprintf("pkg:putdata(%s, nil)", luaStr(n)),
				fmt.Sprintf("pkg:putdata(%s, \"x\", \"tags\")", luaStr(n)),
				fmt.Sprintf("pkg:putdata(%s, \"x\", {nosuchtag=1})", luaStr(n)),
				fmt.Sprintf("pkg:putdata(%s, \"x\", {comment={}})", luaStr(n)),
				fmt.Sprintf("pkg:putfile(%s)", luaStr(n)),
				fmt.Sprintf("pkg:putfile(%s, SRC..\"file0\", {offset=1})", luaStr(n)),
				fmt.Sprintf("pkg:putfile(%s, SRC..\"file0\", {nosuchtag=1})", luaStr(n)),
				fmt.Sprintf("pkg:putfile(%s, SRC..\"file0\", 5)", luaStr(n)),
				"pkg:putdata()", "pkg:putfile()", "pkg:rename()", "pkg:rename(\"a\")", "pkg:putalias(\"a\")", "pkg:delalias()", "pkg:renamedir(\"d\")",
				"pkg:hasfile()", "pkg:filesize()", "pkg:glob()", "pkg.putdata()", "pkg.putdata({}, \"a\", \"b\")", "pkg:setupinfo(1)", "pkg:setupinfo()", "pkg:settags(\"a\")",
				"pkg:nosuchmethod()", "wpk.new():load()", "wpk.new():begin()", "pkg:glob(\"[\")"))
			if x.opened {
				x.dead = true
			}
			if had != (x.m.get(n) != nil) || x.pack("pkg").HasTagset(n) != had {
				c.Fail("a refused call changed the presence of %s", quote(n))
			}
		case 19, 20, 21: // alias
			var a, b = existing(), name()
			if r.P(1, 5) {
				a = name()
			}
			var e = x.m.get(a)
			if e == nil || x.m.get(b) != nil {
				x.refuse("missing or exists", "return pkg:putalias(%s, %s)", luaStr(a), luaStr(b))
			} else {
				x.must(0, "return pkg:putalias(%s, %s)", luaStr(a), luaStr(b))
				var y = e.clone()
				y.Name, y.Loose = b, false
				x.m.Ents = append(x.m.Ents, y)
			}
			x.one(a)
			x.one(b)
		case 22, 23: // rename
			var a, b = existing(), name()
			if r.P(1, 5) {
				a = name()
			}
			if a == b {
				continue
			}
			var e = x.m.get(a)
			if e == nil || x.m.get(b) != nil {
				x.refuse("missing or exists", "return pkg:rename(%s, %s)", luaStr(a), luaStr(b))
			} else {
				x.must(0, "return pkg:rename(%s, %s)", luaStr(a), luaStr(b))
				e.Name, e.Loose = b, true
			}
			x.one(a)
			x.one(b)
		case 24, 25: // delete
			var a = existing()
			if r.P(1, 4) {
				a = name()
			}
			x.want(lua.LBool(x.m.del(a)), "return pkg:delalias(%s)", luaStr(a))
			x.one(a)
		case 26, 27: // rename directory
			var d1, d2 = pick(r, "d", "dd", "img", "d/e", "D"), pick(r, "moved", "dd", "d2", "other/deep", "img", "D", "")
			if d1 == d2 || strings.HasPrefix(d1+"/", d2+"/") || strings.HasPrefix(d2+"/", d1+"/") {
				continue
			}
			var n, conflict, chain = 0, 0, false
			var to = d2 + "/"
			if d2 == "" {
				to = ""
			}
			for _, e := range x.m.Ents {
				if rest, ok := strings.CutPrefix(e.Name, d1+"/"); ok {
					n++
					if x.m.get(to+rest) != nil {
						conflict++
					}
					chain = chain || strings.HasPrefix(to+rest, d1+"/") || rest == ""
				}
			}
			if chain {
				continue
			}
			if n == 0 {
				var ok, vals, _ = x.do(fmt.Sprintf("return pkg:renamedir(%s, %s)", luaStr(d1), luaStr(d2)))
				if ok && (len(vals) != 1 || vals[0] != lua.LNumber(0)) {
					c.Fail("renamedir of the missing %s gives %v", d1, vals)
				}
				continue
			}
			if conflict > 0 {
				x.want(lua.LNumber(n-conflict), "return pkg:renamedir(%s, %s%s)", luaStr(d1), luaStr(d2), pick(r, "", ", true"))
			} else {
				x.want(lua.LNumber(n), "return pkg:renamedir(%s, %s%s)", luaStr(d1), luaStr(d2), pick(r, "", ", true", ", false"))
			}
			for _, e := range x.m.Ents {
				if rest, ok := strings.CutPrefix(e.Name, d1+"/"); ok && x.m.get(to+rest) == nil {
					e.Name, e.Loose = to+rest, true
				}
			}
			x.queries()
		case 28, 29: // tags
			var a = existing()
			var e = x.m.get(a)
			var v = string(content(r, pick(r, 0, 3, 40, 200)))
			if e == nil {
				x.refuse("missing", "return pkg:settag(%s, \"author\", %s)", luaStr(a), luaStr(v))
				continue
			}
			if r.P(1, 4) {
				var ok bool
				e.Tags, ok = delMTag(e.Tags, 115)
				x.want(lua.LBool(ok), "return pkg:deltag(%s, \"author\")", luaStr(a))
			} else {
				var added bool
				e.Tags, added = setMTag(e.Tags, MTag{115, []byte(v)})
				x.want(lua.LBool(added), "return pkg:settag(%s, \"author\", %s)", luaStr(a), luaStr(v))
			}
			x.one(a)
		case 30: // info
			var v = string(content(r, r.Int(60)))
			switch r.Int(3) {
			case 0:
				x.must(0, "return pkg:setupinfo{label=%s, author=\"me\"}", luaStr(v))
				x.m.Info = []MTag{{tLabel, []byte(v)}, {115, []byte("me")}}
			case 1:
				x.must(0, "pkg.label = %s", luaStr(v))
				x.m.Info, _ = setMTag(x.m.Info, MTag{tLabel, []byte(v)})
			case 2:
				x.must(0, "return pkg:setupinfo{}")
				x.m.Info = nil
			}
		case 31: // read-only
			x.refuse("no setter", "pkg.%s = 1", pick(r, "pkgpath", "datpath", "recnum", "tagnum", "fftsize", "datasize", "nosuch"))
		default:
			x.queries()
		}
	}
	if x.opened {
		x.must(0, "pkg:finalize()")
		x.opened = false
		commit("at the end")
	}
	x.otherObject()
	// the whole script once more by the build command
	if r.P(1, 5) {
		var dir2 = c.Path("w2") + "/"
		c.Env(os.Mkdir(dir2, 0755))
		var fpath = c.Path("script.lua")
		writeFile(c, fpath, []byte(fmt.Sprintf("DIR = %s\n%s\nlocal f = io.open(DIR..\"scrdir\", \"w\") f:write(scrdir) f:close()\n", luaStr(dir2), x.script.String())))
		var arg = fpath
		if r.P(1, 2) {
			arg = strings.Replace(fpath, c.Dir(), "${WORK}", 1)
		}
		if r.P(1, 2) {
			var out = (&binRun{name: "build", args: []string{arg}, env: []string{"WORK=" + c.Dir()}}).run(c)
			if b, _ := os.ReadFile(dir2 + "scrdir"); string(b) != c.Dir() {
				c.Fail("build does not complete the script, scrdir is %q: %s", b, tail(out, 1000))
			}
		} else if err := lw.RunLuaVM(fpath); err != nil {
			c.Fail("RunLuaVM: %v", err)
		} else if b, _ := os.ReadFile(dir2 + "scrdir"); string(b) != c.Dir() {
			c.Fail("scrdir is %q", b)
		}
		x.lvm.c.Ev("scripts repeated", 1)
		x.disk(dir2, "script run as a whole")
	}
	if r.P(1, 20) {
		var fpath = c.Path("bad.lua")
		writeFile(c, fpath, []byte(pick(r, "error('stop')", "local x = ", "wpk.new():load(\"/nonexistent\")", "nosuch()")))
		if err := lw.RunLuaVM(fpath); err == nil {
			c.Fail("RunLuaVM of a failing script gives no error")
		}
		if err := lw.RunLuaVM(c.Path("nosuch.lua")); err == nil {
			c.Fail("RunLuaVM of a missing script gives no error")
		}
	}
}

// one checks an entry by the cheap calls.
func (x *lua19) one(n string) {
	if !x.known {
		return
	}
	var e = x.m.get(n)
	x.want(lua.LBool(e != nil), "return pkg:hasfile(%s)", luaStr(n))
	if e == nil {
		x.refuse("missing", "return pkg:filesize(%s)", luaStr(n))
		return
	}
	x.want(lua.LNumber(len(e.Data)), "return pkg:filesize(%s)", luaStr(n))
	var ts, _ = x.pack("pkg").GetTagset(n)
	var raw = extraOf(rawTags(x.c, "tagset of "+quote(n), ts))
	if e.Times {
		raw = withoutTimes(raw)
	}
	if !sameTags(raw, e.Tags) {
		x.c.Fail("tags of %s are %v, want %v", quote(n), raw, e.Tags)
	}
}

// queries compares what the object tells with the model.
func (x *lua19) queries() {
	if !x.known {
		return
	}
	var c, r = x.c, x.c.R
	x.want(lua.LNumber(len(x.m.Ents)), "return pkg.tagnum")
	var sum, zero = 0, false
	var recs = map[string]bool{}
	var offs = map[uint64]bool{}
	x.pack("pkg").Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		if b, ok := getTag(rawTags(c, "tagset", ts), tOffset); ok {
			var v, _ = decUint(b)
			offs[v] = true
		}
		return true
	})
	for _, e := range x.m.Ents {
		sum += len(e.Data)
		zero = zero || len(e.Data) == 0
		recs[e.Name] = true
	}
	x.want(lua.LNumber(sum), "return pkg:sumsize()")
	if !zero {
		x.want(lua.LNumber(len(offs)), "return pkg.recnum")
	}
	// names by pattern
	var pat = pick(r, "*", "d/*", "*/*", "*.txt", "[a-c]*", "?", "none*", "d*/?", "D/*")
	var want []string
	for _, e := range x.m.Ents {
		if ok, _ := path.Match(pat, e.Name); ok {
			want = append(want, e.Name)
		}
	}
	var got []string
	for _, v := range x.must(-1, "return pkg:glob(%s)", luaStr(pat)) {
		if v.Type() != lua.LTNil || len(want) > 0 {
			got = append(got, v.String())
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(want, "\n") != strings.Join(got, "\n") {
		c.Fail("glob %q gives %s, want %s", pat, quoteAll(got), quoteAll(want))
	}
	if x.opened {
		x.want(lua.LString(c.dir+"/w/"+x.tp), "return pkg.pkgpath")
		if x.dp != "" {
			x.want(lua.LString(c.dir+"/w/"+x.dp), "return pkg.datpath")
		} else {
			x.want(lua.LNil, "return pkg.datpath")
		}
	}
	if b, ok := getTag(x.m.Info, tLabel); ok {
		x.want(lua.LString(b), "return pkg.label")
	} else {
		x.want(lua.LNil, "return pkg.label")
	}
	if len(x.m.Ents) > 0 {
		x.one(pickOf(r, x.m.Ents).Name)
	}
	var text = x.must(1, "return tostring(pkg)")[0].String()
	if !zero {
		var want = fmt.Sprintf("files: %d, aliases: %d, datasize: %d", len(offs), len(x.m.Ents)-len(offs), x.pack("pkg").DataSize())
		for _, t := range []struct {
			name string
			id   uint16
		}{{"label", tLabel}, {"link", 111}, {"version", 114}, {"author", 115}, {"comment", 116}} {
			if b, ok := getTag(x.m.Info, t.id); ok {
				want += ", " + t.name + ": " + string(b)
			}
		}
		if text != want {
			c.Fail("tostring gives %q, want %q", text, want)
		}
	}
}

// checkDisk compares what is on disk after a flush or finalization.
func (x *lua19) checkDisk(what string) {
	var c = x.c
	x.disk(c.dir+"/w/", what)
	var tb, _ = os.ReadFile(c.dir + "/w/" + x.tp)
	var datlen = int64(len(tb))
	if x.dp != "" {
		var fi, err = os.Stat(c.dir + "/w/" + x.dp)
		c.Env(err)
		datlen = fi.Size()
	}
	var rp, err = decPkg(tb, datlen, x.dp != "")
	c.NoErr(err, "%s", what)
	var fftsize = 0
	for _, e := range rp.Ents {
		fftsize += 2 + lenTags(e.Tags)
	}
	x.want(lua.LNumber(fftsize), "return pkg.fftsize")
	x.want(lua.LNumber(rp.Hdr.DatSize), "return pkg.datasize")
}

func (x *lua19) disk(dir, what string) {
	var c = x.c
	for _, tp := range []string{"a.wpk", "b.wpt"} {
		var tb, terr = os.ReadFile(dir + tp)
		var com = x.com[tp]
		if com == nil {
			if terr == nil && wpk.NewPackage().OpenStream(bytes.NewReader(tb)) == nil {
				c.Fail("%s: %s opens though it was not finalized", what, tp)
			}
			continue
		}
		c.NoErr(terr, "%s: %s", what, tp)
		var db = tb
		if tp == "b.wpt" {
			db, terr = os.ReadFile(dir + "b.wpf")
			c.NoErr(terr, "%s: %s", what, tp)
		}
		checkImage(c, what+": "+tp, tb, db, tp == "b.wpt", com)
	}
}

// otherObject loads what is committed by another Lua object.
func (x *lua19) otherObject() {
	var c = x.c
	for _, tp := range sortedKeys(x.com) {
		var com = x.com[tp]
		if com == nil {
			continue
		}
		x.must(0, "rd = wpk.new()")
		x.must(0, "rd:load(%s)", x.paths(tp == "b.wpt"))
		x.want(lua.LNumber(len(com.Ents)), "return rd.tagnum")
		var got []string
		for _, v := range x.must(-1, "local t = {rd:glob(\"*\")} for _, p in ipairs{\"*/*\", \"*/*/*\", \"*/*/*/*\"} do for _, n in ipairs{rd:glob(p)} do t[#t+1] = n end end return unpack(t)") {
			got = append(got, v.String())
		}
		var want = com.names()
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(want, "\n") != strings.Join(got, "\n") {
			c.Fail("another object lists %s, want %s", quoteAll(got), quoteAll(want))
		}
		for _, e := range com.Ents {
			x.want(lua.LNumber(len(e.Data)), "return rd:filesize(%s)", luaStr(e.Name))
			for _, t := range e.Tags {
				x.want(tagOf(t.ID).read(t.B), "return rd:gettag(%s, %d)", luaStr(e.Name), t.ID)
			}
		}
		c.Ev("read by another object", 1)
	}
}

// ---------------------------------------------------------------- C29

var env29 = map[string]string{"WPKV_A": "alpha", "WPKV_DIR": "/some/dir", "WPKV_EMPTY": "", "WPKV_ODD": "a$b%c\\d", "W1": "one"}

func setupC29(seed int64, tier string) error {
	for k, v := range env29 {
		os.Setenv(k, v)
	}
	return setupZone(seed, tier)
}

// setupZone: results should not depend on the local time zone.
func setupZone(seed int64, tier string) error {
	time.Local = time.FixedZone("loc", int(seed%24-11)*3600+1800)
	return nil
}

func (l *lvm) wants(n int, stmt string, want ...lua.LValue) {
	var v = l.must(-1, "%s", stmt)
	if len(v) != len(want) {
		l.c.Fail("%s gives %d values %v, want %v", head(stmt, 400), len(v), v, want)
	}
	for i := range v {
		if v[i].Type() != want[i].Type() || v[i].String() != want[i].String() {
			l.c.Fail("%s gives #%d %v %s, want %v %s", head(stmt, 400), i+1, v[i].Type(), quote(v[i].String()), want[i].Type(), quote(want[i].String()))
		}
	}
	l.c.Ev("calls compared", 1)
}

func runC29(c *C) {
	var r = c.R
	var l = newLvm(c)
	defer l.ls.Close()
	c.NonTrivial()
	var S = func(s string) lua.LValue { return lua.LString(s) }
	var gpath = func() string {
		var n = r.Int(6)
		var s strings.Builder
		for i := 0; i < n; i++ {
			s.WriteString(pick(r, "/", "/", "\\", ".", "..", "a", "file.txt", "dir", ".hidden", "x.tar.gz", "//", "файл", "*", "?", "[ab]", "C:", " ", "a.b", "", "\x00", "\xff"))
			if r.P(1, 2) {
				s.WriteString("/")
			}
		}
		return s.String()
	}
	var bad = func(stmt string) {
		var ok, vals, _ = l.do(stmt)
		if ok {
			c.Fail("%s raises no error and gives %v", stmt, vals)
		}
		c.Ev("calls refused", 1)
	}
	var dir = c.Dir()
	var made = false
	var files = map[string]bool{}
	var tree = func() {
		if made {
			return
		}
		made = true
		for _, n := range []string{"a.txt", "b.txt", "c.jpg", "d", "файл", "with space", ".hid", "[x]", "sub/a.txt", "sub/z", "empty/"} {
			if r.P(1, 3) {
				continue
			}
			var p = filepath.Join(dir, "t", n)
			if strings.HasSuffix(n, "/") {
				os.MkdirAll(p, 0755)
				files["empty"] = false
				continue
			}
			os.MkdirAll(filepath.Dir(p), 0755)
			writeFile(c, p, []byte("x"))
			if strings.HasPrefix(n, "sub/") {
				files["sub"] = false
			} else {
				files[n] = true
			}
		}
		os.MkdirAll(filepath.Join(dir, "t"), 0755)
	}
	for k := 0; k < 12; k++ {
		var p = gpath()
		var lp = luaStr(p)
		switch r.Int(22) {
		case 0:
			var b = string(content(r, pick(r, 0, 1, 5, 100, r.Int(300))))
			l.wants(1, fmt.Sprintf("return bin2hex(%s)", luaStr(b)), S(hex.EncodeToString([]byte(b))))
			l.wants(1, fmt.Sprintf("return hex2bin(bin2hex(%s))", luaStr(b)), S(b))
			l.wants(1, fmt.Sprintf("return hex2bin(%s)", luaStr(strings.ToUpper(hex.EncodeToString([]byte(b))))), S(b))
		case 1:
			if r.P(1, 2) { // a value of other type in place of any argument
				var f = pickOf(r, [][]string{{"log", `"x"`}, {"checkfile", `"x"`}, {"bin2hex", `"x"`}, {"hex2bin", `"00"`}, {"milli2time", "1000", `"2006"`}, {"time2milli", `"2020"`, `"2006"`},
					{"path.toslash", `"x"`}, {"path.clean", `"x"`}, {"path.volume", `"x"`}, {"path.dir", `"x"`}, {"path.base", `"x"`}, {"path.name", `"x"`}, {"path.ext", `"x"`}, {"path.split", `"x"`},
					{"path.match", `"x"`, `"x"`}, {"path.join", `"x"`, `"y"`, `"z"`}, {"path.join", `""`, `"y"`}, {"path.glob", `"x"`}, {"path.enum", `"."`, "1"}, {"path.envfmt", `"x"`}})
				var a = append([]string(nil), f[1:]...)
				var i = r.Int(len(a))
				a[i] = pick(r, "nil", "{}", "true", "false", "print", "path")
				if a[i] == "nil" && i > 0 && f[0] != "path.match" && f[0] != "path.join" {
					a[i] = "{}" // nil for an optional argument
				}
				bad(fmt.Sprintf("return %s(%s)", f[0], strings.Join(a, ", ")))
				break
			}
			bad(pick(r, `return hex2bin("a")`, `return hex2bin("xy")`, `return hex2bin("12 ")`, `return hex2bin()`, `return bin2hex()`, `return bin2hex({})`, `return hex2bin(nil)`, `return hex2bin("0x00")`, `return hex2bin("123")`,
				`return time2milli("x")`, `return time2milli("")`, `return time2milli("2020-01-01")`, `return time2milli()`, `return milli2time()`, `return milli2time("x")`, `return milli2time({})`, `return time2milli("2020-13-01T00:00:00.000Z")`,
				`return time2milli("2020-01-01T00:00:00.000Z", "02 Jan 06 15:04 MST")`, `return checkfile()`, `return checkfile({})`, `return log()`, `return log({})`,
				`return path.clean()`, `return path.dir()`, `return path.base({})`, `return path.name()`, `return path.ext()`, `return path.split()`, `return path.toslash()`, `return path.volume()`, `return path.match("a")`, `return path.match("a", "[")`, `return path.match("abc", "a[")`, `return path.match("a", "\\")`, `return path.glob("[")`, `return path.glob()`,
				`return path.enum()`, `return path.enum("/nonexistent/dir")`, `return path.envfmt()`, `return path.envfmt({})`, `return path.join("a", {})`, `return path.join({})`, `return path.enum("/nonexistent/dir", 1)`))
		case 2:
			var t = genTime(r)
			if r.P(1, 3) { // any year of four digits
				t = time.UnixMilli((-62135510400+int64(r.U64()%(253402214400+62135510400)))*1000 + int64(r.Int(1000))).UTC()
			}
			var ms = t.UnixMilli()
			var v = l.must(1, "return milli2time(%d)", ms)
			var back, err = time.Parse(time.RFC3339Nano, v[0].String())
			if err != nil || back.UnixMilli() != ms {
				c.Fail("milli2time(%d) gives %s: %v", ms, v[0], err)
			}
			if v[0].String() != back.Format(iso) {
				c.Fail("milli2time(%d) gives %s, not in the default layout", ms, v[0])
			}
			l.wants(1, fmt.Sprintf("return time2milli(milli2time(%d))", ms), lua.LNumber(ms))
			var loc = time.FixedZone("", 60*(r.Int(26*60)-12*60))
			l.wants(1, fmt.Sprintf("return time2milli(%s)", luaStr(t.In(loc).Format(iso))), lua.LNumber(ms))
			c.Ev("calls compared", 1)
		case 3:
			var t = genTime(r)
			var layout = pick(r, time.ANSIC, time.RFC822Z, time.RFC1123Z, time.RFC3339Nano, "2006-01-02", "15:04:05.000 02.01.2006 -0700", "Jan _2", "")
			var v = l.must(1, "return milli2time(%d, %s)", t.UnixMilli(), luaStr(layout))
			var m = time.UnixMilli(t.UnixMilli())
			if v[0].String() != m.Format(layout) && v[0].String() != m.UTC().Format(layout) {
				c.Fail("milli2time(%d, %q) gives %q, want %q", t.UnixMilli(), layout, v[0].String(), m.Format(layout))
			}
			c.Ev("calls compared", 1)
			var s = t.UTC().Format(layout)
			if w, err := time.Parse(layout, s); err == nil {
				l.wants(1, fmt.Sprintf("return time2milli(%s, %s)", luaStr(s), luaStr(layout)), lua.LNumber(w.UnixMilli()))
			}
		case 4, 5:
			tree()
			l.wants(2, fmt.Sprintf("return checkfile(%s)", luaStr(dir+"/t")), lua.LTrue, lua.LFalse)
			for n, isfile := range files {
				l.wants(2, fmt.Sprintf("return checkfile(%s)", luaStr(dir+"/t/"+n)), lua.LTrue, lua.LBool(isfile))
				var v = l.must(-1, "return checkfile(%s)", luaStr(dir+"/t/"+n+"/none"))
				if len(v) < 1 || v[0] != lua.LFalse || len(v) > 1 && v[1].Type() != lua.LTString && v[1].Type() != lua.LTNil {
					c.Fail("checkfile of a missing file gives %v", v)
				}
			}
			// links are what they lead to
			var lnk = dir + "/lnk" + fmt.Sprint(r.Int(1<<30))
			if os.Symlink(dir+"/t", lnk) == nil {
				l.wants(2, fmt.Sprintf("return checkfile(%s)", luaStr(lnk)), lua.LTrue, lua.LFalse)
				os.Remove(lnk)
			}
			if os.Symlink(dir+"/none", lnk) == nil {
				var v = l.must(-1, "return checkfile(%s)", luaStr(lnk))
				if len(v) < 1 || v[0] != lua.LFalse {
					c.Fail("checkfile of a link to nothing gives %v", v)
				}
				os.Remove(lnk)
			}
		case 6:
			l.wants(1, "return path.toslash("+lp+")", S(strings.ReplaceAll(p, `\`, "/")))
		case 7:
			l.wants(1, "return path.clean("+lp+")", S(path.Clean(p)))
		case 8:
			l.wants(1, "return path.volume("+lp+")", S(""))
		case 9:
			l.wants(1, "return path.dir("+lp+")", S(path.Dir(p)))
		case 10:
			l.wants(1, "return path.base("+lp+")", S(path.Base(p)))
		case 11:
			l.wants(1, "return path.name("+lp+")", S(refName(p)))
		case 12:
			l.wants(1, "return path.ext("+lp+")", S(path.Ext(p)))
		case 13:
			var i = strings.LastIndexByte(p, '/') + 1
			l.wants(2, "return path.split("+lp+")", S(p[:i]), S(p[i:]))
		case 14, 15:
			var pat = gpath()
			if r.P(1, 2) {
				pat = strings.ReplaceAll(p, pick(r, "a", "e", "i", "t"), pick(r, "*", "?", "[a-z]", "[^a]"))
			}
			var ok, err = path.Match(pat, p)
			if err != nil {
				bad(fmt.Sprintf("return path.match(%s, %s)", lp, luaStr(pat)))
			} else {
				l.wants(1, fmt.Sprintf("return path.match(%s, %s)", lp, luaStr(pat)), lua.LBool(ok))
			}
		case 16:
			var args, el []string
			for n := r.Int(5); n > 0; n-- {
				var s = gpath()
				args = append(args, luaStr(s))
				el = append(el, s)
			}
			l.wants(1, fmt.Sprintf("return path.join(%s)", strings.Join(args, ", ")), S(path.Join(el...)))
		case 17:
			tree()
			var pat = dir + "/t/" + pick(r, "*", "*.txt", "?", "sub/*", "*/*", "none*", "a.txt", "[ab].txt", "*a*")
			var m, _ = filepath.Glob(pat)
			var got []string
			for _, v := range l.must(-1, "return path.glob(%s)", luaStr(pat)) {
				got = append(got, v.String())
			}
			if len(m) == 0 && len(got) == 1 && got[0] == "nil" {
				got = nil
			}
			sort.Strings(got)
			sort.Strings(m)
			if strings.Join(got, "\n") != strings.Join(m, "\n") {
				c.Fail("path.glob(%q) gives %s, want %s", pat, quoteAll(got), quoteAll(m))
			}
			c.Ev("calls compared", 1)
		case 18, 19:
			tree()
			var d = dir + "/t"
			if _, ok := files["empty"]; ok && r.P(1, 3) {
				d += "/empty"
			} else if _, ok := files["sub"]; ok && r.P(1, 3) {
				d += "/sub"
			}
			var l0, err = os.ReadDir(d)
			c.Env(err)
			var want = map[string]bool{}
			for _, de := range l0 {
				want[de.Name()] = true
			}
			var lim = pick(r, "", ", -1", ", 0", ", -5", ", 1", ", 2", ", 3", ", 100")
			var max = len(want)
			if n, err := strconv.Atoi(strings.TrimPrefix(lim, ", ")); err == nil && n > 0 {
				max = min(max, n)
			}
			var v = l.must(1, "return path.enum(%s%s)", luaStr(pick(r, d, d+"/")), lim)
			var tb, ok = v[0].(*lua.LTable)
			if !ok || tb.Len() != max {
				c.Fail("path.enum(%q%s) gives %v, want %d names of %v", d, lim, v[0], max, want)
			}
			var seen = map[string]bool{}
			for i := 1; i <= max; i++ {
				var n = tb.RawGetInt(i).String()
				if !want[n] || seen[n] {
					c.Fail("path.enum(%q%s) has %q", d, lim, n)
				}
				seen[n] = true
			}
			var cnt = 0
			tb.ForEach(func(k, v lua.LValue) { cnt++ })
			if cnt != max {
				c.Fail("path.enum(%q%s) has %d values, want %d", d, lim, cnt, max)
			}
			c.Ev("calls compared", 1)
		case 20:
			var b strings.Builder
			for n := r.Int(6); n > 0; n-- {
				b.WriteString(pick(r, "$WPKV_A", "${WPKV_DIR}", "%WPKV_A%", "$WPKV_EMPTY", "${WPKV_NONE}", "%WPKV_NONE%", "$", "%", "{", "}", "/", "text", "файл", "$W1", "%W1%", "${W1", "${}", "%%", "$1", "x%W1", "${WPKV_ODD}"))
			}
			var s = b.String()
			var look = func(k string) (string, bool) { return os.LookupEnv(k) }
			var v = l.must(1, "return path.envfmt(%s)", luaStr(s))
			if g := v[0].String(); g != refEnv(s, look, false) && g != refEnv(s, look, true) {
				c.Fail("path.envfmt(%q) gives %q, want %q", s, g, refEnv(s, look, false))
			}
			c.Ev("calls compared", 1)
		case 21:
			l.wants(1, "return path.sep", S("/"))
			l.wants(1, "return tmpdir", S(os.TempDir()))
			var exe, _ = os.Executable()
			l.wants(1, "return bindir", S(path.Dir(exe)))
			l.wants(2, "return type(buildvers), type(buildtime)", S("string"), S("string"))
			l.wants(0, fmt.Sprintf("log(%s)", lp))
		}
	}
}

var _ = syscall.Getpid

// dirBytes gives all that is in the files of a directory.
func dirBytes(c *C, dir string) string {
	var l, err = os.ReadDir(dir)
	c.Env(err)
	var b strings.Builder
	for _, de := range l {
		var d, _ = os.ReadFile(dir + de.Name())
		fmt.Fprintf(&b, "%q %d %s\n", de.Name(), len(d), d)
	}
	return b.String()
}
