// Generators of names, contents and tags.
package main

import (
	"encoding/binary"
	"fmt"
	"strings"
)

var segs = []string{"a", "b", "c", "ab", "abc", "img", "img1", "img2", "dir", "Dir", "DIR", "x.txt", "y.jpg", "index.html",
	"файл", "Qarataşlar.jpg", "with space", "a.b", "a-b", "a.b.c", "...x", ".hidden", "t~1", "e%20f", "c:d", "z", "0", "00",
	"end ", " lead", "dot.", "...", "..a", "a  b", "#1", "q?", "x.TXT", "[x]", "*", "e\u0301", "\u00e9", "a;b&c=d", "'q\"", "tab\tx", "-", "+"}

// fsName gives a valid io/fs path (no conflicts are guaranteed).
func fsName(r *Rng) string {
	var n = pick(r, 1, 1, 2, 2, 3, 4)
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, pickOf(r, segs))
	}
	return strings.Join(l, "/")
}

// fsNames gives n distinct names such that no name is a directory of another.
func fsNames(r *Rng, n int) (l []string) {
	var files, dirs = map[string]bool{}, map[string]bool{}
	for try := 0; len(l) < n && try < n*20; try++ {
		var s = fsName(r)
		if len(l) > 0 && r.P(1, 3) { // neighbour of an existing one
			var b = pickOf(r, l)
			if i := strings.LastIndexByte(b, '/'); i > 0 && r.P(2, 3) {
				s = b[:i] + "/" + pickOf(r, segs)
			} else {
				s = b + pick(r, "1", "0", "x", ".bak")
			}
		}
		if files[s] || dirs[s] {
			continue
		}
		var bad = false
		for i := range s {
			if s[i] == '/' && files[s[:i]] {
				bad = true
			}
		}
		if bad {
			continue
		}
		files[s] = true
		for i := range s {
			if s[i] == '/' {
				dirs[s[:i]] = true
			}
		}
		l = append(l, s)
	}
	return
}

var oddNames = []string{"", ".", "..", "/", "//", "/a", "a/", "a//b", "./a", "../a", "a/../b", "@pack", "@pack/0", "a\x00b", "\xff\xfe", "\u202e", "%PATH%",
	"$HOME", "a*b", "[a]", "?", "CON", "nul", "a:b", "a\nb", "\t", " ", "a ", "~"}

// anyName gives any name without backslashes.
func anyName(r *Rng) string {
	switch r.Int(8) {
	case 0:
		return pickOf(r, oddNames)
	case 1:
		var b = make([]byte, r.Range(1, 40))
		for i := range b {
			b[i] = byte(r.U64())
			if b[i] == '\\' {
				b[i] = '/'
			}
		}
		return string(b)
	case 2:
		return strings.Repeat(pick(r, "n", "long/", "д"), r.Range(1, pick(r, 10, 300, 300, 3000))) + fmt.Sprint(r.Int(10))
	}
	return fsName(r)
}

// anyNames gives n distinct names.
func anyNames(r *Rng, n int) (l []string) {
	var seen = map[string]bool{}
	for try := 0; len(l) < n && try < n*20; try++ {
		var s = anyName(r)
		if !seen[s] {
			seen[s] = true
			l = append(l, s)
		}
	}
	return
}

// backslash replaces some slashes.
func backslash(r *Rng, s string) string {
	var b = []byte(s)
	for i := range b {
		if b[i] == '/' && r.P(1, 2) {
			b[i] = '\\'
		}
	}
	return string(b)
}

var sizes = []int{0, 0, 1, 2, 3, 7, 16, 100, 255, 256, 257, 1000, 4095, 4096, 4097}
var bigSizes = []int{8191, 8192, 32768, 65535, 65536, 65537, 70000, 131072, 200000}

func genSize(r *Rng) int {
	switch r.Int(10) {
	case 0, 1, 2, 3, 4, 5:
		return pickOf(r, sizes)
	case 6, 7, 8:
		return r.Int(600)
	}
	if r.P(1, 4) {
		return pickOf(r, bigSizes)
	}
	return r.Int(5000)
}

// content gives bytes which are different for every call in all positions with high probability.
func content(r *Rng, n int) []byte {
	var b = make([]byte, n+8)
	switch r.Int(8) {
	case 0:
		var x = byte(r.U64())
		for i := range b {
			b[i] = x
		}
	default:
		var k = Rng{r.U64()}
		for i := 0; i < n; i += 8 {
			binary.LittleEndian.PutUint64(b[i:], k.U64())
		}
	}
	return b[:n:n]
}

var extraIDs = []uint16{4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 20, 21, 23, 25, 100, 110, 111, 112, 115, 116, 200, 1000, 32767, 65535, 0}

// extraTags gives distinct tags besides offset, size and path.
func extraTags(r *Rng, max int) (l []MTag) {
	var n = r.Int(max + 1)
	var seen = map[uint16]bool{}
	for i := 0; i < n; i++ {
		var id = pickOf(r, extraIDs)
		if r.P(1, 6) {
			id = uint16(r.U64())
		}
		if id >= tOffset && id <= tPath || seen[id] {
			continue
		}
		seen[id] = true
		l = append(l, MTag{id, content(r, tagSize(r))})
	}
	return
}

func tagSize(r *Rng) int {
	return pick(r, 0, 1, 2, 4, 8, 12, 16, 20, 32, r.Int(64), r.Int(300), r.Int(pick(r, 64, 64, 64, 5000)))
}

func cut(b []byte) string { return hexShort(b) }
