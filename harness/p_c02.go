// C02: histories. C03, C04: crash images.
package main

import (
	"bytes"
	"fmt"

	"github.com/schwarzlichtbezirk/wpk"
)

func init() {
	register(&Prop{
		ID: "C02", Level: "exploration", Quick: 160000, Thorough: 1600000,
		Rule:  "each case runs 1..6 sessions (Begin, Append, flush, finalize, reopen by a new or the same object, abandon) with random edits (put, alias, rename, rename of directories, delete, tags, info, and calls that must fail) on a model and on the library at once; after every flush the image is read by the library and by the independent decoder and compared with the model, and a monitor checks in the log of stream writes that committed content is never overwritten; non-trivial with two flushes and five edits",
		MinEv: map[string]int64{"images checked": 1000, "committed bytes guarded": 1000},
		Run:   runC02,
	})
	register(&Prop{
		ID: "C03", Level: "fault_enumeration", Quick: 60000, Thorough: 600000,
		Rule:   "each case runs a random history on a split package with all writes recorded, and then for every write of the history opens the image of both files as left by a stop before it, after it, and (table and data) at up to 6 places inside it; every image has to show exactly the last committed state or, during a flush, the new one; non-trivial with two flushes",
		Assume: []string{"a write call of at most 64 bytes at the start of the tags file (the header, its signature) is not torn", "writes reach the file in program order (stop of the process, not loss of the disk cache)"},
		MinEv:  map[string]int64{"crash images opened": 1000},
		Run:    func(c *C) { runCrash(c, true) },
	})
	register(&Prop{
		ID: "C04", Level: "fault_enumeration", Quick: 80000, Thorough: 800000,
		Rule:   "each case runs a random history on a single-file package with all writes recorded, and then for every write of the history opens the image as left by a stop before it, after it, and at up to 6 places inside it; from begin or append up to the end of finalization the image has to be rejected, at all other times it has to show exactly the committed state; non-trivial with two finalizations",
		Assume: []string{"the write call which stores the final header of 64 bytes is not torn", "writes reach the file in program order"},
		MinEv:  map[string]int64{"crash images opened": 1000, "rejected images": 500},
		Run:    func(c *C) { runCrash(c, false) },
	})
}

func runC02(c *C) {
	var r = c.R
	var h = newHist(c, r.P(1, 2))
	h.run(r.Range(1, 6))
	// monitor over the log of writes: committed content is never touched
	var guarded uint64 // end of the committed data
	var base uint64
	var dstream = 1
	if !h.s.split {
		base, dstream = hdrLen, 0
	}
	var mirror = &MemFile{}
	for _, sp := range h.spans {
		for _, op := range h.s.l.Ops[sp.from:sp.to] {
			if op.F != dstream {
				continue
			}
			if sp.what != "Begin" {
				var a, b = uint64(op.Off), uint64(op.Off) + uint64(len(op.B))
				if a < guarded && b > base && !(dstream == 0 && b <= hdrLen) {
					// harmless only if it writes the same bytes
					var lo, hi = max(a, base), min(b, guarded)
					if hi > uint64(len(mirror.B)) || !bytes.Equal(mirror.B[lo:hi], op.B[lo-a:hi-a]) {
						c.Fail("%s writes %d bytes at %d over the committed content up to %d", sp.what, len(op.B), op.Off, guarded)
					}
				}
			}
			mirror.writeAt(op.B, op.Off)
		}
		switch sp.what {
		case "Begin":
			guarded = 0
		case "Sync":
			var end = base
			if sp.new != nil {
				for _, e := range sp.new.Ents { // end of the live content
					if i := bytes.Index(mirror.B[min(base, uint64(len(mirror.B))):], e.Data); i >= 0 && len(e.Data) > 0 {
						end = max(end, base+uint64(i)+uint64(len(e.Data)))
					}
				}
			}
			guarded = end
			c.Ev("committed bytes guarded", int(end-base))
		}
	}
	c.Ev("edits", h.nedit)
	c.Ev("refused edits", h.nerr)
	if h.ncommit >= 2 && h.nedit >= 5 {
		c.NonTrivial()
	}
}

// openImage opens a crash image; nil model means rejected.
func openImage(c *C, what string, tags, dat []byte) (l []*Ent, info []MTag, err error) {
	var pkg = wpk.NewPackage()
	if err = pkg.OpenStream(bytes.NewReader(tags)); err != nil {
		return
	}
	l = enumView(c, what, pkg, dat)
	info = rawTags(c, what, pkg.GetInfo())
	return
}

func runCrash(c *C, split bool) {
	var r = c.R
	var h = newHist(c, split)
	h.strict = false
	h.small = r.P(3, 4)
	h.run(r.Range(1, 5))
	if h.ncommit >= 2 {
		c.NonTrivial()
	}
	replay(c, h, split)
}

// replay opens the images left by a stop at any write of the history.
func replay(c *C, h *hist, split bool) {
	var r = c.R
	var t, d = &MemFile{}, &MemFile{}
	var imgs, rejected = 0, 0
	var look = func(what string, tags, dat []byte, allowed []*Model) {
		imgs++
		var dd = dat
		if !split {
			dd = tags
		}
		var l, info, err = openImage(c, what, tags, dd)
		var why []string
		for _, m := range allowed {
			if m == nil { // must be rejected
				if err != nil {
					rejected++
					if _, _, ierr := wpk.GetPackageInfo(bytes.NewReader(tags)); ierr == nil {
						c.Fail("%s: rejected on opening (%v) but accepted by the info query", what, err)
					}
					return
				}
				why = append(why, "opens, has to be rejected")
				continue
			}
			if err != nil {
				why = append(why, fmt.Sprintf("does not open: %v", err))
				continue
			}
			var x = m.diff(l, info, true)
			if x == "" {
				return
			}
			why = append(why, x)
		}
		c.Fail("%s: %v", what, why)
	}
	for si, sp := range h.spans {
		var allowed = []*Model{sp.old}
		if sp.what == "Begin" || sp.what == "Append" || sp.what == "Sync" {
			allowed = append(allowed, sp.new)
		}
		var first = si == 0 && split // there is nothing before the first Begin
		// of a call with a lot of small writes some are taken from the middle
		var every = max(1, (sp.to-sp.from)/48)
		for i := sp.from; i < sp.to; i++ {
			var op = h.s.l.Ops[i]
			var f = t
			if op.F == 1 {
				f = d
			}
			if i >= sp.from+8 && i < sp.to-8 && every > 1 && r.Int(every) > 0 {
				f.writeAt(op.B, op.Off)
				continue
			}
			if !first {
				look(fmt.Sprintf("stop in %s #%d before write %d of stream %d at %d", sp.what, si, i, op.F, op.Off), t.B, d.B, allowed)
			}
			// part of the write
			var header = op.F == 0 && op.Off == 0 && len(op.B) <= hdrLen
			if !(header && (split || sp.what == "Sync")) && !first {
				var cuts = map[int]bool{1: true, len(op.B) / 2: true, len(op.B) - 1: true}
				for k := 0; k < 3; k++ {
					cuts[r.Int(len(op.B)+1)] = true
				}
				for n := range cuts {
					if n <= 0 || n >= len(op.B) {
						continue
					}
					var torn = &MemFile{B: append([]byte(nil), f.B...)}
					torn.writeAt(op.B[:n], op.Off)
					var tb, db = torn.B, d.B
					if op.F == 1 {
						tb, db = t.B, torn.B
					}
					look(fmt.Sprintf("stop in %s #%d after %d of %d bytes of write %d of stream %d at %d", sp.what, si, n, len(op.B), i, op.F, op.Off), tb, db, allowed)
				}
			}
			f.writeAt(op.B, op.Off)
			if i < sp.to-1 && !first {
				look(fmt.Sprintf("stop in %s #%d after write %d of stream %d at %d", sp.what, si, i, op.F, op.Off), t.B, d.B, allowed)
			}
		}
		// after the call returned
		look(fmt.Sprintf("stop after %s #%d returned", sp.what, si), t.B, d.B, []*Model{sp.new})
	}
	c.Ev("crash images opened", imgs)
	c.Ev("rejected images", rejected)
	c.Ev("writes", len(h.s.l.Ops))
}
