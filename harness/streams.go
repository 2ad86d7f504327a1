// In-memory streams which record, tear and fail on request.
package main

import (
	"errors"
	"io"
	"os"
)

var errInjected = errors.New("injected fault")

// WOp is one recorded mutation of a stream.
type WOp struct {
	F   int // stream number
	Off int64
	B   []byte
}

// Log is a global order of the writes over several streams, with marks put between them.
type Log struct {
	Ops   []WOp
	Marks []Mark
}

// Mark notes that after len(Ops) writes something was committed or promised.
type Mark struct {
	At   int
	What string
	I    int
}

// MemFile is a sparse-free file in memory with WriteSeekCloser and ReadSeeker interfaces.
type MemFile struct {
	B   []byte
	Pos int64
	N   int // stream number in the log
	L   *Log
	// fault injection: the operation with this index fails (counted over read, write, seek), -1 for none
	F *Faults
	// limits the bytes returned by one Read; 0 for no limit
	Chunk func() int
	// mirror on disk
	D *os.File
}

// Faults counts stream operations over several streams and fails one of them.
type Faults struct {
	N      int
	FailAt int
	Mode   int // 0: nothing done, 1: write a part and fail
	Hit    bool
	What   string
}

func (f *Faults) step(what string) bool {
	if f == nil {
		return false
	}
	f.N++
	if f.N-1 == f.FailAt {
		f.Hit, f.What = true, what
		return true
	}
	return false
}

func (m *MemFile) writeAt(p []byte, off int64) {
	var end = off + int64(len(p))
	if end > int64(len(m.B)) {
		if end > int64(cap(m.B)) {
			var nb = make([]byte, end, end*2+64)
			copy(nb, m.B)
			m.B = nb
		} else {
			var old = len(m.B)
			m.B = m.B[:end]
			for i := old; i < int(end); i++ {
				m.B[i] = 0
			}
		}
	}
	copy(m.B[off:], p)
	if m.D != nil {
		if _, err := m.D.WriteAt(p, off); err != nil {
			panic(skipcase{err.Error()})
		}
	}
}

func (m *MemFile) Write(p []byte) (n int, err error) {
	if m.F.step("write") {
		if m.F.Mode == 1 && len(p) > 1 {
			n = len(p) / 2
			m.writeAt(p[:n], m.Pos)
			m.Pos += int64(n)
		}
		return n, errInjected
	}
	if m.L != nil {
		m.L.Ops = append(m.L.Ops, WOp{m.N, m.Pos, append([]byte(nil), p...)})
	}
	m.writeAt(p, m.Pos)
	m.Pos += int64(len(p))
	return len(p), nil
}

func (m *MemFile) Read(p []byte) (n int, err error) {
	if m.F.step("read") {
		return 0, errInjected
	}
	if m.Pos >= int64(len(m.B)) {
		return 0, io.EOF
	}
	if m.Chunk != nil {
		if k := m.Chunk(); k > 0 && k < len(p) {
			p = p[:k]
		}
	}
	n = copy(p, m.B[m.Pos:])
	m.Pos += int64(n)
	return
}

func (m *MemFile) Seek(off int64, whence int) (int64, error) {
	if m.F.step("seek") {
		return 0, errInjected
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += m.Pos
	case io.SeekEnd:
		off += int64(len(m.B))
	default:
		return 0, errors.New("bad whence")
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	m.Pos = off
	return off, nil
}

func (m *MemFile) Close() error { return nil }

// chunkReader returns data in pieces given by a generator; legal io.Reader behaviours only.
type chunkReader struct {
	b       []byte
	next    func() int
	dataEOF bool  // return EOF together with the last bytes
	fail    int   // fail after that many bytes, -1 never
	failErr error // error to fail with
	calls   int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	r.calls++
	if len(p) == 0 {
		return 0, nil
	}
	if r.fail == 0 {
		return 0, r.failErr
	}
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	var n = len(p)
	if r.next != nil {
		if k := r.next(); k < n {
			n = k
		}
	}
	if n < 0 {
		n = 0
	}
	if n > len(r.b) {
		n = len(r.b)
	}
	if r.fail > 0 && n > r.fail {
		n = r.fail
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	if r.fail > 0 {
		r.fail -= n
	}
	if len(r.b) == 0 && r.dataEOF && r.fail != 0 {
		return n, io.EOF
	}
	return n, nil
}
