package main

// Readers that deliver in pieces, and readers and writers that fail.

import (
	"errors"
	"io"
	"os"
	"strings"
)

var errInjected = errors.New("injected failure")

// ioPlan says how sources are read and the dictionary is written by buildSystem
// and buildUser. Nil: plainly.
type ioPlan struct {
	r                   *Rng
	lexFail, matFail    int // after so many bytes, or -1
	writeFail, seekFail int // after so many bytes or calls, or -1
	recover             bool
	written, seeks      int
	hit                 string // what failed
}

var buildIO *ioPlan

// planPieces reads in pieces, without failures.
func planPieces(r *Rng) *ioPlan {
	return &ioPlan{r: r, lexFail: -1, matFail: -1, writeFail: -1, seekFail: -1}
}

func (p *ioPlan) reader(s string, failAt int, what string) io.Reader {
	if p == nil {
		return strings.NewReader(s)
	}
	return &pieceReader{b: []byte(s), r: p.r, failAt: failAt, hit: func() { p.hit = what }, eof: p.r.P(50), small: p.r.P(30), once: p.recover}
}

func (p *ioPlan) lexReader(s string) io.Reader {
	if p == nil {
		return strings.NewReader(s)
	}
	return p.reader(s, p.lexFail, "reading the lexicon")
}

func (p *ioPlan) matReader(s string) io.Reader {
	if p == nil {
		return strings.NewReader(s)
	}
	return p.reader(s, p.matFail, "reading the matrix")
}

func (p *ioPlan) writer(f *os.File) io.WriteSeeker {
	if p == nil || p.writeFail < 0 && p.seekFail < 0 {
		return f
	}
	return &faultWriter{f, p}
}

// pieceReader delivers in pieces, the end of file perhaps along with the last of
// them, and fails after failAt bytes if that is not negative.
type pieceReader struct {
	b          []byte
	r          *Rng
	failAt     int
	pos        int
	eof, small bool
	once       bool // goes on after the failure
	failed     bool
	hit        func()
}

func (r *pieceReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n := r.r.Range(1, 1+r.r.Pick0(1, 20, 600, 5000))
	if r.small {
		n = r.r.Range(1, 3)
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.b)-r.pos {
		n = len(r.b) - r.pos
	}
	if r.failAt >= 0 && r.pos+n >= r.failAt && !(r.once && r.failed) {
		if n = r.failAt - r.pos; n < 0 {
			n = 0
		}
		copy(p, r.b[r.pos:r.pos+n])
		r.pos += n
		r.failed = true
		r.hit()
		return n, errInjected
	}
	copy(p, r.b[r.pos:r.pos+n])
	r.pos += n
	if r.pos == len(r.b) && (n == 0 || r.eof) {
		return n, io.EOF
	}
	return n, nil
}

type faultWriter struct {
	f *os.File
	p *ioPlan
}

func (w *faultWriter) Write(b []byte) (int, error) {
	p := w.p
	if p.writeFail >= 0 && p.written+len(b) > p.writeFail && (p.hit == "" || !p.recover) {
		n := p.writeFail - p.written
		if n < 0 {
			n = 0
		}
		n, _ = w.f.Write(b[:n])
		p.written += n
		p.hit = "writing"
		return n, errInjected
	}
	n, err := w.f.Write(b)
	p.written += n
	return n, err
}

func (w *faultWriter) Seek(o int64, whence int) (int64, error) {
	p := w.p
	if p.seekFail >= 0 {
		p.seeks++
		if p.seeks > p.seekFail && (p.hit == "" || !p.recover) {
			p.hit = "seeking"
			return 0, errInjected
		}
	}
	return w.f.Seek(o, whence)
}
