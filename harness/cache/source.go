package main

import (
	"fmt"
	"io"
	"sync"
	"time"

	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

// source is an object whose reads are counted, can fail and can be held.
type source struct {
	id   int
	url  string
	unit int64
	size int64

	mu      sync.Mutex
	bad     map[int64]bool // bytes / unit
	reads   int
	offs    []int64
	perCell map[int64]int
	closed  bool
	cut     bool // what is bad is missing: the source ends there
	gate    *gate
}

func newSource(id int, cells, unit int64) *source {
	return &source{id: id, url: fmt.Sprintf("src:%d", id), unit: unit, size: cells * unit, bad: map[int64]bool{}, perCell: map[int64]int{}}
}

func (s *source) URL() string                { return s.url }
func (s *source) Size() int64                { return s.size }
func (s *source) Close() error               { s.closed = true; return nil }
func (s *source) Read(p []byte) (int, error) { return 0, fmt.Errorf("sequential read of the source") }
func (s *source) Seek(off int64, whence int) (int64, error) {
	return 0, fmt.Errorf("seek of the source")
}

func (s *source) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, fmt.Errorf("source: negative offset %d", off)
	}
	cell := off / s.unit
	s.mu.Lock()
	s.reads++
	s.offs = append(s.offs, off)
	s.perCell[cell]++
	g := s.gate
	s.mu.Unlock()
	if g != nil {
		if err := g.wait(s.id, cell); err != nil {
			return 0, err
		}
	}
	if off >= s.size {
		return 0, io.EOF
	}
	n := int64(len(p))
	var err error
	if off+n > s.size {
		n = s.size - off
		err = io.EOF
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	for i := int64(0); i < n; i++ {
		if s.bad[(off+i)/s.unit] {
			n = i
			err = vh.ErrInjected
			if s.cut {
				err = io.EOF
			}
			// what was not read is left with rubbish in it
			for j := n; j < int64(len(p)); j++ {
				p[j] = 0xEE
			}
			break
		}
	}
	vh.FillPattern(p[:n], s.id, off)
	return int(n), err
}

func (s *source) count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.reads
}

// gate holds reads of the source until they are let go.
type gate struct {
	mu      sync.Mutex
	cond    *sync.Cond
	waiting map[[2]int64][]chan error
	open    bool
	worst   map[[2]int64]int // most reads of a block at once
	ok      map[[2]int64]int
	failed  map[[2]int64]int
	done    int
}

func newGate() *gate {
	g := &gate{waiting: map[[2]int64][]chan error{}, worst: map[[2]int64]int{}, ok: map[[2]int64]int{}, failed: map[[2]int64]int{}}
	g.cond = sync.NewCond(&g.mu)
	return g
}

func (g *gate) wait(id int, cell int64) error {
	k := [2]int64{int64(id), cell}
	g.mu.Lock()
	if g.open {
		g.ok[k]++
		g.mu.Unlock()
		return nil
	}
	ch := make(chan error, 1)
	g.waiting[k] = append(g.waiting[k], ch)
	if n := len(g.waiting[k]); n > g.worst[k] {
		g.worst[k] = n
	}
	g.cond.Broadcast()
	g.mu.Unlock()
	return <-ch
}

// release lets one read of the block go, waiting a while for it to come.
func (g *gate) release(k [2]int64, err error, patience time.Duration) bool {
	deadline := time.Now().Add(patience)
	for {
		g.mu.Lock()
		if l := g.waiting[k]; len(l) > 0 {
			ch := l[0]
			g.waiting[k] = l[1:]
			if err == nil {
				g.ok[k]++
			} else {
				g.failed[k]++
			}
			g.mu.Unlock()
			ch <- err
			return true
		}
		g.mu.Unlock()
		if time.Now().After(deadline) {
			return false
		}
		time.Sleep(100 * time.Microsecond)
	}
}

func (g *gate) openAll() {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.open = true
	for k, l := range g.waiting {
		for _, ch := range l {
			g.ok[k]++
			ch <- nil
		}
		delete(g.waiting, k)
	}
}

// resized is the object that replaces s, with the same beginning.
func (s *source) resized(cells int64) *source {
	t := newSource(s.id, cells, s.unit)
	t.url = s.url
	t.cut = s.cut
	s.mu.Lock()
	defer s.mu.Unlock()
	for c := range s.bad {
		t.bad[c] = true
	}
	return t
}
