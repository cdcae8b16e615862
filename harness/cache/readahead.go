package main

import (
	"bytes"
	"fmt"
	"io"
	"sort"
	"sync"
	"time"

	"golang.org/x/sync/semaphore"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/storage"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

type raCase struct {
	Ops    [][3]int64 `json:"ops"`
	Objs   int        `json:"objs"`
	Size   int64      `json:"size"`
	B      int64      `json:"b"`
	Window int        `json:"window"`
	Tokens int64      `json:"tokens"`
}

type raEvent struct {
	E   string  `json:"e"`
	O   int     `json:"o"`
	Off int64   `json:"off"`
	N   int64   `json:"n"`
	S   []int64 `json:"s"`
	K   int64   `json:"k"`
}

// raSlicer notes and holds read-aheads.
type raSlicer struct {
	bsize   int64
	mu      sync.Mutex
	flight  []*raSlice
	most    int
	unread  int
	holding bool
}

func (s *raSlicer) Bsize() int64 { return s.bsize }
func (s *raSlicer) Slice(obj storage.Object, off int64) caching.Slice {
	return &raSlice{s: s, src: obj.(*source), off: off, gate: make(chan struct{})}
}

type raSlice struct {
	s    *raSlicer
	src  *source
	off  int64
	gate chan struct{}
}

func (r *raSlice) ReadAhead() {
	r.s.mu.Lock()
	r.s.flight = append(r.s.flight, r)
	r.s.unread++
	n := len(r.s.flight)
	if n > r.s.most {
		r.s.most = n
	}
	hold := r.s.holding
	r.s.mu.Unlock()
	if hold {
		<-r.gate
	}
	if r.src.id == 2 {
		// as a failing source would
	}
}
func (r *raSlice) Close() error { return nil }
func (r *raSlice) Size() int64 {
	if n := r.src.size - r.off; n < r.s.bsize {
		return n
	}
	return r.s.bsize
}
func (r *raSlice) Read(p []byte) (int, error)                { return 0, io.EOF }
func (r *raSlice) Seek(off int64, whence int) (int64, error) { return 0, nil }
func (r *raSlice) ReadAt(p []byte, off int64) (int, error) {
	if off+int64(len(p)) > r.Size() {
		p = p[:r.Size()-off]
	}
	return r.src.ReadAt(p, r.off+off)
}

// readAhead drives controllers and records what they trigger.
func readAhead(c *vh.Case) error {
	var s raCase
	c.Decode(&s)
	const unit = 4
	sem := semaphore.NewWeighted(s.Tokens)
	sl := &raSlicer{bsize: s.B * unit, holding: true}
	var srcs []*source
	var racs []*caching.ReadAheadController
	for o := 1; o <= s.Objs; o++ {
		src := newSource(o, 0, unit)
		src.size = s.Size * unit
		srcs = append(srcs, src)
		racs = append(racs, caching.NewReadAheadController(s.Window, sem, sl, src))
	}
	taken := func() int64 {
		free := int64(0)
		for sem.TryAcquire(1) {
			free++
		}
		if free > 0 {
			sem.Release(free)
		}
		return s.Tokens - free
	}
	flight := func() int64 {
		sl.mu.Lock()
		defer sl.mu.Unlock()
		return int64(len(sl.flight))
	}
	settle := func(what string) error {
		for deadline := time.Now().Add(4 * time.Second); ; time.Sleep(20 * time.Microsecond) {
			if t := taken(); t == flight() {
				return nil
			} else if time.Now().After(deadline) {
				return vh.Bad("%s: %d tokens are taken and %d blocks are being read ahead", what, t, flight())
			}
		}
	}
	ev := []raEvent{}
	seen := 0
	for i, op := range s.Ops {
		if op[0] == 0 { // one read-ahead ends
			sl.mu.Lock()
			if len(sl.flight) == 0 {
				sl.mu.Unlock()
				continue
			}
			k := int(op[1]) % len(sl.flight)
			f := sl.flight[k]
			sl.flight = append(append([]*raSlice{}, sl.flight[:k]...), sl.flight[k+1:]...)
			seen--
			sl.mu.Unlock()
			close(f.gate)
			ev = append(ev, raEvent{E: "done", O: f.src.id, K: f.off / sl.bsize, S: []int64{}})
			if err := settle(fmt.Sprintf("op %d", i)); err != nil {
				return err
			}
			continue
		}
		racs[op[0]-1].Update(op[1]*unit, int(op[2]*unit))
		if err := settle(fmt.Sprintf("op %d", i)); err != nil {
			return err
		}
		sl.mu.Lock()
		e := raEvent{E: "read", O: int(op[0]), Off: op[1], N: op[2], S: []int64{}}
		for _, f := range sl.flight[seen:] {
			if f.src.id != int(op[0]) {
				sl.mu.Unlock()
				return vh.Bad("op %d: a read of object %d reads object %d ahead", i, op[0], f.src.id)
			}
			if f.off%sl.bsize != 0 || f.off < 0 {
				sl.mu.Unlock()
				return vh.Bad("op %d: reads ahead at %d, not a block", i, f.off)
			}
			e.S = append(e.S, f.off/sl.bsize)
		}
		seen = len(sl.flight)
		sl.mu.Unlock()
		sort.Slice(e.S, func(a, b int) bool { return e.S[a] < e.S[b] })
		ev = append(ev, e)
	}
	sl.mu.Lock()
	for _, f := range sl.flight {
		close(f.gate)
	}
	sl.flight = nil
	sl.mu.Unlock()
	if err := settle("at the end"); err != nil {
		return err
	}
	c.Obs = map[string]interface{}{"ev": ev}
	return nil
}

// raCache reads whole objects through caches with read-ahead.
func raCache(c *vh.Case) error {
	var s raCase
	c.Decode(&s)
	const unit = 4
	sl := &raSlicer{bsize: s.B * unit, holding: true}
	cache := caching.NewCache(sl, s.Window, s.Tokens)
	var objs []storage.Object
	for o := 1; o <= s.Objs; o++ {
		src := newSource(o, s.Size, unit)
		objs = append(objs, cache.WithCaching(src))
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	type ra struct {
		o int
		k int64
	}
	seen := map[ra]int{}
	go func() { // let read-aheads go after a while
		defer wg.Done()
		for {
			sl.mu.Lock()
			for _, f := range sl.flight {
				seen[ra{f.src.id, f.off / sl.bsize}]++
				close(f.gate)
			}
			sl.flight = nil
			sl.mu.Unlock()
			select {
			case <-stop:
				return
			case <-time.After(300 * time.Microsecond):
			}
		}
	}()
	blocks := (s.Size + s.B - 1) / s.B
	var err error
	for o := range objs {
		buf := make([]byte, 3*unit)
		for off := int64(0); off < s.Size*unit && err == nil; {
			n, rerr := objs[o].ReadAt(buf, off)
			if n == 0 || !bytes.Equal(buf[:n], vh.Pattern(o+1, off, int64(n))) || (rerr != nil && rerr != io.EOF) {
				err = vh.Bad("object %d at %d: %d bytes %x, %v", o+1, off, n, buf[:n], rerr)
			}
			off += int64(n)
			time.Sleep(400 * time.Microsecond)
		}
	}
	time.Sleep(2 * time.Millisecond)
	close(stop)
	wg.Wait()
	if err != nil {
		return err
	}
	if int64(sl.most) > s.Tokens {
		return vh.Bad("%d blocks were read ahead at once, %d are allowed", sl.most, s.Tokens)
	}
	for k, n := range seen {
		if k.k < 1 || k.k >= blocks {
			return vh.Bad("block %d of %d was read ahead", k.k, blocks)
		}
		if n > 1 {
			return vh.Bad("block %d was read ahead %d times in one run", k.k, n)
		}
	}
	for o := 1; o <= s.Objs; o++ {
		n := int64(0)
		for k := range seen {
			if k.o == o {
				n++
			}
		}
		if s.Window > 0 && s.Tokens > 0 && blocks > 4 && n == 0 {
			return vh.Bad("nothing of object %d (%d blocks, window %d, %d tokens) was read ahead", o, blocks, s.Window, s.Tokens)
		}
	}
	return nil
}
