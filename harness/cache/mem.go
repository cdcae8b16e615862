package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"path/filepath"
	"sync"
	"time"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/storage"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

type readOp struct {
	Op    string `json:"op"`
	O     int    `json:"o"`
	Off   int64  `json:"off"`
	Len   int64  `json:"len"`
	Bsize int64  `json:"bsize"`
	R     struct {
		From    int64 `json:"from"`
		N       int64 `json:"n"`
		Neg     bool  `json:"neg"`
		Eof     bool  `json:"eof"`
		Mayfail bool  `json:"mayfail"`
		Most    int   `json:"most"`
	} `json:"r"`
	cut bool // a failing source just ends
}

type readsCase struct {
	Sizes  []int64  `json:"sizes"`
	Bsize  int64    `json:"bsize"`
	Ops    []readOp `json:"ops"`
	Unit   int64    `json:"unit"`
	Bcount int64    `json:"bcount"`
	Window int      `json:"window"`
	Tokens int64    `json:"tokens"`
	Conc   int      `json:"conc"`
	Jitter int64    `json:"jitter"` // bytes added to offsets and lengths of reads
	Cut    bool     `json:"cut"`    // a failing source just ends
}

// checkRead compares one read with the specified response.
func checkRead(r io.ReaderAt, id int, op readOp, unit, jitter, size int64, isInjected func(error) bool) error {
	off, length, from, n := op.Off*unit, op.Len*unit, op.R.From*unit, op.R.N*unit
	if jitter > 0 && op.R.N > 1 && op.Off >= 0 { // inside the cells of the read
		off += jitter
		from += jitter
		length -= 2 * jitter
		if n == op.Len*unit {
			n = length
		} else {
			n -= jitter
		}
		if n > size-off {
			n = size - off
		}
	}
	buf := bytes.Repeat([]byte{0xA5}, int(length))
	got, err := r.ReadAt(buf, off)
	where := fmt.Sprintf("reading %d at %d of object %d (%d bytes)", length, off, id, size)
	if got < 0 || got > len(buf) {
		return vh.Bad("%s: n=%d", where, got)
	}
	if op.R.Neg {
		if length > 0 && (err == nil || got != 0) {
			return vh.Bad("%s: %d bytes, error %v at a negative offset", where, got, err)
		}
		return nil
	}
	if int64(got) > n {
		return vh.Bad("%s: %d bytes, only %d exist there", where, got, n)
	}
	if !bytes.Equal(buf[:got], vh.Pattern(id, from, int64(got))) {
		return vh.Bad("%s: wrong bytes %x", where, buf[:minI(got, 40)])
	}
	if err != nil && err != io.EOF {
		if !op.R.Mayfail {
			return vh.Bad("%s: error %v though the source is fine", where, err)
		}
		if isInjected != nil && !op.cut && !isInjected(err) {
			return vh.Bad("%s: reported %v instead of the failure of the source", where, err)
		}
		return nil
	}
	if err == io.EOF && op.cut && op.R.Mayfail {
		return nil
	}
	if int64(got) < n {
		return vh.Bad("%s: %d bytes of %d, error %v", where, got, n, err)
	}
	if op.R.Eof && err != io.EOF {
		return vh.Bad("%s: error %v beyond the end", where, err)
	}
	if err == io.EOF && off+int64(got) < size {
		return vh.Bad("%s: end of file after %d bytes", where, got)
	}
	return nil
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func injected(err error) bool {
	return errors.Is(err, vh.ErrInjected) || err.Error() == vh.ErrInjected.Error()
}

func memReads(c *vh.Case) error {
	var s readsCase
	c.Decode(&s)
	slicer, err := caching.NewMemorySlicer(s.Bsize*s.Unit, s.Bcount)
	vh.Must(err)
	cache := caching.NewCache(slicer, s.Window, s.Tokens)
	var srcs []*source
	var objs []storage.Object
	for i, n := range s.Sizes {
		src := newSource(i+1, n, s.Unit)
		src.cut = s.Cut
		srcs = append(srcs, src)
		objs = append(objs, cache.WithCaching(src))
	}
	for i, o := range objs {
		if o.Size() != srcs[i].size || o.URL() != srcs[i].url {
			return vh.Bad("cached object has size %d and URL %s", o.Size(), o.URL())
		}
	}
	turn := 0
	one := func(objs []storage.Object, op readOp) error {
		op.cut = s.Cut
		var r io.ReaderAt = objs[op.O-1]
		if turn++; s.Conc < 2 && turn%3 == 0 && op.Off >= 0 {
			r = seeking{objs[op.O-1]}
		}
		return checkRead(r, op.O, op, s.Unit, s.Jitter, srcs[op.O-1].size, injected)
	}
	if s.Conc > 1 {
		errs := make([]error, s.Conc)
		var wg sync.WaitGroup
		for g := 0; g < s.Conc; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				mine := objs
				if g%2 == 1 { // objects of its own, on the same sources
					mine = nil
					for _, src := range srcs {
						mine = append(mine, cache.WithCaching(src))
					}
				}
				for k := range s.Ops {
					op := s.Ops[(k*(1+g)+g)%len(s.Ops)]
					if op.Op != "read" {
						continue
					}
					if err := one(mine, op); err != nil {
						errs[g] = err
						return
					}
				}
			}(g)
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
		return nil
	}
	for i, op := range s.Ops {
		switch op.Op {
		case "read":
			if err := one(objs, op); err != nil {
				return fmt.Errorf("op %d: %w", i, err)
			}
		case "fail":
			srcs[op.O-1].mu.Lock()
			srcs[op.O-1].bad[op.Off] = true
			srcs[op.O-1].mu.Unlock()
		case "recover":
			for _, src := range srcs {
				src.mu.Lock()
				src.bad = map[int64]bool{}
				src.mu.Unlock()
			}
		case "resize":
			srcs[op.O-1] = srcs[op.O-1].resized(op.Len)
			objs[op.O-1].Close()
			objs[op.O-1] = cache.WithCaching(srcs[op.O-1])
		case "reopen":
			for k, src := range srcs {
				objs[k].Close()
				objs[k] = cache.WithCaching(src)
			}
		default:
			vh.Harness("op %q", op.Op)
		}
	}
	return nil
}

// seeking reads sequentially.
type seeking struct{ o storage.Object }

func (s seeking) ReadAt(p []byte, off int64) (int, error) {
	if off > s.o.Size() {
		off = s.o.Size()
	}
	if at, err := s.o.Seek(off, io.SeekStart); err != nil || at != off {
		return 0, fmt.Errorf("seek to %d: %d, %v", off, at, err)
	}
	n := 0
	for n < len(p) {
		k, err := s.o.Read(p[n:])
		n += k
		if err != nil {
			return n, err
		}
		if k == 0 {
			return n, io.ErrNoProgress
		}
	}
	return n, nil
}

// objReads replays sequential and positional reads and seeks of one cached object.
func objReads(c *vh.Case) error {
	var s struct {
		vh.ReadCase
		Bsize  int64 `json:"bsize"`
		Window int   `json:"window"`
		Warm   bool  `json:"warm"`
	}
	c.Decode(&s)
	var slicer caching.Slicer
	if s.Cfg.Kind == "disk" {
		ds := caching.NewDiskSlicer(filepath.Join(c.Scratch, "cache"), s.Bsize*int64(s.Unit))
		defer ds.Wait()
		slicer = ds
	} else {
		var err error
		slicer, err = caching.NewMemorySlicer(s.Bsize*int64(s.Unit), 2)
		vh.Must(err)
	}
	src := newSource(1, s.Size, int64(s.Unit))
	for _, b := range s.Cfg.Bad {
		src.bad[int64(b[1])] = true
	}
	o := caching.NewCache(slicer, s.Window, 3).WithCaching(src)
	if o.URL() != src.url {
		return vh.Bad("cached object has URL %s", o.URL())
	}
	if err := vh.RunReads(o, &s.ReadCase, false, injected); err != nil {
		return err
	}
	// the blocks of the memory cache are objects, too
	if s.Cfg.Kind == "mem" && s.Warm && len(s.Cfg.Bad) == 0 && s.Size <= s.Bsize && s.Size > 0 {
		if err := vh.RunReads(slicer.Slice(src, 0), &s.ReadCase, false, injected); err != nil {
			return vh.Bad("block: %v", err)
		}
	}
	return nil
}

type lruCase struct {
	Blocks int64 `json:"blocks"`
	Cap    int64 `json:"cap"`
	Ops    []struct {
		O   int   `json:"o"`
		B   int64 `json:"b"`
		Bad bool  `json:"bad"`
		RA  bool  `json:"ra"`
	} `json:"ops"`
}

type lruEvent struct {
	B     [2]int64 `json:"b"`
	Fetch int      `json:"fetch"`
	Ok    bool     `json:"ok"`
}

// lruDriver reads single blocks and records which reads needed the source.
func lruDriver(c *vh.Case) error {
	var s lruCase
	c.Decode(&s)
	const unit = 8
	slicer, err := caching.NewMemorySlicer(unit, s.Cap)
	vh.Must(err)
	cache := caching.NewCache(slicer, 0, 1)
	srcs := []*source{newSource(1, s.Blocks, unit), newSource(2, s.Blocks, unit)}
	objs := []storage.Object{cache.WithCaching(srcs[0]), cache.WithCaching(srcs[1])}
	ev := []lruEvent{}
	for i, op := range s.Ops {
		src := srcs[op.O-1]
		src.bad = map[int64]bool{}
		if op.Bad {
			src.bad[op.B] = true
		}
		before := src.count()
		buf := make([]byte, 3)
		var n int
		var rerr error
		if op.RA {
			sl := slicer.Slice(src, op.B*unit)
			sl.ReadAhead()
			if op.Bad && src.count() > before {
				rerr = vh.ErrInjected
			} else {
				buf = nil
			}
		} else {
			n, rerr = objs[op.O-1].ReadAt(buf, op.B*unit+2)
		}
		if rerr == nil && (n != len(buf) || !bytes.Equal(buf, vh.Pattern(op.O, op.B*unit+2, int64(len(buf))))) {
			return vh.Bad("op %d: wrong bytes %x (%d)", i, buf, n)
		}
		if rerr != nil && !op.Bad {
			return vh.Bad("op %d: %v though the source is fine", i, rerr)
		}
		ev = append(ev, lruEvent{[2]int64{int64(op.O), op.B}, src.count() - before, rerr == nil})
	}
	c.Obs = map[string]interface{}{"ev": ev}
	return nil
}

type schedCase struct {
	Ev []struct {
		E  string `json:"e"`
		R  int    `json:"r"`
		B  int64  `json:"b"`
		Ok bool   `json:"ok"`
	} `json:"ev"`
	Cap    int64 `json:"cap"`
	Blocks int64 `json:"blocks"`
}

// memSched replays a schedule of readers and source answers.
func memSched(c *vh.Case) error {
	var s schedCase
	c.Decode(&s)
	const unit = 16
	slicer, err := caching.NewMemorySlicer(unit, s.Cap)
	vh.Must(err)
	cache := caching.NewCache(slicer, 0, 1)
	src := newSource(1, s.Blocks, unit)
	g := newGate()
	src.gate = g
	obj := cache.WithCaching(src)
	type outcome struct {
		block        int64
		err          error
		buf          []byte
		n            int
		failedBefore int
		failedAfter  int
	}
	results := make(chan outcome, 100)
	started := 0
	busy := map[int]chan struct{}{}
	var mu sync.Mutex
	failed := func(b int64) int {
		g.mu.Lock()
		defer g.mu.Unlock()
		return g.failed[[2]int64{1, b}]
	}
	for i, e := range s.Ev {
		switch e.E {
		case "start":
			b, ra := e.B-1, i%4 == 3
			prev := busy[e.R]
			ch := make(chan struct{})
			busy[e.R] = ch
			started++
			go func() {
				defer close(ch)
				if prev != nil {
					<-prev
				}
				if ra {
					slicer.Slice(src, b*unit).ReadAhead()
				}
				o := outcome{block: b, buf: make([]byte, 5), failedBefore: failed(b)}
				o.n, o.err = obj.ReadAt(o.buf, b*unit+3)
				o.failedAfter = failed(b)
				results <- o
			}()
			time.Sleep(200 * time.Microsecond)
		case "release":
			var rerr error
			if !e.Ok {
				rerr = vh.ErrInjected
			}
			g.release([2]int64{1, e.B - 1}, rerr, 3*time.Millisecond)
		}
	}
	g.openAll()
	for i := 0; i < started; i++ {
		select {
		case o := <-results:
			if o.err != nil {
				if o.failedAfter == o.failedBefore || !injected(o.err) {
					return vh.Bad("a reader of block %d got %v, no fetch it depended on failed", o.block, o.err)
				}
			} else if o.n != len(o.buf) || !bytes.Equal(o.buf, vh.Pattern(1, o.block*unit+3, 5)) {
				return vh.Bad("a reader of block %d got %d bytes %x", o.block, o.n, o.buf)
			}
		case <-time.After(10 * time.Second):
			return vh.Bad("readers are stuck (%d of %d done)", i, started)
		}
	}
	mu.Lock()
	defer mu.Unlock()
	if s.Cap >= s.Blocks {
		for k, n := range g.worst {
			if n > 1 {
				return vh.Bad("block %d was fetched %d times at once", k[1], n)
			}
		}
		for k, n := range g.ok {
			if n > 1 {
				return vh.Bad("block %d was fetched %d times with success though it was never displaced", k[1], n)
			}
		}
	}
	// what is held now
	before := src.count()
	hits := int64(0)
	buf := make([]byte, 4)
	for b := int64(0); b < s.Blocks; b++ {
		if _, err := obj.ReadAt(buf, b*unit); err != nil {
			return vh.Bad("probing block %d: %v", b, err)
		}
		if now := src.count(); now == before {
			hits++
		} else {
			before = now
		}
	}
	if hits > s.Cap {
		return vh.Bad("%d blocks were held, %d are allowed", hits, s.Cap)
	}
	c.Obs = map[string]interface{}{"held": hits}
	return nil
}
