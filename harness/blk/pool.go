package main

import (
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/tnarg/go-tcmu"

	"github.com/NVIDIA/vdisc/pkg/blockdev"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

type poolCase struct {
	Steps []struct {
		E string `json:"e"`
		D int    `json:"d"`
		K int    `json:"k"`
	} `json:"steps"`
	Devs    int  `json:"devs"`
	PerDev  int  `json:"perdev"`
	Workers int  `json:"workers"`
	Bufsize int  `json:"bufsize"`
	Inbuf   int  `json:"inbuf"`
	Grow    bool `json:"grow"`   // handlers take other buffers
	Sooner  bool `json:"sooner"` // do not wait for rest between the steps
	Tail    int  `json:"tail"`   // how the rest is finished
}

type poolEvent struct {
	E string `json:"e"`
	C int    `json:"c"`
	D int    `json:"d"`
	B int    `json:"b"`
}

type poolRun struct {
	mu       sync.Mutex
	ev       []poolEvent
	bad      error
	bufs     map[*byte]int
	handling []int
	gates    map[int]chan struct{}
	open     bool
	started  map[int]int
	finished int
	answered int
	closed   map[int]bool
	stopped  bool
	cmds     map[*tcmu.SCSICmd]int
	s        *poolCase
}

func (r *poolRun) note(e poolEvent) { r.ev = append(r.ev, e) }

func (r *poolRun) fail(format string, args ...interface{}) {
	if r.bad == nil {
		r.bad = vh.Bad(format, args...)
	}
}

type poolHandler struct {
	r *poolRun
	d int
}

func (h *poolHandler) HandleCommand(cmd *tcmu.SCSICmd) (tcmu.SCSIResponse, error) {
	r := h.r
	r.mu.Lock()
	c := r.cmds[cmd]
	if len(cmd.Buf) == 0 {
		r.fail("command %d got no buffer", c)
		cmd.Buf = make([]byte, 1)
	}
	id, ok := r.bufs[&cmd.Buf[0]]
	if !ok {
		id = len(r.bufs) + 1
		r.bufs[&cmd.Buf[0]] = id
	}
	if len(cmd.Buf) < r.s.Bufsize {
		r.fail("command %d got a buffer of %d bytes", c, len(cmd.Buf))
	}
	if d := (c-1)/r.s.PerDev + 1; d != h.d {
		r.fail("command %d of device %d was given to the handler of device %d", c, d, h.d)
	}
	r.started[c]++
	if r.started[c] > 1 {
		r.fail("command %d was handled %d times", c, r.started[c])
	}
	r.note(poolEvent{E: "start", C: c, B: id})
	r.handling = append(r.handling, c)
	gate := make(chan struct{})
	r.gates[c] = gate
	open := r.open
	// our buffer is nobody else's meanwhile
	for i := range cmd.Buf {
		cmd.Buf[i] = byte(c)
	}
	r.mu.Unlock()
	if !open {
		<-gate
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	for i := range cmd.Buf {
		if cmd.Buf[i] != byte(c) {
			r.fail("the buffer of command %d was written meanwhile", c)
			break
		}
	}
	if r.s.Grow && c%2 == 0 {
		cmd.Buf = make([]byte, len(cmd.Buf)*2)
	}
	for i, x := range r.handling {
		if x == c {
			r.handling = append(r.handling[:i:i], r.handling[i+1:]...)
			break
		}
	}
	r.finished++
	r.note(poolEvent{E: "finish", C: c})
	return cmd.RespondStatus(byte(c)), nil
}

func wait(cond func() bool) bool {
	deadline := time.Now().Add(10 * time.Second)
	for i := 0; ; i++ {
		if cond() {
			return true
		}
		if time.Now().After(deadline) {
			return false
		}
		if i < 100 {
			runtime.Gosched()
		} else {
			time.Sleep(50 * time.Microsecond)
		}
	}
}

func poolDriver(cs *vh.Case) error {
	var s poolCase
	cs.Decode(&s)
	r := &poolRun{s: &s, bufs: map[*byte]int{}, gates: map[int]chan struct{}{}, started: map[int]int{}, closed: map[int]bool{}, cmds: map[*tcmu.SCSICmd]int{}}
	pool := blockdev.NewCmdPool(s.Workers, s.Bufsize)
	var ins []chan *tcmu.SCSICmd
	for d := 1; d <= s.Devs; d++ {
		in := make(chan *tcmu.SCSICmd, s.Inbuf)
		out := make(chan tcmu.SCSIResponse)
		ins = append(ins, in)
		if err := pool.DevReady(&poolHandler{r, d})(in, out); err != nil {
			return vh.Bad("device: %v", err)
		}
		d := d
		go func() {
			for rsp := range out {
				_, status, _ := rsp.VerifFields()
				r.mu.Lock()
				r.answered++
				r.note(poolEvent{E: "response", C: int(status), D: d})
				r.mu.Unlock()
			}
			r.mu.Lock()
			r.closed[d] = true
			r.note(poolEvent{E: "closed", D: d})
			r.mu.Unlock()
		}()
	}
	submitted, ended := make([]int, s.Devs+1), make([]bool, s.Devs+1)
	stopping := false
	outstanding := func() int {
		n := 0
		for _, x := range submitted {
			n += x
		}
		return n - r.finished
	}
	// rest waits until the pool can do nothing more by itself
	rest := func() error {
		what := ""
		ok := wait(func() bool {
			r.mu.Lock()
			defer r.mu.Unlock()
			if r.bad != nil {
				return true
			}
			want := outstanding()
			if want > s.Workers {
				want = s.Workers
			}
			switch {
			case len(r.handling) != want && !stopping:
				what = "a command is not being handled although a worker is free"
			case r.answered != r.finished:
				what = "a response was not delivered"
			default:
				for d := 1; d <= s.Devs; d++ {
					if !ended[d] || r.closed[d] || stopping {
						continue
					}
					left := submitted[d]
					for _, e := range r.ev {
						if e.E == "response" && e.D == d {
							left--
						}
					}
					if left == 0 {
						what = "an output did not end"
						return false
					}
				}
				return true
			}
			return false
		})
		r.mu.Lock()
		defer r.mu.Unlock()
		if r.bad != nil {
			return r.bad
		}
		if !ok {
			return vh.Bad("%s: %+v", what, r.ev)
		}
		return nil
	}
	stopped := make(chan error, 1)
	release := func(k int) {
		r.mu.Lock()
		if k > 0 && k <= len(r.handling) {
			c := r.handling[k-1]
			if g := r.gates[c]; g != nil {
				close(g)
				r.gates[c] = nil
			}
		}
		r.mu.Unlock()
	}
	for _, st := range s.Steps {
		switch st.E {
		case "submit":
			r.mu.Lock()
			submitted[st.D]++
			c := (st.D-1)*s.PerDev + submitted[st.D]
			cmd := &tcmu.SCSICmd{}
			r.cmds[cmd] = c
			r.note(poolEvent{E: "submit", C: c, D: st.D})
			r.mu.Unlock()
			select {
			case ins[st.D-1] <- cmd:
			case <-time.After(10 * time.Second):
				return vh.Bad("a command is not taken: %+v", r.ev)
			}
		case "finish":
			if s.Sooner {
				wait(func() bool { r.mu.Lock(); defer r.mu.Unlock(); return len(r.handling) > 0 })
				st.K = 1
			}
			release(st.K)
		case "end":
			r.mu.Lock()
			r.note(poolEvent{E: "end", D: st.D})
			ended[st.D] = true
			r.mu.Unlock()
			close(ins[st.D-1])
		case "stop":
			r.mu.Lock()
			r.note(poolEvent{E: "stop"})
			stopping = true
			r.mu.Unlock()
			go func() {
				err := pool.Close()
				r.mu.Lock()
				r.stopped = true
				r.note(poolEvent{E: "stopped"})
				r.mu.Unlock()
				stopped <- err
			}()
		}
		if !s.Sooner {
			if st.E == "finish" {
				f := r
				if !wait(func() bool {
					f.mu.Lock()
					defer f.mu.Unlock()
					return f.finished > 0 && len(f.gatesClosed()) == 0 || f.bad != nil
				}) {
					vh.Harness("handler does not go on")
				}
			}
			if err := rest(); err != nil {
				return err
			}
		}
	}
	if stopping {
		// the pool must wait for commands being handled
		time.Sleep(time.Duration(s.Tail) * 300 * time.Microsecond)
		r.mu.Lock()
		early := r.stopped && len(r.handling) > 0
		r.mu.Unlock()
		if early {
			return vh.Bad("stopped while a command is handled: %+v", r.ev)
		}
	}
	r.mu.Lock()
	r.open = true
	for c, g := range r.gates {
		if g != nil {
			close(g)
			r.gates[c] = nil
		}
	}
	r.mu.Unlock()
	if !stopping {
		for d := 1; d <= s.Devs; d++ {
			if !ended[d] {
				r.mu.Lock()
				r.note(poolEvent{E: "end", D: d})
				ended[d] = true
				r.mu.Unlock()
				close(ins[d-1])
			}
		}
		if err := rest(); err != nil {
			return err
		}
		r.mu.Lock()
		r.note(poolEvent{E: "stop"})
		r.mu.Unlock()
		go func() {
			err := pool.Close()
			r.mu.Lock()
			r.note(poolEvent{E: "stopped"})
			r.mu.Unlock()
			stopped <- err
		}()
	}
	select {
	case err := <-stopped:
		if err != nil {
			return vh.Bad("stopping: %v", err)
		}
	case <-time.After(10 * time.Second):
		return vh.Bad("stopping does not end: %+v", r.ev)
	}
	ok := wait(func() bool {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		return !strings.Contains(string(buf), "blockdev.(*CmdPool)")
	})
	if !ok {
		return vh.Bad("something of the pool is still running: %+v", r.ev)
	}
	// responses that were received may not be recorded yet
	wait(func() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.answered == r.finished || r.bad != nil })
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.bad != nil {
		return r.bad
	}
	if r.answered != r.finished {
		return vh.Bad("%d commands were handled, %d responses were delivered: %+v", r.finished, r.answered, r.ev)
	}
	cs.Obs = map[string]interface{}{"ev": append([]poolEvent{}, r.ev...)}
	return nil
}

// gatesClosed are the commands that were released and have not returned yet.
func (r *poolRun) gatesClosed() []int {
	var out []int
	for _, c := range r.handling {
		if g, ok := r.gates[c]; ok && g == nil {
			out = append(out, c)
		}
	}
	return out
}
