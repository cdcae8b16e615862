package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"golang.org/x/sys/unix"

	"github.com/NVIDIA/vdisc/pkg/caching"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

// Words of the memory shared with children.
const (
	wInside  = 0 // processes inside the source
	wWorst   = 1
	wOpen    = 2 // the source answers at once
	wSlots   = 16
	slotSize = 16
	// per process
	sState   = 0 // 1: inside the source
	sGate    = 1 // 1: answer, 2: fail
	sOk      = 2 // answers got
	sFailed  = 3
	sResults = 4 // one word per reader: 1 right, 2 error, 3 wrong, 4 end of file
	sHarness = 12
)

type shm []byte

func (m shm) word(i int) *int64 { return (*int64)(unsafe.Pointer(&m[8*i])) }
func (m shm) slot(p, i int) *int64 {
	return m.word(wSlots + slotSize*p + i)
}

type fillStart struct {
	E    string `json:"e"`
	P    int    `json:"p"`
	Kind string `json:"kind"`
	Step string `json:"step"`
	Ok   bool   `json:"ok"`
}

type fillCase struct {
	Ev      []fillStart `json:"ev"`
	Cached  bool        `json:"cached"`
	Readers int         `json:"readers"`
	Unit    int64       `json:"unit"`
	Cells   int64       `json:"cells"`
	RA      bool        `json:"ra"`
	Half    bool        `json:"half"` // a failing write fails in the middle
}

type childJob struct {
	fillCase
	Root string
	P    int
	Kind string
	Step string
}

func mapShared(path string) shm {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0600)
	vh.Must(err)
	defer f.Close()
	vh.Must(f.Truncate(4096))
	b, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	vh.Must(err)
	return b
}

type bpf struct {
	code   uint16
	jt, jf uint8
	k      uint32
}
type bpfProg struct {
	n uint16
	_ [6]byte
	f *bpf
}

// halfway makes writes beyond n bytes of a file fail.
func halfway(n uint64) error {
	signal.Ignore(syscall.SIGXFSZ)
	return syscall.Setrlimit(unix.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n})
}

// strike makes the process die, or the call fail, at the next call of the step's kind.
func strike(kind, step string) error {
	type call struct {
		nr  uint32
		arg int // -1: any
		val uint32
	}
	var calls []call
	switch step {
	case "look":
		calls = []call{{unix.SYS_OPENAT, -1, 0}}
	case "lock":
		calls = []call{{unix.SYS_FLOCK, 1, unix.LOCK_EX}}
	case "create":
		calls = []call{{unix.SYS_OPENAT, -1, 0}}
	case "write":
		calls = []call{{unix.SYS_WRITE, -1, 0}, {unix.SYS_PWRITE64, -1, 0}}
	case "setkey":
		calls = []call{{unix.SYS_FSETXATTR, -1, 0}, {unix.SYS_SETXATTR, -1, 0}}
	case "setsum":
		calls = []call{{unix.SYS_FSETXATTR, 3, 8}, {unix.SYS_SETXATTR, 3, 8}}
	case "sync":
		calls = []call{{unix.SYS_FSYNC, -1, 0}, {unix.SYS_FDATASYNC, -1, 0}}
	case "publish":
		calls = []call{{unix.SYS_RENAMEAT, -1, 0}, {unix.SYS_RENAMEAT2, -1, 0}, {unix.SYS_RENAME, -1, 0}, {unix.SYS_LINKAT, -1, 0}}
	case "remove":
		calls = []call{{unix.SYS_UNLINKAT, -1, 0}}
	case "close":
		calls = []call{{unix.SYS_CLOSE, -1, 0}}
	case "unlock":
		calls = []call{{unix.SYS_FLOCK, -1, 0}}
	default:
		return fmt.Errorf("step %q", step)
	}
	action := uint32(0x80000000) // kill the process
	if kind == "err" {
		action = 0x00050000 | uint32(unix.ENOSPC)
	}
	// the runtime wakes itself up by writing 8 bytes to a descriptor of its own
	f := []bpf{{0x20, 0, 0, 0}, {0x15, 0, 3, unix.SYS_WRITE}, {0x20, 0, 0, 16 + 8*2}, {0x15, 0, 1, 8}, {0x06, 0, 0, 0x7fff0000}}
	for _, c := range calls {
		f = append(f, bpf{0x20, 0, 0, 0})
		if c.arg < 0 {
			f = append(f, bpf{0x15, 0, 1, c.nr}, bpf{0x06, 0, 0, action})
		} else {
			f = append(f, bpf{0x15, 0, 3, c.nr}, bpf{0x20, 0, 0, uint32(16 + 8*c.arg)}, bpf{0x15, 0, 1, c.val}, bpf{0x06, 0, 0, action})
		}
	}
	f = append(f, bpf{0x06, 0, 0, 0x7fff0000})
	p := bpfProg{n: uint16(len(f)), f: &f[0]}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 {
		return e
	}
	if _, _, e := syscall.RawSyscall(unix.SYS_SECCOMP, 1, 1, uintptr(unsafe.Pointer(&p))); e != 0 {
		return e
	}
	return nil
}

// childSource answers when the parent lets it.
type childSource struct {
	*source
	m   shm
	job *childJob
}

func (s *childSource) ReadAt(p []byte, off int64) (int, error) {
	st := s.m.slot(s.job.P, sState)
	n := atomic.AddInt64(s.m.word(wInside), 1)
	for {
		w := atomic.LoadInt64(s.m.word(wWorst))
		if n <= w || atomic.CompareAndSwapInt64(s.m.word(wWorst), w, n) {
			break
		}
	}
	atomic.StoreInt64(st, 1)
	gate := s.m.slot(s.job.P, sGate)
	var g int64
	for {
		if g = atomic.SwapInt64(gate, 0); g != 0 {
			break
		}
		if atomic.LoadInt64(s.m.word(wOpen)) != 0 {
			g = 1
			break
		}
		vh.RawSleep(100 * time.Microsecond)
	}
	atomic.StoreInt64(st, 0)
	atomic.AddInt64(s.m.word(wInside), -1)
	if s.job.Kind == "crash" && s.job.Step == "fetch" {
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
		select {}
	}
	if g == 2 {
		atomic.AddInt64(s.m.slot(s.job.P, sFailed), 1)
		return 0, vh.ErrInjected
	}
	k, err := s.source.ReadAt(p, off)
	atomic.AddInt64(s.m.slot(s.job.P, sOk), 1)
	if s.job.Kind != "none" && s.job.Step != "look" && s.job.Step != "lock" && s.job.Step != "fetch" {
		e := error(nil)
		if s.job.Half && s.job.Kind == "err" && s.job.Step == "write" {
			e = halfway(uint64(s.job.Unit))
		} else {
			e = strike(s.job.Kind, s.job.Step)
		}
		if e != nil {
			atomic.StoreInt64(s.m.slot(s.job.P, sHarness), 1)
			os.Exit(7)
		}
	}
	return k, err
}

func childMain() {
	vh.DieWithParent()
	var job childJob
	vh.Must(json.Unmarshal([]byte(os.Getenv("VH_CHILD")), &job))
	syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
	m := mapShared(os.Getenv("VH_SHM"))
	src := &childSource{newSource(1, job.Cells, job.Unit), m, &job}
	sl := caching.NewDiskSlicer(job.Root, job.Unit*job.Cells)
	cache := caching.NewCache(sl, 0, 1)
	if job.Kind != "none" && (job.Step == "look" || job.Step == "lock") {
		if e := strike(job.Kind, job.Step); e != nil {
			atomic.StoreInt64(m.slot(job.P, sHarness), 1)
			os.Exit(7)
		}
	}
	var wg sync.WaitGroup
	for r := 0; r < job.Readers; r++ {
		wg.Add(1)
		go func(r int) {
			defer wg.Done()
			if job.RA && r == 1 {
				sl.Slice(src, 0).ReadAhead()
			}
			buf := make([]byte, job.Unit*job.Cells-2)
			n, err := cache.WithCaching(src).ReadAt(buf, 1)
			v := int64(1)
			if err != nil && err != io.EOF {
				v = 2
			} else if n != len(buf) || !bytes.Equal(buf, vh.Pattern(1, 1, int64(n))) {
				v = 3
			}
			atomic.StoreInt64(m.slot(job.P, sResults+r), v)
		}(r)
	}
	wg.Wait()
	sl.Wait()
	atomic.StoreInt64(m.slot(job.P, sHarness), 2)
	// end without further calls than needed
	syscall.RawSyscall(syscall.SYS_EXIT_GROUP, 0, 0, 0)
}

type proc struct {
	job  childJob
	cmd  *exec.Cmd
	done chan struct{}
}

func (p *proc) over() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// fillDriver runs processes that fill one block and crash or fail at given steps.
func fillDriver(c *vh.Case) error {
	var s fillCase
	c.Decode(&s)
	root := filepath.Join(c.Scratch, "cache")
	m := mapShared(filepath.Join(c.Scratch, "shm"))
	defer syscall.Munmap(m)
	var procs []*proc
	start := func(e fillStart) *proc {
		p := &proc{job: childJob{s, root, e.P, e.Kind, e.Step}, done: make(chan struct{})}
		p.job.Ev = nil
		doc, err := json.Marshal(p.job)
		vh.Must(err)
		p.cmd = exec.Command("/proc/self/exe", "child")
		p.cmd.Env = append(os.Environ(), "VH_CHILD="+string(doc), "VH_SHM="+filepath.Join(c.Scratch, "shm"), "GOTRACEBACK=none")
		vh.Must(p.cmd.Start())
		procs = append(procs, p)
		go func() {
			p.cmd.Wait()
			close(p.done)
		}()
		return p
	}
	defer func() {
		for _, p := range procs {
			p.cmd.Process.Kill()
			<-p.done
		}
	}()
	// everything visible must be complete at any moment
	known := knownBlocks([]*source{newSource(1, s.Cells, s.Unit)})
	stop, watched := make(chan struct{}), make(chan error, 1)
	go func() {
		for {
			for _, e := range entries(root) {
				if err := checkEntry(e, known); err != nil {
					watched <- err
					return
				}
			}
			select {
			case <-stop:
				watched <- nil
				return
			case <-time.After(200 * time.Microsecond):
			}
		}
	}()
	for _, e := range s.Ev {
		switch e.E {
		case "start":
			start(e)
			if e.P%2 == 0 {
				time.Sleep(3 * time.Millisecond)
			}
		case "release":
			// to whoever is inside the source, if anybody comes
			for given := false; !given; {
				alive := false
				for _, p := range procs {
					over := p.over()
					alive = alive || !over
					if !over && atomic.LoadInt64(m.slot(p.job.P, sState)) == 1 && atomic.LoadInt64(m.slot(p.job.P, sGate)) == 0 {
						g := int64(1)
						if !e.Ok {
							g = 2
						}
						atomic.StoreInt64(m.slot(p.job.P, sState), 2)
						atomic.StoreInt64(m.slot(p.job.P, sGate), g)
						given = true
						break
					}
				}
				if !alive {
					break
				}
				time.Sleep(100 * time.Microsecond)
			}
		}
	}
	atomic.StoreInt64(m.word(wOpen), 1)
	deadline := time.After(10 * time.Second)
	for _, p := range procs {
		select {
		case <-p.done:
		case <-deadline:
			return vh.Bad("process %d is stuck", p.job.P)
		}
	}
	verdict := func() error {
		fetched, crashed := int64(0), 0
		for _, p := range procs {
			slot := func(i int) int64 { return atomic.LoadInt64(m.slot(p.job.P, i)) }
			if slot(sHarness) == 1 {
				vh.Harness("cannot strike in process %d", p.job.P)
			}
			finished := slot(sHarness) == 2
			if !finished && p.job.Kind != "crash" {
				return vh.Bad("process %d ended early: %v", p.job.P, p.cmd.ProcessState)
			}
			if !finished {
				crashed++
			}
			wrong := 0
			for r := 0; r < s.Readers; r++ {
				switch v := slot(sResults + r); {
				case v == 3:
					return vh.Bad("process %d got wrong bytes", p.job.P)
				case v == 2:
					wrong++
				case v == 0 && finished:
					vh.Harness("no result")
				}
			}
			excused := slot(sFailed)
			if p.job.Kind == "err" && (p.job.Step == "look" || p.job.Step == "lock" || p.job.Step == "create") {
				excused += int64(s.Readers)
			}
			if int64(wrong) > excused {
				return vh.Bad("process %d: %d readers got an error, the source failed %d times for it", p.job.P, wrong, slot(sFailed))
			}
			if p.job.Kind == "none" {
				fetched += slot(sOk)
			} else if slot(sOk) > 1 && p.job.Kind == "crash" {
				return vh.Bad("process %d asked the source %d times", p.job.P, slot(sOk))
			}
		}
		if fetched > 1 {
			return vh.Bad("the source was asked %d times by processes without trouble", fetched)
		}
		if w := atomic.LoadInt64(m.word(wWorst)); w > 1 {
			return vh.Bad("%d processes asked the source for the block at once", w)
		}
		// a new process
		before := fetched
		q := start(fillStart{P: 9, Kind: "none", Step: "none"})
		select {
		case <-q.done:
		case <-time.After(10 * time.Second):
			return vh.Bad("a later process is stuck")
		}
		if atomic.LoadInt64(m.slot(9, sHarness)) != 2 {
			return vh.Bad("a later process ended: %v", q.cmd.ProcessState)
		}
		for r := 0; r < s.Readers; r++ {
			if v := atomic.LoadInt64(m.slot(9, sResults+r)); v != 1 {
				return vh.Bad("a later process reads: result %d", v)
			}
		}
		if n := atomic.LoadInt64(m.slot(9, sOk)); before == 1 && n != 0 {
			return vh.Bad("the block was fetched and yet a later process asks the source")
		} else if n > 1 {
			return vh.Bad("a later process asks the source %d times", n)
		}
		if l := entries(root); len(l) != 1 {
			return vh.Bad("%d entries after a complete fill", len(l))
		}
		if err := caching.NewDiskSlicer(root, s.Unit*s.Cells).CheckIntegrity(); err != nil {
			return vh.Bad("the cache fails its integrity check: %v", err)
		}
		c.Obs = map[string]interface{}{"crashed": crashed, "fetched": fetched}
		return nil
	}
	err := verdict()
	close(stop)
	if werr := <-watched; werr != nil && err == nil {
		err = werr
	}
	return err
}

func init() {
	if len(os.Args) > 1 && os.Args[1] == "child" {
		childMain()
	}

}
