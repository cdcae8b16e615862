package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"golang.org/x/sys/unix"

	"github.com/NVIDIA/vdisc/pkg/storage"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

func init() {
	if len(os.Args) > 1 && os.Args[1] == "child" {
		vh.DieWithParent()
		syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
		switch os.Args[2] {
		case "publish":
			publishChild()
		case "lock":
			lockChild()
		}
		os.Exit(9)
	}
}

type bpf struct {
	code   uint16
	jt, jf uint8
	k      uint32
}
type bpfProg struct {
	n uint16
	_ [6]byte
	f *bpf
}

// strike makes the process die, or the call fail, at the next call of the step's kind.
func strike(kind, step string) error {
	var calls []uint32
	switch step {
	case "create":
		calls = []uint32{unix.SYS_OPENAT, unix.SYS_OPEN, unix.SYS_CREAT}
	case "write":
		calls = []uint32{unix.SYS_WRITE, unix.SYS_PWRITE64, unix.SYS_WRITEV}
	case "sync":
		calls = []uint32{unix.SYS_FSYNC, unix.SYS_FDATASYNC, unix.SYS_SYNC, unix.SYS_SYNCFS, unix.SYS_SYNC_FILE_RANGE}
	case "close":
		calls = []uint32{unix.SYS_CLOSE}
	case "publish":
		calls = []uint32{unix.SYS_RENAMEAT, unix.SYS_RENAMEAT2, unix.SYS_RENAME, unix.SYS_LINKAT, unix.SYS_LINK}
	case "tidy":
		calls = []uint32{unix.SYS_UNLINKAT, unix.SYS_UNLINK}
	default:
		return fmt.Errorf("step %q", step)
	}
	action := uint32(0x80000000) // kill the process
	if kind == "err" {
		action = 0x00050000 | uint32(unix.ENOSPC)
	}
	// the runtime wakes itself up by writing 8 bytes to a descriptor of its own
	f := []bpf{{0x20, 0, 0, 0}, {0x15, 0, 3, unix.SYS_WRITE}, {0x20, 0, 0, 16 + 8*2}, {0x15, 0, 1, 8}, {0x06, 0, 0, 0x7fff0000}}
	f = append(f, bpf{0x20, 0, 0, 0})
	for _, nr := range calls {
		f = append(f, bpf{0x15, 0, 1, nr}, bpf{0x06, 0, 0, action})
	}
	f = append(f, bpf{0x06, 0, 0, 0x7fff0000})
	p := bpfProg{n: uint16(len(f)), f: &f[0]}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 {
		return e
	}
	if _, _, e := syscall.RawSyscall(unix.SYS_SECCOMP, 1, 1, uintptr(unsafe.Pointer(&p))); e != 0 {
		return e
	}
	return nil
}

type publishCase struct {
	Kind   string `json:"kind"`
	Step   string `json:"step"`
	Old    bool   `json:"old"`
	Seen   string `json:"seen"`
	Ended  string `json:"ended"`
	Writes int    `json:"writes"`
	// not from the model
	Before int    `json:"before"` // writes before the step is armed
	Size   int    `json:"size"`
	Path   string `json:"path"`
	Fresh  bool   `json:"fresh"` // the directory does not exist yet
}

type publishJob struct {
	publishCase
	URL string
}

// Exit codes of a writing process.
const (
	exitOK     = 20
	exitCreate = 21
	exitWrite  = 22
	exitCommit = 23
	exitArm    = 24
)

func publishChild() {
	var job publishJob
	vh.Must(json.Unmarshal([]byte(os.Getenv("VH_CHILD")), &job))
	exit := func(code int) { syscall.RawSyscall(syscall.SYS_EXIT_GROUP, uintptr(code), 0, 0) }
	arm := func() {
		if job.Kind != "none" {
			if err := strike(job.Kind, job.Step); err != nil {
				exit(exitArm)
			}
		}
	}
	if job.Step == "create" {
		arm()
	}
	w, err := storage.Create(job.URL)
	if err != nil {
		exit(exitCreate)
	}
	for i := 0; i < job.Writes; i++ {
		if i == job.Before && job.Step != "create" {
			arm()
		}
		b := vh.Pattern(1, int64(i*job.Size), int64(job.Size))
		n, err := w.Write(b)
		if err != nil || n != len(b) {
			w.Abort()
			exit(exitWrite)
		}
	}
	if job.Before >= job.Writes && job.Step != "create" {
		arm()
	}
	if _, err := w.Commit(); err != nil {
		w.Abort()
		exit(exitCommit)
	}
	exit(exitOK)
}

// look reads the object whole; nil if there is none.
func look(url string) ([]byte, error) {
	o, err := storage.Open(url)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer o.Close()
	b := make([]byte, o.Size()+1)
	n, err := o.ReadAt(b, 0)
	if err != nil && err != io.EOF {
		return nil, err
	}
	if int64(n) != o.Size() {
		return nil, fmt.Errorf("%d bytes of %d", n, o.Size())
	}
	return b[:n], nil
}

func publishDriver(c *vh.Case) error {
	var s publishCase
	c.Decode(&s)
	dir := filepath.Join(c.Scratch, "d")
	if !s.Fresh {
		vh.Must(os.MkdirAll(dir, 0755))
	}
	job := publishJob{s, "file://" + dir + "/" + s.Path}
	old := vh.Pattern(2, 0, 777)
	if s.Old {
		w, err := storage.Create(job.URL)
		if err == nil {
			if _, err = w.Write(old); err == nil {
				_, err = w.Commit()
			}
		}
		if err != nil {
			return vh.Bad("create: %v", err)
		}
	}
	fresh := vh.Pattern(1, 0, int64(s.Size*s.Writes))
	state := func() (string, error) {
		b, err := look(job.URL)
		switch {
		case err != nil:
			return "", err
		case b == nil:
			return "nothing", nil
		case s.Old && bytes.Equal(b, old):
			return "old", nil
		case bytes.Equal(b, fresh):
			return "new", nil
		}
		return fmt.Sprintf("%d bytes", len(b)), nil
	}
	prev := "nothing"
	if s.Old {
		prev = "old"
	}
	stop, watched := make(chan struct{}), make(chan error, 1)
	go func() {
		now := prev
		for {
			st, err := state()
			if err == nil && st != now {
				if st != "new" || now == "new" {
					err = vh.Bad("a reader sees %s after %s", st, now)
				}
				now = st
			}
			if err != nil {
				watched <- err
				return
			}
			select {
			case <-stop:
				watched <- nil
				return
			case <-time.After(50 * time.Microsecond):
			}
		}
	}()
	doc, err := json.Marshal(job)
	vh.Must(err)
	cmd := exec.Command("/proc/self/exe", "child", "publish")
	cmd.Env = append(os.Environ(), "VH_CHILD="+string(doc), "GOTRACEBACK=none")
	runErr := cmd.Run()
	close(stop)
	if err := <-watched; err != nil {
		return err
	}
	code := cmd.ProcessState.ExitCode()
	if code == exitArm || code == 9 {
		vh.Harness("child: %v", runErr)
	}
	st, err := state()
	if err != nil {
		return vh.Bad("afterwards: %v", err)
	}
	dead := code < exitOK
	c.Obs = map[string]interface{}{"code": code, "state": st, "dead": dead}
	switch {
	case code == exitOK:
		if st != "new" {
			return vh.Bad("the commit succeeded, but readers see %s", st)
		}
		if s.Kind == "err" && (s.Step == "write" && s.Before < s.Writes || s.Step == "sync" || s.Step == "publish") {
			return vh.Bad("the commit reported success although the %s failed", s.Step)
		}
	case dead:
		if s.Kind != "crash" {
			// a failing call broke the process elsewhere
			if st != prev && st != "new" {
				return vh.Bad("after its death readers see %s", st)
			}
			break
		}
		if st != prev && !(st == "new" && (s.Step == "close" || s.Step == "tidy")) {
			return vh.Bad("after a crash at %s readers see %s instead of %s", s.Step, st, prev)
		}
	default:
		if st != prev {
			return vh.Bad("after a failed write readers see %s instead of %s", st, prev)
		}
		// nothing is left behind
		fis, err := storage.Readdir("file://" + dir)
		if err != nil && !os.IsNotExist(err) {
			return vh.Bad("list: %v", err)
		}
		for _, fi := range fis {
			if !(s.Old && fi.Name() == s.Path) && s.Step != "tidy" {
				return vh.Bad("a failed write left %q", fi.Name())
			}
		}
	}
	// a process after it can write
	w, err := storage.Create(job.URL)
	if err == nil {
		if _, err = w.Write([]byte("after")); err == nil {
			_, err = w.Commit()
		}
	}
	if err == nil {
		err = same(job.URL, []byte("after"))
	}
	if err != nil {
		return vh.Bad("later write: %v", err)
	}
	return nil
}

type rivalsCase struct {
	Scheme  string `json:"scheme"`
	Writers int    `json:"writers"`
	Rounds  int    `json:"rounds"`
	Size    int    `json:"size"`
	Chunks  int    `json:"chunks"`
	Aborts  bool   `json:"aborts"`
}

// rivalsDriver lets several writers write one URL at the same time.
func rivalsDriver(c *vh.Case) error {
	var s rivalsCase
	c.Decode(&s)
	u := "ram:///rivals" + fmt.Sprint(c.Index) + "/x"
	if s.Scheme == "file" {
		u = "file://" + c.Scratch + "/x"
	}
	// sizes differ, so a mixture shows
	content := func(w, r int) []byte {
		return vh.Pattern(w*1000+r, 0, int64(s.Size+w*17+r*3))
	}
	whose := func(b []byte) (int, int) {
		for w := 0; w < s.Writers; w++ {
			for r := 0; r < s.Rounds; r++ {
				if bytes.Equal(b, content(w, r)) {
					return w, r
				}
			}
		}
		return -1, -1
	}
	// the round a writer is in, and has committed
	begun, committed := make([]int64, s.Writers), make([]int64, s.Writers)
	for w := range committed {
		begun[w], committed[w] = -1, -1
	}
	errs := make(chan error, s.Writers+2)
	var wg, rg sync.WaitGroup
	var stop int32
	for i := 0; i < 2; i++ {
		rg.Add(1)
		go func() {
			defer rg.Done()
			some := false
			for atomic.LoadInt32(&stop) == 0 {
				any := false
				for w := range committed {
					any = any || atomic.LoadInt64(&committed[w]) >= 0
				}
				b, err := look(u)
				if err == nil && b == nil {
					if any || some {
						err = vh.Bad("the object was missing")
					}
				} else if err == nil {
					some = true
					w, r := whose(b)
					if w < 0 {
						err = vh.Bad("a reader saw %d bytes nobody wrote", len(b))
					} else if s.Aborts && r%2 == 1 {
						err = vh.Bad("a reader saw an aborted write")
					} else if int64(r) > atomic.LoadInt64(&begun[w]) {
						err = vh.Bad("a reader saw a write before its commit")
					}
				}
				if err != nil {
					errs <- err
					return
				}
			}
		}()
	}
	for w := 0; w < s.Writers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for r := 0; r < s.Rounds; r++ {
				ow, err := storage.Create(u)
				if err != nil {
					errs <- vh.Bad("create: %v", err)
					return
				}
				b := content(w, r)
				for k := 0; k < s.Chunks; k++ {
					from, to := len(b)*k/s.Chunks, len(b)*(k+1)/s.Chunks
					if n, err := ow.Write(b[from:to]); err != nil || n != to-from {
						errs <- vh.Bad("write: %d, %v", n, err)
						return
					}
				}
				if s.Aborts && r%2 == 1 {
					ow.Abort()
					continue
				}
				atomic.StoreInt64(&begun[w], int64(r))
				if _, err := ow.Commit(); err != nil {
					errs <- vh.Bad("commit: %v", err)
					return
				}
				atomic.StoreInt64(&committed[w], int64(r))
			}
		}(w)
	}
	wg.Wait()
	atomic.StoreInt32(&stop, 1)
	rg.Wait()
	select {
	case err := <-errs:
		return err
	default:
	}
	b, err := look(u)
	if err != nil {
		return vh.Bad("afterwards: %v", err)
	}
	w, r := whose(b)
	last := s.Rounds - 1
	if s.Aborts && last%2 == 1 {
		last--
	}
	if w < 0 || r != last {
		return vh.Bad("in the end %d bytes of write %d/%d", len(b), w, r)
	}
	if s.Scheme == "file" {
		fis, err := storage.Readdir("file://" + c.Scratch)
		if err != nil || len(fis) != 1 {
			return vh.Bad("left: %d entries, %v", len(fis), err)
		}
	} else if err := storage.Remove(u); err != nil {
		return vh.Bad("remove: %v", err)
	}
	return nil
}

type dataCase struct {
	Ops []int `json:"ops"` // -1 abort, -2 commit, otherwise a write of so many bytes
}

// dataDriver writes objects of the data scheme, whose content is their URL.
func dataDriver(c *vh.Case) error {
	var s dataCase
	c.Decode(&s)
	var want []byte
	u := "data:,"
	w, err := storage.Create(u)
	if err != nil {
		return vh.Bad("create: %v", err)
	}
	aborted := false
	for i, op := range s.Ops {
		switch op {
		case -1:
			w.Abort()
			aborted = true
		case -2:
			ci, err := w.Commit()
			if aborted {
				if err == nil {
					return vh.Bad("commit after abort succeeded")
				}
				continue
			}
			if err != nil {
				return vh.Bad("commit: %v", err)
			}
			if err := same(ci.ObjectURL(), want); err != nil {
				return vh.Bad("after commit: %v", err)
			}
			fi, err := storage.Stat(ci.ObjectURL())
			if err != nil || fi.Size() != int64(len(want)) || fi.IsDir() {
				return vh.Bad("stat: %v", err)
			}
		default:
			b := vh.Pattern(i, 0, int64(op))
			if i%2 == 0 {
				for j := range b {
					b[j] = byte(j + i)
				}
			}
			n, err := w.Write(b)
			if aborted {
				if err == nil {
					return vh.Bad("write after abort succeeded")
				}
				continue
			}
			if err != nil || n != len(b) {
				return vh.Bad("write: %d, %v", n, err)
			}
			want = append(want, b...)
			for j := range b {
				b[j] = 0
			}
		}
	}
	return nil
}
