// Package zzvhlib runs verification cases against the code of this repository.
package zzvhlib

import (
	"bufio"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Case is one behaviour of the specification to be replayed.
type Case struct {
	Index   int
	Raw     json.RawMessage
	Scratch string // a directory of its own, removed afterwards
	Obs     interface{}
}

// Decode unmarshals the case.
func (c *Case) Decode(v interface{}) {
	if err := json.Unmarshal(c.Raw, v); err != nil {
		Harness("bad case: %v", err)
	}
}

// Driver replays one case; a non-nil error is a deviation from the specification.
type Driver func(c *Case) error

type harnessError struct{ msg string }

// Harness aborts the case with an error of the harness itself (no verdict).
func Harness(format string, args ...interface{}) {
	panic(harnessError{fmt.Sprintf(format, args...)})
}

// DieWithParent ends a child process whose parent is gone.
func DieWithParent() {
	parent := os.Getppid()
	go func() {
		for os.Getppid() == parent {
			RawSleep(200 * time.Millisecond)
		}
		os.Exit(9)
	}()
}

// RawSleep sleeps without the timers of the runtime, which write to a file
// descriptor of their own: a process whose writes are made to fail must not
// use them.
func RawSleep(d time.Duration) {
	ts := syscall.NsecToTimespec(int64(d))
	syscall.Nanosleep(&ts, nil)
}

// Must aborts with a harness error if err is set.
func Must(err error) {
	if err != nil {
		_, f, l, _ := runtime.Caller(1)
		Harness("%s:%d: %v", filepath.Base(f), l, err)
	}
}

// Bad reports a deviation.
func Bad(format string, args ...interface{}) error {
	return fmt.Errorf(format, args...)
}

var Seed int64

type line struct {
	I int             `json:"i"`
	C json.RawMessage `json:"c"`
}

type result struct {
	I       int         `json:"i"`
	Begin   bool        `json:"begin,omitempty"`
	OK      bool        `json:"ok"`
	Harness bool        `json:"harness,omitempty"`
	Msg     string      `json:"msg,omitempty"`
	Obs     interface{} `json:"obs,omitempty"`
}

func runOne(d Driver, c *Case) (err error, harness bool) {
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(harnessError); ok {
				err, harness = errors.New(he.msg), true
				return
			}
			err = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	return d(c), false
}

// Main runs the driver named by the first argument.
func Main(drivers map[string]Driver) {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh driver -cases f -out f")
		os.Exit(2)
	}
	name := os.Args[1]
	fs := flag.NewFlagSet(name, flag.ExitOnError)
	casesPath := fs.String("cases", "", "")
	outPath := fs.String("out", "", "")
	scratch := fs.String("scratch", "", "")
	tmo := fs.Float64("case-timeout", 20, "")
	jobs := fs.Int("jobs", 1, "")
	fs.Parse(os.Args[2:])
	d, ok := drivers[name]
	if !ok {
		fmt.Fprintln(os.Stderr, "no driver", name)
		os.Exit(2)
	}
	Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)

	in, err := os.Open(*casesPath)
	if err != nil {
		panic(err)
	}
	out, err := os.Create(*outPath)
	if err != nil {
		panic(err)
	}
	var mu sync.Mutex
	enc := json.NewEncoder(out)
	emit := func(r result) {
		mu.Lock()
		defer mu.Unlock()
		if err := enc.Encode(r); err != nil {
			panic(err)
		}
	}

	// after this many deviations no further case is begun
	const enough = 12
	var deviations int32

	work := make(chan line)
	var wg sync.WaitGroup
	for j := 0; j < *jobs; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for l := range work {
				if atomic.LoadInt32(&deviations) >= enough {
					continue
				}
				dir := filepath.Join(*scratch, fmt.Sprintf("c%d", l.I))
				if err := os.MkdirAll(dir, 0777); err != nil {
					panic(err)
				}
				c := &Case{Index: l.I, Raw: l.C, Scratch: dir}
				emit(result{I: l.I, Begin: true})
				timer := time.AfterFunc(time.Duration(*tmo*float64(time.Second)), func() {
					buf := make([]byte, 1<<20)
					n := runtime.Stack(buf, true)
					fmt.Fprintf(os.Stderr, "HANG case %d\n%s\n", l.I, buf[:n])
					os.Exit(3)
				})
				err, harness := runOne(d, c)
				timer.Stop()
				r := result{I: l.I, OK: err == nil, Harness: harness, Obs: c.Obs}
				if err != nil {
					r.Msg = err.Error()
					atomic.AddInt32(&deviations, 1)
				}
				emit(r)
				os.RemoveAll(dir)
			}
		}()
	}
	sc := bufio.NewReaderSize(in, 1<<20)
	for {
		b, err := sc.ReadBytes('\n')
		if len(b) > 1 {
			var l line
			if e := json.Unmarshal(b, &l); e != nil {
				panic(e)
			}
			work <- l
		}
		if err != nil {
			break
		}
	}
	close(work)
	wg.Wait()
	out.Close()
	if deviations >= enough {
		os.Exit(4)
	}
	os.Exit(0)
}

// Pattern returns n bytes of a content that is determined by id and position.
func Pattern(id int, off, n int64) []byte {
	b := make([]byte, n)
	FillPattern(b, id, off)
	return b
}

// FillPattern fills b with the content of id at off; no two nearby positions or ids look alike.
func FillPattern(b []byte, id int, off int64) {
	for i := range b {
		b[i] = PatternByte(id, off+int64(i))
	}
}

// PatternByte is the byte of content id at position pos (never zero).
func PatternByte(id int, pos int64) byte {
	x := uint64(pos)*0x9E3779B97F4A7C15 + uint64(id+1)*0xBF58476D1CE4E5B9
	x ^= x >> 29
	x *= 0x94D049BB133111EB
	x ^= x >> 32
	return byte(x%255) + 1
}
