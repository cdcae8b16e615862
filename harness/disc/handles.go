package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/vdisc"
	vhd "github.com/NVIDIA/vdisc/pkg/zzvhdisc"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

type handlesCase struct {
	vhd.Spec
	Acts []struct {
		Op   string `json:"op"`
		K    int    `json:"k"`
		H    int    `json:"h"`
		O    int    `json:"o"`
		Way  string `json:"way"`
		Idle bool   `json:"idle"`
	} `json:"acts"`
	Seed int64 `json:"seed"`
}

type reading struct {
	over  chan bool
	judge func() error
}

// holding lists the descriptors and mapped discs of the process, apart from the runtime's own.
func holding() []string {
	var l []string
	fds, err := os.ReadDir("/proc/self/fd")
	vh.Must(err)
	for _, fd := range fds {
		t, err := os.Readlink("/proc/self/fd/" + fd.Name())
		if err != nil || strings.HasPrefix(t, "anon_inode:") || strings.HasPrefix(t, "/proc/") {
			continue
		}
		l = append(l, t)
	}
	maps, err := os.ReadFile("/proc/self/maps")
	vh.Must(err)
	for _, m := range strings.Split(string(maps), "\n") {
		if f := strings.Fields(m); len(f) > 5 && strings.HasSuffix(m, "(deleted)") {
			l = append(l, "mapped "+f[5])
		}
	}
	sort.Strings(l)
	return l
}

func more(now, base []string) []string {
	n := map[string]int{}
	for _, x := range base {
		n[x]++
	}
	var l []string
	for _, x := range now {
		if n[x]--; n[x] < 0 {
			l = append(l, x)
		}
	}
	return l
}

func settled(what string, base []string, routines int) error {
	var l []string
	var r int
	for i := 0; i < 300; i++ {
		l, r = more(holding(), base), runtime.NumGoroutine()
		if len(l) == 0 && r <= routines {
			return nil
		}
		time.Sleep(time.Duration(1+i/10) * time.Millisecond)
	}
	if len(l) > 0 {
		return vh.Bad("%s: still open: %.300q", what, l)
	}
	return vh.Bad("%s: %d goroutines, %d before\n%.6000s", what, r, routines, stacks())
}

func stacks() []byte {
	b := make([]byte, 1<<16)
	return b[:runtime.Stack(b, true)]
}

// handles follows a history and looks at what is left whenever everything is closed.
func handles(c *vh.Case) error {
	var s handlesCase
	c.Decode(&s)
	rnd := rand.New(rand.NewSource(s.Seed))
	// what is lost must not be found by the garbage collector
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	debug.SetMemoryLimit(1 << 30)
	tmp := filepath.Join(c.Scratch, "tmp")
	vh.Must(os.Mkdir(tmp, 0755))
	old := os.Getenv("TMPDIR")
	os.Setenv("TMPDIR", tmp)
	defer os.Setenv("TMPDIR", old)
	holding()
	base, routines := holding(), runtime.NumGoroutine()

	d := vhd.NewDisc(c, &s.Spec)
	defer d.Close()
	// however many files are burned, only a few are open
	var lim, few syscall.Rlimit
	vh.Must(syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim))
	few = lim
	few.Cur = 64
	vh.Must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &few))
	err := func() error {
		defer syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
		if err := d.Apply(); err != nil {
			return err
		}
		if err := d.Build(); err != nil {
			return vh.Bad("burning: %v", err)
		}
		return nil
	}()
	if err != nil {
		return err
	}
	if err := settled("after burning", base, routines); err != nil {
		return err
	}
	cache := vhd.Cache(s.Cache, filepath.Join(c.Scratch, "cache"), s.Bsize)
	if s.Cache == "disk" {
		vh.Must(os.MkdirAll(filepath.Join(c.Scratch, "cache"), 0755))
	}
	routines = runtime.NumGoroutine()

	zipped, err := os.ReadFile(filepath.Join(d.Dir, "disc.vdsc"))
	vh.Must(err)
	good := zipped
	if zr, err := gzip.NewReader(bytes.NewReader(zipped)); err == nil {
		good, err = io.ReadAll(zr)
		vh.Must(err)
	}
	discs := map[int]vdisc.VDisc{}
	files := map[int]storage.Object{}
	reads := map[int]*reading{}
	gone := map[int]bool{}
	burns := 0
	want := d.Want()

	for i, a := range s.Acts {
		what := fmt.Sprintf("act %d, %s %s", i, a.Op, a.Way)
		switch a.Op {
		case "load":
			url := filepath.Join(d.Dir, "disc.vdsc")
			other := func(b []byte) {
				url = filepath.Join(d.Dir, fmt.Sprintf("other%d.vdsc", i))
				vh.Must(os.WriteFile(url, b, 0644))
			}
			switch a.Way {
			case "nodisc":
				url += ".not"
			case "empty":
				other(nil)
			case "cut":
				other(good[:rnd.Intn(len(good))])
			case "text":
				other([]byte(strings.Repeat("not a disc. ", rnd.Intn(20)+1)))
			case "words":
				other(make([]byte, 8*rnd.Intn(64)))
			case "gzhead":
				other([]byte{0x1f, 0x8b, 0x08, 0x00, 1, 2, 3})
			case "gzcut":
				other(zipped[:4+rnd.Intn(len(zipped)-4)])
			case "version":
				b := append([]byte(nil), good...)
				switch rnd.Intn(3) {
				case 0: // a message without a disc of this version
					copy(b[16:24], make([]byte, 8))
				case 1: // the pointers of the disc
					for n := 0; n < 3; n++ {
						b[24+rnd.Intn(64)] ^= byte(1 << uint(rnd.Intn(8)))
					}
				case 2:
					for n := 0; n < 8; n++ {
						b[8+rnd.Intn(len(b)-8)] = byte(rnd.Intn(256))
					}
				}
				other(b)
			case "ok":
				if rnd.Intn(4) == 0 {
					other(good)
				}
			}
			v, err := vdisc.Load(url, cache)
			if a.Way == "ok" {
				if err != nil {
					return vh.Bad("%s: %v", what, err)
				}
				discs[a.K] = v
			} else if err == nil {
				// damage need not be noticed here
				if err := v.Close(); err != nil {
					return vh.Bad("%s: closing: %v", what, err)
				}
			}
		case "walk":
			w := iso9660.NewWalker(discs[a.H].Image())
			left := 6
			for p, n := range want {
				if left--; left < 0 {
					break
				}
				if n.K == "link" {
					continue
				}
				f, err := w.Open(p)
				if err != nil {
					return vh.Bad("%s: opening %s: %v", what, p, err)
				}
				if n.K == "dir" {
					_, err = f.ReadDir()
				} else {
					_, err = io.Copy(io.Discard, f)
					if gone[n.O] {
						err = nil
					}
				}
				if err != nil {
					return vh.Bad("%s: %s: %v", what, p, err)
				}
				if err := f.Close(); err != nil {
					return vh.Bad("%s: closing %s: %v", what, p, err)
				}
			}
		case "open":
			fi, err := iso9660.NewWalker(discs[a.H].Image()).Lstat(pathOf(want, a.O))
			if err != nil {
				return vh.Bad("%s: %v", what, err)
			}
			f, err := discs[a.H].OpenExtent(fi.Extent())
			if err != nil {
				return vh.Bad("%s: %v", what, err)
			}
			files[a.K] = f
		case "begin":
			f, ch := files[a.H], make(chan bool)
			var size int64
			id := 0
			if a.O > 0 {
				id, size = d.Objects[a.O-1].ID, d.Objects[a.O-1].Size
			}
			off, n := int64(0), size
			switch a.Way {
			case "part":
				if size > 0 {
					off = rnd.Int63n(size)
					n = rnd.Int63n(size-off) + 1
				}
			case "past":
				off, n = size, 100
			}
			o := a.O
			b := make([]byte, n)
			var m int
			var err error
			go func() {
				m, err = f.ReadAt(b, off)
				close(ch)
			}()
			reads[a.K] = &reading{ch, func() error {
				switch {
				case o == 0 || gone[o]:
				case delivered(off, n, size) != int64(m):
					return vh.Bad("%s: %d bytes, %v", what, m, err)
				case !bytes.Equal(b[:m], vh.Pattern(id, off, int64(m))):
					return vh.Bad("%s: wrong bytes", what)
				}
				return nil
			}}
		case "end":
			select {
			case <-reads[a.K].over:
				if err := reads[a.K].judge(); err != nil {
					return err
				}
			case <-time.After(15 * time.Second):
				return vh.Bad("%s: the read does not end\n%.6000s", what, stacks())
			}
		case "closefile":
			if err := files[a.H].Close(); err != nil {
				return vh.Bad("%s: %v", what, err)
			}
			delete(files, a.H)
		case "closedisc":
			if err := discs[a.H].Close(); err != nil {
				return vh.Bad("%s: %v", what, err)
			}
			delete(discs, a.H)
		case "burn":
			burns++
			out := filepath.Join(d.Dir, fmt.Sprintf("again%d.vdsc", burns))
			if a.Way == "fail" {
				// one of the two objects cannot be stored
				vh.Must(os.MkdirAll(out+[]string{"", ".isohdr"}[rnd.Intn(2)]+"/x", 0755))
			}
			b := vdisc.NewISO9660Builder(vdisc.BuilderConfig{URL: out})
			for p, n := range want {
				if n.K == "file" && !gone[n.O] {
					vh.Must(b.AddFile(p, d.Objects[n.O-1].URL, d.Objects[n.O-1].Size))
				}
			}
			if _, err := b.Build(); (err == nil) != (a.Way == "ok") {
				return vh.Bad("%s: %v", what, err)
			}
		case "gone":
			if l := d.Objects[a.O-1].Local; l != "" {
				// reads under way may still have it
				gone[a.O] = true
				vh.Must(os.Remove(filepath.Join(d.Dir, l)))
			}
		default:
			vh.Harness("act %q", a.Op)
		}
		if a.Idle {
			if err := settled(what, base, routines); err != nil {
				return err
			}
		}
	}
	if l, _ := filepath.Glob(tmp + "/*"); len(l) > 0 {
		return vh.Bad("temporary files are left: %q", l)
	}
	return nil
}

// delivered is how much a read of n bytes at off delivers.
func delivered(off, n, size int64) int64 {
	if off+n > size {
		n = size - off
	}
	return n
}

func pathOf(want map[string]vhd.Node, o int) string {
	best := ""
	for p, n := range want {
		if n.K == "file" && n.O == o && (best == "" || p < best) {
			best = p
		}
	}
	return best
}
