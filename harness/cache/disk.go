package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/OneOfOne/xxhash"
	"github.com/alecthomas/kong"
	"golang.org/x/sys/unix"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/vdisc/cli"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

type diskCase struct {
	readsCase
	Sync   bool   `json:"sync"`   // wait for write-backs, count fetches
	Root   string `json:"root"`   // name of the cache directory
	Names  int    `json:"names"`  // style of the sources' URLs
	Broken string `json:"broken"` // the cache cannot be used
}

var urlStyles = [][]string{
	{"src:1", "src:2", "src:3"},
	{"http://h/a?x=1&y=<2>", "http://h/a?x=1&y=<3>", "http://h/a?x=1"},
	{`src:1","off":0,"len":2}`, `src:1"`, `src:1`},
	{"s:/\u00e9\u2028", "s:/\u00e9", "s:/e"},
	{"s:/" + strings.Repeat("long/", 60) + "1", "s:/" + strings.Repeat("long/", 60) + "2", "s:/" + strings.Repeat("long/", 60)},
}

// entries lists the regular files below root that are neither hidden nor in hidden directories.
func entries(root string) []string {
	var l []string
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && !strings.HasPrefix(fi.Name(), ".") {
			l = append(l, p)
		}
		return nil
	})
	return l
}

func getx(path, name string) []byte {
	buf := make([]byte, 4096)
	n, err := unix.Getxattr(path, name, buf)
	if err != nil {
		return nil
	}
	return buf[:n]
}

// checkEntry verifies that the file is a complete block with checksum.
func checkEntry(path string, known func(data []byte) bool) error {
	f, err := os.Open(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		return err
	}
	defer f.Close()
	data, err := ioutil.ReadAll(f)
	vh.Must(err)
	buf := make([]byte, 4096)
	n, err := unix.Fgetxattr(int(f.Fd()), caching.XattrChecksum, buf)
	if err != nil {
		return vh.Bad("entry %s (%d bytes) has no checksum: %v", filepath.Base(path), len(data), err)
	}
	if n != 8 || binary.LittleEndian.Uint64(buf) != xxhash.Checksum64(data) {
		return vh.Bad("entry %s (%d bytes) has checksum %x, its content %x", filepath.Base(path), len(data), buf[:n], xxhash.Checksum64(data))
	}
	if _, err := unix.Fgetxattr(int(f.Fd()), caching.XattrKey, buf); err != nil {
		return vh.Bad("entry %s has no key: %v", filepath.Base(path), err)
	}
	if !known(data) {
		return vh.Bad("entry %s (%d bytes) is no block of a source", filepath.Base(path), len(data))
	}
	return nil
}

func knownBlocks(srcs []*source) func([]byte) bool {
	return func(data []byte) bool {
		for _, s := range srcs {
			if bytes.Contains(vh.Pattern(s.id, 0, s.size), data) {
				return true
			}
		}
		return false
	}
}

// replace puts another file in the place of an entry at once, as write-backs may be going on.
func replace(scratch, path string, data, key []byte) {
	t := filepath.Join(scratch, "t")
	vh.Must(ioutil.WriteFile(t, data, 0600))
	if key != nil {
		vh.Must(unix.Setxattr(t, caching.XattrKey, key, 0))
	}
	vh.Must(os.Rename(t, path))
}

func diskReads(c *vh.Case) error {
	var s diskCase
	c.Decode(&s)
	root := filepath.Join(c.Scratch, s.Root)
	vh.Must(os.MkdirAll(filepath.Dir(root), 0700))
	switch s.Broken {
	case "":
	case "rootfile":
		vh.Must(ioutil.WriteFile(root, nil, 0600))
	case "v0file":
		vh.Must(os.MkdirAll(root, 0700))
		vh.Must(ioutil.WriteFile(filepath.Join(root, "v0"), nil, 0600))
	case "dirs": // every possible place of an entry's directory is a file
		vh.Must(os.MkdirAll(filepath.Join(root, "v0"), 0700))
		for i := 0; i < 256; i++ {
			vh.Must(ioutil.WriteFile(filepath.Join(root, "v0", fmt.Sprintf("%02x", i)), nil, 0600))
		}
	}
	var srcs []*source
	for i, n := range s.Sizes {
		src := newSource(i+1, n, s.Unit)
		src.cut = s.Cut
		src.url = urlStyles[s.Names%len(urlStyles)][i]
		srcs = append(srcs, src)
	}
	bsize := s.Bsize * s.Unit
	var slicer *caching.DiskSlicer
	var objs []storage.Object
	var slicers []*caching.DiskSlicer
	restart := func() {
		slicer = caching.NewDiskSlicer(root, bsize)
		slicers = append(slicers, slicer)
		cache := caching.NewCache(slicer, s.Window, s.Tokens)
		objs = nil
		for _, src := range srcs {
			objs = append(objs, cache.WithCaching(src))
		}
	}
	restart()
	defer func() {
		for _, sl := range slicers {
			sl.Wait()
		}
	}()
	// concurrent readers besides the history
	stop := make(chan struct{})
	var wg sync.WaitGroup
	errs := make(chan error, 16)
	for g := 1; g < s.Conc; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			sl := caching.NewDiskSlicer(root, bsize)
			defer sl.Wait()
			cache := caching.NewCache(sl, s.Window, s.Tokens)
			var mine []storage.Object
			for _, src := range srcs {
				mine = append(mine, cache.WithCaching(src))
			}
			for k := range s.Ops {
				select {
				case <-stop:
					return
				default:
				}
				op := s.Ops[(k*(1+g)+g)%len(s.Ops)]
				if op.Op != "read" {
					continue
				}
				op.cut = s.Cut
				if err := checkRead(mine[op.O-1], op.O, op, s.Unit, 0, srcs[op.O-1].size, nil); err != nil {
					errs <- fmt.Errorf("reader %d: %w", g, err)
					return
				}
			}
		}(g)
	}
	defer wg.Wait()
	defer close(stop)
	for i, op := range s.Ops {
		switch op.Op {
		case "read":
			src := srcs[op.O-1]
			src.mu.Lock()
			src.offs = nil
			src.mu.Unlock()
			if s.Broken != "" {
				op.R.Mayfail = true
			}
			op.cut = s.Cut
			if err := checkRead(objs[op.O-1], op.O, op, s.Unit, s.Jitter, src.size, nil); err != nil {
				return fmt.Errorf("op %d: %w", i, err)
			}
			if s.Sync {
				slicer.Wait()
				blocks := map[int64]bool{}
				src.mu.Lock()
				for _, o := range src.offs {
					blocks[o/bsize] = true
				}
				src.mu.Unlock()
				if s.Window == 0 && s.Broken == "" && s.Conc < 2 && len(blocks) > op.R.Most {
					return vh.Bad("op %d: %d blocks were fetched from the source, %d were not cached", i, len(blocks), op.R.Most)
				}
			}
		case "fail":
			srcs[op.O-1].mu.Lock()
			srcs[op.O-1].bad[op.Off] = true
			srcs[op.O-1].mu.Unlock()
		case "recover":
			for _, src := range srcs {
				src.mu.Lock()
				src.bad = map[int64]bool{}
				src.mu.Unlock()
			}
		case "resize":
			srcs[op.O-1] = srcs[op.O-1].resized(op.Len)
			restart()
		case "restart":
			restart()
		case "bsize":
			bsize = op.Bsize * s.Unit
			restart()
		case "drop":
			for k, p := range entries(root) {
				if (k+i)%3 != 0 {
					os.Remove(p)
				}
			}
		case "swap": // entries under each other's names
			l := entries(root)
			sort.Strings(l)
			for k := 0; k+1 < len(l); k += 2 {
				vh.Must(os.Rename(l[k], filepath.Join(c.Scratch, "t")))
				vh.Must(os.Rename(l[k+1], l[k]))
				vh.Must(os.Rename(filepath.Join(c.Scratch, "t"), l[k+1]))
			}
		case "strip": // entries without key, with other content
			for _, p := range entries(root) {
				replace(c.Scratch, p, []byte("rubbish rubbish rubbish rubbish"), nil)
			}
		case "rekey": // entries of something else
			for k, p := range entries(root) {
				key := []byte(fmt.Sprintf(`{"url":"src:9%d","off":0,"len":5}`, k))
				if old := getx(p, caching.XattrKey); k%2 == 1 && len(old) > 2 {
					key = old[:len(old)-1]
				}
				replace(c.Scratch, p, []byte("other"), key)
			}
		default:
			vh.Harness("op %q", op.Op)
		}
		select {
		case err := <-errs:
			return err
		default:
		}
	}
	return nil
}

// countGoal wants entries removed while more than goal[n] are left at the nth question.
type countGoal struct {
	root    string
	goals   []int
	asked   int
	vanish  map[int]int
	removed []int // entries left at each question
	act     func(n int)
	late    bool
}

func (g *countGoal) GcNeeded(st *syscall.Statfs_t) bool {
	if g.act != nil {
		g.act(g.asked)
	}
	n := len(entries(g.root))
	g.removed = append(g.removed, n)
	goal := g.goals[minI(g.asked, len(g.goals)-1)]
	g.asked++
	return n > goal
}

type gcCase struct {
	Entries int   `json:"entries"`
	Goals   []int `json:"goals"`
	Vanish  []int `json:"vanish"` // question before which an entry vanishes
	Junk    bool  `json:"junk"`
	Readers bool  `json:"readers"`
	Left    int   `json:"left"` // entries left in the end
	Dense   int   `json:"dense"` // put the entries into this many directories
	Empty   int   `json:"empty"` // empty directories that vanish during the collection
}

func fill(root string, src *source, blocks int, unit int64) {
	sl := caching.NewDiskSlicer(root, unit)
	for b := 0; b < blocks; b++ {
		sl.Slice(src, int64(b)*unit).ReadAhead()
	}
	sl.Wait()
}

func tree(root string) map[string]string {
	m := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			rel, _ := filepath.Rel(root, p)
			d := fi.Mode().String()
			if fi.Mode().IsRegular() {
				b, _ := ioutil.ReadFile(p)
				d += fmt.Sprintf(" %x %x", b, getx(p, caching.XattrChecksum))
			}
			m[rel] = d
		}
		return nil
	})
	return m
}

// place puts things into the cache directory that are no entries.
func placeJunk(scratch, root string) {
	ds, _ := filepath.Glob(filepath.Join(root, "v0", "*"))
	for k, d := range ds {
		switch k % 3 {
		case 0:
			vh.Must(ioutil.WriteFile(filepath.Join(d, ".tmp.filedriver12345"), []byte("half"), 0600))
		case 1:
			vh.Must(ioutil.WriteFile(filepath.Join(d, ".lock.0123456789"), nil, 0600))
		case 2:
			vh.Must(os.MkdirAll(filepath.Join(d, "subdir", "x"), 0700))
			vh.Must(ioutil.WriteFile(filepath.Join(d, "subdir", ".keep"), []byte("k"), 0600))
		}
	}
	vh.Must(os.MkdirAll(filepath.Join(root, "v0", "longname"), 0700))
	vh.Must(os.MkdirAll(filepath.Join(root, "v1", "ab"), 0700))
	vh.Must(ioutil.WriteFile(filepath.Join(root, "v1", "ab", ".x"), []byte("other version"), 0600))
	vh.Must(ioutil.WriteFile(filepath.Join(root, ".readme"), []byte("text"), 0600))
	vh.Must(ioutil.WriteFile(filepath.Join(scratch, "outside"), []byte("text"), 0600))
	vh.Must(os.MkdirAll(filepath.Join(scratch, "v0", "ab"), 0700))
	vh.Must(ioutil.WriteFile(filepath.Join(scratch, "v0", "ab", "cdef"), []byte("text"), 0600))
}

func gcDriver(c *vh.Case) error {
	var s gcCase
	c.Decode(&s)
	const unit = 16
	root := filepath.Join(c.Scratch, "cache")
	vh.Must(os.MkdirAll(root, 0700))
	src := newSource(1, int64(s.Entries), unit)
	fill(root, src, s.Entries, unit)
	if n := len(entries(root)); n != s.Entries {
		return vh.Bad("%d entries after filling %d blocks", n, s.Entries)
	}
	if ds, _ := filepath.Glob(filepath.Join(root, "v0", "*")); s.Dense > 0 && len(ds) > s.Dense {
		for k, p := range entries(root) {
			vh.Must(os.Rename(p, filepath.Join(ds[k%s.Dense], filepath.Base(p))))
		}
	}
	if s.Junk {
		placeJunk(c.Scratch, root)
	}
	var empty []string
	for k := 0; k < s.Empty; k++ {
		empty = append(empty, filepath.Join(root, "v0", fmt.Sprintf("%c%c", 'g'+rune(k%10), 'g'+rune(k/10))))
		vh.Must(os.MkdirAll(empty[k], 0700))
	}
	before := tree(c.Scratch)
	for _, d := range empty {
		rel, _ := filepath.Rel(c.Scratch, d)
		delete(before, rel)
	}
	goal := &countGoal{root: root, goals: s.Goals}
	vanish := map[int]int{}
	for _, k := range s.Vanish {
		vanish[k]++
	}
	gone := 0
	goal.act = func(n int) {
		if n == 1 {
			for _, d := range empty {
				os.Remove(d)
			}
		}
		l := entries(root)
		for k := 0; k < vanish[n] && k < len(l); k++ {
			vh.Must(os.Remove(l[(k+n*3)%len(l)]))
			gone++
		}
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	errs := make(chan error, 8)
	if s.Readers {
		for g := 0; g < 3; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				sl := caching.NewDiskSlicer(root, unit)
				defer sl.Wait()
				o := caching.NewCache(sl, 0, 1).WithCaching(src)
				for k := g; ; k += 3 {
					select {
					case <-stop:
						return
					default:
					}
					b := int64(k*5+g) % int64(s.Entries)
					buf := make([]byte, unit+3)
					n, err := o.ReadAt(buf, b*unit)
					if err != nil && err != io.EOF || n == 0 || !bytes.Equal(buf[:n], vh.Pattern(1, b*unit, int64(n))) {
						errs <- vh.Bad("a read of block %d during the collection: %d bytes %x, %v", b, n, buf[:n], err)
						return
					}
				}
			}(g)
		}
		time.Sleep(time.Millisecond)
	}
	fin := make(chan struct{})
	go func() {
		defer close(fin)
		caching.NewDiskSlicer(root, unit).Gc(goal)
	}()
	select {
	case <-fin:
	case <-time.After(20 * time.Second):
		close(stop)
		return vh.Bad("collection does not end (%d questions, %d entries)", goal.asked, len(entries(root)))
	}
	close(stop)
	wg.Wait()
	select {
	case err := <-errs:
		return err
	default:
	}
	after := tree(c.Scratch)
	ents := map[string]bool{}
	for k := range before {
		parts := strings.Split(k, "/")
		if len(parts) == 4 && parts[0] == "cache" && parts[1] == "v0" && !strings.HasPrefix(parts[3], ".") && len(parts[2]) == 2 && before[k][0] == '-' {
			ents[k] = true
		}
	}
	for k, v := range before {
		if ents[k] {
			continue
		}
		if w, ok := after[k]; !ok || (w != v && !strings.HasPrefix(filepath.Base(k), ".lock")) {
			return vh.Bad("%s is not a cached block but was removed or changed by the collection: %q %q", k, v, w)
		}
	}
	if s.Readers {
		return nil
	}
	if n := len(entries(root)); n != s.Left {
		return vh.Bad("%d entries left of %d, goals %v, vanished %d: %d were expected (entries at each look: %v)", n, s.Entries, s.Goals, gone, s.Left, goal.removed)
	}
	for i := 1; i < len(goal.removed); i++ {
		d := goal.removed[i-1] - goal.removed[i] - vanish[i]
		if d > 1 {
			return vh.Bad("%d entries were removed without asking again", d)
		}
	}
	return nil
}

type fsckCase struct {
	Entries int      `json:"entries"`
	Damage  []string `json:"damage"` // of the entries in turn
	Benign  []string `json:"benign"`
	Size    int64    `json:"size"`
	Ok      bool     `json:"ok"`
	Fds     int      `json:"fds"`
}

func fsckDriver(c *vh.Case) error {
	var s fsckCase
	c.Decode(&s)
	root := filepath.Join(c.Scratch, "cache")
	vh.Must(os.MkdirAll(root, 0700))
	src := newSource(1, int64(s.Entries), s.Size)
	if s.Entries > 0 && s.Size > 1 {
		src.size -= s.Size / 2 // a short last block
	}
	fill(root, src, s.Entries, s.Size)
	l := entries(root)
	if len(l) != s.Entries {
		return vh.Bad("%d entries after filling %d blocks", len(l), s.Entries)
	}
	sort.Strings(l)
	for i, d := range s.Damage {
		p := l[i]
		data, err := ioutil.ReadFile(p)
		vh.Must(err)
		switch d {
		case "none":
		case "flip":
			data[(i*13)%len(data)] ^= 1 << uint(i%8)
			vh.Must(rewrite(p, data))
		case "truncate":
			vh.Must(os.Truncate(p, int64(len(data)-1)))
		case "empty":
			vh.Must(os.Truncate(p, 0))
		case "extend":
			vh.Must(rewrite(p, append(data, 0)))
		case "nosum":
			vh.Must(unix.Removexattr(p, caching.XattrChecksum))
		case "shortsum":
			vh.Must(unix.Setxattr(p, caching.XattrChecksum, getx(p, caching.XattrChecksum)[:5], 0))
		case "emptysum":
			vh.Must(unix.Setxattr(p, caching.XattrChecksum, nil, 0))
		case "wrongsum":
			b := getx(p, caching.XattrChecksum)
			b[i%8] ^= 0x10
			vh.Must(unix.Setxattr(p, caching.XattrChecksum, b, 0))
		case "longsum":
			vh.Must(unix.Setxattr(p, caching.XattrChecksum, append(getx(p, caching.XattrChecksum), 0), 0))
		case "loop": // cannot be opened
			vh.Must(os.Remove(p))
			vh.Must(os.Symlink(filepath.Base(p), p))
		case "flipend":
			data[len(data)-1] ^= 1 << uint(i%8)
			vh.Must(rewrite(p, data))
		case "stranger":
			vh.Must(os.Remove(p))
			vh.Must(ioutil.WriteFile(p, []byte("not an entry"), 0600))
		case "gone":
			vh.Must(os.Remove(p))
		default:
			vh.Harness("damage %q", d)
		}
	}
	for _, b := range s.Benign {
		switch b {
		case "junk":
			placeJunk(c.Scratch, root)
		case "nocache":
			vh.Must(os.RemoveAll(root))
		}
	}
	before := tree(c.Scratch)
	if s.Fds > 0 {
		var old syscall.Rlimit
		vh.Must(syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old))
		low := old
		low.Cur = uint64(s.Fds)
		vh.Must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low))
		defer syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
	}
	err := caching.NewDiskSlicer(root, s.Size).CheckIntegrity()
	if s.Ok && err != nil {
		return vh.Bad("%d intact entries (%v), yet: %v", s.Entries, s.Benign, err)
	}
	if !s.Ok && err == nil {
		return vh.Bad("damage %v passed the check", s.Damage)
	}
	if s.Fds == 0 {
		after := tree(c.Scratch)
		a, _ := json.Marshal(before)
		b, _ := json.Marshal(after)
		if !bytes.Equal(a, b) {
			return vh.Bad("the check changed the cache")
		}
	}
	return nil
}

// rewrite replaces the content and keeps the attributes.
func rewrite(p string, data []byte) error {
	f, err := os.OpenFile(p, os.O_WRONLY|os.O_TRUNC, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	_, err = f.Write(data)
	return err
}

type goalCase struct {
	Text  string `json:"text"`
	Kind  string `json:"kind"`
	Value int64  `json:"value"` // bytes, or hundredths of a percent
}

func goalDriver(c *vh.Case) error {
	var s goalCase
	c.Decode(&s)
	var cli struct {
		Gc vdisc_cli.GcCmd `cmd`
	}
	p, err := kong.New(&cli, vdisc_cli.GcThresholdTypeMapper())
	vh.Must(err)
	_, err = p.Parse([]string{"gc", "--threshold=" + s.Text})
	if s.Kind == "bad" {
		if err == nil {
			return vh.Bad("%q was accepted as a goal", s.Text)
		}
		return nil
	}
	if err != nil {
		return vh.Bad("%q was refused: %v", s.Text, err)
	}
	for _, bs := range []int64{1, 512, 4096} {
		for _, blocks := range []uint64{1, 3, 1000, 10000, 1 << 22, 1 << 40} {
			var frees []uint64
			edge := uint64(s.Value) / uint64(bs)
			if s.Kind == "pct" {
				edge = blocks / 10000 * uint64(s.Value)
			}
			for _, f := range []uint64{0, 1, edge - 1, edge, edge + 1, blocks / 2, blocks} {
				if f <= blocks {
					frees = append(frees, f)
				}
			}
			for _, f := range frees {
				st := syscall.Statfs_t{Bsize: bs, Frsize: bs, Blocks: blocks, Bfree: f, Bavail: f}
				var want bool
				if s.Kind == "abs" {
					want = int64(f)*bs < s.Value
				} else {
					l, r := f*10000, blocks*uint64(s.Value)
					if d := int64(l - r); blocks > 1<<22 && d > -1e9 && d < 1e9 && d != 0 { // rounding
						continue
					}
					want = l < r
				}
				if got := cli.Gc.Threshold.GcNeeded(&st); got != want {
					return vh.Bad("goal %q, %d of %d blocks of %d bytes free: collection needed = %v", s.Text, f, blocks, bs, got)
				}
			}
		}
	}
	return nil
}
