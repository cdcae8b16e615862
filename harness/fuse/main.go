package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"path"
	"reflect"
	"sort"
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/jacobsa/fuse"
	"github.com/jacobsa/fuse/fuseops"
	"github.com/jacobsa/fuse/fuseutil"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/isofuse"
	"github.com/NVIDIA/vdisc/pkg/storage"
	vhd "github.com/NVIDIA/vdisc/pkg/zzvhdisc"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

func main() {
	vh.Main(map[string]vh.Driver{"fuse": fuseDriver})
}

type request struct {
	Op   string   `json:"op"`
	P    []string `json:"p"`
	Name string   `json:"name"`
	N    uint64   `json:"n"`
	H    int      `json:"h"`
	Off  int      `json:"off"`
	Len  int      `json:"len"`
	Plan int      `json:"plan"`
	F    string   `json:"f"`
	Want string   `json:"want"`
}

type fuseCase struct {
	vhd.Spec
	Req  []request `json:"req"`
	Conc bool      `json:"conc"`
	Seed int64     `json:"seed"`
}

// volume is the disc, failing on demand.
type volume struct {
	d     *vhd.Disc
	mode  atomic.Value // "ok", "all", "late"
	src   atomic.Value
	first map[int64]bool // first sectors of directories

	mu   sync.Mutex
	open []*file
}

type image struct {
	storage.AnonymousObject
	v *volume
}

func (i *image) ReadAt(p []byte, off int64) (int, error) {
	switch i.v.mode.Load().(string) {
	case "all":
		return 0, vh.ErrInjected
	case "late":
		for s := off / 2048; s*2048 < off+int64(len(p)); s++ {
			if !i.v.first[s] {
				n := s*2048 - off
				if n <= 0 {
					return 0, vh.ErrInjected
				}
				n0, err := i.AnonymousObject.ReadAt(p[:n], off)
				if err == nil {
					err = vh.ErrInjected
				}
				return n0, err
			}
		}
	}
	return i.AnonymousObject.ReadAt(p, off)
}

type file struct {
	storage.Object
	v      *volume
	closed int32
}

func (f *file) ReadAt(p []byte, off int64) (int, error) {
	if atomic.LoadInt32(&f.closed) != 0 {
		return 0, fmt.Errorf("read of a closed object")
	}
	if f.v.src.Load().(string) != "ok" {
		if off%4 == 0 {
			return 0, vh.ErrInjected
		}
		n, _ := f.Object.ReadAt(p[:len(p)/2], off)
		return n, vh.ErrInjected
	}
	return f.Object.ReadAt(p, off)
}

func (f *file) Close() error {
	atomic.AddInt32(&f.closed, 1)
	return f.Object.Close()
}

func (v *volume) Image() storage.AnonymousObject { return &image{v.d.V.Image(), v} }
func (v *volume) OpenExtent(lba iso9660.LogicalBlockAddress) (storage.Object, error) {
	o, err := v.d.V.OpenExtent(lba)
	if err != nil {
		return nil, err
	}
	f := &file{Object: o, v: v}
	v.mu.Lock()
	v.open = append(v.open, f)
	v.mu.Unlock()
	return f, nil
}

func filesystem(s *isofuse.Server) fuseutil.FileSystem {
	val := reflect.ValueOf(s).Elem()
	for i := 0; i < val.NumField(); i++ {
		f := val.Field(i)
		x := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface()
		if fs, ok := x.(fuseutil.FileSystem); ok {
			return fs
		}
	}
	vh.Harness("no file system in the server")
	return nil
}

type run struct {
	s    *fuseCase
	d    *vhd.Disc
	v    *volume
	fs   fuseutil.FileSystem
	want map[string]vhd.Node
	info map[string]*iso9660.FileInfo // by path
	mu   sync.Mutex
	rnd  *rand.Rand
	hs   map[int]fuseops.HandleID
	used map[fuseops.HandleID]int
}

var ctx = context.Background()

func (r *run) intn(n int) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.rnd.Intn(n)
}

func (r *run) ino(p string) fuseops.InodeID {
	if fi := r.info[p]; fi != nil {
		return fuseops.InodeID(fi.Ino())
	}
	vh.Harness("no inode of %q", p)
	return 0
}

func (r *run) checkAttr(p string, a fuseops.InodeAttributes) error {
	n, fi := r.want[p], r.info[p]
	if p == "/" {
		n.K = "dir"
	}
	kind := "file"
	if a.Mode.IsDir() {
		kind = "dir"
	} else if a.Mode&^0777 != 0 {
		kind = "link"
	}
	if kind != n.K {
		return vh.Bad("%q is a %s (%v), burned as a %s", p, kind, a.Mode, n.K)
	}
	if n.K == "file" && a.Size != uint64(r.d.Objects[n.O-1].Size) {
		return vh.Bad("%q has size %d, burned with %d", p, a.Size, r.d.Objects[n.O-1].Size)
	}
	if a.Size != uint64(fi.Size()) || a.Nlink != fi.Nlink() || a.Mode != fi.Mode() || !a.Mtime.Equal(fi.ModTime()) || a.Uid != fi.Uid() || a.Gid != fi.Gid() {
		return vh.Bad("%q has attributes %+v, on the disc %+v", p, a, fi)
	}
	return nil
}

// outcome compares an error with what is wanted; done tells to look no further.
func outcome(what, want string, err error) (done bool, _ error) {
	bad := vh.Bad("%s: error %v, but %s is specified", what, err, want)
	is := func(e error) bool { return err == e }
	switch want {
	case "ok":
		if err != nil {
			return true, bad
		}
		return false, nil
	case "any":
		return true, nil
	case "error":
		if err == nil {
			return true, bad
		}
	case "EIO":
		if !is(fuse.EIO) {
			return true, bad
		}
	case "ENOENT":
		if !is(fuse.ENOENT) {
			return true, bad
		}
	case "okEIO":
		if err == nil {
			return false, nil
		}
		if !is(fuse.EIO) {
			return true, bad
		}
	case "ENOENTEIO":
		if !is(fuse.EIO) && !is(fuse.ENOENT) {
			return true, bad
		}
	default:
		vh.Harness("want %q", want)
	}
	return true, nil
}

func (r *run) do(i int, q request) error {
	p := "/" + vhd.Path(q.P, false)
	what := fmt.Sprintf("request %d, %s %.60q", i, q.Op, p)
	switch q.Op {
	case "lookup":
		name := vhd.Name(q.Name)
		what += fmt.Sprintf(" %.60q", name)
		op := &fuseops.LookUpInodeOp{Parent: r.ino(p), Name: name}
		err := r.fs.LookUpInode(ctx, op)
		want := q.Want
		if want == "lateENOENT" {
			want = "ENOENTEIO"
			if r.info[p].Size() > 2048 {
				want = "EIO"
			}
		}
		if done, err := outcome(what, want, err); done {
			return err
		}
		c := path.Join(p, name)
		if op.Entry.Child != r.ino(c) {
			return vh.Bad("%s gives inode %d, not %d", what, op.Entry.Child, r.ino(c))
		}
		if err := r.checkAttr(c, op.Entry.Attributes); err != nil {
			return err
		}
		if want != "ok" {
			// the specification does not count this one
			if err := r.fs.ForgetInode(ctx, &fuseops.ForgetInodeOp{Inode: op.Entry.Child, N: 1}); err != nil {
				return vh.Bad("%s: forgetting again: %v", what, err)
			}
		}
	case "forget":
		_, err := outcome(what, q.Want, r.fs.ForgetInode(ctx, &fuseops.ForgetInodeOp{Inode: r.ino(p), N: q.N}))
		return err
	case "attr":
		op := &fuseops.GetInodeAttributesOp{Inode: r.ino(p)}
		if done, err := outcome(what, q.Want, r.fs.GetInodeAttributes(ctx, op)); done {
			return err
		}
		return r.checkAttr(p, op.Attributes)
	case "readlink":
		op := &fuseops.ReadSymlinkOp{Inode: r.ino(p)}
		if done, err := outcome(what, q.Want, r.fs.ReadSymlink(ctx, op)); done {
			return err
		}
		if t := path.Clean(vhd.Target(r.want[p].T)); op.Target != t {
			return vh.Bad("%s: target %q instead of %q", what, op.Target, t)
		}
	case "list":
		return r.list(what, p, q)
	case "open":
		op := &fuseops.OpenFileOp{Inode: r.ino(p)}
		if done, err := outcome(what, q.Want, r.fs.OpenFile(ctx, op)); done {
			return err
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		if h, ok := r.used[op.Handle]; ok {
			return vh.Bad("%s: handle %d was given to open %d before", what, op.Handle, h)
		}
		r.used[op.Handle] = q.H
		r.hs[q.H] = op.Handle
	case "read":
		h := fuseops.HandleID(0)
		if q.H == 0 {
			h = fuseops.HandleID(1<<40 + r.intn(9))
		} else {
			r.mu.Lock()
			h = r.hs[q.H]
			r.mu.Unlock()
		}
		var size int64
		id := 0
		if q.H != 0 {
			o := r.d.Objects[r.want[p].O-1]
			size, id = o.Size, o.ID
		}
		off := []int64{0, 1, size / 2, size - 1, size, size + 1, 2047, 2048}[q.Off]
		n := []int64{1, 10, 100, 2048, 4096, 65536, 131072, size}[q.Len]
		if off < 0 {
			off = 0
		}
		if n > 1<<20 {
			n = 1 << 20
		}
		op := &fuseops.ReadFileOp{Inode: 77, Handle: h, Offset: off, Dst: bytes.Repeat([]byte{0xee}, int(n))}
		if q.H != 0 {
			op.Inode = r.ino(p)
		}
		if done, err := outcome(fmt.Sprintf("%s of handle %d: %d bytes at %d", what, q.H, n, off), q.Want, r.fs.ReadFile(ctx, op)); done {
			return err
		}
		if off > size {
			off = size
		}
		if n > size-off {
			n = size - off
		}
		if int64(op.BytesRead) != n {
			return vh.Bad("%s: %d bytes at %d instead of %d", what, op.BytesRead, off, n)
		}
		if !bytes.Equal(op.Dst[:n], vh.Pattern(id, off, n)) {
			return vh.Bad("%s: wrong bytes at %d", what, off)
		}
	case "release":
		h := fuseops.HandleID(1<<40 + 5)
		if q.H != 0 {
			r.mu.Lock()
			h = r.hs[q.H]
			r.mu.Unlock()
		}
		_, err := outcome(what, q.Want, r.fs.ReleaseFileHandle(ctx, &fuseops.ReleaseFileHandleOp{Handle: h}))
		return err
	case "fail":
		if q.F == "src" {
			r.v.src.Store("bad")
		} else if q.F == "meta" {
			r.v.mode.Store("all")
		} else {
			r.v.mode.Store("late")
		}
	case "mend":
		r.v.src.Store("ok")
		r.v.mode.Store("ok")
	default:
		vh.Harness("request %q", q.Op)
	}
	return nil
}

type dirent struct {
	ino, off uint64
	name     string
	typ      uint32
}

func dirents(b []byte) (l []dirent, err error) {
	for len(b) > 0 {
		if len(b) < 24 {
			return nil, vh.Bad("listing ends with %d bytes", len(b))
		}
		e := dirent{ino: binary.LittleEndian.Uint64(b), off: binary.LittleEndian.Uint64(b[8:]), typ: binary.LittleEndian.Uint32(b[20:])}
		n := int(binary.LittleEndian.Uint32(b[16:]))
		full := (24 + n + 7) / 8 * 8
		if full > len(b) {
			return nil, vh.Bad("entry of %d bytes in %d", full, len(b))
		}
		e.name = string(b[24 : 24+n])
		l = append(l, e)
		b = b[full:]
	}
	return l, nil
}

func (r *run) list(what, p string, q request) error {
	ino := r.ino(p)
	od := &fuseops.OpenDirOp{Inode: ino}
	if err := r.fs.OpenDir(ctx, od); err != nil {
		if q.Want == "ok" {
			return vh.Bad("%s: opening: %v", what, err)
		}
		if q.Want != "okEIO" {
			_, err := outcome(what, q.Want, err)
			return err
		}
		return nil
	}
	defer r.fs.ReleaseDirHandle(ctx, &fuseops.ReleaseDirHandleOp{Handle: od.Handle})
	// read lists from an offset; the error is the request's
	read := func(off uint64, size int) ([]dirent, error, error) {
		op := &fuseops.ReadDirOp{Inode: ino, Handle: od.Handle, Offset: fuseops.DirOffset(off), Dst: make([]byte, size)}
		if err := r.fs.ReadDir(ctx, op); err != nil {
			return nil, err, nil
		}
		if op.BytesRead > size {
			return nil, nil, vh.Bad("%s: %d bytes read into %d", what, op.BytesRead, size)
		}
		l, err := dirents(op.Dst[:op.BytesRead])
		return l, nil, err
	}
	sizeOf := func() int {
		switch q.Plan {
		case 0:
			return 4096
		case 1:
			return 65536
		case 2:
			return 300
		case 5:
			return 512
		}
		return []int{32, 64, 100, 300, 311, 400, 700, 1000, 4096, 4100, 9000}[r.intn(11)]
	}
	var all []dirent
	offs := []uint64{0}
	for off := uint64(0); ; {
		size := sizeOf()
		l, rerr, err := read(off, size)
		if err != nil {
			return err
		}
		if rerr == nil && len(l) == 0 {
			l, rerr, err = read(off, 32768) // no room for the next entry, or the end
			if err != nil {
				return err
			}
		}
		if rerr != nil {
			if q.Want == "ok" {
				return vh.Bad("%s: %v after %d entries", what, rerr, len(all))
			}
			_, err := outcome(what, q.Want, rerr)
			return err
		}
		if q.Want == "error" || q.Want == "EIO" {
			return vh.Bad("%s succeeds, but %s is specified", what, q.Want)
		}
		if len(l) == 0 {
			break
		}
		all = append(all, l...)
		for _, e := range l {
			offs = append(offs, e.off)
		}
		off = l[len(l)-1].off
		if len(all) > 2000 {
			return vh.Bad("%s does not end", what)
		}
	}
	exp := vhd.Children(r.want, p)
	seen := map[string]bool{}
	for _, e := range all {
		if seen[e.name] {
			return vh.Bad("%s: entry %.60q twice", what, e.name)
		}
		seen[e.name] = true
		c := path.Join(p, e.name)
		if e.name == ".." {
			c = path.Dir(p)
		} else if e.name != "." {
			n, ok := exp[e.name]
			if !ok {
				return vh.Bad("%s: entry %.60q was never burned", what, e.name)
			}
			if t := map[string]uint32{"dir": 4, "file": 8, "link": 10}[n.K]; e.typ != t {
				return vh.Bad("%s: entry %.60q has type %d instead of %d", what, e.name, e.typ, t)
			}
		}
		if e.ino != uint64(r.ino(c)) {
			return vh.Bad("%s: entry %.60q is inode %d, not %d", what, e.name, e.ino, r.ino(c))
		}
	}
	for n := range exp {
		if !seen[n] {
			return vh.Bad("%s: entry %.60q is missing", what, n)
		}
	}
	if q.Plan >= 2 && q.Want == "ok" {
		// resume anywhere
		for k := 0; k < 4; k++ {
			at := r.intn(len(offs))
			l, rerr, err := read(offs[at], []int{700, 5000, 40000}[r.intn(3)])
			if err != nil {
				return err
			}
			if rerr != nil {
				return vh.Bad("%s: resuming after %d entries: %v", what, at, rerr)
			}
			for j, e := range l {
				if at+j >= len(all) || e != all[at+j] {
					return vh.Bad("%s: resuming after %d entries gives %+v", what, at, e)
				}
			}
		}
	}
	return nil
}

func fuseDriver(c *vh.Case) error {
	var s fuseCase
	c.Decode(&s)
	d := vhd.NewDisc(c, &s.Spec)
	defer d.Close()
	if err := d.Apply(); err != nil {
		return err
	}
	if err := d.Build(); err != nil {
		return vh.Bad("burning: %v", err)
	}
	if err := d.Load(); err != nil {
		return err
	}
	r := &run{s: &s, d: d, want: d.Want(), info: map[string]*iso9660.FileInfo{}, rnd: rand.New(rand.NewSource(s.Seed)),
		hs: map[int]fuseops.HandleID{}, used: map[fuseops.HandleID]int{}}
	r.v = &volume{d: d, first: map[int64]bool{}}
	r.v.mode.Store("ok")
	r.v.src.Store("ok")
	// the inode numbers of everything
	byIno := map[uint32]string{}
	paths := []string{"/"}
	for p := range r.want {
		if p != "/" {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, p := range paths {
		fi, err := d.W.Lstat(p)
		if err != nil {
			return vh.Bad("looking up %.60q: %v", p, err)
		}
		if o, ok := byIno[fi.Ino()]; ok {
			return vh.Bad("%.60q and %.60q are both inode %d", o, p, fi.Ino())
		}
		byIno[fi.Ino()] = p
		r.info[p] = fi
		if fi.IsDir() {
			r.v.first[int64(fi.Extent())] = true
		}
	}
	if r.info["/"].Ino() != 1 {
		return vh.Bad("the root is inode %d", r.info["/"].Ino())
	}
	srv, err := isofuse.NewWithOptions("/nonexistent", r.v, isofuse.Options{})
	if err != nil {
		return vh.Bad("making the server: %v", err)
	}
	r.fs = filesystem(srv)
	if err := r.requests(); err != nil {
		return err
	}
	// every inode and handle that is not referenced any more is gone
	return r.settled()
}

// requests performs them, several at once where the specification's answers do not depend on the order.
func (r *run) requests() error {
	refs := map[string]int64{} // by now
	i := 0
	for i < len(r.s.Req) {
		j := i
		if r.s.Conc && r.v.mode.Load() == "ok" && r.v.src.Load() == "ok" {
			gone := map[string]int64{}   // forgotten in this group
			needs := map[string]bool{}   // inodes that have to be referenced throughout
			opened := map[int]bool{}     // in this group
			unsteady := map[int]bool{}   // handles read or released in this group
			hold := map[string]bool{}    // inodes that must be unknown throughout
			gained := map[string]int64{} // references of this group
		group:
			for ; j < len(r.s.Req) && j-i < 12; j++ {
				q := r.s.Req[j]
				p := "/" + vhd.Path(q.P, false)
				root := p == "/"
				switch q.Op {
				case "lookup", "attr", "readlink", "list", "open":
					if q.Want == "error" {
						if gained[p] > 0 || gone[p] > 0 || refs[p] > 0 {
							break group
						}
						hold[p] = true
						break
					}
					if !root && refs[p]-gone[p] < 1 {
						break group
					}
					if q.Op == "lookup" && q.Want == "ok" {
						ch := path.Join(p, vhd.Name(q.Name))
						if hold[ch] {
							break group
						}
						gained[ch]++
					}
					needs[p] = true
					if q.Op == "open" {
						opened[q.H] = true
					}
				case "forget":
					left := refs[p] - gone[p] - int64(q.N)
					if left < 0 || left < 1 && needs[p] {
						break group
					}
					gone[p] += int64(q.N)
				case "read":
					if opened[q.H] || unsteady[q.H] && q.H != 0 {
						break group
					}
					if q.H != 0 {
						opened[-q.H] = true
					}
				case "release":
					if q.H != 0 && (opened[q.H] || opened[-q.H] || unsteady[q.H]) {
						break group
					}
					unsteady[q.H] = true
				default:
					break group
				}
			}
		}
		if j-i < 2 {
			j = i + 1
			if err := r.do(i, r.s.Req[i]); err != nil {
				return err
			}
		} else {
			errs := make(chan error, j-i)
			start := make(chan struct{})
			for k := i; k < j; k++ {
				go func(k int) {
					<-start
					errs <- r.do(k, r.s.Req[k])
				}(k)
			}
			close(start)
			var first error
			for k := i; k < j; k++ {
				if err := <-errs; err != nil && first == nil {
					first = err
				}
			}
			if first != nil {
				return vh.Bad("requests %d to %d at once: %v", i, j-1, first)
			}
		}
		for ; i < j; i++ {
			q := r.s.Req[i]
			p := "/" + vhd.Path(q.P, false)
			if q.Op == "lookup" && q.Want == "ok" {
				refs[path.Join(p, vhd.Name(q.Name))]++
			} else if q.Op == "forget" {
				refs[p] -= int64(q.N)
			}
		}
	}
	r.v.mode.Store("ok")
	r.v.src.Store("ok")
	for p, n := range refs {
		if n < 0 {
			vh.Harness("%q forgotten too often", p)
		}
		op := &fuseops.GetInodeAttributesOp{Inode: r.ino(p)}
		err := r.fs.GetInodeAttributes(ctx, op)
		if n > 0 && err != nil {
			return vh.Bad("in the end: %.60q has %d references: %v", p, n, err)
		}
		if n > 0 {
			if err := r.fs.ForgetInode(ctx, &fuseops.ForgetInodeOp{Inode: r.ino(p), N: uint64(n)}); err != nil {
				return vh.Bad("in the end: forgetting %.60q: %v", p, err)
			}
		}
	}
	return nil
}

func (r *run) settled() error {
	for p := range r.info {
		if p == "/" {
			continue
		}
		if err := r.fs.GetInodeAttributes(ctx, &fuseops.GetInodeAttributesOp{Inode: r.ino(p)}); err == nil {
			return vh.Bad("in the end: %.60q is still known without references", p)
		}
	}
	open := map[int]bool{}
	for _, q := range r.s.Req {
		if q.Op == "open" && q.Want == "ok" {
			open[q.H] = true
		} else if q.Op == "release" && q.Want == "ok" {
			delete(open, q.H)
		}
	}
	left := 0
	for _, f := range r.v.open {
		switch n := atomic.LoadInt32(&f.closed); {
		case n == 0:
			left++
		case n > 1:
			return vh.Bad("in the end: a file closed %d times", n)
		}
	}
	if left != len(open) {
		return vh.Bad("in the end: %d files open, %d handles not released", left, len(open))
	}
	for h := range open {
		if err := r.fs.ReleaseFileHandle(ctx, &fuseops.ReleaseFileHandleOp{Handle: r.hs[h]}); err != nil {
			return vh.Bad("in the end: releasing: %v", err)
		}
		if err := r.fs.ReadFile(ctx, &fuseops.ReadFileOp{Handle: r.hs[h], Dst: make([]byte, 10)}); err == nil {
			return vh.Bad("in the end: reading a released handle succeeds")
		}
	}
	return nil
}

var _ io.ReaderAt = (*image)(nil)
