package zzvhlib

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
)

// The scheme "vsim" serves computed content of any size: vsim:/<id>/<size>/<anything>.
type simDriver struct{}

var simOnce sync.Once

// UseSim registers the scheme vsim.
func UseSim() { simOnce.Do(func() { driver.Register("vsim", simDriver{}) }) }

// SimURL names an object of the content id.
func SimURL(id int, size int64, name string) string {
	return fmt.Sprintf("vsim:/%d/%d/%s", id, size, name)
}

func parseSim(url string) (id int, size int64, err error) {
	f := strings.Split(url, "/")
	if len(f) < 3 {
		return 0, 0, syscall.ENOENT
	}
	if id, err = strconv.Atoi(f[1]); err != nil {
		return 0, 0, syscall.ENOENT
	}
	size, err = strconv.ParseInt(f[2], 10, 64)
	if err != nil {
		err = syscall.ENOENT
	}
	return
}

func (simDriver) Name() string { return "vsim" }

func (simDriver) Open(ctx context.Context, url string, size int64) (driver.Object, error) {
	id, sz, err := parseSim(url)
	if err != nil {
		return nil, &os.PathError{Op: "open", Path: url, Err: err}
	}
	if size >= 0 && size < sz {
		sz = size
	}
	return &SimObject{SectionReader: io.NewSectionReader(simContent{id}, 0, sz), url: url}, nil
}

func (simDriver) Stat(ctx context.Context, url string) (os.FileInfo, error) {
	_, sz, err := parseSim(url)
	if err != nil {
		return nil, &os.PathError{Op: "stat", Path: url, Err: err}
	}
	return simInfo{url, sz}, nil
}

type simInfo struct {
	name string
	size int64
}

func (i simInfo) Name() string       { return i.name }
func (i simInfo) Size() int64        { return i.size }
func (i simInfo) Mode() os.FileMode  { return 0444 }
func (i simInfo) ModTime() time.Time { return time.Unix(0, 0) }
func (i simInfo) IsDir() bool        { return false }
func (i simInfo) Sys() interface{}   { return nil }

type simContent struct{ id int }

func (s simContent) ReadAt(p []byte, off int64) (int, error) {
	FillPattern(p, s.id, off)
	return len(p), nil
}

// SimObject is an object of computed content.
type SimObject struct {
	*io.SectionReader
	url string
}

func (o *SimObject) Close() error { return nil }
func (o *SimObject) URL() string  { return o.url }

// Fault makes one step of writing an object fail.
type Fault struct {
	Suffix string // which URL
	Step   string // create, write, commit
	Nth    int    // which write, from 1
	Once   bool   // only that write fails; the object can still be committed
}

// FaultStore is a writable in-memory scheme whose steps can be made to fail.
type FaultStore struct {
	mu      sync.Mutex
	objects map[string][]byte
	Fault   *Fault
	Writes  map[string]int
	Aborts  int
}

// ErrFault is the injected failure.
var ErrFault = errors.New("injected storage failure")

// NewFaultStore registers the scheme.
func NewFaultStore(scheme string) *FaultStore {
	s := &FaultStore{objects: map[string][]byte{}, Writes: map[string]int{}}
	driver.Register(scheme, s)
	return s
}

func (s *FaultStore) Name() string { return "faultstore" }

func (s *FaultStore) hit(url, step string) bool {
	f := s.Fault
	if f == nil || f.Step != step || !strings.HasSuffix(url, f.Suffix) {
		return false
	}
	if step == "write" && f.Once {
		return s.Writes[url] == f.Nth
	}
	return step != "write" || s.Writes[url] >= f.Nth
}

// Get returns the stored object.
func (s *FaultStore) Get(url string) ([]byte, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	b, ok := s.objects[url]
	return b, ok
}

func (s *FaultStore) Open(ctx context.Context, url string, size int64) (driver.Object, error) {
	b, ok := s.Get(url)
	if !ok {
		return nil, &os.PathError{Op: "open", Path: url, Err: syscall.ENOENT}
	}
	if size < 0 || size > int64(len(b)) {
		size = int64(len(b))
	}
	return &SimObject{SectionReader: io.NewSectionReader(strings.NewReader(string(b)), 0, size), url: url}, nil
}

func (s *FaultStore) Stat(ctx context.Context, url string) (os.FileInfo, error) {
	b, ok := s.Get(url)
	if !ok {
		return nil, &os.PathError{Op: "stat", Path: url, Err: syscall.ENOENT}
	}
	return simInfo{url, int64(len(b))}, nil
}

func (s *FaultStore) Create(ctx context.Context, url string) (driver.ObjectWriter, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.hit(url, "create") {
		return nil, ErrFault
	}
	return &faultWriter{s: s, url: url}, nil
}

type faultWriter struct {
	s    *FaultStore
	url  string
	buf  []byte
	done bool
	err  error
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	w.s.Writes[w.url]++
	if w.err == nil && w.s.hit(w.url, "write") {
		if w.s.Fault.Once {
			return 0, ErrFault
		}
		w.err = ErrFault
	}
	if w.err != nil || w.done {
		return 0, ErrFault
	}
	w.buf = append(w.buf, p...)
	return len(p), nil
}

func (w *faultWriter) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{w}, r)
}

func (w *faultWriter) Abort() {
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	if !w.done {
		w.s.Aborts++
	}
	w.done = true
}

func (w *faultWriter) Commit() (driver.CommitInfo, error) {
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	if w.done || w.err != nil || w.s.hit(w.url, "commit") {
		w.done = true
		return nil, ErrFault
	}
	w.done = true
	w.s.objects[w.url] = w.buf
	return commitURL(w.url), nil
}

type commitURL string

func (c commitURL) ObjectURL() string { return string(c) }

// VersionStore is a writable in-memory scheme that keeps every version of an
// object. What is committed is named with its version; the name without one
// soon stands for what somebody else stored.
type VersionStore struct {
	FaultStore
	num int
}

// NewVersionStore registers the scheme.
func NewVersionStore(scheme string) *VersionStore {
	s := &VersionStore{FaultStore: FaultStore{objects: map[string][]byte{}, Writes: map[string]int{}}}
	driver.Register(scheme, s)
	return s
}

func (s *VersionStore) Create(ctx context.Context, url string) (driver.ObjectWriter, error) {
	return &versionWriter{faultWriter{s: &s.FaultStore, url: url}, s}, nil
}

type versionWriter struct {
	faultWriter
	v *VersionStore
}

func (w *versionWriter) Commit() (driver.CommitInfo, error) {
	bare := w.url
	w.v.mu.Lock()
	w.v.num++
	w.url = fmt.Sprintf("%s?versionId=%d", bare, w.v.num)
	w.v.mu.Unlock()
	ci, err := w.faultWriter.Commit()
	if err == nil {
		w.v.mu.Lock()
		w.v.objects[bare] = make([]byte, len(w.buf))
		w.v.mu.Unlock()
	}
	return ci, err
}
