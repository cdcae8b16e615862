package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	stdurl "net/url"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

type visitCase struct {
	Tree   []int  `json:"tree"`
	NFiles []int  `json:"nfiles"`
	Kind   string `json:"kind"`
	Dir    int    `json:"dir"`
	Order  []int  `json:"order"`
	Ok     bool   `json:"ok"`
	Expect []int  `json:"expect"`
	// not from the model
	Depth   bool     `json:"depth"`
	Width   int      `json:"width"` // 0: the default
	Plain   bool     `json:"plain"` // a visitor without options
	Dots    bool     `json:"dots"`  // listings contain . and ..
	Names   []string `json:"names"`
	Err     int      `json:"err"`
	Honours bool     `json:"honours"` // listings end when the context is cancelled
}

// planned failures, also ones that might look harmless
var visitErrors = []error{errors.New("vh: planned failure"), os.ErrNotExist, io.EOF, os.ErrPermission, context.Canceled,
	&os.PathError{Op: "open", Path: "/x", Err: syscall.ENOENT}, context.DeadlineExceeded, filepath.SkipDir}

type visitFI struct {
	name string
	dir  bool
}

func (f visitFI) Name() string       { return f.name }
func (f visitFI) Size() int64        { return 1 }
func (f visitFI) ModTime() time.Time { return time.Time{} }
func (f visitFI) IsDir() bool        { return f.dir }
func (f visitFI) Sys() interface{}   { return nil }
func (f visitFI) Mode() os.FileMode {
	if f.dir {
		return os.ModeDir | 0755
	}
	return 0644
}

type visitTree struct {
	s      *visitCase
	paths  map[string]int // of directories
	mu     sync.Mutex
	inside map[int]chan struct{} // listings that wait
	calls  int                   // calls so far
	active int                   // calls not returned
	seen   map[string]int
	bad    error
	cancel func()
	listed map[int]bool
	short  bool // cancelled with directories left to list
}

func (t *visitTree) name(d int) string { return t.s.Names[(d-1)%len(t.s.Names)] + fmt.Sprint(d) }

func (t *visitTree) path(d int) string {
	if d == 1 {
		return "/top"
	}
	return t.path(t.s.Tree[d-2]) + "/" + t.name(d)
}

func (t *visitTree) file(d, i int) string {
	return t.s.Names[(d+i)%len(t.s.Names)] + fmt.Sprintf("f%d", i)
}

func (t *visitTree) which(u string) (int, error) {
	pu, err := stdurl.Parse(u)
	if err != nil {
		return 0, err
	}
	d, ok := t.paths[pu.Path]
	if !ok || pu.RawQuery != "" || pu.Fragment != "" {
		return 0, fmt.Errorf("there is no directory %q", u)
	}
	return d, nil
}

func (t *visitTree) enter() {
	t.mu.Lock()
	t.calls++
	t.active++
	t.mu.Unlock()
}

func (t *visitTree) leave() {
	t.mu.Lock()
	t.active--
	t.mu.Unlock()
}

func (t *visitTree) fail(err error) error {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.bad == nil {
		t.bad = err
	}
	return err
}

func (t *visitTree) failure() error { return visitErrors[t.s.Err%len(visitErrors)] }

func (t *visitTree) fault(kind string, d int) bool { return t.s.Kind == kind && t.s.Dir == d }

func (t *visitTree) Name() string { return "vtree" }
func (t *visitTree) Open(ctx context.Context, url string, size int64) (driver.Object, error) {
	return nil, t.fail(vh.Bad("open of %q", url))
}
func (t *visitTree) Stat(ctx context.Context, url string) (os.FileInfo, error) {
	return nil, t.fail(vh.Bad("stat of %q", url))
}

func (t *visitTree) Readdir(ctx context.Context, url string) ([]os.FileInfo, error) {
	t.enter()
	defer t.leave()
	d, err := t.which(url)
	if err != nil {
		return nil, t.fail(vh.Bad("list: %v", err))
	}
	ch := make(chan struct{})
	t.mu.Lock()
	if t.listed[d] {
		t.mu.Unlock()
		return nil, t.fail(vh.Bad("%q is listed twice", url))
	}
	t.listed[d] = true
	t.inside[d] = ch
	t.mu.Unlock()
	if t.s.Honours {
		select {
		case <-ch:
		case <-ctx.Done():
			t.mu.Lock()
			delete(t.inside, d)
			t.mu.Unlock()
			return nil, ctx.Err()
		}
	} else {
		<-ch
	}
	if t.fault("list", d) {
		return nil, t.failure()
	}
	if t.fault("cancel", d) {
		t.mu.Lock()
		t.short = len(t.listed) < len(t.s.Expect)
		t.mu.Unlock()
		t.cancel()
	}
	var fis []os.FileInfo
	if t.s.Dots {
		fis = append(fis, visitFI{".", true}, visitFI{"..", true})
	}
	for i := 0; i < t.s.NFiles[d-1]; i++ {
		fis = append(fis, visitFI{t.file(d, i), false})
	}
	for k, p := range t.s.Tree {
		if p == d {
			fis = append(fis, visitFI{t.name(k + 2), true})
		}
	}
	if d%2 == 0 { // other orders of entries
		for i, j := 0, len(fis)-1; i < j; i, j = i+1, j-1 {
			fis[i], fis[j] = fis[j], fis[i]
		}
	}
	return fis, nil
}

type plainVisitor struct{ t *visitTree }

func (v plainVisitor) VisitDir(base string, files []os.FileInfo) error {
	t := v.t
	t.enter()
	defer t.leave()
	d, err := t.which(base)
	if err != nil {
		return t.fail(vh.Bad("visit: %v", err))
	}
	if t.fault("callback", d) {
		return t.failure()
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	for _, f := range files {
		if !f.IsDir() {
			t.seen[t.path(d)+"/"+f.Name()]++
		}
	}
	return nil
}

type fullVisitor struct{ plainVisitor }

func (v fullVisitor) DepthFirst() bool { return v.t.s.Depth }
func (v fullVisitor) Concurrency() int { return v.t.s.Width }
func (v fullVisitor) ShouldVisitDir(url string) (bool, error) {
	t := v.t
	t.enter()
	defer t.leave()
	d, err := t.which(url)
	if err != nil {
		return false, t.fail(vh.Bad("asked about: %v", err))
	}
	if t.fault("predicate", d) {
		return false, t.failure()
	}
	return !t.fault("skip", d), nil
}

// stray reports goroutines of visits.
func stray() string {
	buf := make([]byte, 1<<20)
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		if strings.Contains(g, "pkg/storage/driver.") || strings.Contains(g, "pkg/storage.Visit") {
			return g
		}
	}
	return ""
}

func visitDriver(c *vh.Case) error {
	var s visitCase
	c.Decode(&s)
	t := &visitTree{s: &s, paths: make(map[string]int), inside: make(map[int]chan struct{}), seen: make(map[string]int), listed: make(map[int]bool)}
	for d := 1; d <= len(s.Tree)+1; d++ {
		t.paths[t.path(d)] = d
	}
	rank := make(map[int]int)
	for i, d := range s.Order {
		rank[d] = i - len(s.Order)
	}
	undo := driver.ClearRegistry()
	defer undo()
	driver.Register("vtree", t)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	t.cancel = cancel
	var v storage.Visitor = fullVisitor{plainVisitor{t}}
	if s.Plain {
		v = plainVisitor{t}
	}
	result := make(chan error, 1)
	go func() { result <- storage.VisitContext(ctx, "vtree://host/top", v) }()
	// release listings in the order of the model, as far as they wait
	var err error
	over := false
	deadline := time.Now().Add(15 * time.Second)
	for !over {
		t.mu.Lock()
		before := t.calls
		t.mu.Unlock()
		select {
		case err = <-result:
			over = true
			continue
		case <-time.After(time.Millisecond):
		}
		t.mu.Lock()
		if t.calls == before && len(t.inside) > 0 {
			var ds []int
			for d := range t.inside {
				ds = append(ds, d)
			}
			sort.Slice(ds, func(i, j int) bool {
				if rank[ds[i]] != rank[ds[j]] {
					return rank[ds[i]] < rank[ds[j]]
				}
				return ds[i] < ds[j]
			})
			close(t.inside[ds[0]])
			delete(t.inside, ds[0])
		}
		t.mu.Unlock()
		if time.Now().After(deadline) {
			return vh.Bad("the visit does not end")
		}
	}
	t.mu.Lock()
	calls, active := t.calls, t.active
	for _, ch := range t.inside {
		close(ch)
	}
	t.inside = make(map[int]chan struct{})
	t.mu.Unlock()
	if t.bad != nil {
		return t.bad
	}
	if active > 0 {
		return vh.Bad("%d calls were running when the visit returned", active)
	}
	for i := 0; ; i++ {
		g := stray()
		if g == "" {
			break
		}
		if i > 100 {
			return vh.Bad("still running after the visit:\n%s", g)
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.calls != calls {
		return vh.Bad("the visit went on after it returned")
	}
	want := make(map[string]bool)
	for _, d := range s.Expect {
		for i := 0; i < s.NFiles[d-1]; i++ {
			want[t.path(d)+"/"+t.file(d, i)] = true
		}
	}
	for f, n := range t.seen {
		if n > 1 {
			return vh.Bad("%q was reported %d times", f, n)
		}
		if !want[f] {
			return vh.Bad("%q was reported", f)
		}
	}
	if s.Ok {
		if err != nil {
			return vh.Bad("the visit failed: %v", err)
		}
	} else {
		if err == nil && (s.Kind != "cancel" || t.short) {
			return vh.Bad("the visit succeeded in spite of a failure (%s)", s.Kind)
		}
		if err != nil && s.Kind != "cancel" && err != t.failure() {
			return vh.Bad("the visit failed with %v instead of the error that occurred", err)
		}
	}
	if err == nil && len(t.seen) != len(want) {
		return vh.Bad("%d of %d objects were reported", len(t.seen), len(want))
	}
	return nil
}
