package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	stdurl "net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/NVIDIA/vdisc/pkg/storage"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

type kid struct {
	N    int    `json:"n"`
	Kind string `json:"kind"`
	Data []int  `json:"data"`
}

type treeOp struct {
	Op      string `json:"op"`
	W       int    `json:"w"`
	H       int    `json:"h"`
	C       int    `json:"c"`
	P       []int  `json:"p"`
	Ok      bool   `json:"ok"`
	Data    []int  `json:"data"`
	Kind    string `json:"kind"`
	Missing bool   `json:"missing"`
	Kids    []kid  `json:"kids"`
}

type treeSeq struct {
	Ops   []treeOp `json:"ops"`
	Dirs  [][]int  `json:"dirs"`
	Files []struct {
		P    []int `json:"p"`
		Data []int `json:"data"`
	} `json:"files"`
}

type treeCase struct {
	Scheme string    `json:"scheme"`
	Names  []string  `json:"names"` // of name 1, 2, ...
	Form   int       `json:"form"`
	Root   bool      `json:"root"` // at the root of the in-memory scheme
	Sizes  []int     `json:"sizes"`
	Crowd  int       `json:"crowd"` // further objects in the top directory of each tree
	Seqs   []treeSeq `json:"seqs"` // run at the same time, in trees of their own
}

var rootMu sync.Mutex // the root of the in-memory scheme is used by one case at a time

// chunk is the content of chunk number c.
func (s *treeCase) chunk(c int) []byte {
	return vh.Pattern(c, 0, int64(s.Sizes[c%len(s.Sizes)]))
}

func (s *treeCase) content(cs []int) []byte {
	b := []byte{}
	for _, c := range cs {
		b = append(b, s.chunk(c)...)
	}
	return b
}

func (s *treeCase) rel(p []int) string {
	var x []string
	for _, n := range p {
		x = append(x, s.Names[n-1])
	}
	return strings.Join(x, "/")
}

// url spells the path in one of the ways the scheme accepts.
func (s *treeCase) url(base string, p []int, i int) string {
	path := base
	if len(p) > 0 {
		path = strings.TrimSuffix(base, "/") + "/" + s.rel(p)
	}
	form := s.Form
	if form == 9 {
		form = i % 5
	}
	esc := (&stdurl.URL{Path: path}).EscapedPath()
	scheme := s.Scheme + ":"
	switch form {
	case 1: // no authority
		return scheme + esc
	case 2: // not in its shortest form
		k := strings.LastIndex(esc, "/")
		return scheme + "//" + esc[:k] + "//./" + esc[k+1:]
	case 3:
		if s.Scheme == "file" {
			return esc
		}
		return scheme + "//" + esc + "/../" + esc[strings.LastIndex(esc, "/")+1:]
	case 4:
		if s.Scheme == "file" {
			wd, err := os.Getwd()
			vh.Must(err)
			r, err := filepath.Rel(wd, path)
			vh.Must(err)
			return (&stdurl.URL{Path: "./" + r}).EscapedPath()
		}
		return scheme + "//" + esc
	}
	return scheme + "//" + esc
}

func readWhole(o storage.AnonymousObject, n int) ([]byte, error) {
	b := make([]byte, n+10)
	k, err := o.ReadAt(b, 0)
	if err != nil && err != io.EOF {
		return nil, err
	}
	return b[:k], nil
}

// same checks that the URL opens the content.
func same(url string, want []byte) error {
	o, err := storage.Open(url)
	if err != nil {
		return fmt.Errorf("open %q: %v", url, err)
	}
	defer o.Close()
	if o.Size() != int64(len(want)) {
		return fmt.Errorf("%q has size %d instead of %d", url, o.Size(), len(want))
	}
	got, err := readWhole(o, len(want))
	if err != nil {
		return fmt.Errorf("read %q: %v", url, err)
	}
	if !bytes.Equal(got, want) {
		return fmt.Errorf("%q does not have the content written (%d bytes, want %d)", url, len(got), len(want))
	}
	if u := o.URL(); u != url {
		if err := same(u, want); err != nil {
			return fmt.Errorf("object of %q reports URL %q: %v", url, u, err)
		}
	}
	return nil
}

func ignored(name string) bool {
	return name == "." || name == ".." || name == "vh-keep" || strings.HasPrefix(name, "vh-crowd-")
}

// crowd checks that all further objects are listed.
func (s *treeCase) crowd(names []string) error {
	seen := make(map[string]bool)
	for _, n := range names {
		if strings.HasPrefix(n, "vh-crowd-") {
			if seen[n] {
				return vh.Bad("%q is listed twice", n)
			}
			seen[n] = true
		}
	}
	if len(seen) != s.Crowd {
		return vh.Bad("%d of %d further objects listed", len(seen), s.Crowd)
	}
	return nil
}

type treeRun struct {
	s       *treeCase
	base    string
	writers map[int]storage.ObjectWriter
	held    map[int]storage.Object
	refused map[int]bool // made and refused although the model refuses later
}

func (r *treeRun) step(i int, op treeOp) error {
	s := r.s
	u := s.url(r.base, op.P, i)
	lookup := func(err error, what string) error {
		if err == nil {
			return vh.Bad("%s of %q succeeded, it is %s", what, u, op.Kind)
		}
		if op.Missing && !os.IsNotExist(err) {
			return vh.Bad("%s of the missing %q: %v", what, u, err)
		}
		if op.Kind != "none" && os.IsNotExist(err) {
			return vh.Bad("%s of %q (%s): %v", what, u, op.Kind, err)
		}
		return nil
	}
	switch op.Op {
	case "create":
		w, err := storage.Create(u)
		if err != nil {
			if op.Ok {
				// may be refused now or when committed
				if s.impossible(r, op, i) {
					r.refused[op.W] = true
					return nil
				}
				return vh.Bad("create %q: %v", u, err)
			}
			return nil
		}
		if !op.Ok {
			// refused when committed at the latest
			if _, err := w.Commit(); err == nil {
				return vh.Bad("an object was made at %q below an object", u)
			}
			w.Abort()
			return nil
		}
		r.writers[op.W] = w
	case "write":
		if r.refused[op.W] {
			return nil
		}
		b := s.chunk(op.C)
		n, err := r.writers[op.W].Write(b)
		if err != nil || n != len(b) {
			return vh.Bad("write: %d of %d, %v", n, len(b), err)
		}
		for j := range b {
			b[j] = 0 // the writer must not keep it
		}
	case "commit":
		if r.refused[op.W] {
			if op.Ok {
				return vh.Bad("create of %q was refused", u)
			}
			return nil
		}
		ci, err := r.writers[op.W].Commit()
		if op.Ok {
			if err != nil {
				return vh.Bad("commit %q: %v", u, err)
			}
			delete(r.writers, op.W)
			want := s.content(op.Data)
			if err := same(u, want); err != nil {
				return vh.Bad("after commit: %v", err)
			}
			if err := same(ci.ObjectURL(), want); err != nil {
				return vh.Bad("after commit of %q: %v", u, err)
			}
		} else if err == nil {
			return vh.Bad("commit of %q succeeded", u)
		}
	case "abort":
		if r.refused[op.W] {
			delete(r.refused, op.W)
			return nil
		}
		w := r.writers[op.W]
		w.Abort()
		delete(r.writers, op.W)
		if i%3 == 0 {
			w.Write([]byte("late"))
		}
		if i%2 == 0 {
			if _, err := w.Commit(); err == nil {
				return vh.Bad("commit after abort succeeded")
			}
		}
	case "remove":
		err := storage.Remove(u)
		if op.Ok {
			if err != nil {
				return vh.Bad("remove %q: %v", u, err)
			}
		} else {
			if err == nil {
				return vh.Bad("remove %q succeeded", u)
			}
			if op.Missing != os.IsNotExist(err) {
				return vh.Bad("remove %q: %v", u, err)
			}
		}
	case "stat":
		fi, err := storage.Stat(u)
		if op.Kind == "none" {
			return lookup(err, "stat")
		}
		if err != nil {
			return vh.Bad("stat %q (%s): %v", u, op.Kind, err)
		}
		if len(op.P) > 0 && fi.Name() != s.Names[op.P[len(op.P)-1]-1] {
			return vh.Bad("stat %q reports the name %q", u, fi.Name())
		}
		if fi.IsDir() != (op.Kind == "dir") || fi.Mode().IsDir() != fi.IsDir() || fi.Mode().IsRegular() == fi.IsDir() {
			return vh.Bad("stat %q: mode %v, it is %s", u, fi.Mode(), op.Kind)
		}
		if op.Kind == "file" && fi.Size() != int64(len(s.content(op.Data))) {
			return vh.Bad("stat %q: size %d", u, fi.Size())
		}
	case "read":
		if op.Kind == "file" {
			return same(u, s.content(op.Data))
		}
		o, err := storage.Open(u)
		if err == nil {
			if op.Kind != "dir" {
				o.Close()
				return lookup(nil, "open")
			}
			_, err = o.Read(make([]byte, 10))
			o.Close()
			if err == nil || err == io.EOF {
				return vh.Bad("the directory %q was read as an object: %v", u, err)
			}
			return nil
		}
		return lookup(err, "open")
	case "list":
		fis, err := storage.Readdir(u)
		if op.Kind != "dir" {
			return lookup(err, "list")
		}
		if err != nil {
			return vh.Bad("list %q: %v", u, err)
		}
		if len(op.P) == 0 {
			var names []string
			for _, fi := range fis {
				names = append(names, fi.Name())
			}
			if err := s.crowd(names); err != nil {
				return vh.Bad("list %q: %v", u, err)
			}
		}
		want := make(map[string]kid)
		for _, k := range op.Kids {
			want[s.Names[k.N-1]] = k
		}
		for _, fi := range fis {
			k, ok := want[fi.Name()]
			if !ok {
				if ignored(fi.Name()) || len(r.writers) > 0 && strings.HasPrefix(fi.Name(), ".") {
					continue
				}
				return vh.Bad("list %q reports %q", u, fi.Name())
			}
			delete(want, fi.Name())
			if fi.IsDir() != (k.Kind == "dir") {
				return vh.Bad("list %q: %q has mode %v", u, fi.Name(), fi.Mode())
			}
			if k.Kind == "file" && fi.Size() != int64(len(s.content(k.Data))) {
				return vh.Bad("list %q: %q has size %d", u, fi.Name(), fi.Size())
			}
		}
		for n := range want {
			return vh.Bad("list %q lacks %q", u, n)
		}
	case "hold":
		o, err := storage.Open(u)
		if err != nil {
			return vh.Bad("open %q: %v", u, err)
		}
		r.held[op.H] = o
	case "held":
		o := r.held[op.H]
		delete(r.held, op.H)
		defer o.Close()
		want := s.content(op.Data)
		got, err := readWhole(o, len(want))
		if err != nil || !bytes.Equal(got, want) {
			return vh.Bad("an open object changed: %d bytes instead of %d, %v", len(got), len(want), err)
		}
	}
	return nil
}

// impossible: the model lets the writer be made, but its commit fails if nothing changes before.
func (s *treeCase) impossible(r *treeRun, op treeOp, i int) bool {
	for _, q := range s.Seqs {
		for j := range q.Ops {
			if j == i && q.Ops[j].Op == op.Op && fmt.Sprint(q.Ops[j].P) == fmt.Sprint(op.P) && q.Ops[j].W == op.W {
				for _, x := range q.Ops[j+1:] {
					if x.W == op.W && (x.Op == "commit" || x.Op == "abort") {
						return x.Op == "abort" || !x.Ok
					}
				}
				return true
			}
		}
	}
	return false
}

func (s *treeCase) run(base string, q treeSeq) error {
	r := &treeRun{s, base, make(map[int]storage.ObjectWriter), make(map[int]storage.Object), make(map[int]bool)}
	defer func() {
		for _, w := range r.writers {
			w.Abort()
		}
		for _, o := range r.held {
			o.Close()
		}
	}()
	for i, op := range q.Ops {
		if err := r.step(i, op); err != nil {
			doc, _ := json.Marshal(op)
			return vh.Bad("step %d %s: %v", i, doc, err)
		}
	}
	for _, w := range r.writers {
		w.Abort()
	}
	// in the end exactly the committed and not removed objects exist
	var want []string
	content := make(map[string][]byte)
	for _, d := range q.Dirs {
		want = append(want, s.rel(d)+"/")
	}
	for _, f := range q.Files {
		want = append(want, s.rel(f.P))
		content[s.rel(f.P)] = s.content(f.Data)
	}
	v := &treeVisit{base: base}
	if err := storage.Visit(s.url(base, nil, 0), v); err != nil {
		return vh.Bad("visit: %v", err)
	}
	if err := sameNames(want, v.seen); err != nil {
		return vh.Bad("visit: %v", err)
	}
	if err := s.crowd(v.others); err != nil {
		return vh.Bad("visit: %v", err)
	}
	for i, u := range v.urls {
		if err := same(u, content[v.names[i]]); err != nil {
			return vh.Bad("visited: %v", err)
		}
	}
	if s.Scheme == "file" {
		var have []string
		filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
			vh.Must(err)
			n := strings.TrimPrefix(strings.TrimPrefix(p, base), "/")
			if fi.IsDir() {
				n += "/"
			}
			if !ignored(n) {
				have = append(have, n)
			}
			return nil
		})
		if err := sameNames(want, have); err != nil {
			return vh.Bad("left on disk: %v", err)
		}
	}
	return nil
}

type treeVisit struct {
	base  string
	mu    sync.Mutex
	seen  []string
	urls  []string
	names []string
	// not part of the model
	others []string
}

func (v *treeVisit) VisitDir(u string, files []os.FileInfo) error {
	v.mu.Lock()
	defer v.mu.Unlock()
	pu, err := stdurl.Parse(u)
	if err != nil {
		return err
	}
	p := pu.Path
	if !strings.HasPrefix(p, "/") { // relative
		if p, err = filepath.Abs(p); err != nil {
			return err
		}
	}
	rel := strings.Trim(strings.TrimPrefix(filepath.Clean(p), v.base), "/")
	v.seen = append(v.seen, rel+"/")
	for _, f := range files {
		if f.IsDir() || ignored(f.Name()) {
			v.others = append(v.others, f.Name())
			continue
		}
		n := strings.TrimPrefix(rel+"/"+f.Name(), "/")
		v.seen = append(v.seen, n)
		v.names = append(v.names, n)
		v.urls = append(v.urls, strings.TrimSuffix(u, "/")+"/"+stdurl.PathEscape(f.Name()))
	}
	return nil
}

func sameNames(want, have []string) error {
	sort.Strings(want)
	sort.Strings(have)
	if fmt.Sprintf("%q", want) != fmt.Sprintf("%q", have) {
		return vh.Bad("%q instead of %q", have, want)
	}
	return nil
}

// wipe empties the in-memory scheme.
func wipe(u string) error {
	fis, err := storage.Readdir(u)
	if err != nil {
		return err
	}
	for _, fi := range fis {
		if fi.Name() == "." || fi.Name() == ".." {
			continue
		}
		k := strings.TrimSuffix(u, "/") + "/" + stdurl.PathEscape(fi.Name())
		if fi.IsDir() {
			if err := wipe(k); err != nil {
				return err
			}
		}
		if err := storage.Remove(k); err != nil {
			return err
		}
	}
	return nil
}

func treeDriver(c *vh.Case) error {
	var s treeCase
	c.Decode(&s)
	bases := make([]string, len(s.Seqs))
	for i := range s.Seqs {
		b := filepath.Join(c.Scratch, fmt.Sprintf("t%d", i))
		if s.Scheme == "ram" {
			b = fmt.Sprintf("/case%d-%d", c.Index, i)
			if s.Root {
				b = "/"
			}
		}
		bases[i] = b
		if s.Scheme == "file" {
			vh.Must(os.MkdirAll(b, 0755))
		}
		if !s.Root {
			// the tree is never empty, so its root stays
			w, err := storage.Create(s.Scheme + "://" + b + "/vh-keep")
			if err == nil {
				_, err = w.Commit()
			}
			if err != nil {
				return vh.Bad("create: %v", err)
			}
		}
		for k := 0; k < s.Crowd; k++ {
			n := fmt.Sprintf("%s/vh-crowd-%d", b, k)
			if s.Scheme == "file" {
				vh.Must(ioutil.WriteFile(n, nil, 0644))
				continue
			}
			w, err := storage.Create(s.Scheme + "://" + n)
			if err == nil {
				_, err = w.Commit()
			}
			if err != nil {
				return vh.Bad("create: %v", err)
			}
		}
	}
	if s.Root {
		rootMu.Lock()
		defer rootMu.Unlock()
	}
	errs := make([]error, len(s.Seqs))
	var wg sync.WaitGroup
	for i := range s.Seqs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[i] = vh.Bad("panic: %v", r)
				}
			}()
			errs[i] = s.run(bases[i], s.Seqs[i])
		}(i)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	if s.Scheme == "ram" {
		for _, b := range bases {
			if err := wipe("ram://" + b); err != nil {
				return vh.Bad("emptying: %v", err)
			}
			if b != "/" {
				if err := storage.Remove("ram://" + b); err != nil {
					return vh.Bad("emptying: %v", err)
				}
			}
		}
	}
	return nil
}
