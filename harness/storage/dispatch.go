package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

type dispatchCase struct {
	Form   string   `json:"form"`
	Caps   []string `json:"caps"`
	Op     string   `json:"op"`
	Served string   `json:"served"`
	Ctx    bool     `json:"ctx"`
	Fails  bool     `json:"fails"` // the driver's call fails
}

type dispatchKey struct{}

var errDispatch = errors.New("vh: planned failure")

type journal struct {
	calls []string
	fails bool
}

func (j *journal) note(ctx context.Context, scheme, op, url string, size int64) error {
	v, _ := ctx.Value(dispatchKey{}).(string)
	j.calls = append(j.calls, fmt.Sprintf("%s %s %q %d %s", scheme, op, url, size, v))
	if j.fails {
		return errDispatch
	}
	return nil
}

type fakeBase struct {
	scheme string
	j      *journal
}

func (f fakeBase) Name() string { return "fake-" + f.scheme }
func (f fakeBase) Open(ctx context.Context, url string, size int64) (driver.Object, error) {
	if err := f.j.note(ctx, f.scheme, "open", url, size); err != nil {
		return nil, err
	}
	return storage.WithURL(nil, "answer-"+f.scheme), nil
}
func (f fakeBase) Stat(ctx context.Context, url string) (os.FileInfo, error) {
	if err := f.j.note(ctx, f.scheme, "stat", url, 0); err != nil {
		return nil, err
	}
	return visitFI{"answer-" + f.scheme, false}, nil
}

type fakeWriter struct{ scheme string }

func (w fakeWriter) Write(p []byte) (int, error) { return 0, nil }
func (w fakeWriter) Abort()                      {}
func (w fakeWriter) Commit() (driver.CommitInfo, error) {
	return driver.NewCommitInfo("answer-" + w.scheme), nil
}

type fakeCreate struct{ fakeBase }

func (f fakeCreate) Create(ctx context.Context, url string) (driver.ObjectWriter, error) {
	if err := f.j.note(ctx, f.scheme, "create", url, 0); err != nil {
		return nil, err
	}
	return fakeWriter{f.scheme}, nil
}

type fakeRemove struct{ fakeBase }

func (f fakeRemove) Remove(ctx context.Context, url string) error {
	return f.j.note(ctx, f.scheme, "remove", url, 0)
}

type fakeList struct{ fakeBase }

func (f fakeList) Readdir(ctx context.Context, url string) ([]os.FileInfo, error) {
	if err := f.j.note(ctx, f.scheme, "readdir", url, 0); err != nil {
		return nil, err
	}
	return []os.FileInfo{visitFI{"answer-" + f.scheme, false}}, nil
}

type fakeCloser struct{ scheme string }

func (fakeCloser) Close() error { return nil }

type fakeLock struct{ fakeBase }

func (f fakeLock) Lock(ctx context.Context, url string) (io.Closer, error) {
	if err := f.j.note(ctx, f.scheme, "lock", url, 0); err != nil {
		return nil, err
	}
	return fakeCloser{"x-" + f.scheme}, nil
}
func (f fakeLock) RLock(ctx context.Context, url string) (io.Closer, error) {
	if err := f.j.note(ctx, f.scheme, "rlock", url, 0); err != nil {
		return nil, err
	}
	return fakeCloser{"s-" + f.scheme}, nil
}

type (
	cap4 interface{ driver.Driver }
	dC   struct {
		cap4
		driver.Creator
	}
	dR struct {
		cap4
		driver.Remover
	}
	dL struct {
		cap4
		driver.Readdirer
	}
	dK struct {
		cap4
		driver.Locker
	}
	dCR struct {
		cap4
		driver.Creator
		driver.Remover
	}
	dCL struct {
		cap4
		driver.Creator
		driver.Readdirer
	}
	dCK struct {
		cap4
		driver.Creator
		driver.Locker
	}
	dRL struct {
		cap4
		driver.Remover
		driver.Readdirer
	}
	dRK struct {
		cap4
		driver.Remover
		driver.Locker
	}
	dLK struct {
		cap4
		driver.Readdirer
		driver.Locker
	}
	dCRL struct {
		cap4
		driver.Creator
		driver.Remover
		driver.Readdirer
	}
	dCRK struct {
		cap4
		driver.Creator
		driver.Remover
		driver.Locker
	}
	dCLK struct {
		cap4
		driver.Creator
		driver.Readdirer
		driver.Locker
	}
	dRLK struct {
		cap4
		driver.Remover
		driver.Readdirer
		driver.Locker
	}
	dCRLK struct {
		cap4
		driver.Creator
		driver.Remover
		driver.Readdirer
		driver.Locker
	}
)

func fakeDriver(scheme string, j *journal, caps string) driver.Driver {
	b := fakeBase{scheme, j}
	c, r, l, k := fakeCreate{b}, fakeRemove{b}, fakeList{b}, fakeLock{b}
	switch caps {
	case "":
		return b
	case "C":
		return dC{b, c}
	case "R":
		return dR{b, r}
	case "L":
		return dL{b, l}
	case "K":
		return dK{b, k}
	case "CR":
		return dCR{b, c, r}
	case "CL":
		return dCL{b, c, l}
	case "CK":
		return dCK{b, c, k}
	case "RL":
		return dRL{b, r, l}
	case "RK":
		return dRK{b, r, k}
	case "LK":
		return dLK{b, l, k}
	case "CRL":
		return dCRL{b, c, r, l}
	case "CRK":
		return dCRK{b, c, r, k}
	case "CLK":
		return dCLK{b, c, l, k}
	case "RLK":
		return dRLK{b, r, l, k}
	}
	return dCRLK{b, c, r, l, k}
}

type answerVisitor struct{ got []string }

func (v *answerVisitor) VisitDir(base string, files []os.FileInfo) error {
	for _, f := range files {
		v.got = append(v.got, base+" "+f.Name())
	}
	return nil
}

func dispatchDriver(c *vh.Case) error {
	var s dispatchCase
	c.Decode(&s)
	caps := ""
	for _, k := range []string{"create", "remove", "list", "lock"} {
		for _, x := range s.Caps {
			if x == k {
				caps += map[string]string{"create": "C", "remove": "R", "list": "L", "lock": "K"}[k]
			}
		}
	}
	undo := driver.ClearRegistry()
	defer undo()
	j := &journal{fails: s.Fails}
	// the other schemes can do everything
	for _, sch := range []string{"file", "alpha", "alph", "alphabet", "s3", "http"} {
		k := "CRLK"
		if s.Served == sch || s.Served == "error" {
			k = caps
		}
		driver.Register(sch, fakeDriver(sch, j, k))
	}
	ctx, tag := context.Background(), ""
	if s.Ctx {
		ctx, tag = context.WithValue(ctx, dispatchKey{}, "mark"), "mark"
	}
	u := s.Form
	answer, err, want := "", error(nil), ""
	wantSize := int64(0)
	op := s.Op
	switch s.Op {
	case "open", "opensize":
		var o storage.Object
		wantSize, op = -1, "open"
		switch {
		case s.Op == "opensize" && s.Ctx:
			wantSize = 12345
			o, err = storage.OpenContextSize(ctx, u, wantSize)
		case s.Op == "opensize":
			wantSize = 0
			o, err = storage.OpenSize(u, wantSize)
		case s.Ctx:
			o, err = storage.OpenContextSize(ctx, u, -1)
		default:
			o, err = storage.Open(u)
		}
		if err == nil {
			answer = o.URL()
		}
		want = "answer-" + s.Served
	case "stat":
		var fi os.FileInfo
		if s.Ctx {
			fi, err = storage.StatContext(ctx, u)
		} else {
			fi, err = storage.Stat(u)
		}
		if err == nil {
			answer = fi.Name()
		}
		want = "answer-" + s.Served
	case "create":
		var w storage.ObjectWriter
		if s.Ctx {
			w, err = storage.CreateContext(ctx, u)
		} else {
			w, err = storage.Create(u)
		}
		if err == nil {
			ci, e := w.Commit()
			vh.Must(e)
			answer = ci.ObjectURL()
		}
		want = "answer-" + s.Served
	case "remove":
		if s.Ctx {
			err = storage.RemoveContext(ctx, u)
		} else {
			err = storage.Remove(u)
		}
	case "readdir":
		var fis []os.FileInfo
		if s.Ctx {
			fis, err = storage.ReaddirContext(ctx, u)
		} else {
			fis, err = storage.Readdir(u)
		}
		if err == nil && len(fis) == 1 {
			answer = fis[0].Name()
		}
		want = "answer-" + s.Served
	case "visit":
		v := &answerVisitor{}
		if s.Ctx {
			err = storage.VisitContext(ctx, u, v)
		} else {
			err = storage.Visit(u, v)
		}
		answer = strings.Join(v.got, ",")
		want, op = u+" answer-"+s.Served, "readdir"
	case "lock", "rlock":
		var cl io.Closer
		switch {
		case s.Op == "lock" && s.Ctx:
			cl, err = storage.LockContext(ctx, u)
		case s.Op == "lock":
			cl, err = storage.Lock(u)
		case s.Ctx:
			cl, err = storage.RLockContext(ctx, u)
		default:
			cl, err = storage.RLock(u)
		}
		if err == nil {
			answer = cl.(fakeCloser).scheme
		}
		want = map[string]string{"lock": "x-", "rlock": "s-"}[s.Op] + s.Served
	}
	if s.Served == "error" {
		if err == nil {
			return vh.Bad("%s of %q succeeded: %v", s.Op, u, j.calls)
		}
		if len(j.calls) > 0 {
			return vh.Bad("%s of %q failed, but had an effect: %v", s.Op, u, j.calls)
		}
		return nil
	}
	call := fmt.Sprintf("%s %s %q %d %s", s.Served, op, u, wantSize, tag)
	if len(j.calls) != 1 || j.calls[0] != call {
		return vh.Bad("%s of %q led to %q instead of %q (error %v)", s.Op, u, j.calls, call, err)
	}
	if s.Fails {
		if err != errDispatch {
			return vh.Bad("%s of %q: error %v instead of the driver's", s.Op, u, err)
		}
		return nil
	}
	if err != nil {
		return vh.Bad("%s of %q: %v", s.Op, u, err)
	}
	if answer != want {
		return vh.Bad("%s of %q: answer %q instead of %q", s.Op, u, answer, want)
	}
	return nil
}
