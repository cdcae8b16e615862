package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"sync"
	"sync/atomic"
	"time"

	"github.com/NVIDIA/vdisc/pkg/httputil"
	"github.com/NVIDIA/vdisc/pkg/storage"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

type retryCase struct {
	Script   []string `json:"script"`
	Budget   int      `json:"budget"`
	Cancel   string   `json:"cancel"`
	At       int      `json:"at"`
	Resend   bool     `json:"resend"`
	Attempts int      `json:"attempts"`
	Last     string   `json:"last"`
	// not from the model
	Status  map[string]int `json:"status"`
	Body    int            `json:"body"` // size of the request's body, 0: none
	Partial bool           `json:"partial"`
	Timeout bool           `json:"timeout"` // a deadline instead of a cancellation
}

type trackedBody struct {
	io.Reader
	closed *int32
}

func (b trackedBody) Close() error {
	atomic.StoreInt32(b.closed, 1)
	return nil
}

type attempt struct {
	at     time.Time
	body   []byte
	closed *int32
	ended  time.Time
}

// script plays the attempts' outcomes.
type script struct {
	s      *retryCase
	mu     sync.Mutex
	tries  []*attempt
	cancel func()
}

var errNet = errors.New("vh: connection reset")

func (t *script) RoundTrip(req *http.Request) (*http.Response, error) {
	a := &attempt{at: time.Now()}
	t.mu.Lock()
	t.tries = append(t.tries, a)
	n := len(t.tries)
	t.mu.Unlock()
	defer func() {
		t.mu.Lock()
		a.ended = time.Now()
		t.mu.Unlock()
	}()
	k := n - 1
	if k >= len(t.s.Script) {
		k = len(t.s.Script) - 1
	}
	out := t.s.Script[k]
	if req.Body != nil {
		if t.s.Partial && out == "net" {
			b := make([]byte, t.s.Body/2)
			io.ReadFull(req.Body, b)
			a.body = nil
		} else {
			b, err := io.ReadAll(req.Body)
			vh.Must(err)
			if b == nil {
				b = []byte{}
			}
			a.body = b
		}
		req.Body.Close()
	}
	if t.s.Cancel == "call" && t.s.At == n {
		t.cancel()
		<-req.Context().Done()
		return nil, req.Context().Err()
	}
	if t.s.Cancel == "pause" && t.s.At == n {
		time.AfterFunc(30*time.Millisecond, t.cancel)
	}
	if out == "net" {
		return nil, errNet
	}
	a.closed = new(int32)
	return &http.Response{
		StatusCode: t.s.Status[out],
		Status:     fmt.Sprintf("%d x", t.s.Status[out]),
		Proto:      "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header:        http.Header{"X-Attempt": {fmt.Sprint(n)}},
		Body:          trackedBody{bytes.NewReader([]byte(fmt.Sprintf("answer %d", n))), a.closed},
		ContentLength: -1,
		Request:       req,
	}, nil
}

func retryDriver(c *vh.Case) error {
	var s retryCase
	c.Decode(&s)
	opts := httputil.RetryOptions{InitialInterval: 4 * time.Millisecond, MaxInterval: 8 * time.Millisecond, MaxElapsedTime: 60 * time.Second}
	if s.Budget > 0 {
		// a budget of time, not of attempts
		opts.MaxElapsedTime = time.Duration(30*s.Budget) * time.Millisecond
	}
	if s.Cancel == "pause" {
		opts.InitialInterval, opts.MaxInterval = time.Minute, time.Minute
		opts.MaxElapsedTime = time.Hour
		if s.At > 1 {
			opts.InitialInterval, opts.MaxInterval = 200*time.Millisecond, 400*time.Millisecond
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	t := &script{s: &s, cancel: cancel}
	if s.Timeout && s.Cancel == "call" && s.At == 1 {
		ctx, cancel = context.WithTimeout(context.Background(), 40*time.Millisecond)
		defer cancel()
		t.cancel = func() {}
	}
	var body io.Reader
	payload := vh.Pattern(3, 0, int64(s.Body))
	method := "GET"
	if s.Body > 0 {
		method = "PUT"
		body = bytes.NewReader(payload)
		if !s.Resend {
			body = io.MultiReader(bytes.NewReader(payload)) // cannot be read again
		}
	} else if !s.Resend {
		vh.Harness("a request without body can be sent again")
	}
	req, err := http.NewRequestWithContext(ctx, method, "http://host.invalid/x", body)
	vh.Must(err)
	rt := httputil.WithRetries(t, opts)
	type res struct {
		resp *http.Response
		err  error
	}
	done := make(chan res, 1)
	begin := time.Now()
	go func() {
		resp, err := rt.RoundTrip(req)
		done <- res{resp, err}
	}()
	var r res
	select {
	case r = <-done:
	case <-time.After(slow):
		return vh.Bad("no result after %v", slow)
	}
	ended := time.Now()
	time.Sleep(time.Millisecond)
	if s.Cancel != "never" {
		time.Sleep(20 * time.Millisecond)
	}
	t.mu.Lock()
	tries := append([]*attempt(nil), t.tries...)
	t.mu.Unlock()
	n := len(tries)
	final := 0 // the first attempt that is not retried
	for i, o := range s.Script {
		if o == "ok" || o == "refused" || o == "moved" {
			final = i + 1
			break
		}
	}
	switch {
	case s.Cancel != "never" && s.Last == "cancelled":
		// a cancellation in a short pause may come when the next attempt has begun
		if n != s.Attempts && !(s.Cancel == "pause" && s.At > 1 && n == s.Attempts+1) {
			return vh.Bad("%d attempts instead of %d", n, s.Attempts)
		}
	case s.Budget > 0 && s.Resend:
		// until the final answer or the time is spent
		spent := ended.Sub(begin)
		if spent > opts.MaxElapsedTime+5*time.Second {
			return vh.Bad("went on for %v with a budget of %v", spent, opts.MaxElapsedTime)
		}
		if final > 0 && n > final {
			return vh.Bad("%d attempts although the answer to attempt %d was final", n, final)
		}
		if n != final && spent+2*opts.MaxInterval+time.Millisecond < opts.MaxElapsedTime {
			return vh.Bad("gave up after %v with a budget of %v", spent, opts.MaxElapsedTime)
		}
	default:
		if n != s.Attempts {
			return vh.Bad("%d attempts instead of %d", n, s.Attempts)
		}
	}
	// pauses between attempts, and never before they failed
	for i := 1; i < n; i++ {
		gap := tries[i].at.Sub(tries[i-1].ended)
		if gap < opts.InitialInterval/4 {
			return vh.Bad("attempt %d followed after %v", i+1, gap)
		}
	}
	for i, a := range tries {
		if s.Body > 0 && a.body != nil && !bytes.Equal(a.body, payload) {
			return vh.Bad("attempt %d sent %d bytes of %d", i+1, len(a.body), len(payload))
		}
		if i < n-1 && a.closed != nil && atomic.LoadInt32(a.closed) == 0 {
			return vh.Bad("the answer to abandoned attempt %d was not closed", i+1)
		}
	}
	// the last outcome is returned
	if s.Last == "cancelled" {
		if r.err == nil && r.resp != nil {
			if r.resp.Header.Get("X-Attempt") != fmt.Sprint(n) {
				return vh.Bad("the answer of attempt %s of %d was returned", r.resp.Header.Get("X-Attempt"), n)
			}
			r.resp.Body.Close()
		}
		if r.err == nil && r.resp == nil {
			return vh.Bad("neither answer nor error")
		}
	} else {
		k := n - 1
		if k >= len(s.Script) {
			k = len(s.Script) - 1
		}
		if s.Script[k] == "net" {
			if r.err != errNet || r.resp != nil {
				return vh.Bad("the error of attempt %d was not returned: %v, %v", n, r.resp, r.err)
			}
		} else {
			if r.err != nil {
				return vh.Bad("the answer of attempt %d was not returned: %v", n, r.err)
			}
			b, err := io.ReadAll(r.resp.Body)
			if err != nil || string(b) != fmt.Sprintf("answer %d", n) || r.resp.StatusCode != s.Status[s.Script[k]] {
				return vh.Bad("answer %q (%d), %v instead of that of attempt %d", b, r.resp.StatusCode, err, n)
			}
			if atomic.LoadInt32(tries[n-1].closed) != 0 {
				return vh.Bad("the answer was closed before it was read")
			}
			r.resp.Body.Close()
		}
	}
	// a request that was not cancelled leaves nothing behind
	return nil
}

type wireCase struct {
	Script []string `json:"script"` // of answers to a read: ok, throttled, server, reset, big
	Op     string   `json:"op"`
}

// wireDriver reads through the whole client while the server is in trouble.
func wireDriver(c *vh.Case) error {
	var s wireCase
	c.Decode(&s)
	var mu sync.Mutex
	n := 0
	stop := make(chan struct{})
	srv := newRawServer(func(w io.Writer, conn net.Conn, req *http.Request) bool {
		mu.Lock()
		k := n
		if k >= len(s.Script) {
			k = len(s.Script) - 1
		}
		n++
		mu.Unlock()
		a := answer{Status: 206, CR: "exact", CL: "exact", Body: "full"}
		switch s.Script[k] {
		case "throttled":
			a.Status = 429
		case "server":
			a.Status = 503
		case "reset":
			a.Trouble = "reset"
		case "big":
			a.Status = 500
			return respond(w, stop, a, 300000, 0, 299999, false)
		case "refused":
			a.Status = 403
		}
		switch req.Method {
		case "HEAD":
			if a.Status == 206 {
				a.Status = 200
			}
			return respond(w, stop, a, 100, 0, 99, true)
		case "DELETE":
			if a.Status == 206 {
				a.Status = 204
			}
			a.CR = "absent"
			return respond(w, stop, a, 0, 0, -1, false)
		}
		return respond(w, stop, a, 100, 10, 29, false)
	})
	defer srv.close()
	defer close(stop)
	ctx := ctxOf("", false, 20000)
	var err error
	switch s.Op {
	case "read":
		o, e := storage.OpenContextSize(ctx, srv.url("/x"), 100)
		if e != nil {
			return vh.Bad("open: %v", e)
		}
		buf := make([]byte, 20)
		_, err = o.ReadAt(buf, 10)
		if err == nil && !bytes.Equal(buf, vh.Pattern(contentID, 10, 20)) {
			return vh.Bad("wrong bytes")
		}
	case "stat":
		fi, e := storage.StatContext(ctx, srv.url("/x"))
		err = e
		if err == nil && fi.Size() != 100 {
			return vh.Bad("size %d", fi.Size())
		}
	case "delete":
		err = storage.RemoveContext(ctx, srv.url("/x"))
	}
	want := len(s.Script)
	ok := s.Script[want-1] == "ok"
	mu.Lock()
	defer mu.Unlock()
	if n != want {
		// the standard library may repeat a request whose connection was lost
		resets := 0
		for _, x := range s.Script {
			if x == "reset" {
				resets++
			}
		}
		if resets == 0 {
			return vh.Bad("%d requests instead of %d", n, want)
		}
	}
	if ok != (err == nil) {
		return vh.Bad("result %v after %v", err, s.Script)
	}
	return nil
}
