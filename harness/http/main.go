// Command zz_http replays behaviours of the HTTP specifications.
package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"time"

	"go.uber.org/zap"

	"github.com/NVIDIA/vdisc/pkg/storage"
	httpdriver "github.com/NVIDIA/vdisc/pkg/storage/http"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

func main() {
	zap.ReplaceGlobals(zap.NewNop())
	devnull, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stderr, stderr = devnull, os.Stderr
	}
	vh.Main(map[string]vh.Driver{
		"reads":  readsDriver,
		"size":   sizeDriver,
		"object": objectDriver,
		"retry":  retryDriver,
		"wire":   wireDriver,
		"rr":     rrDriver,
		"churn":  churnDriver,
	})
}

var stderr *os.File

// rawServer answers each request with whatever bytes the handler writes.
type rawServer struct {
	l     net.Listener
	wg    sync.WaitGroup
	mu    sync.Mutex
	conns map[net.Conn]bool
	reqs  []*http.Request
	// handle writes the answer; it returns false to close the connection
	handle func(w io.Writer, conn net.Conn, req *http.Request) bool
}

func newRawServer(handle func(w io.Writer, conn net.Conn, req *http.Request) bool) *rawServer {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	vh.Must(err)
	s := &rawServer{l: l, handle: handle, conns: make(map[net.Conn]bool)}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conns[conn] = true
			s.mu.Unlock()
			s.wg.Add(1)
			go s.serve(conn)
		}
	}()
	return s
}

func (s *rawServer) serve(conn net.Conn) {
	defer s.wg.Done()
	defer func() {
		conn.Close()
		s.mu.Lock()
		delete(s.conns, conn)
		s.mu.Unlock()
	}()
	r := bufio.NewReader(conn)
	for {
		req, err := http.ReadRequest(r)
		if err != nil {
			return
		}
		body, err := io.ReadAll(req.Body)
		if err != nil {
			return
		}
		req.Body = io.NopCloser(bytes.NewReader(body))
		s.mu.Lock()
		s.reqs = append(s.reqs, req)
		s.mu.Unlock()
		if !s.handle(conn, conn, req) {
			return
		}
	}
}

func (s *rawServer) close() {
	s.l.Close()
	s.mu.Lock()
	for c := range s.conns {
		c.Close()
	}
	s.mu.Unlock()
	s.wg.Wait()
}

func (s *rawServer) url(path string) string { return "http://" + s.l.Addr().String() + path }

type answer struct {
	Status  int    `json:"status"`
	Trouble string `json:"trouble"`
	CR      string `json:"cr"`
	CL      string `json:"cl"`
	Body    string `json:"body"`
}

type readStep struct {
	Size int64  `json:"size"`
	Off  int64  `json:"off"`
	Len  int64  `json:"len"`
	Need int64  `json:"need"`
	Ans  answer `json:"ans"`
	Out  string `json:"out"`
}

type readsCase struct {
	Steps   []readStep `json:"steps"`
	Authz   string     `json:"authz"`
	First   bool       `json:"first"` // credentials attached before the timeout
	Timeout int64      `json:"timeout"`
	Path    string     `json:"path"`
}

const contentID = 7

// respond writes the answer to a request for [first, last] of an object of the given size; it tells whether to go on.
func respond(w io.Writer, stop chan struct{}, a answer, size, first, last int64, head bool) bool {
	switch a.Trouble {
	case "reset":
		return false
	case "garbage":
		io.WriteString(w, "SSH-2.0-OpenSSH_8.0\r\n\r\n")
		return false
	case "silence":
		<-stop
		return false
	case "stall":
		io.WriteString(w, "HTTP/1.1 206 Partial")
		<-stop
		return false
	}
	bf, bl := first, last // what the body has
	cr := fmt.Sprintf("bytes %d-%d/%d", first, last, size)
	switch a.CR {
	case "later":
		bf, bl = first+1, last+1
		cr = fmt.Sprintf("bytes %d-%d/%d", bf, bl, size+1)
	case "earlier":
		bf, bl = first-1, last-1
		if bf < 0 {
			bf, bl = first+2, last+2
		}
		cr = fmt.Sprintf("bytes %d-%d/%d", bf, bl, size+2)
	case "shorter":
		if bl > bf {
			bl--
			cr = fmt.Sprintf("bytes %d-%d/%d", bf, bl, size)
		} else {
			cr = fmt.Sprintf("bytes %d-%d/%d", bf+1, bl, size)
		}
	case "longer":
		bl++
		cr = fmt.Sprintf("bytes %d-%d/%d", bf, bl, size+1)
	case "absent":
		cr = ""
	case "noend":
		cr = fmt.Sprintf("bytes %d-/%d", first, size)
	case "nototal":
		cr = fmt.Sprintf("bytes %d-%d/*", first, last)
	case "norange":
		cr = fmt.Sprintf("bytes */%d", size)
	case "unit":
		cr = fmt.Sprintf("items %d-%d/%d", first, last, size)
	case "noslash":
		cr = fmt.Sprintf("bytes %d-%d", first, last)
	case "huge":
		cr = fmt.Sprintf("bytes %d-18446744073709551614/18446744073709551615", first)
	case "overflow":
		cr = fmt.Sprintf("bytes %d-%d/184467440737095516150", first, last)
	case "reversed":
		cr = fmt.Sprintf("bytes %d-%d/%d", last+1, first, size)
	case "beyond":
		cr = fmt.Sprintf("bytes %d-%d/%d", first, last, last)
	case "totalless":
		cr = fmt.Sprintf("bytes %d-%d/%d", first, last, last+1)
	case "totalmore":
		cr = fmt.Sprintf("bytes %d-%d/%d", first, last, size+5)
	case "zero":
		cr = fmt.Sprintf("bytes %d-%d/0", first, last)
	case "negative":
		cr = fmt.Sprintf("bytes -%d-%d/%d", first+1, last, size)
	case "junk":
		cr = "\x01\x02 bytes?"
	case "blank":
		cr = fmt.Sprintf("bytes  %d - %d / %d", first, last, size)
	case "before":
		cr = fmt.Sprintf("xbytes %d-%d/%d", first, last, size)
	case "after":
		cr = fmt.Sprintf("bytes %d-%d/%dx", first, last, size)
	case "list":
		cr = fmt.Sprintf("bytes %d-%d/%d, bytes 0-0/1", first, last, size)
	case "signed":
		cr = fmt.Sprintf("bytes +%d-+%d/+%d", first, last, size)
	case "case":
		cr = fmt.Sprintf("Bytes %d-%d/%d", first, last, size)
	}
	if a.Status == 204 || a.Status == 304 {
		bl = bf - 1
	}
	body := vh.Pattern(contentID, bf, bl-bf+1)
	n := len(body)
	switch a.Body {
	case "truncated":
		if n > 0 {
			body = body[:n-1]
		}
	case "empty":
		body = nil
	case "extra":
		body = append(body, "extra bytes"...)
	}
	var h bytes.Buffer
	fmt.Fprintf(&h, "HTTP/1.1 %d %s\r\n", a.Status, http.StatusText(a.Status))
	if cr != "" {
		fmt.Fprintf(&h, "Content-Range: %s\r\n", cr)
	}
	if a.CR == "twice" {
		fmt.Fprintf(&h, "Content-Range: bytes %d-%d/%d\r\n", first+1, last+1, size+1)
	}
	chunked := false
	switch a.CL {
	case "exact":
		fmt.Fprintf(&h, "Content-Length: %d\r\n", n)
	case "less":
		fmt.Fprintf(&h, "Content-Length: %d\r\n", n-1)
		if a.Body == "full" && n > 0 {
			body = body[:n-1]
		}
	case "more":
		fmt.Fprintf(&h, "Content-Length: %d\r\n", n+1)
		if a.Body == "full" {
			body = append(body, 'x')
		}
	case "chunked":
		chunked = true
		fmt.Fprintf(&h, "Transfer-Encoding: chunked\r\n")
	case "vast":
		fmt.Fprintf(&h, "Content-Length: %d\r\n", int64(1)<<62)
	case "minus":
		fmt.Fprintf(&h, "Content-Length: -%d\r\n", n)
	case "word":
		fmt.Fprintf(&h, "Content-Length: many\r\n")
	}
	keep := a.CL == "exact" && a.Body == "full"
	if !keep {
		fmt.Fprintf(&h, "Connection: close\r\n")
	}
	h.WriteString("\r\n")
	if head {
		w.Write(h.Bytes())
		return keep
	}
	if chunked {
		if len(body) > 0 {
			fmt.Fprintf(&h, "%x\r\n", len(body))
			h.Write(body)
			h.WriteString("\r\n")
		}
		if a.Body != "truncated" && a.Body != "stall" {
			h.WriteString("0\r\n\r\n")
		}
	} else if a.Body == "stall" {
		h.Write(body[:n/2])
	} else {
		h.Write(body)
	}
	w.Write(h.Bytes())
	if a.Body == "stall" {
		<-stop
		return false
	}
	return keep
}

func ctxOf(authz string, first bool, timeout int64) context.Context {
	ctx := context.Background()
	if first && authz != "" {
		ctx = httpdriver.CtxWithAuthz(ctx, authz)
	}
	if timeout > 0 {
		ctx = httpdriver.CtxWithTimeout(ctx, time.Duration(timeout)*time.Millisecond)
	}
	if !first && authz != "" {
		ctx = httpdriver.CtxWithAuthz(ctx, authz)
	}
	return ctx
}

// slow is the time a call may take at most in spite of its timeout.
const slow = 15 * time.Second

func readsDriver(c *vh.Case) error {
	var s readsCase
	c.Decode(&s)
	stop := make(chan struct{})
	var mu sync.Mutex
	var step readStep
	var asked []string
	srv := newRawServer(func(w io.Writer, conn net.Conn, req *http.Request) bool {
		mu.Lock()
		st := step
		asked = append(asked, fmt.Sprintf("%s %s %s %q", req.Method, req.URL.RequestURI(), req.Header.Get("Range"), req.Header.Get("Authorization")))
		mu.Unlock()
		return respond(w, stop, st.Ans, st.Size, st.Off, st.Off+st.Need-1, false)
	})
	defer srv.close()
	defer close(stop)
	u := srv.url(s.Path)
	for i, st := range s.Steps {
		mu.Lock()
		step, asked = st, nil
		mu.Unlock()
		authz := s.Authz
		if i%2 == 1 {
			authz = strings.TrimPrefix(fmt.Sprintf("%s %d", authz, i), " ") // somebody else's
		}
		o, err := storage.OpenContextSize(ctxOf(authz, s.First, s.Timeout), u, st.Size)
		if err != nil {
			return vh.Bad("open: %v", err)
		}
		buf := bytes.Repeat([]byte{0xee}, int(st.Len))
		begin := time.Now()
		var n int
		if i%3 == 1 {
			if _, err := o.Seek(st.Off, io.SeekStart); err != nil {
				return vh.Bad("seek: %v", err)
			}
			if st.Off <= st.Size { // beyond the end the position is not specified
				n, err = o.Read(buf)
			} else {
				n, err = o.ReadAt(buf, st.Off)
			}
		} else {
			n, err = o.ReadAt(buf, st.Off)
		}
		took := time.Since(begin)
		what := fmt.Sprintf("step %d, read of %d at %d of %d, answer %+v", i, st.Len, st.Off, st.Size, st.Ans)
		if took > slow {
			return vh.Bad("%s: took %v with a timeout of %d ms", what, took, s.Timeout)
		}
		mu.Lock()
		got := asked
		mu.Unlock()
		want := fmt.Sprintf("GET %s bytes=%d-%d %q", s.Path, st.Off, st.Off+st.Need-1, authz)
		for _, g := range got {
			if g != want {
				return vh.Bad("%s: request %q instead of %q", what, g, want)
			}
		}
		if n < 0 || n > len(buf) {
			return vh.Bad("%s: n=%d", what, n)
		}
		right := bytes.Equal(buf[:n], vh.Pattern(contentID, st.Off, int64(n)))
		if !right {
			return vh.Bad("%s: wrong bytes (n=%d, err=%v)", what, n, err)
		}
		switch st.Out {
		case "nothing":
			if n != 0 || len(got) > 0 {
				return vh.Bad("%s: n=%d err=%v, requests %v", what, n, err, got)
			}
		case "end":
			if n != 0 || err != io.EOF || len(got) > 0 {
				return vh.Bad("%s: n=%d err=%v, requests %v", what, n, err, got)
			}
		case "bytes":
			if int64(n) != st.Need || err != nil && !(err == io.EOF && st.Need < st.Len) {
				return vh.Bad("%s: n=%d err=%v", what, n, err)
			}
			if len(got) != 1 {
				return vh.Bad("%s: requests %v", what, got)
			}
		case "either":
			if err == nil && int64(n) != st.Need {
				return vh.Bad("%s: n=%d without error", what, n)
			}
		case "notfound":
			if n != 0 || !os.IsNotExist(err) {
				return vh.Bad("%s: n=%d err=%v", what, n, err)
			}
		case "error":
			if err == nil || err == io.EOF {
				return vh.Bad("%s: n=%d err=%v", what, n, err)
			}
			if os.IsNotExist(err) {
				return vh.Bad("%s: taken for missing", what)
			}
			if len(got) == 0 {
				return vh.Bad("%s: nothing was asked", what)
			}
		}
		if err := o.Close(); err != nil {
			return vh.Bad("close: %v", err)
		}
	}
	return nil
}

type sizeCase struct {
	Mode    string `json:"mode"`
	Head    answer `json:"head"`
	Get     answer `json:"get"`
	Status  int    `json:"status"`
	Out     string `json:"out"`
	Size    int64  `json:"size"`
	Via     string `json:"via"` // stat, open
	Timeout int64  `json:"timeout"`
	Authz   string `json:"authz"`
}

func sizeDriver(c *vh.Case) error {
	var s sizeCase
	c.Decode(&s)
	stop := make(chan struct{})
	var mu sync.Mutex
	var asked []string
	srv := newRawServer(func(w io.Writer, conn net.Conn, req *http.Request) bool {
		mu.Lock()
		asked = append(asked, req.Method)
		if g := req.Header.Get("Authorization"); g != s.Authz {
			asked = append(asked, "credentials "+g)
		}
		if req.URL.RequestURI() != "/dir/na%20me?x=1" {
			asked = append(asked, "path "+req.URL.RequestURI())
		}
		mu.Unlock()
		switch req.Method {
		case "HEAD":
			return respond(w, stop, s.Head, s.Size, 0, s.Size-1, true)
		case "GET":
			return respond(w, stop, s.Get, s.Size, 0, s.Size-1, false)
		}
		a := answer{Status: s.Status, CL: "exact", Body: "full", CR: "absent"}
		return respond(w, stop, a, 3, 0, 2, false)
	})
	defer srv.close()
	defer close(stop)
	u := srv.url("/dir/na%20me?x=1")
	ctx := ctxOf(s.Authz, true, s.Timeout)
	begin := time.Now()
	var err error
	size := int64(-1)
	switch {
	case s.Mode == "delete":
		err = storage.RemoveContext(ctx, u)
	case s.Via == "stat":
		var fi os.FileInfo
		fi, err = storage.StatContext(ctx, u)
		if err == nil {
			size = fi.Size()
			if fi.Name() != "na me" || fi.IsDir() {
				return vh.Bad("name %q, mode %v", fi.Name(), fi.Mode())
			}
		}
	default:
		o, e := storage.OpenContextSize(ctx, u, -1)
		if e != nil {
			return vh.Bad("open: %v", e)
		}
		defer o.Close()
		if _, err = o.Seek(0, io.SeekEnd); err == nil {
			size = o.Size()
		} else if o.Size() >= 0 {
			return vh.Bad("size %d although finding it failed: %v", o.Size(), err)
		}
		if err != nil {
			// everything else fails too
			if n, e := o.ReadAt(make([]byte, 4), 0); n != 0 || e == nil || e == io.EOF {
				return vh.Bad("read of an object of unknown size: %d, %v", n, e)
			}
		}
	}
	if took := time.Since(begin); took > slow {
		return vh.Bad("took %v", took)
	}
	mu.Lock()
	defer mu.Unlock()
	for _, a := range asked {
		if s.Mode == "delete" && a != "DELETE" || s.Mode != "delete" && a != "HEAD" && a != "GET" {
			return vh.Bad("unexpected request: %s", a)
		}
	}
	if len(asked) == 0 {
		return vh.Bad("nothing was asked")
	}
	switch s.Out {
	case "ok":
		if err != nil {
			return vh.Bad("%v", err)
		}
	case "size":
		if err != nil || size != s.Size {
			return vh.Bad("size %d instead of %d, %v", size, s.Size, err)
		}
	case "notfound":
		if !os.IsNotExist(err) {
			return vh.Bad("missing object: %d, %v", size, err)
		}
	case "error":
		if err == nil {
			return vh.Bad("no error, size %d (requests %v)", size, asked)
		}
		if os.IsNotExist(err) {
			return vh.Bad("taken for missing: %v", err)
		}
	}
	return nil
}

type objOp struct {
	Op   string `json:"op"`
	N    int64  `json:"n"`
	Back int64  `json:"back"`
	Off  int64  `json:"off"`
	Len  int64  `json:"len"`
	Need int64  `json:"need"`
	Out  string `json:"out"`
}

type objCase struct {
	Ops    []objOp `json:"ops"`
	Start  int64   `json:"start"`
	NoHead bool    `json:"nohead"`
	Scale  int64   `json:"scale"`
}

func objectDriver(c *vh.Case) error {
	var s objCase
	c.Decode(&s)
	var mu sync.Mutex
	cur := s.Start * s.Scale
	var ranges []string
	srv := newRawServer(func(w io.Writer, conn net.Conn, req *http.Request) bool {
		mu.Lock()
		n := cur
		ranges = append(ranges, req.Header.Get("Range"))
		mu.Unlock()
		a := answer{Status: 200, CR: "absent", CL: "exact", Body: "full"}
		if req.Method == "HEAD" {
			if s.NoHead {
				a.Status = 405
			}
			return respond(w, nil, a, n, 0, n-1, true)
		}
		r := req.Header.Get("Range")
		if r == "" {
			return respond(w, nil, a, n, 0, n-1, false)
		}
		var first, last int64
		if k, _ := fmt.Sscanf(r, "bytes=%d-%d", &first, &last); k != 2 || first > last {
			a.Status = 400
		} else if first >= n {
			a.Status = 416
			first, last = 0, -1
		} else {
			a.Status, a.CR = 206, "exact"
			if last >= n {
				last = n - 1
			}
		}
		return respond(w, nil, a, n, first, last, false)
	})
	defer srv.close()
	o, err := storage.OpenContextSize(ctxOf("", false, 5000), srv.url("/x"), -1)
	if err != nil {
		return vh.Bad("open: %v", err)
	}
	defer o.Close()
	for i, op := range s.Ops {
		mu.Lock()
		ranges = nil
		mu.Unlock()
		switch op.Op {
		case "resize":
			mu.Lock()
			cur = op.N * s.Scale
			mu.Unlock()
		case "size":
			if n := o.Size(); n != op.N*s.Scale {
				return vh.Bad("step %d: size %d instead of %d", i, n, op.N*s.Scale)
			}
		case "seek":
			n, err := o.Seek(-op.Back*s.Scale, io.SeekEnd)
			if err != nil || n != op.N*s.Scale {
				return vh.Bad("step %d: seek %d before the end: %d instead of %d, %v", i, op.Back*s.Scale, n, op.N*s.Scale, err)
			}
		case "read":
			buf := make([]byte, op.Len*s.Scale)
			off, need := op.Off*s.Scale, op.Need*s.Scale
			n, err := o.ReadAt(buf, off)
			if !bytes.Equal(buf[:n], vh.Pattern(contentID, off, int64(n))) {
				return vh.Bad("step %d: wrong bytes", i)
			}
			mu.Lock()
			var rs []string
			for _, r := range ranges {
				if r != "" {
					rs = append(rs, r)
				}
			}
			mu.Unlock()
			want := ""
			if need > 0 {
				want = fmt.Sprintf("bytes=%d-%d", off, off+need-1)
			}
			if strings.Join(rs, ",") != want {
				return vh.Bad("step %d: ranges %v instead of %q", i, rs, want)
			}
			switch op.Out {
			case "end":
				if n != 0 || err != io.EOF {
					return vh.Bad("step %d: read at the end: %d, %v", i, n, err)
				}
			case "bytes":
				if int64(n) != need || err != nil && err != io.EOF {
					return vh.Bad("step %d: read %d instead of %d, %v", i, n, need, err)
				}
			case "error":
				if err == nil || err == io.EOF {
					return vh.Bad("step %d: read of what is not there any more: %d, %v", i, n, err)
				}
			case "either":
				if err == nil && int64(n) != need {
					return vh.Bad("step %d: read %d instead of %d", i, n, need)
				}
			}
		}
	}
	return nil
}
