package main

import (
	"bytes"
	"context"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"net/http"
	"net/http/httptest"
	stdurl "net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/credentials"
	"github.com/aws/aws-sdk-go/aws/session"
	"github.com/aws/aws-sdk-go/service/s3"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	s3driver "github.com/NVIDIA/vdisc/pkg/storage/s3"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

const partSize = 5 << 20

type uploadCase struct {
	Parts int  `json:"parts"`
	Multi bool `json:"multi"`
	Fate  struct {
		Req  string `json:"req"`
		Part int    `json:"part"`
		How  string `json:"how"`
	} `json:"fate"`
	Ends   int    `json:"ends"`
	Ord    []int  `json:"ord"`
	Result string `json:"result"`
	// not from the model
	Kind    string `json:"kind"`    // of failure: denied, server, reset, body, noid
	Mode    string `json:"mode"`    // write, stream, seeker, later, file, ctx
	Tail    int64  `json:"tail"`    // size of the last part
	Chunk   int64  `json:"chunk"`   // size of writes
	Version string `json:"version"` // of the stored object
	Key     string `json:"key"`
	URL     string `json:"url"`
	Twice   bool   `json:"twice"` // abort or commit again afterwards
	NoWrite bool   `json:"nowrite"`
}

// fakeS3 is one bucket.
type fakeS3 struct {
	s       *uploadCase
	mu      sync.Mutex
	cond    *sync.Cond
	objects map[string][]byte
	uploads map[string]map[int][]byte
	etags   map[string]bool
	ended   map[string]string
	finish  []int
	fails   int
	created int
	puts    int
	bad     error
	cancel  func()
}

func newFakeS3(s *uploadCase) *fakeS3 {
	f := &fakeS3{s: s, objects: map[string][]byte{}, uploads: map[string]map[int][]byte{}, ended: map[string]string{}}
	f.cond = sync.NewCond(&f.mu)
	return f
}

func (f *fakeS3) problem(format string, a ...interface{}) {
	if f.bad == nil {
		f.bad = vh.Bad(format, a...)
	}
}

// strike plays the failure of a request; it returns true if the request is answered.
func (f *fakeS3) strike(w http.ResponseWriter, r *http.Request, req string, part int) bool {
	s := f.s
	if s.Fate.Req != req || s.Fate.Part != part {
		return false
	}
	if s.Fate.How == "transient" && f.fails > 0 {
		return false
	}
	f.fails++
	if s.Fate.How == "cancel" {
		f.mu.Unlock()
		f.cancel()
		select {
		case <-r.Context().Done():
		case <-time.After(3 * time.Second):
		}
		f.mu.Lock()
		panic(http.ErrAbortHandler)
	}
	switch s.Kind {
	case "reset":
		conn, _, err := w.(http.Hijacker).Hijack()
		vh.Must(err)
		conn.(*net.TCPConn).SetLinger(0)
		conn.Close()
	case "server":
		w.WriteHeader(503)
		io.WriteString(w, "<Error><Code>SlowDown</Code><Message>x</Message></Error>")
	case "body": // an error after all
		w.WriteHeader(200)
		io.WriteString(w, `<?xml version="1.0" encoding="UTF-8"?>`+"\n  \n<Error><Code>InternalError</Code><Message>x</Message></Error>")
	case "noid":
		w.WriteHeader(200)
		io.WriteString(w, `<InitiateMultipartUploadResult></InitiateMultipartUploadResult>`)
	case "gone":
		w.WriteHeader(404)
		io.WriteString(w, "<Error><Code>NoSuchBucket</Code><Message>x</Message></Error>")
	default:
		w.WriteHeader(403)
		io.WriteString(w, "<Error><Code>AccessDenied</Code><Message>x</Message></Error>")
	}
	return true
}

func (f *fakeS3) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	body, err := io.ReadAll(r.Body)
	if err != nil || r.ContentLength >= 0 && int64(len(body)) != r.ContentLength {
		return // the sender gave up
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	q := r.URL.Query()
	want := "/bucket/" + strings.TrimPrefix(f.s.Key, "/")
	if r.URL.Path != want {
		f.problem("request to %q instead of %q", r.URL.Path, want)
		w.WriteHeader(404)
		return
	}
	_, create := q["uploads"]
	id := q.Get("uploadId")
	switch {
	case r.Method == "PUT" && id == "":
		f.puts++
		if f.strike(w, r, "put", 0) {
			return
		}
		f.objects[r.URL.Path] = body
		f.version(w)
		w.Header().Set("ETag", `"x"`)
	case r.Method == "POST" && create:
		if f.strike(w, r, "create", 0) {
			return
		}
		f.created++
		id := fmt.Sprintf("upload-%d", f.created)
		f.uploads[id] = map[int][]byte{}
		fmt.Fprintf(w, "<InitiateMultipartUploadResult><UploadId>%s</UploadId></InitiateMultipartUploadResult>", id)
	case r.Method == "PUT":
		n, _ := strconv.Atoi(q.Get("partNumber"))
		if f.uploads[id] == nil {
			w.WriteHeader(404)
			io.WriteString(w, "<Error><Code>NoSuchUpload</Code></Error>")
			return
		}
		f.turn(n)
		if f.strike(w, r, "part", n) {
			if !(f.s.Fate.How == "transient") {
				f.finished(n)
			}
			return
		}
		if f.uploads[id] == nil {
			w.WriteHeader(404)
			return
		}
		f.uploads[id][n] = body
		f.finished(n)
		w.Header().Set("ETag", fmt.Sprintf(`"%s-%d"`, id, n))
	case r.Method == "POST":
		if f.strike(w, r, "complete", 0) {
			return
		}
		var in struct {
			Part []struct {
				PartNumber int
				ETag       string
			}
		}
		err := xml.Unmarshal(body, &in)
		parts := f.uploads[id]
		if err != nil || parts == nil || len(in.Part) == 0 {
			f.problem("completion of upload %q that is not going on: %v, %s", id, err, body)
			w.WriteHeader(400)
			return
		}
		var all []byte
		for i, p := range in.Part {
			b, ok := parts[p.PartNumber]
			if !ok || p.ETag != fmt.Sprintf(`"%s-%d"`, id, p.PartNumber) || i > 0 && p.PartNumber <= in.Part[i-1].PartNumber {
				w.WriteHeader(400)
				io.WriteString(w, "<Error><Code>InvalidPart</Code></Error>")
				return
			}
			if i < len(in.Part)-1 && len(b) < partSize {
				w.WriteHeader(400)
				io.WriteString(w, "<Error><Code>EntityTooSmall</Code></Error>")
				return
			}
			all = append(all, b...)
		}
		f.objects[r.URL.Path] = all
		delete(f.uploads, id)
		f.version(w)
		fmt.Fprintf(w, "<CompleteMultipartUploadResult><Location>http://x/y</Location><ETag>e</ETag></CompleteMultipartUploadResult>")
	case r.Method == "DELETE" && id != "":
		delete(f.uploads, id)
		w.WriteHeader(204)
	default:
		f.problem("unexpected request %s %s", r.Method, r.URL)
		w.WriteHeader(400)
	}
}

func (f *fakeS3) version(w http.ResponseWriter) {
	if f.s.Version != "" {
		w.Header().Set("x-amz-version-id", f.s.Version)
	}
}

// turn waits until the parts that finish before n in the behaviour have.
func (f *fakeS3) turn(n int) {
	deadline := time.Now().Add(2 * time.Second)
	t := time.AfterFunc(2*time.Second, func() { f.cond.Broadcast() })
	defer t.Stop()
	for time.Now().Before(deadline) {
		ready := true
		for _, p := range f.s.Ord {
			if p == n {
				break
			}
			seen := false
			for _, d := range f.finish {
				seen = seen || d == p
			}
			ready = ready && seen
		}
		if ready {
			return
		}
		f.cond.Wait()
	}
}

func (f *fakeS3) finished(n int) {
	f.finish = append(f.finish, n)
	f.cond.Broadcast()
}

var errData = errors.New("vh: the data ends here")

// data is a reader of the object that fails at the end if it has to.
type data struct {
	n, pos, chunk int64
	fail          bool
}

func (d *data) Read(p []byte) (int, error) {
	if d.pos >= d.n {
		if d.fail {
			if d.n/1000%2 == 1 {
				return 0, io.ErrUnexpectedEOF // a source that breaks off
			}
			return 0, errData
		}
		return 0, io.EOF
	}
	k := int64(len(p))
	if d.chunk > 0 && k > d.chunk {
		k = d.chunk
	}
	if k > d.n-d.pos {
		k = d.n - d.pos
	}
	vh.FillPattern(p[:k], 5, d.pos)
	d.pos += k
	return int(k), nil
}

func (s *uploadCase) size() int64 {
	n := s.Parts
	if s.Ends >= 0 {
		n = s.Ends
	}
	if n == 0 {
		return 0
	}
	return int64(n-1)*partSize + s.Tail
}

func uploadDriver(c *vh.Case) error {
	var s uploadCase
	c.Decode(&s)
	f := newFakeS3(&s)
	srv := httptest.NewServer(f)
	defer srv.Close()
	defer srv.CloseClientConnections()
	svc := s3.New(session.Must(session.NewSession()), aws.NewConfig().WithRegion("us-east-1").WithEndpoint(srv.URL).WithS3ForcePathStyle(true).
		WithCredentials(credentials.NewStaticCredentials("id", "secret", "")).WithMaxRetries(1).WithSleepDelay(func(time.Duration) {}))
	ow := s3driver.NewObjectWriter(svc, "bucket", s.Key, s.URL)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	f.cancel = cancel
	size := s.size()
	what := fmt.Sprintf("%d bytes, %s, fate %v, ends %d", size, s.Mode, s.Fate, s.Ends)
	var werr error
	aborted := false
	switch s.Mode {
	case "write":
		d := &data{n: size}
		buf := make([]byte, s.Chunk)
		for !s.NoWrite {
			k, err := d.Read(buf)
			if err == io.EOF {
				break
			}
			vh.Must(err)
			n, err := ow.Write(buf[:k])
			if err != nil {
				werr = err
				break
			}
			if n != k {
				return vh.Bad("%s: Write returned %d of %d", what, n, k)
			}
		}
		if s.Ends >= 0 {
			ow.Abort()
			aborted = true
		}
	case "stream", "ctx", "seeker", "later", "file":
		var r io.Reader
		switch {
		case s.Mode == "seeker":
			r = bytes.NewReader(vh.Pattern(5, 0, size))
		case s.Mode == "later" || s.Mode == "file": // part of it has been read before
			path := filepath.Join(c.Scratch, "data")
			skip := int64(0)
			if s.Mode == "later" {
				skip = 1234
			}
			vh.Must(ioutil.WriteFile(path, append(bytes.Repeat([]byte("?"), int(skip)), vh.Pattern(5, 0, size)...), 0600))
			file, err := os.Open(path)
			vh.Must(err)
			defer file.Close()
			_, err = file.Seek(skip, io.SeekStart)
			vh.Must(err)
			r = file
		default:
			r = &data{n: size, fail: s.Ends >= 0, chunk: s.Chunk}
		}
		if s.Mode == "ctx" {
			var n int64
			cr, ok := ow.(interface {
				ReadFromContext(ctx context.Context, r io.Reader, counter *int64) error
			})
			if !ok {
				vh.Harness("no ReadFromContext")
			}
			werr = cr.ReadFromContext(ctx, r, &n)
		} else {
			_, werr = ow.(io.ReaderFrom).ReadFrom(r)
		}
		if s.Ends >= 0 && werr == nil {
			return vh.Bad("%s: the error of the source was not reported", what)
		}
		if s.Twice && s.Result == "error" {
			ow.Abort()
			aborted = true
		}
	}
	if werr != nil && s.Result == "ok" {
		return vh.Bad("%s: %v", what, werr)
	}
	ci, err := ow.Commit()
	if s.Twice && s.Result == "ok" && err == nil {
		ow.Abort() // too late
		var err2 error
		if ci, err2 = ow.Commit(); err2 != nil {
			return vh.Bad("%s: second commit: %v", what, err2)
		}
	} else if s.Twice && err != nil {
		if _, err := ow.Commit(); err == nil {
			return vh.Bad("%s: a repeated commit reports success", what)
		}
	}
	srv.CloseClientConnections()
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.bad != nil {
		return f.bad
	}
	for id := range f.uploads {
		return vh.Bad("%s: %s was left unfinished (commit: %v)", what, id, err)
	}
	if s.Result == "error" {
		if err == nil {
			return vh.Bad("%s: commit reports success (write error %v, aborted %v)", what, werr, aborted)
		}
		if len(f.objects) > 0 {
			return vh.Bad("%s: an object appeared although commit failed: %v", what, err)
		}
		return nil
	}
	if err != nil {
		return vh.Bad("%s: commit: %v", what, err)
	}
	return stored(&s, f, ci, what, size)
}

func stored(s *uploadCase, f *fakeS3, ci driver.CommitInfo, what string, size int64) error {
	var got []byte
	for _, b := range f.objects {
		got = b
	}
	if len(f.objects) != 1 || int64(len(got)) != size || !bytes.Equal(got, vh.Pattern(5, 0, size)) {
		return vh.Bad("%s: %d objects, %d bytes stored, not those written", what, len(f.objects), len(got))
	}
	u, err := stdurl.Parse(ci.ObjectURL())
	if err != nil {
		return vh.Bad("%s: URL %q: %v", what, ci.ObjectURL(), err)
	}
	base, err := stdurl.Parse(s.URL)
	vh.Must(err)
	q := base.Query()
	if s.Version != "" {
		q.Set("versionId", s.Version)
	}
	if u.Scheme != base.Scheme || u.Host != base.Host || u.Path != base.Path || u.Query().Encode() != q.Encode() {
		return vh.Bad("%s: URL %q reported for %q, version %q", what, ci.ObjectURL(), s.URL, s.Version)
	}
	return nil
}

// keptDriver aborts an upload whose data were handed over by ReadFrom.
func keptDriver(c *vh.Case) error {
	s := uploadCase{Key: "/k", URL: "s3://bucket/k"}
	f := newFakeS3(&s)
	srv := httptest.NewServer(f)
	defer srv.Close()
	defer srv.CloseClientConnections()
	svc := s3.New(session.Must(session.NewSession()), aws.NewConfig().WithRegion("us-east-1").WithEndpoint(srv.URL).WithS3ForcePathStyle(true).
		WithCredentials(credentials.NewStaticCredentials("id", "secret", "")).WithMaxRetries(1))
	ow := s3driver.NewObjectWriter(svc, "bucket", s.Key, s.URL)
	_, err := ow.(io.ReaderFrom).ReadFrom(strings.NewReader("data"))
	if err != nil {
		return vh.Bad("%v", err)
	}
	ow.Abort()
	if _, err := ow.Commit(); err == nil {
		return vh.Bad("a commit after an abort reports success")
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	c.Obs = map[string]interface{}{"kept": len(f.objects) > 0}
	return nil
}
