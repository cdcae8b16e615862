package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net/http"
	stdurl "net/url"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/aws/aws-sdk-go/aws/credentials"

	"github.com/NVIDIA/vdisc/pkg/s3util"
	"github.com/NVIDIA/vdisc/pkg/storage"
	httpdriver "github.com/NVIDIA/vdisc/pkg/storage/http"
	s3driver "github.com/NVIDIA/vdisc/pkg/storage/s3"
	swiftdriver "github.com/NVIDIA/vdisc/pkg/storage/swift"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

type reqOp struct {
	Op struct {
		Scheme string   `json:"scheme"`
		Bucket int      `json:"bucket"`
		Verb   string   `json:"verb"`
		Opts   []string `json:"opts"`
		Fault  string   `json:"fault"`
	} `json:"op"`
	Lookup  bool   `json:"lookup"`
	Sent    bool   `json:"sent"`
	Who     string `json:"who"`
	Region  string `json:"region"`
	Limited bool   `json:"limited"`
	Result  string `json:"result"`
	// not from the model
	Key     string `json:"key"`
	URLKey  string `json:"urlkey"`
	Account string `json:"account"`
	Version string `json:"version"`
}

type reqCase struct {
	Ev          []reqOp  `json:"ev"`
	Locations   []string `json:"locations"` // of the buckets, as the service tells them
	Regions     []string `json:"regions"`   // what they mean
	SwiftRegion string   `json:"swiftregion"`
}

const shortTime = 250 * time.Millisecond
const slowTime = 900 * time.Millisecond

func secretsOf(account string) map[string]string {
	out := map[string]string{}
	for _, id := range []string{"AMBIENT", "S3C1", "S3C2", "SWC1", "SWC2"} {
		s := "secret of " + id
		out[id] = s
		if strings.HasPrefix(id, "S3") {
			continue
		}
		if id != account {
			out[id+":AUTH_"+account] = s
		}
	}
	return out
}

func withOpts(ctx context.Context, opts []string) context.Context {
	for _, o := range opts {
		switch o {
		case "s3c1", "s3c2":
			id := strings.ToUpper(o)
			ctx = s3driver.CtxWithCredentials(ctx, credentials.NewStaticCredentials(id, "secret of "+id, ""))
		case "swc1", "swc2":
			id := strings.ToUpper(o)
			ctx = swiftdriver.CtxWithCredentials(ctx, &swiftdriver.SwiftCreds{AccessKeyId: id, SecretAccessKey: "secret of " + id})
		case "s3t":
			ctx = s3driver.CtxWithTimeout(ctx, shortTime)
		case "swt":
			ctx = swiftdriver.CtxWithTimeout(ctx, shortTime)
		case "httpt":
			ctx = httpdriver.CtxWithTimeout(ctx, shortTime)
		case "swr1", "swr2":
			ctx = swiftdriver.CtxWithRegion(ctx, "region-"+o)
		case "authz1", "authz2":
			ctx = httpdriver.CtxWithAuthz(ctx, "Bearer "+o)
		default:
			vh.Harness("option %q", o)
		}
	}
	return ctx
}

func requestDriver(c *vh.Case) error {
	var s reqCase
	c.Decode(&s)
	token := fmt.Sprintf("r%d-%d-x", os.Getpid(), c.Index)
	for i, o := range s.Ev {
		if err := s.step(token, i, o); err != nil {
			return err
		}
	}
	return nil
}

func (s *reqCase) step(token string, i int, o reqOp) error {
	where := func(format string, args ...interface{}) error {
		return vh.Bad("operation %d (%s %s, key %q, options %v, fault %s): %s", i, o.Op.Verb, o.Op.Scheme, o.Key, o.Op.Opts, o.Op.Fault, fmt.Sprintf(format, args...))
	}
	bucket := fmt.Sprintf("b%d-%s", o.Op.Bucket, token)
	content := vh.Pattern(i, 0, 300)
	var mu sync.Mutex
	var bad error
	var lookups, sent int
	fail := func(format string, args ...interface{}) {
		if bad == nil {
			bad = where(format, args...)
		}
	}
	useCloud(token, func(w http.ResponseWriter, r *http.Request) {
		body, err := ioutil.ReadAll(r.Body)
		if err != nil {
			return
		}
		mu.Lock()
		q := r.URL.Query()
		_, lookup := q["location"]
		if o.Op.Scheme == "https" {
			want := ""
			if o.Who != "nobody" {
				want = "Bearer " + o.Who
			}
			if got := r.Header.Get("Authorization"); got != want {
				fail("authorization %q instead of %q", got, want)
			}
			if h := r.Header.Get("X-Vh-Connected"); h != bucket+".web.example" || r.Host != h {
				fail("host %q on a connection to %q", r.Host, h)
			}
			if p := "/" + o.Key; r.URL.Path != p {
				fail("path %q", r.URL.Path)
			}
			lookup = false
		} else {
			st := sight(r, body, secretsOf(o.Account))
			id := strings.ToUpper(o.Who)
			if o.Op.Scheme == "swift" && id != o.Account {
				id += ":AUTH_" + o.Account
			}
			if !st.Signed {
				fail("%s %s%s: %s", r.Method, r.Host, r.URL, st.Why)
			} else if st.ID != id {
				fail("signed by %q instead of %q", st.ID, id)
			}
			wantBucket, wantRegion, wantSig := bucket, "", ""
			if o.Op.Scheme == "swift" {
				wantBucket, wantRegion = bucket+".swift.example/cont", "swift"
				wantSig = "region-" + o.Region
				if o.Region == "none" {
					wantSig = s.SwiftRegion
				}
			} else {
				wantRegion = s.Regions[o.Op.Bucket-1]
				wantSig = wantRegion
				if lookup {
					wantRegion, wantSig = st.Region, st.Region
				}
			}
			if st.Bucket != wantBucket || st.Region != wantRegion {
				fail("sent to %s of %s instead of %s of %s", st.Bucket, st.Region, wantBucket, wantRegion)
			}
			if st.SigRegion != wantSig {
				fail("signed for region %q instead of %q", st.SigRegion, wantSig)
			}
			if lookup {
				if st.Key != "" {
					fail("lookup of %q", st.Key)
				}
			} else if o.Op.Verb == "readdir" {
				want := o.Key
				if want != "" && !strings.HasSuffix(want, "/") {
					want += "/"
				}
				if st.Key != "" || q.Get("prefix") != want {
					fail("listing of %q, prefix %q instead of %q", st.Key, q.Get("prefix"), want)
				}
			} else if st.Key != o.Key {
				fail("key %q", st.Key)
			}
		}
		if !lookup && o.Version != "" && q.Get("versionId") != o.Version {
			fail("version %q instead of %q", q.Get("versionId"), o.Version)
		}
		if lookup {
			lookups++
		} else {
			sent++
			ok := map[string]string{"open": "GET HEAD", "stat": "HEAD GET", "remove": "DELETE", "readdir": "GET", "create": "PUT"}[o.Op.Verb]
			if !strings.Contains(ok, r.Method) {
				fail("method %s", r.Method)
			}
		}
		mu.Unlock()
		prefix := ""
		if lookup {
			prefix = "lookup-"
		}
		switch o.Op.Fault {
		case prefix + "denied":
			w.WriteHeader(403)
			io.WriteString(w, "<Error><Code>AccessDenied</Code></Error>")
			return
		case prefix + "slow":
			time.Sleep(slowTime)
		}
		switch {
		case lookup:
			fmt.Fprintf(w, `<?xml version="1.0" encoding="UTF-8"?>`+"\n"+`<LocationConstraint xmlns="http://s3.amazonaws.com/doc/2006-03-01/">%s</LocationConstraint>`, s.Locations[o.Op.Bucket-1])
		case o.Op.Verb == "readdir":
			io.WriteString(w, `<ListVersionsResult><IsTruncated>false</IsTruncated></ListVersionsResult>`)
		case o.Op.Verb == "remove":
			w.WriteHeader(204)
		case o.Op.Verb == "create":
			if !bytes.Equal(body, content) {
				mu.Lock()
				fail("stored %d bytes", len(body))
				mu.Unlock()
			}
			w.Header().Set("ETag", `"x"`)
		default:
			http.ServeContent(w, r, "", time.Time{}, bytes.NewReader(content))
		}
	})
	defer leaveCloud(token)

	u := "s3://" + bucket + "/" + o.URLKey
	switch o.Op.Scheme {
	case "swift":
		u = "swift://" + bucket + ".swift.example/" + o.Account + "/cont/" + o.URLKey
	case "https":
		u = "https://" + bucket + ".web.example/" + o.URLKey
	}
	if o.Version != "" {
		u += "?versionId=" + stdurl.QueryEscape(o.Version)
	}
	ctx := withOpts(context.Background(), o.Op.Opts)
	begin := time.Now()
	var err error
	ran := make(chan struct{})
	go func() {
		defer close(ran)
		switch o.Op.Verb {
		case "open":
			var obj storage.Object
			obj, err = storage.OpenContextSize(ctx, u, -1)
			if err == nil {
				p := make([]byte, 50)
				_, err = obj.ReadAt(p, 20)
				if err == nil && !bytes.Equal(p, content[20:70]) {
					mu.Lock()
					fail("wrong bytes read")
					mu.Unlock()
				}
				obj.Close()
			}
		case "stat":
			var fi os.FileInfo
			fi, err = storage.StatContext(ctx, u)
			if err == nil && fi.Size() != 300 {
				mu.Lock()
				fail("size %d", fi.Size())
				mu.Unlock()
			}
		case "remove":
			err = storage.RemoveContext(ctx, u)
		case "readdir":
			_, err = storage.ReaddirContext(ctx, u)
		case "create":
			var w storage.ObjectWriter
			w, err = storage.CreateContext(ctx, u)
			if err == nil {
				if _, err = w.Write(content); err != nil {
					w.Abort()
				} else {
					_, err = w.Commit()
				}
			}
		}
	}()
	select {
	case <-ran:
	case <-time.After(15 * time.Second):
		return where("does not return")
	}
	took := time.Since(begin)
	mu.Lock()
	defer mu.Unlock()
	if bad != nil {
		return bad
	}
	if (err == nil) != (o.Result == "ok") {
		return where("%v instead of %s after %v", err, o.Result, took)
	}
	if o.Limited && strings.HasSuffix(o.Op.Fault, "slow") && o.Result == "error" && took > 8*time.Second {
		return where("took %v", took)
	}
	if (sent > 0) != o.Sent {
		return where("%d requests sent, expected some: %v (%v)", sent, o.Sent, err)
	}
	if (lookups > 0) && !o.Lookup {
		return where("%d lookups sent", lookups)
	}
	return nil
}

type signCase struct {
	Body  int    `json:"body"` // -1 for none
	Creds string `json:"creds"`
	Path  string `json:"path"`
}

type recorder struct {
	sent int
	st   sighted
	body []byte
}

func (r *recorder) RoundTrip(req *http.Request) (*http.Response, error) {
	r.sent++
	var body []byte
	if req.Body != nil {
		body, _ = ioutil.ReadAll(req.Body)
	}
	// as it arrives
	var b bytes.Buffer
	u := *req.URL
	in := &http.Request{Method: req.Method, URL: &u, Host: req.URL.Host, Header: req.Header.Clone(), ContentLength: req.ContentLength}
	in.Header.Set("X-Vh-Connected", req.URL.Host)
	_ = b
	r.body = body
	r.st = sight(in, body, map[string]string{"S3C1": "secret of S3C1"})
	return &http.Response{StatusCode: 200, Body: ioutil.NopCloser(strings.NewReader("")), Header: http.Header{}, Request: req}, nil
}

type failingProvider struct{}

func (failingProvider) Retrieve() (credentials.Value, error) {
	return credentials.Value{}, errors.New("no credentials today")
}
func (failingProvider) IsExpired() bool { return true }

// signDriver sends a request through the signer.
func signDriver(c *vh.Case) error {
	var s signCase
	c.Decode(&s)
	creds := credentials.NewStaticCredentials("S3C1", "secret of S3C1", "")
	if s.Creds == "fail" {
		creds = credentials.NewCredentials(failingProvider{})
	}
	rec := &recorder{}
	rt := s3util.NewSigningRoundTripper(rec, creds, "eu-west-1")
	var body io.Reader
	var want []byte
	if s.Body >= 0 {
		want = vh.Pattern(1, 0, int64(s.Body))
		body = bytes.NewReader(want)
	}
	req, err := http.NewRequest("PUT", "https://buck.s3.eu-west-1.amazonaws.com/"+s.Path, body)
	vh.Must(err)
	resp, err := rt.RoundTrip(req)
	if s.Creds == "fail" {
		if rec.sent > 0 || err == nil {
			return vh.Bad("request that could not be signed: sent %d times, %v", rec.sent, err)
		}
		return nil
	}
	if err != nil {
		return vh.Bad("signing: %v", err)
	}
	resp.Body.Close()
	if rec.sent != 1 || !rec.st.Signed || rec.st.ID != "S3C1" || rec.st.SigRegion != "eu-west-1" || !bytes.Equal(rec.body, want) {
		return vh.Bad("sent %d times: %+v", rec.sent, rec.st)
	}
	return nil
}
