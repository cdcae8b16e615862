package main

import (
	"bufio"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"io"
	"io/ioutil"
	"math/big"
	"net"
	"net/http"
	stdurl "net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

// cloud stands for all hosts: names resolve to this process, connections go through a proxy that answers for the host asked for.
type cloud struct {
	mu       sync.Mutex
	handlers map[string]http.HandlerFunc
	ca       *x509.Certificate
	caKey    *ecdsa.PrivateKey
	certs    map[string]*tls.Certificate
}

var theCloud *cloud
var cloudOnce sync.Once

// useCloud has requests whose address mentions a name served. Names must be unique in the process and no part of another.
func useCloud(name string, h http.HandlerFunc) {
	cloudOnce.Do(func() { theCloud = newCloud() })
	theCloud.mu.Lock()
	theCloud.handlers[name] = h
	theCloud.mu.Unlock()
}

func leaveCloud(name string) {
	theCloud.mu.Lock()
	delete(theCloud.handlers, name)
	theCloud.mu.Unlock()
}

func newCloud() *cloud {
	c := &cloud{certs: make(map[string]*tls.Certificate), handlers: make(map[string]http.HandlerFunc)}
	var err error
	c.caKey, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	vh.Must(err)
	tmpl := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "vh"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign,
	}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &c.caKey.PublicKey, c.caKey)
	vh.Must(err)
	c.ca, err = x509.ParseCertificate(der)
	vh.Must(err)
	dir, err := ioutil.TempDir("", "vh")
	vh.Must(err)
	file := filepath.Join(dir, "ca.pem")
	vh.Must(ioutil.WriteFile(file, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600))
	vh.Must(os.Setenv("SSL_CERT_FILE", file))
	vh.Must(os.Setenv("SSL_CERT_DIR", dir))
	// the roots are read at their first use
	if _, err := x509.SystemCertPool(); err != nil {
		vh.Must(err)
	}
	vh.Must(os.RemoveAll(dir))

	l, err := net.Listen("tcp", "127.0.0.1:0")
	vh.Must(err)
	proxy := "http://" + l.Addr().String()
	vh.Must(os.Setenv("HTTPS_PROXY", proxy))
	vh.Must(os.Setenv("https_proxy", proxy))
	vh.Must(os.Setenv("NO_PROXY", ""))
	vh.Must(os.Setenv("no_proxy", ""))
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			go c.serve(conn)
		}
	}()

	dns, err := net.ListenPacket("udp", "127.0.0.1:0")
	vh.Must(err)
	go serveDNS(dns)
	net.DefaultResolver = &net.Resolver{
		PreferGo: true,
		Dial: func(ctx context.Context, network, addr string) (net.Conn, error) {
			return net.Dial("udp", dns.LocalAddr().String())
		},
	}
	return c
}

func serveDNS(pc net.PacketConn) {
	buf := make([]byte, 1500)
	for {
		n, from, err := pc.ReadFrom(buf)
		if err != nil {
			return
		}
		if n < 12 {
			continue
		}
		q := buf[:n]
		end := 12
		for end < n && q[end] != 0 {
			end += int(q[end]) + 1
		}
		end += 5
		if end > n {
			continue
		}
		typ := int(q[end-4])<<8 | int(q[end-3])
		out := append([]byte{}, q[:end]...)
		out[2], out[3] = 0x81, 0x80
		out[4], out[5], out[6], out[7], out[8], out[9], out[10], out[11] = 0, 1, 0, 0, 0, 0, 0, 0
		if typ == 1 {
			out[7] = 1
			out = append(out, 0xc0, 12, 0, 1, 0, 1, 0, 0, 0, 60, 0, 4, 127, 0, 0, 1)
		}
		pc.WriteTo(out, from)
	}
}

func (c *cloud) cert(host string) *tls.Certificate {
	c.mu.Lock()
	defer c.mu.Unlock()
	if x, ok := c.certs[host]; ok {
		return x
	}
	tmpl := &x509.Certificate{
		SerialNumber: big.NewInt(int64(len(c.certs) + 2)), Subject: pkix.Name{CommonName: "host"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		DNSNames: []string{host}, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, c.ca, &c.caKey.PublicKey, c.caKey)
	vh.Must(err)
	x := &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: c.caKey}
	c.certs[host] = x
	return x
}

func (c *cloud) serve(conn net.Conn) {
	defer conn.Close()
	r := bufio.NewReader(conn)
	req, err := http.ReadRequest(r)
	if err != nil {
		return
	}
	if req.Method != "CONNECT" {
		io.WriteString(conn, "HTTP/1.1 400 Bad Request\r\nConnection: close\r\n\r\n")
		return
	}
	io.WriteString(conn, "HTTP/1.1 200 OK\r\n\r\n")
	host, _, err := net.SplitHostPort(req.Host)
	if err != nil {
		host = req.Host
	}
	tc := tls.Server(conn, &tls.Config{GetCertificate: func(*tls.ClientHelloInfo) (*tls.Certificate, error) { return c.cert(host), nil }})
	if err := tc.Handshake(); err != nil {
		return
	}
	done := make(chan struct{})
	srv := &http.Server{
		Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			h := http.NotFound
			c.mu.Lock()
			for name, x := range c.handlers {
				if strings.Contains(host+r.URL.String(), name) {
					h = x
				}
			}
			c.mu.Unlock()
			r.Header.Set("X-Vh-Connected", host)
			h(w, r)
		}),
		ConnState: func(_ net.Conn, st http.ConnState) {
			if st == http.StateClosed || st == http.StateHijacked {
				select {
				case <-done:
				default:
					close(done)
				}
			}
		},
	}
	srv.Serve(&oneConn{conn: tc, done: done})
}

// oneConn is a listener of a single connection.
type oneConn struct {
	conn net.Conn
	done chan struct{}
}

func (l *oneConn) Accept() (net.Conn, error) {
	if c := l.conn; c != nil {
		l.conn = nil
		return c, nil
	}
	<-l.done
	return nil, io.EOF
}
func (l *oneConn) Close() error   { return nil }
func (l *oneConn) Addr() net.Addr { return &net.TCPAddr{} }

// sighted is what a request says about its origin and aim.
type sighted struct {
	Method, Bucket, Region, Key, Query string
	ID, SigRegion                      string
	Signed                             bool
	Why                                string
}

var dashRegions = map[string]bool{"us-east-1": true, "us-east-2": true, "us-west-1": true, "us-west-2": true, "eu-west-1": true, "eu-central-1": true, "ap-northeast-1": true, "sa-east-1": true}

// aim finds bucket, region and key in the address of an S3 request.
func aim(host, path string) (bucket, region, key string, ok bool) {
	dom := ""
	for _, d := range []string{".amazonaws.com.cn", ".amazonaws.com"} {
		if strings.HasSuffix(host, d) {
			dom = d
			break
		}
	}
	if dom == "" {
		return
	}
	rest := strings.TrimSuffix(host, dom)
	i := strings.LastIndex(rest, "s3")
	for i > 0 && rest[i-1] != '.' {
		i = strings.LastIndex(rest[:i], "s3")
	}
	if i < 0 {
		return
	}
	bucket = strings.TrimSuffix(rest[:i], ".")
	switch suffix := rest[i+2:]; {
	case suffix == "":
		region = "us-east-1"
	case suffix[0] == '.':
		region = suffix[1:]
	case suffix[0] == '-':
		region = suffix[1:]
		if !dashRegions[region] {
			return
		}
	default:
		return
	}
	if region == "" || strings.HasPrefix(region, "cn-") != (dom == ".amazonaws.com.cn") {
		return
	}
	key = strings.TrimPrefix(path, "/")
	if bucket == "" { // path style
		i := strings.Index(key, "/")
		if i < 0 {
			return key, region, "", true
		}
		bucket, key = key[:i], key[i+1:]
	}
	return bucket, region, key, true
}

// verify recomputes the signature of a request.
func verify(r *http.Request, body []byte, secrets map[string]string) (id, region string, err error) {
	auth := r.Header.Get("Authorization")
	const scheme = "AWS4-HMAC-SHA256 "
	if !strings.HasPrefix(auth, scheme) {
		return "", "", fmt.Errorf("authorization %q", auth)
	}
	f := map[string]string{}
	for _, p := range strings.Split(auth[len(scheme):], ",") {
		if i := strings.Index(p, "="); i >= 0 {
			f[strings.TrimSpace(p[:i])] = p[i+1:]
		}
	}
	scope := strings.Split(f["Credential"], "/")
	if len(scope) != 5 || scope[3] != "s3" || scope[4] != "aws4_request" {
		return "", "", fmt.Errorf("scope %q", f["Credential"])
	}
	id, region = scope[0], scope[2]
	secret, ok := secrets[id]
	if !ok {
		return id, region, fmt.Errorf("unknown key %q", id)
	}
	q := r.URL.Query()
	var pairs []string
	for k, vs := range q {
		for _, v := range vs {
			pairs = append(pairs, awsEscape(k, true)+"="+awsEscape(v, true))
		}
	}
	sort.Strings(pairs)
	var hs string
	names := strings.Split(f["SignedHeaders"], ";")
	host := false
	for _, n := range names {
		v := r.Header.Get(n)
		if n == "host" {
			v, host = r.Host, true
		}
		if n == "content-length" {
			v = fmt.Sprint(r.ContentLength)
		}
		hs += n + ":" + strings.Join(strings.Fields(v), " ") + "\n"
	}
	if !host {
		return id, region, fmt.Errorf("the host is not signed")
	}
	sum := r.Header.Get("X-Amz-Content-Sha256")
	if real := fmt.Sprintf("%x", sha256.Sum256(body)); sum != real && sum != "UNSIGNED-PAYLOAD" {
		return id, region, fmt.Errorf("checksum of the body")
	}
	canonical := strings.Join([]string{r.Method, awsEscape(r.URL.Path, false), strings.Join(pairs, "&"), hs, f["SignedHeaders"], sum}, "\n")
	date := r.Header.Get("X-Amz-Date")
	if t, err := time.Parse("20060102T150405Z", date); err != nil || time.Since(t) > 15*time.Minute || time.Since(t) < -15*time.Minute || date[:8] != scope[1] {
		return id, region, fmt.Errorf("date %q", date)
	}
	text := "AWS4-HMAC-SHA256\n" + date + "\n" + strings.Join(scope[1:], "/") + "\n" + fmt.Sprintf("%x", sha256.Sum256([]byte(canonical)))
	k := []byte("AWS4" + secret)
	for _, s := range append(scope[1:], text) {
		m := hmac.New(sha256.New, k)
		io.WriteString(m, s)
		k = m.Sum(nil)
	}
	if hex.EncodeToString(k) != f["Signature"] {
		return id, region, fmt.Errorf("signature of %q", canonical)
	}
	return id, region, nil
}

func awsEscape(s string, slash bool) string {
	out := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_' || c == '.' || c == '~' || c == '/' && !slash {
			out += string(rune(c))
		} else {
			out += fmt.Sprintf("%%%02X", c)
		}
	}
	return out
}

func sight(r *http.Request, body []byte, secrets map[string]string) sighted {
	s := sighted{Method: r.Method}
	var ok bool
	host := r.Header.Get("X-Vh-Connected")
	if h := strings.TrimSuffix(r.Host, ":443"); h != host {
		s.Why = fmt.Sprintf("host %q on a connection to %q", r.Host, host)
		return s
	}
	if strings.HasSuffix(host, ".swift.example") {
		p := strings.SplitN(strings.TrimPrefix(r.URL.Path, "/"), "/", 2)
		s.Bucket, s.Region, ok = host+"/"+p[0], "swift", true
		if len(p) > 1 {
			s.Key = p[1]
		}
	} else {
		s.Bucket, s.Region, s.Key, ok = aim(host, r.URL.Path)
	}
	if !ok {
		s.Why = fmt.Sprintf("no S3 address: %s%s", host, r.URL.Path)
		return s
	}
	q := r.URL.Query()
	s.Query = q.Encode()
	var err error
	s.ID, s.SigRegion, err = verify(r, body, secrets)
	if err != nil {
		s.Why = err.Error()
	} else {
		s.Signed = true
	}
	return s
}

var _ = stdurl.Parse
