package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"strings"
	"sync"

	"github.com/NVIDIA/vdisc/pkg/httputil"
	vh "github.com/NVIDIA/vdisc/pkg/zzvhlib"
)

type rrCase struct {
	NumAddrs []int  `json:"numaddrs"`
	MaxHosts int    `json:"maxhosts"`
	Reqs     []int  `json:"reqs"`
	V6       string `json:"v6"` // which addresses are IPv6: none, all, mixed
	Close    bool   `json:"close"`
	Ports    []int  `json:"ports"` // 0: none given
	Literal  bool   `json:"literal"`
	Workers  int    `json:"workers"`
	FailDial int    `json:"faildial"` // address number that refuses connections, 0: none
}

// fakeNet serves every address, in memory; answers name the address dialled.
type fakeNet struct {
	s     *rrCase
	mu    sync.Mutex
	known map[string][3]int // address with port -> host, number, port
	bad   error
	rnd   *rand.Rand
}

func (f *fakeNet) addr(h, a int) string {
	v6 := f.s.V6 == "all" || f.s.V6 == "mixed" && (h+a)%2 == 0
	if v6 {
		return fmt.Sprintf("fd00:%x::%x", h, a)
	}
	return fmt.Sprintf("10.0.%d.%d", h, a)
}

func (f *fakeNet) host(h int) string { return fmt.Sprintf("host%d.example", h) }

func (f *fakeNet) lookup(host string) ([]string, error) {
	var h int
	if n, _ := fmt.Sscanf(host, "host%d.example", &h); n != 1 || h < 1 || h > len(f.s.NumAddrs) {
		f.fail(vh.Bad("lookup of %q", host))
		return nil, errors.New("no such host")
	}
	if f.s.NumAddrs[h-1] == 0 {
		if h%2 == 0 {
			return nil, nil
		}
		return nil, errors.New("no such host")
	}
	var out []string
	for a := 1; a <= f.s.NumAddrs[h-1]; a++ {
		out = append(out, f.addr(h, a))
	}
	return out, nil
}

func (f *fakeNet) fail(err error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.bad == nil {
		f.bad = err
	}
}

func (f *fakeNet) dial(ctx context.Context, network, addr string) (net.Conn, error) {
	who, ok := f.known[addr]
	if !ok {
		f.fail(vh.Bad("dialled %q", addr))
		return nil, errors.New("no route")
	}
	if f.s.FailDial != 0 && who[1] == f.s.FailDial {
		return nil, errors.New("connection refused")
	}
	a, b := net.Pipe()
	go func() {
		defer b.Close()
		r := bufio.NewReader(b)
		for {
			req, err := http.ReadRequest(r)
			if err != nil {
				return
			}
			io.Copy(io.Discard, req.Body)
			body := fmt.Sprintf("%d %d %s %d", who[0], who[1], req.Host, who[2])
			h := ""
			if f.s.Close {
				h = "Connection: close\r\n"
			}
			fmt.Fprintf(b, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n%s\r\n%s", len(body), h, body)
			if f.s.Close {
				return
			}
		}
	}()
	return a, nil
}

func (f *fakeNet) init(s *rrCase) http.RoundTripper {
	f.s = s
	f.known = make(map[string][3]int)
	f.rnd = rand.New(rand.NewSource(int64(len(s.Reqs))))
	for _, port := range s.Ports {
		if port == 0 {
			port = 80
		}
		for h := 1; h <= len(s.NumAddrs); h++ {
			for a := 1; a <= s.NumAddrs[h-1]; a++ {
				f.known[net.JoinHostPort(f.addr(h, a), fmt.Sprint(port))] = [3]int{h, a, port}
			}
		}
	}
	return httputil.NewRoundRobinTransport(httputil.RoundRobinTransportConfig{
		MaxHosts:            s.MaxHosts,
		MaxIdleConnsPerHost: 10,
		LookupHost:          f.lookup,
		Dial:                f.dial,
	})
}

// get sends one request; a is the address that answered, 0 if the request failed.
func (f *fakeNet) get(rt http.RoundTripper, h int) (a int, err error) {
	host := f.host(h)
	f.mu.Lock()
	port := f.s.Ports[f.rnd.Intn(len(f.s.Ports))]
	f.mu.Unlock()
	if port != 0 {
		host = fmt.Sprintf("%s:%d", host, port)
	} else {
		port = 80
	}
	req, err := http.NewRequest("GET", "http://"+host+"/x", nil)
	vh.Must(err)
	resp, err := rt.RoundTrip(req)
	if err != nil {
		return 0, err
	}
	b, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil {
		return 0, vh.Bad("answer: %v", err)
	}
	p := strings.Fields(string(b))
	var gh, ga int
	fmt.Sscan(p[0], &gh)
	fmt.Sscan(p[1], &ga)
	if gh != h {
		f.fail(vh.Bad("a request to host %d was sent to host %d", h, gh))
	}
	if p[3] != fmt.Sprint(port) {
		f.fail(vh.Bad("a request to %q was sent to port %s", host, p[3]))
	}
	if p[2] != host {
		f.fail(vh.Bad("a request to %q was sent as %q", host, p[2]))
	}
	return ga, nil
}

// rrDriver sends the requests one after another and reports who answered.
func rrDriver(c *vh.Case) error {
	var s rrCase
	c.Decode(&s)
	f := &fakeNet{}
	rt := f.init(&s)
	var ev []map[string]int
	for i, h := range s.Reqs {
		a, err := f.get(rt, h)
		if f.bad != nil {
			return vh.Bad("request %d: %v", i, f.bad)
		}
		if s.NumAddrs[h-1] == 0 {
			if err == nil {
				return vh.Bad("request %d to an unknown host succeeded", i)
			}
		} else if err != nil {
			return vh.Bad("request %d to host %d: %v", i, h, err)
		}
		ev = append(ev, map[string]int{"h": h, "a": a})
	}
	c.Obs = map[string]interface{}{"ev": ev}
	return nil
}

// churnDriver sends the requests from several goroutines.
func churnDriver(c *vh.Case) error {
	var s rrCase
	c.Decode(&s)
	f := &fakeNet{}
	rt := f.init(&s)
	counts := make(map[[2]int]int)
	per := make(map[int]int)
	var mu sync.Mutex
	var first error
	var wg sync.WaitGroup
	work := make(chan int)
	for w := 0; w < s.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for h := range work {
				a, err := f.get(rt, h)
				mu.Lock()
				if s.NumAddrs[h-1] == 0 {
					if err == nil && first == nil {
						first = vh.Bad("a request to an unknown host succeeded")
					}
				} else if err != nil {
					if s.FailDial == 0 && first == nil {
						first = vh.Bad("request to host %d: %v", h, err)
					}
					per[h]++
					counts[[2]int{h, s.FailDial}]++
				} else {
					per[h]++
					counts[[2]int{h, a}]++
				}
				mu.Unlock()
			}
		}()
	}
	for _, h := range s.Reqs {
		work <- h
	}
	close(work)
	wg.Wait()
	if first == nil {
		first = f.bad
	}
	if first != nil {
		return first
	}
	if s.MaxHosts > 0 && s.MaxHosts < len(s.NumAddrs) {
		return nil
	}
	for h := range per {
		lo, hi := 1<<30, 0
		for a := 1; a <= s.NumAddrs[h-1]; a++ {
			n := counts[[2]int{h, a}]
			if n < lo {
				lo = n
			}
			if n > hi {
				hi = n
			}
		}
		if hi-lo > 1 {
			return vh.Bad("host %d: addresses received between %d and %d requests", h, lo, hi)
		}
	}
	return nil
}
