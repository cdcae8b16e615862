package zzvhlib

import (
	"bytes"
	"net/http"
	"net/http/httptest"
	neturl "net/url"
	"sync"
	"time"
)

// Store is a tiny range-capable web server over named byte strings.
type Store struct {
	*httptest.Server
	mu      sync.Mutex
	objects map[string][]byte
	Log     []string
}

// NewStore starts the server on the loopback interface.
func NewStore() *Store {
	s := &Store{objects: map[string][]byte{}}
	s.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		s.mu.Lock()
		b, ok := s.objects[r.URL.Path]
		s.Log = append(s.Log, r.Method+" "+r.URL.Path+" "+r.Header.Get("Range"))
		s.mu.Unlock()
		if !ok {
			w.WriteHeader(404)
			return
		}
		w.Header().Set("Content-Type", "application/octet-stream")
		http.ServeContent(w, r, "", time.Time{}, bytes.NewReader(b))
	}))
	return s
}

// Put stores an object and returns its URL.
func (s *Store) Put(path string, b []byte) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.objects[path] = b
	return s.URL + path
}

// Remove forgets the object at a URL.
func (s *Store) Remove(url string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for p := range s.objects {
		if u, err := neturl.Parse(url); err == nil && u.Path == p {
			delete(s.objects, p)
		}
	}
}
