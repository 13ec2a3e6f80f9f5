package w

import (
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

// HTTPFault is applied to requests whose path ends in Suffix.
type HTTPFault struct {
	Suffix string `json:"suffix"`
	Kind   string `json:"kind"`          // status, truncate, reset, kill, slow, body
	N      int    `json:"n,omitempty"`   // status code; bytes before truncation; ms
	Nth    int    `json:"nth,omitempty"` // 0 every request, n only the n-th matching one
	Body   string `json:"body,omitempty"`
}

// Server serves a directory over loopback HTTP with injected faults.
type Server struct {
	dir    string
	l      net.Listener
	srv    *http.Server
	mu     sync.Mutex
	faults []HTTPFault
	seen   map[string]int
	Log    []string
	Slow   int // ms before an index is served
	tls    bool
	pid    int // pkgr process to kill for kind "kill"
}

// NewServer starts a server.
func NewServer(dir string) *Server {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s := &Server{dir: dir, l: l, seen: map[string]int{}}
	s.srv = &http.Server{Handler: s}
	go func() { _ = s.srv.Serve(l) }()
	return s
}

// URL of the server.
func (s *Server) URL() string {
	if s.tls {
		return "https://" + s.l.Addr().String()
	}
	return "http://" + s.l.Addr().String()
}

// SetFaults replaces the faults and forgets request counts.
func (s *Server) SetFaults(f []HTTPFault) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.faults = f
	s.seen = map[string]int{}
}

// Requests returns and clears the request log.
func (s *Server) Requests() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.Log
	s.Log = nil
	return l
}

func (s *Server) setPid(p int) {
	s.mu.Lock()
	s.pid = p
	s.mu.Unlock()
}

func (s *Server) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
	s.mu.Lock()
	s.Log = append(s.Log, req.URL.Path)
	var f *HTTPFault
	for i := range s.faults {
		x := s.faults[i]
		if strings.HasSuffix(req.URL.Path, x.Suffix) {
			k := fmt.Sprint(i)
			s.seen[k]++
			if x.Nth == 0 || x.Nth == s.seen[k] {
				f = &s.faults[i]
				break
			}
		}
	}
	pid := s.pid
	s.mu.Unlock()
	if s.Slow > 0 && strings.HasSuffix(req.URL.Path, "/PACKAGES") {
		time.Sleep(time.Duration(s.Slow) * time.Millisecond)
	}
	p := filepath.Join(s.dir, filepath.Clean("/"+req.URL.Path))
	b, err := os.ReadFile(p)
	if f != nil {
		switch f.Kind {
		case "status":
			switch f.N {
			case 204:
				rw.WriteHeader(204)
			case 206: // a part of the file, as for a request with a range
				n := len(b) / 3
				rw.Header().Set("Content-Range", fmt.Sprintf("bytes 0-%d/%d", n-1, len(b)))
				rw.WriteHeader(206)
				_, _ = rw.Write(b[:n])
			default:
				rw.WriteHeader(f.N)
				_, _ = rw.Write([]byte("injected status " + f.Body))
			}
			return
		case "redirect":
			http.Redirect(rw, req, f.Body+req.URL.Path, f.N)
			return
		case "reset":
			hijackClose(rw, nil, 0)
			return
		case "truncate":
			n := f.N
			if n >= len(b) {
				n = len(b) - 1
			}
			if n < 0 {
				n = 0
			}
			hijackClose(rw, b[:n], len(b))
			return
		case "kill":
			n := f.N
			if n >= len(b) {
				n = len(b) - 1
			}
			if n < 0 {
				n = 0
			}
			hj, ok := rw.(http.Hijacker)
			if !ok {
				return
			}
			c, _, err := hj.Hijack()
			if err != nil {
				return
			}
			_, _ = fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Type: application/octet-stream\r\nContent-Length: %d\r\n\r\n", len(b))
			_, _ = c.Write(b[:n])
			// let the client consume what was sent, then end it
			time.Sleep(25 * time.Millisecond)
			if pid > 0 {
				_ = syscall.Kill(pid, syscall.SIGKILL)
			}
			_ = c.Close()
			return
		case "slow":
			time.Sleep(time.Duration(f.N) * time.Millisecond)
		case "body":
			rw.WriteHeader(200)
			_, _ = rw.Write([]byte(f.Body))
			return
		}
	}
	if err != nil {
		rw.WriteHeader(404)
		_, _ = rw.Write([]byte("not found"))
		return
	}
	rw.Header().Set("Content-Length", fmt.Sprint(len(b)))
	_, _ = rw.Write(b)
}

func hijackClose(rw http.ResponseWriter, b []byte, total int) {
	hj, ok := rw.(http.Hijacker)
	if !ok {
		return
	}
	c, _, err := hj.Hijack()
	if err != nil {
		return
	}
	if b != nil || total > 0 {
		_, _ = fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Type: application/octet-stream\r\nContent-Length: %d\r\n\r\n", total)
		_, _ = c.Write(b)
	}
	_ = c.Close()
}

// Close stops the server.
func (s *Server) Close() { _ = s.srv.Close() }
