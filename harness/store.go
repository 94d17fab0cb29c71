package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

// store is a stand-in for file systems and HTTP servers that records every access and can be
// told to fail.
type store struct {
	mu       sync.Mutex
	http     map[string]string // URL without fragment -> body
	files    map[string]string // path -> content
	faults   map[string]fault  // URL or path -> fault
	accesses []string
	opened   int
	closed   int
}

// fault kinds
const (
	faultNone      = ""
	faultMissing   = "missing"   // open fails / 404
	faultStatus    = "status"    // HTTP status N, body intact
	faultRead      = "read"      // read error after N bytes
	faultTruncate  = "truncate"  // data ends after N bytes without an error
	faultGarbage   = "garbage"   // not JSON
	faultTransport = "transport" // the request itself fails
)

type fault struct {
	Kind     string `json:"kind"`
	N        int    `json:"n"`
	Err      int    `json:"err,omitempty"`      // which error
	Together bool   `json:"together,omitempty"` // the error comes with the last piece of data
	Near     bool   `json:"near,omitempty"`     // something of almost that name is there
}

// injected lists errors as reading a file or a response may return them.
var injected = []error{errors.New("injected fault"), io.ErrUnexpectedEOF, fs.ErrClosed, context.DeadlineExceeded, io.ErrClosedPipe, io.ErrNoProgress,
	&net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}, &fs.PathError{Op: "read", Path: "x", Err: syscall.EIO}, fmt.Errorf("cut off: %w", io.EOF), context.Canceled}

var openErrors = []error{fs.ErrNotExist, fs.ErrPermission, syscall.EMFILE, fs.ErrInvalid, io.EOF}

var garbage = []string{"<html>not json</html>", "", " \n", "\ufeff{}", "nul", "{]", "'x'", "{\"a\" 1}", "{,}", "\x00", "tru", "-", "[1,]"}

var mediaTypes = []string{"", "application/json", "application/schema+json", "text/html; charset=utf-8", "text/plain", "application/problem+json", "application/schema+json; charset=utf-8"}

// near lists names that are almost that of a resource.
func near(key string) []string {
	out := []string{key + ".json", key + "/", key + "/index.json", strings.ToLower(key), strings.ToUpper(key), key + "~", key + ".bak", key + ".schema.json"}
	for _, ext := range []string{".json", "/", ".schema"} {
		if t := strings.TrimSuffix(key, ext); t != key {
			out = append(out, t, t+".schema", t+".json")
		}
	}
	if i := strings.LastIndexByte(key, '/'); i >= 0 {
		out = append(out, "/"+key[i+1:], key[i+1:], key[:i+1])
	}
	if i := strings.IndexByte(key, '?'); i >= 0 {
		out = append(out, key[:i])
	}
	if strings.HasPrefix(key, "http:") {
		out = append(out, "https:"+key[5:])
	} else if strings.HasPrefix(key, "https:") {
		out = append(out, "http:"+key[6:])
	}
	return out
}

func newStore() *store {
	return &store{http: map[string]string{}, files: map[string]string{}, faults: map[string]fault{}}
}

type trackedBody struct {
	s      *store
	r      io.Reader
	closed bool
}

func (b *trackedBody) Read(p []byte) (int, error) {
	if b.closed {
		return 0, errors.New("read after close")
	}
	return b.r.Read(p)
}

func (b *trackedBody) Close() error {
	b.s.mu.Lock()
	defer b.s.mu.Unlock()
	if !b.closed {
		b.closed = true
		b.s.closed++
	}
	return nil
}

type faultyReader struct {
	data     []byte
	err      error
	together bool
}

func (f *faultyReader) Read(p []byte) (int, error) {
	if len(f.data) == 0 {
		return 0, f.err
	}
	n := copy(p, f.data)
	// hand out small pieces, so that partial reads happen
	if n > 7 {
		n = 7
	}
	f.data = f.data[n:]
	if f.together && len(f.data) == 0 {
		return n, f.err
	}
	return n, nil
}

func (s *store) body(content string, f fault) *trackedBody {
	s.opened++
	data := []byte(content)
	end := io.EOF
	switch f.Kind {
	case faultRead:
		data, end = data[:min(len(data), f.N)], injected[f.Err%len(injected)]
	case faultTruncate:
		data = data[:min(len(data), f.N)]
	case faultGarbage:
		data = []byte(garbage[f.N%len(garbage)])
	}
	return &trackedBody{s: s, r: &faultyReader{data, end, f.Together}}
}

// RoundTrip implements http.RoundTripper.
func (s *store) RoundTrip(r *http.Request) (*http.Response, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	u := *r.URL
	u.Fragment, u.RawFragment = "", ""
	key := u.String()
	s.accesses = append(s.accesses, key)
	f := s.faults[key]
	if f.Kind == faultTransport {
		return nil, injected[f.Err%len(injected)]
	}
	content, ok := s.http[key]
	code := 200
	if !ok || f.Kind == faultMissing {
		code, content = 404, "not found"
	}
	if f.Kind == faultStatus {
		code = f.N
	}
	h := http.Header{}
	if t := mediaTypes[f.Err%len(mediaTypes)]; t != "" {
		h.Set("Content-Type", t)
	}
	return &http.Response{StatusCode: code, Status: fmt.Sprintf("%d status", code), Body: s.body(content, f), Header: h, Request: r,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, ContentLength: -1}, nil
}

type memFile struct {
	*trackedBody
	name string
	size int64
}

func (m *memFile) Seek(int64, int) (int64, error)     { return 0, errors.New("not seekable") }
func (m *memFile) Readdir(int) ([]fs.FileInfo, error) { return nil, errors.New("no directory") }
func (m *memFile) Stat() (fs.FileInfo, error)         { return memInfo{m.name, m.size}, nil }

type memInfo struct {
	name string
	size int64
}

func (i memInfo) Name() string       { return filepath.Base(i.name) }
func (i memInfo) Size() int64        { return i.size }
func (i memInfo) Mode() fs.FileMode  { return 0o444 }
func (i memInfo) ModTime() time.Time { return time.Time{} }
func (i memInfo) IsDir() bool        { return false }
func (i memInfo) Sys() any           { return nil }

// Open implements http.FileSystem.
func (s *store) Open(name string) (http.File, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.accesses = append(s.accesses, name)
	f := s.faults[name]
	content, ok := s.files[name]
	if !ok || f.Kind == faultMissing || f.Kind == faultTransport {
		return nil, &fs.PathError{Op: "open", Path: name, Err: openErrors[f.Err%len(openErrors)]}
	}
	return &memFile{s.body(content, f), name, int64(len(content))}, nil
}

// install makes the store answer HTTP requests until the returned function is called.
func (s *store) install() func() {
	old := http.DefaultTransport
	http.DefaultTransport = s
	return func() { http.DefaultTransport = old }
}

// scratchDir creates a new directory that the check removes again.
func scratchDir() (dir string, remove func()) {
	dir, err := os.MkdirTemp("", "files-")
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	return dir, func() { os.RemoveAll(dir) }
}

// writeFiles writes files below dir; names are relative and may contain slashes.
func writeFiles(dir string, files map[string]string) {
	for _, name := range sortedKeys(files) {
		p := filepath.Join(dir, filepath.FromSlash(name))
		if !strings.HasPrefix(p, dir+"/") {
			panic(harnessBug("file outside scratch directory"))
		}
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(harnessBug(err.Error()))
		}
		if err := os.WriteFile(p, []byte(files[name]), 0o644); err != nil {
			panic(harnessBug(err.Error()))
		}
	}
}
