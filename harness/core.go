package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"
)

// JV is a JSON value inside a case; number literals survive the round trip.
type JV struct{ V any }

func (j JV) MarshalJSON() ([]byte, error) { return []byte(encode(j.V)), nil }
func (j *JV) UnmarshalJSON(b []byte) error {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	return d.Decode(&j.V)
}

func jvs(vs ...any) []JV {
	r := make([]JV, len(vs))
	for i := range vs {
		r[i] = JV{vs[i]}
	}
	return r
}

// S receives what a check observed about one case.
type S struct {
	labels     []string
	nontrivial bool
	discard    bool
}

func (s *S) label(format string, a ...any) {
	if s == nil {
		return
	}
	if len(a) > 0 {
		format = fmt.Sprintf(format, a...)
	}
	s.labels = append(s.labels, format)
}
func (s *S) nt() {
	if s != nil {
		s.nontrivial = true
	}
}

// prop is one registered property.
type prop struct {
	id    string
	rule  string
	quick int // cases per shard in the quick tier
	gen   func(R) any
	parse func([]byte) (any, error)
	check func(any, *S) error
}

var props = map[string]*prop{}

func register[T any](id string, quick int, rule string, gen func(R) T, check func(*T, *S) error) {
	props[id] = &prop{
		id: id, rule: rule, quick: quick,
		gen: func(r R) any { c := gen(r); return &c },
		parse: func(b []byte) (any, error) {
			c := new(T)
			d := json.NewDecoder(bytes.NewReader(b))
			d.UseNumber()
			if err := d.Decode(c); err != nil {
				return nil, err
			}
			return c, nil
		},
		check: func(c any, s *S) error { return check(c.(*T), s) },
	}
}

func encodeCase(c any) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(c); err != nil {
		panic(harnessBug("encode case: " + err.Error()))
	}
	return bytes.TrimSpace(b.Bytes())
}

type harnessError struct{ msg string }

func (h harnessError) Error() string { return h.msg }

// violation is an error that says the property is broken.
type violation struct{ msg string }

func (v violation) Error() string { return v.msg }

func violationf(format string, a ...any) error { return violation{fmt.Sprintf(format, a...)} }

// guarded runs f, turning panics inside the library into violations and others into harness
// errors.
func guarded(f func() error) (err error) {
	defer func() {
		p := recover()
		if p == nil {
			return
		}
		if _, ok := p.(modelLimit); ok {
			err = errDiscard
			return
		}
		if isRapidPanic(p) {
			panic(p)
		}
		st := string(debug.Stack())
		if hb, ok := p.(harnessBug); ok {
			err = harnessError{"harness bug: " + string(hb) + "\n" + st}
			return
		}
		if strings.Contains(st, "github.com/xeipuuv/") {
			err = violationf("library panicked: %v\n%s", p, trimStack(st))
			return
		}
		err = harnessError{fmt.Sprintf("harness panic: %v\n%s", p, st)}
	}()
	return f()
}

func isRapidPanic(p any) bool {
	s := fmt.Sprintf("%T", p)
	return strings.Contains(s, "rapid")
}

var errDiscard = fmt.Errorf("discard")

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "gojsonschema") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func runCheck(p *prop, c any, s *S) error {
	err := guarded(func() error { return p.check(c, s) })
	if err == errDiscard {
		s.discard = true
		return nil
	}
	return err
}

// ---------------------------------------------------------------------------------------------
// Statistics

type stats struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Discarded   int            `json:"discarded"`
	Labels      map[string]int `json:"labels"`
	Samples     []any          `json:"samples"`
	Rule        string         `json:"rule"`
	Status      string         `json:"status"` // ok, violation, error
	Message     string         `json:"message,omitempty"`
	WallS       float64        `json:"wall_s"`
	hashes      map[uint64]struct{}
}

func (st *stats) add(s *S, enc []byte) {
	st.Evaluations++
	if s.discard {
		st.Discarded++
		return
	}
	for _, l := range s.labels {
		st.Labels[l]++
	}
	if s.nontrivial {
		st.Nontrivial++
		h := fnv.New64a()
		h.Write(enc)
		n := len(st.hashes)
		st.hashes[h.Sum64()] = struct{}{}
		if len(st.hashes) > n && len(enc) < 6000 && sampleAt(st.Nontrivial) && len(st.Samples) < 6 {
			var v any
			d := json.NewDecoder(bytes.NewReader(enc))
			d.UseNumber()
			if d.Decode(&v) == nil {
				st.Samples = append(st.Samples, v)
			}
		}
	}
}

func sampleAt(n int) bool {
	switch n {
	case 1, 10, 50, 200, 500, 1000:
		return true
	}
	return false
}

// ---------------------------------------------------------------------------------------------
// Current case file and watchdog

type watch struct {
	mu      sync.Mutex
	f       *os.File
	start   time.Time
	cpu     time.Duration
	ticks   int
	active  bool
	hangOut string
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func newWatch(caseFile, hangFile string) *watch {
	f, err := os.Create(caseFile)
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	w := &watch{f: f, hangOut: hangFile}
	go w.loop()
	return w
}

func (w *watch) begin(enc []byte) {
	w.mu.Lock()
	w.f.WriteAt(enc, 0)
	w.f.Truncate(int64(len(enc)))
	w.start, w.cpu, w.ticks, w.active = time.Now(), cpuTime(), 0, true
	w.mu.Unlock()
}

func (w *watch) end() {
	w.mu.Lock()
	w.active = false
	w.mu.Unlock()
}

const (
	hangCPU  = 90 * time.Second
	hangWall = 150 * time.Second
)

// loop declares a hang when a single case has burnt a lot of CPU time, or when it has been stuck
// for long although this process was scheduled regularly (deadlock).
func (w *watch) loop() {
	for {
		time.Sleep(100 * time.Millisecond)
		w.mu.Lock()
		if w.active {
			w.ticks++
			cpu := cpuTime() - w.cpu
			wall := time.Since(w.start)
			stuck := wall > hangWall && w.ticks > int(hangWall/(100*time.Millisecond))*7/10
			if cpu > hangCPU || stuck {
				os.WriteFile(w.hangOut, []byte(fmt.Sprintf("one case did not finish within %v CPU / %v wall time", cpu, wall)), 0o644)
				os.Exit(7)
			}
		}
		w.mu.Unlock()
	}
}
