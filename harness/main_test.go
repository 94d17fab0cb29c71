package harness

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// TestProp runs one shard of one property. Environment:
//
//	VERIF_PROP, VERIF_OUT (directory), VERIF_BUDGET (seconds)
func TestProp(t *testing.T) {
	id := os.Getenv("VERIF_PROP")
	if id == "" {
		t.Skip("driven by check.py")
	}
	p := props[id]
	if p == nil {
		t.Fatalf("unknown property %q", id)
	}
	outDir := os.Getenv("VERIF_OUT")
	debug.SetMaxStack(512 << 20)
	budget, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if budget == 0 {
		budget = 200
	}
	st := &stats{Labels: map[string]int{}, Rule: p.rule, hashes: map[uint64]struct{}{}, Status: "ok"}
	w := newWatch(filepath.Join(outDir, "case.json"), filepath.Join(outDir, "hang.txt"))
	t0 := time.Now()
	deadline := t0.Add(time.Duration(budget) * time.Second)

	var failCase []byte
	failing := false
	finish := func() {
		st.WallS = time.Since(t0).Seconds()
		b, _ := json.Marshal(st)
		os.WriteFile(filepath.Join(outDir, "stats.json"), b, 0o644)
		hb := make([]byte, 0, 8*len(st.hashes))
		for h := range st.hashes {
			hb = binary.LittleEndian.AppendUint64(hb, h)
		}
		os.WriteFile(filepath.Join(outDir, "hashes.bin"), hb, 0o644)
		if failCase != nil {
			os.WriteFile(filepath.Join(outDir, "replay.json"), failCase, 0o644)
		}
	}
	defer finish()

	scale, _ := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64)
	if scale == 0 {
		scale = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(max(1, int(float64(p.quick)*scale))))

	rapid.Check(t, func(rt *rapid.T) {
		if !failing && time.Now().After(deadline) {
			return
		}
		var c any
		gerr := guarded(func() error { c = p.gen(R{rt}); return nil })
		if gerr == errDiscard {
			return
		}
		if gerr != nil {
			st.Status, st.Message = "error", "generator: "+gerr.Error()
			finish()
			os.Exit(3)
		}
		enc := encodeCase(c)
		// the check always sees what a replay would see
		c2, err := p.parse(enc)
		if err != nil {
			st.Status, st.Message = "error", "case does not round-trip: "+err.Error()
			finish()
			os.Exit(3)
		}
		w.begin(enc)
		s := &S{}
		err = runCheck(p, c2, s)
		w.end()
		if !failing {
			st.add(s, enc)
		}
		if err != nil {
			var he harnessError
			if errors.As(err, &he) {
				st.Status, st.Message = "error", err.Error()
				failCase = enc
				finish()
				os.Exit(3)
			}
			if failCase == nil || len(enc) <= len(failCase) {
				failCase = enc
				st.Status, st.Message = "violation", err.Error()
			}
			failing = true
			rt.Fatalf("%v", firstLine(err.Error()))
		}
	})
}

func firstLine(s string) string {
	for i, c := range s {
		if c == '\n' {
			return s[:i]
		}
	}
	return s
}

// TestReplay re-runs one case without rapid.
func TestReplay(t *testing.T) {
	file := os.Getenv("VERIF_REPLAY")
	if file == "" {
		t.Skip("driven by check.py")
	}
	p := props[os.Getenv("VERIF_PROP")]
	b, err := os.ReadFile(file)
	if err != nil {
		t.Fatal(err)
	}
	c, err := p.parse(b)
	if err != nil {
		t.Fatal(err)
	}
	debug.SetMaxStack(512 << 20)
	w := newWatch(filepath.Join(os.Getenv("VERIF_OUT"), "case.json"), filepath.Join(os.Getenv("VERIF_OUT"), "hang.txt"))
	w.begin(b)
	s := &S{}
	err = runCheck(p, c, s)
	w.end()
	fmt.Printf("labels: %v nontrivial: %v discarded: %v\n", s.labels, s.nontrivial, s.discard)
	if err != nil {
		var he harnessError
		if errors.As(err, &he) {
			fmt.Println("HARNESS-ERROR", err)
			os.Exit(3)
		}
		fmt.Println("FAIL:", err)
		os.Exit(1)
	}
	fmt.Println("PASS")
	os.Exit(0)
}

// TestList prints the registered properties and their quick case counts.
func TestList(t *testing.T) {
	if os.Getenv("VERIF_LIST") == "" {
		t.Skip()
	}
	for _, id := range sortedKeys(props) {
		fmt.Println("PROP", id, props[id].quick)
	}
}
