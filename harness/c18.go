package harness

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"

	gjs "github.com/xeipuuv/gojsonschema"
)

type concOp struct {
	Kind   string `json:"kind"` // validate, compile, fresh, format, read, adderr, query
	Schema int    `json:"schema"`
	Inst   int    `json:"inst"`
	Flag   bool   `json:"flag,omitempty"`
}

type concCase struct {
	Schemas []docSpec  `json:"schemas"` // Draft: the draft in force
	Insts   [][]JV     `json:"instances"`
	Ops     [][]concOp `json:"ops"` // per goroutine
}

type yieldFormat struct{}

func (yieldFormat) IsFormat(any) bool { runtime.Gosched(); return true }

func genC18(r R) concCase {
	var c concCase
	for i := r.between(1, 3); i > 0; i-- {
		d := pick(r, []int{Hybrid, D7, D6, D4})
		var schema any
		var insts []JV
		if r.p(50) {
			schema, insts = r.spread(d, 3)
		} else {
			g := reportGen(r, d)
			g.refPct = 15
			schema = g.document(r.between(1, 3))
			w := newWorld()
			w.addDoc("", schema, d)
			insts = instances(r, w, schema, d, 3)
		}
		m := schema.(obj)
		if _, ok := m["$ref"]; !ok && r.p(50) {
			m["format"] = "h-yield"
		}
		if d != Hybrid {
			m["$schema"] = draftURL[d]
		}
		c.Schemas = append(c.Schemas, docSpec{Draft: d, Doc: JV{schema}})
		c.Insts = append(c.Insts, insts)
	}
	for i := r.between(2, 6); i > 0; i-- {
		var ops []concOp
		for j := r.between(1, 6); j > 0; j-- {
			k := r.n(len(c.Schemas))
			ops = append(ops, concOp{[]string{"validate", "compile", "fresh", "format", "read", "adderr", "query"}[r.weighted(40, 12, 10, 13, 10, 10, 5)], k, r.n(3), r.p(50)})
		}
		c.Ops = append(c.Ops, ops)
	}
	return c
}

var concCounter int

// salted rewrites every regular expression of a schema to an equivalent one that has not been used before, so that nothing
// the library may keep about it is warm when the goroutines start.
func salted(v any, salt string) any {
	switch x := v.(type) {
	case obj:
		res := obj{}
		for k, m := range x {
			switch {
			case k == "pattern":
				if p, ok := m.(string); ok {
					res[k] = p + salt
					continue
				}
			case k == "patternProperties":
				if ps, ok := m.(obj); ok {
					n := obj{}
					for p, sub := range ps {
						n[p+salt] = salted(sub, salt)
					}
					res[k] = n
					continue
				}
			}
			res[k] = salted(m, salt)
		}
		return res
	case arr:
		res := make(arr, len(x))
		for i := range x {
			res[i] = salted(x[i], salt)
		}
		return res
	}
	return v
}

// concRound is what the goroutines of one round share.
type concRound struct {
	texts   []string
	docs    []any // the same schemas, decoded
	schemas []*gjs.Schema
	results [][]*gjs.Result
	raws    [][]any
	loaders [][]gjs.JSONLoader // of the same documents
}

// concSaw is what one operation observed; it is judged after the round, by running the same alone.
type concSaw struct {
	op   concOp
	own  string // text of a schema of its own, if any
	key  string
	what string
}

func (c *concCase) compile(doc any, text string, raw, validate bool) (*gjs.Schema, error) {
	sl := gjs.NewSchemaLoader()
	sl.Validate = validate
	if raw {
		return sl.Compile(gjs.NewRawLoader(doc))
	}
	return sl.Compile(gjs.NewStringLoader(text))
}

func checkC18(c *concCase, s *S) error {
	alone := func(text string, inst any) (string, error) {
		sch, err := c.compile(nil, text, false, false)
		if err != nil {
			return "", violationf("a well-formed schema does not compile: %v", err)
		}
		res, err := sch.Validate(gjs.NewStringLoader(encode(inst)))
		if err != nil {
			return "", violationf("validation returned an error: %v", err)
		}
		return resultKey(res), nil
	}
	for rep := 0; rep < 2; rep++ {
		concCounter++
		round := concCounter
		var sh concRound
		for i := range c.Schemas {
			doc := salted(c.Schemas[i].Doc.V, fmt.Sprintf("(?:conc%d){0}", round))
			sh.docs = append(sh.docs, doc)
			sh.texts = append(sh.texts, encode(doc))
			// results that the goroutines will read; nobody has read them before
			own, err := c.compile(nil, sh.texts[i], false, false)
			if err != nil {
				return violationf("a well-formed schema does not compile: %v", err)
			}
			var results []*gjs.Result
			var raws []any
			var loaders []gjs.JSONLoader
			for _, in := range c.Insts[i] {
				var res *gjs.Result
				if c.Reads(i) {
					if res, err = own.Validate(gjs.NewStringLoader(encode(in.V))); err != nil {
						return violationf("validation returned an error: %v", err)
					}
				}
				results = append(results, res)
				raws = append(raws, clone(in.V))
				loaders = append(loaders, gjs.NewStringLoader(encode(in.V)))
			}
			sh.results = append(sh.results, results)
			sh.raws = append(sh.raws, raws)
			sh.loaders = append(sh.loaders, loaders)
			sch, err := c.compile(nil, sh.texts[i], false, false)
			if err != nil {
				return violationf("a well-formed schema does not compile: %v", err)
			}
			sh.schemas = append(sh.schemas, sch)
		}
		fails := make([]string, len(c.Ops))
		saw := make([][]concSaw, len(c.Ops))
		barrier := make(chan struct{})
		var wg sync.WaitGroup
		for g := range c.Ops {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						fails[g] = fmt.Sprintf("panic: %v\n%s", p, trimStack(string(debug.Stack())))
					}
				}()
				<-barrier
				for n, op := range c.Ops[g] {
					o, msg := c.do(op, fmt.Sprintf("conc-%d-%d-%d", round, g, n), &sh)
					if msg != "" {
						fails[g] = fmt.Sprintf("goroutine %d, operation %d (%s): %s", g, n, op.Kind, msg)
						return
					}
					o.what = fmt.Sprintf("goroutine %d, operation %d (%s)", g, n, op.Kind)
					saw[g] = append(saw[g], o)
				}
			}()
		}
		close(barrier)
		wg.Wait()
		for _, f := range fails {
			if f != "" {
				return violationf("%s", f)
			}
		}
		// the same, alone
		type at struct {
			text string
			j    int
		}
		want := map[at]string{}
		rejected := map[int]int{}
		for g := range saw {
			seen := map[int]bool{}
			for _, o := range saw[g] {
				if rep == 0 {
					s.label("op=%s", o.op.Kind)
				}
				if o.key == "" {
					continue
				}
				p := at{sh.texts[o.op.Schema], o.op.Inst}
				if o.own != "" {
					p.text = o.own
				}
				if _, ok := want[p]; !ok {
					k, err := alone(p.text, c.Insts[o.op.Schema][p.j].V)
					if err != nil {
						return err
					}
					want[p] = k
				}
				if o.key != want[p] {
					return violationf("%s: the result is %s\nalone it is %s", o.what, short(o.key), short(want[p]))
				}
				if o.op.Kind == "validate" && !seen[o.op.Schema] && strings.HasPrefix(o.key, "valid=false") {
					seen[o.op.Schema] = true
					rejected[o.op.Schema]++
				}
			}
		}
		for i := range c.Schemas {
			if encode(sh.docs[i]) != sh.texts[i] {
				return violationf("a shared schema document was changed")
			}
			for j := range sh.raws[i] {
				if !reflect.DeepEqual(sh.raws[i][j], c.Insts[i][j].V) {
					return violationf("a shared document was changed")
				}
			}
		}
		if rep == 1 {
			for _, n := range rejected {
				if n >= 2 {
					s.nt()
				}
			}
		}
	}
	s.label("goroutines=%d", len(c.Ops))
	return nil
}

// Reads reports whether some operation reads a shared result of schema i.
func (c *concCase) Reads(i int) bool {
	for _, ops := range c.Ops {
		for _, op := range ops {
			if op.Kind == "read" && op.Schema == i {
				return true
			}
		}
	}
	return false
}

// do performs one operation and returns what it observed, or what is wrong with its outcome.
func (c *concCase) do(op concOp, name string, sh *concRound) (saw concSaw, msg string) {
	saw.op = op
	i, j := op.Schema, op.Inst
	validate := func(sch *gjs.Schema) (*gjs.Result, string) {
		ld := sh.loaders[i][j]
		if op.Flag {
			ld = gjs.NewRawLoader(sh.raws[i][j])
		}
		res, err := sch.Validate(ld)
		if err != nil {
			return nil, "validation returned an error: " + err.Error()
		}
		saw.key = resultKey(res)
		return res, ""
	}
	switch op.Kind {
	case "validate":
		_, msg = validate(sh.schemas[i])
	case "compile":
		sch, err := c.compile(sh.docs[i], sh.texts[i], j == 0, op.Flag)
		if err != nil {
			return saw, "a well-formed schema does not compile: " + err.Error()
		}
		_, msg = validate(sch)
	case "fresh":
		saw.own = encode(salted(c.Schemas[i].Doc.V, "(?:"+name+"){0}"))
		sch, err := c.compile(nil, saw.own, false, op.Flag)
		if err != nil {
			return saw, "a well-formed schema does not compile: " + err.Error()
		}
		_, msg = validate(sch)
	case "read":
		saw.key = resultKey(sh.results[i][j])
	case "adderr":
		res, msg := validate(sh.schemas[i])
		if msg != "" {
			return saw, msg
		}
		n := len(res.Errors())
		e := &gjs.InternalError{}
		e.SetContext(gjs.NewJsonContext("own", nil))
		e.SetType("own")
		e.SetDescriptionFormat("text " + name + " {{.x}}")
		res.AddError(e, gjs.ErrorDetails{"x": "val"})
		if len(res.Errors()) != n+1 || res.Valid() || res.Errors()[n].Description() != "text "+name+" val" {
			return saw, fmt.Sprintf("added error: %v", res.Errors())
		}
	case "format":
		return saw, formatOp(op, name)
	case "query":
		return saw, queryOp()
	}
	return saw, msg
}

func formatOp(op concOp, name string) string {
	sch, err := gjs.NewSchema(gjs.NewStringLoader(`{"format":"` + name + `"}`))
	if err != nil {
		return "format schema does not compile: " + err.Error()
	}
	state := func(has, ok bool) string {
		if got := gjs.FormatCheckers.Has(name); got != has {
			return fmt.Sprintf("Has = %v, want %v", got, has)
		}
		if got := gjs.FormatCheckers.IsFormat(name, "x"); got != ok {
			return fmt.Sprintf("IsFormat = %v, want %v", got, ok)
		}
		res, err := sch.Validate(gjs.NewStringLoader(`"x"`))
		if err != nil || res.Valid() != ok {
			return fmt.Sprintf("format validation: %v, %v, want %v", res, err, ok)
		}
		return ""
	}
	if msg := state(false, true); msg != "" {
		return "before Add: " + msg
	}
	gjs.FormatCheckers.Add(name, rejectFormat{})
	if msg := state(true, false); msg != "" {
		return "after Add: " + msg
	}
	if op.Flag {
		gjs.FormatCheckers.Add(name, yieldFormat{})
		if msg := state(true, true); msg != "" {
			return "after replacing: " + msg
		}
	}
	gjs.FormatCheckers.Remove(name)
	if msg := state(false, true); msg != "" {
		return "after Remove: " + msg
	}
	return ""
}

func queryOp() string {
	for _, f := range formatNames {
		if !gjs.FormatCheckers.Has(f) {
			return "the built-in format " + f + " is gone"
		}
	}
	if !gjs.FormatCheckers.IsFormat("ipv4", "1.2.3.4") || gjs.FormatCheckers.IsFormat("uuid", "x") || !gjs.FormatCheckers.IsFormat("regex", "a") ||
		!gjs.FormatCheckers.IsFormat("date", "2020-02-29") || gjs.FormatCheckers.IsFormat("email", "x") {
		return "a built-in format answers differently"
	}
	return ""
}

func init() {
	gjs.FormatCheckers.Add("h-yield", yieldFormat{})
	modelFormats["h-yield"] = func(any) bool { return true }
	register("C18", 700,
		"1-3 schemas, 2-6 goroutines of 1-6 operations each (validate a shared schema, also one shared document or loader; compile with an own loader, from one shared decoded document or from a schema of its own; add, replace, remove and query formats; read a shared result; add an error with a new template), started together, every regular expression and shared result being used for the first time, run twice under the race detector and compared with the outcome alone, which is computed afterwards; non-trivial: two goroutines validate rejected documents with one shared schema",
		genC18, checkC18)
}
