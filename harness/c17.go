package harness

import (
	"fmt"
	"reflect"
	"strings"
	"unicode"

	gjs "github.com/xeipuuv/gojsonschema"
)

type pureOp struct {
	Kind   string `json:"kind"` // fresh, shared, validate, repeat, fail, tamper, rename
	Loader int    `json:"loader,omitempty"`
	Doc    int    `json:"doc,omitempty"`
	Handle int    `json:"handle,omitempty"`
	Inst   int    `json:"inst,omitempty"`
	Raw    bool   `json:"raw,omitempty"`
	How    int    `json:"how,omitempty"`
}

type pureCase struct {
	LoaderDraft int       `json:"loader_draft"`
	Detect      bool      `json:"detect"`
	Docs        []docSpec `json:"docs"`
	Texts       []string  `json:"texts"`
	Insts       [][]JV    `json:"instances"` // per document
	Orders      [][]int   `json:"orders"`    // per shared loader
	Ops         []pureOp  `json:"ops"`
}

func genC17(r R) pureCase {
	var c pureCase
	if r.p(50) {
		m := genMulti(r, true)
		c.LoaderDraft, c.Detect = m.LoaderDraft, m.Detect
		w := newWorld()
		w.addMeta()
		if m.Docs[0].URL == "" {
			m.Docs[0].URL = "http://zero.invalid/doc0.json"
		}
		for _, d := range m.Docs {
			w.addDoc(d.URL, d.Doc.V, d.Draft)
		}
		c.Docs = m.Docs
		for i, d := range m.Docs {
			c.Texts = append(c.Texts, m.text(i))
			c.Insts = append(c.Insts, instances(r, w, d.Doc.V, d.Draft, 3))
		}
	} else {
		c.LoaderDraft, c.Detect = pick(r, []int{Hybrid, D7, D6, D4}), r.p(70)
		for i := r.between(1, 3); i > 0; i-- {
			d := c.LoaderDraft
			s, insts := r.spread(d, 3)
			c.Docs = append(c.Docs, docSpec{URL: "http://spread.invalid/doc-" + itoa(i) + ".json", Draft: d, Doc: JV{s}})
			c.Texts = append(c.Texts, encode(s))
			c.Insts = append(c.Insts, insts)
		}
	}
	for i := range c.Insts {
		// documents that resemble each other
		if r.p(30) {
			c.Insts[i][2].V = r.twin(c.Insts[i][1].V)
		}
	}
	for i := 0; i < 2; i++ {
		var o []int
		for j := range c.Docs {
			o = append(o, j)
		}
		c.Orders = append(c.Orders, shuffle(r, o))
	}
	handles := 0
	for i := r.between(6, 24); i > 0; i-- {
		op := pureOp{Loader: r.n(2), Doc: r.n(len(c.Docs))}
		switch r.weighted(45, 12, 18, 10, 10, 4, 2) {
		case 0:
			if handles == 0 {
				op.Kind = "shared"
				handles++
				break
			}
			op.Kind, op.Handle, op.Inst, op.Raw = "validate", r.n(handles), r.n(3), r.p(40)
		case 1:
			op.Kind = "fresh"
			handles++
		case 2:
			op.Kind = "shared"
			handles++
		case 3:
			op.Kind, op.How, op.Handle = "fail", r.n(6), r.n(handles+1)
		case 4:
			op.Kind, op.How, op.Handle = "tamper", r.n(4), r.n(30)
		case 6:
			if handles == 0 {
				continue
			}
			op.Kind, op.Handle, op.Inst, op.How = "repeat", r.n(handles), r.n(3), pick(r, []int{10, 40, 150, 300, 600})
		default:
			if handles == 0 {
				continue
			}
			op.Kind, op.Handle = "rename", r.n(handles)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// twin is a value that something may confuse with the given one.
func (r R) twin(v any) any {
	switch r.n(4) {
	case 0:
		return r.nearMiss(clone(v))
	case 1:
		return flipCase(v)
	}
	// change one part of it
	switch x := clone(v).(type) {
	case arr:
		if len(x) > 0 {
			i := r.n(len(x))
			x[i] = r.twin(x[i])
			return x
		}
	case obj:
		if len(x) > 0 {
			k := pick(r, sortedKeys(x))
			x[k] = r.twin(x[k])
			return x
		}
	}
	return r.nearMiss(clone(v))
}

// flipCase exchanges the letters of all strings for those of the other case.
func flipCase(v any) any {
	switch x := v.(type) {
	case string:
		return strings.Map(func(c rune) rune {
			if l := unicode.ToLower(c); l != c {
				return l
			}
			return unicode.ToUpper(c)
		}, x)
	case arr:
		a := arr{}
		for _, e := range x {
			a = append(a, flipCase(e))
		}
		return a
	case obj:
		o := obj{}
		for k, e := range x {
			o[k] = flipCase(e)
		}
		return o
	}
	return v
}

type pureHandle struct {
	doc     int
	sch     *gjs.Schema
	renamed bool
}

type pureResult struct {
	res      *gjs.Result
	key      string
	tampered bool
	what     string
}

func checkC17(c *pureCase, s *S) error {
	mk := func(order []int) (*gjs.SchemaLoader, error) {
		sl := gjs.NewSchemaLoader()
		sl.Draft, sl.AutoDetect = libDraft(c.LoaderDraft), c.Detect
		for _, i := range order {
			if err := sl.AddSchema(c.Docs[i].URL, gjs.NewStringLoader(c.Texts[i])); err != nil {
				return nil, fmt.Errorf("AddSchema %s: %v", c.Docs[i].URL, err)
			}
		}
		return sl, nil
	}
	var asc []int
	for i := range c.Docs {
		asc = append(asc, i)
	}
	// baseline[doc][inst]: what a fresh compilation and validation says; "" when the document does not compile
	fresh := func() ([][]string, error) {
		var b [][]string
		for i := range c.Docs {
			sl, err := mk(asc)
			if err != nil {
				return nil, violationf("documents with distinct URLs are refused: %v", err)
			}
			sch, err := sl.Compile(gjs.NewReferenceLoader(c.Docs[i].URL))
			var row []string
			for _, in := range c.Insts[i] {
				if err != nil {
					row = append(row, "")
					continue
				}
				res, err := sch.Validate(gjs.NewStringLoader(encode(in.V)))
				if err != nil {
					return nil, violationf("validation returned an error: %v", err)
				}
				row = append(row, resultKey(res))
			}
			b = append(b, row)
		}
		return b, nil
	}
	base, err := fresh()
	if err != nil {
		return err
	}
	var shared []*gjs.SchemaLoader
	for _, o := range c.Orders {
		sl, err := mk(o)
		if err != nil {
			return violationf("documents with distinct URLs are refused in order %v: %v", o, err)
		}
		shared = append(shared, sl)
	}
	raws := map[string]any{}
	rawOf := func(d, i int) any {
		k := fmt.Sprint(d, "/", i)
		if _, ok := raws[k]; !ok {
			raws[k] = clone(c.Insts[d][i].V)
		}
		return raws[k]
	}
	loaders := map[string]gjs.JSONLoader{}
	loaderOf := func(d, i int) gjs.JSONLoader {
		k := fmt.Sprint(d, "/", i)
		if loaders[k] == nil {
			loaders[k] = gjs.NewStringLoader(encode(c.Insts[d][i].V))
		}
		return loaders[k]
	}
	var handles []pureHandle
	var results []*pureResult
	seen := map[string]bool{}
	repeated, between := false, false
	for n, op := range c.Ops {
		s.label("op=%s", op.Kind)
		switch op.Kind {
		case "fresh", "shared":
			sl := shared[op.Loader]
			if op.Kind == "fresh" {
				if sl, err = mk(c.Orders[op.Loader]); err != nil {
					return violationf("documents with distinct URLs are refused: %v", err)
				}
			}
			sch, err := sl.Compile(gjs.NewReferenceLoader(c.Docs[op.Doc].URL))
			if (err == nil) != (base[op.Doc][0] != "") {
				return violationf("op %d: compiling %s gives %v, at first it compiled: %v", n, c.Docs[op.Doc].URL, err, base[op.Doc][0] != "")
			}
			if err != nil {
				sch = nil
			}
			handles = append(handles, pureHandle{op.Doc, sch, false})
			between = len(seen) > 0
		case "rename":
			if op.Handle < len(handles) && handles[op.Handle].sch != nil {
				handles[op.Handle].sch.SetRootSchemaName("renamed")
				handles[op.Handle].renamed = true
			}
		case "validate":
			if op.Handle >= len(handles) || handles[op.Handle].sch == nil {
				continue
			}
			h := handles[op.Handle]
			ld := loaderOf(h.doc, op.Inst)
			if op.Raw {
				ld = gjs.NewRawLoader(rawOf(h.doc, op.Inst))
			}
			res, err := h.sch.Validate(ld)
			if err != nil {
				return violationf("op %d: validation returned an error: %v", n, err)
			}
			key, want := resultKey(res), base[h.doc][op.Inst]
			if h.renamed {
				if head(key) != head(want) {
					return violationf("op %d: after SetRootSchemaName %s, before %s", n, short(key), short(want))
				}
			} else if key != want {
				return violationf("op %d: validating instance %d of document %d (handle %d) now gives %s\nat first it gave %s", n, op.Inst, h.doc, op.Handle, short(key), short(want))
			}
			results = append(results, &pureResult{res, key, false, fmt.Sprintf("op %d", n)})
			k := fmt.Sprint(h.doc, "/", op.Inst)
			if seen[k] && between {
				repeated = true
			}
			seen[k] = true
		case "repeat":
			if op.Handle >= len(handles) || handles[op.Handle].sch == nil {
				continue
			}
			h := handles[op.Handle]
			for k := 0; k < op.How; k++ {
				if _, err := h.sch.Validate(loaderOf(h.doc, (op.Inst+k)%3)); err != nil {
					return violationf("op %d: validation returned an error: %v", n, err)
				}
			}
			for i := range base[h.doc] {
				res, err := h.sch.Validate(loaderOf(h.doc, i))
				if err != nil {
					return violationf("op %d: validation returned an error: %v", n, err)
				}
				if key, want := resultKey(res), base[h.doc][i]; head(key) != head(want) || !h.renamed && key != want {
					return violationf("op %d: after %d validations, instance %d of document %d (handle %d) gives %s\nat first it gave %s", n, op.How, i, h.doc, op.Handle, short(key), short(want))
				}
			}
		case "fail":
			if err := c.failing(op, shared[op.Loader], handles); err != nil {
				return violationf("op %d: %v", n, err)
			}
			between = len(seen) > 0
		case "tamper":
			if len(results) == 0 {
				continue
			}
			r := results[op.Handle%len(results)]
			if r.tampered {
				continue
			}
			r.tampered = true
			tamper(r.res, op.How)
			between = len(seen) > 0
		}
	}
	for _, r := range results {
		if !r.tampered {
			if k := resultKey(r.res); k != r.key {
				return violationf("the result of %s changed afterwards: %s\nit was %s", r.what, short(k), short(r.key))
			}
		}
	}
	for k, v := range raws {
		var d, i int
		fmt.Sscanf(k, "%d/%d", &d, &i)
		if !reflect.DeepEqual(v, c.Insts[d][i].V) {
			return violationf("validation changed the document %s to %s", encode(c.Insts[d][i].V), encode(v))
		}
	}
	again, err := fresh()
	if err != nil {
		return err
	}
	if !reflect.DeepEqual(base, again) {
		for i := range base {
			for j := range base[i] {
				if base[i][j] != again[i][j] {
					return violationf("a fresh compilation after the history says %s\nbefore it said %s", short(again[i][j]), short(base[i][j]))
				}
			}
		}
	}
	if repeated {
		s.nt()
	}
	return nil
}

func head(k string) string {
	h, _, _ := strings.Cut(k, "\n")
	return h
}

// failing performs an operation that has to fail.
func (c *pureCase) failing(op pureOp, sl *gjs.SchemaLoader, handles []pureHandle) error {
	var err error
	var bad any
	switch op.How {
	case 0:
		err = sl.AddSchema(c.Docs[op.Doc].URL, gjs.NewStringLoader(`{"type":"null"}`))
		bad = nil
	case 1:
		var sch *gjs.Schema
		sch, err = sl.Compile(gjs.NewReferenceLoader("http://nowhere.invalid/missing.json"))
		if sch != nil {
			bad = sch
		}
	case 2:
		var sch *gjs.Schema
		sch, err = gjs.NewSchema(gjs.NewStringLoader(`{"properties":{"a":{"type":"nonsense"}}}`))
		if sch != nil {
			bad = sch
		}
	case 3:
		var sch *gjs.Schema
		sch, err = sl.Compile(gjs.NewReferenceLoader(c.Docs[op.Doc].URL + "#/no/such/place"))
		if sch != nil {
			bad = sch
		}
	case 4:
		err = sl.AddSchema("http://broken.invalid/x", gjs.NewStringLoader(`{"a":`))
	default:
		if op.Handle >= len(handles) || handles[op.Handle].sch == nil {
			return nil
		}
		var res *gjs.Result
		res, err = handles[op.Handle].sch.Validate(gjs.NewStringLoader(`{"a": [1, 2`))
		if res != nil {
			bad = res
		}
	}
	if err == nil {
		return fmt.Errorf("failing operation %d succeeded", op.How)
	}
	if bad != nil {
		return fmt.Errorf("failing operation %d returned something besides the error", op.How)
	}
	return nil
}

// tamper does to a result what its owner may do.
func tamper(res *gjs.Result, how int) {
	switch how {
	case 0:
		e := &gjs.RequiredError{}
		e.SetContext(gjs.NewJsonContext("own", nil))
		e.SetType("own")
		e.SetDescriptionFormat("own {{.x}}")
		e.SetDetails(gjs.ErrorDetails{"x": 1})
		res.AddError(e, gjs.ErrorDetails{"x": 1})
	case 1:
		for _, e := range res.Errors() {
			e.SetDescription("tampered")
			e.SetType("tampered")
			e.SetDescriptionFormat("tampered")
		}
	case 2:
		for _, e := range res.Errors() {
			for k := range e.Details() {
				e.Details()[k] = "tampered"
			}
			e.Details()["new"] = 1
		}
	default:
		for i := range res.Errors() {
			res.Errors()[i] = nil
		}
	}
}

func init() {
	register("C17", 4000,
		"2-4 cross-referencing documents (or schemas that constrain many children) and a history of up to 24 compilations on fresh and shared loaders, validations (also of one shared Go value or loader, and hundreds in a row), failing operations, tampering with earlier results and renamed roots; every result is compared with that of a fresh compilation, earlier results and documents are re-read at the end; non-trivial: the same document and instance are validated again after other operations",
		genC17, checkC17)
}
