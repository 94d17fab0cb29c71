package harness

import (
	"bytes"
	"encoding/json"
	"strings"
	"sync/atomic"

	gjs "github.com/xeipuuv/gojsonschema"
)

type loadOp struct {
	Kind   string `json:"kind"` // add, addmany, compile, literal, validate, serve (no document: no longer), bad
	Loader int    `json:"loader"`
	URL    string `json:"url,omitempty"`
	Docs   []JV   `json:"docs,omitempty"`
	Text   string `json:"text,omitempty"` // what is no JSON
	Handle int    `json:"handle,omitempty"`
	Inst   JV     `json:"inst"`
}

type loadCase struct {
	Ops   []loadOp `json:"ops"`
	Insts []JV     `json:"instances"` // every schema is tried on these right after its compilation
}

var regURLs = []string{"http://r.invalid/a", "http://r.invalid/b", "http://r.invalid/dir/c.json", "https://r.invalid/a", "http://r.invalid/a?x=1", "file:///none/d.json", "urn:x-test:e"}

// alikeURLs differ in something that is easily overlooked.
var alikeURLs = [][]string{
	{"http://r.invalid/q?b=1&a=2", "http://r.invalid/q?a=2&b=1"},
	{"http://r.invalid/q?a=1", "http://r.invalid/q?a=2"},
	{"http://r.invalid:8080/p", "http://r.invalid:8081/p"},
	{"http://r.invalid:8080/p", "http://r.invalid/p"},
	{"http://r.invalid/Case", "http://r.invalid/case"},
	{"http://r.invalid/s", "http://r.invalid/s/"},
	{"http://r.invalid/t", "http://r.invalid/t.json"},
	{"http://r.invalid/dir/t", "http://r.invalid/t"},
	{"http://r.invalid/u+v", "http://r.invalid/u%20v"},
	{"http://r.invalid/a%2Fb", "http://r.invalid/a/b"},
	{"http://s.r.invalid/h", "http://r.invalid/h"},
	{"urn:x-test:80/e", "urn:x-test/e"},
	{"urn:x-test:a:b", "urn:x-test:a"},
	{"file:///none/f", "http://none/f"},
}

func genC22(r R) loadCase {
	var c loadCase
	tag := 0
	urls := shuffle(r, regURLs)[:r.between(2, 4)]
	if r.p(25) {
		urls = append(append([]string{}, urls...), pick(r, alikeURLs)...)
	}
	wide := r.p(12)
	if wide {
		for i := r.between(4, 12); i > 0; i-- {
			urls = append(urls, "http://r.invalid/n"+itoa(i))
		}
	}
	anchors := pick(r, []int{0, 0, 30, 70})
	var dyn []string
	if r.p(50) {
		dyn = dynamicURLs[:r.between(1, len(dynamicURLs))]
		urls = append(append([]string{}, urls...), dyn...)
	}
	refText := func() string {
		if anchors > 0 && r.p(20) {
			return pick(r, urls) + "#x"
		}
		return pick(r, urls) + pick(r, []string{"", "", "#", "#/definitions/leaf", "#/properties/v", "#/definitions/d%201"})
	}
	// a boolean is no draft-04 schema
	bools := r.p(50)
	drafts := []int{0, 0, 0, D4, D6, D7}
	if bools {
		drafts = []int{0, 0, 0, D6, D7}
	}
	doc := func(id string) any {
		if bools && id == "" && r.p(15) {
			return r.p(50)
		}
		tag++
		t := num(itoa(tag))
		// every document recognises its own tag
		d := obj{"properties": obj{"v": obj{"enum": arr{t}}}, "definitions": obj{"leaf": obj{"maximum": t}, "d 1": obj{"not": obj{"enum": arr{t}}}}}
		p := d["properties"].(obj)
		for i := r.n(3); i > 0; i-- {
			p[pick(r, []string{"r", "s", "t"})] = obj{"$ref": refText()}
		}
		if r.p(15) {
			d["items"] = obj{"$ref": refText()}
		}
		if r.p(15) {
			p["u"] = obj{"$ref": "#/definitions/leaf"}
		}
		draft := pick(r, drafts)
		if draft > 0 {
			// every keyword used here means the same in all drafts
			d["$schema"] = draftURL[draft]
		}
		if id != "" {
			k := map[int]string{0: pick(r, []string{"$id", "id"}), D4: "id", D6: "$id", D7: "$id"}[draft]
			d[k] = id + pick(r, []string{"", "", "#"})
		}
		if r.p(anchors) {
			k := map[int]string{0: pick(r, []string{"$id", "id"}), D4: "id", D6: "$id", D7: "$id"}[draft]
			d["definitions"].(obj)["named"] = obj{k: "#x", "not": obj{"properties": obj{"v": obj{"enum": arr{t}}}, "required": arr{"v"}}}
		}
		return d
	}
	handles, lit := 0, map[int]bool{}
	n, adds := r.between(4, 18), 28
	if wide {
		n, adds = r.between(20, 45), 60
	}
	serve := 0
	if len(dyn) > 0 {
		serve = 14
		for _, u := range dyn {
			if r.p(70) {
				c.Ops = append(c.Ops, loadOp{Kind: "serve", URL: u, Docs: jvs(doc(""))})
			}
		}
	}
	for i := n; i > 0; i-- {
		op := loadOp{Loader: r.n(2)}
		if wide && r.p(70) {
			op.Loader = 0
		}
		switch r.weighted(adds, 12, 28, 6, 26, serve, 6, 3) {
		case 7:
			// the same registration once more
			if len(c.Ops) == 0 {
				continue
			}
			if op = pick(r, c.Ops); op.Kind != "add" && op.Kind != "addmany" {
				continue
			}
		case 6:
			// cannot be registered
			op.Kind, op.URL = "bad", pick(r, urls)
			switch r.weighted(30, 40, 30) {
			case 0:
				op.URL = pick(r, []string{"%zz", "http://r.invalid/%", "http://[::1", ":", "http://r.invalid:port/", "\x7f"})
				op.Docs = jvs(doc(""))
			case 1:
				op.Text = pick(r, badTexts)
			default:
				op.URL = ""
				op.Text = pick(r, badTexts)
			}
		case 5:
			op.Kind, op.URL = "serve", pick(r, dyn)
			if r.p(80) {
				op.Docs = jvs(doc(""))
			}
		case 0:
			op.Kind, op.URL = "add", pick(r, urls)
			id := ""
			switch r.weighted(60, 15, 15, 10) {
			case 1:
				id = op.URL
			case 2:
				id = pick(r, urls)
			case 3:
				if strings.HasPrefix(op.URL, "http") {
					id = pick(r, []string{"b", "a", "rel.json", "dir/c.json", "/a"})
				}
			}
			op.Docs = jvs(doc(id))
			if r.p(25) && strings.HasPrefix(op.URL, "http") {
				op.URL += "#"
			}
		case 1:
			op.Kind = "addmany"
			for j := r.between(1, 3); j > 0; j-- {
				op.Docs = append(op.Docs, JV{doc(pick(r, urls))})
			}
			if r.p(12) {
				// once more the same
				op.Docs = append(op.Docs, pick(r, op.Docs))
			}
		case 2:
			op.Kind, op.URL = "compile", pick(r, urls)+pick(r, []string{"", "", "", "#", "#/definitions/leaf"})
			if anchors > 0 && r.p(20) {
				op.URL = pick(r, urls) + "#x"
			}
			handles++
		case 3:
			if lit[op.Loader] {
				continue
			}
			lit[op.Loader] = true
			op.Kind = "literal"
			id := ""
			if r.p(30) {
				id = pick(r, urls)
			}
			op.Docs = jvs(doc(id))
			handles++
		default:
			if handles == 0 {
				continue
			}
			op.Kind, op.Handle = "validate", r.n(handles)
		}
		c.Ops = append(c.Ops, op)
	}
	val := func() any {
		if r.p(20) {
			return num(itoa(r.n(tag + 2)))
		}
		return obj{"v": num(itoa(1 + r.n(tag+1)))}
	}
	inst := func() any {
		o := obj{}
		if r.p(70) {
			o["v"] = num(itoa(1 + r.n(tag+1)))
		}
		for _, k := range []string{"r", "s", "t", "u"} {
			if r.p(45) {
				o[k] = val()
				if m, ok := o[k].(obj); ok && r.p(30) {
					m[pick(r, []string{"r", "s", "t"})] = val()
				}
			}
		}
		if r.p(15) {
			return arr{val(), val()}
		}
		return o
	}
	for i := range c.Ops {
		if c.Ops[i].Kind == "validate" {
			c.Ops[i].Inst.V = inst()
		}
	}
	for i := 0; i < 6; i++ {
		c.Insts = append(c.Insts, JV{inst()})
	}
	for i := 1; i <= tag && i < 8; i++ {
		c.Insts = append(c.Insts, JV{obj{"v": num(itoa(i))}})
	}
	return c
}

// registry is the model of one loader.
type registry struct {
	w     *world
	taken map[string]bool
	open  map[string]bool // what became of these is left open

	dyn  map[string]any // what the server offers now
	late map[string]bool
}

var badTexts = []string{"", " ", "{", `{"type":`, `{"a":1]`, "nul", `"a`, "{]", "[1,", "1e", "-", `{"a" 1}`, "{'a':1}", "undefined"}

var dynamicURLs = []string{"http://dyn.invalid/p", "http://dyn.invalid/q.json"}

// resolve finds a schema, fetching its document if it is not registered.
func (g *registry) resolve(abs string, fetched map[string]bool) (node, error) {
	n, err := g.w.resolve(abs)
	u, _ := splitFrag(abs)
	if _, known := g.w.ids[u]; err == nil || known {
		return n, err
	}
	if doc, ok := g.dyn[u]; ok {
		g.w.addDoc(u, clone(doc), Hybrid)
		fetched[u] = true
		return g.w.resolve(abs)
	}
	return n, err
}

func (g *registry) rootID(doc any, base string) string {
	m, ok := doc.(obj)
	if !ok {
		return ""
	}
	id, ok := m[idKeyword(Hybrid, m)].(string)
	if !ok {
		return ""
	}
	return strings.TrimSuffix(resolveURI(base, id), "#")
}

// settle records which documents a compilation fetched.
func (g *registry) settle(dynURLs []string, fetched map[string]bool, expect int) {
	if expect != 1 {
		// how far it came is left open
		for _, u := range dynURLs {
			if !g.taken[u] && !g.late[u] {
				g.open[u] = true
			}
		}
	}
	for u := range fetched {
		g.late[u] = true
	}
}

// compiles tells whether everything the schema needs is there; -1 when that is left open.
func (g *registry) compiles(node any, fetched map[string]bool) int {
	seen := map[string]bool{}
	res := 1
	var walk func(v any)
	walk = func(v any) {
		for _, p := range positions(v, Hybrid) {
			m, ok := p.node.(obj)
			if !ok || !p.active {
				continue
			}
			abs, ok := g.w.refTarget(m)
			if !ok || seen[abs] {
				continue
			}
			seen[abs] = true
			u, _ := splitFrag(abs)
			if g.open[u] || g.open[abs] {
				res = -1
				return
			}
			n, err := g.resolve(abs, fetched)
			if err != nil {
				if res > 0 {
					res = 0
				}
				continue
			}
			walk(n.schema)
		}
	}
	walk(node)
	return res
}

var serverNo atomic.Int64

func checkC22(c *loadCase, s *S) error {
	// a server of its own for every case
	server := "dyn" + itoa(int(serverNo.Add(1))) + ".invalid"
	text, err := json.Marshal(c)
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	c = &loadCase{}
	if err := json.Unmarshal(bytes.ReplaceAll(text, []byte("dyn.invalid"), []byte(server)), c); err != nil {
		panic(harnessBug(err.Error()))
	}
	var dynURLs []string
	for _, u := range dynamicURLs {
		dynURLs = append(dynURLs, strings.Replace(u, "dyn.invalid", server, 1))
	}
	st := newStore()
	defer st.install()()
	dyn := map[string]any{}
	var libs []*gjs.SchemaLoader
	var regs []*registry
	for i := 0; i < 2; i++ {
		libs = append(libs, gjs.NewSchemaLoader())
		regs = append(regs, &registry{w: newWorld(), taken: map[string]bool{}, open: map[string]bool{}, late: map[string]bool{}, dyn: dyn})
	}
	type handle struct {
		sch  *gjs.Schema
		want []bool
		w    *world
		node any
	}
	var hs []handle
	refused, later := false, false
	// verify compares the verdicts of a schema with those recorded for it
	verify := func(i int, h handle) error {
		for j, in := range c.Insts {
			res, err := h.sch.Validate(gjs.NewStringLoader(encode(in.V)))
			if err != nil {
				return violationf("op %d: validation returned an error: %v", i, err)
			}
			if res.Valid() != h.want[j] {
				return violationf("op %d: schema %s, instance %s: valid=%v, want %v", i, short(encode(h.node)), encode(in.V), res.Valid(), h.want[j])
			}
		}
		return nil
	}
	compiled := func(i int, g *registry, node any, expect int, sch *gjs.Schema, err error) error {
		if expect == 1 && err != nil {
			return violationf("op %d: does not compile although everything is registered: %v", i, err)
		}
		if expect == 0 && err == nil {
			return violationf("op %d: compiles although something it needs is not registered", i)
		}
		if expect != 1 {
			if err != nil && sch != nil {
				return violationf("op %d: a schema and an error", i)
			}
			hs = append(hs, handle{})
			return nil
		}
		h := handle{sch: sch, w: g.w, node: node}
		for _, in := range c.Insts {
			h.want = append(h.want, g.w.valid(node, Hybrid, in.V))
		}
		hs = append(hs, h)
		if refused {
			later = true
		}
		return verify(i, h)
	}
	for i, op := range c.Ops {
		g, sl := regs[op.Loader], libs[op.Loader]
		s.label("op=%s", op.Kind)
		switch op.Kind {
		case "serve":
			delete(st.http, op.URL)
			delete(dyn, op.URL)
			if len(op.Docs) > 0 {
				st.http[op.URL], dyn[op.URL] = encode(op.Docs[0].V), op.Docs[0].V
			}
		case "add":
			u := strings.TrimSuffix(op.URL, "#")
			doc := op.Docs[0].V
			id := g.rootID(doc, u)
			if g.open[u] || g.open[id] || g.late[u] || g.late[id] {
				return skip(s)
			}
			if strings.Contains(encode(doc), `"#x"`) && (g.taken[u] || g.taken[id]) {
				for _, b := range []string{u, id} {
					if _, ok := g.w.ids[b+"#x"]; !ok {
						g.open[b+"#x"] = true
					}
				}
			}
			err := sl.AddSchema(op.URL, gjs.NewStringLoader(encode(doc)))
			switch {
			case g.taken[u]:
				if err == nil {
					return violationf("op %d: AddSchema under the taken URL %s is not refused", i, op.URL)
				}
				refused = true
				if id != "" && !g.taken[id] {
					g.open[id] = true
				}
				s.label("refused: URL")
			case id != "" && id != u && g.taken[id]:
				if err == nil {
					return violationf("op %d: AddSchema of a schema with the taken identifier %s is not refused", i, id)
				}
				refused = true
				g.open[u] = true
				s.label("refused: identifier")
			default:
				if err != nil {
					return violationf("op %d: AddSchema under the free URL %s (identifier %q): %v", i, op.URL, id, err)
				}
				g.w.addDoc(u, doc, Hybrid)
				g.taken[u] = true
				if id != "" {
					g.taken[id] = true
				}
			}
		case "bad":
			text := op.Text
			if len(op.Docs) > 0 {
				text = encode(op.Docs[0].V)
			}
			var err error
			if op.URL == "" {
				err = sl.AddSchemas(gjs.NewStringLoader(text))
			} else {
				err = sl.AddSchema(op.URL, gjs.NewStringLoader(text))
			}
			if err == nil {
				return violationf("op %d: registering %q under %q is not refused", i, text, op.URL)
			}
			refused = true
		case "addmany":
			var ls []gjs.JSONLoader
			wantErr, stop := false, false
			same := map[string]gjs.JSONLoader{}
			for _, d := range op.Docs {
				text := encode(d.V)
				if same[text] == nil {
					same[text] = gjs.NewStringLoader(text)
				}
				ls = append(ls, same[text])
				id := g.rootID(d.V, "")
				if g.open[id] || g.late[id] {
					return skip(s)
				}
				if _, ok := g.w.ids[id+"#x"]; !ok && (stop || g.taken[id]) && strings.Contains(encode(d.V), `"#x"`) {
					g.open[id+"#x"] = true
				}
				if stop {
					if !g.taken[id] {
						g.open[id] = true // left open
					}
					continue
				}
				if g.taken[id] {
					wantErr, stop = true, true
					refused = true
					s.label("refused: identifier")
					continue
				}
				g.w.addByID(d.V, Hybrid)
				g.taken[id] = true
			}
			err := sl.AddSchemas(ls...)
			if (err != nil) != wantErr {
				return violationf("op %d: AddSchemas: %v, error expected: %v", i, err, wantErr)
			}
		case "compile":
			u := strings.TrimSuffix(op.URL, "#")
			base, _ := splitFrag(u)
			if g.open[base] || g.open[u] {
				return skip(s)
			}
			sch, err := sl.Compile(gjs.NewReferenceLoader(op.URL))
			expect := 0
			var node any
			fetched := map[string]bool{}
			if n, rerr := g.resolve(u, fetched); rerr == nil {
				node = n.schema
				expect = g.compiles(node, fetched)
			}
			g.settle(dynURLs, fetched, expect)
			if expect == 1 && len(fetched) > 0 {
				s.label("fetched")
			}
			if err := compiled(i, g, node, expect, sch, err); err != nil {
				return err
			}
		case "literal":
			doc := op.Docs[0].V
			id := g.rootID(doc, "")
			if g.open[id] || g.late[id] {
				return skip(s)
			}
			if _, ok := g.w.ids[id+"#x"]; !ok && id != "" && g.taken[id] && strings.Contains(encode(doc), `"#x"`) {
				g.open[id+"#x"] = true
			}
			sch, err := sl.Compile(gjs.NewStringLoader(encode(doc)))
			if id != "" && g.taken[id] {
				if err == nil {
					return violationf("op %d: compiling a schema with the taken identifier %s is not refused", i, id)
				}
				refused = true
				hs = append(hs, handle{})
				continue
			}
			g.w.addDoc("", doc, Hybrid)
			if id != "" {
				g.taken[id] = true
			}
			fetched := map[string]bool{}
			expect := g.compiles(doc, fetched)
			g.settle(dynURLs, fetched, expect)
			if err := compiled(i, g, doc, expect, sch, err); err != nil {
				return err
			}
		case "validate":
			if op.Handle >= len(hs) || hs[op.Handle].sch == nil {
				continue
			}
			h := hs[op.Handle]
			res, err := h.sch.Validate(gjs.NewStringLoader(encode(op.Inst.V)))
			if err != nil {
				return violationf("op %d: validation returned an error: %v", i, err)
			}
			if want := h.w.valid(h.node, Hybrid, op.Inst.V); res.Valid() != want {
				return violationf("op %d: handle %d, instance %s: valid=%v, want %v", i, op.Handle, encode(op.Inst.V), res.Valid(), want)
			}
		}
	}
	for i, h := range hs {
		if h.sch != nil {
			if err := verify(len(c.Ops), h); err != nil {
				return violationf("at the end, handle %d: %v", i, err)
			}
		}
	}
	if later {
		s.nt()
	}
	return nil
}

// skip ends a history at a point where what happens is left open.
func skip(s *S) error {
	s.label("history cut short")
	return nil
}

func init() {
	register("C22", 8000,
		"a history of 4-45 AddSchema/AddSchemas/Compile/validate operations on two loaders over few or a dozen URLs (fresh and taken, by URL or root identifier, with trailing #, relative identifiers, plain-name identifiers), documents recognisable by a tag and referring to each other, some on a server whose content changes in between, against a map per loader; non-trivial: a schema is compiled after a registration was refused",
		genC22, checkC22)
}
