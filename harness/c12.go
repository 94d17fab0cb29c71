package harness

import (
	"net/http"
	"strings"

	gjs "github.com/xeipuuv/gojsonschema"
)

type metaOp struct {
	Kind string `json:"kind"` // add, addmany, compileref, compilelit, compilefs, avail, unavail
	URL  string `json:"url,omitempty"`
	Docs []JV   `json:"docs,omitempty"`
}

type metaCase struct {
	Draft  int           `json:"draft"`
	Detect bool          `json:"detect"`
	Remote map[string]JV `json:"remote"` // documents a server offers (when available)
	Files  map[string]JV `json:"files"`  // documents in the custom file system
	Down   []string      `json:"down"`   // remote documents that are unavailable at first
	Ops    []metaOp      `json:"ops"`
	Insts  []JV          `json:"instances"`
}

var customMetas = []string{"http://meta.invalid/one", "http://meta.invalid/two"}

func (r R) customMeta() any {
	d7 := draftURL[D7]
	switch r.n(5) {
	case 0:
		return obj{"$schema": d7, "allOf": arr{obj{"$ref": d7}}, "required": arr{"title"}}
	case 1:
		return obj{"properties": obj{"title": obj{"type": "string", "minLength": num("2")}, "type": obj{"enum": arr{"object", "string", "integer", "array"}}}}
	case 2:
		return obj{"$schema": draftURL[D4], "type": "object", "required": arr{"type"}, "properties": obj{"properties": obj{"additionalProperties": obj{"required": arr{"type"}}}}}
	case 3:
		return obj{"$schema": d7, "propertyNames": obj{"pattern": "^[$a-z]"}, "not": obj{"required": arr{"enum"}}}
	}
	return obj{"$schema": draftURL[D6], "$ref": draftURL[D6]}
}

// metaOnly plants something that the meta-schema forbids and the compiler tolerates.
func (r R) metaOnly(m obj, draft int) {
	if _, ok := m["$ref"]; ok {
		k := pick(r, []string{"type", "minimum", "required", "properties", "not", "enum"})
		m[k] = pick(r, []any{num("5"), "x"})
		return
	}
	opts := []func(){
		func() { m["enum"] = arr{} },
		func() { m["allOf"] = arr{} },
		func() { m["anyOf"] = arr{} },
		func() { m["oneOf"] = arr{} },
		func() { m["type"] = arr{} },
		func() { m["items"] = arr{} },
	}
	if draft == D4 {
		opts = append(opts, func() { m["required"] = arr{} }, func() { m["dependencies"] = obj{"a": arr{}} })
	}
	opts = append(opts, func() { m["dependencies"] = obj{"a": arr{"b", "b"}} })
	if has(draft, D6) {
		opts = append(opts, func() { m["examples"] = num("5") }, func() { m["examples"] = obj{} })
	}
	if has(draft, D7) {
		opts = append(opts, func() { m["$comment"] = num("5") }, func() { m["readOnly"] = "x" }, func() { m["contentEncoding"] = num("1") }, func() { m["contentMediaType"] = arr{} })
	}
	pick(r, opts)()
}

func genC12(r R) metaCase {
	c := metaCase{Draft: pick(r, []int{Hybrid, D7, D6, D4}), Detect: r.p(75), Remote: map[string]JV{}, Files: map[string]JV{}}
	draftOf := func(decl string) int {
		if c.Detect {
			for d, u := range draftURL {
				if u == decl {
					return d
				}
			}
		}
		return c.Draft
	}
	newDoc := func(refTo []string) obj {
		decl := ""
		switch {
		case r.p(35):
			decl = draftURL[pick(r, []int{D4, D6, D7})]
		case r.p(25):
			decl = pick(r, customMetas)
		}
		d := draftOf(decl)
		g := newSgen(r, d)
		g.budget = 8
		g.odd = 0
		g.refPct = 15
		doc := g.document(2).(obj)
		if r.p(60) {
			doc["title"] = pick(r, []string{"x", "some title", "T"})
		}
		if r.p(40) {
			doc["type"] = pick(r, allTypes)
		}
		if len(refTo) > 0 && r.p(60) {
			p, ok := doc["properties"].(obj)
			if !ok {
				p = obj{}
				doc["properties"] = p
			}
			p[pick(r, plainNames)] = obj{"$ref": pick(r, refTo)}
		}
		if r.p(45) {
			var objs []obj
			for _, p := range positions(doc, d) {
				if m, ok := p.node.(obj); ok {
					objs = append(objs, m)
				}
			}
			m := pick(r, objs)
			if r.p(75) {
				md := d
				if d == Hybrid {
					md = D7
				}
				r.metaOnly(m, md)
			} else if m["$ref"] == nil {
				bad, _ := r.badValue(d, false)
				for _, k := range sortedKeys(bad) {
					if _, del := bad[k].(deleteMarker); !del && !strings.HasSuffix(k, "id") {
						m[k] = bad[k]
					}
				}
			}
		}
		if decl != "" {
			doc["$schema"] = decl
		} else if r.p(40) {
			// a schema where the meta-schema does not look
			x := obj{"type": pick(r, allTypes)}
			if r.p(60) {
				md := d
				if d == Hybrid {
					md = D7
				}
				r.metaOnly(x, md)
			}
			doc["x-extra"] = x
		}
		return doc
	}
	// custom meta-schemas: registered first, served remotely, or missing
	for i, u := range customMetas {
		switch r.n(3) {
		case 0:
			c.Ops = append(c.Ops, metaOp{"add", u, jvs(r.customMeta())})
		case 1:
			c.Remote[u] = JV{r.customMeta()}
			if r.p(40) {
				c.Down = append(c.Down, u)
			}
		}
		_ = i
	}
	leaf := obj{"type": pick(r, allTypes)}
	c.Remote["http://data.invalid/leaf.json"] = JV{leaf}
	c.Files["/fs/leaf.json"] = JV{obj{"type": pick(r, allTypes)}}
	for _, n := range []string{"/fs/a.json", "/fs/b.json"} {
		c.Files[n] = JV{newDoc([]string{"file:///fs/leaf.json", "leaf.json"})}
	}
	c.Remote["http://data.invalid/a.json"] = JV{newDoc([]string{"leaf.json", "http://data.invalid/leaf.json"})}
	urls := []string{"http://add.invalid/a", "http://add.invalid/b", "http://add.invalid/c"}
	lit := false
	ids := 0
	for i := r.between(2, 7); i > 0; i-- {
		refTo := append([]string{"http://data.invalid/leaf.json"}, urls...)
		frag := ""
		if r.p(35) {
			frag = pick(r, []string{"#/x-extra", "#/x-extra", "#/definitions/leaf", "#"})
		}
		switch r.weighted(35, 10, 20, 10, 12, 8) {
		case 0:
			c.Ops = append(c.Ops, metaOp{"add", pick(r, urls), jvs(newDoc(refTo[:1]))})
		case 1:
			op := metaOp{Kind: "addmany"}
			for j := r.between(1, 3); j > 0; j-- {
				doc := newDoc(refTo[:1])
				key := "$id"
				if d, _ := doc["$schema"].(string); draftOf(d) == D4 {
					key = "id"
				}
				ids++
				doc[key] = "http://many.invalid/" + itoa(ids)
				op.Docs = append(op.Docs, JV{doc})
			}
			c.Ops = append(c.Ops, op)
		case 2:
			c.Ops = append(c.Ops, metaOp{Kind: "compileref", URL: pick(r, append([]string{"http://data.invalid/a.json", "http://many.invalid/1"}, urls...)) + frag})
		case 3:
			if !lit {
				lit = true
				c.Ops = append(c.Ops, metaOp{"compilelit", "", jvs(newDoc(refTo))})
			}
		case 4:
			c.Ops = append(c.Ops, metaOp{Kind: "compilefs", URL: "file://" + pick(r, []string{"/fs/a.json", "/fs/b.json"}) + frag})
		default:
			c.Ops = append(c.Ops, metaOp{Kind: pick(r, []string{"avail", "unavail"}), URL: pick(r, customMetas)})
		}
	}
	for i := 0; i < 3; i++ {
		c.Insts = append(c.Insts, JV{r.value(2)})
	}
	return c
}

func checkC12(c *metaCase, s *S) error {
	st := newStore()
	for u, d := range c.Remote {
		st.http[u] = encode(d.V)
	}
	for n, d := range c.Files {
		st.files[n] = encode(d.V)
	}
	for _, u := range c.Down {
		st.faults[u] = fault{Kind: faultMissing}
	}
	defer st.install()()
	mk := func(validate bool) *gjs.SchemaLoader {
		sl := gjs.NewSchemaLoader()
		sl.Draft, sl.AutoDetect, sl.Validate = libDraft(c.Draft), c.Detect, validate
		return sl
	}
	real, twin := mk(true), mk(false)

	metas := map[string]any{} // meta-schemas the loader has
	docs := map[string]any{}  // documents registered or loaded
	w := newWorld()
	w.addMeta()
	// metaOK: -1 no meta-schema to be had, 0 violated, 1 satisfied
	metaOK := func(doc any) int {
		u := ""
		if c.Detect {
			if m, ok := doc.(obj); ok {
				u, _ = m["$schema"].(string)
			}
		}
		u = strings.TrimSuffix(u, "#")
		if u == "" {
			if c.Draft == Hybrid {
				return 1
			}
			u = metaURL(c.Draft)
		}
		for _, d := range []int{D4, D6, D7} {
			if u == metaURL(d) {
				dd := d
				if !c.Detect {
					dd = c.Draft
				}
				if w.valid(metaDoc(d), dd, doc) {
					return 1
				}
				return 0
			}
		}
		meta, ok := metas[u]
		if !ok {
			if j, remote := c.Remote[u]; remote && st.faults[u].Kind == "" {
				meta = j.V
				metas[u] = meta
				ok = true
			}
		}
		if !ok {
			return -1
		}
		d := c.Draft
		if c.Detect {
			if ms, _ := meta.(obj)["$schema"].(string); ms != "" {
				for k, v := range draftURL {
					if v == ms {
						d = k
					}
				}
			}
		}
		if w.valid(meta, d, doc) {
			return 1
		}
		return 0
	}
	rejected := false
	// outcome compares one operation with what is expected of it
	outcome := func(i int, what string, mok int, rerr, terr error) error {
		if !real.Validate {
			return violationf("op %d (%s) switched the Validate setting off", i, what)
		}
		want := mok == 1 && terr == nil
		if want != (rerr == nil) {
			return violationf("op %d (%s): with Validate on err=%v, with Validate off err=%v, the meta-schema says %d (1 satisfied, 0 violated, -1 not available)", i, what, rerr, terr, mok)
		}
		if mok == 1 {
			s.label("meta=satisfied")
		} else if mok == 0 {
			s.label("meta=violated")
			if terr == nil {
				s.label("rejected only by meta-schema")
			}
			rejected = true
		} else {
			s.label("meta=unavailable")
		}
		if rerr == nil && rejected {
			s.nt()
		}
		return nil
	}
	compare := func(i int, a, b *gjs.Schema) error {
		for _, in := range c.Insts {
			ra, ea := a.Validate(gjs.NewStringLoader(encode(in.V)))
			rb, eb := b.Validate(gjs.NewStringLoader(encode(in.V)))
			if ea != nil || eb != nil {
				return violationf("op %d: validation failed: %v %v", i, ea, eb)
			}
			if resultKey(ra) != resultKey(rb) {
				return violationf("op %d: the schema means something else with Validate on: %s vs %s", i, resultKey(ra), resultKey(rb))
			}
		}
		return nil
	}
	litDone := false
	for i, op := range c.Ops {
		s.label("op=%s", op.Kind)
		switch op.Kind {
		case "avail":
			delete(st.faults, op.URL)
		case "unavail":
			st.faults[op.URL] = fault{Kind: faultMissing}
		case "add":
			doc := op.Docs[0].V
			mok := metaOK(doc)
			// registering is independent of the meta-schema check
			rerr := real.AddSchema(op.URL, gjs.NewStringLoader(encode(doc)))
			var terr error
			if mok == 1 {
				terr = twin.AddSchema(op.URL, gjs.NewStringLoader(encode(doc)))
				if terr == nil {
					docs[op.URL] = doc
					metas[op.URL] = doc
				}
			} else if _, dup := docs[op.URL]; dup {
				terr = injected[0]
			}
			if err := outcome(i, "AddSchema "+op.URL, mok, rerr, terr); err != nil {
				return err
			}
		case "addmany":
			mok := 1
			var ls, ok []gjs.JSONLoader
			for _, d := range op.Docs {
				ls = append(ls, gjs.NewStringLoader(encode(d.V)))
				if mok == 1 {
					if mok = metaOK(d.V); mok == 1 {
						ok = append(ok, gjs.NewStringLoader(encode(d.V)))
						m := d.V.(obj)
						id, _ := m["$id"].(string)
						if id == "" {
							id, _ = m["id"].(string)
						}
						docs[id] = d.V
					}
				}
			}
			rerr := real.AddSchemas(ls...)
			terr := twin.AddSchemas(ok...)
			if terr != nil {
				return violationf("op %d: AddSchemas fails with Validate off: %v", i, terr)
			}
			if err := outcome(i, "AddSchemas", mok, rerr, terr); err != nil {
				return err
			}
		case "compilelit":
			if litDone {
				panic(harnessBug("second literal"))
			}
			litDone = true
			doc := op.Docs[0].V
			mok := metaOK(doc)
			rs, rerr := real.Compile(gjs.NewStringLoader(encode(doc)))
			if mok != 1 {
				if err := outcome(i, "Compile literal", mok, rerr, nil); err != nil {
					return err
				}
				break
			}
			ts, terr := twin.Compile(gjs.NewStringLoader(encode(doc)))
			if err := outcome(i, "Compile literal", mok, rerr, terr); err != nil {
				return err
			}
			if rerr == nil {
				if err := compare(i, rs, ts); err != nil {
					return err
				}
			}
		case "compileref", "compilefs":
			mk := func() gjs.JSONLoader {
				if op.Kind == "compilefs" {
					return gjs.NewReferenceLoaderFileSystem(op.URL, http.FileSystem(st))
				}
				return gjs.NewReferenceLoader(op.URL)
			}
			url, frag := splitFrag(op.URL)
			doc, known := docs[url]
			if !known {
				if op.Kind == "compilefs" {
					doc = c.Files[strings.TrimPrefix(url, "file://")].V
				} else if j, ok := c.Remote[url]; ok {
					doc = j.V
				}
			}
			mok := 1
			if doc != nil {
				docs[url] = doc
				if frag == "" {
					mok = metaOK(doc)
				} else {
					if doc.(obj)["$schema"] != nil {
						continue // which meta-schema a part answers to is left open
					}
					part := doc.(obj)[strings.Split(frag, "/")[1]]
					if m, ok := part.(obj); ok && strings.HasPrefix(frag, "/definitions/") {
						part = m[strings.Split(frag, "/")[2]]
					}
					if m, ok := part.(obj); ok {
						mok = metaOK(m)
					}
					s.label("op=compile part")
				}
			}
			rs, rerr := real.Compile(mk())
			ts, terr := twin.Compile(mk())
			if err := outcome(i, "Compile "+op.URL, mok, rerr, terr); err != nil {
				return err
			}
			if rerr == nil {
				if err := compare(i, rs, ts); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func init() {
	register("C12", 4000,
		"a history of 2-9 AddSchema/AddSchemas/Compile operations on one loader with Validate on (built-in, custom, unavailable meta-schemas; custom file system; violations that only the meta-schema sees), compared with the model's verdict on the meta-schema and a twin loader with Validate off; non-trivial: an operation succeeds after an earlier one was rejected by a meta-schema",
		genC12, checkC12)
}
