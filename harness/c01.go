package harness

import (
	gjs "github.com/xeipuuv/gojsonschema"
)

// verdictCase: one schema, several instances, one draft. Used by the verdict properties C01-C07.
type verdictCase struct {
	Draft  int  `json:"draft"`
	Via    int  `json:"via"`
	Schema JV   `json:"schema"`
	Insts  []JV `json:"instances"`
}

// checkVerdicts compares verdicts with the reference model.
func checkVerdicts(c *verdictCase, s *S) error {
	w := newWorld()
	w.formats = true
	w.addDoc("", c.Schema.V, c.Draft)
	want := make([]bool, len(c.Insts))
	for i, in := range c.Insts {
		want[i] = w.valid(c.Schema.V, c.Draft, in.V)
	}
	sch, err := loaderFor(c.Draft, c.Via).Compile(gjs.NewStringLoader(encode(withDraft(clone(c.Schema.V), c.Draft, c.Via))))
	if err != nil {
		return violationf("a well-formed schema does not compile: %v", err)
	}
	acc, rej := 0, 0
	for i, in := range c.Insts {
		res, err := sch.Validate(gjs.NewStringLoader(encode(in.V)))
		if err != nil {
			return violationf("validation returned an error: %v", err)
		}
		if res.Valid() != want[i] {
			return violationf("instance %s: library says valid=%v, the specification says valid=%v (draft %d, schema %s) errors=%v",
				encode(in.V), res.Valid(), want[i], c.Draft, short(encode(c.Schema.V)), res.Errors())
		}
		if want[i] {
			acc++
		} else {
			rej++
		}
	}
	s.label("draft=%d", c.Draft)
	switch {
	case acc > 0 && rej > 0:
		s.label("verdicts=both")
		s.nt()
	case acc > 0:
		s.label("verdicts=accept-only")
	default:
		s.label("verdicts=reject-only")
	}
	return nil
}

// labelKeywords counts the keywords occurring in schema positions.
func labelKeywords(s *S, schema any) {
	seen := map[string]bool{}
	var walk func(v any)
	walk = func(v any) {
		switch x := v.(type) {
		case arr:
			for _, e := range x {
				walk(e)
			}
		case obj:
			for k, e := range x {
				if kwType[k] != "" || isCombinator(k) {
					seen[k] = true
				}
				walk(e)
			}
		case bool:
			seen["bool"] = true
		}
	}
	walk(schema)
	for _, k := range sortedKeys(seen) {
		s.label("kw=%s", k)
	}
}

func isCombinator(k string) bool {
	switch k {
	case "allOf", "anyOf", "oneOf", "not", "if", "const", "enum", "type", "$ref", "format":
		return true
	}
	return false
}

func instances(r R, w *world, schema any, draft, n int) []JV {
	return longInstances(r, w, schema, draft, n, 1)
}

func longInstances(r R, w *world, schema any, draft, n, long int) []JV {
	var vs []JV
	for i := 0; i < n; i++ {
		g := newIgen(r, w, draft)
		g.long = long
		vs = append(vs, JV{g.instance(schema, 3)})
	}
	return vs
}

func genVerdict(r R, tune func(*sgen), depth int) verdictCase {
	d, via := genDraft(r)
	g := newSgen(r, d)
	if tune != nil {
		tune(g)
	}
	var schema any
	if g.refPct > 0 {
		schema = g.document(depth)
	} else if g.boolsOK() && r.p(2) {
		schema = r.n(2) == 1
	} else {
		schema = g.object(depth)
	}
	if r.p(2) {
		r.nestedDrafts(schema, d)
	}
	w := newWorld()
	w.formats = true
	w.addDoc("", schema, d)
	if g.refPct == 0 && r.p(3) {
		insts := instances(r, w, schema, d, 4)
		schema = r.burrow(schema, insts)
		return verdictCase{d, viaFor(schema, d, via), JV{schema}, insts}
	}
	return verdictCase{d, viaFor(schema, d, via), JV{schema}, longInstances(r, w, schema, d, 5, g.long)}
}

// burrow puts a schema, and in place its instances, under many levels of nesting.
func (r R) burrow(schema any, insts []JV) any {
	for i := r.between(5, pick(r, []int{20, 40, 150})); i > 0; i-- {
		wrap := func(f func(v any) any) {
			for j := range insts {
				insts[j].V = f(insts[j].V)
			}
		}
		switch r.n(6) {
		case 0, 1:
			k := pick(r, plainNames)
			schema = obj{"properties": obj{k: schema}}
			wrap(func(v any) any { return obj{k: v} })
		case 2:
			schema = obj{"items": schema}
			wrap(func(v any) any { return arr{v} })
		case 3:
			schema = obj{"items": arr{obj{}, schema}}
			wrap(func(v any) any { return arr{nil, v} })
		case 4:
			schema = obj{pick(r, []string{"allOf", "anyOf", "oneOf"}): arr{schema}}
		default:
			schema = obj{"additionalProperties": schema}
			wrap(func(v any) any { return obj{"x": v} })
		}
	}
	return schema
}

// document draws an object schema with definitions, and lets every placeholder refer to one of
// the definitions or the root, never in a cycle in place.
func (g *sgen) document(depth int) any {
	r := g.r
	root := g.object(depth)
	defs := obj{"leaf": obj{"type": pick(r, allTypes)}}
	for i := r.n(3); i > 0; i-- {
		g.budget += 8
		defs[pick(r, plainNames)] = g.schema(depth - 1)
	}
	root["definitions"] = defs
	w := newWorld()
	w.addDoc("", root, g.draft)
	for _, ref := range g.refs {
		ref["$ref"] = "#/definitions/leaf"
	}
	for _, ref := range g.refs {
		for try := 0; try < 3; try++ {
			t := "#"
			if r.p(85) {
				t = "#/definitions/" + pick(r, sortedKeys(defs))
			}
			old := ref["$ref"]
			ref["$ref"] = t
			if !w.inplaceCycle() {
				break
			}
			ref["$ref"] = old
		}
	}
	g.refs = nil
	return root
}

func init() {
	register("C01", 40000,
		"a random well-formed schema of all keyword families (draft and way of selecting it drawn), 5 schema-directed instances; non-trivial: the model accepts at least one and rejects at least one of the instances",
		func(r R) verdictCase {
			return genVerdict(r, func(g *sgen) {
				g.w[fFmt], g.formats = 5, sortedKeys(formatWitness)
				if r.p(25) {
					g.refPct = 15
				}
			}, r.between(1, 4))
		},
		func(c *verdictCase, s *S) error {
			labelKeywords(s, c.Schema.V)
			return checkVerdicts(c, s)
		})
}
