package harness

import (
	"strconv"
	"strings"

	gjs "github.com/xeipuuv/gojsonschema"
)

type formedCase struct {
	Draft  int    `json:"draft"`
	Via    int    `json:"via"`
	Schema JV     `json:"schema"`
	Remote JV     `json:"remote"`        // optional second document, registered under remoteURL
	Bad    string `json:"bad,omitempty"` // description of the planted ill-formed keyword
	Mode   string `json:"mode"`          // literal, added, remote
}

// badURIs are texts that are not URI references.
var badURIs = []string{"%zz", "http://[", "http://a.invalid/%zz", "#%zz", "a%", ":", "http://[::1", "http://a.invalid:port/x", "1:a", "\x7f"}

const remoteURL = "http://remote.invalid/doc.json"

// badValue draws an ill-formed keyword for the draft; it may need further members.
func (r R) badValue(draft int, isRoot bool) (obj, string) {
	n := func(s string) any { return num(s) }
	count := func() any {
		return pick(r, []any{n("-1"), n("1.5"), n("-0.5"), n("1e-1"), "1", nil, true, arr{}, obj{}, arr{n("1")}, n("-100000000000000000000"), n("0.0001")})
	}
	notSchema := func() any {
		vs := []any{n("5"), "x", nil, arr{}, arr{obj{}}, "true"}
		if !has(draft, D6) {
			vs = append(vs, true, false)
		}
		return pick(r, vs)
	}
	notSchemaOrBool := func() any { return pick(r, []any{n("5"), "x", nil, arr{}, arr{obj{}}, "true"}) }
	notList := func() any { return pick(r, []any{n("5"), "x", nil, true, obj{}, obj{"a": obj{}}}) }
	notMap := func() any { return pick(r, []any{n("5"), "x", nil, true, arr{}, arr{obj{}}}) }
	notString := func() any { return pick(r, []any{n("5"), nil, true, arr{}, obj{}, arr{"a"}}) }
	notNumber := func() any { return pick(r, []any{"1", nil, true, false, arr{}, obj{}, arr{n("1")}}) }
	badRE := func() string {
		return pick(r, []string{"(", "[a", "a{2,1}", "*a", "a**b)", "(?<", "\\", "[b-a]", "a)"})
	}
	list := func(bad any) arr {
		var l arr
		for i := r.n(3); i > 0; i-- {
			l = append(l, obj{})
		}
		l = append(l, bad)
		if r.p(40) {
			l = append(l, obj{"type": "string"})
		}
		return l
	}
	named := func(bad any) obj {
		o := obj{}
		for i := r.n(3); i > 0; i-- {
			o[r.name(20)] = obj{}
		}
		o[r.name(20)] = bad
		return o
	}
	kws := []string{"type", "properties", "patternProperties", "dependencies", "definitions", "additionalProperties", "additionalItems", "items",
		"multipleOf", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum",
		"minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties", "minmax",
		"pattern", "format", "required", "uniqueItems", "enum", "oneOf", "anyOf", "allOf", "not", "$ref", "id", "title", "description"}
	if isRoot {
		kws = append(kws, "$schema", "$schema")
	}
	if has(draft, D6) {
		kws = append(kws, "contains", "propertyNames", "contains", "propertyNames")
	}
	if has(draft, D7) {
		kws = append(kws, "if", "then", "else")
	}
	k := pick(r, kws)
	one := func(v any) (obj, string) { return obj{k: v}, k + "=" + encode(v) }
	switch k {
	case "type":
		return one(pick(r, []any{n("5"), nil, true, obj{}, "foo", "String", "", "int", "any", arr{"string", "string"}, arr{"foo"}, arr{n("1")}, arr{nil},
			arr{arr{"string"}}, arr{"number", "integer", "number"}, arr{"string", obj{}}, arr{"null", "nul"}, arr{"string", true}}))
	case "properties":
		if r.p(50) {
			return one(notMap())
		}
		return one(named(notSchema()))
	case "definitions":
		if r.p(50) {
			return one(notMap())
		}
		return one(named(notSchema()))
	case "patternProperties":
		switch r.n(3) {
		case 0:
			return one(notMap())
		case 1:
			o := obj{badRE(): obj{}}
			if has(draft, D6) && r.p(40) {
				o = obj{badRE(): r.p(50)}
			}
			if r.p(60) {
				o["^ok"] = obj{}
			}
			return one(o)
		}
		return one(obj{"^a": obj{}, pick(r, patterns).pat: notSchema()})
	case "dependencies":
		if r.p(40) {
			return one(notMap())
		}
		if r.p(50) {
			return one(obj{r.name(20): obj{}, "zz": pick(r, []any{arr{n("1")}, arr{"a", n("2")}, arr{nil}, arr{"a", obj{}}, arr{arr{"a"}}, arr{true}})})
		}
		v := notSchema()
		if _, isArr := v.(arr); isArr {
			v = "x"
		}
		return one(obj{r.name(20): v})
	case "additionalProperties", "additionalItems":
		return one(notSchemaOrBool())
	case "items":
		if r.p(50) {
			return one(list(notSchema()))
		}
		v := notSchema()
		if a, isArr := v.(arr); isArr {
			v = append(a, n("1"))
		}
		return one(v)
	case "multipleOf":
		return one(pick(r, []any{n("0"), n("-1"), n("0.0"), n("-0.5"), n("-1e-5"), n("0e5"), n("-0"), "1", nil, true, arr{}, obj{}}))
	case "minimum", "maximum":
		return one(notNumber())
	case "exclusiveMinimum", "exclusiveMaximum":
		base := map[string]string{"exclusiveMinimum": "minimum", "exclusiveMaximum": "maximum"}[k]
		switch {
		case draft == D4 && r.p(50):
			v := pick(r, []any{n("5"), "x", nil, arr{}, obj{}, "true", n("1")})
			return obj{k: v, base: n("1")}, k + "=" + encode(v)
		case draft == D4 || draft == Hybrid && r.p(40):
			return obj{k: r.n(2) == 1, base: delete_}, k + " without " + base
		case draft == Hybrid:
			v := pick(r, []any{"x", nil, arr{}, obj{}, "true", "5"})
			return obj{k: v, base: n("1")}, k + "=" + encode(v)
		}
		return obj{k: notNumber(), base: n("1")}, k
	case "minmax":
		a, b := "minLength", "maxLength"
		if r.p(50) {
			a, b = "minProperties", "maxProperties"
		}
		x := r.n(4)
		return obj{a: n(itoa(x + 1 + r.n(3))), b: n(itoa(x))}, a + " greater than " + b
	case "minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties":
		return one(count())
	case "pattern":
		if r.p(50) {
			return one(badRE())
		}
		return one(notString())
	case "format":
		return one(notString())
	case "required":
		if r.p(40) {
			return one(notList())
		}
		if r.p(10) {
			l := arr{"a"}
			for i := r.between(1, 40); i > 0; i-- {
				l = append(l, "m"+itoa(i))
			}
			return one(append(l, pick(r, []any{"a", l[len(l)/2], n("1")})))
		}
		return one(pick(r, []any{arr{n("1")}, arr{nil}, arr{"a", "a"}, arr{"a", "b", "a"}, arr{"a", obj{}}, arr{true}, arr{"", ""}, arr{arr{"a"}}}))
	case "uniqueItems":
		return one(pick(r, []any{"true", n("1"), n("0"), nil, arr{}, obj{}}))
	case "enum":
		if r.p(40) {
			return one(notList())
		}
		v := r.value(2)
		l := arr{v}
		for i := r.n(3); i > 0; i-- {
			l = append(l, r.scalar())
		}
		if r.p(10) {
			for i := r.between(1, 40); i > 0; i-- {
				l = append(l, num("77"+itoa(i)))
			}
		}
		return one(append(l, r.respellValue(v)))
	case "oneOf", "anyOf", "allOf":
		if r.p(40) {
			return one(notList())
		}
		return one(list(notSchema()))
	case "not", "contains", "propertyNames", "if", "then", "else":
		return one(notSchema())
	case "$ref":
		switch r.n(4) {
		case 0:
			return one(pick(r, badURIs))
		case 1:
			return one(pick(r, []string{"#/definitions/no-such-name", "#no-such-name", "#/definitions/a/no-such-keyword", "#/no-such-keyword/0", "#/allOf/99", "#/items/99", "#/-"}))
		case 2:
			return one("#/x-junk")
		}
		return one(notString())
	case "id":
		k = map[int]string{D4: "id", D6: "$id", D7: "$id", Hybrid: pick(r, []string{"id", "$id"})}[draft]
		if r.p(40) {
			return one(pick(r, badURIs))
		}
		return one(notString())
	case "$schema":
		if r.p(40) {
			return one(pick(r, badURIs))
		}
		return one(notString())
	}
	return one(notString()) // title, description
}

// crowd gives lists and maps of subschemas further well-formed entries.
func (r R) crowd(root obj, draft int) {
	for _, p := range positions(root, draft) {
		m, ok := p.node.(obj)
		if !ok || m["$ref"] != nil {
			continue
		}
		for _, k := range []string{"properties", "patternProperties", "definitions", "dependencies", "items", "allOf", "anyOf", "oneOf"} {
			switch c := m[k].(type) {
			case obj:
				if k == "items" {
					continue
				}
				for i := r.n(6); i > 0; i-- {
					c["crowd"+itoa(i)] = obj{"title": "x"}
				}
			case arr:
				if len(c) == 0 {
					continue
				}
				for i := r.n(6); i > 0; i-- {
					c = append(c, obj{"title": "x"})
				}
				m[k] = c
			}
		}
	}
}

func itoa(n int) string { return strconv.Itoa(n) }

type deleteMarker struct{}

var delete_ = deleteMarker{}

func genC11(r R) formedCase {
	d, via := genDraft(r)
	c := formedCase{Draft: d, Via: via, Mode: pick(r, []string{"literal", "literal", "added"})}
	g := newSgen(r, d)
	g.budget = 16
	g.odd = 15
	var doc obj
	if r.p(30) {
		g.refPct = 20
		doc = g.document(r.between(1, 3)).(obj)
	} else {
		doc = g.object(r.between(1, 4))
		if r.p(25) {
			doc["definitions"] = obj{pick(r, defNames): g.schema(2)}
		}
	}
	target := doc
	if r.p(20) {
		// a second document; only the referenced part takes part
		c.Mode = pick(r, []string{"added", "remote"})
		g2 := newSgen(r, d)
		g2.budget = 10
		rem := g2.object(r.between(1, 2))
		c.Remote = JV{rem}
		p, ok := doc["properties"].(obj)
		if !ok {
			p = obj{}
			doc["properties"] = p
		}
		p["zz"] = obj{"$ref": remoteURL}
		target = rem
	}
	if r.p(22) {
		c.Schema = JV{doc}
		if r.p(50) {
			// ill-formed things in places that take no part
			g.distract(doc)
			for _, p := range positions(doc, d) {
				m, ok := p.node.(obj)
				if ok && m["$ref"] == nil && r.p(20) {
					m["x-"+r.name(0)] = obj{"type": "nonsense", "minimum": "x"}
					m["default"] = obj{"type": num("5")}
				}
			}
			r.sprinkle(doc, d)
		}
		return c
	}
	if r.p(3) {
		vs := []any{num("5"), "x", nil, arr{}, arr{obj{}}}
		if !has(d, D6) {
			vs = append(vs, true, false)
		}
		bad := pick(r, vs)
		c.Bad = "root=" + encode(bad)
		if c.Remote.V != nil {
			c.Remote = JV{bad}
			if bad == nil {
				c.Remote = JV{"null"}
			}
			c.Schema = JV{doc}
		} else {
			c.Schema = JV{bad}
			c.Via = viaDraft
			c.Mode = "literal"
		}
		return c
	}
	var spots []position
	for _, p := range positions(target, d) {
		m, ok := p.node.(obj)
		if ok && p.active && m["$ref"] == nil {
			spots = append(spots, p)
		}
	}
	spot := pick(r, spots)
	if len(spots) > 1 && len(spot.tokens) == 0 {
		spot = pick(r, spots) // prefer nested places
	}
	m := spot.node.(obj)
	bad, what := r.badValue(d, len(spot.tokens) == 0)
	for _, k := range sortedKeys(bad) {
		if _, del := bad[k].(deleteMarker); del {
			delete(m, k)
		} else {
			m[k] = bad[k]
		}
	}
	if _, ok := bad["$schema"]; ok {
		c.Via = viaDraft // the only way in which the member is read as it stands
	}
	if ref, ok := bad["$ref"]; ok {
		if ref == "#/x-junk" {
			junk := []any{num("5"), "x", nil, arr{}, arr{obj{}}}
			if !has(d, D6) {
				junk = append(junk, true)
			}
			if target["$ref"] == nil && len(spot.tokens) > 0 {
				target["x-junk"] = pick(r, junk)
			}
		}
		// keywords beside it could be ill-formed on their own
		for k := range m {
			if k != "$ref" {
				delete(m, k)
			}
		}
	}
	if r.p(15) {
		r.crowd(target, d)
	}
	c.Bad = what + " at /" + strings.Join(spot.tokens, "/")
	c.Schema = JV{doc}
	return c
}

func init() {
	register("C11", 30000,
		"a random well-formed schema (definitions, references, second document), either left well-formed (with junk in places that take no part) or with exactly one ill-formed keyword planted in one active subschema; non-trivial: an ill-formed keyword was planted, or the well-formed schema has at least three subschemas",
		genC11,
		func(c *formedCase, s *S) error {
			sl := loaderFor(c.Draft, c.Via)
			if c.Remote.V != nil {
				text := encode(withDraft(clone(c.Remote.V), c.Draft, c.Via))
				if c.Mode == "remote" {
					st := newStore()
					st.http[remoteURL] = text
					defer st.install()()
				} else if err := sl.AddSchema(remoteURL, gjs.NewStringLoader(text)); err != nil {
					if c.Bad != "" {
						s.label("rejected on add")
						s.nt()
						return nil
					}
					return violationf("AddSchema of a well-formed schema fails: %v", err)
				}
			}
			text := encode(withDraft(clone(c.Schema.V), c.Draft, c.Via))
			var sch *gjs.Schema
			var err error
			if c.Mode == "literal" || c.Remote.V != nil {
				sch, err = sl.Compile(gjs.NewStringLoader(text))
			} else {
				if aerr := sl.AddSchema("http://main.invalid/x.json", gjs.NewStringLoader(text)); aerr != nil {
					if c.Bad != "" {
						s.label("rejected on add")
						s.nt()
						return nil
					}
					return violationf("AddSchema of a well-formed schema fails: %v", aerr)
				}
				sch, err = sl.Compile(gjs.NewReferenceLoader("http://main.invalid/x.json"))
			}
			if c.Bad == "" {
				s.label("well-formed")
				if len(positions(c.Schema.V, c.Draft)) >= 3 {
					s.nt()
				}
				if err != nil {
					return violationf("a well-formed schema does not compile: %v", err)
				}
				if sch == nil {
					return violationf("no error and no schema")
				}
				return nil
			}
			kw, _, _ := strings.Cut(c.Bad, "=")
			kw, _, _ = strings.Cut(kw, " ")
			s.label("bad=%s", kw)
			s.label("draft=%d", c.Draft)
			s.nt()
			if err == nil {
				return violationf("ill-formed schema (%s, draft %d) compiles: %s", c.Bad, c.Draft, short(text))
			}
			if sch != nil {
				return violationf("compilation returned an error and a schema (%s)", c.Bad)
			}
			return filledIn(err)
		})
}

// filledIn tells whether the text of an error is complete.
func filledIn(err error) error {
	if t := err.Error(); t == "" || strings.Contains(t, "<no value>") || strings.Contains(t, "{{") {
		return violationf("the text of an error has not been filled in: %q", t)
	}
	return nil
}
