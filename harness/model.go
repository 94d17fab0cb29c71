package harness

import (
	"fmt"
	"math/big"
	"net/url"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"

	gjs "github.com/xeipuuv/gojsonschema"
)

// The reference model: an independent evaluator of JSON Schema draft-04/06/07 and the hybrid
// mode over raw JSON values.

const (
	D4     = 4
	D6     = 6
	D7     = 7
	Hybrid = 99
)

// E is one expected validation error.
type E struct {
	Type  string
	Path  []string
	Value any
	// Details: *big.Rat for numbers, string for names, []string for type lists, JSON values for
	// allowed (a list for enum)
	Details map[string]any
}

type out struct {
	must   []E
	may    []E
	groups [][][]E // each group: at least one of the alternatives' must-sets is reported completely
}

func (o *out) ok() bool { return len(o.must) == 0 }

func (o *out) add(typ string, path []string, v any, kv ...any) {
	d := map[string]any{}
	for i := 0; i+1 < len(kv); i += 2 {
		d[kv[i].(string)] = kv[i+1]
	}
	o.must = append(o.must, E{typ, path, v, d})
}

func (o *out) merge(b *out) {
	o.must = append(o.must, b.must...)
	o.may = append(o.may, b.may...)
	o.groups = append(o.groups, b.groups...)
}

func (o *out) optional(b *out) {
	o.may = append(o.may, b.must...)
	o.may = append(o.may, b.may...)
}

// ---------------------------------------------------------------------------------------------
// Documents and references

type node struct {
	schema any
	base   string // absolute or empty base URI for references inside
	draft  int    // 0: inherit
}

type world struct {
	ids    map[string]node // URI without fragment, or URI#plain-name
	base   map[uintptr]string
	drafts map[uintptr]int
	def    int // draft of documents without own draft
	// consts the evaluation budget
	steps int

	formats bool // the library's own checkers decide the formats of formatWitness
}

func newWorld() *world {
	return &world{ids: map[string]node{}, base: map[uintptr]string{}, drafts: map[uintptr]int{}}
}

func mapID(m obj) uintptr { return reflect.ValueOf(m).Pointer() }

func resolveURI(base, ref string) string {
	r, err := url.Parse(ref)
	if err != nil {
		panic(harnessBug("bad uri " + ref))
	}
	b, err := url.Parse(base)
	if err != nil {
		panic(harnessBug("bad base " + base))
	}
	b.Fragment, b.RawFragment = "", ""
	return b.ResolveReference(r).String()
}

// isURIRef: annotations may hold members that look like identifiers but are none.
func isURIRef(s string) bool {
	_, err := url.Parse(s)
	return err == nil
}

func splitFrag(u string) (string, string) {
	if i := strings.IndexByte(u, '#'); i >= 0 {
		f, err := url.PathUnescape(u[i+1:])
		if err != nil {
			panic(harnessBug("fragment " + u))
		}
		return u[:i], f
	}
	return u, ""
}

// addDoc registers a document under its retrieval URI and all identifiers in it.
func (w *world) addDoc(uri string, doc any, draft int) {
	w.ids[uri] = node{doc, uri, draft}
	w.index(doc, uri, draft, true)
	if m, ok := doc.(obj); ok {
		w.ids[uri] = node{doc, w.base[mapID(m)], draft}
	}
}

// addByID registers a document only by the identifiers in it.
func (w *world) addByID(doc any, draft int) { w.index(doc, "", draft, true) }

func idKeyword(draft int, m obj) string {
	switch draft {
	case D4:
		return "id"
	case D6, D7:
		return "$id"
	}
	if _, ok := m["id"]; ok {
		return "id"
	}
	return "$id"
}

func (w *world) index(v any, base string, draft int, isSchema bool) {
	switch x := v.(type) {
	case arr:
		for _, e := range x {
			w.index(e, base, draft, isSchema)
		}
	case obj:
		if isSchema {
			if id, ok := x[idKeyword(draft, x)].(string); ok && isURIRef(id) {
				abs := resolveURI(base, id)
				u, f := splitFrag(abs)
				if f != "" {
					w.ids[u+"#"+f] = node{x, base, draft}
				} else {
					base = u
					w.ids[u] = node{x, u, draft}
				}
			}
		}
		w.base[mapID(x)] = base
		w.drafts[mapID(x)] = draft
		for k, e := range x {
			if !isSchema {
				w.index(e, base, draft, false)
				continue
			}
			switch k {
			case "const", "enum", "default", "examples":
				w.index(e, base, draft, false)
			case "properties", "patternProperties", "definitions", "dependencies":
				if mm, ok := e.(obj); ok {
					w.base[mapID(mm)] = base
					w.drafts[mapID(mm)] = draft
					for _, s := range mm {
						w.index(s, base, draft, true)
					}
				}
			default:
				w.index(e, base, draft, true)
			}
		}
	}
}

// resolve finds the schema designated by an absolute reference.
func (w *world) resolve(abs string) (node, error) {
	if strings.HasPrefix(abs, "bad:") {
		return node{}, fmt.Errorf("not a URI reference")
	}
	u, f := splitFrag(abs)
	if f != "" {
		if n, ok := w.ids[u+"#"+f]; ok {
			return n, nil
		}
	}
	n, ok := w.ids[u]
	if !ok {
		return node{}, fmt.Errorf("no document %q", u)
	}
	if f == "" {
		return n, nil
	}
	if f[0] != '/' {
		return node{}, fmt.Errorf("no identifier %q", abs)
	}
	cur := n.schema
	draft := n.draft
	for _, tok := range strings.Split(f[1:], "/") {
		tok = strings.ReplaceAll(strings.ReplaceAll(tok, "~1", "/"), "~0", "~")
		switch x := cur.(type) {
		case obj:
			e, ok := x[tok]
			if !ok {
				return node{}, fmt.Errorf("no member %q", tok)
			}
			cur = e
		case arr:
			i, err := strconv.Atoi(tok)
			if err != nil || i < 0 || i >= len(x) {
				return node{}, fmt.Errorf("no element %q", tok)
			}
			cur = x[i]
		default:
			return node{}, fmt.Errorf("pointer into scalar")
		}
	}
	r := node{cur, n.base, draft}
	if m, ok := cur.(obj); ok {
		r.base = w.base[mapID(m)]
	}
	return r, nil
}

// refTarget returns the absolute URI of the $ref of a schema object.
func (w *world) refTarget(m obj) (string, bool) {
	ref, ok := m["$ref"].(string)
	if !ok {
		return "", false
	}
	if _, err := url.Parse(ref); err != nil {
		return "bad:" + strconv.Quote(ref), true
	}
	return resolveURI(w.base[mapID(m)], ref), true
}

// ---------------------------------------------------------------------------------------------
// Evaluation

var reCache sync.Map

func mustRE(p string) *regexp.Regexp {
	if r, ok := reCache.Load(p); ok {
		return r.(*regexp.Regexp)
	}
	r, err := regexp.Compile(p)
	if err != nil {
		panic(harnessBug("pattern " + p))
	}
	reCache.Store(p, r)
	return r
}

func sub(path []string, p string) []string {
	return append(append(make([]string, 0, len(path)+1), path...), p)
}

type modelLimit struct{}

// modelFormats: format name -> decider; formats not listed accept everything.
type formatFn func(v any) bool

var modelFormats = map[string]formatFn{}

// formatWitness: built-in formats as they may stand beside other keywords, and strings around them.
var formatWitness = map[string][]string{
	"date":         {"2020-02-29", "2021-02-29", "1999-12-31", "2020-2-9", "", "a"},
	"ipv4":         {"127.0.0.1", "1.2.3", "256.0.0.1", "10.0.0.255", ""},
	"ipv6":         {"::1", "1.2.3.4", "fe80::1", ":::", "a"},
	"email":        {"a@b.c", "a", "foo@bar.org", "@", "x@y"},
	"uuid":         {"123e4567-e89b-12d3-a456-426614174000", "123e4567-e89b-12d3-a456-42661417400", "a"},
	"hostname":     {"a.b", "-a", "abc", "", "a_b", "example.com"},
	"date-time":    {"2020-02-29T00:00:00Z", "2020-02-29", "2021-02-29T00:00:00Z", "foo"},
	"json-pointer": {"/a", "a", "", "/~0", "/~2"},
}

func (w *world) valid(s any, draft int, inst any) bool {
	return w.eval(s, draft, inst, []string{"(root)"}).ok()
}

func has(draft, from int) bool { return draft >= from }

func (w *world) eval(s any, draft int, v any, path []string) *out {
	w.steps++
	if w.steps > 200000 {
		panic(modelLimit{})
	}
	o := &out{}
	if b, ok := s.(bool); ok {
		if !has(draft, D6) {
			panic(harnessBug("boolean schema in draft 4"))
		}
		if !b {
			o.add("false", path, v)
		}
		return o
	}
	m, ok := s.(obj)
	if !ok {
		panic(harnessBug(fmt.Sprintf("schema is %T", s)))
	}
	if abs, ok := w.refTarget(m); ok {
		n, err := w.resolve(abs)
		if err != nil {
			panic(harnessBug("dangling " + abs + ": " + err.Error()))
		}
		d := draft
		if n.draft != 0 {
			d = n.draft
		}
		return w.eval(n.schema, d, v, path)
	}

	rest := &out{}
	w.evalKeywords(m, draft, v, path, rest)

	if ts, ok := typeList(m); ok {
		match := false
		for _, t := range ts {
			if t == typeOf(v) {
				match = true
			}
			if n, isNum := v.(num); isNum && t == "integer" && parseDecimal(string(n)).isInt() {
				match = true
			}
		}
		if !match {
			given := typeOf(v)
			if n, isNum := v.(num); isNum && parseDecimal(string(n)).isInt() {
				given = "integer"
			}
			o.add("invalid_type", path, v, "given", given, "expected", ts)
			o.optional(rest)
			return o
		}
	}
	o.merge(rest)
	return o
}

func typeList(m obj) ([]string, bool) {
	switch t := m["type"].(type) {
	case string:
		return []string{t}, true
	case arr:
		var r []string
		for _, e := range t {
			r = append(r, e.(string))
		}
		return r, len(r) > 0
	}
	return nil, false
}

func intOf(v any) (int, bool) {
	n, ok := v.(num)
	if !ok {
		return 0, false
	}
	r := ratOf(n)
	if !r.IsInt() || !r.Num().IsInt64() {
		panic(harnessBug("count " + string(n)))
	}
	return int(r.Num().Int64()), true
}

func schemaList(v any) arr {
	l, _ := v.(arr)
	return l
}

func (w *world) evalKeywords(m obj, draft int, v any, path []string, o *out) {
	sv := func(s any) *out { return w.eval(s, draft, v, path) }

	// combinators
	if l := schemaList(m["anyOf"]); len(l) > 0 {
		any := false
		var alts []*out
		for _, s := range l {
			r := sv(s)
			any = any || r.ok()
			alts = append(alts, r)
		}
		if !any {
			o.add("number_any_of", path, v)
			o.alternatives(alts)
		}
	}
	if l := schemaList(m["oneOf"]); len(l) > 0 {
		n := 0
		var alts []*out
		for _, s := range l {
			r := sv(s)
			if r.ok() {
				n++
			}
			alts = append(alts, r)
		}
		if n != 1 {
			o.add("number_one_of", path, v)
			if n == 0 {
				o.alternatives(alts)
			}
		}
	}
	if l := schemaList(m["allOf"]); len(l) > 0 {
		bad := false
		for _, s := range l {
			r := sv(s)
			bad = bad || !r.ok()
			o.merge(r)
		}
		if bad {
			o.add("number_all_of", path, v)
		}
	}
	if s, ok := m["not"]; ok {
		if sv(s).ok() {
			o.add("number_not", path, v)
		}
	}
	if s, ok := m["if"]; ok && has(draft, D7) {
		if sv(s).ok() {
			if t, ok := m["then"]; ok {
				if r := sv(t); !r.ok() {
					o.add("condition_then", path, v)
					o.merge(r)
				}
			}
		} else if e, ok := m["else"]; ok {
			if r := sv(e); !r.ok() {
				o.add("condition_else", path, v)
				o.merge(r)
			}
		}
	}

	// any type
	if c, ok := m["const"]; ok && has(draft, D6) {
		if !equalJSON(c, v) {
			o.add("const", path, v, "allowed", c)
		}
	}
	if l, ok := m["enum"].(arr); ok && len(l) > 0 {
		found := false
		for _, e := range l {
			found = found || equalJSON(e, v)
		}
		if !found {
			o.add("enum", path, v, "allowed", l)
		}
	}
	if f, ok := m["format"].(string); ok {
		if fn := modelFormats[f]; fn != nil && !fn(v) {
			o.add("format", path, v, "format", f)
		}
		if s, ok := v.(string); ok && w.formats && formatWitness[f] != nil && !gjs.FormatCheckers.IsFormat(f, s) {
			o.add("format", path, v, "format", f)
		}
	}

	switch x := v.(type) {
	case num:
		w.evalNumber(m, draft, x, path, o)
	case string:
		n := 0
		for range x {
			n++
		}
		if k, ok := intOf(m["minLength"]); ok && n < k {
			o.add("string_gte", path, v, "min", big.NewRat(int64(k), 1))
		}
		if k, ok := intOf(m["maxLength"]); ok && n > k {
			o.add("string_lte", path, v, "max", big.NewRat(int64(k), 1))
		}
		if p, ok := m["pattern"].(string); ok && !mustRE(p).MatchString(x) {
			o.add("pattern", path, v, "pattern", p)
		}
	case arr:
		w.evalArray(m, draft, x, path, o)
	case obj:
		w.evalObject(m, draft, x, path, o)
	}
}

func (o *out) alternatives(alts []*out) {
	var g [][]E
	for _, a := range alts {
		if a.ok() {
			continue
		}
		o.optional(a)
		g = append(g, a.must)
	}
	if len(g) > 0 {
		o.groups = append(o.groups, g)
	}
}

func (w *world) evalNumber(m obj, draft int, x num, path []string, o *out) {
	var xr *big.Rat
	val := func() *big.Rat {
		if xr == nil {
			xr = ratOf(x)
		}
		return xr
	}
	if n, ok := m["multipleOf"].(num); ok {
		if !new(big.Rat).Quo(val(), ratOf(n)).IsInt() {
			o.add("multiple_of", path, x, "multiple", ratOf(n))
		}
	}
	exclMax, exclMin := false, false
	bound := func(key string) (num, bool) {
		n, ok := m[key].(num)
		return n, ok
	}
	if draft == D4 || draft == Hybrid {
		if b, ok := m["exclusiveMaximum"].(bool); ok {
			exclMax = b
		}
		if b, ok := m["exclusiveMinimum"].(bool); ok {
			exclMin = b
		}
	}
	if n, ok := bound("maximum"); ok {
		c := val().Cmp(ratOf(n))
		if exclMax {
			if c >= 0 {
				o.add("number_lt", path, x, "max", ratOf(n))
			}
		} else if c > 0 {
			o.add("number_lte", path, x, "max", ratOf(n))
		}
	}
	if n, ok := bound("minimum"); ok {
		c := val().Cmp(ratOf(n))
		if exclMin {
			if c <= 0 {
				o.add("number_gt", path, x, "min", ratOf(n))
			}
		} else if c < 0 {
			o.add("number_gte", path, x, "min", ratOf(n))
		}
	}
	if has(draft, D6) {
		if n, ok := bound("exclusiveMaximum"); ok && val().Cmp(ratOf(n)) >= 0 {
			o.add("number_lt", path, x, "max", ratOf(n))
		}
		if n, ok := bound("exclusiveMinimum"); ok && val().Cmp(ratOf(n)) <= 0 {
			o.add("number_gt", path, x, "min", ratOf(n))
		}
	}
}

func (w *world) evalArray(m obj, draft int, x arr, path []string, o *out) {
	el := func(s any, i int) *out { return w.eval(s, draft, x[i], sub(path, strconv.Itoa(i))) }
	switch it := m["items"].(type) {
	case arr:
		for i := range x {
			if i < len(it) {
				o.merge(el(it[i], i))
			}
		}
		if len(it) > 0 && len(x) > len(it) {
			switch ai := m["additionalItems"].(type) {
			case bool:
				if !ai {
					o.add("array_no_additional_items", path, x)
				}
			case obj:
				for i := len(it); i < len(x); i++ {
					o.merge(el(ai, i))
				}
			}
		}
	case nil:
	default:
		for i := range x {
			o.merge(el(it, i))
		}
	}
	if k, ok := intOf(m["minItems"]); ok && len(x) < k {
		o.add("array_min_items", path, x, "min", big.NewRat(int64(k), 1))
	}
	if k, ok := intOf(m["maxItems"]); ok && len(x) > k {
		o.add("array_max_items", path, x, "max", big.NewRat(int64(k), 1))
	}
	if u, _ := m["uniqueItems"].(bool); u {
		// one error is required for every element that repeats an earlier one; further pairs may
		// be reported
		for j := range x {
			n := 0
			for i := 0; i < j; i++ {
				if equalJSON(x[i], x[j]) {
					if n == 0 {
						o.add("unique", path, x, "type", "array")
					} else {
						o.may = append(o.may, E{"unique", path, x, map[string]any{"type": "array"}})
					}
					n++
				}
			}
		}
	}
	if s, ok := m["contains"]; ok && has(draft, D6) {
		any := false
		var alts []*out
		for i := range x {
			r := el(s, i)
			any = any || r.ok()
			alts = append(alts, r)
		}
		if !any {
			o.add("contains", path, x)
			o.alternatives(alts)
		}
	}
}

func (w *world) evalObject(m obj, draft int, x obj, path []string, o *out) {
	if k, ok := intOf(m["minProperties"]); ok && len(x) < k {
		o.add("array_min_properties", path, x, "min", big.NewRat(int64(k), 1))
	}
	if k, ok := intOf(m["maxProperties"]); ok && len(x) > k {
		o.add("array_max_properties", path, x, "max", big.NewRat(int64(k), 1))
	}
	for _, r := range schemaList(m["required"]) {
		if _, ok := x[r.(string)]; !ok {
			o.add("required", path, x, "property", r.(string))
		}
	}
	props, _ := m["properties"].(obj)
	pats, _ := m["patternProperties"].(obj)
	for _, k := range sortedKeys(x) {
		matched := false
		if s, ok := props[k]; ok {
			matched = true
			o.merge(w.eval(s, draft, x[k], sub(path, k)))
		}
		for _, p := range sortedKeys(pats) {
			if mustRE(p).MatchString(k) {
				matched = true
				o.merge(w.eval(pats[p], draft, x[k], sub(path, k)))
			}
		}
		if !matched {
			switch ap := m["additionalProperties"].(type) {
			case bool:
				if !ap {
					o.add("additional_property_not_allowed", path, x[k], "property", k)
				}
			case obj:
				o.merge(w.eval(ap, draft, x[k], sub(path, k)))
			}
		}
		if pn, ok := m["propertyNames"]; ok && has(draft, D6) {
			if r := w.eval(pn, draft, k, path); !r.ok() {
				o.add("invalid_property_name", path, x, "property", k)
				o.merge(r)
			}
		}
	}
	if deps, ok := m["dependencies"].(obj); ok {
		for _, k := range sortedKeys(deps) {
			if _, present := x[k]; !present {
				continue
			}
			if l, ok := deps[k].(arr); ok {
				for _, d := range l {
					if _, ok := x[d.(string)]; !ok {
						o.add("missing_dependency", path, x, "dependency", d.(string))
					}
				}
			} else {
				o.merge(w.eval(deps[k], draft, x, path))
			}
		}
	}
}
