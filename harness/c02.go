package harness

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	gjs "github.com/xeipuuv/gojsonschema"
)

// bigLit draws literals with hundreds of digits or large exponents.
func (r R) bigLit() string {
	sign := ""
	if r.p(30) {
		sign = "-"
	}
	switch r.n(5) {
	case 0:
		return sign + "1" + strings.Repeat("0", r.between(100, 400)) + pick(r, []string{"", "1", ".0", ".5"})
	case 1:
		return sign + stripLeading(r.digits(r.between(60, 300)))
	case 2:
		return sign + "0." + strings.Repeat("0", r.between(1, 300)) + "1"
	case 3:
		return sign + strconv.Itoa(1+r.n(99)) + pick(r, []string{"e", "E", "e+", "e-"}) + strconv.Itoa(pick(r, []int{308, 309, 324, 325, 400, 999, 1023, 308, 309, 324, 325, 400, 999, 1023, 308, 309, 324, 325, 4096, 9999}))
	}
	return sign + strconv.Itoa(1+r.n(9)) + "." + r.digits(r.between(30, 200)) + "e" + strconv.Itoa(r.between(0, 400)-200)
}

// beyond tells whether a number of astronomical magnitude certainly violates the bounds in m.
func beyond(m obj, draft int, lit string) bool {
	neg := strings.HasPrefix(lit, "-")
	tiny := strings.Contains(lit, "e-")
	// the value as seen from any bound: far out, or next to zero
	cmp := func(b num) int {
		d := parseDecimal(string(b))
		if tiny && d.digits != "" {
			if d.neg {
				return 1
			}
			return -1
		}
		if neg {
			return -1
		}
		return 1
	}
	for _, k := range []string{"maximum", "exclusiveMaximum"} {
		if b, ok := m[k].(num); ok && cmp(b) > 0 {
			return true
		}
	}
	for _, k := range []string{"minimum", "exclusiveMinimum"} {
		if b, ok := m[k].(num); ok && cmp(b) < 0 {
			return true
		}
	}
	return false
}

// checkC02 compares with the model; instances too large or too small for it must not be accepted
// in violation of a bound.
func checkC02(c *verdictCase, s *S) error {
	plain := *c
	plain.Insts = nil
	var sch *gjs.Schema
	for _, in := range c.Insts {
		n, ok := in.V.(num)
		if !ok || !astronomical(string(n)) {
			plain.Insts = append(plain.Insts, in)
			continue
		}
		if sch == nil {
			var err error
			if sch, err = loaderFor(c.Draft, c.Via).Compile(gjs.NewStringLoader(encode(withDraft(clone(c.Schema.V), c.Draft, c.Via)))); err != nil {
				return violationf("a well-formed schema does not compile: %v", err)
			}
		}
		res, err := sch.Validate(gjs.NewStringLoader(string(n)))
		if err != nil {
			return violationf("validation returned an error: %v", err)
		}
		s.label("astronomical")
		if res.Valid() && beyond(c.Schema.V.(obj), c.Draft, string(n)) {
			return violationf("%s is accepted by %s", n, encode(c.Schema.V))
		}
	}
	return checkVerdicts(&plain, s)
}

func astronomical(l string) bool {
	d := parseDecimal(l)
	return d.digits != "" && (!d.exp.IsInt64() || d.exp.Int64() > 900000 || d.exp.Int64() < -900000)
}

func genC02(r R) verdictCase {
	d, via := genDraft(r)
	g := newSgen(r, d)
	m := obj{}
	lit := func() string {
		if r.p(15) {
			return r.bigLit()
		}
		return r.numLit()
	}
	if r.p(35) {
		m["type"] = pick(r, []any{"integer", "number", arr{"integer", "string"}, arr{"number", "null"}, arr{"integer", "number"}, arr{"string", "boolean"}})
	}
	if r.p(35) {
		l := strings.TrimPrefix(lit(), "-")
		if parseDecimal(l).digits == "" {
			l = "0.5"
		}
		m["multipleOf"] = num(l)
	}
	if r.p(45) {
		m["minimum"] = num(lit())
	}
	if r.p(45) {
		m["maximum"] = num(lit())
		if lo, ok := m["minimum"].(num); ok && r.p(60) {
			m["maximum"] = num(r.respell(string(lo)))
			if r.p(40) {
				m["maximum"] = num(r.perturb(string(lo)))
			}
		}
	}
	if r.p(35) {
		g.exclusive(m, "minimum", "exclusiveMinimum")
	}
	if r.p(35) {
		g.exclusive(m, "maximum", "exclusiveMaximum")
	}
	w := newWorld()
	w.addDoc("", m, d)
	ig := newIgen(r, w, d)
	var vs []JV
	for i := 0; i < 6; i++ {
		if r.p(6) {
			vs = append(vs, JV{pick(r, []any{nil, true, "1", "", arr{}, arr{num("1")}, obj{}, "1e400"})})
			continue
		}
		if r.p(8) {
			vs = append(vs, JV{num(r.bigLit())})
			continue
		}
		if r.p(2) {
			vs = append(vs, JV{num(pick(r, []string{"", "-"}) + pick(r, []string{"1", "99", "0.5"}) + pick(r, []string{"e", "e-"}) + pick(r, []string{"1000010", "30000000", "9223372036854775807", "99999999999999999999"}))})
			continue
		}
		vs = append(vs, JV{num(ig.number([]obj{m}, "integer"))})
	}
	return verdictCase{d, viaFor(m, d, via), JV{m}, vs}
}

// ---------------------------------------------------------------------------------------------
// C03

// scramble writes a JSON text for v with random key order, white space, string escapes and number
// spelling.
func (r R) scramble(v any) string {
	var b strings.Builder
	r.scrambleTo(&b, v)
	return b.String()
}

func (r R) space(b *strings.Builder) {
	if r.p(10) {
		b.WriteString(pick(r, []string{" ", "\n", "\t", "\r\n ", "  "}))
	}
}

func (r R) jsonString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			if r.p(30) {
				fmt.Fprintf(&b, "\\u%04X", c)
			} else {
				b.WriteString("\\" + string(c))
			}
		case c < 0x20:
			fmt.Fprintf(&b, "\\u%04x", c)
		case c == '/' && r.p(40):
			b.WriteString("\\/")
		case r.p(15):
			if c > 0xffff {
				c -= 0x10000
				fmt.Fprintf(&b, "\\u%04x\\u%04x", 0xd800+(c>>10), 0xdc00+(c&0x3ff))
			} else {
				fmt.Fprintf(&b, "\\u%04x", c)
			}
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (r R) scrambleTo(b *strings.Builder, v any) {
	r.space(b)
	switch x := v.(type) {
	case num:
		if r.p(60) {
			b.WriteString(r.respell(string(x)))
		} else {
			b.WriteString(string(x))
		}
	case string:
		b.WriteString(r.jsonString(x))
	case arr:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			r.scrambleTo(b, e)
		}
		r.space(b)
		b.WriteByte(']')
	case obj:
		b.WriteByte('{')
		for i, k := range shuffle(r, sortedKeys(x)) {
			if i > 0 {
				b.WriteByte(',')
			}
			r.space(b)
			b.WriteString(r.jsonString(k))
			r.space(b)
			b.WriteByte(':')
			r.scrambleTo(b, x[k])
		}
		b.WriteByte('}')
	default:
		b.WriteString(encode(v))
	}
	r.space(b)
}

type eqCase struct {
	A     string   `json:"a"` // JSON texts
	B     string   `json:"b"`
	Fill  []string `json:"fill"`
	PosA  int      `json:"pos_a"`
	PosB  int      `json:"pos_b"`
	Draft int      `json:"draft"`
	Extra string   `json:"extra,omitempty"` // members of the schema that accept everything
}

// neutral members constrain nothing; they mean the same in all drafts.
var neutral = []string{`"items":{}`, `"items":{"title":"x"}`, `"items":[{},{}]`, `"additionalItems":true`, `"additionalItems":{}`, `"minItems":0`, `"maxItems":1000000`,
	`"properties":{}`, `"properties":{"a":{}}`, `"additionalProperties":true`, `"additionalProperties":{}`, `"patternProperties":{"a":{}}`, `"minProperties":0`, `"maxProperties":1000000`,
	`"required":[]`, `"dependencies":{}`, `"minLength":0`, `"maxLength":1000000`, `"pattern":""`, `"format":"no-such-format"`, `"title":"t"`, `"default":null`,
	`"type":["null","boolean","number","string","array","object"]`, `"type":["array","number","integer","object","string","boolean","null"]`, `"allOf":[{}]`, `"anyOf":[{},{}]`, `"oneOf":[{}]`, `"not":{"not":{}}`, `"definitions":{"a":{}}`}

func genEq(r R) eqCase {
	a := r.value(r.n(4))
	if r.p(15) {
		a = num(r.bigLit())
	}
	if r.p(25) {
		// numbers nested in containers
		a = pick(r, []any{arr{a}, obj{"a": a}, arr{obj{"x": a}, nil}, obj{"a": arr{a, a}}})
	}
	b := clone(a)
	switch r.weighted(45, 45, 10) {
	case 1:
		b = r.nearMiss(b)
	case 2:
		b = r.value(2)
	}
	if r.p(2) {
		// numbers whose exponent is astronomical
		e := strconv.Itoa(r.between(1000001, 1000009))
		a, b = num("1e"+e), num("10e"+e)
		if r.p(50) {
			b = num("0.1e" + strconv.Itoa(1+mustAtoi(e)))
		}
	}
	c := eqCase{A: r.scramble(a), B: r.scramble(b), Draft: pick(r, []int{Hybrid, D4, D6, D7})}
	seen := []any{a, b}
	for i := r.n(4); i > 0; i-- {
		f := r.value(1)
		dup := false
		for _, s := range seen {
			dup = dup || equalJSON(s, f)
		}
		if !dup {
			seen = append(seen, f)
			c.Fill = append(c.Fill, r.scramble(f))
		}
	}
	if r.p(5) {
		kind := r.n(5) // of one kind and in order, or mixed
		n := r.between(8, pick(r, []int{20, 40, 120}))
		for i := n; i > 0; i-- {
			k := strconv.Itoa(1000 + n - i)
			fs := []any{num("77" + k), "fill" + k, arr{num("77" + k)}, obj{"a" + k: nil}}
			f := fs[min(kind, 3)]
			if kind == 4 {
				f = pick(r, fs)
			}
			if !equalJSON(a, f) && !equalJSON(b, f) {
				c.Fill = append(c.Fill, encode(f))
			}
		}
	}
	c.PosA, c.PosB = r.n(len(c.Fill)+1), r.n(len(c.Fill)+2)
	if r.p(35) {
		used := map[string]bool{}
		for i := r.between(1, 3); i > 0; i-- {
			m := pick(r, neutral)
			k, _, _ := strings.Cut(m, ":")
			if !used[k] && !(k == `"required"` && c.Draft == D4) {
				used[k] = true
				c.Extra += "," + m
			}
		}
	}
	return c
}

func mustAtoi(s string) int { n, _ := strconv.Atoi(s); return n }

func insertAt(xs []string, i int, x string) []string {
	ys := append([]string{}, xs[:i]...)
	ys = append(ys, x)
	return append(ys, xs[i:]...)
}

func checkEq(c *eqCase, s *S) error {
	a, b := mustDecode(c.A), mustDecode(c.B)
	eq := equalJSON(a, b)
	compile := func(text string) (*gjs.Schema, error) {
		sch, err := loaderFor(c.Draft, viaDraft).Compile(gjs.NewStringLoader(text))
		if err != nil {
			return nil, violationf("schema %s does not compile: %v", text, err)
		}
		return sch, nil
	}
	run := func(what, schema, inst string, want bool) error {
		sch, err := compile(schema)
		if err != nil {
			return err
		}
		res, err := sch.Validate(gjs.NewStringLoader(inst))
		if err != nil {
			return violationf("%s: error %v", what, err)
		}
		if res.Valid() != want {
			return violationf("%s: schema %s instance %s: valid=%v, want %v", what, short(schema), short(inst), res.Valid(), want)
		}
		return nil
	}
	if c.Draft != D4 {
		if err := run("const", `{"const":`+c.A+c.Extra+`}`, c.B, eq); err != nil {
			return err
		}
		if err := run("const self", `{"const":`+c.A+c.Extra+`}`, c.A, true); err != nil {
			return err
		}
		if eq || c.A != c.B {
			list := c.A
			if !eq {
				list += "," + c.B
			}
			if err := run("const beside enum", `{"enum":[`+list+`],"const":`+c.A+c.Extra+`}`, c.B, eq); err != nil {
				return err
			}
			if err := run("enum beside const", `{"enum":[`+c.A+`],"const":`+c.B+c.Extra+`}`, c.B, eq); err != nil {
				return err
			}
		}
		for _, f := range c.Fill {
			if err := run("const other", `{"const":`+c.A+c.Extra+`}`, f, false); err != nil {
				return err
			}
		}
	}
	enum := strings.Join(insertAt(c.Fill, c.PosA, c.A), ",")
	if err := run("enum", `{"enum":[`+enum+`]`+c.Extra+`}`, c.B, eq); err != nil {
		return err
	}
	if len(c.Fill) > 0 {
		if err := run("enum other", `{"enum":[`+strings.Join(c.Fill, ",")+`]`+c.Extra+`}`, c.A, false); err != nil {
			return err
		}
	}
	items := strings.Join(insertAt(insertAt(c.Fill, c.PosA, c.A), c.PosB, c.B), ",")
	if err := run("uniqueItems", `{"uniqueItems":true`+c.Extra+`}`, `[`+items+`]`, !eq); err != nil {
		return err
	}
	if err := run("uniqueItems false", `{"uniqueItems":false`+c.Extra+`}`, `[`+items+`]`, true); err != nil {
		return err
	}
	// the same equality decides whether an enum lists a value twice
	_, err := loaderFor(c.Draft, viaDraft).Compile(gjs.NewStringLoader(`{"enum":[` + items + `]}`))
	if (err != nil) != eq {
		return violationf("enum [%s]: compile error %v, duplicate values: %v", items, err, eq)
	}
	s.label("equal=%v", eq)
	s.label("type=%s/%s", typeOf(a), typeOf(b))
	if c.A != c.B && (eq || typeOf(a) == typeOf(b)) {
		s.nt()
	}
	return nil
}

// ---------------------------------------------------------------------------------------------
// C07 metamorphic relations

type lawCase struct {
	verdictCase
	Parts []JV  `json:"parts"`
	Perm  []int `json:"perm"`
	Refs  bool  `json:"refs,omitempty"` // the parts are definitions, used by reference
	Pad   int   `json:"pad,omitempty"`  // so many further alternatives that change nothing
	At    int   `json:"at,omitempty"`
}

func genLaws(r R) lawCase {
	var c lawCase
	c.verdictCase = genVerdict(r, func(g *sgen) {
		g.w = only(map[int]int{fType: 15, fNum: 15, fStr: 8, fArr: 6, fObj: 8, fComb: 60, fEq: 10})
		g.bools = 12
	}, r.between(1, 4))
	g := newSgen(r, c.Draft)
	g.w = only(map[int]int{fType: 25, fNum: 20, fStr: 10, fArr: 6, fObj: 8, fComb: 15, fEq: 15})
	all := arr{}
	n := r.between(2, 4)
	for i := 0; i < n; i++ {
		p := g.schema(2)
		all = append(all, p)
		c.Parts = append(c.Parts, JV{p})
		c.Perm = append(c.Perm, i)
	}
	c.Perm = shuffle(r, c.Perm)
	c.Refs = r.p(35)
	if r.p(40) {
		c.Pad = r.between(1, pick(r, []int{4, 4, 12, 12, 40, 80}))
		c.At = r.n(c.Pad + 1)
	}
	w := newWorld()
	w.addDoc("", obj{"allOf": all}, c.Draft)
	ig := newIgen(r, w, c.Draft)
	for i := 0; i < 3; i++ {
		c.Insts = append(c.Insts, JV{ig.instance(pick(r, []any{obj{"anyOf": all}, obj{"allOf": all}}), 2)})
	}
	return c
}

func checkLaws(c *lawCase, s *S) error {
	if err := checkVerdicts(&c.verdictCase, s); err != nil {
		return err
	}
	d := c.Draft
	defs := obj{}
	verdicts := func(schema any) ([]bool, error) {
		if m, ok := schema.(obj); ok && c.Refs {
			x := obj{"definitions": defs}
			for k, v := range m {
				x[k] = v
			}
			schema = x
		}
		sch, err := loaderFor(d, viaNoDetect).Compile(gjs.NewStringLoader(encode(schema)))
		if err != nil {
			return nil, violationf("schema %s does not compile: %v", encode(schema), err)
		}
		var vs []bool
		for _, in := range c.Insts {
			res, err := sch.Validate(gjs.NewStringLoader(encode(in.V)))
			if err != nil {
				return nil, violationf("validate: %v", err)
			}
			vs = append(vs, res.Valid())
		}
		return vs, nil
	}
	ps, perm := arr{}, arr{}
	for i, p := range c.Parts {
		if c.Refs {
			defs["p"+strconv.Itoa(i)] = p.V
			ps = append(ps, obj{"$ref": "#/definitions/p" + strconv.Itoa(i)})
		} else {
			ps = append(ps, p.V)
		}
	}
	for _, i := range c.Perm {
		perm = append(perm, ps[i])
	}
	a, b := ps[0], ps[1]
	not := func(x any) any { return obj{"not": x} }
	nots := arr{}
	for _, p := range ps {
		nots = append(nots, not(p))
	}
	wrap := func(x any) any { return obj{"allOf": arr{x}} }
	type law struct {
		name string
		l, r any
	}
	laws := []law{
		{"anyOf order", obj{"anyOf": ps}, obj{"anyOf": perm}},
		{"oneOf order", obj{"oneOf": ps}, obj{"oneOf": perm}},
		{"allOf order", obj{"allOf": ps}, obj{"allOf": perm}},
		{"double negation", wrap(a), not(not(a))},
		{"De Morgan any", not(obj{"anyOf": ps}), obj{"allOf": nots}},
		{"De Morgan all", not(obj{"allOf": ps}), obj{"anyOf": nots}},
		{"absorption", wrap(a), obj{"anyOf": arr{a, obj{"allOf": arr{a, b}}}}},
		{"absorption 2", wrap(a), obj{"allOf": arr{a, obj{"anyOf": arr{b, a}}}}},
		{"idempotence", wrap(a), obj{"anyOf": arr{a, a}}},
		{"exclusive or", obj{"oneOf": arr{a, b}}, obj{"allOf": arr{obj{"anyOf": arr{a, b}}, not(obj{"allOf": arr{a, b}})}}},
		{"excluded middle", obj{}, obj{"anyOf": arr{a, not(a)}}},
		{"exactly one of a and not a", obj{}, obj{"oneOf": arr{not(a), a}}},
		{"nothing", not(obj{}), obj{"oneOf": arr{a, a}}},
	}
	if c.Pad > 0 {
		// alternatives that nothing satisfies, all different, and one that decides
		never, always := arr{}, arr{}
		for i := 0; i < c.Pad; i++ {
			k := "q" + strconv.Itoa(i)
			no, yes := not(obj{"title": k}), any(obj{"title": k})
			switch i % 4 {
			case 1:
				no = obj{"allOf": arr{obj{"type": "null"}, obj{"type": "array", "maxItems": num(strconv.Itoa(i))}}}
			case 2:
				no, yes = obj{"enum": arr{obj{k: "no instance is like this"}}}, obj{"not": obj{"enum": arr{obj{k: "no instance is like this"}}}}
			case 3:
				if c.Refs {
					defs[k] = not(obj{"title": k})
					no = obj{"$ref": "#/definitions/" + k}
				}
			}
			if i == c.At {
				never, always = append(never, a), append(always, a)
			}
			never, always = append(never, no), append(always, yes)
		}
		if c.At >= c.Pad {
			never, always = append(never, a), append(always, a)
		}
		two := append(append(arr{}, never...), b)
		laws = append(laws,
			law{"oneOf of two among many false", obj{"oneOf": arr{a, b}}, obj{"oneOf": two}},
			law{"oneOf of two, the other way round", obj{"oneOf": arr{a, b}}, obj{"oneOf": append(arr{b}, never...)}},
			law{"anyOf of two among many false", obj{"anyOf": arr{b, a}}, obj{"anyOf": two}},
			law{"anyOf with many false", wrap(a), obj{"anyOf": never}},
			law{"oneOf with many false", wrap(a), obj{"oneOf": never}},
			law{"allOf with many true", wrap(a), obj{"allOf": always}},
			law{"oneOf with many true", not(obj{}), obj{"oneOf": append(append(arr{}, always...), obj{}, obj{})}},
			law{"anyOf with many negations", not(a), obj{"anyOf": append(append(arr{}, never[:c.At]...), append(arr{not(a)}, never[c.At+1:]...)...)}},
		)
	}
	if d >= D7 {
		t := ps[len(ps)-1]
		laws = append(laws,
			law{"if expansion", obj{"if": a, "then": b, "else": t}, obj{"anyOf": arr{obj{"allOf": arr{a, b}}, obj{"allOf": arr{not(a), t}}}}},
			law{"if without else", obj{"if": a, "then": b}, obj{"anyOf": arr{not(a), b}}},
			law{"if without then", obj{"if": a, "else": b}, obj{"anyOf": arr{a, b}}},
			law{"if alone", obj{"if": a}, obj{}},
			law{"then and else without if", obj{"then": a, "else": b}, obj{}},
		)
	}
	if d >= D6 {
		laws = append(laws,
			law{"false", not(obj{}), false},
			law{"true", obj{}, true},
			law{"nested true", wrap(a), obj{"allOf": arr{true, a}}},
			law{"nested false", wrap(a), obj{"anyOf": arr{false, a}}},
		)
	}
	for _, l := range laws {
		x, err := verdicts(l.l)
		if err != nil {
			return err
		}
		y, err := verdicts(l.r)
		if err != nil {
			return err
		}
		for i := range x {
			if x[i] != y[i] {
				return violationf("law %q: %s gives %v but %s gives %v for %s", l.name, short(encode(l.l)), x[i], short(encode(l.r)), y[i], encode(c.Insts[i].V))
			}
		}
	}
	return nil
}

func init() {
	register("C02", 30000,
		"a schema of numeric keywords with literals in any spelling (up to 400 digits, exponents to 9999, ties at the bounds), 6 instances at, next to or far from the bounds; non-trivial: the exact-arithmetic model accepts one and rejects one of the instances",
		genC02, func(c *verdictCase, s *S) error {
			for _, k := range sortedKeys(c.Schema.V.(obj)) {
				s.label("kw=%s", k)
			}
			return checkC02(c, s)
		})
	register("C03", 12000,
		"a pair of JSON values, the second an equal re-spelling (key order, escapes, number spelling), a single-edit near miss or unrelated; through const, enum, uniqueItems and duplicate detection in enum; non-trivial: different texts that are equal or of the same type",
		genEq, checkEq)
	register("C04", 30000,
		"string keywords alone or beside others, instances around the length bounds built from 1-4 byte code points and combining marks, pattern witnesses, and non-strings; non-trivial: both verdicts occur",
		func(r R) verdictCase {
			c := genVerdict(r, func(g *sgen) {
				g.w = only(map[int]int{fType: 8, fStr: 80, fComb: 5, fObj: 4, fArr: 3, fFmt: 8})
				g.formats = sortedKeys(formatWitness)
				g.bools = 1
			}, r.between(0, 1))
			if m, ok := c.Schema.V.(obj); ok && r.p(25) {
				n := r.between(5, pick(r, []int{20, 70, 300, 1200}))
				if _, ok := m["maxLength"]; !ok {
					m["minLength"] = num(strconv.Itoa(n))
					alpha := pick(r, []string{"a", "é", "日", "😀", "e\u0301"})
					for _, k := range []int{n - 1, n, n + 1, n / 2} {
						c.Insts = append(c.Insts, JV{strings.Repeat(alpha, k)})
					}
				}
			}
			return c
		}, func(c *verdictCase, s *S) error { return checkVerdicts(c, s) })
	register("C05", 25000,
		"array keywords (items as schema and list, additionalItems, min/maxItems, uniqueItems, contains) with arrays around the relevant lengths, elements drawn for the schemas in force at each position; non-trivial: both verdicts occur",
		func(r R) verdictCase {
			return genVerdict(r, func(g *sgen) {
				g.w = only(map[int]int{fType: 12, fNum: 8, fStr: 4, fArr: 70, fObj: 3, fComb: 5, fEq: 8})
				g.bools = 10
				g.long = 5
			}, r.between(1, 3))
		}, func(c *verdictCase, s *S) error {
			labelKeywords(s, c.Schema.V)
			return checkVerdicts(c, s)
		})
	register("C06", 25000,
		"object keywords with member names from a pool with many keyword-like, empty and escaped names, members present/absent/null; non-trivial: both verdicts occur",
		func(r R) verdictCase {
			return genVerdict(r, func(g *sgen) {
				g.w = only(map[int]int{fType: 12, fNum: 8, fStr: 4, fArr: 3, fObj: 70, fComb: 5, fEq: 8})
				g.bools = 8
				g.long = 4
				g.odd = pick(r, []int{5, 20, 50})
			}, r.between(1, 3))
		}, func(c *verdictCase, s *S) error {
			labelKeywords(s, c.Schema.V)
			return checkVerdicts(c, s)
		})
	register("C07", 2500,
		"combinator-heavy schema against the model, and 13-22 Boolean laws instantiated with 2-4 random subschemas over 8 instances; non-trivial: both verdicts occur for the model-checked schema",
		genLaws, checkLaws)
	_ = sort.Strings
}
