package harness

import (
	"fmt"
	"strings"

	gjs "github.com/xeipuuv/gojsonschema"
)

// identityDetails tell apart the constraints that one error type at one location can stand for.
var identityDetails = []string{"property", "dependency", "format", "pattern", "given"}

func (e E) key() string {
	s := e.Type + " at " + fmt.Sprintf("%q", e.Path) + " value " + canon(e.Value)
	for _, k := range identityDetails {
		if v, ok := e.Details[k]; ok {
			s += fmt.Sprintf(" %s=%v", k, v)
		}
	}
	return s
}

func obsKey(e gjs.ResultError) string {
	var path []string
	if e.Context() != nil {
		path = strings.Split(e.Context().String("\x00\x01\x00"), "\x00\x01\x00")
	}
	s := e.Type() + " at " + fmt.Sprintf("%q", path) + " value " + canonAny(e.Value())
	for _, k := range identityDetails {
		if v, ok := e.Details()[k]; ok {
			s += fmt.Sprintf(" %s=%v", k, v)
		}
	}
	return s
}

// checkReport compares a result with the expectation of the model.
func checkReport(o *out, res *gjs.Result) error {
	if res.Valid() != (len(res.Errors()) == 0) {
		return violationf("Valid()=%v but %d errors are listed", res.Valid(), len(res.Errors()))
	}
	obs := map[string]int{}
	for _, e := range res.Errors() {
		obs[obsKey(e)]++
	}
	must, may := map[string]int{}, map[string]int{}
	for _, e := range o.must {
		must[e.key()]++
	}
	for _, e := range o.may {
		may[e.key()]++
	}
	for k, n := range must {
		if obs[k] < n {
			return violationf("violated constraint not reported (%d of %d times): %s\nreported: %s", obs[k], n, short(k), short(fmt.Sprint(res.Errors())))
		}
	}
	for k, n := range obs {
		if must[k] == 0 && may[k] == 0 {
			return violationf("reported, but not violated there: %s", short(k))
		}
		if n > must[k]+may[k] {
			return violationf("reported %d times instead of %d: %s", n, must[k]+may[k], short(k))
		}
	}
	for _, g := range o.groups {
		found := false
		for _, alt := range g {
			need := map[string]int{}
			ok := true
			for _, e := range alt {
				need[e.key()]++
			}
			for k, n := range need {
				ok = ok && obs[k] >= n
			}
			found = found || ok
		}
		if !found {
			return violationf("a combinator failed, but the errors of none of its alternatives are reported completely; reported: %s", short(fmt.Sprint(res.Errors())))
		}
	}
	return nil
}

func checkC15(c *verdictCase, s *S) error {
	sch, err := loaderFor(c.Draft, c.Via).Compile(gjs.NewStringLoader(encode(withDraft(clone(c.Schema.V), c.Draft, c.Via))))
	if err != nil {
		return violationf("a well-formed schema does not compile: %v", err)
	}
	for _, in := range c.Insts {
		w := newWorld()
		w.addDoc("", c.Schema.V, c.Draft)
		o := w.eval(c.Schema.V, c.Draft, in.V, []string{"(root)"})
		res, err := sch.Validate(gjs.NewStringLoader(encode(in.V)))
		if err != nil {
			return violationf("validation returned an error: %v", err)
		}
		if err := checkReport(o, res); err != nil {
			return violationf("instance %s (draft %d): %v", short(encode(in.V)), c.Draft, err)
		}
		paths := map[string]bool{}
		for _, e := range o.must {
			paths[strings.Join(e.Path, "\x00")] = true
			s.label("type=%s", e.Type)
		}
		if len(o.must) > 1 && len(paths) > 1 {
			s.nt()
		}
		if len(o.groups) > 0 {
			s.label("failed alternatives")
		}
	}
	return nil
}

func reportGen(r R, draft int) *sgen {
	g := newSgen(r, draft)
	g.w[fFmt] = 5
	g.formats = []string{"h-reject", "h-string", "h-lower", "no-such-format"}
	g.maxKW = 6
	g.budget = 60
	return g
}

// spread draws a schema that constrains several children of its instance, and instances that
// have those children.
func (r R) spread(draft, n int) (any, []JV) {
	g := reportGen(r, draft)
	root := obj{}
	if r.p(30) {
		root = g.object(1)
	}
	array := r.p(35)
	var kids []any
	var names []string
	used := map[string]bool{}
	for i := r.between(2, 5); i > 0; i-- {
		name := r.name(15)
		if used[name] {
			continue
		}
		used[name] = true
		names = append(names, name)
		s := any(g.object(r.between(0, 2)))
		switch r.n(9) {
		case 4:
			o := obj{"format": pick(r, []string{"h-lower", "h-lower", "h-string", "h-reject"})}
			if r.p(60) {
				o["pattern"] = r.pattern()
			}
			if r.p(40) {
				g.minmax(o, "minLength", "maxLength", 4)
			}
			s = o
		case 0:
			s = obj{"if": g.schema(1), "then": g.schema(1), "else": g.schema(1)}
		case 1:
			s = obj{pick(r, []string{"anyOf", "oneOf", "allOf"}): g.schemas(2, 1, 3)}
		case 2:
			s = obj{"contains": g.object(1), "uniqueItems": true}
		case 3:
			s = obj{"propertyNames": g.object(0), "dependencies": obj{pick(r, plainNames): arr{pick(r, plainNames), "zz"}}, "required": arr{pick(r, plainNames), "yy"}}
		}
		kids = append(kids, s)
	}
	if array {
		if r.p(30) {
			root["items"] = kids[0]
		} else {
			root["items"] = append(arr{}, kids...)
		}
	} else {
		p := obj{}
		for i, k := range names {
			p[k] = kids[i]
		}
		root["properties"] = p
		if r.p(20) {
			root["patternProperties"] = obj{r.pattern(): g.object(0)}
		}
		delete(root, "additionalProperties")
		if r.p(30) {
			root["additionalProperties"] = g.additional(1)
		}
	}
	w := newWorld()
	w.addDoc("", root, draft)
	var insts []JV
	for i := 0; i < n; i++ {
		if r.p(15) {
			insts = append(insts, instances(r, w, root, draft, 1)...)
			continue
		}
		if array {
			a := arr{}
			for _, k := range kids {
				if root["items"] != nil {
					if _, list := root["items"].(arr); !list {
						k = kids[0]
					}
				}
				a = append(a, r.kid(w, k, draft))
			}
			for r.p(20) {
				a = append(a, r.value(1))
			}
			insts = append(insts, JV{a})
		} else {
			o := obj{}
			for j, k := range names {
				if r.p(90) {
					o[k] = r.kid(w, kids[j], draft)
				}
			}
			for r.p(25) {
				k := r.name(15)
				if _, ok := o[k]; !ok {
					o[k] = r.value(1)
				}
			}
			insts = append(insts, JV{o})
		}
	}
	return root, insts
}

func (r R) kid(w *world, s any, draft int) any {
	if r.p(20) {
		return r.value(2)
	}
	m := s.(obj)
	switch {
	case m["uniqueItems"] != nil && r.p(70):
		a := arr{}
		for i := r.n(5); i > 0; i-- {
			a = append(a, r.value(1))
		}
		if len(a) > 0 && r.p(70) {
			a = append(a, r.respellValue(pick(r, a)))
		}
		if len(a) > 0 && r.p(20) {
			a = append(a, r.respellValue(pick(r, a)))
		}
		return a
	case m["propertyNames"] != nil && r.p(70):
		o := obj{}
		for i := r.n(4); i > 0; i-- {
			o[r.name(10)] = r.value(1)
		}
		return o
	}
	return newIgen(r, w, draft).instance(s, 2)
}

func genReport(r R) verdictCase {
	if r.p(60) {
		d, via := genDraft(r)
		s, insts := r.spread(d, 4)
		return verdictCase{d, viaFor(s, d, via), JV{s}, insts}
	}
	return genVerdict(r, func(g *sgen) {
		*g = *reportGen(r, g.draft)
		g.w[fObj], g.w[fArr] = 40, 24
		if r.p(20) {
			g.refPct = 15
		}
	}, r.between(2, 4))
}

// formats of the harness' own, for checks that need some failing format
type rejectFormat struct{}

func (rejectFormat) IsFormat(any) bool { return false }

type stringFormat struct{}

func (stringFormat) IsFormat(v any) bool { _, ok := v.(string); return ok }

type lowerFormat struct{}

func (lowerFormat) IsFormat(v any) bool {
	s, ok := v.(string)
	return !ok || strings.ToLower(s) == s
}

func init() {
	gjs.FormatCheckers.Add("h-lower", lowerFormat{})
	modelFormats["h-lower"] = lowerFormat{}.IsFormat
	gjs.FormatCheckers.Add("h-reject", rejectFormat{})
	gjs.FormatCheckers.Add("h-string", stringFormat{})
	modelFormats["h-reject"] = func(any) bool { return false }
	modelFormats["h-string"] = func(v any) bool { _, ok := v.(string); return ok }
	register("C15", 20000,
		"a random well-formed schema of all keyword families and 5 schema-directed instances; the multiset of reported errors (type, path, value, distinguishing details) is compared with the model's; non-trivial: at least two violated constraints at two different locations in one instance",
		genReport, checkC15)
}
