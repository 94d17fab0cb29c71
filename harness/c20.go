package harness

import (
	"fmt"
	"strings"

	gjs "github.com/xeipuuv/gojsonschema"
)

type regOp struct {
	Kind    string `json:"kind"` // add, remove, has, isformat, compile, validate, chain
	Name    string `json:"name,omitempty"`
	Checker int    `json:"checker,omitempty"`
	Value   JV     `json:"value,omitempty"`
	Handle  int    `json:"handle,omitempty"`
	Other   string `json:"other,omitempty"`
}

type regCase struct {
	Ops []regOp `json:"ops"`
}

// predicates of the custom checkers
var checkerFuncs = []func(any) bool{
	func(any) bool { return false },
	func(any) bool { return true },
	func(v any) bool { _, ok := v.(string); return ok },
	func(v any) bool { s, ok := v.(string); return !ok || strings.Contains(s, "a") },
	func(v any) bool { n, ok := v.(num); return ok && strings.HasSuffix(string(n), "0") },
	func(v any) bool { o, ok := v.(obj); _, has := o["a"]; return ok && has },
	func(v any) bool { a, ok := v.(arr); return ok && len(a)%2 == 0 },
	func(v any) bool { return v == nil },
	func(v any) bool { b, ok := v.(bool); return ok && b },
	func(v any) bool { return len(encode(v))%2 == 0 },
}

// customChecker is comparable and not: the registry may not care.
type customChecker struct {
	id  int
	log *[]string
	pad []int
}

func (c customChecker) IsFormat(v interface{}) bool {
	*c.log = append(*c.log, fmt.Sprintf("%d:%T:%s", c.id, v, canonAny(v)))
	return checkerFuncs[c.id](v)
}

var builtinCheckers = map[string]gjs.FormatChecker{
	"date": gjs.DateFormatChecker{}, "time": gjs.TimeFormatChecker{}, "date-time": gjs.DateTimeFormatChecker{}, "hostname": gjs.HostnameFormatChecker{},
	"email": gjs.EmailFormatChecker{}, "idn-email": gjs.EmailFormatChecker{}, "ipv4": gjs.IPV4FormatChecker{}, "ipv6": gjs.IPV6FormatChecker{},
	"uri": gjs.URIFormatChecker{}, "uri-reference": gjs.URIReferenceFormatChecker{}, "iri": gjs.URIFormatChecker{}, "iri-reference": gjs.URIReferenceFormatChecker{},
	"uri-template": gjs.URITemplateFormatChecker{}, "uuid": gjs.UUIDFormatChecker{}, "regex": gjs.RegexFormatChecker{},
	"json-pointer": gjs.JSONPointerFormatChecker{}, "relative-json-pointer": gjs.RelativeJSONPointerFormatChecker{},
}

var customNames = []string{"role", "Role", "ROLE", "even", "x-y", " role", "é", "date ", "Date", "EMAIL", "a/b", "%", "unknown"}

func (r R) formatName() string {
	if r.p(35) {
		return pick(r, formatNames)
	}
	return pick(r, customNames)
}

var formatSamples = []string{"", "a", "foo", "2020-01-01", "12:00:00Z", "2020-01-01T00:00:00Z", "a.b", "a@b.c", "1.2.3.4", "::1", "http://a/b", "/a", "123e4567-e89b-12d3-a456-426614174000", "(", "1/a", "role", "ROLE_a"}

func (r R) formatValue() any {
	if r.p(50) {
		return pick(r, formatSamples)
	}
	return r.value(1)
}

func (r R) formatSchema(name, other string) any {
	f, o := obj{"format": name}, obj{"format": other}
	switch r.n(8) {
	case 0:
		return obj{"items": f, "properties": obj{"a": f, "b": o}}
	case 1:
		return obj{"not": f}
	case 2:
		return obj{pick(r, []string{"anyOf", "oneOf", "allOf"}): arr{f, o}}
	case 3:
		return obj{"format": name, "type": pick(r, allTypes)}
	case 4:
		return obj{"additionalProperties": f, "additionalItems": f, "items": arr{o}}
	}
	return f
}

func genC20(r R) regCase {
	var c regCase
	// few names, so that operations meet
	var names []string
	for i := r.between(2, 4); i > 0; i-- {
		names = append(names, r.formatName())
	}
	handles := 0
	if r.p(8) {
		// many registrations or hardly any
		if r.p(50) {
			for _, n := range shuffle(r, formatNames)[:r.between(1, len(formatNames))] {
				c.Ops = append(c.Ops, regOp{Kind: "remove", Name: n})
				names = append(names, n)
			}
		} else {
			for i := r.between(5, 60); i > 0; i-- {
				n := itoa(i) + "-many"
				c.Ops = append(c.Ops, regOp{Kind: "add", Name: n, Checker: r.n(len(checkerFuncs))})
				if r.p(20) {
					names = append(names, n)
				}
			}
		}
	}
	for i := r.between(4, 20); i > 0; i-- {
		op := regOp{Name: pick(r, names)}
		if r.p(4) {
			op.Name = r.formatName()
		}
		switch r.weighted(22, 12, 8, 12, 16, 30, 4) {
		case 0:
			op.Kind, op.Checker = "add", r.n(len(checkerFuncs))
		case 1:
			op.Kind = "remove"
		case 2:
			op.Kind = "has"
		case 3:
			op.Kind, op.Value.V = "isformat", r.formatValue()
		case 4:
			op.Kind, op.Other = "compile", pick(r, names)
			op.Value.V = r.formatSchema(op.Name, op.Other)
			handles++
		case 5:
			if handles == 0 {
				op.Kind, op.Value.V = "compile", obj{"format": op.Name}
				op.Other = op.Name
				handles++
				break
			}
			op.Kind, op.Handle, op.Value.V = "validate", r.n(handles), r.formatValue()
			op.Name = ""
			if r.p(15) {
				op.Value.V = pick(r, []any{obj{"a": r.formatValue(), "b": r.formatValue()}, arr{r.formatValue(), r.formatValue()}})
			}
		default:
			op.Kind, op.Other, op.Checker = "chain", pick(r, names), r.n(len(checkerFuncs))
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func checkC20(c *regCase, s *S) error {
	reg := &gjs.FormatCheckers
	used := map[string]bool{}
	for _, op := range c.Ops {
		for _, n := range []string{op.Name, op.Other} {
			if n != "" {
				used[n] = true
			}
		}
	}
	saved := map[string]func(any) bool{}
	for n := range used {
		if f, ok := modelFormats[n]; ok {
			saved[n] = f
		}
	}
	defer func() {
		for n := range used {
			reg.Remove(n)
			delete(modelFormats, n)
			if b, ok := builtinCheckers[n]; ok {
				reg.Add(n, b)
			}
			if f, ok := saved[n]; ok {
				modelFormats[n] = f
			}
		}
	}()
	model := map[string]func(any) bool{}
	for n := range used {
		delete(modelFormats, n)
		if rec, ok := recognisers[n]; ok {
			model[n] = func(v any) bool {
				t, isStr := v.(string)
				if !isStr {
					return true
				}
				switch rec(t) {
				case 1:
					return true
				case -1:
					return false
				}
				panic(modelLimit{})
			}
			modelFormats[n] = model[n]
		}
	}
	custom := map[string]int{}
	add := func(n string, id int) {
		custom[n] = id
		model[n] = checkerFuncs[id]
		modelFormats[n] = checkerFuncs[id]
	}
	remove := func(n string) {
		delete(custom, n)
		delete(model, n)
		delete(modelFormats, n)
	}
	type handle struct {
		sch  *gjs.Schema
		node any
	}
	var hs []handle
	var log []string
	changedAfter := map[string]bool{} // names changed while a compiled schema exists
	for i, op := range c.Ops {
		s.label("op=%s", op.Kind)
		switch op.Kind {
		case "add":
			reg.Add(op.Name, customChecker{op.Checker, &log, nil})
			add(op.Name, op.Checker)
			changedAfter[op.Name] = len(hs) > 0
		case "remove":
			reg.Remove(op.Name)
			remove(op.Name)
			changedAfter[op.Name] = len(hs) > 0
		case "chain":
			reg.Add(op.Name, customChecker{op.Checker, &log, nil}).Remove(op.Other).Add(op.Name+"2", customChecker{0, &log, nil}).Remove(op.Name + "2")
			add(op.Name, op.Checker)
			remove(op.Other)
			if op.Other == op.Name {
				remove(op.Name)
			}
			if reg.Has(op.Name + "2") {
				return violationf("op %d: a removed name is still there", i)
			}
		case "has":
			_, want := model[op.Name]
			if got := reg.Has(op.Name); got != want {
				return violationf("op %d: Has(%q) = %v, want %v", i, op.Name, got, want)
			}
		case "isformat":
			want := true
			if f, ok := model[op.Name]; ok {
				want = f(op.Value.V)
			}
			log = nil
			if got := reg.IsFormat(op.Name, clone(op.Value.V)); got != want {
				return violationf("op %d: IsFormat(%q, %s) = %v, want %v", i, op.Name, encode(op.Value.V), got, want)
			}
			if err := consulted(log, custom, op.Name, op.Value.V); err != "" {
				return violationf("op %d: IsFormat(%q, %s): %s", i, op.Name, encode(op.Value.V), err)
			}
		case "compile":
			sch, err := gjs.NewSchema(gjs.NewStringLoader(encode(op.Value.V)))
			if err != nil {
				return violationf("op %d: a schema with format does not compile: %v", i, err)
			}
			hs = append(hs, handle{sch, op.Value.V})
		case "validate":
			if op.Handle >= len(hs) {
				continue
			}
			h := hs[op.Handle]
			w := newWorld()
			w.addDoc("", h.node, Hybrid)
			want := w.valid(h.node, Hybrid, op.Value.V)
			log = nil
			res, err := h.sch.Validate(gjs.NewStringLoader(encode(op.Value.V)))
			if err != nil {
				return violationf("op %d: validation returned an error: %v", i, err)
			}
			if res.Valid() != want {
				return violationf("op %d: schema %s, instance %s: valid=%v, want %v", i, encode(h.node), encode(op.Value.V), res.Valid(), want)
			}
			m := h.node.(obj)
			if f, ok := m["format"].(string); ok && len(m) == 1 {
				if err := consulted(log, custom, f, op.Value.V); err != "" {
					return violationf("op %d: schema %s, instance %s: %s", i, encode(h.node), encode(op.Value.V), err)
				}
				s.label("instance=%s", typeOf(op.Value.V))
				if changedAfter[f] {
					s.nt()
				}
			}
		}
	}
	for n := range used {
		_, want := model[n]
		if got := reg.Has(n); got != want {
			return violationf("at the end Has(%q) = %v, want %v", n, got, want)
		}
	}
	for _, n := range formatNames {
		if !used[n] && !reg.Has(n) {
			return violationf("the built-in format %q was lost", n)
		}
	}
	return nil
}

// consulted checks that exactly the registered checker was asked, with the value itself.
func consulted(log []string, custom map[string]int, name string, v any) string {
	id, ok := custom[name]
	if !ok {
		if len(log) != 0 {
			return fmt.Sprintf("a checker that is not registered under the name was consulted: %v", log)
		}
		return ""
	}
	want := fmt.Sprintf("%d:%T:%s", id, v, canonAny(v))
	if len(log) == 0 {
		return "the registered checker was not consulted"
	}
	for _, l := range log {
		if l != want {
			return fmt.Sprintf("consulted with %s, want %s", short(l), short(want))
		}
	}
	return ""
}

func init() {
	register("C20", 20000,
		"a history of 4-20 (up to 80) Add/Remove/Has/IsFormat calls over 2-4 built-in and custom names (differing in case, too), compilations of schemas using them in several places and validations of instances of all types, against a map; non-trivial: a schema is validated after the checker of its format was changed",
		genC20, checkC20)
}
