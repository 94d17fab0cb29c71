package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"text/template"

	gjs "github.com/xeipuuv/gojsonschema"
)

// testLocale gives every error type its own template, and a tag to tell locales apart.
type testLocale struct {
	gjs.DefaultLocale
	tag int
}

func (l testLocale) t(typ, rest string) string {
	switch l.tag {
	case 1:
		return "L1 " + typ + " {{.field}} " + rest + " {{.context}}"
	case 2:
		return "{{shout .field}}/" + typ + "/{{.context}}/" + rest + "{{if .property}}{{shout .property}}{{end}}"
	case 3: // all alike up to the end, and of equal or nearly equal lengths
		return "{{.context}}: the document that was offered does not fit the schema at this position, because of " + rest + typ
	case 4:
		return strings.ToUpper(typ) + rest + strings.Repeat(" .", 30)
	case 5:
		return typ + rest + strings.Repeat(" .", 30)
	}
	return typ + ": " + rest
}

func (l testLocale) False() string             { return l.t("false", "") }
func (l testLocale) Required() string          { return l.t("required", "{{.property}}") }
func (l testLocale) InvalidType() string       { return l.t("invalid_type", "{{.expected}} {{.given}}") }
func (l testLocale) NumberAnyOf() string       { return l.t("number_any_of", "") }
func (l testLocale) NumberOneOf() string       { return l.t("number_one_of", "") }
func (l testLocale) NumberAllOf() string       { return l.t("number_all_of", "") }
func (l testLocale) NumberNot() string         { return l.t("number_not", "") }
func (l testLocale) MissingDependency() string { return l.t("missing_dependency", "{{.dependency}}") }
func (l testLocale) Internal() string          { return l.t("internal", "{{.error}}") }
func (l testLocale) Const() string             { return l.t("const", "{{.allowed}}") }
func (l testLocale) Enum() string              { return l.t("enum", "{{.allowed}}") }
func (l testLocale) ArrayNoAdditionalItems() string {
	return l.t("array_no_additional_items", "")
}
func (l testLocale) ArrayMinItems() string      { return l.t("array_min_items", "{{.min}}") }
func (l testLocale) ArrayMaxItems() string      { return l.t("array_max_items", "{{.max}}") }
func (l testLocale) Unique() string             { return l.t("unique", "{{.type}} {{.i}} {{.j}}") }
func (l testLocale) ArrayContains() string      { return l.t("contains", "") }
func (l testLocale) ArrayMinProperties() string { return l.t("array_min_properties", "{{.min}}") }
func (l testLocale) ArrayMaxProperties() string { return l.t("array_max_properties", "{{.max}}") }
func (l testLocale) AdditionalPropertyNotAllowed() string {
	return l.t("additional_property_not_allowed", "{{.property}}")
}
func (l testLocale) InvalidPropertyName() string {
	return l.t("invalid_property_name", "{{.property}}")
}
func (l testLocale) StringGTE() string           { return l.t("string_gte", "{{.min}}") }
func (l testLocale) StringLTE() string           { return l.t("string_lte", "{{.max}}") }
func (l testLocale) DoesNotMatchPattern() string { return l.t("pattern", "{{.pattern}}") }
func (l testLocale) DoesNotMatchFormat() string  { return l.t("format", "{{.format}}") }
func (l testLocale) MultipleOf() string          { return l.t("multiple_of", "{{.multiple}}") }
func (l testLocale) NumberGTE() string           { return l.t("number_gte", "{{.min}}") }
func (l testLocale) NumberGT() string            { return l.t("number_gt", "{{.min}}") }
func (l testLocale) NumberLTE() string           { return l.t("number_lte", "{{.max}}") }
func (l testLocale) NumberLT() string            { return l.t("number_lt", "{{.max}}") }
func (l testLocale) ConditionThen() string       { return l.t("condition_then", "") }
func (l testLocale) ConditionElse() string       { return l.t("condition_else", "") }

const sep = "\u27e6\u27e7"

func (l testLocale) ErrorFormat() string {
	return fmt.Sprintf("E%d", l.tag) + sep + "{{.field}}" + sep + "{{.context}}" + sep + "{{.description}}" + sep + "{{.value}}"
}

type anyLocale interface {
	False() string
	Required() string
	InvalidType() string
	NumberAnyOf() string
	NumberOneOf() string
	NumberAllOf() string
	NumberNot() string
	MissingDependency() string
	Internal() string
	Const() string
	Enum() string
	ArrayNoAdditionalItems() string
	ArrayMinItems() string
	ArrayMaxItems() string
	Unique() string
	ArrayContains() string
	ArrayMinProperties() string
	ArrayMaxProperties() string
	AdditionalPropertyNotAllowed() string
	InvalidPropertyName() string
	StringGTE() string
	StringLTE() string
	DoesNotMatchPattern() string
	DoesNotMatchFormat() string
	MultipleOf() string
	NumberGTE() string
	NumberGT() string
	NumberLTE() string
	NumberLT() string
	ConditionThen() string
	ConditionElse() string
	ErrorFormat() string
}

func localeTemplate(l anyLocale, typ string) (string, bool) {
	f, ok := map[string]func() string{
		"false": l.False, "required": l.Required, "invalid_type": l.InvalidType, "number_any_of": l.NumberAnyOf, "number_one_of": l.NumberOneOf,
		"number_all_of": l.NumberAllOf, "number_not": l.NumberNot, "missing_dependency": l.MissingDependency, "internal": l.Internal, "const": l.Const,
		"enum": l.Enum, "array_no_additional_items": l.ArrayNoAdditionalItems, "array_min_items": l.ArrayMinItems, "array_max_items": l.ArrayMaxItems,
		"unique": l.Unique, "contains": l.ArrayContains, "array_min_properties": l.ArrayMinProperties, "array_max_properties": l.ArrayMaxProperties,
		"additional_property_not_allowed": l.AdditionalPropertyNotAllowed, "invalid_property_name": l.InvalidPropertyName, "string_gte": l.StringGTE,
		"string_lte": l.StringLTE, "pattern": l.DoesNotMatchPattern, "format": l.DoesNotMatchFormat, "multiple_of": l.MultipleOf, "number_gte": l.NumberGTE,
		"number_gt": l.NumberGT, "number_lte": l.NumberLTE, "number_lt": l.NumberLT, "condition_then": l.ConditionThen, "condition_else": l.ConditionElse,
	}[typ]
	if !ok {
		return "", false
	}
	return f(), true
}

func typeName(e gjs.ResultError) string {
	n := fmt.Sprintf("%T", e)
	return n[strings.LastIndexByte(n, '.')+1:]
}

// the documented Go type of every error type
var goTypes = map[string]string{
	"false": "FalseError", "required": "RequiredError", "invalid_type": "InvalidTypeError", "number_any_of": "NumberAnyOfError",
	"number_one_of": "NumberOneOfError", "number_all_of": "NumberAllOfError", "number_not": "NumberNotError", "missing_dependency": "MissingDependencyError",
	"internal": "InternalError", "const": "ConstError", "enum": "EnumError", "array_no_additional_items": "ArrayNoAdditionalItemsError",
	"array_min_items": "ArrayMinItemsError", "array_max_items": "ArrayMaxItemsError", "unique": "ItemsMustBeUniqueError", "contains": "ArrayContainsError",
	"array_min_properties": "ArrayMinPropertiesError", "array_max_properties": "ArrayMaxPropertiesError",
	"additional_property_not_allowed": "AdditionalPropertyNotAllowedError", "invalid_property_name": "InvalidPropertyNameError",
	"string_gte": "StringLengthGTEError", "string_lte": "StringLengthLTEError", "pattern": "DoesNotMatchPatternError", "format": "DoesNotMatchFormatError",
	"multiple_of": "MultipleOfError", "number_gte": "NumberGTEError", "number_gt": "NumberGTError", "number_lte": "NumberLTEError",
	"number_lt": "NumberLTError", "condition_then": "ConditionThenError", "condition_else": "ConditionElseError",
}

var shoutFuncs = template.FuncMap{"shout": func(v any) string { return strings.ToUpper(fmt.Sprint(v)) + "!" }}

// render is the harness' own rendering of a description template.
func render(text string, data gjs.ErrorDetails) string {
	t, ok := renderCache[text]
	if !ok {
		t = template.Must(template.New("x").Funcs(shoutFuncs).Parse(text))
		if len(renderCache) < 1000 {
			renderCache[text] = t
		}
	}
	var b bytes.Buffer
	if err := t.Execute(&b, data); err != nil {
		panic(harnessBug("render " + err.Error()))
	}
	return b.String()
}

var renderCache = map[string]*template.Template{}

// ratDetail converts a numeric detail; approx says that it may have been rounded.
func ratDetail(v any) (r *big.Rat, approx bool) {
	switch x := v.(type) {
	case int:
		return big.NewRat(int64(x), 1), false
	case *int:
		return big.NewRat(int64(*x), 1), false
	case int64:
		return big.NewRat(x, 1), false
	case uint:
		return new(big.Rat).SetInt64(int64(x)), false
	case *big.Rat:
		return x, false
	case *big.Int:
		return new(big.Rat).SetInt(x), false
	case *big.Float:
		r, _ := x.Rat(nil)
		return r, true
	case float64:
		return new(big.Rat).SetFloat64(x), true
	case json.Number:
		return ratOf(num(x)), false
	}
	return nil, false
}

func closeTo(a, b *big.Rat) bool {
	d := new(big.Rat).Sub(a, b)
	d.Abs(d)
	m := new(big.Rat).Abs(b)
	m.Quo(m, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 50)))
	return d.Cmp(m) <= 0
}

// detailsFit reports whether the details of an observed error are those of the expected one.
func detailsFit(e gjs.ResultError, want E) bool {
	d := e.Details()
	for k, w := range want.Details {
		got, ok := d[k]
		if !ok {
			return false
		}
		switch x := w.(type) {
		case *big.Rat:
			r, approx := ratDetail(got)
			if r == nil || r.Cmp(x) != 0 && !(approx && closeTo(r, x)) {
				return false
			}
		case []string:
			gs := strings.Split(strings.Trim(fmt.Sprint(got), "[]"), ",")
			for i := range gs {
				gs[i] = strings.TrimSpace(gs[i])
			}
			ws := append([]string(nil), x...)
			sort.Strings(gs)
			sort.Strings(ws)
			if strings.Join(gs, ",") != strings.Join(ws, ",") {
				return false
			}
		default:
			if k == "allowed" {
				text := fmt.Sprint(got)
				if e.Type() == "enum" {
					text = "[" + text + "]"
				}
				v, err := decode(text)
				if err != nil || !equalJSON(v, w) {
					return false
				}
			} else if fmt.Sprint(got) != fmt.Sprint(w) {
				return false
			}
		}
	}
	if e.Type() == "unique" {
		a, _ := e.Value().([]any)
		i, ok1 := d["i"].(int)
		j, ok2 := d["j"].(int)
		if !ok1 || !ok2 || i < 0 || j < 0 || i >= len(a) || j >= len(a) || i == j || !equalJSON(fromLib(a[i]), fromLib(a[j])) {
			return false
		}
	}
	return true
}

func fromLib(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	return mustDecode(string(b))
}

// saturate reports whether every left node can be matched to its own right node.
func saturate(n, m int, edge func(i, j int) bool) bool {
	owner := make([]int, m)
	for j := range owner {
		owner[j] = -1
	}
	var try func(i int, seen []bool) bool
	try = func(i int, seen []bool) bool {
		for j := 0; j < m; j++ {
			if seen[j] || !edge(i, j) {
				continue
			}
			seen[j] = true
			if owner[j] < 0 || try(owner[j], seen) {
				owner[j] = i
				return true
			}
		}
		return false
	}
	for i := 0; i < n; i++ {
		if !try(i, make([]bool, m)) {
			return false
		}
	}
	return true
}

type reportStep struct {
	Locale int  `json:"locale"` // 0 default, the others custom
	Schema int  `json:"schema"`
	Inst   JV   `json:"instance"`
	Added  []JV `json:"added"` // errors added to the result: {"path":[…]|null,"details":{…}|null,"format":n,"value":…}
}

type reportCase struct {
	Draft   int          `json:"draft"`
	Schemas []JV         `json:"schemas"`
	Steps   []reportStep `json:"steps"`
}

var addedFormats = []string{"plain text", "{{.a}} is wrong", "at {{.context}}", "{{shout .a}} and {{.b}}", "<{{.b}}>", "{{.a}}",
	"The value of this member is not acceptable to the application because of {{.a}}",
	"The value of this member is not acceptable to the application because of {{.b}}",
	"The value of this member is not acceptable to the application because OF {{.b}}",
	"The value of this member is not acceptable to the application because of  {{.b}}",
	"This value of this member is not acceptable to the application because of {{.b}}",
	"The value of this {{.a}} is not acceptable to the application because of {{.b}}",
	"The value of this {{.b}} is not acceptable to the application because of {{.a}}",
	"PLAIN text", "plain text ", "plain text.", "plain", "", "{{.b}}", "{{ .a }}", "{{ .b }}", "{{.a}}{{.b}}", "{{.b}}{{.a}}"}

type customError struct{ gjs.ResultErrorFields }

// the Go types an added error may have
var addedKinds = []func() gjs.ResultError{
	func() gjs.ResultError { return &customError{} },
	func() gjs.ResultError { return &gjs.RequiredError{} },
	func() gjs.ResultError { return &gjs.InvalidTypeError{} },
	func() gjs.ResultError { return &gjs.InternalError{} },
	func() gjs.ResultError { return &gjs.FalseError{} },
	func() gjs.ResultError { return &gjs.NumberAnyOfError{} },
	func() gjs.ResultError { return &gjs.ResultErrorFields{} },
}

func genC16(r R) reportCase {
	c := reportCase{Draft: pick(r, []int{Hybrid, D7, D6, D4})}
	var pool [][]JV
	for i := r.between(1, 2); i > 0; i-- {
		sch, insts := r.spread(c.Draft, 4)
		c.Schemas = append(c.Schemas, JV{sch})
		pool = append(pool, insts)
	}
	for i := r.between(1, 4); i > 0; i-- {
		st := reportStep{Locale: r.n(6), Schema: r.n(len(c.Schemas))}
		st.Inst = pick(r, pool[st.Schema])
		for r.p(30) {
			a := obj{"format": num(itoa(r.n(len(addedFormats)))), "value": r.value(1)}
			if r.p(70) {
				p := arr{}
				for k := r.between(1, 3); k > 0; k-- {
					p = append(p, r.name(20))
				}
				a["path"] = p
			}
			if r.p(70) {
				d := obj{"a": r.str(), "b": r.str()}
				if r.p(20) {
					d["context"] = "mine"
				}
				a["details"] = d
			}
			if r.p(40) {
				a["preset"] = r.str()
			}
			if r.p(40) {
				a["kind"] = num(itoa(r.n(len(addedKinds))))
			}
			st.Added = append(st.Added, JV{a})
		}
		c.Steps = append(c.Steps, st)
	}
	return c
}

func checkOneReport(loc anyLocale, e gjs.ResultError) error {
	typ := e.Type()
	want, ok := localeTemplate(loc, typ)
	if !ok {
		return violationf("undocumented error type %q", typ)
	}
	if g := typeName(e); g != goTypes[typ] {
		return violationf("error of type %q is a %s", typ, g)
	}
	if e.DescriptionFormat() != want {
		return violationf("%s: DescriptionFormat is %q, the locale says %q", typ, e.DescriptionFormat(), want)
	}
	dotted := e.Context().String()
	parts := strings.Split(e.Context().String(sep), sep)
	if parts[0] != "(root)" || dotted != strings.Join(parts, ".") {
		return violationf("%s: context %q", typ, dotted)
	}
	for _, del := range []string{"", "/", ".", " > ", "%s", "é"} {
		if got := e.Context().String(del); got != strings.Join(parts, del) {
			return violationf("%s: the context with delimiter %q is %q, its parts are %q", typ, del, got, parts)
		}
	}
	field := "(root)"
	if len(parts) > 1 {
		field = strings.Join(parts[1:], ".")
	}
	if e.Field() != field {
		return violationf("%s: Field() is %q, want %q", typ, e.Field(), field)
	}
	d := e.Details()
	if d["field"] != field || d["context"] != dotted {
		return violationf("%s: details field=%v context=%v, want %q and %q", typ, d["field"], d["context"], field, dotted)
	}
	if got, want := e.Description(), render(want, d); got != want {
		return violationf("%s: description %q, want %q", typ, got, want)
	}
	return checkString(loc, e, field, dotted)
}

func checkString(loc anyLocale, e gjs.ResultError, field, dotted string) error {
	s := e.String()
	ef := loc.ErrorFormat()
	if !strings.Contains(ef, sep) {
		if want := render(ef, gjs.ErrorDetails{"field": field, "context": dotted, "description": e.Description()}); s != want {
			return violationf("%s: String() is %q, want %q", e.Type(), s, want)
		}
		return nil
	}
	ps := strings.Split(s, sep)
	if len(ps) < 5 || ps[0] != strings.Split(ef, sep)[0] || ps[1] != field || ps[2] != dotted || strings.Join(ps[3:len(ps)-1], sep) != e.Description() {
		return violationf("%s: String() is %q; field %q context %q description %q", e.Type(), s, field, dotted, e.Description())
	}
	v, err := decode(ps[len(ps)-1])
	if err != nil || canon(v) != canonAny(e.Value()) {
		return violationf("%s: String() renders the value as %q, it is %s", e.Type(), ps[len(ps)-1], canonAny(e.Value()))
	}
	return nil
}

func checkC16(c *reportCase, s *S) error {
	oldL := gjs.Locale
	gjs.ErrorTemplateFuncs = shoutFuncs
	defer func() { gjs.Locale = oldL }()
	var schemas []*gjs.Schema
	for _, d := range c.Schemas {
		sl := gjs.NewSchemaLoader()
		sl.Draft = libDraft(c.Draft)
		sch, err := sl.Compile(gjs.NewStringLoader(encode(d.V)))
		if err != nil {
			return violationf("a well-formed schema does not compile: %v", err)
		}
		schemas = append(schemas, sch)
	}
	type past struct {
		res   *gjs.Result
		n     int
		descr []string
	}
	var history []past
	locales := map[int]bool{}
	total := 0
	for i, st := range c.Steps {
		var loc anyLocale
		if st.Locale == 0 {
			l := gjs.DefaultLocale{}
			gjs.Locale = l
			loc = l
		} else {
			l := testLocale{tag: st.Locale}
			gjs.Locale = l
			loc = l
		}
		w := newWorld()
		sch := c.Schemas[st.Schema].V
		w.addDoc("", sch, c.Draft)
		o := w.eval(sch, c.Draft, st.Inst.V, []string{"(root)"})
		res, err := schemas[st.Schema].Validate(gjs.NewStringLoader(encode(st.Inst.V)))
		if err != nil {
			return violationf("validation returned an error: %v", err)
		}
		errs := append([]gjs.ResultError(nil), res.Errors()...)
		for _, e := range errs {
			s.label("type=%s", e.Type())
			if err := checkOneReport(loc, e); err != nil {
				return violationf("step %d: %v", i, err)
			}
		}
		if len(errs) > 0 {
			locales[st.Locale] = true
			total += len(errs)
		}
		// the details belong to the violated constraints
		want := append(append([]E(nil), o.must...), o.may...)
		ok, wk := make([]string, len(errs)), make([]string, len(want))
		for k, e := range errs {
			ok[k] = obsKey(e)
		}
		for k, e := range want {
			wk[k] = e.key()
		}
		fit := func(a, b int) bool { return ok[a] == wk[b] && detailsFit(errs[a], want[b]) }
		if !saturate(len(errs), len(want), fit) || !saturate(len(o.must), len(errs), func(b, a int) bool { return fit(a, b) }) {
			for a := range errs {
				any := false
				for b := range want {
					any = any || fit(a, b)
				}
				if !any {
					return violationf("step %d: the details of this error are wrong: %s %v", i, short(ok[a]), errs[a].Details())
				}
			}
			return violationf("step %d: reported errors with their details do not correspond to the violated constraints: %v", i, short(fmt.Sprint(errs)))
		}
		// errors added by the caller
		for k, ad := range st.Added {
			a := ad.V.(obj)
			var e gjs.ResultError = &customError{}
			if n, ok := a["kind"].(num); ok {
				e = addedKinds[mustAtoi(string(n))]()
			}
			e.SetType("custom")
			preset, _ := a["preset"].(string)
			if preset != "" {
				e.SetDescription(preset)
				e.SetDetails(gjs.ErrorDetails{"mine": preset})
			}
			e.SetValue(a["value"])
			text := addedFormats[mustAtoi(string(a["format"].(num)))]
			e.SetDescriptionFormat(text)
			dotted, field := "", ""
			if p, ok := a["path"].(arr); ok {
				ctx := gjs.NewJsonContext("(root)", nil)
				dotted = "(root)"
				for _, x := range p {
					ctx = gjs.NewJsonContext(x.(string), ctx)
					dotted += "." + x.(string)
				}
				field = strings.TrimPrefix(dotted, "(root).")
				e.SetContext(ctx)
			}
			ctx := e.Context()
			var d gjs.ErrorDetails
			data := gjs.ErrorDetails{}
			if dotted != "" {
				data["context"] = dotted
			}
			if m, ok := a["details"].(obj); ok {
				d = gjs.ErrorDetails{}
				for x, v := range m {
					d[x] = v
					data[x] = v
				}
			}
			if a["details"] == nil && strings.Contains(text, "shout") {
				text = "plain text"
				e.SetDescriptionFormat(text)
			}
			res.AddError(e, d)
			now := res.Errors()
			if res.Valid() || len(now) != len(errs)+k+1 || now[len(now)-1] != e {
				return violationf("step %d: AddError did not append the error (valid=%v, %d errors)", i, res.Valid(), len(now))
			}
			for x := range errs {
				if now[x] != errs[x] {
					return violationf("step %d: AddError replaced an earlier error", i)
				}
			}
			if got, want := e.Description(), render(text, data); got != want {
				return violationf("step %d: added error described as %q, want %q", i, got, want)
			}
			if err := checkString(loc, e, field, dotted); err != nil {
				return violationf("step %d: added error: %v", i, err)
			}
			if e.Type() != "custom" || e.DescriptionFormat() != text || e.Context() != ctx || e.Field() != field || canonAny(e.Value()) != canon(a["value"]) {
				return violationf("step %d: the added error has type %q, format %q, field %q, value %v", i, e.Type(), e.DescriptionFormat(), e.Field(), e.Value())
			}
			if preset != "" && e.Details()["mine"] != any(preset) {
				return violationf("step %d: the details set on the added error are %v", i, e.Details())
			}
			if ctx != nil {
				for _, del := range []string{"", "/", " > "} {
					if got, want := ctx.String(del), strings.Join(strings.Split(ctx.String(sep), sep), del); got != want {
						return violationf("step %d: the context of the added error with delimiter %q is %q, want %q", i, del, got, want)
					}
				}
			}
			s.label("added error")
		}
		// earlier results are as they were
		for h, p := range history {
			if len(p.res.Errors()) != p.n {
				return violationf("step %d: the result of step %d changed", i, h)
			}
			for x, e := range p.res.Errors() {
				if e.Description() != p.descr[x] {
					return violationf("step %d: a description of step %d changed from %q to %q", i, h, p.descr[x], e.Description())
				}
			}
		}
		p := past{res: res, n: len(res.Errors())}
		for _, e := range res.Errors() {
			p.descr = append(p.descr, e.Description())
		}
		history = append(history, p)
	}
	if len(locales) > 1 && total > 2 {
		s.nt()
	}
	return nil
}

func init() {
	register("C16", 20000,
		"1-4 validations with random schemas and instances under switching locales (the default one and five custom ones, one with template functions, some with templates that are alike for long stretches or but for case), some results with errors added by the caller; every error's metadata, rendering and details compared with the model; non-trivial: errors under at least two locales, three errors or more",
		genC16, checkC16)
}
