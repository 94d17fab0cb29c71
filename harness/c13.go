package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"net/http"
	"path/filepath"
	"strconv"
	"strings"
	"unicode/utf8"

	gjs "github.com/xeipuuv/gojsonschema"
)

// blob is a byte string inside a case: a JSON string if it is valid UTF-8, else a list of bytes.
type blob []byte

func (b blob) MarshalJSON() ([]byte, error) {
	if utf8.Valid(b) {
		var w bytes.Buffer
		e := json.NewEncoder(&w)
		e.SetEscapeHTML(false)
		err := e.Encode(string(b))
		return w.Bytes(), err
	}
	is := make([]int, len(b))
	for i, c := range b {
		is[i] = int(c)
	}
	return json.Marshal(is)
}

func (b *blob) UnmarshalJSON(t []byte) error {
	if len(t) > 0 && t[0] == '"' {
		var s string
		err := json.Unmarshal(t, &s)
		*b = blob(s)
		return err
	}
	var is []int
	if err := json.Unmarshal(t, &is); err != nil {
		return err
	}
	*b = blob{}
	for _, i := range is {
		*b = append(*b, byte(i))
	}
	return nil
}

type crashCase struct {
	Draft    int    `json:"draft"`
	Via      int    `json:"via"`
	Validate bool   `json:"validate"` // SchemaLoader.Validate
	Entry    string `json:"entry"`    // newschema, compile, addschema, addschemas, validate, url
	SKind    string `json:"skind"`
	DKind    string `json:"dkind"`
	URL      string `json:"url"` // odd URL for addschema and url
	Schema   blob   `json:"schema"`
	Remote   blob   `json:"remote,omitempty"` // served as http://remote.invalid/doc.json
	Docs     []blob `json:"docs"`
	Odd      int    `json:"odd"` // for the Go loader: which value that cannot be marshalled
}

// ---------------------------------------------------------------------------------------------
// Odd values

var oddNumbers = []string{"0", "-0", "1", "-1", "0.5", "1.0", "2.0", "1e2", "1E+2", "1e-2", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
	"18446744073709551616", "4294967296", "2147483648", "1e400", "-1e400", "1e-400", "1e999", "1e19", "1e18", "1.5e300", "123456789012345678901234567890.123456789",
	"1e1000001", "-1e1000001", "1e-1000001", "0e1000001", "1e99999999999999999999", "-1e-99999999999999999999", "0e99999999999999999999", "1.000000000000000000000000000001",
	"1e9999", "3e-9999"}

var oddStrings = []string{"", " ", "a", "#", "#/", "##", "#/#", "/", "//", "///", "?", "?#", ":", "::", "%", "%zz", "#%zz", "#/%zz", "#/~", "#/~2", "#/~0~1", "#/definitions", "#/definitions/a", "#/definitions/a/b/c",
	"#/properties", "#/properties/a", "#/0", "#/items/0", "#/items/-1", "#/items/99999999999999999999", "#/allOf/0", "#/type", "#a", "#/definitions//", "http://", "http://[", "http://[::1", "http://a b/", "http://h.invalid/%zz",
	"http://remote.invalid/doc.json", "http://remote.invalid/doc.json#/definitions/a", "http://remote.invalid/doc.json#a", "http://nowhere.invalid/x", "file://", "file:///", "file:///nonexistent-verif/x.json", "file:x", "file:///%zz", "ftp://x.invalid/y", "urn:x:y", "mailto:a@b", "javascript:x", "http:///x", "http:x", "https:",
	"http://json-schema.org/draft-04/schema", "http://json-schema.org/draft-04/schema#", "http://json-schema.org/draft-06/schema#", "http://json-schema.org/draft-07/schema#", "http://json-schema.org/draft-07/schema#/definitions/nonNegativeInteger", "http://json-schema.org/draft-07/schema#/definitions/x", "http://json-schema.org/draft-03/schema#", "http://json-schema.org/schema", "https://json-schema.org/draft-07/schema#",
	"string", "integer", "number", "object", "array", "null", "boolean", "any", "foo", "String", "date-time", "email", "hostname", "ipv4", "ipv6", "uri", "uri-reference", "iri", "uri-template", "regex", "json-pointer", "relative-json-pointer", "date", "time", "uuid", "idn-email",
	"(", ")", "[", "a{2,1}", "(?<", "(?i)", "\\", "^.*$", "\\pN", "\\x{10FFFF}", "[[:foo:]]", "(a+)+$", "a{1001}", "\x00", "\u2028", "\U0001F600", "é", "{{", "{{.x}}", "{{template \"x\"}}", "%s%d%n", "true"}

func (r R) oddValue(depth int) any {
	switch r.weighted(4, 4, 22, 26, 10, 12, 22) {
	case 0:
		return nil
	case 1:
		return r.p(50)
	case 2:
		return num(pick(r, oddNumbers))
	case 3:
		return pick(r, oddStrings)
	case 4:
		a := arr{}
		for i := r.n(4); i > 0; i-- {
			if depth > 0 {
				a = append(a, r.oddValue(depth-1))
			} else {
				a = append(a, pick(r, oddStrings))
			}
		}
		return a
	case 5:
		o := obj{}
		for i := r.n(3); i > 0; i-- {
			k := pick(r, []string{"a", "b", "", "0", "$ref", "a/b", "~", "^a", "("})
			if depth > 0 {
				o[k] = r.oddValue(depth - 1)
			} else {
				o[k] = nil
			}
		}
		return o
	}
	if depth <= 0 {
		return obj{}
	}
	return r.soup(depth - 1)
}

var allKeywords = []string{"$ref", "$id", "id", "$schema", "definitions", "title", "description", "default", "type", "properties", "patternProperties", "additionalProperties", "propertyNames",
	"minProperties", "maxProperties", "required", "dependencies", "items", "additionalItems", "minItems", "maxItems", "uniqueItems", "contains", "multipleOf", "minimum", "maximum",
	"exclusiveMinimum", "exclusiveMaximum", "minLength", "maxLength", "pattern", "format", "const", "enum", "allOf", "anyOf", "oneOf", "not", "if", "then", "else", "examples", "x-unknown"}

// soup draws an object of keywords, the values of which mostly have a plausible shape.
func (r R) soup(depth int) obj {
	m := obj{}
	for i := r.between(1, 4); i > 0; i-- {
		k := pick(r, allKeywords)
		if (k == "$id" || k == "id") && r.p(70) {
			continue
		}
		m[k] = r.soupValue(k, depth)
	}
	return m
}

// manyNames is a long list of distinct strings.
func (r R) manyNames() arr {
	a := arr{}
	for i := r.between(5, pick(r, []int{10, 40, 100, 300})); i > 0; i-- {
		a = append(a, "x"+itoa(i))
	}
	return a
}

func (r R) soupValue(k string, depth int) any {
	if r.p(8) || depth < 0 {
		return r.oddValue(depth)
	}
	sub := func() any {
		if depth <= 0 && r.p(80) {
			return obj{}
		}
		if r.p(5) || depth <= 0 {
			return r.oddValue(depth - 1)
		}
		return r.soup(depth - 1)
	}
	switch k {
	case "$ref":
		return pick(r, []string{"#", "#/definitions/a", "#/definitions/b", "#/properties/a", "#/items", "#/items/0", "#/allOf/0", "#/not", "#/definitions", "http://remote.invalid/doc.json#/definitions/a",
			"http://remote.invalid/doc.json", "http://json-schema.org/draft-07/schema#", "http://json-schema.org/draft-04/schema#/definitions/positiveInteger", "#/const", "#/enum/0", "#/default", "#a"})
	case "$schema":
		return pick(r, []string{draftURL[D4], draftURL[D6], draftURL[D7], "http://json-schema.org/draft-04/schema", "http://remote.invalid/doc.json"})
	case "definitions", "properties", "patternProperties", "dependencies":
		o := obj{}
		for i := r.n(4); i > 0; i-- {
			name := pick(r, []string{"a", "b", "c", "", "0", "const", "$ref", "properties", "a/b", "^a", "."})
			if k == "dependencies" && r.p(8) {
				o[name] = r.manyNames()
			} else if k == "dependencies" && r.p(40) {
				o[name] = arr{"a", r.oddValue(0)}
			} else {
				o[name] = sub()
			}
		}
		return o
	case "additionalProperties", "propertyNames", "additionalItems", "contains", "not", "if", "then", "else":
		return sub()
	case "items":
		if r.p(50) {
			return sub()
		}
		fallthrough
	case "allOf", "anyOf", "oneOf":
		a := arr{}
		for i := r.n(4); i > 0; i-- {
			a = append(a, sub())
		}
		return a
	case "type":
		if r.p(60) {
			return pick(r, allTypes)
		}
		return arr{pick(r, allTypes), r.oddValue(0)}
	case "required":
		if r.p(6) {
			return r.manyNames()
		}
		return arr{"a", pick(r, oddStrings)}
	case "enum":
		if r.p(6) {
			return r.manyNames()
		}
		return arr{r.oddValue(1), r.oddValue(1)}
	case "const", "default", "examples", "x-unknown":
		return r.oddValue(depth)
	case "pattern", "format", "title", "description":
		return pick(r, oddStrings)
	case "uniqueItems":
		return true
	case "minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties":
		if r.p(70) {
			return num(itoa(r.n(4)))
		}
	}
	return num(pick(r, oddNumbers))
}

// spots lists the containers of a value.
func spots(v any, acc *[]any) {
	switch x := v.(type) {
	case arr:
		*acc = append(*acc, x)
		for _, e := range x {
			spots(e, acc)
		}
	case obj:
		*acc = append(*acc, x)
		for _, k := range sortedKeys(x) {
			spots(x[k], acc)
		}
	}
}

// mutate changes the value in one place.
func (r R) mutate(v any) any {
	var cs []any
	spots(v, &cs)
	if len(cs) == 0 || r.p(2) {
		return r.oddValue(2)
	}
	switch x := pick(r, cs).(type) {
	case arr:
		if len(x) > 0 {
			i := r.n(len(x))
			if r.p(20) {
				x[i] = arr{x[i]}
			} else {
				x[i] = r.oddValue(1)
			}
		}
	case obj:
		ks := sortedKeys(x)
		switch r.n(6) {
		case 0, 1: // odd value for a member
			if len(ks) > 0 {
				x[pick(r, ks)] = r.oddValue(1)
			}
		case 2: // another keyword
			k := pick(r, allKeywords)
			x[k] = r.soupValue(k, 1)
		case 3: // the value of another member
			if len(ks) > 1 {
				x[pick(r, ks)] = clone(x[pick(r, ks)])
			}
		case 4: // renamed
			if len(ks) > 0 {
				k := pick(r, ks)
				v := x[k]
				delete(x, k)
				x[pick(r, allKeywords)] = v
			}
		case 5: // wrapped or unwrapped
			if len(ks) > 0 {
				k := pick(r, ks)
				switch y := x[k].(type) {
				case arr:
					if len(y) > 0 && r.p(60) {
						x[k] = y[0]
					} else {
						x[k] = obj{"a": y}
					}
				case obj:
					yk := sortedKeys(y)
					if len(yk) > 0 && r.p(50) {
						x[k] = y[pick(r, yk)]
					} else {
						x[k] = arr{y}
					}
				default:
					x[k] = arr{y}
				}
			}
		}
	}
	return v
}

// damage changes the text byte by byte.
func (r R) damageBytes(t []byte) []byte {
	b := append([]byte(nil), t...)
	for i := r.between(1, 3); i > 0; i-- {
		at := 0
		if len(b) > 0 {
			at = r.n(len(b))
		}
		switch r.n(6) {
		case 0:
			b = b[:at]
		case 1:
			if len(b) > 0 {
				b[at] = byte(r.n(256))
			}
		case 2:
			if len(b) > 0 {
				b = append(b[:at], b[at+1:]...)
			}
		case 3, 4:
			tok := pick(r, []string{"{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "\\ud800", "\\udc00\\ud800", "\\u0000", "\x00", "\xff", "\xc3", "\xed\xa0\x80", "\xef\xbb\xbf", "e", "E", ".", "-", "+", "0", "9", "1e9", "null", "true", "tru", "NaN", "Infinity", "//", "/*", "'", " ", "\n", "\t",
				"{\"a\":1,\"a\":{}}", "\"$ref\":\"#\",", "\"type\":", "[[[[[[[[", "}}}}", "\u2028"})
			b = append(b[:at], append([]byte(tok), b[at:]...)...)
		default:
			to := at + r.n(len(b)-at+1)
			b = append(b, b[at:to]...)
		}
	}
	return b
}

// deep draws a deeply nested text.
func (r R) deep(schema, recursive bool) []byte {
	n := pick(r, []int{30, 100, 300, 1000, 3000, 9990, 10001, 30000})
	if recursive {
		// enum and const write the value out again at every level
		n = pick(r, []int{30, 100, 300, 700, 10001, 30000})
	}
	if schema {
		n = pick(r, []int{30, 100, 300, 1000, 20000})
	}
	open, shut := "[", "]"
	core := "1"
	if schema {
		k := pick(r, []string{`{"allOf":[`, `{"not":`, `{"items":`, `{"properties":{"a":`, `{"definitions":{"a":`, `{"anyOf":[`, `{"if":`, `{"x":`, `{"const":`, `{"dependencies":{"a":`, `{"additionalProperties":`, "[", `{"items":[`})
		open = k
		shut = ""
		for i := len(k) - 1; i >= 0; i-- {
			switch k[i] {
			case '{':
				shut += "}"
			case '[':
				shut += "]"
			}
		}
		core = pick(r, []string{"{}", "true", "1", `{"type":"array"}`, `{"$ref":"#/definitions/a"}`})
	} else {
		switch r.n(3) {
		case 0:
			open, shut = `{"a":`, "}"
		case 1:
			open, shut = `[{"a":`, "}]"
		}
	}
	if r.p(10) {
		shut = ""
	}
	return []byte(strings.Repeat(open, n) + core + strings.Repeat(shut, n))
}

func (r R) randomBytes() []byte {
	b := make([]byte, r.n(24))
	for i := range b {
		if r.p(70) {
			b[i] = "{}[]\":,0123456789eE+-.truefalsn \\u\n"[r.n(35)]
		} else {
			b[i] = byte(r.n(256))
		}
	}
	return b
}

var crashKinds = []string{"string", "bytes", "reader", "writer", "raw", "go", "file", "fs", "http"}

func genC13(r R) crashCase {
	d, via := genDraft(r)
	c := crashCase{Draft: d, Via: via, Validate: r.p(15), Odd: r.n(12)}
	c.Entry = pick(r, []string{"newschema", "newschema", "compile", "compile", "compile", "compile", "compile", "addschema", "addschema", "addschemas", "validate", "validate", "url"})
	c.SKind, c.DKind = pick(r, crashKinds), pick(r, crashKinds)
	if r.p(3) {
		c.DKind = "oddgo"
	}
	if r.p(3) {
		c.SKind = "oddgo"
	}
	c.URL = pick(r, oddStrings)
	if c.Entry == "addschema" && r.p(60) {
		c.URL = "http://added.invalid/x.json"
	}
	var schema any
	w := newWorld()
	var sample []any
	plain := func(depth int) any {
		g := newSgen(r, d)
		g.w[fFmt] = 8
		g.formats = builtinFormatNames
		g.budget = 16
		if r.p(50) {
			g.refPct = 15
			doc := g.refDoc(depth)
			w.addDoc("", doc, d)
			r.assign(w, g.refs, r.targets(w, "", doc, d, 0), nil)
			return doc
		}
		s := g.schema(depth)
		w.addDoc("", s, d)
		return s
	}
	switch r.weighted(45, 30, 5, 12, 3, 2) {
	case 0:
		schema = plain(r.between(1, 3))
		for i := 0; i < 2; i++ {
			sample = append(sample, newIgen(r, w, d).instance(schema, 3))
		}
		schema = clone(schema)
		for i := r.between(1, 2); i > 0; i-- {
			schema = r.mutate(schema)
		}
		c.Schema = blob(r.spellText(schema))
	case 1:
		m := r.soup(3)
		if r.p(50) {
			m["definitions"] = obj{"a": r.soup(1), "b": r.soup(1)}
		}
		if r.p(6) {
			m["$schema"] = r.oddValue(1)
		}
		schema = m
		c.Schema = blob(r.spellText(schema))
	case 2:
		schema = r.oddValue(3)
		c.Schema = blob(encode(schema))
	case 3:
		c.Schema = r.damageBytes([]byte(r.spellText(withDraft(clone(plain(r.between(1, 2))), d, via))))
	case 4:
		c.Schema = r.randomBytes()
	default:
		c.Schema = r.deep(true, false)
		c.Validate = false // takes long: the meta-schema is applied at every level
	}
	if bytes.Contains(c.Schema, []byte("remote.invalid")) || r.p(5) {
		switch r.n(4) {
		case 0:
			c.Remote = r.damageBytes([]byte(encode(r.soup(1))))
		case 1:
			c.Remote = blob(encode(r.oddValue(2)))
		default:
			c.Remote = blob(encode(obj{"definitions": obj{"a": r.soup(1)}, "allOf": arr{r.soup(1)}}))
		}
	}
	for i := 0; i < 3; i++ {
		var doc []byte
		switch r.weighted(30, 20, 25, 12, 5, 3) {
		case 0:
			if i < len(sample) {
				doc = []byte(r.spellText(sample[i]))
			} else {
				doc = []byte(encode(r.value(2)))
			}
		case 1:
			doc = []byte(encode(r.value(3)))
		case 2:
			doc = []byte(encode(r.oddValue(3)))
		case 3:
			doc = r.damageBytes([]byte(encode(r.value(2))))
		case 4:
			doc = r.randomBytes()
		default:
			doc = r.deep(false, bytes.Contains(c.Schema, []byte("ref")) || bytes.Contains(c.Schema, []byte("\\u")))
		}
		c.Docs = append(c.Docs, doc)
	}
	return c
}

var builtinFormatNames = []string{"date", "time", "date-time", "hostname", "email", "idn-email", "ipv4", "ipv6", "uri", "uri-reference", "iri", "iri-reference", "uri-template", "uuid", "regex", "json-pointer", "relative-json-pointer"}

// ---------------------------------------------------------------------------------------------
// Oracles

// jsonPrefix decides whether the text starts with a complete JSON value. Where the grammar leaves
// it open how far a number extends the answer is yes.
func jsonPrefix(b []byte) bool {
	i := 0
	ws := func() {
		for i < len(b) && (b[i] == ' ' || b[i] == '\t' || b[i] == '\n' || b[i] == '\r') {
			i++
		}
	}
	isDigit := func() bool { return i < len(b) && b[i] >= '0' && b[i] <= '9' }
	str := func() bool {
		if i >= len(b) || b[i] != '"' {
			return false
		}
		for i++; i < len(b); i++ {
			switch c := b[i]; {
			case c == '"':
				i++
				return true
			case c < 0x20:
				return false
			case c == '\\':
				i++
				if i >= len(b) {
					return false
				}
				switch b[i] {
				case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
				case 'u':
					for k := 0; k < 4; k++ {
						i++
						if i >= len(b) || !strings.ContainsRune("0123456789abcdefABCDEF", rune(b[i])) {
							return false
						}
					}
				default:
					return false
				}
			}
		}
		return false
	}
	// iterative, since the nesting may be deep; stack of '[' and '{'
	var stack []byte
	for {
		// a value
		ws()
		if i >= len(b) {
			return false
		}
		opened := false
		switch c := b[i]; {
		case c == '"':
			if !str() {
				return false
			}
		case c == '{' || c == '[':
			i++
			stack = append(stack, c)
			ws()
			if i < len(b) && (c == '{' && b[i] == '}' || c == '[' && b[i] == ']') {
				i++
				stack = stack[:len(stack)-1]
			} else {
				opened = true
			}
		case c == 't' || c == 'f' || c == 'n':
			word := map[byte]string{'t': "true", 'f': "false", 'n': "null"}[c]
			if !bytes.HasPrefix(b[i:], []byte(word)) {
				return false
			}
			i += len(word)
		case c == '-' || c >= '0' && c <= '9':
			if c == '-' {
				i++
			}
			if !isDigit() {
				return false
			}
			if b[i] == '0' {
				i++
			} else {
				for isDigit() {
					i++
				}
			}
			if len(stack) == 0 {
				return true
			}
			if i < len(b) && b[i] == '.' {
				i++
				if !isDigit() {
					return false
				}
				for isDigit() {
					i++
				}
			}
			if i < len(b) && (b[i] == 'e' || b[i] == 'E') {
				i++
				if i < len(b) && (b[i] == '+' || b[i] == '-') {
					i++
				}
				if !isDigit() {
					return false
				}
				for isDigit() {
					i++
				}
			}
		default:
			return false
		}
		// what follows
		for !opened {
			if len(stack) == 0 {
				return true
			}
			ws()
			if i >= len(b) {
				return false
			}
			top := stack[len(stack)-1]
			c := b[i]
			i++
			if c == ',' {
				break
			}
			if top == '{' && c == '}' || top == '[' && c == ']' {
				stack = stack[:len(stack)-1]
				continue
			}
			return false
		}
		if len(stack) > 0 && stack[len(stack)-1] == '{' {
			ws()
			if !str() {
				return false
			}
			ws()
			if i >= len(b) || b[i] != ':' {
				return false
			}
			i++
		}
	}
}

// mayLoop over-approximates: could validation against the document follow references for ever
// without descending into the instance?
func mayLoop(doc any) bool {
	hasID := false
	var nodes []obj
	var walk func(v any)
	walk = func(v any) {
		switch x := v.(type) {
		case arr:
			for _, e := range x {
				walk(e)
			}
		case obj:
			nodes = append(nodes, x)
			for k, e := range x {
				if _, isStr := e.(string); isStr && (k == "id" || k == "$id") {
					hasID = true
				}
				walk(e)
			}
		}
	}
	walk(doc)
	unknown := false
	target := func(ref string) any {
		if ref == "" || ref == "#" {
			return doc
		}
		if strings.HasPrefix(ref, "http://json-schema.org/") || strings.HasPrefix(ref, "http://remote.invalid/doc.json") || strings.HasPrefix(ref, "http://nowhere.invalid/") {
			return nil // not in this document
		}
		if !strings.HasPrefix(ref, "#/") || strings.ContainsAny(ref, "%~?") {
			unknown = true
			return nil
		}
		v := doc
		for _, tok := range strings.Split(ref[2:], "/") {
			switch x := v.(type) {
			case obj:
				v = x[tok]
			case arr:
				n, err := strconv.Atoi(tok)
				if err != nil || n < 0 || n >= len(x) {
					return nil
				}
				v = x[n]
			default:
				return nil
			}
		}
		return v
	}
	color := map[uintptr]int{}
	var visit func(v any) bool
	visit = func(v any) bool {
		m, ok := v.(obj)
		if !ok {
			if a, ok := v.(arr); ok {
				for _, e := range a {
					if visit(e) {
						return true
					}
				}
			}
			return false
		}
		id := mapID(m)
		switch color[id] {
		case 1:
			return true
		case 2:
			return false
		}
		color[id] = 1
		if s, ok := m["$ref"].(string); ok {
			if hasID {
				unknown = true
			}
			if visit(target(s)) {
				return true
			}
		} else {
			for _, k := range []string{"allOf", "anyOf", "oneOf", "not", "if", "then", "else"} {
				if visit(m[k]) {
					return true
				}
			}
			if d, ok := m["dependencies"].(obj); ok {
				for _, e := range d {
					if visit(e) {
						return true
					}
				}
			}
		}
		color[id] = 2
		return false
	}
	for _, m := range nodes {
		if visit(m) {
			return true
		}
	}
	return unknown
}

// hasRefString: is there a $ref anywhere that contains the text?
func hasRefString(v any, text string) bool {
	switch x := v.(type) {
	case arr:
		for _, e := range x {
			if hasRefString(e, text) {
				return true
			}
		}
	case obj:
		if s, ok := x["$ref"].(string); ok && strings.Contains(s, text) {
			return true
		}
		for _, e := range x {
			if hasRefString(e, text) {
				return true
			}
		}
	}
	return false
}

// heavy: a chain of references that branches at every step, or arithmetic with very large
// exponents, could take long without looping.
func heavy(doc any) bool {
	refs, size, num := 0, 0, 0
	var walk func(v any, depth int)
	walk = func(v any, depth int) {
		size++
		switch x := v.(type) {
		case arr:
			for _, e := range x {
				walk(e, depth+1)
			}
		case obj:
			if _, ok := x["$ref"].(string); ok {
				refs++
			}
			for _, e := range x {
				walk(e, depth+1)
			}
		case json.Number:
			if strings.Contains(string(x), "e1000000") || strings.Contains(string(x), "99999") {
				num++
			}
		}
	}
	walk(doc, 0)
	return refs > 14 || num > 6
}

type badMarshaler struct{}

func (badMarshaler) MarshalJSON() ([]byte, error) { return []byte(`{"a":`), nil }

type failMarshaler struct{}

func (failMarshaler) MarshalJSON() ([]byte, error) { return nil, fmt.Errorf("no") }

type cyclic struct{ Next *cyclic }

func oddGo(i int) any {
	switch i {
	case 0:
		return make(chan int)
	case 1:
		return func() {}
	case 2:
		return math.NaN()
	case 3:
		return badMarshaler{}
	case 4:
		return failMarshaler{}
	case 5:
		c := &cyclic{}
		c.Next = c
		return c
	case 6:
		return json.Number("bogus")
	case 7:
		return json.RawMessage(`{"a":`)
	case 8:
		return map[string]interface{}{"a": json.Number("1x")}
	case 9:
		return map[[2]int]string{{1, 2}: "a"}
	case 10:
		return struct{ A complex128 }{1i}
	}
	return map[string]interface{}{"a": []interface{}{math.Inf(1)}}
}

type errWriter struct{}

func (errWriter) Write(p []byte) (int, error) { return len(p), nil }

// loader gives the loader and whether it has to fail to load.
func (c *crashCase) loader(kind string, text []byte, st *store, dir, name string) (gjs.JSONLoader, bool) {
	ok := jsonPrefix(text)
	if kind == "raw" || kind == "go" {
		if _, err := decode(string(text)); err != nil {
			kind = "bytes"
		}
	}
	switch kind {
	case "oddgo":
		return gjs.NewGoLoader(oddGo(c.Odd)), true
	case "bytes":
		return gjs.NewBytesLoader(append([]byte(nil), text...)), !ok
	case "reader":
		ld, rd := gjs.NewReaderLoader(bytes.NewReader(text))
		if _, err := new(bytes.Buffer).ReadFrom(rd); err != nil {
			panic(harnessBug(err.Error()))
		}
		return ld, !ok
	case "writer":
		ld, wr := gjs.NewWriterLoader(errWriter{})
		wr.Write(text)
		return ld, !ok
	case "raw":
		return gjs.NewRawLoader(mustDecode(string(text))), false
	case "go":
		return gjs.NewGoLoader(mustDecode(string(text))), false
	case "file":
		writeFiles(dir, map[string]string{name: string(text)})
		return gjs.NewReferenceLoader("file://" + filepath.ToSlash(filepath.Join(dir, name))), !ok
	case "fs":
		st.files["/v/"+name] = string(text)
		return gjs.NewReferenceLoaderFileSystem("file:///v/"+name, http.FileSystem(st)), !ok
	case "http":
		st.http["http://main.invalid/"+name] = string(text)
		return gjs.NewReferenceLoader("http://main.invalid/" + name), !ok
	}
	return gjs.NewStringLoader(string(text)), !ok
}

// complete tells whether the text of an error is filled in.
func (c *crashCase) complete(err error) error {
	if strings.Contains(err.Error(), "<no value>") {
		return violationf("the text of an error has not been filled in: %q", err.Error())
	}
	return nil
}

func checkC13(c *crashCase, s *S) error {
	st := newStore()
	defer st.install()()
	dir := ""
	if c.SKind == "file" || c.DKind == "file" {
		d, rm := scratchDir()
		defer rm()
		dir = d
	}
	if c.Remote != nil {
		st.http["http://remote.invalid/doc.json"] = string(c.Remote)
	}
	first := func(t []byte) any {
		var v any
		d := json.NewDecoder(bytes.NewReader(t))
		d.UseNumber()
		if d.Decode(&v) != nil {
			return nil
		}
		return v
	}
	schemaDoc, remoteDoc := first(c.Schema), first(c.Remote)
	if heavy(schemaDoc) || heavy(remoteDoc) {
		return errDiscard
	}
	// resolved against canonical bases relative references can reach other documents
	compileOnly := mayLoop(schemaDoc) || mayLoop(remoteDoc) ||
		hasRefString(remoteDoc, "remote.invalid") || hasRefString(remoteDoc, "main.invalid") || hasRefString(remoteDoc, "added.invalid") ||
		hasRefString(schemaDoc, "main.invalid") || hasRefString(schemaDoc, "added.invalid")

	ls, mustFail := c.loader(c.SKind, c.Schema, st, dir, "schema.json")
	sl := loaderFor(c.Draft, c.Via)
	sl.Validate = c.Validate
	var sch *gjs.Schema
	var err error
	docs := 0
	checkDoc := func(i int, res *gjs.Result, err error, bad bool) error {
		if (res == nil) == (err == nil) {
			return violationf("document %d: Validate returned %v, %v", i, res, err)
		}
		if bad && err == nil {
			return violationf("document %d cannot be loaded (%q), but Validate gave a verdict (valid=%v)", i, short(string(c.Docs[i])), res.Valid())
		}
		if err != nil {
			return c.complete(err)
		}
		docs++
		if res.Valid() != (len(res.Errors()) == 0) {
			return violationf("document %d: Valid()=%v with %d errors", i, res.Valid(), len(res.Errors()))
		}
		for k, e := range res.Errors() {
			if k > 50 {
				break
			}
			_, _, _, _, _ = e.String(), e.Description(), e.Field(), e.Type(), e.Details()
			if e.Context() == nil {
				return violationf("document %d: error %d has no context", i, k)
			}
			_ = e.Context().String()
		}
		return nil
	}
	switch c.Entry {
	case "newschema":
		sch, err = gjs.NewSchema(ls)
	case "compile":
		sch, err = sl.Compile(ls)
	case "addschema":
		err = sl.AddSchema(c.URL, ls)
		if err == nil && mustFail {
			return violationf("AddSchema took a document that cannot be loaded")
		}
		if err == nil {
			sch, err = sl.Compile(gjs.NewReferenceLoader(c.URL))
		} else {
			mustFail = true
		}
		// the same URL given to the loader is the schema's base: relative references reach it
		compileOnly = compileOnly || c.URL != "http://added.invalid/x.json" && hasRefString(schemaDoc, "") || hasRefString(schemaDoc, "://")
	case "addschemas":
		err = sl.AddSchemas(gjs.NewStringLoader(`{"$id":"http://added.invalid/first.json"}`), ls)
		if err == nil && mustFail {
			return violationf("AddSchemas took a document that cannot be loaded")
		}
		if err == nil {
			sch, err = sl.Compile(gjs.NewStringLoader(`{"$ref":"http://added.invalid/first.json"}`))
		}
	case "url":
		// an odd reference as the place to load from
		if strings.HasPrefix(c.URL, "file") {
			sch, err = sl.Compile(gjs.NewReferenceLoaderFileSystem(c.URL, http.FileSystem(st)))
		} else {
			sch, err = sl.Compile(gjs.NewReferenceLoader(c.URL))
		}
		mustFail = false
		compileOnly = compileOnly || strings.Contains(c.URL, "remote.invalid") && mayLoop(remoteDoc)
	case "validate":
		if compileOnly {
			sch, err = sl.Compile(ls)
			break
		}
		for i := range c.Docs {
			if i > 0 {
				ls, _ = c.loader(c.SKind, c.Schema, st, dir, "schema.json")
			}
			ld, bad := c.loader(c.DKind, c.Docs[i], st, dir, "doc"+itoa(i)+".json")
			res, err := gjs.Validate(ls, ld)
			if mustFail && err == nil {
				return violationf("the schema cannot be loaded, but Validate gave a verdict")
			}
			if e := checkDoc(i, res, err, bad); e != nil {
				return e
			}
		}
		s.label("validate")
		if docs > 0 {
			s.nt()
		}
		return nil
	}
	if (sch == nil) == (err == nil) {
		return violationf("compiling returned %v, %v", sch, err)
	}
	if err == nil && mustFail {
		return violationf("the schema cannot be loaded (%q), but it compiled", short(string(c.Schema)))
	}
	s.label("entry=%s", c.Entry)
	if err != nil {
		if e := c.complete(err); e != nil {
			return e
		}
		s.label("schema error")
		if _, isObj := schemaDoc.(obj); isObj && !mustFail {
			s.nt()
		}
		return nil
	}
	if compileOnly {
		s.label("compiled only")
		return nil
	}
	if c.Odd == 3 {
		sch.SetRootSchemaName("{{x")
	}
	for i := range c.Docs {
		ld, bad := c.loader(c.DKind, c.Docs[i], st, dir, "doc"+itoa(i)+".json")
		res, err := sch.Validate(ld)
		if e := checkDoc(i, res, err, bad); e != nil {
			return e
		}
	}
	if docs > 0 {
		s.label("validated")
		s.nt()
	}
	return nil
}

func init() {
	register("C13", 20000,
		"schema and documents as bytes: well-formed schemas mutated in 1-3 places, keyword soup, odd values, damaged texts, random bytes, nesting up to 30000 levels; given through any loader and entry point, optionally with an odd second document behind a reference; non-trivial: a document was validated, or the schema is a JSON object that was answered with an error",
		genC13, checkC13)
}
