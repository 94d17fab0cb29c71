package harness

import (
	"fmt"
	"strconv"
	"strings"
)

// Generation of documents with references and identifiers.

// escapeFragment writes a fragment; characters that need it are percent-encoded, others sometimes.
func (r R) escapeFragment(s string, extra int) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		safe := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("/~$-_.", c) >= 0
		if !safe || c != '/' && r.p(extra) {
			if r.p(50) {
				fmt.Fprintf(&b, "%%%02X", c)
			} else {
				fmt.Fprintf(&b, "%%%02x", c)
			}
		} else {
			b.WriteByte(c)
		}
	}
	return b.String()
}

func pointer(tokens []string) string {
	s := ""
	for _, t := range tokens {
		s += "/" + strings.ReplaceAll(strings.ReplaceAll(t, "~", "~0"), "/", "~1")
	}
	return s
}

// position is one subschema of a document.
type position struct {
	node   any
	tokens []string
	active bool // takes part in compilation whenever the document is compiled as a whole
}

var singleKW = []string{"additionalItems", "additionalProperties", "contains", "else", "if", "items", "not", "propertyNames", "then"}
var listKW = []string{"allOf", "anyOf", "items", "oneOf"}
var mapKW = []string{"definitions", "dependencies", "patternProperties", "properties"}

// kwKnown tells whether the draft interprets the keyword.
func kwKnown(k string, draft int) bool {
	switch k {
	case "contains", "propertyNames", "const":
		return has(draft, D6)
	case "if", "then", "else":
		return has(draft, D7)
	}
	return true
}

// unknownHomes are unknown keywords that hold a subschema which references may designate.
var unknownHomes = []string{"", "x-one", "X-One"}

// positions lists the subschemas of a schema in a deterministic order.
func positions(v any, draft int) []position {
	var ps []position
	var walk func(v any, tokens []string, active bool)
	walk = func(v any, tokens []string, active bool) {
		ps = append(ps, position{v, append([]string(nil), tokens...), active})
		m, ok := v.(obj)
		if !ok {
			return
		}
		if _, ok := m["$ref"]; ok {
			return
		}
		for _, k := range singleKW {
			s, ok := m[k]
			if !ok || !kwKnown(k, draft) {
				continue
			}
			switch s.(type) {
			case obj:
				walk(s, append(tokens, k), active)
			case bool:
				if has(draft, D6) {
					walk(s, append(tokens, k), active)
				}
			}
		}
		for _, k := range listKW {
			if l, ok := m[k].(arr); ok {
				for i, s := range l {
					walk(s, append(tokens, k, strconv.Itoa(i)), active)
				}
			}
		}
		for _, k := range mapKW {
			if mm, ok := m[k].(obj); ok {
				for _, n := range sortedKeys(mm) {
					if _, isArr := mm[n].(arr); isArr {
						continue
					}
					walk(mm[n], append(tokens, k, n), active)
				}
			}
		}
		if mm, ok := m["x-defs"].(obj); ok {
			for _, n := range sortedKeys(mm) {
				walk(mm[n], append(tokens, "x-defs", n), false)
			}
		}
		for _, k := range unknownHomes {
			if mm, ok := m[k].(obj); ok {
				walk(mm, append(tokens, k), false)
			}
		}
	}
	walk(v, nil, true)
	return ps
}

// target is a subschema together with the URIs that designate it.
type target struct {
	node  any
	draft int
	doc   int
	uris  []string // complete URIs; a URI that starts with # is usable only where the base is empty
}

// targets computes the designations of every subschema of a document.
func (r R) targets(w *world, uri string, doc any, draft, docNo int) []target {
	ps := positions(doc, draft)
	var ts []target
	for _, p := range ps {
		t := target{node: p.node, draft: draft, doc: docNo}
		// resources that enclose the position
		for _, q := range ps {
			if len(q.tokens) > len(p.tokens) || strings.Join(q.tokens, "\x00") != strings.Join(p.tokens[:len(q.tokens)], "\x00") {
				continue
			}
			var us []string
			if len(q.tokens) == 0 && (uri != "" || w.ids[""].schema != nil) {
				us = append(us, uri)
			}
			if m, ok := q.node.(obj); ok {
				if id, ok := m[idKeyword(draft, m)].(string); ok {
					if _, f := splitFrag(id); f == "" {
						us = append(us, w.base[mapID(m)])
					} else if len(q.tokens) == len(p.tokens) {
						t.uris = append(t.uris, resolveURI(w.base[mapID(m)], id))
					}
				}
			}
			rest := p.tokens[len(q.tokens):]
			for _, u := range us {
				if len(rest) == 0 {
					t.uris = append(t.uris, u)
				} else {
					t.uris = append(t.uris, u+"#"+r.escapeFragment(pointer(rest), pick(r, []int{0, 0, 30})))
				}
			}
		}
		ts = append(ts, t)
	}
	return ts
}

// spell draws a reference text that designates the URI from the given base; "" if there is none.
func (r R) spell(base, uri string) (string, bool) {
	u, frag := uri, ""
	if i := strings.IndexByte(uri, '#'); i >= 0 {
		u, frag = uri[:i], uri[i:]
	}
	var cands []string
	if u == base {
		if frag == "" {
			cands = append(cands, "#", "#")
			if r.p(20) {
				cands = append(cands, "")
			}
		} else {
			cands = append(cands, frag, frag)
		}
	}
	if u != "" {
		if frag == "" && r.p(30) {
			frag = "#"
		}
		cands = append(cands, u+frag)
		// relative forms
		if i := strings.LastIndexByte(u, '/'); i > 8 {
			cands = append(cands, u[i+1:]+frag, "./"+u[i+1:]+frag)
			if j := strings.LastIndexByte(u[:i], '/'); j > 8 {
				cands = append(cands, "../"+u[j+1:]+frag, u[j+1:]+frag)
			}
		}
		if i := strings.Index(u, "://"); i > 0 {
			if j := strings.IndexByte(u[i+3:], '/'); j >= 0 {
				cands = append(cands, u[i+3+j:]+frag, u[i+1:]+frag)
			}
		}
	}
	want := strings.TrimSuffix(uri, "#")
	for try := 0; try < 6 && len(cands) > 0; try++ {
		c := pick(r, cands)
		if strings.Contains(c, "@DIR@") && !strings.HasPrefix(c, "/@DIR@") && !strings.HasPrefix(c, "file:///@DIR@") {
			continue
		}
		if strings.HasPrefix(c, "./#") || c == "" && (base != u || frag != "") {
			continue
		}
		if strings.TrimSuffix(resolveURI(base, c), "#") == want {
			return c, true
		}
	}
	return "", false
}

// assign gives every placeholder a target, never creating a cycle in place. allowed may be nil.
func (r R) assign(w *world, refs []obj, ts []target, allowed func(ref obj, t target, uri string) bool) {
	for _, ref := range refs {
		ref["$ref"] = "#/definitions/leaf" // replaced below when possible
	}
	var named []target // designated by an identifier
	for _, t := range ts {
		n := t
		n.uris = nil
		for _, u := range t.uris {
			if !strings.Contains(u, "#/") && u != "" {
				n.uris = append(n.uris, u)
			}
		}
		if len(n.uris) > 0 {
			named = append(named, n)
		}
	}
	for _, ref := range refs {
		base := w.base[mapID(ref)]
		set := false
		for try := 0; try < 8 && !set; try++ {
			t := pick(r, ts)
			if len(named) > 0 && r.p(35) {
				t = pick(r, named)
			}
			if len(t.uris) == 0 {
				continue
			}
			u := pick(r, t.uris)
			if allowed != nil && !allowed(ref, t, u) {
				continue
			}
			s, ok := r.spell(base, u)
			if !ok {
				continue
			}
			old := ref["$ref"]
			ref["$ref"] = s
			if w.inplaceCycle() {
				ref["$ref"] = old
				continue
			}
			set = true
		}
		if !set {
			// no usable target: make it an ordinary schema
			delete(ref, "$ref")
			ref["title"] = "no reference"
		}
	}
}

var defNames = []string{"a", "b", "c", "leaf2", "a/b", "~", "~1", "~0", "a~b", "%25", "%", "a b", "é", "", "0", "1", "$ref", "$id", "id", "const", "enum",
	"properties", "definitions", "日本", "\"", "\\", "#", "a#b", "a?b", "😀", "+", "a+b", "%2F", "items", "\n", "a.b", "..", "^x$", "a&b=c"}

// idText draws identifiers of embedded schemas that are not in use yet.
type idPool struct {
	used map[string]bool
	n    int
}

func (p *idPool) fresh(r R, base string) string {
	p.n++
	n := strconv.Itoa(p.n)
	host := pick(r, []string{"http://one.invalid/", "http://two.invalid/dir/", "https://three.invalid/a/b/"})
	var c string
	switch {
	case r.p(35):
		c = "#" + pick(r, []string{"name", "foo", "x-", "a.b_", "Item"}) + n
	case base == "" || r.p(35):
		c = host + pick(r, []string{"emb", "sub", "x"}) + n + pick(r, []string{".json", "", ".schema.json"})
		if r.p(15) {
			c += "#"
		}
	default:
		if strings.Contains(base, "@DIR@") {
			// the directory is replaced by a real one: do not leave it
			return pick(r, []string{"rel", "sub/rel", "./here"}) + n + ".json"
		}
		c = pick(r, []string{"rel", "sub/rel", "../up", "/abs/rel", "./here", "d/"}) + n + pick(r, []string{".json", "", "/"})
	}
	return c
}

// refDoc draws one document with placeholders for references in g.refs; identifiers are added by addIDs.
func (g *sgen) refDoc(depth int) obj {
	r := g.r
	root := g.object(depth)
	defs := obj{"leaf": obj{"type": pick(r, allTypes)}}
	for i := r.between(1, 4); i > 0; i-- {
		g.budget += 8
		name := pick(r, defNames)
		defs[name] = g.schema(depth - 1)
		if r.p(6) {
			// nothing but definitions
			defs[name] = obj{"definitions": obj{pick(r, defNames): defs[name]}}
		}
	}
	root["definitions"] = defs
	if r.p(25) {
		x := obj{}
		for i := r.between(1, 2); i > 0; i-- {
			g.budget += 4
			x[pick(r, []string{"a", "b/c", "d e", "0"})] = g.schema(1)
		}
		root["x-defs"] = x
	}
	if r.p(8) {
		g.budget += 4
		root[pick(r, unknownHomes)] = g.object(1)
	}
	if len(g.refs) == 0 || r.p(40) {
		// make sure that references matter
		ref := obj{"$ref": "?"}
		g.refs = append(g.refs, ref)
		p, ok := root["properties"].(obj)
		if !ok {
			p = obj{}
			root["properties"] = p
		}
		p[pick(r, plainNames)] = ref
	}
	return root
}

// addIDs gives some subschemas identifiers. The root gets one when rootID is not empty.
func (g *sgen) addIDs(doc obj, retrieval, rootID string, pool *idPool, pct int) {
	r := g.r
	key := func() string {
		switch g.draft {
		case D4:
			return "id"
		case D6, D7:
			return "$id"
		}
		return pick(r, []string{"id", "$id"})
	}
	if rootID != "" {
		doc[key()] = rootID
	}
	ps := positions(doc, g.draft)
	for _, p := range ps {
		if len(p.tokens) == 0 || !r.p(pct) {
			continue
		}
		m, ok := p.node.(obj)
		if !ok {
			continue
		}
		if _, ok := m["$ref"]; ok {
			continue
		}
		if m["title"] == "no id" {
			continue
		}
		// base in force at the position
		w := newWorld()
		w.addDoc(retrieval, doc, g.draft)
		m[key()] = pool.fresh(r, w.base[mapID(m)])
	}
}

// ---------------------------------------------------------------------------------------------
// Distractors: things that look like references or identifiers but are not.

var danglers = []string{"#/nope", "#/definitions/nope", "http://nowhere.invalid/x.json", "file:///nonexistent-verif/x.json", "nowhere.json#/a", "#nope", "::bad::", "%zz"}

func (r R) dangler() obj { return obj{"$ref": pick(r, danglers)} }

// nestedDrafts names drafts in subschemas, where it has no meaning.
func (r R) nestedDrafts(doc any, draft int) {
	for _, p := range positions(doc, draft) {
		if m, ok := p.node.(obj); ok && len(p.tokens) > 0 && m["$ref"] == nil && r.p(25) {
			m["$schema"] = pick(r, []string{draftURL[D4], draftURL[D6], draftURL[D7], "http://unknown.invalid/schema#"})
		}
	}
}

// distract adds members that must have no effect.
func (g *sgen) distract(doc any) {
	r := g.r
	for _, p := range positions(doc, g.draft) {
		m, ok := p.node.(obj)
		if !ok {
			continue
		}
		if _, isRef := m["$ref"]; isRef {
			if r.p(30) {
				switch r.n(6) {
				case 0:
					m["type"] = pick(r, []any{"null", "nonsense", num("5"), arr{}})
				case 1:
					m["not"] = pick(r, []any{obj{}, num("1"), r.dangler()})
				case 2:
					m["properties"] = obj{"a": r.dangler(), "b": obj{"type": "null"}}
				case 3:
					m["minimum"] = pick(r, []any{num("1000000"), "x"})
					m["maxLength"] = num("0")
				case 4:
					m["allOf"] = arr{r.dangler()}
					m["required"] = arr{"zz"}
				default:
					m["enum"] = pick(r, []any{arr{}, arr{"never"}, num("1"), arr{r.dangler()}})
				}
			}
			continue
		}
		if !r.p(12) {
			continue
		}
		switch r.n(6) {
		case 0:
			m["x-note"] = r.dangler()
		case 1:
			m["default"] = r.dangler()
		case 2:
			m["examples"] = arr{r.dangler(), obj{"$ref": num("1")}}
		case 3:
			if g.draft < D6 {
				m["contains"] = r.dangler()
				m["propertyNames"] = r.dangler()
			} else {
				m["$comment"] = "see $ref"
			}
		case 4:
			if g.draft < D7 {
				m["if"] = r.dangler()
				m["then"] = r.dangler()
			}
		default:
			if g.draft < D6 {
				m["const"] = r.dangler()
			} else {
				m["x-list"] = arr{r.dangler(), r.dangler()}
			}
		}
	}
}
