package harness

// sprinkle adds keywords that the draft in force does not know; they must have no effect, well-formed or not.
func (r R) sprinkle(doc obj, draft int) {
	if draft >= D7 {
		return
	}
	for _, p := range positions(doc, draft) {
		m, ok := p.node.(obj)
		if !ok || m["$ref"] != nil || !r.p(45) {
			continue
		}
		junk := func() any {
			return pick(r, []any{num("5"), "x", nil, arr{}, arr{num("1")}, true, false, obj{"type": "nonsense"}, obj{"minimum": "x"},
				obj{"type": "null"}, obj{}, obj{"not": obj{}}, r.dangler(), obj{"type": pick(r, allTypes)}})
		}
		if draft < D6 {
			if r.p(50) {
				m["const"] = r.value(1)
			}
			if r.p(50) {
				m["contains"] = junk()
			}
			if r.p(50) {
				m["propertyNames"] = junk()
			}
		}
		if r.p(60) {
			m["if"] = pick(r, []any{true, obj{}, junk()})
			if r.p(80) {
				m["then"] = pick(r, []any{false, obj{"not": obj{}}, junk()})
			}
			if r.p(80) {
				m["else"] = pick(r, []any{false, obj{"not": obj{}}, junk()})
			}
		}
	}
}

// sensitive reports whether some document uses a keyword whose meaning depends on the draft.
func sensitive(c *multiCase) bool {
	for _, d := range c.Docs {
		for _, p := range positions(d.Doc.V, d.Draft) {
			m, ok := p.node.(obj)
			if !ok {
				return true
			}
			for _, k := range []string{"const", "contains", "propertyNames", "if", "exclusiveMinimum", "exclusiveMaximum"} {
				if _, ok := m[k]; ok {
					return true
				}
			}
		}
	}
	return false
}

// genShared: documents of different drafts refer to one document that names none.
func genShared(r R) multiCase {
	c := multiCase{Mixed: true, Detect: true, LoaderDraft: pick(r, []int{Hybrid, D4, D6, D7})}
	urls := shuffle(r, httpURLs)
	n := r.between(2, 3)
	decl := []int{pick(r, []int{declNone, D4, D6, D7, declUnknown})}
	four := decl[0] == D4 || decl[0] <= 0 && c.LoaderDraft == D4
	for i := 0; i < n; i++ {
		decl = append(decl, pick(r, []int{D4, D6, D7}))
		four = four || decl[i+1] == D4
	}
	// the common document, in a form that all of them can read
	g := newSgen(r, D7)
	g.bools = 0
	g.refPct = 15
	g.budget = 24
	g.w = only(map[int]int{fType: 12, fNum: 10, fStr: 8, fArr: 25, fObj: 25, fComb: 35, fEq: 25})
	lib := g.document(r.between(1, 3)).(obj)
	defs := lib["definitions"].(obj)
	defs["cond"] = obj{"if": g.leaf(), "then": g.leaf(), "else": g.leaf()}
	defs["eq"] = obj{"const": r.value(1)}
	defs["has"] = obj{"contains": g.leaf()}
	defs["names"] = obj{"propertyNames": g.leaf()}
	for _, k := range []string{"if", "then", "contains"} {
		if _, ok := lib[k]; !ok && r.p(30) {
			lib[k] = g.leaf()
		}
	}
	if four {
		var strip func(v any)
		strip = func(v any) {
			switch x := v.(type) {
			case arr:
				for _, e := range x {
					strip(e)
				}
			case obj:
				delete(x, "exclusiveMinimum")
				delete(x, "exclusiveMaximum")
				for _, e := range x {
					strip(e)
				}
			}
		}
		strip(lib)
	}
	libURL := urls[n+1]
	ref := func() any {
		if r.p(15) {
			return obj{"$ref": libURL}
		}
		return obj{"$ref": libURL + "#/definitions/" + pick(r, []string{"cond", "eq", "has", "names", pick(r, sortedKeys(defs))})}
	}
	user := func() obj {
		m := obj{}
		if r.p(60) {
			m["properties"] = obj{pick(r, plainNames): ref(), pick(r, plainNames): ref()}
		}
		if r.p(40) {
			m["items"] = ref()
		}
		if len(m) == 0 || r.p(40) {
			m[pick(r, []string{"anyOf", "allOf", "oneOf"})] = arr{ref(), ref()}
		}
		return m
	}
	root := obj{"properties": obj{}}
	if r.p(50) {
		root = user()
		root["properties"] = obj{}
	}
	eff := c.LoaderDraft
	if decl[0] > 0 {
		eff = decl[0]
	}
	c.Docs = append(c.Docs, docSpec{urls[0], eff, decl[0], JV{root}})
	names := shuffle(r, plainNames)
	for i := 1; i <= n; i++ {
		root["properties"].(obj)[names[i]] = obj{"$ref": urls[i]}
		c.Docs = append(c.Docs, docSpec{urls[i], decl[i], decl[i], JV{user()}})
	}
	if r.p(50) {
		root["properties"].(obj)[names[0]] = ref()
	}
	c.Docs = append(c.Docs, docSpec{libURL, 0, pick(r, []int{declNone, declNone, declUnknown}), JV{lib}})
	c.RootURI = urls[0]
	for k := 0; k < 2; k++ {
		a := arrangement{Root: pick(r, []string{"refdoc", "refloader", "refloaderfs"})}
		for i := range c.Docs {
			a.Channels = append(a.Channels, pick(r, []string{"add", "remote"}))
			a.Order = append(a.Order, i)
		}
		a.Order = shuffle(r, a.Order)
		c.Arr = append(c.Arr, a)
	}
	w := newWorld()
	for _, d := range c.Docs {
		w.addDoc(d.URL, d.Doc.V, d.Draft)
	}
	c.Insts = instances(r, w, root, eff, 6)
	return c
}

// leaf draws a small schema without references and exclusive bounds.
func (g *sgen) leaf() any {
	r := g.r
	return pick(r, []any{obj{"type": pick(r, allTypes)}, obj{"minimum": num(itoa(r.n(5)))}, obj{"maxLength": num(itoa(r.n(4)))}, obj{"enum": arr{r.scalar()}},
		obj{"maxItems": num(itoa(r.n(3)))}, obj{"pattern": r.pattern()}, obj{}, obj{"not": obj{}}})
}

func init() {
	register("C10", 6000,
		"1-4 documents, each naming a draft, none or an unknown one in $schema, auto-detection on or off, any configured draft, references between documents, plus keywords unknown to the draft in force (malformed ones too), or documents of different drafts that share one that names none, two arrangements; non-trivial: draft-dependent keywords or a cross-document reference, and the model accepts one and rejects another instance",
		func(r R) multiCase {
			if r.p(20) {
				return genShared(r)
			}
			return genMulti(r, true)
		},
		func(c *multiCase, s *S) error {
			s.label("detect=%v", c.Detect)
			for _, d := range c.Docs {
				s.label("declared=%d effective=%d", d.Declared, d.Draft)
			}
			return checkMulti(c, s)
		})
}
