package harness

import (
	"strings"

	gjs "github.com/xeipuuv/gojsonschema"
)

type refCase struct {
	Draft    int    `json:"draft"`
	Via      int    `json:"via"`
	Schema   JV     `json:"schema"`
	Dangling string `json:"dangling,omitempty"` // the reference that designates nothing
	Insts    []JV   `json:"instances"`
}

func genC08(r R) refCase {
	d, via := genDraft(r)
	g := newSgen(r, d)
	g.refPct = pick(r, []int{10, 20, 35})
	g.odd = 15
	g.budget = 25
	doc := g.refDoc(r.between(1, 3))
	rootID := ""
	if r.p(45) {
		rootID = pick(r, []string{"http://root.invalid/schemas/root.json", "http://root.invalid/", "https://root.invalid/a/b/c#", "http://root.invalid/x?y=1", "urn:verif:root"})
	}
	pool := &idPool{}
	if rootID == "urn:verif:root" {
		g.addIDs(doc, "", rootID, pool, 0)
	} else {
		g.addIDs(doc, "", rootID, pool, pick(r, []int{0, 10, 30}))
	}
	w := newWorld()
	w.addDoc("", doc, d)
	ts := r.targets(w, "", doc, d, 0)
	r.assign(w, g.refs, ts, nil)
	g.distract(doc)
	c := refCase{Draft: d, Via: via, Schema: JV{doc}}
	if r.p(15) {
		// plant one reference that designates nothing in an active position
		var spots []obj
		for _, p := range positions(doc, d) {
			if m, ok := p.node.(obj); ok && p.active {
				if _, isRef := m["$ref"]; isRef {
					spots = append(spots, m)
				}
			}
		}
		bad := obj{}
		if len(spots) > 0 && r.p(70) {
			bad = pick(r, spots)
		} else {
			k := pick(r, []string{"properties", "definitions", "patternProperties", "dependencies"})
			mm, ok := doc[k].(obj)
			if !ok {
				mm = obj{}
				doc[k] = mm
			}
			bad["$ref"] = ""
			mm["zz"] = bad
		}
		w = newWorld()
		w.addDoc("", doc, d)
		good := ""
		for _, t := range ts {
			if len(t.uris) > 0 && r.p(30) {
				good = pick(r, t.uris)
			}
		}
		cands := []string{"#/nope", "#/definitions/nope", "#/definitions/leaf/nope", "#/definitions/leaf/type", "#/definitions/leaf/type/x", "#nope",
			"http://nowhere.invalid/x.json", "file:///nonexistent-verif/x.json", "#/allOf/99", "#/anyOf/-1", "#/oneOf/-", "#/items/a", "#/definitions/leaf/", "#/required", "#definitions/leaf", "#/Definitions/leaf", "#leaf", "/nowhere#leaf"}
		if strings.Contains(good, "#/") {
			cands = append(cands, good+"/nope", good+"x", good+"/0/99")
			// one step too few or too many
			at := strings.Index(good, "#/")
			steps := strings.Split(good[at+2:], "/")
			for i := range steps {
				few := append(append([]string{}, steps[:i]...), steps[i+1:]...)
				many := append(append(append([]string{}, steps[:i]...), steps[i]), steps[i:]...)
				cands = append(cands, good[:at]+"#/"+strings.Join(few, "/"), good[:at]+"#/"+strings.Join(many, "/"))
			}
		}
		cands = append(cands, "#/leaf", "#/properties/leaf", "#/definitions/definitions/leaf", "#//definitions/leaf", "#/definitions//leaf")
		for try := 0; try < 5; try++ {
			s := pick(r, cands)
			abs := resolveURI(w.base[mapID(bad)], s)
			n, err := w.resolve(abs)
			if err == nil {
				_, isObj := n.schema.(obj)
				_, isBool := n.schema.(bool)
				if isObj || isBool {
					continue
				}
			}
			bad["$ref"] = s
			c.Dangling = s
			break
		}
		if c.Dangling == "" {
			bad["$ref"] = "#/definitions/leaf"
			c.Dangling = "#/nope"
			bad["$ref"] = "#/nope"
		}
		return c
	}
	w = newWorld()
	w.addDoc("", doc, d)
	c.Insts = instances(r, w, doc, d, 5)
	return c
}

func countRefs(doc any, draft int) (n int) {
	for _, p := range positions(doc, draft) {
		if m, ok := p.node.(obj); ok {
			if _, ok := m["$ref"]; ok {
				n++
			}
		}
	}
	return
}

func labelRefs(s *S, doc any, draft int) {
	for _, p := range positions(doc, draft) {
		m, ok := p.node.(obj)
		if !ok {
			continue
		}
		if ref, ok := m["$ref"].(string); ok {
			switch {
			case ref == "#" || ref == "":
				s.label("ref=root")
			case strings.HasPrefix(ref, "#/"):
				s.label("ref=pointer")
			case strings.HasPrefix(ref, "#"):
				s.label("ref=plain-name")
			case strings.Contains(ref, "://"):
				s.label("ref=absolute")
			default:
				s.label("ref=relative")
			}
			if strings.Contains(ref, "%") || strings.Contains(ref, "~") {
				s.label("ref=escaped")
			}
			if len(m) > 1 {
				s.label("ref=with-siblings")
			}
		} else if _, ok := m[idKeyword(draft, m)].(string); ok && len(p.tokens) > 0 {
			s.label("embedded-id")
		}
	}
}

func init() {
	register("C08", 20000,
		"a random document with references by pointer (escaped, indexed), root, plain name and embedded identifier in all spellings, distractors that only look like references, 5 instances, or one reference that designates nothing; non-trivial: a reference that must not resolve, or the model accepts one and rejects another instance",
		genC08,
		func(c *refCase, s *S) error {
			if c.Dangling != "" {
				sch, err := loaderFor(c.Draft, c.Via).Compile(gjs.NewStringLoader(encode(withDraft(clone(c.Schema.V), c.Draft, c.Via))))
				s.label("dangling")
				s.nt()
				if err == nil || sch != nil {
					return violationf("the reference %q designates no schema, but compilation succeeded: %s", c.Dangling, short(encode(c.Schema.V)))
				}
				return nil
			}
			labelRefs(s, c.Schema.V, c.Draft)
			return checkVerdicts(&verdictCase{c.Draft, c.Via, c.Schema, c.Insts}, s)
		})
}
