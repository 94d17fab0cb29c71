package harness

import (
	"fmt"
	"net/http"
	"strconv"
	"strings"

	gjs "github.com/xeipuuv/gojsonschema"
)

// docSpec is one document of a multi-document case.
type docSpec struct {
	URL      string `json:"url"`   // "" for a literal root
	Draft    int    `json:"draft"` // the draft in force
	Declared int    `json:"declared,omitempty"`
	Doc      JV     `json:"doc"`
}

// arrangement says how the documents reach the loader.
type arrangement struct {
	Channels []string `json:"channels"` // per document: add, addid, remote, literal
	Order    []int    `json:"order"`    // order in which add/addid documents are supplied
	Batch    bool     `json:"batch"`    // consecutive addid documents in one AddSchemas call
	Root     string   `json:"root"`     // literal, refdoc, refloader, refloaderfs
	Warm     string   `json:"warm,omitempty"`
}

type multiCase struct {
	// Mixed: the documents declare different drafts; LoaderDraft and Detect are the loader's settings
	Mixed       bool `json:"mixed,omitempty"`
	LoaderDraft int  `json:"loader_draft,omitempty"`
	Detect      bool `json:"detect,omitempty"`

	Draft   int           `json:"draft"`
	Via     int           `json:"via"`
	Docs    []docSpec     `json:"docs"`
	RootURI string        `json:"root_uri"`
	Arr     []arrangement `json:"arrangements"`
	Insts   []JV          `json:"instances"`
}

const dirToken = "/@DIR@/"

var httpURLs = []string{"http://h1.invalid/a/one.json", "http://h1.invalid/a/two.json", "http://h1.invalid/b/three.json", "https://h2.invalid/x",
	"http://h2.invalid/deep/er/four.json", "http://h1.invalid/q?v=1", "http://h1.invalid/sp%20ace/pl+us.json", "http://h1.invalid:8080/port.json",
	"http://h1.invalid/dir/", "http://json-schema.org/draft-07/schema.json", "http://json-schema.org/draft-06/schema/x", "http://json-schema.org/draft-04/", "https://json-schema.org/draft-07/schema",
	"http://h3.invalid/", "http://h1.invalid/a%2Fone.json", "http://h1.invalid/%7Ex/%41.json", "http://h1.invalid/a/One.json", "http://h1.invalid/a/one.json?x=1&y=%20"}
var fileURLs = []string{"file:///@DIR@/one.json", "file:///@DIR@/sub/two.json", "file:///@DIR@/sub/three%20x.json", "file:///@DIR@/a+b.json",
	"file:///@DIR@/p%25c.json", "file:///@DIR@/sub/deep/%C3%A9.json", "file:///@DIR@/no-ext"}

// viaUndeclared etc. are values of docSpec.Declared.
const (
	declNone    = 0
	declUnknown = -1 // a $schema that is none of the known drafts
)

func genMulti(r R, mixed bool) multiCase {
	d, via := genDraft(r)
	n := r.between(2, 4)
	c := multiCase{Draft: d, Via: via}
	if mixed {
		c.Mixed, c.LoaderDraft, c.Detect = true, d, r.p(70)
		n = r.between(1, 4)
	}
	// the draft of every document
	eff, decl := make([]int, n), make([]int, n)
	for i := range eff {
		eff[i] = d
		if !mixed {
			continue
		}
		decl[i] = pick(r, []int{declNone, D4, D6, D7, D4, D6, D7, declUnknown})
		if c.Detect {
			if decl[i] > 0 {
				eff[i] = decl[i]
			} else if i > 0 {
				eff[i] = eff[r.n(i)] // referred to only from documents of this draft
			}
		}
	}
	hu, fu := shuffle(r, httpURLs), shuffle(r, fileURLs)
	pool := &idPool{}
	w := newWorld()
	useMeta := !mixed && r.p(25)
	var ts []target
	var refs []obj
	owner := map[uintptr]int{}
	eager := make([]bool, n)
	selfID := make([]bool, n)
	for i := 0; i < n; i++ {
		d := eff[i]
		g := newSgen(r, d)
		g.refPct = pick(r, []int{15, 30, 45})
		g.budget = 14
		g.odd = 10
		if i > 0 && has(d, D6) && r.p(4) {
			url := hu[i]
			doc := any(r.n(2) == 1)
			decl[i] = declNone
			c.Docs = append(c.Docs, docSpec{url, d, decl[i], JV{doc}})
			w.addDoc(url, doc, d)
			ts = append(ts, target{doc, d, i, []string{url}})
			continue
		}
		doc := g.refDoc(r.between(1, 2))
		url := hu[i]
		if r.p(35) {
			url = fu[i]
		}
		if i == 0 && r.p(25) {
			url = ""
		}
		rootID := ""
		switch {
		case i == 0 && url != "", r.p(45):
			rootID = url
			selfID[i] = url != ""
		case r.p(25):
			rootID = "http://ids.invalid/doc" + strconv.Itoa(i) + ".json"
		}
		if rootID != "" && r.p(20) {
			rootID += "#"
		}
		eager[i] = r.p(50)
		g.addIDs(doc, url, rootID, pool, pick(r, []int{0, 0, 15}))
		c.Docs = append(c.Docs, docSpec{url, d, decl[i], JV{doc}})
		if url == "" && i == 0 {
			w.addDoc("", doc, d)
		} else {
			w.addDoc(url, doc, d)
		}
		for _, ref := range g.refs {
			owner[mapID(ref)] = i
			refs = append(refs, ref)
		}
	}
	if mixed {
		for _, s := range c.Docs {
			if doc, ok := s.Doc.V.(obj); ok {
				r.sprinkle(doc, s.Draft)
			}
		}
	}
	for i, s := range c.Docs {
		d := s.Draft
		if _, ok := s.Doc.V.(obj); ok {
			ts = append(ts, r.targets(w, s.URL, s.Doc.V, d, i)...)
		}
	}
	// built-in meta-schemas
	if useMeta {
		w.addMeta()
		md := d
		if d == Hybrid {
			md = pick(r, []int{D4, D6, D7})
			if via == viaNoDetect || via == viaNoDetect2 {
				md = D7
			}
		}
		defs := map[int][]string{D4: {"positiveInteger", "simpleTypes", "stringArray", "schemaArray"}, D6: {"nonNegativeInteger", "simpleTypes", "stringArray", "schemaArray"}}
		defs[D7] = defs[D6]
		us := []string{metaURL(md), metaURL(md) + "#/definitions/" + pick(r, defs[md]), metaURL(md) + "#/definitions/" + pick(r, defs[md])}
		for _, u := range us {
			node, _ := w.resolve(u)
			ts = append(ts, target{node.schema, md, -1, []string{u}})
		}
	}
	r.assign(w, refs, ts, func(ref obj, t target, uri string) bool {
		if t.doc == -1 || t.doc == owner[mapID(ref)] {
			return true
		}
		if c.Docs[t.doc].Declared <= 0 && t.draft != eff[owner[mapID(ref)]] {
			return false
		}
		u, f := splitFrag(uri)
		if eager[t.doc] {
			return true
		}
		// a document that may be loaded on demand is reachable by its URL only
		if f != "" && f[0] != '/' {
			return u == c.Docs[t.doc].URL && u != ""
		}
		return u == c.Docs[t.doc].URL
	})
	// the root
	c.RootURI = c.Docs[0].URL
	if c.RootURI != "" && r.p(50) {
		var us []string
		for _, t := range r.targets(w, c.Docs[0].URL, c.Docs[0].Doc.V, eff[0], 0) {
			for _, u := range t.uris {
				if v, f := splitFrag(u); v == c.RootURI && (f == "" || f[0] == '/' || eager[0]) {
					us = append(us, u)
				}
			}
		}
		c.RootURI = pick(r, us)
	}
	if mixed && !strings.Contains(c.RootURI, "#") && r.p(15) {
		for _, s := range c.Docs {
			r.nestedDrafts(s.Doc.V, s.Draft)
		}
	}
	for k := 0; k < 2; k++ {
		a := arrangement{Batch: r.p(50)}
		if r.p(25) {
			a.Warm = pick(r, []string{"ref", "fs", "fsfile"})
		}
		if c.RootURI == "" {
			a.Root = "literal"
		} else {
			a.Root = pick(r, []string{"refdoc", "refloader", "refloaderfs", "literal"})
			if a.Root == "literal" && (strings.Contains(c.RootURI, "#") || !selfID[0]) {
				a.Root = "refdoc"
			}
		}
		for i := range c.Docs {
			ch := []string{"add"}
			if selfID[i] {
				ch = append(ch, "addid")
			}
			if !eager[i] {
				ch = append(ch, "remote", "remote")
			}
			if i == 0 && a.Root == "literal" {
				ch = []string{"literal"}
			}
			a.Channels = append(a.Channels, pick(r, ch))
			a.Order = append(a.Order, i)
		}
		a.Order = shuffle(r, a.Order)
		c.Arr = append(c.Arr, a)
	}
	node, err := w.resolve(c.RootURI)
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	c.Insts = instances(r, w, node.schema, eff[0], 4)
	return c
}

// supply prepares a loader according to the arrangement. dir replaces the directory token.
func (a *arrangement) compile(c *multiCase, st *store, s *S) (*gjs.Schema, error, func(), map[string]bool) {
	files := map[string]string{}
	subst := func(t string) string { return t }
	cleanup := func() {}
	// real files for the default loader factory
	if a.Root != "refloaderfs" {
		need := false
		for i, d := range c.Docs {
			need = need || a.Channels[i] == "remote" && strings.HasPrefix(d.URL, "file:")
		}
		if need {
			dir, rm := scratchDir()
			cleanup = rm
			subst = func(t string) string { return strings.ReplaceAll(t, dirToken, dir+"/") }
			for i, d := range c.Docs {
				if a.Channels[i] == "remote" && strings.HasPrefix(d.URL, "file:") {
					files[strings.TrimPrefix(unescapePath(d.URL), "file://"+dirToken)] = subst(c.text(i))
				}
			}
			writeFiles(dir, files)
		}
	}
	registered := map[string]bool{}
	for i, d := range c.Docs {
		switch a.Channels[i] {
		case "remote":
			if strings.HasPrefix(d.URL, "file:") {
				st.files[strings.TrimPrefix(unescapePath(d.URL), "file://")] = subst(c.text(i))
			} else {
				st.http[d.URL] = subst(c.text(i))
			}
		default:
			if d.URL != "" {
				registered[subst(d.URL)] = true
			}
		}
	}
	sl := loaderFor(c.Draft, c.Via)
	if c.Mixed {
		sl = gjs.NewSchemaLoader()
		sl.Draft, sl.AutoDetect = libDraft(c.LoaderDraft), c.Detect
	}
	var batch []gjs.JSONLoader
	flush := func() error {
		if len(batch) == 0 {
			return nil
		}
		b := batch
		batch = nil
		return sl.AddSchemas(b...)
	}
	for _, i := range a.Order {
		switch a.Channels[i] {
		case "addid":
			batch = append(batch, gjs.NewStringLoader(subst(c.text(i))))
			if !a.Batch {
				if err := flush(); err != nil {
					return nil, fmt.Errorf("AddSchemas: %w", err), cleanup, registered
				}
			}
		case "add":
			if err := flush(); err != nil {
				return nil, fmt.Errorf("AddSchemas: %w", err), cleanup, registered
			}
			if err := sl.AddSchema(subst(c.Docs[i].URL), gjs.NewStringLoader(subst(c.text(i)))); err != nil {
				return nil, fmt.Errorf("AddSchema: %w", err), cleanup, registered
			}
		}
	}
	if err := flush(); err != nil {
		return nil, fmt.Errorf("AddSchemas: %w", err), cleanup, registered
	}
	if a.Warm != "" {
		// another schema was compiled with this loader before, through other means of access
		const u = "http://warm.invalid/w.json"
		if err := sl.AddSchema(u, gjs.NewStringLoader(`{"type":"null"}`)); err != nil {
			return nil, fmt.Errorf("AddSchema: %w", err), cleanup, registered
		}
		var l gjs.JSONLoader
		switch a.Warm {
		case "ref":
			l = gjs.NewReferenceLoader(u)
		case "fs":
			l = gjs.NewReferenceLoaderFileSystem(u, http.FileSystem(newStore()))
		case "fsfile":
			empty := newStore()
			empty.files["/warm.json"] = `{"type":"null"}`
			l = gjs.NewReferenceLoaderFileSystem("file:///warm.json", http.FileSystem(empty))
		}
		if _, err := sl.Compile(l); err != nil {
			return nil, fmt.Errorf("Compile of another schema: %w", err), cleanup, registered
		}
	}
	var root gjs.JSONLoader
	switch a.Root {
	case "literal":
		root = gjs.NewStringLoader(subst(c.text(0)))
	case "refdoc":
		root = gjs.NewStringLoader(encode(obj{"$ref": subst(c.RootURI)}))
	case "refloader":
		root = gjs.NewReferenceLoader(subst(c.RootURI))
	default:
		root = gjs.NewReferenceLoaderFileSystem(subst(c.RootURI), http.FileSystem(st))
	}
	sch, err := sl.Compile(root)
	return sch, err, cleanup, registered
}

func (c *multiCase) text(i int) string {
	d := c.Docs[i].Doc.V
	if c.Mixed {
		m, ok := clone(d).(obj)
		if !ok {
			return encode(d)
		}
		switch decl := c.Docs[i].Declared; {
		case decl == declUnknown:
			m["$schema"] = "http://unknown.invalid/schema#"
		case decl > 0:
			m["$schema"] = draftURL[decl]
			if i%2 == 1 {
				m["$schema"] = metaURL(decl)
			}
		}
		return encode(m)
	}
	return encode(withDraft(clone(d), c.Docs[i].Draft, c.Via))
}

func unescapePath(u string) string {
	_, f := splitFrag("#" + u)
	return f
}

// builtInURL says whether a URL is one of a meta-schema the library carries.
func builtInURL(u string) bool {
	for _, m := range draftURL {
		if u == m || u == strings.TrimSuffix(m, "#") {
			return true
		}
	}
	return false
}

func checkMulti(c *multiCase, s *S) error {
	w := newWorld()
	for _, d := range c.Docs {
		if strings.Contains(encode(d.Doc.V), "json-schema.org") {
			w.addMeta()
			break
		}
	}
	for _, d := range c.Docs {
		w.addDoc(d.URL, d.Doc.V, d.Draft)
	}
	node, err := w.resolve(c.RootURI)
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	acc, rej := 0, 0
	want := make([]bool, len(c.Insts))
	for i, in := range c.Insts {
		want[i] = w.valid(node.schema, c.Docs[0].Draft, in.V)
		if want[i] {
			acc++
		} else {
			rej++
		}
	}
	for k := range c.Arr {
		a := &c.Arr[k]
		st := newStore()
		undo := st.install()
		sch, err, cleanup, registered := a.compile(c, st, s)
		undo()
		if err != nil {
			cleanup()
			return violationf("arrangement %d (%+v): a resolvable set of documents does not compile: %v", k, *a, err)
		}
		for _, acc := range st.accesses {
			if registered[acc] || builtInURL(acc) {
				cleanup()
				return violationf("arrangement %d: %s is registered or built in, but was fetched", k, acc)
			}
			if strings.HasPrefix(acc, "/") && registered["file://"+acc] {
				cleanup()
				return violationf("arrangement %d: %s is registered, but the file was opened", k, acc)
			}
		}
		cleanup()
		s.label("root=%s", a.Root)
		if a.Warm != "" {
			s.label("after another compilation")
		}
		for _, ch := range a.Channels {
			s.label("channel=%s", ch)
		}
		for i, in := range c.Insts {
			res, err := sch.Validate(gjs.NewStringLoader(encode(in.V)))
			if err != nil {
				return violationf("validation returned an error: %v", err)
			}
			if res.Valid() != want[i] {
				return violationf("arrangement %d (%+v), instance %s: library says valid=%v, expected valid=%v; errors %v", k, *a, encode(in.V), res.Valid(), want[i], res.Errors())
			}
		}
	}
	cross := false
	for i, d := range c.Docs {
		for _, p := range positions(d.Doc.V, d.Draft) {
			if m, ok := p.node.(obj); ok {
				if abs, ok := w.refTarget(m); ok {
					u, _ := splitFrag(abs)
					if n, ok := w.ids[u]; ok {
						if base, ok := n.schema.(obj); !ok || !within(d.Doc.V, base) {
							cross = true
							if strings.HasPrefix(u, "http://json-schema.org") {
								s.label("ref=metaschema")
							} else {
								s.label("ref=cross-document")
							}
						}
					}
				}
			}
		}
		_ = i
	}
	if (cross || c.Mixed && sensitive(c)) && acc > 0 && rej > 0 {
		s.nt()
	}
	return nil
}

func within(doc any, m obj) bool {
	switch x := doc.(type) {
	case arr:
		for _, e := range x {
			if within(e, m) {
				return true
			}
		}
	case obj:
		if mapID(x) == mapID(m) {
			return true
		}
		for _, e := range x {
			if within(e, m) {
				return true
			}
		}
	}
	return false
}

func init() {
	register("C09", 6000,
		"2-4 documents with cross-document references, supplied in two different arrangements (AddSchema, AddSchemas, files, custom file system, HTTP stand-in; any order; literal root, {$ref} root or reference loader with fragment); non-trivial: some reference crosses documents and the model accepts one and rejects another instance",
		func(r R) multiCase { return genMulti(r, false) }, checkMulti)
}
