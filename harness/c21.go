package harness

import (
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"strings"

	gjs "github.com/xeipuuv/gojsonschema"
)

type faultCase struct {
	M        multiCase        `json:"set"`
	Channels []string         `json:"channels"` // add, addref, remote, literal
	Order    []int            `json:"order"`
	Root     string           `json:"root"` // literal, refdoc, refloader, refloaderfs
	Faults   map[string]fault `json:"faults"`
	Heal     []int            `json:"heal"`   // order in which faults disappear
	Same     bool             `json:"same"`   // retry on the same loader
	IKind    string           `json:"ikind"`  // how the instance is loaded: http, fs, file
	IFault   fault            `json:"ifault"` // fault of the first attempt
}

var badStatus = []int{201, 202, 203, 204, 206, 300, 304, 400, 401, 403, 404, 410, 418, 429, 500, 502, 503, 599}

func (r R) fault(size int, isHTTP bool) fault {
	kinds := []string{faultMissing, faultRead, faultRead, faultTruncate, faultTruncate, faultGarbage}
	if isHTTP {
		kinds = append(kinds, faultStatus, faultStatus, faultTransport)
	}
	f := fault{Kind: pick(r, kinds), Err: r.n(len(injected)), Together: r.p(30), Near: r.p(40)}
	switch f.Kind {
	case faultGarbage:
		f.N = r.n(len(garbage))
	case faultStatus:
		f.N = pick(r, badStatus)
	case faultRead:
		f.N = pick(r, []int{0, 1, r.n(size), size})
	case faultTruncate:
		f.N = pick(r, []int{0, 1, r.n(size), size - 1})
		f.N = min(f.N, size-1)
	}
	return f
}

func genC21(r R) faultCase {
	c := faultCase{M: genMulti(r, r.p(30)), Faults: map[string]fault{}, IKind: pick(r, []string{"http", "fs", "file"})}
	m := &c.M
	c.Root = pick(r, []string{"refloader", "refloaderfs", "refloaderfs", "refdoc"})
	c.Same = r.p(60)
	if m.RootURI == "" {
		c.Root = "literal"
	}
	if c.Root == "literal" || c.Root == "refdoc" {
		c.Same = false
	}
	for i := range m.Docs {
		ch := "add"
		remote := false
		for _, a := range m.Arr {
			remote = remote || a.Channels[i] == "remote"
		}
		if remote {
			ch = "remote"
		} else if m.Docs[i].URL != "" && r.p(40) {
			ch = "addref"
		}
		if i == 0 && c.Root == "literal" {
			ch = "literal"
		}
		c.Channels = append(c.Channels, ch)
		c.Order = append(c.Order, i)
		if (ch == "remote" || ch == "addref") && r.p(55) {
			c.Faults[itoa(i)] = r.fault(len(m.text(i)), strings.HasPrefix(m.Docs[i].URL, "http"))
			c.Heal = append(c.Heal, i)
		}
	}
	c.Order = shuffle(r, c.Order)
	c.Heal = shuffle(r, c.Heal)
	if r.p(60) {
		c.IFault = r.fault(len(encode(m.Insts[0].V)), c.IKind == "http")
		// a truncated number may still be a number
		if _, isNum := m.Insts[0].V.(num); isNum && c.IFault.Kind == faultTruncate {
			c.IFault.N = 0
		}
	}
	m.Arr = nil
	return c
}

// supplyEnv is everything one attempt needs.
type supplyEnv struct {
	c       *faultCase
	st      *store
	dir     string // real files; "" when the custom file system is in use
	current map[int]fault
}

func (e *supplyEnv) subst(t string) string {
	if e.dir == "" {
		return t
	}
	return strings.ReplaceAll(t, dirToken, e.dir+"/")
}

func (e *supplyEnv) key(i int) string {
	u := e.c.M.Docs[i].URL
	if strings.HasPrefix(u, "file:") {
		return strings.TrimPrefix(unescapePath(u), "file://")
	}
	return u
}

// publish makes the documents available, with the faults still in force.
func (e *supplyEnv) publish() {
	for i, d := range e.c.M.Docs {
		if e.c.Channels[i] != "remote" && e.c.Channels[i] != "addref" {
			continue
		}
		text := e.subst(e.c.M.text(i))
		f := e.current[i]
		if strings.HasPrefix(d.URL, "file:") && e.dir != "" {
			p := filepath.Join(e.dir, strings.TrimPrefix(unescapePath(d.URL), "file://"+dirToken))
			realFile(p, text, f)
			continue
		}
		if strings.HasPrefix(d.URL, "file:") {
			e.st.files[e.key(i)] = text
		} else {
			e.st.http[e.key(i)] = text
		}
		delete(e.st.faults, e.key(i))
		if f.Kind == faultMissing && f.Near {
			own := map[string]bool{}
			for j := range e.c.M.Docs {
				own[e.key(j)] = true
			}
			for _, k := range near(e.key(i)) {
				if !own[k] && strings.HasPrefix(d.URL, "file:") {
					e.st.files[k] = text
				} else if !own[k] {
					e.st.http[k] = text
				}
			}
		}
		if f.Kind != "" {
			e.st.faults[e.key(i)] = f
		}
	}
}

// realFile writes a file with a fault: a directory in its place stands for a read error.
func realFile(p, text string, f fault) {
	os.RemoveAll(p)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		panic(harnessBug(err.Error()))
	}
	switch f.Kind {
	case faultMissing:
		return
	case faultRead:
		if err := os.Mkdir(p, 0o755); err != nil {
			panic(harnessBug(err.Error()))
		}
		return
	case faultTruncate:
		text = text[:min(len(text), f.N)]
	case faultGarbage:
		text = garbage[f.N%len(garbage)]
	}
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		panic(harnessBug(err.Error()))
	}
}

func (e *supplyEnv) loader() *gjs.SchemaLoader {
	c := &e.c.M
	sl := loaderFor(c.Draft, c.Via)
	if c.Mixed {
		sl = gjs.NewSchemaLoader()
		sl.Draft, sl.AutoDetect = libDraft(c.LoaderDraft), c.Detect
	}
	return sl
}

func (e *supplyEnv) refLoader(uri string) gjs.JSONLoader {
	if e.dir == "" {
		return gjs.NewReferenceLoaderFileSystem(e.subst(uri), http.FileSystem(e.st))
	}
	return gjs.NewReferenceLoader(e.subst(uri))
}

func (e *supplyEnv) closed(what string) error {
	if e.st.opened != e.st.closed {
		return violationf("%s: %d files or response bodies were opened and %d closed", what, e.st.opened, e.st.closed)
	}
	return nil
}

// add supplies the registered documents; a faulty one is refused, and accepted once it is healed.
func (e *supplyEnv) add(sl *gjs.SchemaLoader) error {
	for _, i := range e.c.Order {
		d := e.c.M.Docs[i]
		switch e.c.Channels[i] {
		case "add":
			if err := sl.AddSchema(e.subst(d.URL), gjs.NewStringLoader(e.subst(e.c.M.text(i)))); err != nil {
				return violationf("AddSchema %s: %v", d.URL, err)
			}
		case "addref":
			err := sl.AddSchema(e.subst(d.URL), e.refLoader(d.URL))
			if e := e.closed("AddSchema " + d.URL); e != nil {
				return e
			}
			if f, faulty := e.current[i]; faulty {
				if err == nil {
					return violationf("AddSchema %s succeeded in spite of the fault %+v", d.URL, f)
				}
				delete(e.current, i)
				e.publish()
				err = sl.AddSchema(e.subst(d.URL), e.refLoader(d.URL))
			}
			if err != nil {
				return violationf("AddSchema %s (no fault any more): %v", d.URL, err)
			}
		}
	}
	return nil
}

func (e *supplyEnv) compile(sl *gjs.SchemaLoader) (*gjs.Schema, error) {
	switch e.c.Root {
	case "literal":
		return sl.Compile(gjs.NewStringLoader(e.subst(e.c.M.text(0))))
	case "refdoc":
		return sl.Compile(gjs.NewStringLoader(encode(obj{"$ref": e.subst(e.c.M.RootURI)})))
	}
	return sl.Compile(e.refLoader(e.c.M.RootURI))
}

// openIn counts the open descriptors of files below the directory. (The runtime opens some of its
// own now and then.)
func openIn(dir string) int {
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	if d, err := filepath.EvalSymlinks(dir); err == nil {
		dir = d
	}
	n := 0
	for _, e := range ents {
		if to, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(to, dir+"/") {
			n++
		}
	}
	return n
}

func checkC21(c *faultCase, s *S) error {
	m := &c.M
	dir, rm := scratchDir()
	defer rm()
	needed := map[int]bool{}
	verdicts := func(e *supplyEnv, sch *gjs.Schema) (string, error) {
		var out []string
		for _, in := range m.Insts {
			res, err := sch.Validate(gjs.NewStringLoader(e.subst(encode(in.V))))
			if err != nil {
				return "", violationf("validation returned an error: %v", err)
			}
			out = append(out, resultKey(res))
		}
		return strings.Join(out, "\n\n"), nil
	}
	useDir := c.Root == "refloader" || c.Root == "literal" || c.Root == "refdoc"
	newEnv := func(faulty bool) *supplyEnv {
		e := &supplyEnv{c: c, st: newStore(), current: map[int]fault{}}
		if useDir {
			e.dir = dir
		}
		if faulty {
			for i := range m.Docs {
				if f, ok := c.Faults[itoa(i)]; ok {
					e.current[i] = f
				}
			}
		}
		return e
	}
	// without faults, through the custom file system: what is needed and what it means
	calm := newEnv(false)
	calm.dir = ""
	calm.publish()
	undo := calm.st.install()
	sl := calm.loader()
	err := calm.add(sl)
	if err == nil {
		n := len(calm.st.accesses)
		root := "refloaderfs"
		if c.Root == "literal" {
			root = "literal"
		}
		cc := *c
		cc.Root = root
		calm.c = &cc
		if root == "literal" {
			// relative references to files need the file system, too: only HTTP is looked at
			for i, d := range m.Docs {
				if strings.HasPrefix(d.URL, "file:") && c.Channels[i] == "remote" {
					undo()
					return errDiscard
				}
			}
		}
		_, cerr := calm.compile(sl)
		if cerr != nil {
			undo()
			return violationf("a resolvable set of documents does not compile: %v", cerr)
		}
		for _, a := range calm.st.accesses[n:] {
			for i := range m.Docs {
				if c.Channels[i] == "remote" && calm.key(i) == a {
					needed[i] = true
				}
			}
		}
		err = calm.closed("Compile without faults")
	}
	undo()
	if err != nil {
		return err
	}
	// the meaning, with the same kind of root
	ref := newEnv(false)
	ref.publish()
	undo = ref.st.install()
	rl := ref.loader()
	if err := ref.add(rl); err != nil {
		undo()
		return err
	}
	rs, err := ref.compile(rl)
	undo()
	if err != nil {
		return violationf("a resolvable set of documents does not compile: %v", err)
	}
	want, err := verdicts(ref, rs)
	if err != nil {
		return err
	}

	e := newEnv(true)
	e.publish()
	defer e.st.install()()
	sl = e.loader()
	if err := e.add(sl); err != nil {
		return err
	}
	hit, spared := false, false
	heal := append([]int(nil), c.Heal...)
	for {
		var culprit []string
		for i, f := range e.current {
			if needed[i] {
				culprit = append(culprit, fmt.Sprintf("%s: %+v", m.Docs[i].URL, f))
				s.label("fault=%s", f.Kind)
			}
		}
		sch, err := e.compile(sl)
		if cerr := e.closed("Compile"); cerr != nil {
			return cerr
		}
		if len(culprit) > 0 {
			hit = true
			if err == nil {
				return violationf("Compile succeeded in spite of faults in needed documents: %v", culprit)
			}
			if sch != nil {
				return violationf("Compile returned a schema besides the error")
			}
			if err := filledIn(err); err != nil {
				return err
			}
		} else {
			if err != nil {
				return violationf("Compile failed although no needed document is faulty (same loader: %v): %v", c.Same, err)
			}
			if len(e.current) > 0 {
				spared = true
				s.label("fault in a document that is not needed")
			}
			got, err := verdicts(e, sch)
			if err != nil {
				return err
			}
			if got != want {
				return violationf("after the faults were gone the schema means something else: %s\nwant %s", short(got), short(want))
			}
			if err := c.instance(e, sch, s); err != nil {
				return err
			}
			break
		}
		if len(heal) == 0 {
			panic(harnessBug("no fault left to heal"))
		}
		delete(e.current, heal[0])
		heal = heal[1:]
		e.publish()
		if !c.Same {
			sl = e.loader()
			if err := e.add(sl); err != nil {
				return err
			}
		}
	}
	if n := openIn(dir); n > 0 {
		return violationf("%d file descriptors were left open", n)
	}
	if hit {
		s.nt()
		if c.Same {
			s.label("retry on the same loader")
		}
	}
	_ = spared
	return nil
}

// instance loads the instance through a faulty channel, then again without the fault.
func (c *faultCase) instance(e *supplyEnv, sch *gjs.Schema, s *S) error {
	text := e.subst(encode(c.M.Insts[0].V))
	want, err := sch.Validate(gjs.NewStringLoader(text))
	if err != nil {
		return violationf("validation returned an error: %v", err)
	}
	f := c.IFault
	for attempt := 0; attempt < 2; attempt++ {
		var ld gjs.JSONLoader
		switch c.IKind {
		case "http":
			u := "http://instance.invalid/i.json"
			e.st.http[u] = text
			e.st.faults[u] = f
			ld = gjs.NewReferenceLoader(u)
		case "fs":
			e.st.files["/inst/i.json"] = text
			e.st.faults["/inst/i.json"] = f
			ld = gjs.NewReferenceLoaderFileSystem("file:///inst/i.json", http.FileSystem(e.st))
		default:
			dir, rm := scratchDir()
			defer rm()
			realFile(filepath.Join(dir, "i.json"), text, f)
			ld = gjs.NewReferenceLoader("file://" + dir + "/i.json")
		}
		res, err := sch.Validate(ld)
		if cerr := e.closed("Validate"); cerr != nil {
			return cerr
		}
		if f.Kind != "" {
			s.label("instance fault=%s", f.Kind)
			if err == nil || res != nil {
				return violationf("Validate gave %v, %v in spite of the fault %+v of the document", res, err, f)
			}
		} else {
			if err != nil {
				return violationf("Validate without fault: %v", err)
			}
			if resultKey(res) != resultKey(want) {
				return violationf("the %s document is judged differently: %s, want %s", c.IKind, short(resultKey(res)), short(resultKey(want)))
			}
		}
		f = fault{}
	}
	return nil
}

func init() {
	register("C21", 5000,
		"2-4 cross-referencing documents, remote ones (HTTP stand-in, custom file system, real files) with faults (missing, transport error, status, read error or end of data after N bytes, no JSON), compiled again and again while the faults disappear one by one, on one loader or fresh ones, and an instance loaded through a faulty channel; opened bodies and files are counted; non-trivial: a fault in a needed document",
		genC21, checkC21)
}
