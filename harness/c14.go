package harness

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/big"
	"net/http"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	gjs "github.com/xeipuuv/gojsonschema"
)

// ---------------------------------------------------------------------------------------------
// Spelling JSON texts

func (r R) ws() string {
	if r.p(85) {
		return ""
	}
	return pick(r, []string{" ", "\n", "\t", "\r\n", "  ", " \n\t "})
}

func (r R) spellString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c < 32:
			fmt.Fprintf(&b, "\\u%04x", c)
		case r.p(12) && c < 0x10000:
			fmt.Fprintf(&b, pick(r, []string{"\\u%04x", "\\u%04X"}), c)
		case r.p(12) && c >= 0x10000:
			c -= 0x10000
			fmt.Fprintf(&b, "\\u%04x\\u%04x", 0xd800+c>>10, 0xdc00+c&0x3ff)
		case c == '/' && r.p(20):
			b.WriteString("\\/")
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// spellText writes the value with random white space, escapes and member order.
func (r R) spellText(v any) string {
	var b strings.Builder
	var put func(v any)
	put = func(v any) {
		b.WriteString(r.ws())
		switch x := v.(type) {
		case string:
			b.WriteString(r.spellString(x))
		case arr:
			b.WriteByte('[')
			for i, e := range x {
				if i > 0 {
					b.WriteByte(',')
				}
				put(e)
			}
			b.WriteString(r.ws() + "]")
		case obj:
			b.WriteByte('{')
			for i, k := range shuffle(r, sortedKeys(x)) {
				if i > 0 {
					b.WriteByte(',')
				}
				b.WriteString(r.ws() + r.spellString(k) + r.ws() + ":")
				put(x[k])
			}
			b.WriteString(r.ws() + "}")
		default:
			b.WriteString(encode(x))
		}
		b.WriteString(r.ws())
	}
	put(v)
	return b.String()
}

// ---------------------------------------------------------------------------------------------
// Go values

type lcg uint64

func (l *lcg) n(k int) int {
	*l = *l*6364136223846793005 + 1442695040888963407
	return int(uint64(*l>>33) % uint64(k))
}

type marshalled string

func (m marshalled) MarshalJSON() ([]byte, error) { return []byte(m), nil }

type namedString string
type namedMap map[string]interface{}
type namedSlice []interface{}
type kind string
type embedded struct {
	Extra int `json:"-"`
}

var tagName = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9]*$`)
var canonicalInt = regexp.MustCompile(`^(0|-?[1-9][0-9]{0,17})$`)

// goValue builds a Go value that marshals to the JSON value (numbers may be spelled differently).
func goValue(v any, l *lcg) interface{} {
	switch x := v.(type) {
	case nil:
		switch l.n(4) {
		case 0:
			return (*int)(nil)
		case 1:
			return map[string]interface{}(nil)
		case 2:
			return []interface{}(nil)
		}
		return nil
	case bool:
		if l.n(3) == 0 {
			return &x
		}
		return x
	case num:
		if canonicalInt.MatchString(string(x)) {
			i, _ := strconv.ParseInt(string(x), 10, 64)
			switch l.n(7) {
			case 0:
				return int(i)
			case 1:
				return i
			case 2:
				if i >= 0 {
					return uint64(i)
				}
			case 3:
				if f := float64(i); int64(f) == i && i < 1<<53 && i > -(1<<53) {
					return f
				}
			case 4:
				b := big.NewInt(i)
				return b
			case 5:
				if int64(int16(i)) == i {
					return int16(i)
				}
			}
		}
		switch l.n(3) {
		case 0:
			return json.RawMessage(x)
		case 1:
			return marshalled(x)
		}
		return x
	case string:
		if b, err := base64.StdEncoding.DecodeString(x); err == nil && len(b) > 0 && base64.StdEncoding.EncodeToString(b) == x && l.n(2) == 0 {
			return b
		}
		switch l.n(5) {
		case 0:
			return namedString(x)
		case 1:
			return &x
		case 2:
			return marshalled(encode(x))
		}
		return x
	case arr:
		var ss []string
		for _, e := range x {
			if s, ok := e.(string); ok {
				ss = append(ss, s)
			}
		}
		if len(ss) == len(x) && len(x) > 0 && l.n(2) == 0 {
			return ss
		}
		r := make([]interface{}, len(x))
		for i := range x {
			r[i] = goValue(x[i], l)
		}
		switch l.n(4) {
		case 0:
			return namedSlice(r)
		case 1:
			a := reflect.New(reflect.ArrayOf(len(r), reflect.TypeOf((*interface{})(nil)).Elem())).Elem()
			reflect.Copy(a, reflect.ValueOf(r))
			return a.Interface()
		}
		return r
	case obj:
		plain := len(x) > 0
		for k := range x {
			plain = plain && tagName.MatchString(k)
		}
		if plain && l.n(2) == 0 {
			var fs []reflect.StructField
			var vs []interface{}
			for _, k := range sortedKeys(x) {
				f := goValue(x[k], l)
				t := reflect.TypeOf((*interface{})(nil)).Elem()
				if f != nil && l.n(2) == 0 {
					t = reflect.TypeOf(f)
				}
				opt := ""
				if f != nil && l.n(5) == 0 && t.Kind() == reflect.Interface {
					opt = ",omitempty"
				}
				fs = append(fs, reflect.StructField{Name: "F" + strconv.Itoa(len(fs)), Type: t, Tag: reflect.StructTag(`json:"` + k + opt + `"`)})
				vs = append(vs, f)
			}
			s := reflect.New(reflect.StructOf(fs)).Elem()
			for i, f := range vs {
				if f != nil {
					s.Field(i).Set(reflect.ValueOf(f))
				}
			}
			if l.n(2) == 0 {
				return s.Addr().Interface()
			}
			return s.Interface()
		}
		if l.n(4) == 0 {
			m := map[string]json.RawMessage{}
			for k, e := range x {
				m[k] = json.RawMessage(encode(e))
			}
			return m
		}
		m := map[string]interface{}{}
		for _, k := range sortedKeys(x) {
			m[k] = goValue(x[k], l)
		}
		switch l.n(4) {
		case 0:
			return namedMap(m)
		case 1:
			mm := map[kind]interface{}{}
			for k, e := range m {
				mm[kind(k)] = e
			}
			return mm
		}
		return m
	}
	panic(harnessBug("goValue"))
}

// ---------------------------------------------------------------------------------------------
// The case

var loaderKinds = []string{"string", "bytes", "reader", "writer", "raw", "go", "file", "fs", "http"}

type loaderCase struct {
	Draft  int      `json:"draft"`
	Via    int      `json:"via"`
	Schema string   `json:"schema"` // texts
	Insts  []string `json:"instances"`
	SKind  string   `json:"schema_loader"`
	IKind  string   `json:"instance_loader"`
	Entry  string   `json:"entry"` // compile, newschema, validate, add
	Chunks []int    `json:"chunks"`
	File   string   `json:"file"`
	Frag   string   `json:"frag"`
	GoSeed uint64   `json:"go_seed"`
	// FailAt makes the source reader or sink writer fail after so many bytes; -1 never
	FailAt int `json:"fail_at"`
	// Pad puts so many blanks before (or, negative, into) every text
	Pad int `json:"pad,omitempty"`
	// EOF makes the source reader return io.EOF together with the last bytes
	EOF bool `json:"eof,omitempty"`
	// Odd picks a Go value that has no JSON form, less one
	Odd int `json:"odd,omitempty"`
}

const fileChars = "abcXYZ019 +%#?&=;:@!$'()*,[]{}|^`~<>\"\\._-éü日本😀\n\t"

func (r R) fileName() string {
	var parts []string
	for i := r.between(1, 3); i > 0; i-- {
		p := r.from(fileChars, 1, 8)
		if r.p(20) {
			p = pick(r, []string{"%20", "a%2Fb", "%", "a+b", "a b", "%25", "100%", "x?y", "x#y", "é", "file:", "a%zz", "C:"})
		}
		if p == "." || p == ".." {
			p = "dot"
		}
		parts = append(parts, p)
	}
	return strings.Join(parts, "/") + pick(r, []string{".json", "", ".schema.json"})
}

// fileURL escapes the name the way RFC 3986 asks for.
func fileURL(path string, l *lcg) string {
	var b strings.Builder
	b.WriteString("file://")
	for i := 0; i < len(path); i++ {
		c := path[i]
		switch {
		case alnum(c) || strings.IndexByte("/-._~", c) >= 0:
			b.WriteByte(c)
		case strings.IndexByte("!$&'()*+,;=:@", c) >= 0 && l.n(2) == 0:
			b.WriteByte(c) // may be written either way
		case l.n(2) == 0:
			fmt.Fprintf(&b, "%%%02X", c)
		default:
			fmt.Fprintf(&b, "%%%02x", c)
		}
	}
	return b.String()
}

func genC14(r R) loaderCase {
	d, via := genDraft(r)
	g := newSgen(r, d)
	g.refPct = pick(r, []int{0, 15})
	g.budget = 20
	g.w[fFmt] = 4
	g.formats = []string{"h-reject", "h-string", "no-such-format"}
	schema := g.document(r.between(1, 2)).(obj)
	w := newWorld()
	w.addDoc("", schema, d)
	c := loaderCase{Draft: d, Via: viaFor(schema, d, via), SKind: pick(r, loaderKinds), IKind: pick(r, loaderKinds),
		Entry: pick(r, []string{"compile", "compile", "newschema", "validate", "add", "addid"}), File: r.fileName(), GoSeed: uint64(r.n(1 << 30)), FailAt: -1}
	insts := instances(r, w, schema, d, 3)
	if r.p(8) {
		bad, _ := r.badValue(d, true)
		for _, k := range sortedKeys(bad) {
			if _, del := bad[k].(deleteMarker); !del && !strings.HasSuffix(k, "id") {
				schema[k] = bad[k]
			}
		}
	}
	if r.p(6) {
		// a string with a text in it, or one that encodes bytes
		t := encode(insts[len(insts)-1].V)
		if r.p(50) {
			t = base64.StdEncoding.EncodeToString([]byte(t))
		}
		insts[len(insts)-1].V = t
	}
	c.Schema = r.spellText(withDraft(schema, c.Draft, c.Via))
	for _, in := range insts {
		c.Insts = append(c.Insts, r.spellText(in.V))
	}
	if r.p(10) {
		c.Insts[0] = r.damage(c.Insts[0])
	}
	if r.p(4) {
		c.Schema = r.damage(c.Schema)
	}
	for i := r.between(1, 6); i > 0; i-- {
		c.Chunks = append(c.Chunks, pick(r, []int{1, 2, 3, 7, 64, 512, 100000, 0}))
	}
	if r.p(15) {
		c.FailAt = r.n(len(c.Schema) + 1)
	}
	if r.p(30) {
		c.Frag = "#"
	}
	if r.p(3) {
		c.Pad = pick(r, []int{500, 4000, 9000, 33000, 70000, 140000})
		if r.p(1) {
			c.Pad = 1 << 20
		}
		if r.p(30) {
			c.Pad = -c.Pad
		}
	}
	c.EOF = r.p(40)
	if r.p(10) {
		c.Odd = r.between(1, 12)
	}
	return c
}

// damage edits a text so that it usually is no JSON any more.
func (r R) damage(s string) string {
	i := r.n(len(s) + 1)
	for i < len(s) && s[i]&0xc0 == 0x80 {
		i++
	}
	switch r.n(5) {
	case 4:
		return pick(r, []string{"\x00", "\ufeff", "\f", "\v", "\u00a0", "\x1e", "\b", "\u2028", "//\n", ";", "#\n", "\xff", ")]}'\n", "\x00 "}) + s
	case 0:
		return s[:i]
	case 1:
		return s[:i] + pick(r, []string{",", "]", "}", "\"", ":", "x", "-", "0", "\\", "{", "[", "NaN", "'"}) + s[i:]
	case 2:
		return ""
	}
	j := i
	if j < len(s) {
		j++
		for j < len(s) && s[j]&0xc0 == 0x80 {
			j++
		}
	}
	return s[:i] + s[j:]
}

type chunkReader struct {
	data   []byte
	chunks []int
	i      int
	failAt int
	read   int
	eof    bool
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if c.failAt >= 0 && c.read >= c.failAt {
		return 0, injected[0]
	}
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	n := min(len(p), c.chunks[c.i%len(c.chunks)], len(c.data))
	if n == 0 && c.i%3 == 2 {
		n = min(1, len(p)) // some progress
	}
	if c.failAt >= 0 {
		n = min(n, c.failAt-c.read)
	}
	c.i++
	copy(p, c.data[:n])
	c.data = c.data[n:]
	c.read += n
	if c.eof && len(c.data) == 0 && c.failAt < 0 {
		return n, io.EOF
	}
	return n, nil
}

type sink struct {
	got    bytes.Buffer
	failAt int
}

func (s *sink) Write(p []byte) (int, error) {
	if s.failAt >= 0 && s.got.Len()+len(p) > s.failAt {
		return 0, injected[0]
	}
	return s.got.Write(p)
}

// source builds one loader of the kind for the text; done checks what must hold after its use.
type source struct {
	c      *loaderCase
	st     *store
	dir    string
	n      int
	checks []func() error
}

// seed fixes the choices made for one text.
func (c *loaderCase) seed(text string) lcg {
	h := fnv.New64a()
	h.Write([]byte(text))
	return lcg(c.GoSeed + h.Sum64())
}

func (f *source) loader(kind, text string) (gjs.JSONLoader, error) {
	f.n++
	l := f.c.seed(text)
	frag := f.c.Frag
	switch kind {
	case "bytes":
		b := []byte(text)
		f.checks = append(f.checks, func() error {
			if string(b) != text {
				return violationf("the caller's bytes were changed to %q", short(string(b)))
			}
			return nil
		})
		return gjs.NewBytesLoader(b), nil
	case "reader":
		src := &chunkReader{data: []byte(text), chunks: f.c.Chunks, failAt: -1, eof: f.c.EOF}
		ld, rd := gjs.NewReaderLoader(src)
		got, err := readAll(rd, f.c.Chunks)
		if err != nil || string(got) != text {
			return nil, violationf("reader loader: read %q (%v), want %q", short(string(got)), err, short(text))
		}
		return ld, nil
	case "writer":
		dst := &sink{failAt: -1}
		ld, wr := gjs.NewWriterLoader(dst)
		rest := []byte(text)
		for i := 0; len(rest) > 0; i++ {
			n := min(len(rest), f.c.Chunks[i%len(f.c.Chunks)])
			if n == 0 && i%3 == 2 {
				n = 1
			}
			buf := append([]byte(nil), rest[:n]...)
			k, err := wr.Write(buf)
			if err != nil || k != n {
				return nil, violationf("writer loader: Write returned %d, %v for %d bytes", k, err, n)
			}
			if !bytes.Equal(buf, rest[:n]) {
				return nil, violationf("writer loader changed the caller's bytes")
			}
			for j := range buf {
				buf[j] = '!' // the caller may reuse the buffer
			}
			rest = rest[n:]
		}
		if dst.got.String() != text {
			return nil, violationf("writer loader: the underlying writer got %q, want %q", short(dst.got.String()), short(text))
		}
		return ld, nil
	case "raw":
		v := mustDecode(text)
		f.checks = append(f.checks, func() error {
			if !reflect.DeepEqual(v, mustDecode(text)) {
				return violationf("the caller's value was changed to %s", short(encode(v)))
			}
			return nil
		})
		return gjs.NewRawLoader(v), nil
	case "go":
		v := goValue(mustDecode(text), &l)
		before, err := json.Marshal(v)
		if err != nil {
			panic(harnessBug(err.Error()))
		}
		f.checks = append(f.checks, func() error {
			after, err := json.Marshal(v)
			if err != nil || !bytes.Equal(before, after) {
				return violationf("the caller's Go value was changed: %s", short(string(after)))
			}
			return nil
		})
		return gjs.NewGoLoader(v), nil
	case "file":
		name := strconv.Itoa(f.n) + "/" + f.c.File
		writeFiles(f.dir, map[string]string{name: text})
		return gjs.NewReferenceLoader(fileURL(filepath.Join(f.dir, name), &l) + frag), nil
	case "fs":
		name := "/v/" + strconv.Itoa(f.n) + "/" + f.c.File
		f.st.files[name] = text
		return gjs.NewReferenceLoaderFileSystem(fileURL(name, &l)+frag, http.FileSystem(f.st)), nil
	case "http":
		u := "http://h.invalid/doc" + strconv.Itoa(f.n) + ".json"
		f.st.http[u] = text
		return gjs.NewReferenceLoader(u + frag), nil
	}
	return gjs.NewStringLoader(text), nil
}

func readAll(rd io.Reader, chunks []int) ([]byte, error) {
	var got []byte
	for i := 0; ; i++ {
		buf := make([]byte, 1+chunks[i%len(chunks)]%97)
		if len(got) > 5000 {
			buf = make([]byte, 5000)
		}
		n, err := rd.Read(buf)
		got = append(got, buf[:n]...)
		for j := range buf {
			buf[j] = '!'
		}
		if err == io.EOF {
			return got, nil
		}
		if err != nil {
			return got, err
		}
	}
}

// outcome of one use: per instance the verdict and errors, or that there was an error.
func (c *loaderCase) use(f *source, skind, ikind, entry string) ([]string, error) {
	var outs []string
	for i := 0; i == 0 || entry == "validate" && i < len(c.Insts); i++ {
		ls, err := f.loader(skind, c.Schema)
		if err != nil {
			return nil, err
		}
		if entry == "validate" {
			ld, err := f.loader(ikind, c.Insts[i])
			if err != nil {
				return nil, err
			}
			res, err := gjs.Validate(ls, ld)
			outs = append(outs, describe(res, err))
			continue
		}
		var sch *gjs.Schema
		sl := gjs.NewSchemaLoader()
		switch entry {
		case "compile":
			sl = loaderFor(c.Draft, c.Via)
			sch, err = sl.Compile(ls)
		case "newschema":
			sch, err = gjs.NewSchema(ls)
		case "add":
			sl = loaderFor(c.Draft, c.Via)
			err = sl.AddSchema("http://added.invalid/x.json", ls)
			if err == nil {
				sch, err = sl.Compile(gjs.NewReferenceLoader("http://added.invalid/x.json"))
			}
		case "addid":
			// the schema has no identifier: it only has to be readable
			err = sl.AddSchemas(ls)
			outs = append(outs, fmt.Sprint("AddSchemas ok=", err == nil))
			return outs, nil
		}
		if err != nil {
			if sch != nil {
				return nil, violationf("a schema and an error: %v", err)
			}
			outs = append(outs, "schema error")
			return outs, nil
		}
		for _, in := range c.Insts {
			ld, err := f.loader(ikind, in)
			if err != nil {
				return nil, err
			}
			res, err := sch.Validate(ld)
			outs = append(outs, describe(res, err))
		}
	}
	return outs, nil
}

func describe(res *gjs.Result, err error) string {
	if err != nil {
		if res != nil {
			return "result and error"
		}
		return "error"
	}
	return resultKey(res)
}

// padded returns the text with the padding of the case.
func (c *loaderCase) padded(t string) string {
	if c.Pad >= 0 {
		return strings.Repeat(" ", c.Pad) + t
	}
	// behind the first bracket, if there is one
	if i := strings.IndexAny(t, "{[\""); i >= 0 && t[i] != '"' {
		return t[:i+1] + strings.Repeat(" \n", -c.Pad/2) + t[i+1:]
	}
	return t
}

func checkC14(c *loaderCase, s *S) error {
	if c.Pad != 0 {
		p := *c
		p.Pad = 0
		p.Schema = c.padded(c.Schema)
		p.Insts = nil
		for _, in := range c.Insts {
			p.Insts = append(p.Insts, c.padded(in))
		}
		if c.Pad > 20000 || c.Pad < -20000 {
			p.Chunks = []int{4096, 1000, 100000} // not byte by byte
		}
		s.label("padded")
		c = &p
	}
	st := newStore()
	defer st.install()()
	dir, rm := scratchDir()
	defer rm()
	f := &source{c: c, st: st, dir: dir}
	isJSON := func(t string) bool { _, err := decode(t); return err == nil }
	sk, ik := c.SKind, c.IKind
	allOK := true
	for _, in := range c.Insts {
		allOK = allOK && isJSON(in)
	}
	if !isJSON(c.Schema) && (sk == "raw" || sk == "go") {
		sk = "bytes"
	}
	if !allOK && (ik == "raw" || ik == "go") {
		ik = "bytes"
	}
	if len(c.File) > 200 {
		return errDiscard
	}
	// what a Go value marshals to may spell numbers differently; the reference is that text
	ref := *c
	respell := func(t string) string {
		l := c.seed(t)
		b, err := json.Marshal(goValue(mustDecode(t), &l))
		if err != nil {
			panic(harnessBug(err.Error()))
		}
		if !equalJSON(mustDecode(string(b)), mustDecode(t)) {
			panic(harnessBug("goValue changes the value: " + t + " -> " + string(b)))
		}
		return string(b)
	}
	if ik == "go" {
		ref.Insts = nil
		for _, in := range c.Insts {
			ref.Insts = append(ref.Insts, respell(in))
		}
	}
	if sk == "go" {
		ref.Schema = respell(c.Schema)
	}
	want, err := ref.use(&source{c: &ref, st: st, dir: dir}, "string", "string", c.Entry)
	if err != nil {
		return err
	}
	got, err := c.use(f, sk, ik, c.Entry)
	if err != nil {
		return err
	}
	if len(want) != len(got) {
		return violationf("loaders %s/%s: outcomes %q, with string loaders %q", sk, ik, got, want)
	}
	acc, rej := 0, 0
	for i := range want {
		if want[i] != got[i] {
			return violationf("schema by %s loader, instance by %s loader: outcome %d is %s\nwith string loaders: %s", sk, ik, i, short(got[i]), short(want[i]))
		}
		if strings.HasPrefix(want[i], "valid=true") {
			acc++
		} else if strings.HasPrefix(want[i], "valid=false") {
			rej++
		}
	}
	for _, chk := range f.checks {
		if err := chk(); err != nil {
			return violationf("%s/%s: %v", sk, ik, err)
		}
	}
	// what a loader hands out is the value itself, numbers untouched
	for i, t := range append([]string{c.Schema}, c.Insts...) {
		k := ik
		if i == 0 {
			k = sk
		}
		ld, err := f.loader(k, t)
		if err != nil {
			return err
		}
		v, err := ld.LoadJSON()
		if (err == nil) != isJSON(t) {
			if err == nil && startsWithJSON(t) {
				continue
			}
			return violationf("%s loader: LoadJSON of %q gives %v, %v", k, short(t), v, err)
		}
		if err != nil {
			if v != nil {
				return violationf("%s loader: LoadJSON returns a value and an error", k)
			}
			continue
		}
		wantText := t
		if k == "go" {
			wantText = respell(t)
		}
		if !reflect.DeepEqual(v, mustDecode(wantText)) {
			return violationf("%s loader: LoadJSON gives %s for %s", k, short(encode(v)), short(wantText))
		}
	}
	if err := c.noJSON(); err != nil {
		return err
	}
	if err := c.passThrough(); err != nil {
		return err
	}
	if ik == "raw" && allOK && isJSON(c.Schema) {
		if err := c.looseMaps(s); err != nil {
			return err
		}
	}
	if st.opened != st.closed {
		return violationf("%d bodies or files opened, %d closed", st.opened, st.closed)
	}
	s.label("schema=%s", sk)
	s.label("instance=%s", ik)
	s.label("entry=%s", c.Entry)
	if !allOK || !isJSON(c.Schema) {
		s.label("not JSON")
	}
	if acc > 0 && rej > 0 && (sk != "string" || ik != "string") {
		s.nt()
	}
	return nil
}

// loose turns every object into a map with keys of any type, as YAML decoders produce them.
func loose(v any) any {
	switch x := v.(type) {
	case arr:
		a := make([]any, len(x))
		for i := range x {
			a[i] = loose(x[i])
		}
		return a
	case obj:
		m := map[any]any{}
		for k, e := range x {
			m[k] = loose(e)
		}
		return m
	case num:
		return json.Number(x)
	}
	return v
}

// looseMaps checks that decoded values may hold maps with keys of any type.
func (c *loaderCase) looseMaps(s *S) error {
	sch, err := loaderFor(c.Draft, c.Via).Compile(gjs.NewStringLoader(c.Schema))
	if err != nil {
		return nil
	}
	key := func(l gjs.JSONLoader) (string, error) {
		res, err := sch.Validate(l)
		if err != nil {
			return "", violationf("validation returned an error: %v", err)
		}
		var es []string
		for _, e := range res.Errors() {
			es = append(es, e.Type()+" at "+e.Context().String())
		}
		sort.Strings(es)
		return fmt.Sprint(res.Valid(), es), nil
	}
	for _, in := range c.Insts {
		v := mustDecode(in)
		if _, ok := v.(obj); !ok {
			continue
		}
		s.label("maps with keys of any type")
		want, err := key(gjs.NewStringLoader(in))
		if err != nil {
			return err
		}
		got, err := key(gjs.NewRawLoader(loose(v)))
		if err != nil {
			return err
		}
		if got != want {
			return violationf("instance %s with maps of type map[interface{}]interface{}: %s, as JSON text: %s", short(in), got, want)
		}
	}
	return nil
}

func startsWithJSON(t string) bool {
	var v any
	d := json.NewDecoder(strings.NewReader(t))
	d.UseNumber()
	return d.Decode(&v) == nil
}

// noJSON checks that a Go value without a JSON form is answered with an error wherever it is given.
func (c *loaderCase) noJSON() error {
	if c.Odd == 0 {
		return nil
	}
	v := oddGo(c.Odd - 1)
	if c.GoSeed%3 == 0 {
		v = map[string]interface{}{"type": "object", "a": v}
	} else if c.GoSeed%3 == 1 {
		v = []interface{}{1, v}
	}
	if _, err := json.Marshal(v); err == nil {
		panic(harnessBug("a value that can be marshalled"))
	}
	if x, err := gjs.NewGoLoader(v).LoadJSON(); err == nil {
		return violationf("Go loader of %T, which has no JSON form: loads %v", v, short(fmt.Sprint(x)))
	}
	any := gjs.NewStringLoader("{}")
	if res, err := gjs.Validate(any, gjs.NewGoLoader(v)); err == nil {
		return violationf("%T, which has no JSON form, was validated: %v", v, res.Valid())
	}
	if _, err := gjs.NewSchema(gjs.NewGoLoader(v)); err == nil {
		return violationf("%T, which has no JSON form, was compiled", v)
	}
	if err := gjs.NewSchemaLoader().AddSchema("http://odd.invalid/", gjs.NewGoLoader(v)); err == nil {
		return violationf("%T, which has no JSON form, was added", v)
	}
	return nil
}

// passThrough checks that faults of the wrapped reader or writer reach the caller.
func (c *loaderCase) passThrough() error {
	if c.FailAt < 0 {
		return nil
	}
	src := &chunkReader{data: []byte(c.Schema), chunks: c.Chunks, failAt: c.FailAt}
	ld, rd := gjs.NewReaderLoader(src)
	got, err := readAll(rd, c.Chunks)
	if !errors.Is(err, injected[0]) && c.FailAt <= len(c.Schema) {
		return violationf("reader loader: the source failed after %d bytes, but reading gave %d bytes and %v", c.FailAt, len(got), err)
	}
	if string(got) != c.Schema[:c.FailAt] {
		return violationf("reader loader: read %q before the fault, want %q", short(string(got)), short(c.Schema[:c.FailAt]))
	}
	// the loader has what passed through, and no more
	if err := sameLoad(ld, gjs.NewStringLoader(string(got))); err != nil {
		return violationf("reader loader after a fault: %v", err)
	}
	dst := &sink{failAt: c.FailAt}
	ld, wr := gjs.NewWriterLoader(dst)
	_, err = wr.Write([]byte(c.Schema))
	if (len(c.Schema) > c.FailAt) != errors.Is(err, injected[0]) {
		return violationf("writer loader: Write returned %v", err)
	}
	if err != nil {
		if v, err := ld.LoadJSON(); err == nil {
			return violationf("writer loader: the only write failed, but %s was loaded", short(canonAny(v)))
		}
	}
	return nil
}

func sameLoad(a, b gjs.JSONLoader) error {
	x, xerr := a.LoadJSON()
	y, yerr := b.LoadJSON()
	if (xerr == nil) != (yerr == nil) || xerr == nil && canonAny(x) != canonAny(y) {
		return fmt.Errorf("loads %s (%v), want %s (%v)", short(canonAny(x)), xerr, short(canonAny(y)), yerr)
	}
	return nil
}

func init() {
	register("C14", 12000,
		"a schema and 3 instances as JSON texts with random white space, escapes and member order (some damaged), compiled and validated once through string loaders and once through a drawn pair of loader kinds (string, bytes, reader, writer, raw, Go values incl. structs, file with odd name, custom file system, HTTP stand-in) and entry point; non-trivial: the pair is not string/string and there is an accepted and a rejected instance",
		genC14, checkC14)
}
