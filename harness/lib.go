package harness

import (
	"fmt"
	"net/http"
	"sort"
	"strings"

	gjs "github.com/xeipuuv/gojsonschema"
)

// Nothing in this harness may reach the network: the default transport records and refuses,
// unless a check installs its own stand-in.
type refusingTransport struct{}

func (refusingTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	return nil, fmt.Errorf("network access refused by the harness: %s", r.URL)
}

func init() { http.DefaultTransport = refusingTransport{} }

var draftURL = map[int]string{
	D4: "http://json-schema.org/draft-04/schema#",
	D6: "http://json-schema.org/draft-06/schema#",
	D7: "http://json-schema.org/draft-07/schema#",
}

func libDraft(d int) gjs.Draft {
	switch d {
	case D4:
		return gjs.Draft4
	case D6:
		return gjs.Draft6
	case D7:
		return gjs.Draft7
	}
	return gjs.Hybrid
}

// Ways of putting a draft in force for a single schema.
const (
	viaSchemaKW  = iota // $schema in the document, default loader (hybrid: no $schema)
	viaDraft            // loader.Draft, auto-detection on, no $schema
	viaNoDetect         // loader.Draft, auto-detection off
	viaNoDetect2        // auto-detection off and a contradicting $schema
	nVia
)

// genDraft draws a draft and a way to select it.
func genDraft(r R) (int, int) {
	d := pick(r, []int{Hybrid, D7, D6, D4})
	return d, r.n(nVia)
}

// withDraft returns the schema document as it is to be given to the loader.
func withDraft(schema any, draft, via int) any {
	m, ok := schema.(obj)
	if !ok {
		return schema
	}
	switch via {
	case viaSchemaKW:
		if u := draftURL[draft]; u != "" {
			m["$schema"] = u
		}
	case viaNoDetect2:
		other := D4
		if draft == D4 {
			other = D7
		}
		m["$schema"] = draftURL[other]
	}
	return schema
}

func loaderFor(draft, via int) *gjs.SchemaLoader {
	sl := gjs.NewSchemaLoader()
	switch via {
	case viaDraft:
		sl.Draft = libDraft(draft)
	case viaNoDetect, viaNoDetect2:
		sl.Draft = libDraft(draft)
		sl.AutoDetect = false
	}
	return sl
}

// viaFor fixes ways that cannot express the draft (boolean schemas have no $schema).
func viaFor(schema any, draft, via int) int {
	if _, ok := schema.(obj); !ok && via == viaSchemaKW && draft != Hybrid {
		return viaDraft
	}
	return via
}

// ---------------------------------------------------------------------------------------------
// Observed errors

type obsErr struct {
	typ     string
	path    string // joined by \x00
	value   any
	details gjs.ErrorDetails
	e       gjs.ResultError
}

func observe(res *gjs.Result) []obsErr {
	var os []obsErr
	for _, e := range res.Errors() {
		os = append(os, obsErr{e.Type(), e.Context().String("\x00"), e.Value(), e.Details(), e})
	}
	return os
}

// fingerprint renders everything a caller can read about an error.
func fingerprint(e gjs.ResultError) string {
	ctx := "<nil>"
	if e.Context() != nil {
		ctx = e.Context().String("\x00")
	}
	var ds []string
	for k, v := range e.Details() {
		ds = append(ds, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(ds)
	return fmt.Sprintf("%s|%s|%s|%s|%s|%s|%s|%s", e.Type(), ctx, e.Field(), canonAny(e.Value()), strings.Join(ds, ";"),
		e.Description(), e.DescriptionFormat(), e.String())
}

func canonAny(v any) string {
	defer func() { recover() }()
	return canon(v)
}

// resultKey is the unordered collection of errors of a result.
func resultKey(res *gjs.Result) string {
	var fs []string
	for _, e := range res.Errors() {
		fs = append(fs, fingerprint(e))
	}
	sort.Strings(fs)
	return fmt.Sprintf("valid=%v n=%d\n%s", res.Valid(), len(fs), strings.Join(fs, "\n"))
}

func short(s string) string {
	if len(s) > 400 {
		return s[:400] + "…"
	}
	return s
}
