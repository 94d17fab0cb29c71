package harness

import (
	_ "embed"
	"regexp"
	"strings"
)

// Own copies of the draft meta-schemas (from json-schema.org, as published).

//go:embed meta/draft4.json
var metaText4 string

//go:embed meta/draft6.json
var metaText6 string

//go:embed meta/draft7.json
var metaText7 string

var metaDocs = map[int]any{D4: mustDecode(metaText4), D6: mustDecode(metaText6), D7: mustDecode(metaText7)}

// metaDoc returns a shared document; it must not be modified.
func metaDoc(draft int) any { return metaDocs[draft] }

func metaURL(draft int) string { return strings.TrimSuffix(draftURL[draft], "#") }

func (w *world) addMeta() {
	for _, d := range []int{D4, D6, D7} {
		w.addDoc(metaURL(d), metaDoc(d), d)
	}
}

var simpleURI = regexp.MustCompile(`^(https?://[a-z.-]+/[A-Za-z0-9/._-]*)?(#[A-Za-z0-9/._~%-]*)?$`)

func init() {
	// formats used by the meta-schemas; what is not plainly decidable is discarded
	modelFormats["regex"] = func(v any) bool {
		s, ok := v.(string)
		if !ok {
			return true
		}
		_, err := regexp.Compile(s)
		return err == nil
	}
	uriRef := func(v any) bool {
		s, ok := v.(string)
		if !ok {
			return true
		}
		if simpleURI.MatchString(s) && !strings.Contains(s, "%") || plainWord.MatchString(s) {
			return true
		}
		panic(modelLimit{})
	}
	modelFormats["uri-reference"] = uriRef
	modelFormats["uri"] = func(v any) bool {
		s, ok := v.(string)
		if !ok {
			return true
		}
		if strings.HasPrefix(s, "http") && simpleURI.MatchString(s) {
			return true
		}
		panic(modelLimit{})
	}
}

var plainWord = regexp.MustCompile(`^[A-Za-z0-9]*$`)
