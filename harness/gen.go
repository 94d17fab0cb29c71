package harness

import (
	"math/big"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// R wraps rapid so that every random choice goes through it.
type R struct{ t *rapid.T }

var boolGen = rapid.Bool()

// n draws uniformly from 0..k-1, shrinking to 0. rapid's own integer generators favour small
// numbers so much that percentages and weights would not mean what they say.
func (r R) n(k int) int {
	if k <= 1 {
		return 0
	}
	// draw binary digits of a fraction until they decide
	u := 0
	for bits := 1; ; bits++ {
		u <<= 1
		if boolGen.Draw(r.t, "") {
			u++
		}
		lo, hi := u*k>>bits, ((u+1)*k-1)>>bits
		if lo == hi || bits >= 24 && bits >= 2*bitLen(k) {
			return lo
		}
	}
}

func bitLen(k int) int {
	n := 0
	for ; k > 0; k >>= 1 {
		n++
	}
	return n
}

// between draws from lo..hi.
func (r R) between(lo, hi int) int { return lo + r.n(hi-lo+1) }

// p is true with the given percentage; shrinks to false.
func (r R) p(percent int) bool {
	if percent <= 0 {
		return false
	}
	if percent >= 100 {
		return true
	}
	return r.weighted(100-percent, percent) == 1
}

func pick[T any](r R, xs []T) T { return xs[r.n(len(xs))] }

// weighted picks an index by weight.
func (r R) weighted(ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	bucket := func(x int) int {
		for i, w := range ws {
			if x < w {
				return i
			}
			x -= w
		}
		return len(ws) - 1
	}
	u := 0
	for bits := 1; ; bits++ {
		u <<= 1
		if boolGen.Draw(r.t, "") {
			u++
		}
		lo, hi := bucket(u*sum>>bits), bucket(((u+1)*sum-1)>>bits)
		if lo == hi || bits >= 24 {
			return lo
		}
	}
}

func shuffle[T any](r R, xs []T) []T {
	ys := append([]T(nil), xs...)
	for i := len(ys) - 1; i > 0; i-- {
		j := i - r.n(i+1)
		ys[i], ys[j] = ys[j], ys[i]
	}
	return ys
}

// ---------------------------------------------------------------------------------------------
// Numbers

func (r R) digits(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.n(10))
	}
	return string(b)
}

func stripLeading(s string) string {
	s = strings.TrimLeft(s, "0")
	if s == "" {
		return "0"
	}
	return s
}

var magicInts = []string{
	"9007199254740991", "9007199254740992", "9007199254740993", "9007199254740994",
	"2147483647", "2147483648", "4294967295", "4294967296",
	"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
	"100000000000000000000000000000000", "100000000000000000000000000000001",
	"123456789012345678901234567890", "123456789012345678901234567891",
	"16777216", "16777217", "65536", "256", "1000000000000000128",
}

// numLit draws a JSON number literal with moderate exponent.
func (r R) numLit() string {
	sign := ""
	switch r.weighted(40, 15, 10, 8, 5, 6, 6, 5) {
	case 0:
		return strconv.Itoa(r.between(0, 12) - 3)
	case 1:
		if r.p(30) {
			sign = "-"
		}
		return sign + strconv.Itoa(r.n(12)) + "." + r.digits(r.between(1, 3))
	case 2:
		if r.p(30) {
			sign = "-"
		}
		m := strconv.Itoa(r.n(30))
		if r.p(40) {
			m += "." + r.digits(r.between(1, 2))
		}
		return sign + m + pick(r, []string{"e", "E"}) + pick(r, []string{"", "+", "-"}) + strconv.Itoa(r.n(6))
	case 3:
		if r.p(30) {
			sign = "-"
		}
		return sign + pick(r, magicInts)
	case 4:
		if r.p(30) {
			sign = "-"
		}
		s := stripLeading(r.digits(r.between(15, 50)))
		if r.p(50) {
			s += "." + r.digits(r.between(1, 40))
		}
		return sign + s
	case 5:
		return pick(r, []string{"0", "-0", "0.0", "-0.0", "0e5", "-0e-3", "0.000"})
	case 6:
		return pick(r, []string{"0.1", "0.01", "0.0001", "0.3", "0.07", "1.1", "19.99", "0.0075", "0.1e-6", "1e-10"})
	default:
		if r.p(30) {
			sign = "-"
		}
		return sign + strconv.Itoa(1+r.n(9)) + "e" + pick(r, []string{"", "-"}) + strconv.Itoa(pick(r, []int{20, 21, 22, 100, 307, 308, 309, 400, 1000}))
	}
}

func litOf(d decimal) string {
	if d.digits == "" {
		return "0"
	}
	s := ""
	if d.neg {
		s = "-"
	}
	e := d.exp.Int64()
	n := int64(len(d.digits))
	switch {
	case e == 0:
		return s + d.digits
	case e > 0 && e < 30:
		return s + d.digits + strings.Repeat("0", int(e))
	case e < 0 && -e < n:
		return s + d.digits[:n+e] + "." + d.digits[n+e:]
	case e < 0 && -e < n+20:
		return s + "0." + strings.Repeat("0", int(-e-n)) + d.digits
	}
	return s + d.digits + "e" + strconv.FormatInt(e, 10)
}

// respell draws another literal for the same number.
func (r R) respell(lit string) string {
	d := parseDecimal(lit)
	if d.digits == "" {
		return pick(r, []string{"0", "-0", "0.0", "-0.0", "0e7", "0E-7", "0.00e+1"})
	}
	s := ""
	if d.neg {
		s = "-"
	}
	if !d.exp.IsInt64() || d.exp.Int64() > 100000 || d.exp.Int64() < -100000 {
		return s + d.digits + "e" + d.exp.String()
	}
	e := d.exp.Int64()
	switch r.n(5) {
	case 0:
		return litOf(d)
	case 1: // trailing fraction zeros
		l := litOf(d)
		if strings.ContainsAny(l, "eE") {
			return strings.Replace(l, "e", "E", 1)
		}
		if strings.Contains(l, ".") {
			return l + strings.Repeat("0", r.between(1, 3))
		}
		return l + "." + strings.Repeat("0", r.between(1, 3))
	case 2: // scientific
		m := d.digits[:1]
		if len(d.digits) > 1 {
			m += "." + d.digits[1:]
		}
		x := e + int64(len(d.digits)) - 1
		es := strconv.FormatInt(x, 10)
		if x >= 0 && r.p(50) {
			es = "+" + es
		}
		return s + m + pick(r, []string{"e", "E"}) + es
	case 3: // shifted
		k := int64(r.between(1, 4))
		return s + d.digits + strings.Repeat("0", int(k)) + "e" + strconv.FormatInt(e-k, 10)
	default: // leading fraction
		k := r.n(3)
		return s + "0." + strings.Repeat("0", k) + d.digits + "e" + strconv.FormatInt(e+int64(len(d.digits))+int64(k), 10)
	}
}

// perturb draws a literal for a different but close number.
func (r R) perturb(lit string) string {
	d := parseDecimal(lit)
	if d.digits == "" {
		return pick(r, []string{"1", "-1", "1e-30", "-0.1", "5e-324", "1e-400"})
	}
	if !d.exp.IsInt64() || d.exp.Int64() > 100000 || d.exp.Int64() < -100000 {
		return "1"
	}
	switch r.n(6) {
	case 0: // flip sign
		d.neg = !d.neg
		return litOf(d)
	case 1: // one more digit far behind
		k := r.between(0, 25)
		d.digits += strings.Repeat("0", k) + "1"
		d.exp = new(big.Int).Sub(d.exp, big.NewInt(int64(k+1)))
		return litOf(d)
	case 2: // exponent by one
		d.exp = new(big.Int).Add(d.exp, big.NewInt(int64(1-2*r.n(2))))
		return litOf(d)
	case 3: // +-1 unit in the last place
		n, _ := new(big.Int).SetString(d.digits, 10)
		n.Add(n, big.NewInt(int64(1-2*r.n(2))))
		q := parseDecimal(n.String())
		if q.digits == "" {
			return "0"
		}
		q.neg = d.neg
		q.exp.Add(q.exp, d.exp)
		return litOf(q)
	default: // +-1
		if d.exp.Sign() > 0 && d.exp.Int64() > 400 {
			return "1"
		}
		x := d.rat()
		x.Add(x, big.NewRat(int64(1-2*r.n(2)), 1))
		p := 0
		if d.exp.Sign() < 0 {
			p = int(-d.exp.Int64())
		}
		if p > 1200 {
			return "1"
		}
		return litOf(parseDecimal(x.FloatString(p)))
	}
}

// ---------------------------------------------------------------------------------------------
// Strings and names

// characters that some notions of length or equality treat in a special way
var oddRunes = []rune{'é', 'ß', '日', '😀', '𝒜', '\u0301', 0x7f, 0x10FFFF, 0xFFFD, 0x800, 0x7ff, 0xffff,
	0x200d, 0xfe0f, 0x00ad, 0x200b, 0xfeff, 0x2028, 0x2029, 0x85, 0xa0, 0x3000, 0x1f1e9, 0x1f3fd, 0xd7ff, 0xe000, 0x1160, 0xac00, 0x0130, 0x0131, 0x03c2, 0x212a, 0xff21, 0x202e, 0xe0061, 0, '\r', '\n', '\t', '\b'}

var oddPairs = []string{"\r\n", "\n\r", "\n\n", "e\u0301", "\u1100\u1161", "👨\u200d👩", "🇩🇪", "👍🏽", "❤\ufe0f", "fi", "ss", "  ", "\\n", "\\u0061", "&lt;", "%20", "\t "}

var stringPool = []string{
	"", "a", "b", "c", "ab", "abc", "foo", "bar", "1", "0", "true", "null", "é", "日本", "日本語", "😀", "a😀b", "e\u0301",
	"\u0000", "\n", "\"", "\\", "/", "~", "%", "a b", "A", "aaaa", "baab", "\u2028", "<&>", "𝒜𝒷", "o", "x", " a", "a ", "b\n", "Foo", "\tab",
	"\U0010FFFF", "\uFFFD", "αβγ", "12", "foo1",
}

func (r R) str() string {
	if r.p(70) {
		return pick(r, stringPool)
	}
	n := r.n(6)
	if r.p(2) {
		// long, cheap to draw
		return strings.Repeat(pick(r, []string{"a", "ab", "é", "日本", "😀", " ", "foo1"}), r.between(5, pick(r, []int{20, 70, 300}))) + pick(r, stringPool)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch r.n(5) {
		case 0, 1:
			b.WriteByte(byte('a' + r.n(4)))
		case 2:
			b.WriteRune(pick(r, oddRunes))
		case 3:
			b.WriteByte(byte('0' + r.n(10)))
		default:
			if r.p(10) {
				b.WriteString(pick(r, oddPairs))
				break
			}
			b.WriteByte(byte(' ' + r.n(95)))
		}
	}
	return b.String()
}

var plainNames = []string{"a", "b", "c", "d", "foo", "bar", "ab", "ba"}
var oddNames = []string{"", "$ref", "$id", "id", "const", "enum", "properties", "definitions", "type", "items", "default",
	"required", "dependencies", "patternProperties", "not", "allOf", "format", "$schema", "a/b", "~", "~1", "%25", "a b", "é", "0", "1", "(root)", "a.b", "😀", "a\"b", "\\", "#", "A", "length", "additionalProperties",
	" a", "a ", "a\t", "\nfoo", "foo ", "FOO", "Bar", "e\u0301", "a\u0000", "aa", "__proto__", "a[0]", "-1", "constructor"}

type patSample struct {
	pat  string
	hits []string
}

var patterns = []patSample{
	{"^a", []string{"a", "ab", "aé"}},
	{"b$", []string{"b", "ab", "foob"}},
	{"^[a-c]+$", []string{"abc", "a", "ba"}},
	{"o", []string{"foo", "o", "\no"}},
	{"^.{2}$", []string{"ab", "日本", "ba", "😀a"}},
	{"^$", []string{""}},
	{"[0-9]", []string{"1", "foo1", "a0b"}},
	{"a|b", []string{"a", "b", "bar"}},
	{"^foo$", []string{"foo"}},
	{"é", []string{"é", "éa"}},
	{"^\\$", []string{"$ref", "$id"}},
	{"^(ab)+$", []string{"ab", "abab"}},
	{"\\d{2}", []string{"12", "a123"}},
	{"^[^a]*$", []string{"", "b", "foo"}},
	{"", []string{"", "a"}},
	{"a.c", []string{"abc", "xabcx"}},
	{"r$", []string{"bar"}},
	{"a ", []string{"a ", "ba "}},
	{"$", []string{"", "a", "foo"}},
	{"b*$", []string{"", "a", "ab", "foo"}},
	{"(?:x|\\b$)", []string{"x", "a", "a x"}},
	{"^b*", []string{"", "a", "b", "bb"}},
	{" ", []string{" ", "a b"}},
	{"^ a", []string{" a"}},
	{"\n$", []string{"a\n", "\n"}},
	{"(?i)^ab", []string{"AB", "abc"}},
	{"/", []string{"a/b", "/"}},
	{"^(a|b)?$", []string{"", "a"}},
	{"\\.", []string{".", "a.b"}},
	{"\\bfoo\\b", []string{"foo", "a foo"}},
	{"\\p{L}{2}", []string{"ab", "éé"}},
	{"const", []string{"const", "constant"}},
	{"enum", []string{"enum"}},
	{"^properties$", []string{"properties"}},
	{"items", []string{"items", "additionalItems"}},
}

// ---------------------------------------------------------------------------------------------
// Plain values

func (r R) name(odd int) string {
	if r.p(odd) {
		if r.p(4) {
			return r.str()
		}
		return pick(r, oddNames)
	}
	return pick(r, plainNames)
}

// nearName changes a name a little.
func (r R) nearName(k string) string {
	switch r.n(8) {
	case 0:
		return strings.ToUpper(k)
	case 1:
		return k + pick(r, []string{" ", "\n", "\t", "\u0000", ".", "/", "s", "\u00a0", "\u200b"})
	case 2:
		return pick(r, []string{" ", "\n", "\ufeff", "_", "/", "x"}) + k
	case 3:
		return k + k
	case 4:
		if rs := []rune(k); len(rs) > 0 {
			return string(rs[:len(rs)-1])
		}
	case 5:
		return strings.ToLower(k)
	case 6:
		return strings.NewReplacer("/", "~1", "~", "~0", "%", "%25", " ", "%20").Replace(k)
	}
	return strings.TrimSpace(k)
}

func (r R) scalar() any {
	switch r.weighted(12, 15, 40, 33) {
	case 0:
		return nil
	case 1:
		return r.n(2) == 1
	case 2:
		return num(r.numLit())
	}
	return r.str()
}

func (r R) value(depth int) any {
	if depth <= 0 {
		return r.scalar()
	}
	switch r.weighted(60, 20, 20) {
	case 1:
		n := r.n(4)
		if r.p(2) {
			return r.manyItems(r.between(10, pick(r, []int{20, 40, 150})))
		}
		a := make(arr, 0, n)
		for i := 0; i < n; i++ {
			a = append(a, r.value(depth-1))
		}
		return a
	case 2:
		n := r.n(4)
		o := obj{}
		if r.p(2) {
			for i := r.between(10, pick(r, []int{20, 40, 100})); i > 0; i-- {
				o["m"+strconv.Itoa(i)] = num(strconv.Itoa(i % 7))
			}
			return o
		}
		for i := 0; i < n; i++ {
			o[r.name(20)] = r.value(depth - 1)
		}
		return o
	}
	return r.scalar()
}

// manyItems is a long array of distinct, cheaply drawn values, some of them of another kind.
func (r R) manyItems(n int) arr {
	a := make(arr, n)
	kind := r.n(4)
	for i := range a {
		t := strconv.Itoa(i)
		switch kind {
		case 0:
			a[i] = num(t)
		case 1:
			a[i] = "s" + t
		case 2:
			a[i] = arr{num(t)}
		default:
			a[i] = obj{"a": num(t)}
		}
	}
	for k := r.n(4); k > 0; k-- {
		a[r.n(n)] = r.scalar()
	}
	if r.p(50) {
		// a duplicate, anywhere
		a[r.n(n)] = r.respellValue(clone(a[r.n(n)]))
	}
	return a
}

// pattern draws a regular expression.
func (r R) pattern() string {
	if r.p(80) {
		return pick(r, patterns).pat
	}
	a, b := pick(r, patterns).pat, pick(r, patterns).pat
	switch r.n(5) {
	case 0:
		return a + "|" + b
	case 1:
		return "(" + a + ")"
	case 2:
		return "(?i)" + strings.ToUpper(pick(r, []string{"^a", "foo", "b$", "é"}))
	case 3:
		return "(?:" + a + "){1,2}"
	}
	return "(?:" + a + ")(?:" + b + ")?"
}

// hitsOf lists strings that may match a pattern of r.pattern.
func hitsOf(pat string) []string {
	var hits []string
	for _, s := range patterns {
		if s.pat == pat {
			return s.hits
		}
		if s.pat != "" && strings.Contains(pat, s.pat) {
			hits = append(hits, s.hits...)
		}
	}
	if strings.HasPrefix(pat, "(?i)") {
		hits = append(hits, "a", "A", "Ab", "foo", "FOO", "fOo", "É", "é", "aB", "b")
	}
	return hits
}

// respellValue returns an equal value with numbers re-spelled.
func (r R) respellValue(v any) any {
	switch x := v.(type) {
	case num:
		return num(r.respell(string(x)))
	case arr:
		a := make(arr, len(x))
		for i := range x {
			a[i] = r.respellValue(x[i])
		}
		return a
	case obj:
		o := obj{}
		for _, k := range sortedKeys(x) {
			o[k] = r.respellValue(x[k])
		}
		return o
	}
	return v
}

// nearMiss edits a value slightly; the result is usually (not always) different.
func (r R) nearMiss(v any) any {
	switch x := v.(type) {
	case nil:
		return pick(r, []any{false, num("0"), "", "null", arr{}, obj{}})
	case bool:
		return pick(r, []any{!x, num("0"), num("1"), "true", "false", nil, arr{x}})
	case num:
		if r.p(70) {
			return num(r.perturb(string(x)))
		}
		return pick(r, []any{string(x), arr{x}, nil, true, false, obj{"a": x}})
	case string:
		switch r.n(5) {
		case 0:
			return x + pick(r, []string{" ", "\u0000", "a", "\u0301"})
		case 1:
			return strings.ToUpper(x)
		case 2:
			if len(x) > 0 {
				rs := []rune(x)
				return string(rs[:len(rs)-1])
			}
			return nil
		case 3:
			return arr{x}
		}
		if _, err := decode(x); err == nil && x != "" {
			v, _ := decode(x)
			return v
		}
		return x + x + "x"
	case arr:
		a := append(arr{}, x...)
		switch r.n(5) {
		case 0:
			return append(a, r.scalar())
		case 1:
			if len(a) > 0 {
				i := r.n(len(a))
				return append(a[:i:i], a[i+1:]...)
			}
			return obj{}
		case 2:
			if len(a) > 1 {
				i := r.n(len(a) - 1)
				a[i], a[i+1] = a[i+1], a[i]
				return a
			}
			return arr{a}
		}
		if len(a) > 0 {
			i := r.n(len(a))
			a[i] = r.nearMiss(a[i])
			return a
		}
		return arr{nil}
	case obj:
		o := clone(x).(obj)
		ks := sortedKeys(o)
		switch r.n(4) {
		case 0:
			o[r.name(10)] = r.scalar()
			return o
		case 1:
			if len(ks) > 0 {
				delete(o, pick(r, ks))
				return o
			}
			return arr{}
		case 2:
			if len(ks) > 0 {
				k := pick(r, ks)
				v := o[k]
				delete(o, k)
				o[k+"x"] = v
				return o
			}
			return nil
		}
		if len(ks) > 0 {
			k := pick(r, ks)
			o[k] = r.nearMiss(o[k])
			return o
		}
		return obj{"a": nil}
	}
	return nil
}
