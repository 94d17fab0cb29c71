package harness

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode"

	gjs "github.com/xeipuuv/gojsonschema"
)

// Recognisers answer +1 (unambiguously well-formed), -1 (unambiguously ill-formed) or 0 (the
// documentation leaves it open).

func digitsAt(s string, i, n int) (int, bool) {
	if i+n > len(s) {
		return 0, false
	}
	v := 0
	for _, c := range []byte(s[i : i+n]) {
		if c < '0' || c > '9' {
			return 0, false
		}
		v = v*10 + int(c-'0')
	}
	return v, true
}

func recDate(s string) int {
	if len(s) != 10 || s[4] != '-' || s[7] != '-' {
		return -1
	}
	y, ok1 := digitsAt(s, 0, 4)
	m, ok2 := digitsAt(s, 5, 2)
	d, ok3 := digitsAt(s, 8, 2)
	if !ok1 || !ok2 || !ok3 || m < 1 || m > 12 || d < 1 {
		return -1
	}
	days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[m-1]
	if m == 2 && (y%4 == 0 && y%100 != 0 || y%400 == 0) {
		days = 29
	}
	if d > days {
		return -1
	}
	if y == 0 {
		return 0
	}
	return 1
}

// recTime recognises partial-time, or full-time when an offset follows.
func recTime(s string) (verdict int, offset bool) {
	h, ok1 := digitsAt(s, 0, 2)
	m, ok2 := digitsAt(s, 3, 2)
	sec, ok3 := digitsAt(s, 6, 2)
	if !ok1 || !ok2 || !ok3 || s[2] != ':' || s[5] != ':' || h > 23 || m > 59 || sec > 60 {
		return -1, false
	}
	open := sec == 60 // leap seconds
	rest := s[8:]
	if strings.HasPrefix(rest, ".") {
		n := 1
		for n < len(rest) && rest[n] >= '0' && rest[n] <= '9' {
			n++
		}
		if n == 1 {
			return -1, false
		}
		open = open || n > 10
		rest = rest[n:]
	}
	switch {
	case rest == "":
	case rest == "Z":
		offset = true
	case rest == "z":
		offset, open = true, true
	default:
		if len(rest) != 6 || rest[0] != '+' && rest[0] != '-' || rest[3] != ':' {
			return -1, false
		}
		oh, ok1 := digitsAt(rest, 1, 2)
		om, ok2 := digitsAt(rest, 4, 2)
		if !ok1 || !ok2 || oh > 23 || om > 59 {
			return -1, false
		}
		offset = true
	}
	if open {
		return 0, offset
	}
	return 1, offset
}

func recDateTime(s string) int {
	if len(s) > 11 && (s[10] == 'T' || s[10] == 't') {
		d := recDate(s[:10])
		t, offset := recTime(s[11:])
		if d < 0 || t < 0 || !offset {
			return -1
		}
		if s[10] == 't' || d == 0 || t == 0 {
			return 0
		}
		return 1
	}
	if d := recDate(s); d >= 0 {
		return d
	}
	t, _ := recTime(s)
	return t
}

func alnum(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func recHostname(s string) int {
	if s == "" {
		return -1
	}
	for _, l := range strings.Split(s, ".") {
		if l == "" || len(l) > 63 || !alnum(l[0]) || !alnum(l[len(l)-1]) {
			return -1
		}
		for i := 0; i < len(l); i++ {
			if !alnum(l[i]) && l[i] != '-' {
				return -1
			}
		}
	}
	switch {
	case len(s) <= 253:
		return 1
	case len(s) <= 255:
		return 0
	}
	return -1
}

func atext(c rune) bool {
	return c < 128 && (alnum(byte(c)) || strings.ContainsRune("!#$%&'*+-/=?^_`{|}~", c)) || c >= 128 && unicode.IsLetter(c)
}

func dotAtom(s string, ok func(rune) bool) bool {
	for _, a := range strings.Split(s, ".") {
		if a == "" {
			return false
		}
		for _, c := range a {
			if !ok(c) {
				return false
			}
		}
	}
	return true
}

func recEmail(s string) int {
	if !strings.Contains(s, "@") {
		return -1
	}
	if strings.ContainsAny(s, "\"<>()[]:;\t\r\n") || strings.Contains(s, "=?") || strings.TrimSpace(s) != s {
		return 0
	}
	for i, c := range s {
		if c >= 128 && !unicode.IsLetter(c) || c < 32 || c == 127 {
			return 0
		}
		if c == ' ' {
			before, after := s[i-1], s[i+1]
			if !(alnum(before) && alnum(after)) {
				return 0
			}
		}
	}
	ps := strings.Split(s, "@")
	if len(ps) != 2 || !dotAtom(ps[0], atext) || !dotAtom(ps[1], atext) {
		return -1
	}
	if len(s) > 200 || len(ps[0]) > 60 {
		return 0
	}
	for _, l := range strings.Split(ps[1], ".") {
		if len(l) > 60 || strings.HasPrefix(l, "-") || strings.HasSuffix(l, "-") {
			return 0
		}
		for _, c := range l {
			if !(c == '-' || c < 128 && alnum(byte(c)) || c >= 128) {
				return 0
			}
		}
	}
	return 1
}

func recIPv4(s string) int {
	ps := strings.Split(s, ".")
	if len(ps) != 4 {
		return -1
	}
	open := false
	for _, p := range ps {
		if len(p) < 1 || len(p) > 3 {
			return -1
		}
		n, ok := digitsAt(p, 0, len(p))
		if !ok || n > 255 {
			return -1
		}
		open = open || len(p) > 1 && p[0] == '0'
	}
	if open {
		return 0
	}
	return 1
}

func recIPv6(s string) int {
	if strings.Contains(s, "%") {
		return 0
	}
	groups := func(t string, last bool) (n, v int) {
		if t == "" {
			return 0, 1
		}
		v = 1
		ps := strings.Split(t, ":")
		for i, p := range ps {
			if last && i == len(ps)-1 && strings.Contains(p, ".") {
				r := recIPv4(p)
				if r < 0 {
					return 0, -1
				}
				v = min(v, r)
				n += 2
				continue
			}
			if len(p) < 1 || len(p) > 4 {
				return 0, -1
			}
			for _, c := range []byte(p) {
				if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
					return 0, -1
				}
			}
			n++
		}
		return n, v
	}
	if i := strings.Index(s, "::"); i >= 0 {
		l, r := s[:i], s[i+2:]
		if strings.Contains(r, "::") || strings.HasPrefix(r, ":") {
			return -1
		}
		a, va := groups(l, false)
		b, vb := groups(r, true)
		if va < 0 || vb < 0 || a+b > 7 {
			return -1
		}
		return min(va, vb)
	}
	n, v := groups(s, true)
	if v < 0 || n != 8 {
		return -1
	}
	return v
}

var (
	reScheme  = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9+.-]*:`)
	pchars    = `(?:[A-Za-z0-9._~!$&'()*+,;=:@-]|%[0-9A-Fa-f][0-9A-Fa-f]|[éüñ日本語])`
	reSegment = regexp.MustCompile(`^` + pchars + `*$`)
	reQuery   = regexp.MustCompile(`^(?:` + pchars + `|[/?])*$`)
	reHost    = regexp.MustCompile(`^[A-Za-z0-9._~-]*$`)
	reUser    = regexp.MustCompile(`^[A-Za-z0-9._~:-]*$`)
	rePort    = regexp.MustCompile(`^[0-9]{0,5}$`)
)

func badEscape(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && (i+2 >= len(s) || !isHex(s[i+1]) || !isHex(s[i+2])) {
			return true
		}
	}
	return false
}

func isHex(c byte) bool { return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }

func recURI(s string, absolute bool) int {
	fragmentControl := false
	for i, c := range []byte(s) {
		if c == '\\' {
			return -1
		}
		if c < 32 || c == 127 {
			if !strings.Contains(s[:i], "#") {
				return -1
			}
			fragmentControl = true // Go's parser does not look
		}
	}
	if fragmentControl {
		return 0
	}
	scheme := reScheme.FindString(s)
	if absolute && scheme == "" {
		return -1
	}
	rest, frag, _ := strings.Cut(s, "#")
	if badEscape(frag) {
		return -1
	}
	if len(rest) < len(scheme) {
		return -1 // cannot happen: # is no scheme character
	}
	rest = rest[len(scheme):]
	hier, query, _ := strings.Cut(rest, "?")
	if badEscape(hier) {
		if scheme != "" && !strings.HasPrefix(hier, "/") {
			return 0 // opaque parts are taken as they are
		}
		return -1
	}
	if badEscape(query) {
		return 0
	}
	path := hier
	if strings.HasPrefix(hier, "//") {
		auth, p, slash := strings.Cut(hier[2:], "/")
		path = ""
		if slash {
			path = "/" + p
		}
		if i := strings.LastIndexByte(auth, '@'); i >= 0 {
			if !reUser.MatchString(auth[:i]) {
				return 0
			}
			auth = auth[i+1:]
		}
		host, port := auth, ""
		if strings.HasPrefix(auth, "[") {
			i := strings.IndexByte(auth, ']')
			if i < 0 {
				return -1
			}
			if recIPv6(auth[1:i]) != 1 {
				return 0
			}
			host, port = "h", auth[i+1:]
			if port != "" && port[0] != ':' {
				return -1
			}
			port = strings.TrimPrefix(port, ":")
		} else if i := strings.IndexByte(auth, ':'); i >= 0 {
			host, port = auth[:i], auth[i+1:]
		}
		if strings.Contains(host, " ") {
			return -1
		}
		if !rePort.MatchString(port) {
			if strings.Trim(port, "0123456789") != "" && regexp.MustCompile(`^[a-zA-Z0-9]*$`).MatchString(port) {
				return -1
			}
			return 0
		}
		if !reHost.MatchString(host) {
			return 0
		}
	} else if scheme == "" {
		first, _, _ := strings.Cut(hier, "/")
		if i := strings.IndexByte(first, ':'); i >= 0 {
			return -1
		}
	}
	for _, seg := range strings.Split(path, "/") {
		if !reSegment.MatchString(seg) {
			return 0
		}
	}
	if !reQuery.MatchString(query) || !reQuery.MatchString(frag) {
		return 0
	}
	return 1
}

var (
	reExpr    = regexp.MustCompile(`^\{[+#./;?&]?(?:[A-Za-z0-9_.]|%[0-9A-Fa-f]{2})+(?::[1-9][0-9]{0,3}|\*)?(?:,(?:[A-Za-z0-9_.]|%[0-9A-Fa-f]{2})+(?::[1-9][0-9]{0,3}|\*)?)*\}$`)
	reLiteral = regexp.MustCompile(`^(?:[A-Za-z0-9._~:/?#\[\]@!$&()*+,;=-]|%[0-9A-Fa-f]{2}|[éüñ日本語])*$`)
)

func recTemplate(s string) int {
	for _, c := range []byte(s) {
		if c < 32 || c == 127 || c == '\\' {
			return -1
		}
	}
	yes := true
	for s != "" {
		i := strings.IndexAny(s, "{}")
		if i < 0 {
			i = len(s)
		}
		if badEscape(s[:i]) {
			return -1
		}
		yes = yes && reLiteral.MatchString(s[:i])
		s = s[i:]
		if s == "" {
			break
		}
		j := strings.IndexByte(s, '}')
		if s[0] == '}' || j < 0 || strings.Contains(s[1:j], "{") {
			return -1
		}
		yes = yes && reExpr.MatchString(s[:j+1])
		s = s[j+1:]
	}
	if yes {
		return 1
	}
	return 0
}

func recUUID(s string) int {
	if len(s) != 36 {
		return -1
	}
	for i := 0; i < 36; i++ {
		if i == 8 || i == 13 || i == 18 || i == 23 {
			if s[i] != '-' {
				return -1
			}
		} else if !isHex(s[i]) {
			return -1
		}
	}
	return 1
}

func recPointer(s string) int {
	if s != "" && s[0] != '/' {
		return -1
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '~' && (i+1 >= len(s) || s[i+1] != '0' && s[i+1] != '1') {
			return -1
		}
	}
	return 1
}

func recRelPointer(s string) int {
	n := 0
	for n < len(s) && s[n] >= '0' && s[n] <= '9' {
		n++
	}
	if n == 0 || n > 1 && s[0] == '0' {
		return -1
	}
	if s[n:] == "#" {
		return 1
	}
	return recPointer(s[n:])
}

func recRegex(s string) int {
	if _, err := regexp.Compile(s); err != nil {
		return -1
	}
	return 1
}

var recognisers = map[string]func(string) int{
	"date": recDate, "time": func(s string) int { v, _ := recTime(s); return v }, "date-time": recDateTime, "hostname": recHostname,
	"email": recEmail, "idn-email": recEmail, "ipv4": recIPv4, "ipv6": recIPv6,
	"uri": func(s string) int { return recURI(s, true) }, "iri": func(s string) int { return recURI(s, true) },
	"uri-reference": func(s string) int { return recURI(s, false) }, "iri-reference": func(s string) int { return recURI(s, false) },
	"uri-template": recTemplate, "uuid": recUUID, "regex": recRegex, "json-pointer": recPointer, "relative-json-pointer": recRelPointer,
}

// ---------------------------------------------------------------------------------------------
// Generators

func (r R) dd(xs ...string) string {
	if r.p(50) {
		return pick(r, xs)
	}
	return fmt.Sprintf("%02d", r.n(62))
}

func (r R) genDate() string {
	y := pick(r, []string{"2020", "2019", "1900", "2000", "2100", "0001", "9999", "1970", "2024", "0004"})
	if r.p(30) {
		y = fmt.Sprintf("%04d", r.n(10000))
	}
	return y + "-" + r.dd("01", "02", "02", "04", "12", "06", "13", "00", "10") + "-" + r.dd("01", "28", "29", "30", "31", "32", "00", "10", "15")
}

func (r R) genTime() string {
	s := r.dd("00", "23", "24", "12", "09") + ":" + r.dd("00", "59", "60", "30") + ":" + r.dd("00", "59", "61", "58")
	if r.p(35) {
		s += "." + r.digits(r.between(1, 9))
	}
	switch r.n(4) {
	case 0:
		s += "Z"
	case 1, 2:
		s += pick(r, []string{"+", "-"}) + r.dd("00", "23", "24", "14", "01") + ":" + r.dd("00", "59", "60", "30")
	}
	return s
}

func (r R) from(alphabet string, lo, hi int) string {
	var b strings.Builder
	rs := []rune(alphabet)
	for i := r.between(lo, hi); i > 0; i-- {
		b.WriteRune(rs[r.n(len(rs))])
	}
	return b.String()
}

func (r R) label() string {
	n := pick(r, []int{1, 2, 3, 5, 61, 62, 63, 64})
	if n < 10 {
		return r.from("abzAZ019-", n, n)
	}
	return pick(r, []string{"a", "0", "Z"}) + strings.Repeat(pick(r, []string{"a", "-", "9"}), n-2) + pick(r, []string{"a", "9", "A"})
}

func (r R) genHost() string {
	var ls []string
	k := r.between(1, 4)
	if r.p(15) {
		k = pick(r, []int{5, 100, 126, 127, 128})
	}
	for i := 0; i < k; i++ {
		if k > 10 {
			ls = append(ls, pick(r, []string{"a", "b", "c", "dd"}))
		} else {
			ls = append(ls, r.label())
		}
	}
	return strings.Join(ls, ".")
}

const unicodeLetters = "éüñ日本語"

func (r R) genEmail() string {
	atom := func() string { return r.from("abcXYZ019!#$%&'*+-/=?^_`{|}~"+unicodeLetters, 1, 6) }
	local := atom()
	for r.p(30) {
		local += "." + atom()
	}
	dom := r.from("abcXYZ019-"+unicodeLetters, 1, 6)
	for r.p(50) {
		dom += "." + r.from("abcXYZ019-", 1, 5)
	}
	return local + "@" + dom
}

func (r R) octet() string {
	return pick(r, []string{"0", "1", "9", "10", "99", "100", "199", "200", "249", "250", "255", "256", "260", "300", "999", strconv.Itoa(r.n(256))})
}

func (r R) genIPv4() string { return r.octet() + "." + r.octet() + "." + r.octet() + "." + r.octet() }

func (r R) genIPv6() string {
	n := pick(r, []int{8, 8, 7, 6, 9, 3, 1, 2, 0, 5})
	var gs []string
	for i := 0; i < n; i++ {
		g := r.from("0123456789abcdefABCDEF", 1, 4)
		if r.p(30) {
			g = pick(r, []string{"0", "ffff", "0000", "FFFF", "1"})
		}
		gs = append(gs, g)
	}
	if r.p(20) && len(gs) > 1 {
		gs = append(gs[:len(gs)-2], r.genIPv4())
	}
	if r.p(55) && n < 9 {
		i := r.n(len(gs) + 1)
		return strings.Join(gs[:i], ":") + "::" + strings.Join(gs[i:], ":")
	}
	return strings.Join(gs, ":")
}

func (r R) segment() string {
	var b strings.Builder
	for i := r.n(5); i > 0; i-- {
		switch r.n(6) {
		case 0:
			b.WriteString(fmt.Sprintf("%%%02X", r.n(256)))
		case 1:
			b.WriteString(pick(r, []string{"!", "$", "&", "'", "(", ")", "*", "+", ",", ";", "=", ":", "@", ".", "..", "~", "-", "_"}))
		case 2:
			b.WriteString(r.from(unicodeLetters, 1, 1))
		default:
			b.WriteString(r.from("abcXYZ019", 1, 4))
		}
	}
	return b.String()
}

func (r R) genURI() string {
	s := ""
	if r.p(70) {
		s = pick(r, []string{"http", "https", "urn", "a", "x+y.z-1", "mailto", "file", "HTTP", "tel", "1x", "-a", "é"}) + ":"
	}
	switch r.n(4) {
	case 0, 1:
		s += "//"
		if r.p(15) {
			s += pick(r, []string{"user@", "u:p@", "@"})
		}
		switch r.n(6) {
		case 0:
			s += "[" + r.genIPv6() + "]"
		case 1:
			s += r.genIPv4()
		default:
			s += r.from("abcXYZ019.-", 0, 8)
		}
		if r.p(25) {
			s += ":" + pick(r, []string{"80", "", "8080", "65535", "x", "8a"})
		}
		for r.p(50) {
			s += "/" + r.segment()
		}
	case 2:
		s += r.segment()
		for r.p(50) {
			s += "/" + r.segment()
		}
	default:
		for r.p(60) {
			s += "/" + r.segment()
		}
	}
	if r.p(30) {
		s += "?" + r.segment() + pick(r, []string{"", "?", "/", "&a=b"})
	}
	if r.p(30) {
		s += "#" + r.segment() + pick(r, []string{"", "?", "/"})
	}
	return s
}

func (r R) genTemplate() string {
	var b strings.Builder
	expr := func() string {
		v := func() string {
			return pick(r, []string{"a", "var", "x1", "a.b", "a_b", "%41", "q"}) + pick(r, []string{"", "", "", "*", ":1", ":30", ":9999"})
		}
		s := "{" + pick(r, []string{"", "", "+", "#", ".", "/", ";", "?", "&"}) + v()
		for r.p(30) {
			s += "," + v()
		}
		return s + "}"
	}
	b.WriteString(pick(r, []string{"", "http://h/", "http://h.example/a/", "/", "x", "?a=", "http://", "urn:x:"}))
	for i := r.n(4); i > 0; i-- {
		if r.p(60) {
			b.WriteString(expr())
		} else {
			b.WriteString(pick(r, []string{"/", "a", "/b/", "?q=", "#f", "%20", ".", "é", ":", "&x=", "//", "[x]"}))
		}
	}
	return b.String()
}

func (r R) genUUID() string {
	h := func(n int) string { return r.from("0123456789abcdefABCDEF", n, n) }
	return h(8) + "-" + h(4) + "-" + h(4) + "-" + h(4) + "-" + h(12)
}

func (r R) genPointer() string {
	s := ""
	for i := r.n(4); i > 0; i-- {
		s += "/" + pick(r, []string{"", "a", "~0", "~1", "a~0b", "~01", "~0~1", "é", " ", "\n", "#", "%41", "0", "a b", "日本", "\"", "\\"})
	}
	return s
}

func (r R) genRegex(depth int) string {
	s := ""
	for i := r.between(1, 3); i > 0; i-- {
		k := r.n(9)
		if depth <= 0 && k > 5 {
			k = 0
		}
		switch k {
		case 0, 1:
			s += r.from("abc01 é", 1, 3)
		case 2:
			s += pick(r, []string{"[a-z]", "[^a]", "\\d", "\\w", "\\.", ".", "\\s", "[[:alpha:]]", "\\p{L}", "\\\\", "[\\]]", "\\x41"})
		case 3:
			s += pick(r, []string{"^", "$", "\\b"})
		case 4, 5:
			s += "a" + pick(r, []string{"*", "+", "?", "{2}", "{1,3}", "{2,}", "*?", "{3,2}", "{1001}", "**"})
		case 6:
			s += "(" + r.genRegex(depth-1) + ")"
		case 7:
			s += "(?:" + r.genRegex(depth-1) + ")" + pick(r, []string{"", "*", "?"})
		default:
			s += r.genRegex(depth-1) + "|" + r.genRegex(depth-1)
		}
	}
	return s
}

var formatGens = map[string]func(R) string{
	"date": R.genDate, "time": R.genTime,
	"date-time": func(r R) string {
		switch r.n(8) {
		case 0:
			return r.genDate()
		case 1:
			return r.genTime()
		}
		return r.genDate() + "T" + r.genTime()
	},
	"hostname": R.genHost, "email": R.genEmail, "idn-email": R.genEmail, "ipv4": R.genIPv4, "ipv6": R.genIPv6,
	"uri": R.genURI, "iri": R.genURI, "uri-reference": R.genURI, "iri-reference": R.genURI, "uri-template": R.genTemplate,
	"uuid": R.genUUID, "regex": func(r R) string { return r.genRegex(2) }, "json-pointer": R.genPointer,
	"relative-json-pointer": func(r R) string {
		return pick(r, []string{"0", "1", "10", "42", "01", "00", "", "-1", "+1", "12345678901234567890", "0"}) + pick(r, []string{"", "#", r.genPointer(), r.genPointer()})
	},
}

var formatNames = sortedKeys(recognisers)

const editAlphabet = ".:-/@#?%{}[]()~+\\ TZtz0123456789afgAFG,;\n\t\x00\x7féſK１٣\"<>|^_*$&=!"

func (r R) edit(s string) string {
	rs := []rune(s)
	al := []rune(editAlphabet)
	c := al[r.n(len(al))]
	i := r.n(len(rs) + 1)
	switch r.n(6) {
	case 0, 1:
		rs = append(rs[:i:i], append([]rune{c}, rs[i:]...)...)
	case 2:
		if i < len(rs) {
			rs = append(rs[:i:i], rs[i+1:]...)
		}
	case 3:
		if i < len(rs) {
			rs[i] = c
		}
	case 4:
		if i+1 < len(rs) {
			rs[i], rs[i+1] = rs[i+1], rs[i]
		}
	default: // repeat a character or piece
		if i < len(rs) {
			j := min(len(rs), i+r.between(1, 3))
			rs = append(rs[:j:j], append(append([]rune{}, rs[i:j]...), rs[j:]...)...)
		}
	}
	return string(rs)
}

// affixes that may make another text of a text
var affixes = []string{"*.", "*", "_", "mailto:", "http://", "urn:", "urn:uuid:", "//", "/", "#", "#/", "[", "]", "{", "}", "{}", "<", ">", "(", ")", ".", "..", ":", "::", "::ffff:", "%1", "%20", "%", "/24", ":80", ",", "@", "a@",
	"+", "-", "0", "00", "0x", "Z", "T", "+00:00", ".0", "~", "~0", "\ufeff", "\r\n", "\n", "\t", " ", "\x00", "^", "$", "(?i)", "*?", "|"}

type formatCase struct {
	Format string   `json:"format"`
	Texts  []string `json:"texts"`
	Other  JV       `json:"other"` // an instance that is no string
}

func genC19(r R) formatCase {
	c := formatCase{Format: pick(r, formatNames)}
	for i := 0; i < 4; i++ {
		src := c.Format
		if r.p(4) {
			src = pick(r, formatNames)
		}
		s := formatGens[src](r)
		for k := r.weighted(45, 35, 15, 5); k > 0; k-- {
			s = r.edit(s)
		}
		if r.p(5) {
			s = pick(r, affixes) + s
		}
		if r.p(5) {
			s += pick(r, affixes)
		}
		if r.p(2) {
			s = pick(r, []string{"", " ", s + "\n", " " + s, s + " ", s + s})
		}
		c.Texts = append(c.Texts, s)
	}
	for {
		c.Other.V = r.value(1)
		if _, isStr := c.Other.V.(string); !isStr {
			break
		}
		if r.p(50) {
			c.Other.V = nil
			break
		}
	}
	return c
}

func checkC19(c *formatCase, s *S) error {
	sch, err := gjs.NewSchema(gjs.NewStringLoader(encode(obj{"format": c.Format})))
	if err != nil {
		return violationf("format %q: %v", c.Format, err)
	}
	if !gjs.FormatCheckers.Has(c.Format) {
		return violationf("the documented format %q is not registered", c.Format)
	}
	judge := func(v any, want bool) error {
		if got := gjs.FormatCheckers.IsFormat(c.Format, v); got != want {
			return violationf("FormatCheckers.IsFormat(%q, %q) = %v, want %v", c.Format, v, got, want)
		}
		res, err := sch.Validate(gjs.NewStringLoader(encode(v)))
		if err != nil {
			return violationf("validation returned an error: %v", err)
		}
		if res.Valid() != want {
			return violationf("validating %q against format %q: valid=%v, want %v", v, c.Format, res.Valid(), want)
		}
		return nil
	}
	yes, no := 0, 0
	for _, t := range c.Texts {
		v := recognisers[c.Format](t)
		switch v {
		case 1:
			yes++
			s.label("%s=well-formed", c.Format)
		case -1:
			no++
			s.label("%s=ill-formed", c.Format)
		default:
			s.label("%s=left open", c.Format)
			continue
		}
		if err := judge(t, v > 0); err != nil {
			return err
		}
	}
	if yes > 0 && no > 0 {
		s.nt()
	}
	return judge(c.Other.V, true)
}

func init() {
	register("C19", 60000,
		"one of the 17 documented formats, 4 strings built from its grammar with edge values and 0-3 random character edits, judged by an independent recogniser (strings whose status the documentation leaves open are skipped), and one non-string; non-trivial: both a well-formed and an ill-formed string",
		genC19, checkC19)
}
