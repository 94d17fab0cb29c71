package harness

import (
	"math/big"
	"strconv"
	"strings"
)

// igen draws instances that follow a schema closely enough to exercise it.
type igen struct {
	r      R
	w      *world
	draft  int
	budget int
	odd    int
	long   int  // percentage of long arrays and objects
	inside bool // drawing the elements of a long array or a whole object
}

func newIgen(r R, w *world, draft int) *igen {
	return &igen{r: r, w: w, draft: draft, budget: 60, odd: 8, long: 1}
}

// sides draws values that satisfy all of the schemas, and values that do not.
func (g *igen) sides(ss []any, depth int) (good, bad []any) {
	r := g.r
	if was := g.inside; !was {
		g.inside = true
		defer func() { g.inside = false }()
	}
	for i := 0; i < 8; i++ {
		var v any
		if len(ss) > 0 && r.p(80) {
			g.budget += 4
			v = g.instance(pick(r, ss), max(0, min(depth-1, 1)))
		} else {
			v = r.scalar()
		}
		ok := true
		for _, s := range ss {
			ok = ok && g.holds(s, v)
		}
		if ok {
			good = append(good, v)
		} else {
			bad = append(bad, v)
		}
	}
	return
}

// holds is the model's verdict, false where it is too costly or the schema is none in this draft.
func (g *igen) holds(s, v any) (ok bool) {
	old := g.w.steps
	g.w.steps = 195000
	defer func() {
		g.w.steps = old
		if recover() != nil {
			ok = false
		}
	}()
	return g.w.valid(s, g.draft, v)
}

// longArray fills an array with elements that are all right but for one, or, where one element has
// to be right, all wrong but for one.
func (g *igen) longArray(m obj, depth int) any {
	r := g.r
	n := r.between(12, pick(r, []int{40, 140, 140, 300, 700}))
	if it, ok := m["items"].(arr); ok && len(it) > 3 && r.p(60) {
		n = max(1, len(it)+r.n(4)-1)
	}
	a := make(arr, n)
	var head arr
	var rest []any
	switch it := m["items"].(type) {
	case arr:
		head = it
		if ai, ok := m["additionalItems"].(obj); ok {
			rest = append(rest, ai)
		}
	case nil:
	default:
		rest = append(rest, it)
	}
	good, bad := g.sides(rest, depth)
	if c, ok := m["contains"]; ok && r.p(60) {
		// none but perhaps one contained
		in, out := g.sides([]any{c}, depth)
		bad, good = in, nil
		for _, v := range out {
			ok := true
			for _, s := range rest {
				ok = ok && g.holds(s, v)
			}
			if ok {
				good = append(good, v)
			}
		}
	}
	if len(good) == 0 {
		good = []any{num("1"), "s", nil}
	}
	distinct := m["uniqueItems"] == any(true)
	one := pick(r, good)
	for i := range a {
		switch {
		case i < len(head):
			hg, _ := g.sides([]any{head[i]}, depth)
			if len(hg) > 0 {
				a[i] = pick(r, hg)
			}
		case distinct && len(rest) == 0:
			a[i] = num(strconv.Itoa(i))
		case r.p(50):
			a[i] = clone(one)
		default:
			a[i] = clone(pick(r, good))
		}
	}
	if len(head) > 0 && r.p(30) {
		i := r.n(min(n, len(head)))
		if _, hb := g.sides([]any{head[i]}, depth); len(hb) > 0 {
			a[i] = pick(r, hb)
		}
	} else if len(bad) > 0 && r.p(60) {
		i := pick(r, []int{n - 1, n - 2, n / 2, r.n(n), len(head)})
		if i >= len(head) && i < n {
			a[i] = pick(r, bad)
		}
	}
	return a
}

// longObject gives an object many members, all right but for perhaps one.
func (g *igen) longObject(o obj, subs func(string) []any, pats []string, depth int) {
	r := g.r
	n := r.between(12, pick(r, []int{40, 140, 300}))
	type lists struct{ good, bad []any }
	cache := map[string]lists{}
	lookup := func(k string) lists {
		ss := subs(k)
		key := encode(arr(ss))
		l, ok := cache[key]
		if !ok {
			l.good, l.bad = g.sides(ss, depth)
			cache[key] = l
		}
		return l
	}
	var ks []string
	stem := "m"
	if len(pats) > 0 && r.p(60) {
		if hits := hitsOf(pick(r, pats)); len(hits) > 0 {
			stem = pick(r, hits)
		}
	}
	for i := 0; i < n; i++ {
		k := stem + strconv.Itoa(i)
		if r.p(10) {
			k = strconv.Itoa(i) + stem
		}
		ks = append(ks, k)
		if l := lookup(k); len(l.good) > 0 {
			o[k] = clone(pick(r, l.good))
		}
	}
	if r.p(60) {
		k := pick(r, ks)
		if l := lookup(k); len(l.bad) > 0 {
			o[k] = pick(r, l.bad)
		}
	}
}

// wholeObject has every member that is named, each of them right but for perhaps one, where many are named.
func (g *igen) wholeObject(ms []obj, subs func(string) []any, depth int) any {
	r := g.r
	if len(ms) == 0 || g.inside {
		return nil
	}
	names := map[string]bool{}
	for k := range objOf(ms[0]["properties"]) {
		names[k] = true
	}
	lists := []any{ms[0]["required"]}
	for k, d := range objOf(ms[0]["dependencies"]) {
		names[k] = true
		lists = append(lists, d)
	}
	for _, l := range lists {
		for _, e := range schemaList(l) {
			if s, ok := e.(string); ok {
				names[s] = true
			}
		}
	}
	if len(names) < 5 || !r.p(35) {
		return nil
	}
	ks := sortedKeys(names)
	odd := -1
	if r.p(70) {
		odd = r.n(len(ks))
	}
	gone := r.p(50)
	o := obj{}
	for i, k := range ks {
		if i == odd && gone {
			continue
		}
		good, bad := g.sides(subs(k), depth)
		switch {
		case i == odd && len(bad) > 0:
			o[k] = pick(r, bad)
		case len(good) > 0:
			o[k] = pick(r, good)
		}
	}
	return o
}

func objOf(v any) obj {
	o, _ := v.(obj)
	return o
}

// collect gathers the schema objects that constrain the same instance location.
func (g *igen) collect(s any, draft int, acc *[]obj, depth int) {
	m, ok := s.(obj)
	if !ok || depth > 8 {
		return
	}
	if abs, ok := g.w.refTarget(m); ok {
		if n, err := g.w.resolve(abs); err == nil {
			g.collect(n.schema, draft, acc, depth+1)
		}
		return
	}
	*acc = append(*acc, m)
	for _, s := range schemaList(m["allOf"]) {
		g.collect(s, draft, acc, depth+1)
	}
	for _, k := range []string{"anyOf", "oneOf"} {
		if l := schemaList(m[k]); len(l) > 0 {
			g.collect(pick(g.r, l), draft, acc, depth+1)
		}
	}
	if g.r.p(60) {
		for _, k := range []string{"if", "then", "else"} {
			if s, ok := m[k]; ok && g.r.p(60) {
				g.collect(s, draft, acc, depth+1)
			}
		}
	}
	if s, ok := m["not"]; ok && g.r.p(40) {
		g.collect(s, draft, acc, depth+1)
	}
	if d, ok := m["dependencies"].(obj); ok {
		for _, k := range sortedKeys(d) {
			if _, isArr := d[k].(arr); !isArr && g.r.p(50) {
				g.collect(d[k], draft, acc, depth+1)
			}
		}
	}
}

var kwType = map[string]string{
	"multipleOf": "number", "minimum": "number", "maximum": "number", "exclusiveMinimum": "number", "exclusiveMaximum": "number",
	"minLength": "string", "maxLength": "string", "pattern": "string", "format": "string",
	"items": "array", "additionalItems": "array", "minItems": "array", "maxItems": "array", "uniqueItems": "array", "contains": "array",
	"properties": "object", "patternProperties": "object", "additionalProperties": "object", "required": "object",
	"dependencies": "object", "minProperties": "object", "maxProperties": "object", "propertyNames": "object",
}

func (g *igen) instance(s any, depth int) any {
	r := g.r
	g.budget--
	if g.budget <= 0 {
		return r.scalar()
	}
	if r.p(8) {
		return r.value(1)
	}
	var ms []obj
	g.collect(s, g.draft, &ms, 0)
	if len(ms) == 0 {
		return r.value(min(depth, 1))
	}
	// literals
	var lits []any
	for _, m := range ms {
		if c, ok := m["const"]; ok {
			lits = append(lits, c)
		}
		if e, ok := m["enum"].(arr); ok {
			lits = append(lits, e...)
		}
	}
	if len(lits) > 0 && r.p(75) {
		v := clone(pick(r, lits))
		switch r.weighted(50, 30, 20) {
		case 1:
			return r.respellValue(v)
		case 2:
			return r.nearMiss(v)
		}
		return v
	}
	// type
	var ts []string
	for _, m := range ms {
		if l, ok := typeList(m); ok {
			ts = append(ts, l...)
			ts = append(ts, l...)
		}
		for _, k := range sortedKeys(m) {
			if t := kwType[k]; t != "" {
				ts = append(ts, t)
			}
		}
	}
	if len(ts) == 0 {
		return r.value(depth)
	}
	t := pick(r, ts)
	switch t {
	case "null":
		return nil
	case "boolean":
		return r.n(2) == 1
	case "integer", "number":
		return num(g.number(ms, t))
	case "string":
		return g.string(ms)
	case "array":
		return g.array(ms, depth)
	}
	return g.object(ms, depth)
}

func (g *igen) number(ms []obj, t string) string {
	r := g.r
	var cand []string
	var mult []string
	for _, m := range ms {
		for _, k := range []string{"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"} {
			if n, ok := m[k].(num); ok {
				cand = append(cand, string(n))
			}
		}
		if n, ok := m["multipleOf"].(num); ok {
			mult = append(mult, string(n))
		}
	}
	if len(mult) > 0 && r.p(60) {
		l := pick(r, mult)
		d := parseDecimal(l)
		if d.exp.IsInt64() && d.exp.Int64() < 1100 && d.exp.Int64() > -1100 {
			k := int64(r.between(0, 24) - 4)
			if r.p(20) {
				k = int64(r.n(1000000)) * int64(1+r.n(1000000))
			}
			n, _ := new(big.Int).SetString(d.digits, 10)
			if n == nil {
				n = new(big.Int)
			}
			n.Mul(n, big.NewInt(k))
			if d.neg {
				n.Neg(n)
			}
			q := parseDecimal(n.String())
			if q.digits != "" {
				q.exp.Add(q.exp, d.exp)
			}
			s := litOf(q)
			switch r.weighted(50, 25, 25) {
			case 1:
				return r.respell(s)
			case 2:
				return r.perturb(s)
			}
			return s
		}
	}
	if len(cand) > 0 && r.p(80) {
		l := pick(r, cand)
		switch r.weighted(25, 30, 45) {
		case 0:
			return l
		case 1:
			return r.respell(l)
		}
		return r.perturb(l)
	}
	if t == "integer" && r.p(60) {
		return r.respell(strconv.Itoa(r.between(0, 20) - 5))
	}
	return r.numLit()
}

func (g *igen) string(ms []obj) string {
	r := g.r
	var lens []int
	var pats []string
	for _, m := range ms {
		if f, ok := m["format"].(string); ok && r.p(50) {
			if ws := formatWitness[f]; len(ws) > 0 {
				return pick(r, ws)
			}
		}
		for _, k := range []string{"minLength", "maxLength"} {
			if n, ok := intOfSafe(m[k]); ok && n < 100 {
				lens = append(lens, n)
			}
		}
		if p, ok := m["pattern"].(string); ok {
			pats = append(pats, p)
		}
	}
	if len(pats) > 0 && r.p(60) {
		p := pick(r, pats)
		if hits := hitsOf(p); len(hits) > 0 && r.p(80) {
			return pick(r, hits)
		}
	}
	if len(lens) > 0 && r.p(80) {
		n := pick(r, lens) + r.n(3) - 1
		var b strings.Builder
		if n > 12 {
			// long: all alike but for one
			c := pick(r, []string{"a", "é", "日", "😀", "\u0301", "\x00"})
			return strings.Repeat(c, n-1) + pick(r, []string{"", "b", "é", "😀"})
		}
		alpha := pick(r, [][]rune{{'a'}, {'a', 'b', 'c'}, {'é'}, {'日', '本'}, {'😀'}, {'a', 'é', '日', '😀', '\u0301'}, {'\u0000', '"', '\\'}, {'1'}})
		for i := 0; i < n; i++ {
			b.WriteRune(pick(r, alpha))
		}
		return b.String()
	}
	return r.str()
}

func intOfSafe(v any) (int, bool) {
	n, ok := v.(num)
	if !ok {
		return 0, false
	}
	d := parseDecimal(string(n))
	if !d.isInt() || d.neg || !d.exp.IsInt64() || d.exp.Int64() > 15 {
		return 0, false
	}
	x := d.rat()
	if !x.Num().IsInt64() {
		return 0, false
	}
	return int(x.Num().Int64()), true
}

func (g *igen) array(ms []obj, depth int) any {
	r := g.r
	if len(ms) > 0 {
		it, _ := ms[0]["items"].(arr)
		if !g.inside && (r.p(g.long) || len(it) > 3 && r.p(30)) {
			return g.longArray(ms[0], depth)
		}
	}
	var lens []int
	unique := false
	for _, m := range ms {
		for _, k := range []string{"minItems", "maxItems"} {
			if n, ok := intOfSafe(m[k]); ok && n < 100 {
				lens = append(lens, n)
			}
		}
		if l, ok := m["items"].(arr); ok {
			lens = append(lens, len(l))
			if _, ok := m["additionalItems"]; ok {
				lens = append(lens, len(l)+1)
			}
		}
		if _, ok := m["uniqueItems"]; ok {
			unique = true
		}
	}
	n := r.n(4)
	if len(lens) > 0 && r.p(85) {
		n = max(0, pick(r, lens)+r.n(3)-1)
	}
	if r.p(2) {
		n = r.between(10, pick(r, []int{20, 70}))
	}
	if n > 8 && r.p(50) {
		a := r.manyItems(n)
		if len(ms) > 0 && depth > 0 {
			for k := r.n(4); k > 0; k-- {
				i := r.n(n)
				if it, ok := ms[0]["items"].(arr); ok && i < len(it) {
					a[i] = g.instance(it[i], depth-1)
				} else if it, ok := ms[0]["items"].(obj); ok {
					a[i] = g.instance(it, depth-1)
				} else if it, ok := ms[0]["contains"]; ok {
					a[i] = g.instance(it, depth-1)
				}
			}
		}
		return a
	}
	a := arr{}
	for i := 0; i < n; i++ {
		if depth <= 0 {
			a = append(a, r.scalar())
			continue
		}
		var ss []any
		for _, m := range ms {
			switch it := m["items"].(type) {
			case arr:
				if i < len(it) {
					ss = append(ss, it[i])
				} else if ai, ok := m["additionalItems"].(obj); ok {
					ss = append(ss, ai)
				}
			case nil:
			default:
				ss = append(ss, it)
			}
			if c, ok := m["contains"]; ok && r.p(50) {
				ss = append(ss, c)
			}
		}
		if len(ss) > 0 && r.p(85) {
			a = append(a, g.instance(pick(r, ss), depth-1))
		} else {
			a = append(a, r.value(depth-1))
		}
	}
	if len(a) >= 1 && (unique && r.p(55) || r.p(5)) {
		e := clone(pick(r, a))
		if r.p(60) {
			e = r.respellValue(e)
		} else if r.p(50) {
			e = r.nearMiss(e)
		}
		i := r.n(len(a) + 1)
		if i < len(a) && r.p(60) {
			a[i] = e
		} else {
			a = append(a, e)
		}
	}
	return a
}

func (g *igen) object(ms []obj, depth int) any {
	r := g.r
	names := map[string]bool{}
	add := func(k string, pct int) {
		if r.p(pct) {
			names[k] = true
		}
	}
	subs := func(k string) []any {
		var ss []any
		for _, m := range ms {
			matched := false
			if p, ok := m["properties"].(obj); ok {
				if s, ok := p[k]; ok {
					ss = append(ss, s)
					matched = true
				}
			}
			if p, ok := m["patternProperties"].(obj); ok {
				for _, pat := range sortedKeys(p) {
					if mustRE(pat).MatchString(k) {
						ss = append(ss, p[pat])
						matched = true
					}
				}
			}
			if !matched {
				if ap, ok := m["additionalProperties"].(obj); ok {
					ss = append(ss, ap)
				}
			}
		}
		return ss
	}
	if o := g.wholeObject(ms, subs, depth); o != nil {
		return o
	}
	var counts []int
	for _, m := range ms {
		if p, ok := m["properties"].(obj); ok {
			for _, k := range sortedKeys(p) {
				add(k, 65)
			}
		}
		for _, k := range schemaList(m["required"]) {
			if s, ok := k.(string); ok {
				add(s, 80)
			}
		}
		if d, ok := m["dependencies"].(obj); ok {
			for _, k := range sortedKeys(d) {
				add(k, 65)
				for _, e := range schemaList(d[k]) {
					if s, ok := e.(string); ok {
						add(s, 60)
					}
				}
			}
		}
		if p, ok := m["patternProperties"].(obj); ok {
			for _, pat := range sortedKeys(p) {
				if hits := hitsOf(pat); len(hits) > 0 {
					add(pick(r, hits), 60)
				}
			}
		}
		if pn, ok := m["propertyNames"].(obj); ok && r.p(60) {
			var nm []obj
			g.collect(pn, g.draft, &nm, 0)
			if s, ok := g.instance(pn, 0).(string); ok {
				names[s] = true
			} else if len(nm) > 0 {
				names[g.string(nm)] = true
			}
		}
		for _, k := range []string{"minProperties", "maxProperties"} {
			if n, ok := intOfSafe(m[k]); ok && n < 100 {
				counts = append(counts, n)
			}
		}
	}
	for i := r.n(3); i > 0; i-- {
		names[r.name(g.odd)] = true
	}
	if len(names) > 0 && r.p(6) {
		names[r.nearName(pick(r, sortedKeys(names)))] = true
	}
	ks := sortedKeys(names)
	if len(counts) > 0 && r.p(80) {
		n := max(0, pick(r, counts)+r.n(3)-1)
		for i := 0; len(ks) < n && i < n+20; i++ {
			k := "z" + strconv.Itoa(i)
			if n <= 8 {
				k = pick(r, append(plainNames, "z1", "z2", "z3", "z4"))
			}
			if !names[k] {
				names[k] = true
				ks = append(ks, k)
			}
		}
		for len(ks) > n {
			i := r.n(len(ks))
			ks = append(ks[:i:i], ks[i+1:]...)
		}
	}
	o := obj{}
	for _, k := range ks {
		if r.p(5) {
			o[k] = nil
			continue
		}
		ss := subs(k)
		if len(ss) > 0 && depth > 0 && r.p(88) {
			o[k] = g.instance(pick(r, ss), depth-1)
		} else {
			o[k] = r.value(min(depth-1, 1))
		}
	}
	if r.p(g.long) {
		var pats []string
		for _, m := range ms {
			if p, ok := m["patternProperties"].(obj); ok {
				pats = append(pats, sortedKeys(p)...)
			}
		}
		if !g.inside {
			g.longObject(o, subs, pats, depth)
		}
	}
	return o
}
