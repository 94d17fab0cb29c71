package harness

import (
	"strconv"
)

// Keyword families
const (
	fType = iota
	fNum
	fStr
	fArr
	fObj
	fComb
	fEq
	fFmt
	fAnno
	nFam
)

type sgen struct {
	r       R
	draft   int
	w       [nFam]int // weights
	odd     int       // percentage of odd member names
	refPct  int       // percentage of references
	bools   int       // percentage of boolean schemas where allowed
	formats []string
	budget  int
	maxKW   int
	big     int // what there is much of
	long    int // percentage of long arrays and objects among the instances

	refs []obj // placeholder nodes, "$ref" to be assigned
}

func newSgen(r R, draft int) *sgen {
	g := &sgen{r: r, draft: draft, odd: 8, refPct: 0, bools: 6, budget: 40, maxKW: 4, long: 1}
	g.w = [nFam]int{18, 18, 14, 18, 24, 20, 12, 0, 3}
	if r.p(6) {
		g.big = r.between(1, bigLen)
	}
	return g
}

// dimensions in which a schema may be large
const (
	bigEnum = 1 + iota
	bigItems
	bigAlts
	bigProps
	bigPats
	bigLen
)

// between draws a size, a large one if that dimension is to be large.
func (g *sgen) between(dim, lo, hi int) int {
	if g.big == dim && g.budget > 0 {
		return g.r.between(hi, hi*g.r.between(3, 16))
	}
	return g.r.between(lo, hi)
}

// small draws a schema that stays small, for large lists.
func (g *sgen) small(n, depth int) any {
	if n > 4 && g.r.p(85) {
		r := g.r
		if r.p(50) {
			return obj{"type": pick(r, allTypes)}
		}
		if r.p(50) {
			return obj{"minimum": num(strconv.Itoa(r.n(100)))}
		}
		return obj{"enum": arr{num(strconv.Itoa(r.n(100))), "s" + strconv.Itoa(r.n(100))}}
	}
	return g.schema(depth - 1)
}

func (g *sgen) memberName(n, i int) string {
	if n > 6 && g.r.p(90) {
		return "m" + strconv.Itoa(i)
	}
	return g.r.name(g.odd)
}

func only(ws map[int]int) (w [nFam]int) {
	for k, v := range ws {
		w[k] = v
	}
	return
}

func (g *sgen) boolsOK() bool { return g.draft >= D6 }

// schema draws a well-formed schema.
func (g *sgen) schema(depth int) any {
	r := g.r
	g.budget--
	if g.boolsOK() && r.p(g.bools) {
		return r.n(2) == 1
	}
	if g.refPct > 0 && r.p(g.refPct) {
		m := obj{"$ref": "?"}
		g.refs = append(g.refs, m)
		return m
	}
	return g.object(depth)
}

func (g *sgen) object(depth int) obj {
	r := g.r
	m := obj{}
	if g.budget <= 0 {
		depth = 0
	}
	n := r.between(0, g.maxKW)
	if n == 0 && r.p(60) {
		n = 1
	}
	// correlate: a family is chosen and tends to persist
	fam := -1
	for i := 0; i < n; i++ {
		if fam < 0 || r.p(45) {
			fam = r.weighted(g.w[:]...)
		}
		g.keyword(m, fam, depth)
	}
	return m
}

var allTypes = []string{"array", "boolean", "integer", "number", "null", "object", "string"}

func (g *sgen) setNew(m obj, k string, f func() any) {
	if _, ok := m[k]; !ok {
		m[k] = f()
	}
}

func (g *sgen) count(max int) any {
	n := g.r.n(max + 1)
	if g.r.p(3) {
		// larger than any number of characters, elements or members
		return num(pick(g.r, []string{"32767", "32768", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "4294967299", "9007199254740993", "9223372036854775807"}))
	}
	if g.r.p(12) {
		return num(g.r.respell(strconv.Itoa(n)))
	}
	return num(strconv.Itoa(n))
}

func (g *sgen) minmax(m obj, lo, hi string, max int) {
	r := g.r
	switch r.n(3) {
	case 0:
		if _, ok := m[hi]; !ok {
			g.setNew(m, lo, func() any { return g.count(max) })
		}
	case 1:
		if _, ok := m[lo]; !ok {
			g.setNew(m, hi, func() any { return g.count(max) })
		}
	default:
		_, a := m[lo]
		_, b := m[hi]
		if !a && !b {
			x := r.n(max + 1)
			y := x + r.n(3)
			m[lo], m[hi] = num(strconv.Itoa(x)), num(strconv.Itoa(y))
		}
	}
}

func (g *sgen) schemas(depth, lo, hi int) arr {
	n := g.between(bigAlts, lo, hi)
	a := arr{}
	for i := 0; i < n; i++ {
		a = append(a, g.small(n, depth))
	}
	return a
}

func (g *sgen) keyword(m obj, fam, depth int) {
	r := g.r
	switch fam {
	case fType:
		g.setNew(m, "type", func() any {
			if r.p(60) {
				return pick(r, allTypes)
			}
			ts := shuffle(r, allTypes)[:r.between(1, 4)]
			a := arr{}
			for _, t := range ts {
				a = append(a, t)
			}
			return a
		})
	case fNum:
		switch r.n(5) {
		case 0:
			g.setNew(m, "multipleOf", func() any { return num(g.positive()) })
		case 1:
			g.setNew(m, "minimum", func() any { return num(r.numLit()) })
		case 2:
			g.setNew(m, "maximum", func() any { return num(r.numLit()) })
		case 3:
			g.exclusive(m, "minimum", "exclusiveMinimum")
		default:
			g.exclusive(m, "maximum", "exclusiveMaximum")
		}
	case fStr:
		switch r.n(3) {
		case 0, 1:
			g.minmax(m, "minLength", "maxLength", g.between(bigLen, 4, 4))
		default:
			g.setNew(m, "pattern", func() any { return r.pattern() })
		}
	case fArr:
		k := r.weighted(30, 15, 20, 12, 15)
		if depth <= 0 && (k == 0 || k == 1 || k == 4) {
			k = 2 + r.n(2)
		}
		switch k {
		case 0:
			g.setNew(m, "items", func() any {
				if r.p(45) {
					return g.schema(depth - 1)
				}
				n := g.between(bigItems, 1, 3)
				a := arr{}
				for i := 0; i < n; i++ {
					a = append(a, g.small(n, depth))
				}
				return a
			})
			if r.p(40) {
				g.setNew(m, "additionalItems", func() any { return g.additional(depth) })
			}
		case 1:
			g.setNew(m, "additionalItems", func() any { return g.additional(depth) })
		case 2:
			// minItems/maxItems need not be ordered
			if r.p(50) {
				g.setNew(m, "minItems", func() any { return g.count(g.between(bigItems, 4, 4)) })
			} else {
				g.setNew(m, "maxItems", func() any { return g.count(g.between(bigItems, 4, 4)) })
			}
		case 3:
			g.setNew(m, "uniqueItems", func() any { return r.p(85) })
		default:
			if g.draft >= D6 {
				g.setNew(m, "contains", func() any { return g.schema(depth - 1) })
			}
		}
	case fObj:
		k := r.weighted(28, 15, 16, 12, 10, 10, 8)
		if depth <= 0 && (k == 0 || k == 1 || k == 2 || k == 4 || k == 5) {
			k = pick(r, []int{3, 6})
		}
		switch k {
		case 0:
			g.setNew(m, "properties", func() any {
				o := obj{}
				n := g.between(bigProps, 1, 3)
				for i := n; i > 0; i-- {
					o[g.memberName(n, i)] = g.small(n, depth)
				}
				return o
			})
		case 1:
			g.setNew(m, "patternProperties", func() any {
				o := obj{}
				n := g.between(bigPats, 1, 2)
				for i := n; i > 0; i-- {
					p := r.pattern()
					if r.p(12) {
						p = pick(r, plainNames) // a pattern written like a name
					}
					o[p] = g.small(n, depth)
				}
				return o
			})
		case 2:
			g.setNew(m, "additionalProperties", func() any { return g.additional(depth) })
		case 3:
			g.setNew(m, "required", func() any {
				a := arr{}
				seen := map[string]bool{}
				n := g.between(bigProps, 1, 3)
				for i := n; i > 0; i-- {
					if k := g.memberName(n, i); !seen[k] {
						seen[k] = true
						a = append(a, k)
					}
				}
				return a
			})
		case 4:
			g.setNew(m, "dependencies", func() any {
				o := obj{}
				for i := r.between(1, 2); i > 0; i-- {
					k := r.name(g.odd)
					if r.p(50) {
						a := arr{}
						seen := map[string]bool{}
						n := g.between(bigProps, 1, 2)
						for j := n; j > 0; j-- {
							if d := g.memberName(n, j); !seen[d] {
								seen[d] = true
								a = append(a, d)
							}
						}
						o[k] = a
					} else {
						o[k] = g.schema(depth - 1)
					}
				}
				return o
			})
		case 5:
			if g.draft >= D6 {
				g.setNew(m, "propertyNames", func() any {
					if r.p(70) {
						h := *g
						h.w = only(map[int]int{fStr: 50, fEq: 20, fComb: 10, fType: 8})
						s := h.schema(depth - 1)
						g.refs = h.refs
						return s
					}
					return g.schema(depth - 1)
				})
			}
		default:
			g.minmax(m, "minProperties", "maxProperties", g.between(bigProps, 4, 4))
		}
	case fComb:
		if depth <= 0 {
			return
		}
		k := r.weighted(20, 20, 20, 15, 20)
		if k == 4 && g.draft < D7 {
			k = r.n(4)
		}
		switch k {
		case 0:
			g.setNew(m, "allOf", func() any { return g.schemas(depth, 1, 3) })
		case 1:
			g.setNew(m, "anyOf", func() any { return g.schemas(depth, 1, 3) })
		case 2:
			g.setNew(m, "oneOf", func() any { return g.schemas(depth, 1, 4) })
		case 3:
			g.setNew(m, "not", func() any { return g.schema(depth - 1) })
		default:
			if r.p(90) {
				g.setNew(m, "if", func() any { return g.schema(depth - 1) })
			}
			if r.p(75) {
				g.setNew(m, "then", func() any { return g.schema(depth - 1) })
			}
			if r.p(75) {
				g.setNew(m, "else", func() any { return g.schema(depth - 1) })
			}
		}
	case fEq:
		if g.draft >= D6 && r.p(50) {
			g.setNew(m, "const", func() any { return g.literal() })
		} else {
			g.setNew(m, "enum", func() any {
				a := arr{}
				n := g.between(bigEnum, 1, 4)
				for i := n; i > 0; i-- {
					v := any(num(strconv.Itoa(i)))
					if n <= 8 || r.p(10) {
						v = g.literal()
					} else if i%3 == 0 {
						v = "s" + strconv.Itoa(i)
					}
					dup := false
					for _, e := range a {
						dup = dup || equalJSON(e, v)
					}
					if !dup {
						a = append(a, v)
					}
				}
				return a
			})
		}
	case fFmt:
		if len(g.formats) > 0 {
			g.setNew(m, "format", func() any { return pick(r, g.formats) })
		}
	case fAnno:
		switch r.n(5) {
		case 0:
			m["title"] = r.str()
		case 1:
			m["description"] = r.str()
		case 2:
			m["default"] = r.value(1)
		case 3:
			m["x-unknown"] = r.value(1)
		default:
			m["examples"] = arr{r.value(1)}
		}
	}
}

// literal for const/enum; sometimes contains things that look like references.
func (g *sgen) literal() any {
	r := g.r
	if r.p(6) {
		return obj{"$ref": pick(r, []string{"#/definitions/a", "hello.world", "http://x.invalid/y", "#"})}
	}
	if r.p(3) {
		return obj{"$id": "http://x.invalid/z", "type": "string"}
	}
	return r.value(2)
}

func (g *sgen) positive() string {
	for {
		l := g.r.numLit()
		d := parseDecimal(l)
		if d.digits == "" {
			return "1"
		}
		if d.neg {
			return l[1:]
		}
		return l
	}
}

func (g *sgen) exclusive(m obj, bound, ex string) {
	r := g.r
	if _, ok := m[ex]; ok {
		return
	}
	boolForm := g.draft == D4 || (g.draft == Hybrid && r.p(40))
	if boolForm {
		g.setNew(m, bound, func() any { return num(r.numLit()) })
		m[ex] = r.p(75)
	} else {
		m[ex] = num(r.numLit())
	}
	if _, ok := m["exclusiveMinimum"]; ok && g.draft == Hybrid && r.p(25) {
		g.exclusive(m, "maximum", "exclusiveMaximum") // in either form
	}
}

func (g *sgen) additional(depth int) any {
	r := g.r
	if r.p(50) {
		return r.p(30)
	}
	if depth <= 0 {
		return obj{"type": pick(r, allTypes)}
	}
	// a boolean is always allowed here, an object schema too
	return g.schema(depth - 1)
}

// ---------------------------------------------------------------------------------------------
// In-place recursion check

// inplaceCycle reports whether some schema leads back to itself without descending into the
// instance.
func (w *world) inplaceCycle() bool {
	color := map[uintptr]int{}
	var visit func(s any) bool
	visit = func(s any) bool {
		m, ok := s.(obj)
		if !ok {
			return false
		}
		id := mapID(m)
		switch color[id] {
		case 1:
			return true
		case 2:
			return false
		}
		color[id] = 1
		bad := false
		if abs, ok := w.refTarget(m); ok {
			if n, err := w.resolve(abs); err == nil {
				bad = visit(n.schema)
			}
		} else {
			for _, k := range []string{"allOf", "anyOf", "oneOf"} {
				for _, s := range schemaList(m[k]) {
					bad = bad || visit(s)
				}
			}
			for _, k := range []string{"not", "if", "then", "else"} {
				bad = bad || visit(m[k])
			}
			if d, ok := m["dependencies"].(obj); ok {
				for _, s := range d {
					bad = bad || visit(s)
				}
			}
		}
		color[id] = 2
		return bad
	}
	var all func(v any) bool
	seen := map[uintptr]bool{}
	all = func(v any) bool {
		switch x := v.(type) {
		case arr:
			for _, e := range x {
				if all(e) {
					return true
				}
			}
		case obj:
			if seen[mapID(x)] {
				return false
			}
			seen[mapID(x)] = true
			if visit(x) {
				return true
			}
			for _, e := range x {
				if all(e) {
					return true
				}
			}
		}
		return false
	}
	for _, n := range w.ids {
		if all(n.schema) {
			return true
		}
	}
	return false
}
