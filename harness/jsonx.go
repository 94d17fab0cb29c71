package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"sort"
	"strings"
)

// JSON values are nil, bool, json.Number, string, []any, map[string]any.

type obj = map[string]any
type arr = []any
type num = json.Number

func decode(text string) (any, error) {
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("trailing data")
	}
	return v, nil
}

// mustDecode decodes text that the harness itself produced.
func mustDecode(text string) any {
	v, err := decode(text)
	if err != nil {
		panic(harnessBug(fmt.Sprintf("mustDecode %q: %v", text, err)))
	}
	return v
}

type harnessBug string

// encode writes a value with sorted keys, preserving number literals.
func encode(v any) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		panic(harnessBug("encode: " + err.Error()))
	}
	return strings.TrimSuffix(b.String(), "\n")
}

func clone(v any) any {
	switch x := v.(type) {
	case obj:
		r := make(obj, len(x))
		for k, e := range x {
			r[k] = clone(e)
		}
		return r
	case arr:
		r := make(arr, len(x))
		for i, e := range x {
			r[i] = clone(e)
		}
		return r
	}
	return v
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// decimal is a normalised decimal: (-1)^neg * digits * 10^exp, digits without
// leading or trailing zeros ("" for zero, then neg=false, exp=0).
type decimal struct {
	neg    bool
	digits string
	exp    *big.Int
}

func parseDecimal(lit string) decimal {
	s := lit
	neg := false
	if strings.HasPrefix(s, "-") {
		neg, s = true, s[1:]
	}
	exp := new(big.Int)
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		es := strings.TrimPrefix(s[i+1:], "+")
		if _, ok := exp.SetString(es, 10); !ok {
			panic(harnessBug("bad number " + lit))
		}
		s = s[:i]
	}
	if i := strings.IndexByte(s, '.'); i >= 0 {
		exp.Sub(exp, big.NewInt(int64(len(s)-i-1)))
		s = s[:i] + s[i+1:]
	}
	s = strings.TrimLeft(s, "0")
	t := strings.TrimRight(s, "0")
	exp.Add(exp, big.NewInt(int64(len(s)-len(t))))
	if t == "" {
		return decimal{false, "", new(big.Int)}
	}
	return decimal{neg, t, exp}
}

func (d decimal) key() string {
	if d.digits == "" {
		return "0"
	}
	s := ""
	if d.neg {
		s = "-"
	}
	return s + d.digits + "e" + d.exp.String()
}

func (d decimal) isInt() bool { return d.digits == "" || d.exp.Sign() >= 0 }

// rat converts; the exponent must be moderate.
func (d decimal) rat() *big.Rat {
	if d.digits == "" {
		return new(big.Rat)
	}
	n, _ := new(big.Int).SetString(d.digits, 10)
	if d.neg {
		n.Neg(n)
	}
	if !d.exp.IsInt64() || d.exp.Int64() > 20000 || d.exp.Int64() < -20000 {
		panic(harnessBug("exponent too large for model arithmetic"))
	}
	e := d.exp.Int64()
	p := new(big.Int)
	if e >= 0 {
		p.Exp(big.NewInt(10), big.NewInt(e), nil)
		return new(big.Rat).SetInt(n.Mul(n, p))
	}
	p.Exp(big.NewInt(10), big.NewInt(-e), nil)
	return new(big.Rat).SetFrac(n, p)
}

func ratOf(n num) *big.Rat { return parseDecimal(string(n)).rat() }

// canon is an injective rendering of JSON values up to JSON equality.
func canon(v any) string {
	var b strings.Builder
	canonTo(&b, v)
	return b.String()
}

func canonTo(b *strings.Builder, v any) {
	switch x := v.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		fmt.Fprintf(b, "%v", x)
	case num:
		b.WriteString("#" + parseDecimal(string(x)).key())
	case string:
		fmt.Fprintf(b, "%q", x)
	case arr:
		b.WriteString("[")
		for _, e := range x {
			canonTo(b, e)
			b.WriteString(",")
		}
		b.WriteString("]")
	case obj:
		b.WriteString("{")
		for _, k := range sortedKeys(x) {
			fmt.Fprintf(b, "%q:", k)
			canonTo(b, x[k])
			b.WriteString(",")
		}
		b.WriteString("}")
	default:
		fmt.Fprintf(b, "<%T %v>", v, v)
	}
}

func equalJSON(a, b any) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case num:
		y, ok := b.(num)
		return ok && parseDecimal(string(x)).key() == parseDecimal(string(y)).key()
	case string:
		y, ok := b.(string)
		return ok && x == y
	case arr:
		y, ok := b.(arr)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !equalJSON(x[i], y[i]) {
				return false
			}
		}
		return true
	case obj:
		y, ok := b.(obj)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			v, ok := y[k]
			if !ok || !equalJSON(x[k], v) {
				return false
			}
		}
		return true
	}
	panic(harnessBug(fmt.Sprintf("equalJSON %T", a)))
}

func typeOf(v any) string {
	switch v.(type) {
	case nil:
		return "null"
	case bool:
		return "boolean"
	case num:
		return "number"
	case string:
		return "string"
	case arr:
		return "array"
	case obj:
		return "object"
	}
	panic(harnessBug(fmt.Sprintf("typeOf %T", v)))
}
