package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/dhamidi/texted/edlisp"
)

// Bytes is a byte string that is written to JSON as an array of numbers.
type Bytes []int

func toBytes(s string) Bytes {
	b := make(Bytes, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = int(s[i])
	}
	return b
}

func (b Bytes) String() string {
	s := make([]byte, len(b))
	for i, x := range b {
		s[i] = byte(x)
	}
	return string(s)
}

const numberLimit = 1000000000

// canonical is the representation of the numbers of the specification:
// the number truncated and limited to +-10^9, and the canonical decimal
// text (digits without a point, "e", exponent) unless it is that integer.
func canonical(f float64) (int, string) {
	i := 0
	switch {
	case math.IsNaN(f):
		return 0, "nan"
	case f >= numberLimit:
		i = numberLimit
	case f <= -numberLimit:
		i = -numberLimit
	default:
		i = int(f)
	}
	if float64(i) == f {
		return i, ""
	}
	if math.IsInf(f, 0) {
		return i, "inf"
	}
	s := strconv.FormatFloat(f, 'e', -1, 64)
	sign := ""
	if strings.HasPrefix(s, "-") {
		sign, s = "-", s[1:]
	}
	mant, exp, _ := strings.Cut(s, "e")
	e, _ := strconv.Atoi(exp)
	whole, frac, _ := strings.Cut(mant, ".")
	e -= len(frac)
	return i, fmt.Sprintf("%s%se%d", sign, whole+frac, e)
}

// toSpec converts a value into the JSON form of the specification.
func toSpec(v edlisp.Value) any {
	switch x := v.(type) {
	case *edlisp.String:
		return map[string]any{"k": "s", "v": toBytes(x.Value)}
	case *edlisp.Symbol:
		return map[string]any{"k": "y", "v": toBytes(x.Name)}
	case *edlisp.Number:
		i, c := canonical(x.Value)
		return map[string]any{"k": "n", "i": i, "x": toBytes(c)}
	case *edlisp.List:
		vs := make([]any, 0, x.Len())
		for i := 0; i < x.Len(); i++ {
			vs = append(vs, toSpec(x.Get(i)))
		}
		return map[string]any{"k": "l", "v": vs}
	}
	return map[string]any{"k": "other", "v": fmt.Sprintf("%T", v)}
}

// Node is a value as read from JSON.
type Node struct {
	K string  `json:"k"`
	I float64 `json:"i"`
	F string  `json:"f"` // decimal text of a number that is no small integer
	V any     `json:"v"`
}

func fromSpec(a any) edlisp.Value {
	m := a.(map[string]any)
	switch m["k"] {
	case "s":
		return edlisp.NewString(bytesOf(m["v"]))
	case "y":
		return edlisp.NewSymbol(bytesOf(m["v"]))
	case "n":
		if f, ok := m["f"].(string); ok && f != "" {
			x, err := strconv.ParseFloat(f, 64)
			if err != nil {
				fatal("number %q: %v", f, err)
			}
			return edlisp.NewNumber(x)
		}
		return edlisp.NewNumber(m["i"].(float64))
	case "l":
		var vs []edlisp.Value
		for _, e := range m["v"].([]any) {
			vs = append(vs, fromSpec(e))
		}
		return edlisp.NewList(vs...)
	}
	fatal("unknown value %v", a)
	return nil
}

func bytesOf(a any) string {
	xs := a.([]any)
	s := make([]byte, len(xs))
	for i, x := range xs {
		s[i] = byte(x.(float64))
	}
	return string(s)
}

// roundTrip turns v into what decoding its JSON gives.
func roundTrip(v any) (any, error) {
	b, err := json.Marshal(v)
	if err != nil {
		return nil, err
	}
	var r any
	err = json.Unmarshal(b, &r)
	return r, err
}
