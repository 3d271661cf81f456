package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"
)

func init() {
	register(&Check{
		ID:     "C20",
		Rule:   "A case is a structure with 1 to 30 json.Numbers (texts: integers of all sizes around the limits of 32, 53, 63 and 64 bits, with signs and leading zeros, fractions, exponents, decimal halfway points between two floats, subnormals, huge numbers, texts that are not numbers) at the top, in slices, maps, struct fields, interfaces, behind pointers, as a user header, or read by encoding/json with UseNumber; each decoded value is compared with what math/big computes from the text; distinct by texts; non-trivial: at least one text beyond 15 digits or not a number.",
		Assume: []string{"Inf, NaN and hexadecimal texts are not generated: whether they are numbers is a matter of taste"},
		Phases: []Phase{
			{Name: "places", Quick: 800000, Thor: 8000000, Run: c20Places},
			{Name: "json", Quick: 200000, Thor: 2000000, Run: c20JSON},
		},
	})
}

var (
	reInt  = regexp.MustCompile(`^[+-]?[0-9]+$`)
	reHead = regexp.MustCompile(`^[+-]?[0-9]+`)
	reNum  = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
)

// numOracle says what a json.Number is decoded as.
func numOracle(s string) *V {
	if reInt.MatchString(s) {
		i, _ := new(big.Int).SetString(s, 10)
		if i.IsInt64() {
			return vInt(i.Int64())
		}
		return vStr(s)
	}
	if reNum.MatchString(s) {
		q, ok := new(big.Rat).SetString(s)
		if ok {
			f, _ := q.Float64()
			if math.IsInf(f, 0) {
				return vStr(s)
			}
			if f == 0 && strings.HasPrefix(s, "-") {
				f = math.Copysign(0, -1)
			}
			return vF64(f)
		}
	}
	return vStr(s)
}

func digits(r *Rng, n int) string {
	var b strings.Builder
	for ; n > 0; n-- {
		b.WriteByte(byte('0' + r.N(10)))
	}
	return b.String()
}

func intText(r *Rng) string {
	switch r.N(7) {
	case 0:
		return fmt.Sprint(r.Int64())
	case 1:
		return fmt.Sprint(r.Uint64())
	case 2: // around powers of two
		i := new(big.Int).Lsh(big.NewInt(1), uint(pick(r, 31, 32, 52, 53, 54, 62, 63, 64, 65, 127, 128, r.N(200))))
		i.Add(i, big.NewInt(int64(r.In(-3, 3))))
		if r.Bool() {
			i.Neg(i)
		}
		return i.String()
	case 3:
		return digits(r, r.In(1, 25))
	case 4:
		return pick(r, "-", "+", "") + strings.Repeat("0", r.N(30)) + fmt.Sprint(r.Uint64())
	case 5:
		return pick(r, "0", "-0", "+0", "00", "-1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "9007199254740993", "-9007199254740993")
	}
	return pick(r, "", "-") + digits(r, r.In(17, 21))
}

func numText(r *Rng) string {
	sign := pick(r, "", "", "-", "+")
	switch r.N(12) {
	case 0, 1, 2, 3:
		return intText(r)
	case 4:
		return sign + digits(r, r.In(1, 20)) + "." + digits(r, r.In(0, 25))
	case 5:
		return sign + digits(r, r.In(1, 20)) + pick(r, "e", "E") + pick(r, "", "-", "+") + fmt.Sprint(r.N(340))
	case 6:
		return sign + digits(r, r.In(1, 3)) + "." + digits(r, r.In(1, 20)) + pick(r, "e", "E") + pick(r, "", "-", "+") + fmt.Sprint(pick(r, r.N(20), r.N(340), 307, 308, 309, 323, 324, 325))
	case 7: // halfway between two floats, exactly or just beside
		f := math.Abs(r.Float64())
		if f == 0 || math.IsInf(f, 0) || f != f || f > 1e300 || f < 1e-300 {
			f = 1.5
		}
		g := math.Nextafter(f, math.Inf(1))
		x := new(big.Float).SetPrec(2000).SetFloat64(f)
		x.Add(x, new(big.Float).SetPrec(2000).SetFloat64(g))
		x.Quo(x, big.NewFloat(2))
		t := x.Text('e', 800)
		if r.Bool() {
			// a little more or less at the end of the exact text
			m, e, _ := strings.Cut(t, "e")
			m = strings.TrimRight(m, "0")
			if r.Bool() {
				t = m + "0000000001e" + e
			} else {
				t = m + "e" + e
			}
		}
		return sign + t
	case 8:
		return pick(r, "1e999", "-1e400", "1e309", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "1.797693134862315808e308", "4.9e-324", "2e-324", "2.5e-324", "1e-400", "-1e-400",
			"2.2250738585072011e-308", "123456789012345678901234567890e280", digits(r, 310), "1"+strings.Repeat("0", 308), "1"+strings.Repeat("0", 400)+".5", "0.1e1", "1.0", "-0.0", "100e-2", "1E2", ".5", "5.", "0e0")
	case 9:
		return pick(r, "", "abc", "1.2.3", "--5", "5x", "1e", "e5", ".", "-", "+", " 5", "5 ", "1 000", "1,5", "٣", "1\x00", "1e5.5", "\xff", "0b1", "true", "null", "1__0", "id", "12345678901234567890x", "9223372036854775808a")
	case 10:
		return randText(r, r.In(2, 30)) + "z"
	}
	f := r.Float64()
	if f != f || math.IsInf(f, 0) {
		f = 0.25
	}
	return fmt.Sprint(f)
}

type numRec struct {
	N  json.Number `sereal:"n"`
	P  *json.Number
	L  []json.Number
	M  map[string]json.Number
	A  [2]json.Number
	I  any
	In struct{ X json.Number }
	D  *numRec
}

func c20Places(c *Ctx) {
	r := c.R
	var texts []string
	interesting := false
	num := func() (json.Number, *V) {
		t := numText(r)
		if len(texts) > 0 && r.P(6) {
			t = texts[r.N(len(texts))] // repeated
		}
		texts = append(texts, t)
		if len(t) > 15 || !reNum.MatchString(t) {
			interesting = true
		}
		w := numOracle(t)
		c.Count("numbers "+kindNames[w.K], 1)
		return json.Number(t), w
	}
	arr := func(x ...*V) *V { return &V{K: KArr, A: x} }
	var build func(depth int) (any, *V)
	build = func(depth int) (any, *V) {
		if depth > 3 {
			n, w := num()
			return n, w
		}
		switch r.N(9) {
		case 0:
			n, w := num()
			return &n, w
		case 1:
			x, w := []json.Number{}, arr()
			for i := r.N(5); i > 0; i-- {
				n, k := num()
				x, w.A = append(x, n), append(w.A, k)
			}
			return x, w
		case 2:
			x, w := map[string]json.Number{}, &V{K: KMap, M: map[string]*V{}}
			for i := r.N(5); i > 0; i-- {
				key := pick(r, "a", "b", "1", "9223372036854775808", "id", numText(r))
				n, k := num()
				x[key], w.M[key] = n, k
			}
			return x, w
		case 3:
			x, w := []any{}, arr()
			for i := r.N(5); i > 0; i-- {
				n, k := build(depth + 1)
				x, w.A = append(x, n), append(w.A, k)
			}
			return x, w
		case 4:
			x, w := map[string]any{}, &V{K: KMap, M: map[string]*V{}}
			for i := r.N(5); i > 0; i-- {
				key := pick(r, "a", "b", "1", "9223372036854775808", "id", numText(r))
				n, k := build(depth + 1)
				x[key], w.M[key] = n, k
			}
			return x, w
		case 5:
			var x numRec
			w := &V{K: KMap, M: map[string]*V{}}
			x.N, w.M["n"] = num()
			p, k := num()
			x.P, w.M["P"] = &p, k
			w.M["L"], w.M["A"] = arr(), arr(nil, nil)
			for i := r.N(3); i > 0; i-- {
				n, k := num()
				x.L, w.M["L"].A = append(x.L, n), append(w.M["L"].A, k)
			}
			n, k := num()
			x.M, w.M["M"] = map[string]json.Number{"n": n}, &V{K: KMap, M: map[string]*V{"n": k}}
			x.A[0], w.M["A"].A[0] = num()
			x.A[1], w.M["A"].A[1] = num()
			x.I, w.M["I"] = build(depth + 1)
			w.M["In"] = &V{K: KMap, M: map[string]*V{}}
			x.In.X, w.M["In"].M["X"] = num()
			w.M["D"] = &V{K: KNil}
			return x, w
		case 6:
			n, w := num()
			return [2]any{n, "9223372036854775808"}, arr(w, vStr("9223372036854775808"))
		case 7:
			n, w := num()
			var x any = n
			return &x, w
		}
		n, w := num()
		return n, w
	}
	x, want := build(0)
	cfg := randCfg(r)
	if c.Idx%20000 == 3 {
		c.Sample("%v %q as %s", cfg, texts, dumpV(want))
	}
	hd, hwant := any(nil), (*V)(nil)
	if cfg.Version > 1 && r.P(4) {
		hd, hwant = build(1)
	}
	b, err := cfg.enc().MarshalWithHeader(hd, x)
	if err != nil {
		c.Fail("%v: %q: %v", cfg, texts, err)
		return
	}
	if interesting {
		c.Distinct(hashStr(strings.Join(texts, "\x00")))
	}
	y, err := decodeAny(&sereal.Decoder{}, b)
	if err != nil {
		c.Fail("%v: %q: %v\n%x", cfg, texts, err, clip(b))
		return
	}
	// floats and integers, strings and byte slices are kept apart
	if df := diffNum(want, fromGo(y)); df != "" {
		c.Fail("%v: %q: %s\nwant %s\ngot  %s\n%x", cfg, texts, df, dumpV(want), dumpV(fromGo(y)), clip(b))
		return
	}
	if hd != nil {
		var h any
		if err := sereal.NewDecoder().UnmarshalHeader(b, &h); err != nil {
			c.Fail("%v: header: %v", cfg, err)
			return
		}
		if df := diffNum(hwant, fromGo(h)); df != "" {
			c.Fail("%v: header: %q: %s", cfg, texts, df)
		}
	}
	// into typed variables
	t := intText(r)
	i, _ := new(big.Int).SetString(t, 10)
	if b, err = cfg.enc().Marshal(struct{ X json.Number }{json.Number(t)}); err != nil {
		c.Fail("%v", err)
		return
	}
	if i.IsInt64() {
		var v struct{ X int64 }
		if err := sereal.Unmarshal(b, &v); err != nil || v.X != i.Int64() {
			c.Fail("%v: %q decoded into an int64: %d, %v", cfg, t, v.X, err)
		}
	} else {
		var v struct{ X string }
		if err := sereal.Unmarshal(b, &v); err != nil || v.X != t {
			c.Fail("%v: %q decoded into a string: %q, %v", cfg, t, v.X, err)
		}
	}
}

// diffNum compares exactly, a negative zero and a zero included.
// A long number with a fraction or exponent may be kept as its text.
func diffNum(a, b *V) string {
	seen := map[*V]bool{}
	var rec func(v *V)
	rec = func(v *V) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if v.K == KStr && reNum.MatchString(v.S) && !reInt.MatchString(v.S) {
			if i, ok := new(big.Int).SetString(reHead.FindString(v.S), 10); ok && !i.IsInt64() {
				if q, ok := new(big.Rat).SetString(v.S); ok {
					if f, _ := q.Float64(); !math.IsInf(f, 0) {
						*v = *vF64(f)
					}
				}
			}
		}
		for _, x := range v.A {
			rec(x)
		}
		for _, x := range v.M {
			rec(x)
		}
	}
	rec(b)
	return diffV(a, b, eqOpt{CollapsePtr: true})
}

// c20JSON: what encoding/json reads with UseNumber.
func c20JSON(c *Ctx) {
	r := c.R
	jnum := func() string {
		for {
			t := numText(r)
			if json.Valid([]byte(t)) && t != "true" && t != "null" && strings.TrimSpace(t) == t {
				return t
			}
		}
	}
	var gen func(depth int) string
	gen = func(depth int) string {
		var p []string
		switch {
		case depth < 4 && r.P(3):
			for i := r.N(6); i > 0; i-- {
				p = append(p, gen(depth+1))
			}
			return "[" + strings.Join(p, ", ") + "]"
		case depth < 4 && r.P(2):
			for i := r.N(6); i > 0; i-- {
				k, _ := json.Marshal(pick(r, "a", "id", "n", fmt.Sprint(i)))
				p = append(p, string(k)+": "+gen(depth+1))
			}
			return "{" + strings.Join(p, ", ") + "}"
		case r.P(8):
			return pick(r, "true", "false", "null", `"9223372036854775808"`, `"x"`)
		}
		return jnum()
	}
	text := gen(0)
	dec := json.NewDecoder(strings.NewReader(text))
	dec.UseNumber()
	var x any
	if err := dec.Decode(&x); err != nil {
		panic(err)
	}
	m := map[reflect.Type]int{}
	var conv func(x any) *V
	conv = func(x any) *V {
		switch v := x.(type) {
		case json.Number:
			m[tJSONNum]++
			return numOracle(string(v))
		case []any:
			k := &V{K: KArr}
			for _, y := range v {
				k.A = append(k.A, conv(y))
			}
			return k
		case map[string]any:
			k := &V{K: KMap, M: map[string]*V{}}
			for s, y := range v {
				k.M[s] = conv(y)
			}
			return k
		}
		return fromGo(x)
	}
	want := conv(x)
	cfg := randCfg(r)
	b, err := cfg.enc().Marshal(x)
	if err != nil {
		c.Fail("%v: %s: %v", cfg, text, err)
		return
	}
	y, err := decodeAny(&sereal.Decoder{}, b)
	if err != nil {
		c.Fail("%v: %s: %v", cfg, text, err)
		return
	}
	if df := diffNum(want, fromGo(y)); df != "" {
		c.Fail("%v: %s: %s\nwant %s\ngot  %s", cfg, text, df, dumpV(want), dumpV(fromGo(y)))
		return
	}
	c.Count("json_numbers", int64(m[tJSONNum]))
	c.Distinct(hashStr(text))
}
