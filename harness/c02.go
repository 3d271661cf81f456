package main

import (
	"fmt"
	"reflect"
	"unsafe"

	"github.com/Sereal/Sereal/Go/sereal"
)

func init() {
	register(&Check{
		ID:     "C02",
		Rule:   "A case is a random Go value (all scalar kinds, named types, slices, arrays, maps, structs, pointers; sizes at the boundaries of the format) encoded with a random configuration, decoded into an interface{} and compared as a tree with the value mapped by rule; distinct by the value's hash and the configuration; non-trivial: at least 3 nodes.",
		Assume: []string{"NaNs are compared as NaNs"},
		Phases: []Phase{
			{Name: "values", Quick: 60000, Thor: 1500000, Run: c02Case},
			{Name: "offsets", Quick: 400, Thor: 8000, Run: c02Offsets},
			{Name: "scalars", Quick: 40000, Thor: 800000, Run: c02Scalars},
			{Name: "unencodable", Quick: 8000, Thor: 100000, Run: c02Bad},
			{Name: "values-checkptr", Flavor: "checkptr", Quick: 3000, Thor: 60000, Run: c02Case},
		},
	})
}

// expected maps an encodable value to what decoding into an interface{} gives.
func expected(x any) *V {
	m := newMapper()
	m.typed = true
	m.noShare = true
	return m.of(reflect.ValueOf(x))
}

// roundTrip encodes x and compares what comes back.
func roundTrip(c *Ctx, cfg encCfg, x any, want *V) []byte {
	b, err := cfg.enc().Marshal(x)
	if err != nil {
		c.Fail("%v: Marshal of %s: %v", cfg, dumpV(want), err)
		return nil
	}
	c.Count("encoded_bytes", int64(len(b)))
	y, err := decodeAny(&sereal.Decoder{}, b)
	if err != nil {
		c.Fail("%v: Unmarshal of %s: %v\n%x", cfg, dumpV(want), err, clip(b))
		return nil
	}
	if df := diffV(want, fromGo(y), eqOpt{CollapsePtr: true}); df != "" {
		c.Fail("%v: %s\nencoded %s\ndecoded %s\n%x", cfg, df, dumpV(want), dumpV(fromGo(y)), clip(b))
		return nil
	}
	c.Count("round_trips", 1)
	c.Count(fmt.Sprintf("v%d comp%d", cfg.Version, b[4]>>4), 1)
	return b
}

func c02Case(c *Ctx) {
	r := c.R
	g := newValGen(r)
	x := g.val(0)
	want := expected(x)
	if sizeV(want) >= 3 {
		c.Distinct(hashV(want))
	}
	cfg := randCfg(r)
	if c.Idx%5000 == 1 {
		c.Sample("%v %T %s", cfg, x, dumpV(want))
	}
	roundTrip(c, cfg, x, want)
	if !c.Failed() && r.P(8) {
		// the package-level functions
		b, err := sereal.Marshal(x)
		if err != nil {
			c.Fail("sereal.Marshal of %s: %v", dumpV(want), err)
			return
		}
		var y any
		if err := sereal.Unmarshal(b, &y); err != nil {
			c.Fail("sereal.Unmarshal of %s: %v", dumpV(want), err)
			return
		}
		if df := diffV(want, fromGo(y), eqOpt{CollapsePtr: true}); df != "" {
			c.Fail("package level: %s", df)
		}
	}
}

// c02Offsets: repeated keys, classes and pointers behind a lot of data, so that offsets cross the varint widths.
func c02Offsets(c *Ctx) {
	r := c.R
	edge := pick(r, 1<<7, 1<<14, 1<<14, 1<<21)
	if c.Idx%8 == 0 {
		edge = 1 << 21
	}
	pad := edge - r.In(0, 300)
	if pad < 0 {
		pad = 0
	}
	x := []any{map[string]any{"early": 1, "key1": "v"}, SInner{A: 1, B: "x"}, string(make([]byte, pad))}
	p := &SInner{A: 5, B: "shared"}
	for i := r.In(1, 40); i > 0; i-- {
		k := fmt.Sprintf("late%d", i)
		x = append(x, map[string]any{k: i, "early": 2}, SInner{A: i, B: "y"}, p, map[string]any{k: "again", "key1": nil}, SOuter{Int: i, P: p})
	}
	want := expected(x)
	c.Distinct(hashV(want))
	roundTrip(c, randCfg(r), x, want)
}

// c02Scalars: every width, alone and next to others.
func c02Scalars(c *Ctx) {
	r := c.R
	g := &valGen{r: r, maxStr: 200, counts: map[string]int64{}}
	n := r.In(1, 40)
	x := make([]any, n)
	for i := range x {
		x[i] = g.scalar()
	}
	if r.P(2) {
		i := r.Int64() + int64(r.In(-2, 2))
		x = append(x, i, -i, uint64(i), int(i), uint(i), NInt64(i), NUint64(i), int32(i), uint32(i), int16(i), uint16(i), int8(i), uint8(i))
	}
	var y any = x
	if r.P(4) {
		y = x[0]
	}
	want := expected(y)
	c.Distinct(hashV(want))
	roundTrip(c, randCfg(r), y, want)
}

type badStruct struct {
	A int
	C chan int
}
type badKeys map[NInt]string

func badValue(r *Rng) any {
	x := 5
	return pick[any](r, make(chan int), func() {}, complex(1, 2), complex64(1), uintptr(7), unsafe.Pointer(&x), map[int]string{1: "x"}, map[bool]any{true: 1},
		map[any]any{"a": 1, 5: 2}, map[float64]int{1.5: 1}, map[[2]int]int{{1, 2}: 3}, badStruct{}, &badStruct{}, badKeys{3: "x"}, []chan int{nil},
		map[string]func(){"a": nil}, [1]complex128{1}, map[any]any{nil: 1}, map[NUint8]int{65: 1}, map[rune]string{'a': "x"}, []func(){nil}, map[struct{}]int{{}: 1}, map[*int]int{&x: 1})
}

func c02Bad(c *Ctx) {
	r := c.R
	bad := badValue(r)
	g := newValGen(r)
	if g.budget > 40 {
		g.budget = 40
	}
	x := bad
	for i := r.N(5); i > 0; i-- {
		switch r.N(6) {
		case 0:
			x = []any{g.val(3), x, g.val(3)}
		case 1:
			x = map[string]any{g.key(): g.val(3), "bad": x}
		case 2:
			y := x
			x = &y
		case 3:
			x = SOuter{Any: x}
		case 4:
			x = []any{x}
		case 5:
			x = struct{ X any }{x}
		}
	}
	c.Distinct(mix(hashStr(fmt.Sprintf("%T", x)) ^ r.U64()))
	cfg := randCfg(r)
	b, err := cfg.enc().Marshal(x)
	c.Count("unencodable", 1)
	if err == nil {
		c.Fail("%v: Marshal of a %T with a %T in it gives no error\n%x", cfg, x, bad, clip(b))
	}
}
