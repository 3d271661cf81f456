package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"
)

// Named types and structs for the encoders.

type NInt int
type NInt8 int8
type NInt16 int16
type NInt32 int32
type NInt64 int64
type NUint uint
type NUint8 uint8
type NUint16 uint16
type NUint32 uint32
type NUint64 uint64
type NF32 float32
type NF64 float64
type NBool bool
type NStr string
type NBytes []byte
type NInts []int
type NAny []any
type NMap map[string]any
type NStrMap map[NStr]int

type SEmpty struct{}
type SHidden struct {
	a int
	b string
}
type SInner struct {
	A int
	B string `sereal:"b"`
	c int
	D []byte `sereal:"-"`
}
type SOuter struct {
	Int    int     `sereal:"int"`
	U      uint64  `sereal:"id"`
	S      string  `sereal:"name"`
	Bs     []byte  `sereal:"key"`
	F      float64 `sereal:"f"`
	F32    float32
	T      bool
	In     SInner
	P      *SInner
	L      []SInner
	M      map[string]SInner `sereal:"m"`
	Any    any               `sereal:"value"`
	SInner `sereal:"emb"`
	Ign    chan int `sereal:"-"`
	ign    func()
	NS     NStr
	NB     NBytes
	NI     NInt16
	Arr    [3]int8
	Anys   []any
	AnyM   map[string]any
}

// valGen makes encodable Go values.
type valGen struct {
	r        *Rng
	budget   int
	maxStr   int
	keys     []string
	simple   bool // only what decodes to itself
	noNaN    bool
	noPtr    bool
	noStruct bool
	counts   map[string]int64

	share     bool  // pointers are used several times, and in cycles
	perlTypes bool  // Perl* values
	ptrs      []any // pointers so far
	perlOK    bool  // only what Perl can hold: valid UTF-8 in strings, regexps that compile, weak references to what is held elsewhere
}

func newValGen(r *Rng) *valGen {
	g := &valGen{r: r, counts: map[string]int64{}}
	switch r.N(10) {
	case 0:
		g.budget = 1
	case 1:
		g.budget = r.In(100, 500)
	default:
		g.budget = r.In(2, 60)
	}
	g.maxStr = 300
	if r.P(12) {
		g.maxStr = 70000
	}
	return g
}

func (g *valGen) str() string {
	r := g.r
	if len(g.keys) > 0 && r.P(5) {
		return g.keys[r.N(len(g.keys))]
	}
	s := g.text(r.Len(g.maxStr))
	if len(g.keys) > 0 && r.P(8) {
		s = g.related()
	}
	if r.P(3) {
		g.keys = append(g.keys, s)
	}
	return s
}

// related makes a string that is nearly one of the earlier ones.
func (g *valGen) related() string {
	s := nearMiss(g.r, g.keys[g.r.N(len(g.keys))])
	if g.perlOK {
		s = strings.ToValidUTF8(s, "?")
	}
	return s
}

func (g *valGen) text(n int) string {
	s := randText(g.r, n)
	if g.perlOK {
		s = strings.ToValidUTF8(s, "?")
	}
	return s
}

// bytes makes the content of a byte string.
func (g *valGen) bytes() []byte {
	if g.perlOK && g.r.P(3) {
		return g.r.Bytes(g.r.Len(60))
	}
	return []byte(g.str())
}

func (g *valGen) key() string {
	r := g.r
	switch r.N(4) {
	case 0:
		return pick(r, "id", "name", "a", "b", "key", "value", "Foo", "", "SOuter", "SInner")
	case 1:
		if len(g.keys) > 0 {
			return g.keys[r.N(len(g.keys))]
		}
	}
	n := g.maxStr / 4
	if r.P(4) {
		n = g.maxStr
	}
	s := g.text(r.Len(n))
	if len(g.keys) > 0 && r.P(5) {
		s = g.related()
	}
	g.keys = append(g.keys, s)
	return s
}

func (g *valGen) scalar() any {
	r := g.r
	if g.simple {
		switch r.N(8) {
		case 0:
			return nil
		case 1:
			return r.Bool()
		case 2, 3:
			return int(r.Int64())
		case 4:
			return g.f64()
		case 5:
			return g.f32()
		case 6:
			return g.bytes()
		}
		return g.str()
	}
	switch r.N(24) {
	case 0:
		return nil
	case 1:
		return r.Bool()
	case 2, 3:
		return int(r.Int64())
	case 4:
		return int8(r.Int64())
	case 5:
		return int16(r.Int64())
	case 6:
		return int32(r.Int64())
	case 7:
		return r.Int64()
	case 8:
		return uint(r.Uint64())
	case 9:
		return uint8(r.U64())
	case 10:
		return uint16(r.Uint64())
	case 11:
		return uint32(r.Uint64())
	case 12:
		return r.Uint64()
	case 13:
		return g.f32()
	case 14:
		return g.f64()
	case 15:
		return g.bytes()
	case 16:
		return g.named()
	case 17:
		return []byte(nil)
	}
	return g.str()
}

func (g *valGen) f64() float64 {
	f := g.r.Float64()
	if g.noNaN && (f != f || math.IsInf(f, 0)) {
		return 1.5
	}
	return f
}

func (g *valGen) f32() float32 {
	f := g.r.Float32()
	if g.noNaN && (f != f || math.IsInf(float64(f), 0)) {
		return 1.5
	}
	return f
}

func (g *valGen) named() any {
	r := g.r
	switch r.N(15) {
	case 0:
		return NInt(r.Int64())
	case 1:
		return NInt8(r.Int64())
	case 2:
		return NInt16(r.Int64())
	case 3:
		return NInt32(r.Int64())
	case 4:
		return NInt64(r.Int64())
	case 5:
		return NUint(r.Uint64())
	case 6:
		return NUint8(r.Uint64())
	case 7:
		return NUint16(r.Uint64())
	case 8:
		return NUint32(r.Uint64())
	case 9:
		return NUint64(r.Uint64())
	case 10:
		return NF32(g.f32())
	case 11:
		return NF64(g.f64())
	case 12:
		return NBool(r.Bool())
	case 13:
		return NBytes(g.r.Bytes(r.Len(40)))
	}
	return NStr(g.str())
}

func (g *valGen) count() int {
	n := g.r.Len(40)
	if g.r.P(30) {
		n = g.r.Len(300)
	}
	if n > g.budget {
		n = g.r.N(g.budget + 1)
	}
	return n
}

func (g *valGen) inner() SInner {
	return SInner{A: int(g.r.Int64()), B: g.str(), c: 7, D: []byte("left out")}
}

func (g *valGen) val(depth int) any {
	g.budget--
	r := g.r
	if g.budget <= 0 || depth > 30 || r.P(3) {
		return g.scalar()
	}
	if g.perlTypes && r.P(10) {
		return g.perl(depth)
	}
	if g.share && r.P(6) {
		return g.pointer(depth)
	}
	n := 10
	if !g.simple {
		n = 26
	}
	switch r.N(n) {
	case 0, 1, 2, 3:
		a := make([]any, g.count())
		for i := range a {
			a[i] = g.val(depth + 1)
		}
		return a
	case 4, 5, 6, 7:
		m := map[string]any{}
		for i := g.count(); i > 0; i-- {
			m[g.key()] = g.val(depth + 1)
		}
		return m
	case 8, 9:
		return g.scalar()
	case 10:
		a := make([]int, g.count())
		for i := range a {
			a[i] = int(r.Int64())
		}
		return a
	case 11:
		a := make([]string, g.count())
		for i := range a {
			a[i] = g.str()
		}
		return a
	case 12:
		a := make([][]byte, g.count())
		for i := range a {
			a[i] = g.bytes()
		}
		return a
	case 13:
		return pick[any](r, [3]int{1, int(r.Int64()), -3}, [4]byte{1, 2, 3, 255}, [0]string{}, [2]string{g.str(), ""}, [1]any{g.val(depth + 1)}, [2]NStr{"a", NStr(g.str())})
	case 14:
		m := map[string]int{}
		for i := g.count(); i > 0; i-- {
			m[g.key()] = int(r.Int64())
		}
		return m
	case 15:
		m := map[NStr]any{}
		for i := g.count(); i > 0; i-- {
			m[NStr(g.key())] = g.val(depth + 1)
		}
		return m
	case 16:
		m := map[any]any{}
		for i := g.count(); i > 0; i-- {
			m[g.key()] = g.val(depth + 1)
		}
		return m
	case 17:
		if g.noStruct {
			return g.scalar()
		}
		return g.inner()
	case 18:
		if g.noStruct {
			return g.scalar()
		}
		o := SOuter{Int: int(r.Int64()), U: r.Uint64(), S: g.str(), Bs: g.bytes(), F: g.f64(), F32: g.f32(), T: r.Bool(), In: g.inner(),
			NS: NStr(g.str()), NB: NBytes(g.r.Bytes(r.N(4))), NI: NInt16(r.Int64()), Arr: [3]int8{1, -1, int8(r.U64())}, SInner: g.inner(), ign: func() {}}
		if r.Bool() {
			o.Any = g.val(depth + 1)
		}
		if r.Bool() && !g.noPtr {
			x := g.inner()
			o.P = &x
		}
		for i := r.N(3); i > 0; i-- {
			o.L = append(o.L, g.inner())
		}
		if r.Bool() {
			o.M = map[string]SInner{g.key(): g.inner()}
			o.AnyM = map[string]any{g.key(): g.val(depth + 1)}
			o.Anys = []any{g.val(depth + 1)}
		}
		return o
	case 19:
		if g.noStruct {
			return g.scalar()
		}
		if g.perlOK {
			return pick[any](r, SEmpty{}, SHidden{1, "x"}, []SEmpty{{}, {}}, EBase{1, g.str()}, &EMore{EBase: EBase{2, "z"}, EPtr: &EPtr{X: 1}, Tags: []string{"a"}})
		}
		return pick[any](r, SEmpty{}, SHidden{1, "x"}, []SEmpty{{}, {}}, EBase{1, g.str()}, &EMore{EBase: EBase{2, "z"}, EPtr: &EPtr{X: 1}, Tags: []string{"a"}}, struct {
			X any
			Y string `sereal:"id"`
		}{g.val(depth + 1), g.str()})
	case 20:
		return pick[any](r, NInts{1, 2, int(r.Int64())}, NAny{g.val(depth + 1), nil}, NMap{"a": g.val(depth + 1)}, NStrMap{"q": 3}, []any(nil), map[string]any(nil), []int(nil), NMap(nil), []NUint8{1, 200}, []bool{true, false})
	case 21:
		a := make([]float64, r.N(5))
		for i := range a {
			a[i] = g.f64()
		}
		return a
	case 22:
		return g.dynStruct(depth)
	}
	if g.noPtr {
		return g.scalar()
	}
	switch r.N(8) {
	case 0:
		x := int(r.Int64())
		return &x
	case 1:
		x := strings.Clone(g.str())
		return &x
	case 2:
		x := g.val(depth + 1)
		if s, ok := x.(string); ok {
			x = strings.Clone(s) // not the variable of another string
		}
		return &x
	case 3:
		x := g.inner()
		return &x
	case 4:
		var p *SInner
		return p
	case 5:
		a := []any{g.val(depth + 1)}
		return &a
	case 6:
		m := map[string]any{g.key(): g.val(depth + 1)}
		p := &m
		return &p
	}
	x := []string{g.str(), g.str()}
	return &x
}

// pointer returns a pointer, often one that was used before or that is being filled.
func (g *valGen) pointer(depth int) any {
	r := g.r
	if len(g.ptrs) > 0 && r.P(2) {
		g.counts["shared_pointer"]++
		return g.ptrs[r.N(len(g.ptrs))]
	}
	add := func(p any) any { g.ptrs = append(g.ptrs, p); return p }
	k := r.N(10)
	if k == 4 && g.perlOK {
		k = 5
	}
	switch k {
	case 0:
		x := int(r.Int64())
		return add(&x)
	case 1:
		x := strings.Clone(g.str())
		return add(&x)
	case 2:
		x := g.inner()
		add(&x)
		return add(&x.A) // the first field has the same address
	case 3:
		x := &[]any{nil, nil, 3}
		add(x)
		(*x)[0] = g.val(depth + 1)
		(*x)[1] = g.val(depth + 1)
		return add(&(*x)[2])
	case 4:
		x := &struct {
			Self any
			Arr  [2]int
			Z    struct{}
		}{}
		add(x)
		x.Self = g.val(depth + 1)
		add(&x.Arr)
		add(&x.Z)
		return add(&x.Arr[0])
	case 5, 6:
		m := map[string]any{}
		p := &m
		add(p)
		for i := r.N(5); i > 0; i-- {
			m[g.key()] = g.val(depth + 1)
		}
		return p
	case 7:
		x := g.bytes()
		return add(&x)
	case 8:
		// slices and strings that start at the same place
		x := []any{1, 2, g.val(depth + 1)}
		y := x[:r.In(1, 2)]
		s := strings.Clone("common prefix")
		t := s[:6]
		add(&y)
		add(&s)
		add(&t)
		return add(&x)
	}
	a := make([]any, r.N(6))
	p := &a
	add(p)
	for i := range a {
		a[i] = g.val(depth + 1)
	}
	return p
}

func (g *valGen) perl(depth int) any {
	r := g.r
	ref := func() any {
		if r.P(2) {
			return map[string]any{g.key(): g.val(depth + 1)}
		}
		return []any{g.val(depth + 1)}
	}
	if g.perlOK {
		switch r.N(8) {
		case 4, 6:
			return g.regexp()
		case 5:
			if len(g.ptrs) == 0 {
				return g.pointer(depth)
			}
			return &sereal.PerlWeakRef{Reference: g.ptrs[r.N(len(g.ptrs))]}
		case 7:
			return pick[any](r, TThaw{g.bytes()}, &TThaw{g.bytes()})
		}
	}
	n := 7
	if g.perlOK {
		n = 4
	}
	switch r.N(n) {
	case 0:
		return sereal.PerlUndef{}
	case 1:
		return sereal.PerlCanonicalUndef()
	case 2, 3:
		o := sereal.PerlObject{Class: pick(r, "Foo", "Foo::Bar", "A"+g.key()), Reference: ref()}
		if g.perlOK {
			o.Class = pick(r, "Foo", "Foo::Bar", "Long::Class::"+strings.Repeat("x", 30), "SInner")
		}
		if r.P(2) {
			return &o
		}
		return o
	case 4:
		return &sereal.PerlRegexp{Pattern: g.bytes(), Modifiers: []byte(pick(r, "", "i", "msix"))}
	case 5:
		x := ref()
		return &sereal.PerlWeakRef{Reference: &x}
	}
	return sereal.PerlRegexp{Pattern: g.bytes(), Modifiers: []byte("x")}
}

func (g *valGen) regexp() any {
	r := g.r
	x := sereal.PerlRegexp{Pattern: []byte(pick(r, "", "abc", "^a+(b|c)*?$", "\\d{2,3}", "[\\x00-\\x7f]", "a/b", strings.Repeat("long", 20))), Modifiers: []byte(pick(r, "", "i", "ms", "msix", "x"))}
	p := &x
	return sereal.PerlObject{Class: "Regexp", Reference: &p}
}

// dynStruct makes a value of a struct type of its own.
func (g *valGen) dynStruct(depth int) any {
	r := g.r
	if g.noStruct || g.perlOK {
		return g.scalar()
	}
	n := r.In(1, 20)
	if r.P(10) {
		n = r.In(20, 150)
	}
	var fs []reflect.StructField
	var vals []any
	for i := 0; i < n; i++ {
		v := g.scalar()
		if r.P(3) {
			v = g.val(depth + 1)
		}
		t := tIface
		if v != nil && r.P(2) {
			t = reflect.TypeOf(v)
		}
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: t}
		if r.P(3) {
			f.Tag = reflect.StructTag(fmt.Sprintf(`sereal:"%s%d"`, pick(r, "t", "tag_", strings.Repeat("long", 10)), i))
		} else if r.P(10) {
			f.Tag = `sereal:"-"`
		}
		fs = append(fs, f)
		vals = append(vals, v)
	}
	sv := reflect.New(reflect.StructOf(fs)).Elem()
	for i, v := range vals {
		if v != nil {
			sv.Field(i).Set(reflect.ValueOf(v))
		}
	}
	return sv.Interface()
}

// ---- encoder configurations ----

type encCfg struct {
	Version   int
	Perl      bool
	NoDedup   bool
	Comp      int // 0 none, else document type
	Level     int
	Threshold int
	Expected  uint
	NoFreeze  bool
	MaxDepth  int
}

func (c encCfg) String() string {
	return fmt.Sprintf("%+v", struct {
		Version, Comp, Level, Threshold, MaxDepth int
		Perl, NoDedup, NoFreeze                   bool
		Expected                                  uint
	}{c.Version, c.Comp, c.Level, c.Threshold, c.MaxDepth, c.Perl, c.NoDedup, c.NoFreeze, c.Expected})
}

func randCfg(r *Rng) encCfg {
	c := encCfg{Version: r.In(1, 3)}
	c.Perl = r.P(3)
	c.NoDedup = r.P(4)
	if r.P(3) {
		switch c.Version {
		case 1:
			c.Comp = pick(r, 1, 2)
		case 2:
			c.Comp = 2
		case 3:
			c.Comp = pick(r, 2, 3)
		}
		c.Level = pick(r, 0, -1, 1, 6, 9)
	}
	c.Threshold = pick(r, 0, 1, 10, 100, 1024, 1<<20, -1)
	if r.P(4) {
		c.Expected = uint(pick(r, 1, 100, 5000, 100000))
	}
	if r.P(10) {
		c.MaxDepth = 100000
	}
	return c
}

func (c encCfg) apply(e *sereal.Encoder) *sereal.Encoder {
	e.PerlCompat = c.Perl
	e.DisableDedup = c.NoDedup
	e.DisableFREEZE = c.NoFreeze
	e.CompressionThreshold = c.Threshold
	e.ExpectedSize = c.Expected
	e.MaxRecursionDepth = c.MaxDepth
	switch c.Comp {
	case 1:
		e.Compression = sereal.SnappyCompressor{Incremental: false}
	case 2:
		e.Compression = sereal.SnappyCompressor{Incremental: true}
	case 3:
		e.Compression = sereal.ZlibCompressor{Level: c.Level}
	case 4:
		e.Compression = sereal.ZstdCompressor{Level: c.Level}
	}
	return e
}

func (c encCfg) enc() *sereal.Encoder {
	var e *sereal.Encoder
	switch c.Version {
	case 1:
		e = sereal.NewEncoder()
	case 2:
		e = sereal.NewEncoderV2()
	case 0:
		e = &sereal.Encoder{}
	default:
		e = sereal.NewEncoderV3()
	}
	return c.apply(e)
}
