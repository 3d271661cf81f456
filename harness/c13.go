package main

import (
	"bytes"
	"errors"
	"fmt"
	"net/netip"
	"reflect"
	"time"

	"github.com/Sereal/Sereal/Go/sereal"
)

func init() {
	register(&Check{
		ID:     "C13",
		Rule:   "A case is a random structure with values of 7 types that implement BinaryMarshaler (of struct, string, integer, map, array and slice kind, random payloads) at the top, in fields, elements, map values, interfaces and behind pointers, or a generated document with OBJECT_FREEZE and OBJECTV_FREEZE items; a monitor in MarshalBinary and UnmarshalBinary records every payload, and the two logs must be the same sequence as the one in the document; distinct by document; non-trivial: at least 2 frozen values.",
		Assume: []string{"types whose MarshalBinary has a pointer receiver are not frozen", "payloads are references to an array of one byte string"},
		Phases: []Phase{
			{Name: "untyped", Quick: 80000, Thor: 1500000, Run: c13Untyped},
			{Name: "typed", Quick: 80000, Thor: 1500000, Run: c13Typed},
			{Name: "documents", Quick: 40000, Thor: 800000, Run: c13Docs},
			{Name: "errors", Quick: 40000, Thor: 800000, Run: c13Errors},
			{Name: "known-types", Quick: 10000, Thor: 200000, Run: c13Known},
		},
	})
}

// fzLog is what the monitors in MarshalBinary and UnmarshalBinary saw.
var fzLog struct {
	out, in []string
	outErr  int // MarshalBinary fails at this call (0: never)
	inErr   int
}

var errFzOut, errFzIn = errors.New("freeze failed on purpose"), errors.New("thaw failed on purpose")

func fzReset() { fzLog.out, fzLog.in, fzLog.outErr, fzLog.inErr = nil, nil, 0, 0 }

func fzOut(class, b string) ([]byte, error) {
	fzLog.out = append(fzLog.out, class+"|"+b)
	if len(fzLog.out) == fzLog.outErr {
		return nil, errFzOut
	}
	if b == "" && len(fzLog.out)%2 == 1 {
		return nil, nil
	}
	return []byte(b), nil
}

func fzIn(class string, b []byte) (string, error) {
	fzLog.in = append(fzLog.in, class+"|"+string(b))
	s := string(b)
	if len(fzLog.in) == fzLog.inErr {
		return "", errFzIn
	}
	for i := range b {
		b[i] ^= 0xff // the bytes belong to us now
	}
	return s, nil
}

type FzStruct struct {
	P string
	X any
}
type FzStr string
type FzInt uint64
type FzMap map[string]string
type FzArr [3]byte
type FzSlice []byte
type FzBig struct{ P, Q string }

func (f FzStruct) MarshalBinary() ([]byte, error) { return fzOut("main.FzStruct", f.P) }
func (f *FzStruct) UnmarshalBinary(b []byte) (err error) {
	f.P, err = fzIn("main.FzStruct", b)
	return
}
func (f FzStr) MarshalBinary() ([]byte, error) { return fzOut("main.FzStr", string(f)) }
func (f *FzStr) UnmarshalBinary(b []byte) error {
	s, err := fzIn("main.FzStr", b)
	*f = FzStr(s)
	return err
}
func (f FzInt) MarshalBinary() ([]byte, error) { return fzOut("main.FzInt", fmt.Sprint(uint64(f))) }
func (f *FzInt) UnmarshalBinary(b []byte) error {
	s, err := fzIn("main.FzInt", b)
	fmt.Sscan(s, (*uint64)(f))
	return err
}
func (f FzMap) MarshalBinary() ([]byte, error) { return fzOut("main.FzMap", f["p"]) }
func (f *FzMap) UnmarshalBinary(b []byte) error {
	s, err := fzIn("main.FzMap", b)
	*f = FzMap{"p": s}
	return err
}
func (f FzArr) MarshalBinary() ([]byte, error) { return fzOut("main.FzArr", string(f[:])) }
func (f *FzArr) UnmarshalBinary(b []byte) error {
	s, err := fzIn("main.FzArr", b)
	copy(f[:], s)
	return err
}
func (f FzSlice) MarshalBinary() ([]byte, error) { return fzOut("main.FzSlice", string(f)) }
func (f *FzSlice) UnmarshalBinary(b []byte) error {
	s, err := fzIn("main.FzSlice", b)
	*f = FzSlice(s)
	return err
}
func (f FzBig) MarshalBinary() ([]byte, error) {
	return fzOut("main.FzBig", f.P+"\x00"+f.Q)
}
func (f *FzBig) UnmarshalBinary(b []byte) error {
	s, err := fzIn("main.FzBig", b)
	if i := bytes.IndexByte([]byte(s), 0); i >= 0 {
		f.P, f.Q = s[:i], s[i+1:]
	}
	return err
}

var fzTypes = []reflect.Type{reflect.TypeOf(FzStruct{}), reflect.TypeOf(FzStr("")), reflect.TypeOf(FzInt(0)), reflect.TypeOf(FzMap{}), reflect.TypeOf(FzArr{}), reflect.TypeOf(FzSlice{}), reflect.TypeOf(FzBig{})}

type FzRec struct {
	A FzStruct
	B *FzStruct `sereal:"b"`
	C []FzStr
	D map[string]FzInt `sereal:"dd"`
	E map[string]*FzBig
	F [2]FzArr
	G FzMap
	H FzSlice
	I int
	J []FzRec
	K *FzRec
	L any
	M FzBig `sereal:"-"`
	N []*FzStr
	O *FzMap
}

func fzText(r *Rng) string {
	if r.P(40) {
		return randText(r, r.Len(70000))
	}
	return randText(r, r.Len(300))
}

func fzNoNul(s string) string { return string(bytes.ReplaceAll([]byte(s), []byte{0}, []byte{1})) }

// fzVal makes one value.
func fzVal(r *Rng) any {
	switch r.N(7) {
	case 0:
		return FzStruct{P: fzText(r), X: 5}
	case 1:
		return FzStr(fzText(r))
	case 2:
		return FzInt(r.Uint64())
	case 3:
		return FzMap{"p": fzText(r)}
	case 4:
		return FzArr{byte(r.U64()), byte(r.U64()), 7}
	case 5:
		return FzSlice(fzText(r))
	}
	return FzBig{fzNoNul(fzText(r)), fzText(r)}
}

func fzPtr(x any) any {
	p := reflect.New(reflect.TypeOf(x))
	p.Elem().Set(reflect.ValueOf(x))
	return p.Interface()
}

// fzGraph makes an untyped structure around frozen values.
func fzGraph(r *Rng, depth int, ptrs *[]any) any {
	if depth > 3 || r.P(3) {
		switch r.N(6) {
		case 0:
			return pick[any](r, nil, 5, "main.FzStruct", []byte("main.FzStr"), "p", true, 1.5)
		case 1:
			if len(*ptrs) > 0 {
				return (*ptrs)[r.N(len(*ptrs))]
			}
		case 2:
			p := fzPtr(fzVal(r))
			*ptrs = append(*ptrs, p)
			return p
		case 3:
			var x any = fzVal(r)
			return &x
		}
		return fzVal(r)
	}
	switch r.N(7) {
	case 0, 1:
		a := make([]any, r.In(1, 5))
		for i := range a {
			a[i] = fzGraph(r, depth+1, ptrs)
		}
		return a
	case 2, 3:
		m := map[string]any{}
		for i := r.In(1, 5); i > 0; i-- {
			m[pick(r, "main.FzStruct", "main.FzStr", "p", "q", fmt.Sprint(i))] = fzGraph(r, depth+1, ptrs)
		}
		return m
	case 4:
		return pick[any](r, []FzStr{FzStr(fzText(r)), "x"}, map[string]FzInt{"p": 3}, [2]FzArr{{1}, {2}}, []FzStruct{{P: fzText(r)}, {P: "b"}}, map[NStr]FzBig{"z": {"1", "2"}},
			[]FzSlice{FzSlice("abc"), nil}, []FzMap{{"p": "x"}})
	case 5:
		return fzRec(r, 3)
	}
	return struct {
		X FzStr
		Y any `sereal:"yy"`
		Z *FzStruct
	}{FzStr(fzText(r)), fzGraph(r, depth+1, ptrs), &FzStruct{P: fzText(r)}}
}

func fzRec(r *Rng, depth int) FzRec {
	f := FzRec{A: FzStruct{P: fzText(r)}, I: r.N(100), F: [2]FzArr{{1, 2, 3}, {byte(r.U64())}}, G: FzMap{"p": fzText(r)}, H: FzSlice(fzText(r))}
	if r.Bool() {
		f.B = &FzStruct{P: fzText(r)}
	}
	for i := r.N(4); i > 0; i-- {
		f.C = append(f.C, FzStr(fzText(r)))
	}
	if r.Bool() {
		f.D = map[string]FzInt{fzText(r): FzInt(r.U64()), "x": 1}
		f.E = map[string]*FzBig{"k": {fzNoNul(fzText(r)), "q"}, "b": {"", ""}}
	}
	if depth < 2 {
		for i := r.N(3); i > 0; i-- {
			f.J = append(f.J, fzRec(r, depth+1))
		}
		if r.Bool() {
			k := fzRec(r, depth+1)
			f.K = &k
		}
	}
	f.M = FzBig{"left", "out"}
	if r.P(3) {
		x := FzStr(fzText(r))
		f.N = []*FzStr{&x}
	}
	return f
}

// frozenIn lists the frozen objects of a document in its order.
func frozenIn(n *Node) []string {
	var l []string
	walk(n, func(k *Node) {
		if k.T == tOBJF || k.T == tOBJVF {
			l = append(l, classOf(k)+"|"+strOf(k.Kids[len(k.Kids)-1].Kids[0].Kids[0]))
		}
	})
	return l
}

func diffLog(what string, want, got []string) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		switch {
		case i >= len(want):
			return fmt.Sprintf("%s: extra %.120q at %d", what, got[i], i)
		case i >= len(got):
			return fmt.Sprintf("%s: %.120q is missing at %d", what, want[i], i)
		case want[i] != got[i]:
			return fmt.Sprintf("%s: at %d %.120q instead of %.120q", what, i, got[i], want[i])
		}
	}
	return ""
}

// c13Encode encodes x and compares what MarshalBinary returned with the document.
func c13Encode(c *Ctx, cfg encCfg, x any) ([]byte, []string) {
	fzReset()
	b, err := cfg.enc().Marshal(x)
	if err != nil {
		c.Fail("%v: %v", cfg, err)
		return nil, nil
	}
	out := fzLog.out
	d, err := parseDoc(b)
	if err != nil {
		c.Fail("%v: not well-formed: %v\n%x", cfg, err, clip(b))
		return nil, nil
	}
	if df := diffLog("in the document", out, frozenIn(d.Body)); df != "" {
		c.Fail("%v: %s\n%x", cfg, df, clip(b))
		return nil, nil
	}
	c.Count("frozen", int64(len(out)))
	return b, out
}

func c13Untyped(c *Ctx) {
	r := c.R
	var ptrs []any
	x := fzGraph(r, 0, &ptrs)
	cfg := randCfg(r)
	if r.P(8) {
		// plain structure instead
		cfg.NoFreeze = true
		fzReset()
		b, err := cfg.enc().Marshal(x)
		if err != nil {
			c.Fail("%v: %v", cfg, err)
			return
		}
		if len(fzLog.out) > 0 {
			c.Fail("MarshalBinary was called with DisableFREEZE")
			return
		}
		y, err := decodeAny(&sereal.Decoder{}, b)
		if err != nil {
			c.Fail("%v: %v\n%x", cfg, err, clip(b))
			return
		}
		m := newMapper()
		m.noShare = true
		if df := diffV(m.of(reflect.ValueOf(x)), fromGo(y), eqOpt{CollapsePtr: true}); df != "" {
			c.Fail("%v: DisableFREEZE: %s\n%x", cfg, df, clip(b))
		}
		c.Count("plain", 1)
		return
	}
	b, out := c13Encode(c, cfg, x)
	if c.Failed() {
		return
	}
	if len(out) >= 2 {
		c.Distinct(hashStr(string(b)))
	}
	m := newMapper()
	m.freeze, m.noShare = true, true
	want := m.of(reflect.ValueOf(x))
	// decode with some of the classes registered
	registered := map[string]reflect.Type{}
	dec := &sereal.Decoder{}
	perl := r.P(4)
	dec.PerlCompat = perl
	if !perl {
		for _, t := range fzTypes {
			if r.Bool() {
				dec.RegisterName("main."+t.Name(), reflect.New(t).Interface())
				registered["main."+t.Name()] = t
			}
		}
	}
	fzReset()
	y, err := decodeAny(dec, b)
	if err != nil {
		c.Fail("%v: %v\n%x", cfg, err, clip(b))
		return
	}
	in := fzLog.in
	var wantIn []string
	for _, s := range out {
		if registered[s[:bytes.IndexByte([]byte(s), '|')]] != nil {
			wantIn = append(wantIn, s)
		}
	}
	if df := diffLog("UnmarshalBinary", wantIn, in); df != "" {
		c.Fail("%v: %s\n%x", cfg, df, clip(b))
		return
	}
	c.Count("thawed", int64(len(in)))
	m = newMapper()
	m.freeze = true
	got := m.of(reflect.ValueOf(y))
	if perl {
		got = toNil(got)
	}
	if df := diffV(want, got, eqOpt{CollapsePtr: true, NoWrap: true}); df != "" {
		c.Fail("%v: registered %v: %s\nwant %s\ngot  %s\n%x", cfg, registered, df, dumpV(want), dumpV(got), clip(b))
		return
	}
	// the Go types of what was decoded
	var rec func(v reflect.Value)
	seen := map[uintptr]bool{}
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			rec(v.Elem())
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			if f, ok := v.Interface().(*sereal.PerlFreeze); ok {
				c.Count("perlfreeze", 1)
				if registered[f.Class] != nil {
					c.Fail("class %s is registered, but decoded as PerlFreeze", f.Class)
				}
				return
			}
			t := v.Type().Elem()
			if t.PkgPath() == "main" && registered["main."+t.Name()] != t {
				c.Fail("decoded as %v, which is not registered", t)
				return
			}
			if t.PkgPath() != "main" {
				rec(v.Elem())
			}
		case reflect.Slice:
			if v.Type().Elem().Kind() != reflect.Uint8 {
				for i := 0; i < v.Len(); i++ {
					rec(v.Index(i))
				}
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				rec(v.MapIndex(k))
			}
		case reflect.Struct:
			if t := v.Type(); t.PkgPath() == "main" {
				c.Fail("decoded as %v", t)
			}
		}
	}
	rec(reflect.ValueOf(y))
	if c.Idx%10000 == 6 {
		c.Sample("%v: %d frozen, registered %v: %s", cfg, len(out), registered, short(want))
	}
}

// toNil makes nil of undef.
func toNil(v *V) *V {
	seen := map[*V]bool{}
	var rec func(v *V)
	rec = func(v *V) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if v.K == KUndef {
			v.K = KNil
		}
		for _, x := range v.A {
			rec(x)
		}
		for _, x := range v.M {
			rec(x)
		}
	}
	rec(v)
	return v
}

func c13Typed(c *Ctx) {
	r := c.R
	cfg := randCfg(r)
	cfg.Perl = false
	var x any
	switch r.N(10) {
	case 0:
		x = fzVal(r)
	case 1:
		x = []FzStr{FzStr(fzText(r)), FzStr(fzText(r)), ""}
	case 2:
		x = map[string]FzStruct{"a": {P: fzText(r)}, "main.FzStruct": {P: "x"}}
	case 3:
		x = map[string]*FzBig{"a": {"x", fzText(r)}, "b": {"", ""}}
	case 4:
		x = []*FzStruct{{P: fzText(r)}, {P: fzText(r)}, nil}
	case 5:
		x = [3]FzArr{{1}, {2, byte(r.U64())}, {3}}
	default:
		x = fzRec(r, 0)
	}
	enc := x
	if r.P(4) {
		enc = fzPtr(x)
	}
	b, out := c13Encode(c, cfg, enc)
	if c.Failed() {
		return
	}
	if len(out) >= 2 {
		c.Distinct(hashStr(string(b)))
	}
	y := reflect.New(reflect.TypeOf(x))
	if r.P(4) {
		// a variable that was used before
		switch y.Interface().(type) {
		case *FzStruct:
			y.Elem().Set(reflect.ValueOf(FzStruct{P: "old"}))
		case *FzStr:
			y.Elem().SetString("old")
		}
	}
	fzReset()
	if err := (&sereal.Decoder{}).Unmarshal(b, y.Interface()); err != nil {
		c.Fail("%v: decoding %T: %v\n%x", cfg, x, err, clip(b))
		return
	}
	if df := diffLog("UnmarshalBinary", out, fzLog.in); df != "" {
		c.Fail("%v: %T: %s\n%x", cfg, x, df, clip(b))
		return
	}
	c.Count("thawed", int64(len(out)))
	clean := func(f *FzRec) {
		var rec func(f *FzRec)
		rec = func(f *FzRec) {
			f.M = FzBig{}
			for i := range f.J {
				rec(&f.J[i])
			}
			if f.K != nil {
				rec(f.K)
			}
		}
		rec(f)
	}
	if f, ok := x.(FzRec); ok {
		clean(&f)
		x = f
	}
	if f, ok := x.(FzStruct); ok {
		f.X = nil
		x = f
	}
	if df := deepDiff(reflect.ValueOf(x), y.Elem(), "$"); df != "" {
		c.Fail("%v: %T: %s\n%x", cfg, x, df, clip(b))
	}
}

// c13Docs: frozen objects in generated documents.
func c13Docs(c *Ctx) {
	r := c.R
	d, _ := genDoc(r, r.In(1, 4), func(g *docGen) {
		g.freeze = true
		g.perlish = r.P(3)
	})
	d.Type = docTypeFor(r, d.Version)
	// make sure that there are a few
	g := newDocGen(r, d.Version)
	walk(d.Body, func(n *Node) {
		if (n.T == tOBJECT || n.T == tOBJF) && n.Kids[0].T != tCOPY {
			g.classes = append(g.classes, n.Kids[0])
		}
	})
	body := &Node{T: tARRAY, Kids: []*Node{d.Body}}
	for i := r.In(1, 4); i > 0; i-- {
		body.Kids = append(body.Kids, g.frozen())
	}
	d.Body = body
	b := d.bytes(r)
	c.Distinct(hashStr(string(b)))
	classes := map[string]bool{}
	hasCopy := false
	walk(d.Body, func(n *Node) {
		if n.T == tOBJF || n.T == tOBJVF {
			classes[classOf(n)] = true
		}
		if n.T == tCOPY && !n.IsStr {
			walk(n.Target, func(k *Node) {
				if k.T == tOBJF || k.T == tOBJVF {
					hasCopy = true
				}
			})
		}
	})
	for perl := 0; perl < 2; perl++ {
		dec := &sereal.Decoder{PerlCompat: perl == 1}
		reg := map[string]reflect.Type{}
		if perl == 0 {
			for _, cl := range sortedKeys(classes) {
				if r.Bool() {
					t := pick(r, reflect.TypeOf(FzStruct{}), reflect.TypeOf(FzStr("")), reflect.TypeOf(FzSlice{}), reflect.TypeOf(FzMap{}))
					reg[cl] = t
					dec.RegisterName(cl, reflect.New(t).Interface())
				}
			}
		}
		fzReset()
		x, err := decodeAny(dec, b)
		if err != nil {
			c.Fail("perl %d: %v\n%x", perl, err, clip(b))
			return
		}
		var want []string
		for _, s := range frozenIn(d.Body) {
			i := bytes.IndexByte([]byte(s), '|')
			if t := reg[s[:i]]; t != nil {
				want = append(want, "main."+t.Name()+s[i:])
			}
		}
		// class names may have a | in them
		bar := false
		for cl := range classes {
			bar = bar || bytes.IndexByte([]byte(cl), '|') >= 0
		}
		if !hasCopy && !bar {
			if df := diffLog("UnmarshalBinary", want, fzLog.in); df != "" {
				c.Fail("%s\n%x", df, clip(b))
				return
			}
		}
		c.Count("thawed", int64(len(fzLog.in)))
		// compare the whole, with thawed values as what they were made from
		wantV := evalDoc(d.Body, perl == 1)
		mapFreeze(wantV, reg)
		m := newMapper()
		m.freeze = true
		got := m.of(reflect.ValueOf(x))
		if df := diffV(wantV, got, eqOpt{CollapsePtr: true}); df != "" {
			c.Fail("perl %d registered %v: %s\nwant %s\ngot  %s\n%x", perl, reg, df, dumpV(wantV), dumpV(got), clip(b))
			return
		}
	}
}

// mapFreeze renames the classes of frozen values to those of their registered types.
func mapFreeze(v *V, reg map[string]reflect.Type) {
	seen := map[*V]bool{}
	var rec func(v *V)
	rec = func(v *V) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if v.K == KFreeze && reg[v.S] != nil {
			v.S = "main." + reg[v.S].Name()
		}
		for _, x := range v.A {
			rec(x)
		}
		for _, x := range v.M {
			rec(x)
		}
	}
	rec(v)
}

// c13Errors: an error at any call of MarshalBinary or UnmarshalBinary comes out.
func c13Errors(c *Ctx) {
	r := c.R
	cfg := randCfg(r)
	cfg.Perl = false
	x := fzRec(r, r.N(3))
	b, out := c13Encode(c, cfg, x)
	if c.Failed() || len(out) == 0 {
		return
	}
	c.Distinct(hashStr(string(b)))
	fzReset()
	fzLog.outErr = r.In(1, len(out))
	at := fzLog.outErr
	enc := cfg.enc()
	if _, err := enc.Marshal(x); !errors.Is(err, errFzOut) {
		c.Fail("%v: MarshalBinary fails at call %d of %d, Marshal returns %v", cfg, at, len(out), err)
		return
	}
	if len(fzLog.out) != at {
		c.Fail("%v: %d calls of MarshalBinary after an error at %d", cfg, len(fzLog.out), at)
	}
	if cfg.Version > 1 {
		fzReset()
		fzLog.outErr = r.In(1, len(out))
		if _, err := enc.MarshalWithHeader(x, 1); !errors.Is(err, errFzOut) {
			c.Fail("%v: MarshalBinary fails in the header, Marshal returns %v", cfg, err)
			return
		}
	}
	for i := 0; i < 3; i++ {
		fzReset()
		at := r.In(1, len(out))
		fzLog.inErr = at
		dec := &sereal.Decoder{}
		var err error
		if i == 0 {
			var y FzRec
			err = dec.Unmarshal(b, &y)
		} else {
			for _, t := range fzTypes {
				dec.RegisterName("main."+t.Name(), reflect.New(t).Interface())
			}
			var y any
			err = dec.Unmarshal(b, &y)
		}
		if !errors.Is(err, errFzIn) {
			c.Fail("%v: UnmarshalBinary fails at call %d of %d, Unmarshal (%d) returns %v\n%x", cfg, at, len(out), i, err, clip(b))
			return
		}
		if len(fzLog.in) != at {
			c.Fail("%v: %d calls of UnmarshalBinary after an error at %d", cfg, len(fzLog.in), at)
		}
		c.Count("errors", 1)
	}
	// into something that cannot take it
	b, err := cfg.enc().Marshal(FzStr("abc"))
	if err != nil {
		c.Fail("%v", err)
		return
	}
	for _, y := range []any{new(int), new(string), new([]int), new(SInner), new(map[string]int), new(float64), new(bool)} {
		fzReset()
		if err := sereal.Unmarshal(b, y); err == nil || len(fzLog.in) > 0 {
			c.Fail("a frozen object was decoded into %T without an error", y)
		}
	}
}

type knownRec struct {
	T  time.Time
	P  *time.Time
	A  []netip.Addr
	M  map[string]time.Time `sereal:"m"`
	I  any
	AP netip.AddrPort
}

// c13Known: types of the standard library.
func c13Known(c *Ctx) {
	r := c.R
	tm := func() time.Time {
		t := time.Unix(int64(r.U64()>>30)-1<<33, int64(r.N(1e9)))
		if r.Bool() {
			return t.In(time.FixedZone("X", r.In(0, 12*60)*60*pick(r, 1, -2)))
		}
		return t.UTC()
	}
	ad := func() netip.Addr {
		if r.Bool() {
			return netip.AddrFrom4([4]byte(r.Bytes(4)))
		}
		return netip.AddrFrom16([16]byte(r.Bytes(16)))
	}
	p := tm()
	x := knownRec{T: tm(), P: &p, A: []netip.Addr{ad(), ad(), {}}, M: map[string]time.Time{"a": tm(), "time.Time": tm()}, I: tm(), AP: netip.AddrPortFrom(ad(), uint16(r.U64()))}
	cfg := randCfg(r)
	cfg.Perl = false
	b, err := cfg.enc().Marshal(x)
	if err != nil {
		c.Fail("%v: %v", cfg, err)
		return
	}
	c.Distinct(hashStr(string(b)))
	dec := &sereal.Decoder{}
	dec.RegisterName("time.Time", &time.Time{})
	var y knownRec
	if err := dec.Unmarshal(b, &y); err != nil {
		c.Fail("%v: %v\n%x", cfg, err, clip(b))
		return
	}
	eq := func(a, b time.Time) bool {
		_, o1 := a.Zone()
		_, o2 := b.Zone()
		return a.Equal(b) && o1 == o2
	}
	ok := eq(x.T, y.T) && y.P != nil && eq(p, *y.P) && len(y.A) == 3 && y.A[0] == x.A[0] && y.A[1] == x.A[1] && y.A[2] == x.A[2] && len(y.M) == 2 && eq(x.M["a"], y.M["a"]) && eq(x.M["time.Time"], y.M["time.Time"]) && x.AP == y.AP
	if i, k := y.I.(*time.Time); !k || !eq(x.I.(time.Time), *i) {
		ok = false
	}
	if !ok {
		c.Fail("%v: %+v decoded as %+v\n%x", cfg, x, y, clip(b))
	}
}
