package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"
)

func init() {
	register(&Check{
		ID:     "C03",
		Rule:   "A case is a random Go type (built with reflect.StructOf and from named types: all scalar kinds, slices, arrays, maps, structs with tags, hidden, embedded and left-out fields, pointers to structs and maps, interfaces) and a random value of it, encoded with a random configuration and decoded into a fresh variable of the same type; the two are compared deeply; distinct by type and document; non-trivial: the type is not a scalar.",
		Assume: []string{"nil and empty slices and maps are interchangeable", "pointers to other things than structs and maps are not generated: the decoder does not support them as targets", "interfaces hold values of the types that the decoder produces"},
		Phases: []Phase{
			{Name: "types", Quick: 150000, Thor: 3000000, Run: c03Case},
			{Name: "types-checkptr", Flavor: "checkptr", Quick: 20000, Thor: 300000, Run: c03Case},
		},
	})
}

// typeGen makes random types.
type typeGen struct {
	r       *Rng
	n       int
	noPtr   bool
	noIface bool
}

var scalarTypes = []reflect.Type{
	reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(false), reflect.TypeOf(""), reflect.TypeOf(""), tBytes,
	reflect.TypeOf(NInt(0)), reflect.TypeOf(NInt8(0)), reflect.TypeOf(NInt16(0)), reflect.TypeOf(NInt32(0)), reflect.TypeOf(NInt64(0)),
	reflect.TypeOf(NUint(0)), reflect.TypeOf(NUint8(0)), reflect.TypeOf(NUint16(0)), reflect.TypeOf(NUint32(0)), reflect.TypeOf(NUint64(0)),
	reflect.TypeOf(NF32(0)), reflect.TypeOf(NF64(0)), reflect.TypeOf(NBool(false)), reflect.TypeOf(NStr("")), reflect.TypeOf(NBytes(nil)),
}

var fixedTypes = []reflect.Type{
	reflect.TypeOf(SInner{}), reflect.TypeOf(SOuter{}), reflect.TypeOf(SEmpty{}), reflect.TypeOf(SHidden{}), reflect.TypeOf(TInner{}), reflect.TypeOf(TRec{}),
	reflect.TypeOf(NInts{}), reflect.TypeOf(NAny{}), reflect.TypeOf(NMap{}), reflect.TypeOf(NStrMap{}), reflect.TypeOf(TList{}), reflect.TypeOf(TMap{}), reflect.TypeOf(EMore{}), reflect.TypeOf(EPtr{}),
}

// what is embedded in structs; no methods, since reflect.StructOf cannot promote them
type EBase struct {
	ID   int
	Name string `sereal:"name"`
}
type EMore struct {
	EBase
	*EPtr
	Tags []string
}
type EPtr struct {
	X    float64
	Next *EBase
}

var embedded = []reflect.Type{reflect.TypeOf(EBase{}), reflect.TypeOf(EMore{}), reflect.TypeOf(EPtr{}), reflect.TypeOf(&EBase{}), reflect.TypeOf(&EPtr{})}

func (g *typeGen) scalar() reflect.Type { return scalarTypes[g.r.N(len(scalarTypes))] }

func (g *typeGen) typ(depth int) reflect.Type {
	r := g.r
	g.n++
	if depth > 4 || g.n > 30 || r.P(4) {
		if !g.noIface && r.P(5) {
			return tIface
		}
		return g.scalar()
	}
	switch r.N(12) {
	case 0, 1:
		return reflect.SliceOf(g.typ(depth + 1))
	case 2:
		return reflect.ArrayOf(pick(r, 0, 1, 2, 3, 17), g.typ(depth+1))
	case 3, 4:
		return reflect.MapOf(pick(r, reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf(NStr("")), reflect.TypeOf(TKey(""))), g.typ(depth+1))
	case 5, 6, 7:
		return g.structType(depth)
	case 8:
		if g.noPtr {
			return g.structType(depth)
		}
		t := g.structType(depth)
		if r.P(3) {
			t = fixedTypes[r.N(6)]
		}
		t = reflect.PointerTo(t)
		if r.P(5) {
			t = reflect.PointerTo(t)
		}
		return t
	case 9:
		if g.noPtr {
			return g.scalar()
		}
		return reflect.PointerTo(reflect.MapOf(reflect.TypeOf(""), g.typ(depth+1)))
	case 10:
		if g.noIface || g.noPtr {
			return g.scalar()
		}
		return fixedTypes[r.N(len(fixedTypes))]
	}
	return g.scalar()
}

func (g *typeGen) structType(depth int) reflect.Type {
	r := g.r
	n := r.Len(12)
	if r.P(30) {
		n = r.In(15, 140)
	}
	var fs []reflect.StructField
	names := map[string]bool{}
	for i := 0; i < n; i++ {
		t := g.scalar()
		if n < 20 {
			t = g.typ(depth + 1)
		}
		f := reflect.StructField{Name: pick(r, "A", "B", "Foo", "Name", "Id", "Value", "Key", "X", "Überschrift"), Type: t}
		if r.P(2) || names[f.Name] {
			f.Name = fmt.Sprintf("F%d", i)
		}
		key := f.Name
		how := r.N(7)
		if how == 6 {
			// an embedded struct is a field with the name of its type
			f.Type = embedded[r.N(len(embedded))]
			if f.Type.Kind() == reflect.Pointer && g.noPtr {
				f.Type = f.Type.Elem()
			}
			et := f.Type
			if et.Kind() == reflect.Pointer {
				et = et.Elem()
			}
			if names[et.Name()] {
				continue
			}
			f.Anonymous, f.Name = true, et.Name()
			key = f.Name
			if r.P(4) {
				how = 0
			}
		}
		switch how {
		case 0, 1:
			key = pick(r, "a", "b", "foo", "name", "id", "value", "key", "A", "Foo", "with space", "x-y", "ü", strings.Repeat("long_", 8), "name_", "NAME", "f1")
			if names["\x00"+key] || names[key] {
				key = fmt.Sprintf("t%d", i)
			}
			f.Tag = reflect.StructTag(fmt.Sprintf(`json:"other" sereal:"%s"`, key))
		case 2:
			if r.P(2) {
				f.Tag = `sereal:"-"`
				key = f.Name + "\x00"
			} else {
				f.Name, f.PkgPath = fmt.Sprintf("hidden%d", i), "main"
				key = f.Name + "\x00"
			}
		}
		if names["\x00"+key] {
			continue // two fields with the same key
		}
		names[f.Name], names["\x00"+key] = true, true
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

// fill sets v to a random value.
func fillValue(g *valGen, v reflect.Value, depth int) {
	r := g.r
	g.budget--
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		i := r.Int64()
		if v.OverflowInt(i) {
			i = i << (64 - v.Type().Bits()) >> (64 - v.Type().Bits())
		}
		v.SetInt(i)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		u := r.Uint64()
		if v.OverflowUint(u) {
			u = u << (64 - v.Type().Bits()) >> (64 - v.Type().Bits())
		}
		v.SetUint(u)
	case reflect.Float32:
		v.SetFloat(float64(g.f32()))
	case reflect.Float64:
		v.SetFloat(g.f64())
	case reflect.String:
		v.SetString(g.str())
	case reflect.Slice:
		if r.P(8) {
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			s := g.str()
			v.Set(reflect.MakeSlice(v.Type(), len(s), len(s)))
			for i := 0; i < len(s); i++ {
				v.Index(i).SetUint(uint64(s[i]))
			}
			return
		}
		n := g.count()
		if depth > 12 || g.budget < 0 {
			n = 0
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n+r.N(2)))
		for i := 0; i < n; i++ {
			fillValue(g, v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillValue(g, v.Index(i), depth+1)
		}
	case reflect.Map:
		if r.P(8) {
			return
		}
		n := g.count()
		if depth > 12 || g.budget < 0 {
			n = 0
		}
		v.Set(reflect.MakeMap(v.Type()))
		for i := 0; i < n; i++ {
			k := reflect.ValueOf(g.key()).Convert(v.Type().Key())
			e := reflect.New(v.Type().Elem()).Elem()
			fillValue(g, e, depth+1)
			v.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanSet() && f.Kind() != reflect.Chan && f.Kind() != reflect.Func {
				fillValue(g, f, depth+1)
			}
		}
	case reflect.Ptr:
		if r.P(4) || depth > 12 || g.budget < 0 {
			return
		}
		p := reflect.New(v.Type().Elem())
		fillValue(g, p.Elem(), depth+1)
		v.Set(p)
	case reflect.Interface:
		if depth > 12 {
			return
		}
		if x := g.val(depth + 1); x != nil {
			v.Set(reflect.ValueOf(x))
		}
	}
}

// deepDiff compares a value with what came back.
func deepDiff(a, b reflect.Value, path string) string {
	if len(path) > 300 {
		path = "..." + path[len(path)-200:]
	}
	if a.IsValid() != b.IsValid() {
		return fmt.Sprintf("%s: %v vs %v", path, a, b)
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: %v vs %v", path, a.Type(), b.Type())
	}
	ne := func() string { return fmt.Sprintf("%s: %.100s vs %.100s", path, fmt.Sprint(a), fmt.Sprint(b)) }
	switch a.Kind() {
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return ne()
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return ne()
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if a.Uint() != b.Uint() {
			return ne()
		}
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		if math.Float64bits(x) != math.Float64bits(y) && !(x != x && y != y) {
			return ne()
		}
	case reflect.String:
		if a.String() != b.String() {
			return ne()
		}
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d vs %d elements", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := deepDiff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d vs %d keys", path, a.Len(), b.Len())
		}
		it := a.MapRange()
		for it.Next() {
			y := b.MapIndex(it.Key())
			if !y.IsValid() {
				return fmt.Sprintf("%s: no key %q", path, it.Key())
			}
			if d := deepDiff(it.Value(), y, fmt.Sprintf("%s{%.30q}", path, it.Key())); d != "" {
				return d
			}
		}
	case reflect.Struct:
		t := a.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			p := path + "." + f.Name
			if f.PkgPath != "" || f.Tag.Get("sereal") == "-" {
				if !b.Field(i).IsZero() {
					return p + ": a field that is left out was set"
				}
				continue
			}
			if d := deepDiff(a.Field(i), b.Field(i), p); d != "" {
				return d
			}
		}
	case reflect.Ptr, reflect.Interface:
		if nilPtr(a) != nilPtr(b) {
			return fmt.Sprintf("%s: nil: %v vs %v", path, a.IsNil(), b.IsNil())
		}
		if !nilPtr(a) {
			return deepDiff(a.Elem(), b.Elem(), path+".*")
		}
	}
	return ""
}

// nilPtr: a pointer to a nil pointer is as good as a nil pointer.
func nilPtr(v reflect.Value) bool {
	for v.Kind() == reflect.Ptr && !v.IsNil() {
		v = v.Elem()
	}
	return (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && v.IsNil()
}

func c03Case(c *Ctx) {
	r := c.R
	// the number of types is limited, because they live as long as the process
	tg := &typeGen{r: newRng(c.Seed, hashStr("types"), uint64(c.Idx%6000))}
	t := tg.typ(0)
	if t.Kind() == reflect.Interface {
		t = tg.structType(0)
	}
	g := newValGen(r)
	g.simple = true
	src := reflect.New(t).Elem()
	fillValue(g, src, 0)
	cfg := randCfg(r)
	cfg.Perl = false
	x := src.Interface()
	if r.P(4) {
		x = src.Addr().Interface()
		if k := t.Kind(); k != reflect.Struct && k != reflect.Map {
			x = src.Interface()
		}
	}
	b, err := cfg.enc().Marshal(x)
	if err != nil {
		c.Fail("%v: Marshal of %v: %v", cfg, t, err)
		return
	}
	c.Count("types_"+t.Kind().String(), 1)
	dst := reflect.New(t)
	if err := (&sereal.Decoder{}).Unmarshal(b, dst.Interface()); err != nil {
		c.Fail("%v: Unmarshal into %v: %v\n%.400s\n%x", cfg, t, err, fmt.Sprintf("%+v", x), clip(b))
		return
	}
	if t.Kind() != reflect.Struct || t.NumField() > 0 {
		if k := t.Kind(); k == reflect.Struct || k == reflect.Slice || k == reflect.Map || k == reflect.Ptr || k == reflect.Array {
			c.Distinct(hashStr(string(b)) ^ hashStr(t.String()))
		}
	}
	if c.Idx%6000 == 7 {
		c.Sample("%v %v: %x", cfg, t, clip(b))
	}
	if d := deepDiff(src, dst.Elem(), "$"); d != "" {
		c.Fail("%v: %v: %s\n%.600s\n%x", cfg, t, d, fmt.Sprintf("%+v", x), clip(b))
	}
}
