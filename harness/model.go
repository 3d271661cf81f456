package main

import (
	"encoding"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"
)

// Kind is the kind of a model value.
type Kind uint8

const (
	KNil Kind = iota
	KBool
	KInt
	KUint // above the int64 range
	KF32
	KF64
	KBytes
	KStr
	KArr
	KMap
	KPtr    // A[0]
	KObj    // S class, A[0]
	KRegexp // S pattern, S2 modifiers
	KWeak   // A[0]
	KUndef
	KCUndef
	KFreeze  // S class, S2 data
	KUnknown // S type: what no document can hold
)

var kindNames = [...]string{"nil", "bool", "int", "uint", "f32", "f64", "bytes", "str", "arr", "map", "ptr", "obj", "regexp", "weak", "undef", "cundef", "freeze", "unknown"}

// V is a value of the model: a graph, in which arrays and hashes have an identity.
type V struct {
	K    Kind
	I    int64  // int, bool
	U    uint64 // uint, float bits
	S    string
	S2   string
	A    []*V
	M    map[string]*V
	C    string // the class of a referent, where classes belong to referents (C18)
	RO   int8   // read-only, 2: or not (C25)
	From *V     // what it was copied from
}

func vInt(i int64) *V { return &V{K: KInt, I: i} }
func vUint(u uint64) *V {
	if u <= math.MaxInt64 {
		return vInt(int64(u))
	}
	return &V{K: KUint, U: u}
}
func vStr(s string) *V   { return &V{K: KStr, S: s} }
func vBytes(s string) *V { return &V{K: KBytes, S: s} }
func vBool(b bool) *V {
	v := &V{K: KBool}
	if b {
		v.I = 1
	}
	return v
}
func vF32(f float32) *V { return &V{K: KF32, U: uint64(math.Float32bits(f))} }
func vF64(f float64) *V { return &V{K: KF64, U: math.Float64bits(f)} }

// eqOpt says how two model values are compared.
type eqOpt struct {
	CollapsePtr bool // pointers are transparent
	Share       bool // arrays and hashes that are shared in one are shared in the other
	PtrShare    bool // what pointers point to has an identity, too
	NoWrap      bool // OBJECT and WEAKEN wrappers are transparent
	UndefNil    bool // undef, canonical undef and nil are the same
	StrBytes    bool // strings and bytes with the same content are the same
	NumLoose    bool // numbers are compared by numeric value
	ASCIIBytes  bool // strings and bytes with the same ASCII content are the same
}

type eqState struct {
	o      eqOpt
	seen   map[[2]*V]bool
	ab, ba map[*V]*V
	diff   string
	n      int
}

// strip follows transparent nodes.
func (o *eqOpt) strip(v *V) *V {
	for i := 0; i < 1000; i++ {
		if v == nil {
			return v
		}
		if (v.K == KPtr && o.CollapsePtr) || ((v.K == KObj || v.K == KWeak) && o.NoWrap) {
			v = v.A[0]
			continue
		}
		return v
	}
	return v
}

// diffV returns "" if a and b are equal, and where they differ otherwise.
func diffV(a, b *V, o eqOpt) string {
	s := &eqState{o: o, seen: map[[2]*V]bool{}, ab: map[*V]*V{}, ba: map[*V]*V{}}
	s.eq(a, b, "$")
	return s.diff
}

func (s *eqState) fail(path, f string, a ...any) bool {
	if s.diff == "" {
		s.diff = path + ": " + fmt.Sprintf(f, a...)
	}
	return false
}

func (s *eqState) bij(a, b *V, path string) bool {
	x, ok := s.ab[a]
	y, ok2 := s.ba[b]
	if ok && x != b {
		return s.fail(path, "shared with an earlier %s on the left only", kindNames[a.K])
	}
	if ok2 && y != a {
		return s.fail(path, "shared with an earlier %s on the right only", kindNames[b.K])
	}
	s.ab[a], s.ba[b] = b, a
	return true
}

func (s *eqState) eq(a, b *V, path string) bool {
	a, b = s.o.strip(a), s.o.strip(b)
	if a == nil || b == nil {
		if a == b {
			return true
		}
		return s.fail(path, "missing value: %v vs %v", a, b)
	}
	s.n++
	if len(path) > 400 {
		path = "..." + path[len(path)-300:]
	}
	if a.C != b.C {
		return s.fail(path, "class %q vs %q", a.C, b.C)
	}
	ka, kb := a.K, b.K
	if s.o.UndefNil {
		if ka == KUndef || ka == KCUndef {
			ka = KNil
		}
		if kb == KUndef || kb == KCUndef {
			kb = KNil
		}
	}
	if s.o.StrBytes {
		if ka == KStr {
			ka = KBytes
		}
		if kb == KStr {
			kb = KBytes
		}
	}
	if s.o.ASCIIBytes && (ka == KStr || ka == KBytes) && (kb == KStr || kb == KBytes) && isASCII(a.S) {
		ka, kb = KStr, KStr
	}
	if ka != kb {
		if s.o.NumLoose && isNum(ka) && isNum(kb) && numStr(a) == numStr(b) {
			return true
		}
		return s.fail(path, "%s vs %s", short(a), short(b))
	}
	switch ka {
	case KNil, KUndef, KCUndef:
		return true
	case KBool, KInt:
		if a.I != b.I {
			return s.fail(path, "%s vs %s", short(a), short(b))
		}
		return true
	case KUint, KF32, KF64:
		if a.U != b.U {
			if a.K == KF64 && b.K == KF64 && math.IsNaN(math.Float64frombits(a.U)) && math.IsNaN(math.Float64frombits(b.U)) {
				return true
			}
			if a.K == KF32 && b.K == KF32 && isNaN32(a.U) && isNaN32(b.U) {
				return true
			}
			return s.fail(path, "%s vs %s", short(a), short(b))
		}
		return true
	case KBytes, KStr:
		if a.S != b.S {
			return s.fail(path, "%s vs %s", short(a), short(b))
		}
		return true
	case KRegexp, KFreeze:
		if a.S != b.S || a.S2 != b.S2 {
			return s.fail(path, "%s vs %s", short(a), short(b))
		}
		return true
	case KObj:
		if a.S != b.S {
			return s.fail(path, "class %q vs %q", a.S, b.S)
		}
	}
	k := [2]*V{a, b}
	if s.seen[k] {
		return true
	}
	s.seen[k] = true
	switch ka {
	case KPtr:
		if x := a.A[0]; s.o.PtrShare && x.K != KCUndef && !(x.K == KUndef && x.S != "") { // the canonical undef is one value, shared or not
			if !s.bij(a.A[0], b.A[0], path+".*") {
				return false
			}
		}
		return s.eq(a.A[0], b.A[0], path+".*")
	case KObj, KWeak:
		return s.eq(a.A[0], b.A[0], path+"."+kindNames[ka])
	case KArr:
		if s.o.Share && !s.bij(a, b, path) {
			return false
		}
		if len(a.A) != len(b.A) {
			return s.fail(path, "%d vs %d elements", len(a.A), len(b.A))
		}
		for i := range a.A {
			if !s.eq(a.A[i], b.A[i], path+"["+strconv.Itoa(i)+"]") {
				return false
			}
		}
		return true
	case KMap:
		if s.o.Share && !s.bij(a, b, path) {
			return false
		}
		if len(a.M) != len(b.M) {
			return s.fail(path, "%d vs %d keys: %s vs %s", len(a.M), len(b.M), short(a), short(b))
		}
		ks := sortedKeys(a.M)
		for _, k := range ks {
			y, ok := b.M[k]
			if !ok {
				return s.fail(path, "key %.80q is missing on the right", k)
			}
			if !s.eq(a.M[k], y, path+"{"+fmt.Sprintf("%.20q", k)+"}") {
				return false
			}
		}
		return true
	}
	return true
}

func isNum(k Kind) bool { return k == KInt || k == KUint || k == KF32 || k == KF64 }

func numStr(v *V) string {
	switch v.K {
	case KInt:
		return strconv.FormatInt(v.I, 10)
	case KUint:
		return strconv.FormatUint(v.U, 10)
	case KF32:
		return strconv.FormatFloat(float64(math.Float32frombits(uint32(v.U))), 'f', -1, 64)
	case KF64:
		return strconv.FormatFloat(math.Float64frombits(v.U), 'f', -1, 64)
	}
	return ""
}

func isNaN32(u uint64) bool { f := math.Float32frombits(uint32(u)); return f != f }

func sortedKeys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func short(v *V) string {
	s := dumpV(v)
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

// dumpV is a readable form of v, with the sharing of arrays and hashes.
func dumpV(v *V) string {
	var sb strings.Builder
	ids := map[*V]int{}
	var rec func(v *V, depth int)
	rec = func(v *V, depth int) {
		if sb.Len() > 3000 || depth > 60 {
			sb.WriteString("~")
			return
		}
		if v == nil {
			sb.WriteString("<none>")
			return
		}
		switch v.K {
		case KArr, KMap, KPtr:
			if id, ok := ids[v]; ok {
				fmt.Fprintf(&sb, "#%d", id)
				return
			}
			ids[v] = len(ids)
		}
		if v.C != "" {
			fmt.Fprintf(&sb, "<%.40q>", v.C)
		}
		switch v.K {
		case KNil, KUndef, KCUndef:
			sb.WriteString(kindNames[v.K])
		case KBool:
			fmt.Fprintf(&sb, "%v", v.I == 1)
		case KInt:
			fmt.Fprintf(&sb, "%d", v.I)
		case KUint:
			fmt.Fprintf(&sb, "%du", v.U)
		case KF32:
			fmt.Fprintf(&sb, "f32(%v)", math.Float32frombits(uint32(v.U)))
		case KF64:
			fmt.Fprintf(&sb, "f64(%v)", math.Float64frombits(v.U))
		case KBytes:
			fmt.Fprintf(&sb, "b(%d)%.40q", len(v.S), v.S)
		case KStr:
			fmt.Fprintf(&sb, "(%d)%.40q", len(v.S), v.S)
		case KRegexp:
			fmt.Fprintf(&sb, "qr/%.40q/%q", v.S, v.S2)
		case KFreeze:
			fmt.Fprintf(&sb, "freeze(%q,(%d)%.40q)", v.S, len(v.S2), v.S2)
		case KPtr:
			sb.WriteString("&")
			rec(v.A[0], depth+1)
		case KObj:
			fmt.Fprintf(&sb, "bless(%.40q,", v.S)
			rec(v.A[0], depth+1)
			sb.WriteString(")")
		case KWeak:
			sb.WriteString("weak(")
			rec(v.A[0], depth+1)
			sb.WriteString(")")
		case KArr:
			fmt.Fprintf(&sb, "@%d[", ids[v])
			for i, x := range v.A {
				if i > 0 {
					sb.WriteString(", ")
				}
				rec(x, depth+1)
			}
			sb.WriteString("]")
		case KMap:
			fmt.Fprintf(&sb, "%%%d{", ids[v])
			for i, k := range sortedKeys(v.M) {
				if i > 0 {
					sb.WriteString(", ")
				}
				fmt.Fprintf(&sb, "%.30q: ", k)
				rec(v.M[k], depth+1)
			}
			sb.WriteString("}")
		}
	}
	rec(v, 0)
	return sb.String()
}

// hashV is a structural hash of v (sharing counts through the dump ids).
func hashV(v *V) uint64 {
	h := uint64(1469598103934665603)
	add := func(x uint64) { h = mix(h ^ x) }
	ids := map[*V]int{}
	n := 0
	var rec func(v *V)
	rec = func(v *V) {
		if v == nil || n > 100000 {
			return
		}
		n++
		add(uint64(v.K))
		switch v.K {
		case KArr, KMap, KPtr:
			if id, ok := ids[v]; ok {
				add(uint64(id) + 77)
				return
			}
			ids[v] = len(ids)
		}
		add(uint64(v.I))
		add(v.U)
		if v.S != "" {
			add(hashStr(v.S))
		}
		if v.S2 != "" {
			add(hashStr(v.S2))
		}
		for _, x := range v.A {
			rec(x)
		}
		for _, k := range sortedKeys(v.M) {
			add(hashStr(k))
			rec(v.M[k])
		}
	}
	rec(v)
	return h
}

// sizeV counts the nodes of v.
func sizeV(v *V) int {
	seen := map[*V]bool{}
	n := 0
	var rec func(v *V)
	rec = func(v *V) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		n++
		for _, x := range v.A {
			rec(x)
		}
		for _, x := range v.M {
			rec(x)
		}
	}
	rec(v)
	return n
}

// goMapper turns Go values into model values. Slices and maps keep their identity.
type goMapper struct {
	memo map[memoKey]*V
	// structKeys: structs become hashes of their encoded fields
	ptrMemo  map[memoKey]*V
	typed    bool // encoder-side value: arrays of bytes etc. as the encoder writes them
	jsonNum  bool
	noShare  bool // slices and maps lose their identity (the encoder only keeps that of pointers)
	objects  bool // structs become OBJECTs (otherwise plain hashes)
	perlRefs bool // arrays and hashes stand behind references
	freeze   bool // BinaryMarshalers are frozen
	err      string
	depth    int
}

type memoKey struct {
	t   reflect.Type
	p   uintptr
	len int
}

func fromGo(x any) *V { return newMapper().of(reflect.ValueOf(x)) }

func newMapper() *goMapper {
	return &goMapper{memo: map[memoKey]*V{}, ptrMemo: map[memoKey]*V{}}
}

var (
	tPerlObject = reflect.TypeOf(sereal.PerlObject{})
	tPerlRegexp = reflect.TypeOf(sereal.PerlRegexp{})
	tPerlWeak   = reflect.TypeOf(sereal.PerlWeakRef{})
	tPerlUndef  = reflect.TypeOf(sereal.PerlUndef{})
	tPerlFreeze = reflect.TypeOf(sereal.PerlFreeze{})
	tPerlAlias  = reflect.TypeOf(sereal.PerlAlias{})
	tBytes      = reflect.TypeOf([]byte(nil))
	tIface      = reflect.TypeOf((*any)(nil)).Elem()
	tJSONNum    = reflect.TypeOf(json.Number(""))
)

func (m *goMapper) of(rv reflect.Value) *V { return m.ofr(rv, false) }

// wrap puts arrays and hashes behind a reference, as the encoder does for Perl.
func (m *goMapper) wrap(v *V, refNext bool) *V {
	if m.perlRefs && !refNext {
		return &V{K: KPtr, A: []*V{v}}
	}
	return v
}

// ofr maps rv; refNext says that a reference is just before it.
func (m *goMapper) ofr(rv reflect.Value, refNext bool) *V {
	if !rv.IsValid() {
		return &V{K: KNil}
	}
	switch rv.Kind() {
	case reflect.Interface:
		if rv.IsNil() {
			return &V{K: KNil}
		}
		return m.ofr(rv.Elem(), refNext)
	}
	if m.freeze && rv.Kind() != reflect.Ptr {
		if bm, ok := rv.Interface().(encoding.BinaryMarshaler); ok {
			b, err := bm.MarshalBinary()
			if err != nil {
				m.err = err.Error()
			}
			return &V{K: KFreeze, S: rv.Type().PkgPath() + "." + rv.Type().Name(), S2: string(b)}
		}
	}
	switch rv.Kind() {
	case reflect.Bool:
		return vBool(rv.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return vInt(rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return vUint(rv.Uint())
	case reflect.Float32:
		return &V{K: KF32, U: uint64(math.Float32bits(float32(rv.Float())))}
	case reflect.Float64:
		return vF64(rv.Float())
	case reflect.String:
		return vStr(rv.String())
	case reflect.Slice:
		if rv.Type() == tBytes {
			return vBytes(string(rv.Bytes()))
		}
		k := memoKey{rv.Type(), rv.Pointer(), rv.Len()}
		share := rv.Cap() > 0 && !m.noShare && rv.Type().Elem().Size() > 0
		if share {
			if v, ok := m.memo[k]; ok {
				return v
			}
		}
		v := &V{K: KArr}
		if share {
			m.memo[k] = v
		}
		m.elems(v, rv)
		return m.wrap(v, refNext)
	case reflect.Array:
		v := &V{K: KArr}
		m.elems(v, rv)
		return m.wrap(v, refNext)
	case reflect.Map:
		k := memoKey{rv.Type(), rv.Pointer(), 0}
		if !rv.IsNil() && !m.noShare {
			if v, ok := m.memo[k]; ok {
				return v
			}
		}
		v := &V{K: KMap, M: make(map[string]*V, rv.Len())}
		if !rv.IsNil() && !m.noShare {
			m.memo[k] = v
		}
		it := rv.MapRange()
		for it.Next() {
			kk := it.Key()
			for kk.Kind() == reflect.Interface {
				kk = kk.Elem()
			}
			v.M[kk.String()] = m.of(it.Value())
		}
		return m.wrap(v, refNext)
	case reflect.Ptr:
		if rv.IsNil() {
			if m.typed {
				return &V{K: KPtr, A: []*V{{K: KNil}}}
			}
			return &V{K: KNil}
		}
		switch rv.Type().Elem() {
		case tPerlObject, tPerlWeak:
			k := memoKey{rv.Type(), rv.Pointer(), 0}
			if v, ok := m.ptrMemo[k]; ok {
				return v
			}
			v := &V{}
			m.ptrMemo[k] = v
			m.perl(v, rv.Elem())
			return v
		case tPerlRegexp, tPerlUndef, tPerlFreeze:
			return m.of(rv.Elem())
		}
		k := memoKey{rv.Type(), rv.Pointer(), 0}
		if v, ok := m.ptrMemo[k]; ok && rv.Type().Elem().Size() > 0 {
			return v
		}
		v := &V{K: KPtr, A: []*V{nil}}
		m.ptrMemo[k] = v
		v.A[0] = m.ofr(rv.Elem(), true)
		return v
	case reflect.Struct:
		v := &V{}
		if m.perl(v, rv) {
			return v
		}
		v.K = KMap
		v.M = map[string]*V{}
		for i := 0; i < rv.NumField(); i++ {
			f := rv.Type().Field(i)
			name := f.Tag.Get("sereal")
			if name == "-" || (f.PkgPath != "") {
				continue
			}
			if name == "" {
				name = f.Name
			}
			v.M[name] = m.of(rv.Field(i))
		}
		if m.objects {
			return &V{K: KObj, S: rv.Type().Name(), A: []*V{m.wrap(v, false)}}
		}
		return v
	}
	m.err = "unexpected kind " + rv.Kind().String() + " " + rv.Type().String()
	return &V{K: KNil}
}

func (m *goMapper) elems(v *V, rv reflect.Value) {
	n := rv.Len()
	v.A = make([]*V, n)
	for i := 0; i < n; i++ {
		v.A[i] = m.of(rv.Index(i))
	}
}

// perl fills v from a Perl* value.
func (m *goMapper) perl(v *V, rv reflect.Value) bool {
	switch rv.Type() {
	case tPerlObject:
		v.K, v.S, v.A = KObj, rv.Field(0).String(), []*V{nil}
		v.A[0] = m.of(rv.Field(1))
	case tPerlWeak:
		v.K, v.A = KWeak, []*V{nil}
		v.A[0] = m.of(rv.Field(0))
	case tPerlRegexp:
		v.K, v.S, v.S2 = KRegexp, string(rv.Field(0).Bytes()), string(rv.Field(1).Bytes())
	case tPerlFreeze:
		v.K, v.S, v.S2 = KFreeze, rv.Field(0).String(), string(rv.Field(1).Bytes())
	case tPerlUndef:
		v.K = KUndef
		if rv.CanInterface() && rv.Interface() == any(*sereal.PerlCanonicalUndef()) {
			v.K = KCUndef
		}
	default:
		return false
	}
	return true
}
