package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/Sereal/Sereal/Go/sereal"
)

func init() {
	register(&Check{
		ID:     "C21",
		Rule:   "A case is a random Go type (structs built with reflect.StructOf with tags, left-out and unexported fields, named types, slices, fixed arrays, maps, pointers, interfaces) and a random document in which every item fits the type: keys by tag, by name and with a lower first letter, unknown keys (near misses of tags, names of left-out fields) with random content, missing keys, surplus array elements, all legal forms of numbers and strings, REFN, REFP, ALIAS, COPY, OBJECT, OBJECTV and WEAKEN around and between typed items. The variable is filled in part beforehand, and afterwards compared item by item with the tree of the document. In the phase mismatch one item has another kind than its place, in the phase cut the document is truncated. Distinct by type and bytes; non-trivial: at least 4 items.",
		Assume: []string{"integers fit the type of their place", "a reference from a typed place to an item decoded as interface{} and the other way round is not generated", "maps, slices and interfaces are empty before", "undef in the place of a number, string or struct may leave it as it was or clear it"},
		Phases: []Phase{
			{Name: "match", Quick: 100000, Thor: 2500000, Run: c21Match},
			{Name: "match-checkptr", Flavor: "checkptr", Quick: 10000, Thor: 200000, Run: c21Match},
			{Name: "mismatch", Quick: 60000, Thor: 1000000, Run: c21Mismatch},
			{Name: "cut", Quick: 40000, Thor: 600000, Run: c21Cut},
		},
	})
}

type TRx struct {
	R   *sereal.PerlRegexp `sereal:"r"`
	Id  NStr
	Sub []*TRx `sereal:"a"`
	An  map[TKey]any
	Arr [4]byte
	In  TInner `sereal:"key"`
	ID  []NUint8
}

var tRegexpPtr = reflect.TypeOf((*sereal.PerlRegexp)(nil))

// typedGen makes nodes that fit a type.
type typedGen struct {
	r       *Rng
	g       *docGen
	byType  map[reflect.Type][]*Node
	budget  int
	notPerl bool // holds items that cannot be decoded into typed places with PerlCompat
	refs    bool // holds references between typed items
	counts  map[string]int64

	wrongAt int // the typed item that gets another kind
	wrong   string
	n       int
}

// fieldKeys maps the keys of a struct to its fields.
func fieldKeys(t reflect.Type) map[string]int {
	m := map[string]int{}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := f.Tag.Get("sereal")
		if tag == "-" || f.PkgPath != "" {
			continue
		}
		if tag == "" {
			tag = f.Name
		}
		m[tag] = i
	}
	return m
}

// upperFirst and lowerFirst change the first letter.
func upperFirst(s string) string {
	c, n := utf8.DecodeRuneInString(s)
	if n == 0 || c == utf8.RuneError {
		return s
	}
	return string(unicode.ToTitle(c)) + s[n:]
}

func lowerFirst(s string) string {
	c, n := utf8.DecodeRuneInString(s)
	if n == 0 || c == utf8.RuneError {
		return s
	}
	return string(unicode.ToLower(c)) + s[n:]
}

// fieldOf says which field a key belongs to.
func fieldOf(keys map[string]int, k string) (int, bool) {
	if i, ok := keys[k]; ok {
		return i, true
	}
	i, ok := keys[upperFirst(k)]
	return i, ok
}

// plainKey: the decoder capitalises every word of a key, so keys of several words are used as they are only.
func plainKey(k string) bool {
	return strings.Title(k) == upperFirst(k)
}

func (t *typedGen) wrap(n *Node, container bool) *Node {
	r := t.r
	for i := 0; i < 2 && r.P(3); i++ {
		w := t.g.form(&Node{})
		switch r.N(6) {
		case 0, 1, 2:
			w.T = tREFN
			w.Kids = []*Node{n}
		case 3, 4:
			if !container || n.T == tREFP || n.T == tALIAS {
				return n
			}
			t.notPerl = true
			t.counts["typed_objects"]++
			// the class stands before the item, so only names that are ahead of both may be used
			w.T = tOBJECT
			w.Kids = []*Node{{T: tSHORT, S: pick(r, "Foo", "TInner", "X::Y"), IsStr: true}, n}
		case 5:
			if n.T != tREFN && n.T != tREFP {
				return n
			}
			t.notPerl = true
			t.counts["typed_weak"]++
			w.T = tWEAKEN
			w.Kids = []*Node{n}
		}
		n = w
	}
	return n
}

// item makes an item for a place of type ty.
func (t *typedGen) item(ty reflect.Type, depth int) *Node {
	r := t.r
	t.budget--
	if ty == tIface {
		t.g.budget = r.In(1, 8)
		return t.g.item()
	}
	t.n++
	if t.n == t.wrongAt {
		if n := t.wrongItem(ty); n != nil {
			return n
		}
	}
	container := ty.Kind() != reflect.String && ty.Kind() >= reflect.Array
	if l := t.byType[ty]; len(l) > 0 {
		switch r.N(9) {
		case 0:
			n := l[r.N(len(l))]
			if !t.g.copied[n] {
				n.Track = true
				t.refs = true
				t.counts["typed_refs"]++
				return t.wrap(t.g.form(&Node{T: pick(r, byte(tREFP), byte(tALIAS)), Target: n}), container)
			}
		case 1:
			n := l[r.N(len(l))]
			sz := 0
			if copyable(n, &sz) {
				t.g.markCopied(n)
				t.budget -= sz
				t.counts["typed_copies"]++
				return t.wrap(t.g.form(&Node{T: tCOPY, Target: n}), container)
			}
		}
	}
	n := t.g.form(t.base(ty, depth))
	if n.T != tUNDEF && n.T != tCUNDEF {
		t.byType[ty] = append(t.byType[ty], n)
	}
	return t.wrap(n, container)
}

func (t *typedGen) undef() *Node {
	t.notPerl = true
	t.counts["typed_undef"]++
	if t.g.version >= 3 && t.r.Bool() {
		return &Node{T: tCUNDEF}
	}
	return &Node{T: tUNDEF}
}

func (t *typedGen) base(ty reflect.Type, depth int) *Node {
	r := t.r
	if ty == tRegexpPtr {
		if r.P(5) {
			return t.undef()
		}
		n := t.g.regexp()
		n.Track = false
		return n
	}
	switch ty.Kind() {
	case reflect.Slice, reflect.Map, reflect.Ptr:
		if r.P(10) || depth > 14 {
			return t.undef()
		}
	default:
		if r.P(60) {
			return t.undef()
		}
	}
	switch ty.Kind() {
	case reflect.Bool:
		return &Node{T: pick(r, byte(tTRUE), byte(tFALSE))}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		i := r.Int64()
		s := 64 - ty.Bits()
		return t.g.intOf(i << s >> s)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		u := r.Uint64()
		s := 64 - ty.Bits()
		u = u << s >> s
		if u > math.MaxInt64 {
			return &Node{T: tVARINT, U: u}
		}
		return t.g.intOf(int64(u))
	case reflect.Float32:
		f := r.Float32()
		if r.Bool() {
			return &Node{T: tFLOAT, U: f32bits(f)}
		}
		return &Node{T: tDOUBLE, U: math.Float64bits(float64(f))}
	case reflect.Float64:
		if r.P(3) {
			return &Node{T: tFLOAT, U: f32bits(r.Float32())}
		}
		return &Node{T: tDOUBLE, U: math.Float64bits(r.Float64())}
	case reflect.String:
		n := t.g.strNode(t.g.randStr(t.g.maxStr))
		t.g.strs = append(t.g.strs, n)
		return n
	case reflect.Ptr:
		return t.base(ty.Elem(), depth)
	case reflect.Slice, reflect.Array:
		if ty.Elem() == reflect.TypeOf(byte(0)) && !r.P(8) {
			n := t.g.strNode(t.g.randStr(40))
			if n.T == tUTF8 {
				n.T = tBINARY
			}
			t.g.strs = append(t.g.strs, n)
			return n
		}
		cnt := r.Len(20)
		if ty.Kind() == reflect.Array && !r.P(3) {
			cnt = r.N(ty.Len() + 3)
		}
		if cnt > t.budget {
			cnt = r.N(2)
		}
		if depth > 10 {
			cnt = 0
		}
		n := &Node{T: tARRAY}
		if cnt < 16 && r.Bool() {
			n.T = tAREF
		}
		for i := 0; i < cnt; i++ {
			if ty.Kind() == reflect.Array && i >= ty.Len() {
				t.g.budget = r.In(1, 6)
				n.Kids = append(n.Kids, t.g.item())
				t.counts["surplus_elements"]++
				continue
			}
			n.Kids = append(n.Kids, t.item(ty.Elem(), depth+1))
		}
		return n
	case reflect.Map:
		cnt := r.Len(10)
		if cnt > t.budget {
			cnt = r.N(2)
		}
		if depth > 10 {
			cnt = 0
		}
		n := &Node{T: tHASH}
		if cnt < 16 && r.Bool() {
			n.T = tHREF
		}
		used := map[string]bool{}
		for i := 0; i < cnt; i++ {
			n.Kids = append(n.Kids, t.g.key(used), t.item(ty.Elem(), depth+1))
		}
		return n
	case reflect.Struct:
		return t.structNode(ty, depth)
	}
	panic("typedGen: " + ty.String())
}

func (t *typedGen) structNode(ty reflect.Type, depth int) *Node {
	r := t.r
	keys := fieldKeys(ty)
	n := &Node{}
	type entry struct {
		key   string
		field int
	}
	var es []entry
	used := map[string]bool{}
	for _, k := range sortedKeys(keys) {
		if r.P(4) || depth > 10 || (t.budget < 0 && !r.P(5)) {
			continue
		}
		key := k
		if l := lowerFirst(k); l != k && r.Bool() && plainKey(l) && upperFirst(l) == k {
			if _, ok := keys[l]; !ok {
				key = l
				t.counts["lower_keys"]++
			}
		}
		used[key] = true
		es = append(es, entry{key, keys[k]})
	}
	for i := r.N(4); i > 0; i-- {
		var k string
		switch r.N(6) {
		case 0, 1: // near misses
			ks := sortedKeys(keys)
			if len(ks) == 0 {
				continue
			}
			k = ks[r.N(len(ks))]
			switch r.N(6) {
			case 0:
				k = strings.ToUpper(k)
			case 1:
				k = k[:r.N(len(k)+1)]
			case 2:
				k += pick(r, "_", "x", " ", "\x00")
			case 3:
				k = upperFirst(k)
			case 4:
				k = strings.ToLower(k)
			case 5:
				k = " " + k
			}
		case 2: // names of fields that have another key or none
			if ty.NumField() == 0 {
				continue
			}
			f := ty.Field(r.N(ty.NumField()))
			k = f.Name
			if r.P(3) {
				k = lowerFirst(k)
			}
		case 3:
			k = "-"
		default:
			k = t.g.randStr(30)
		}
		_, known := fieldOf(keys, k)
		if _, ok := keys[strings.Title(k)]; known || ok || used[k] {
			continue
		}
		used[k] = true
		es = append(es, entry{k, -1})
		t.counts["unknown_keys"]++
	}
	for i := len(es) - 1; i > 0; i-- {
		j := r.N(i + 1)
		es[i], es[j] = es[j], es[i]
	}
	n.T = tHASH
	if len(es) < 16 && r.Bool() {
		n.T = tHREF
	}
	for _, e := range es {
		var kn *Node
		if r.P(3) {
			kn = t.g.copyStr(func(s string) bool { return s == e.key })
		}
		if kn == nil {
			kn = t.g.str(e.key)
		}
		n.Kids = append(n.Kids, kn)
		if e.field < 0 {
			t.g.budget = r.In(1, 10)
			n.Kids = append(n.Kids, t.g.item())
		} else {
			n.Kids = append(n.Kids, t.item(ty.Field(e.field).Type, depth+1))
		}
	}
	return n
}

// wrongItem makes an item that does not fit ty, or nil.
func (t *typedGen) wrongItem(ty reflect.Type) *Node {
	r := t.r
	if ty == tRegexpPtr {
		return nil
	}
	k := ty
	for k.Kind() == reflect.Ptr {
		k = k.Elem()
	}
	const (
		wInt = iota
		wFloat
		wBool
		wStr
		wArr
		wHash
		wFreeze
	)
	var ok []int
	switch k.Kind() {
	case reflect.Bool:
		ok = []int{wInt, wFloat, wStr, wArr, wHash, wFreeze}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		ok = []int{wFloat, wBool, wStr, wArr, wHash, wFreeze}
	case reflect.Float32, reflect.Float64:
		ok = []int{wBool, wStr, wArr, wHash, wFreeze}
	case reflect.String:
		ok = []int{wInt, wFloat, wBool, wArr, wHash, wFreeze}
	case reflect.Slice, reflect.Array:
		ok = []int{wInt, wFloat, wBool, wHash}
		if k.Elem().Kind() != reflect.Uint8 {
			ok = append(ok, wStr, wFreeze)
		}
	case reflect.Map, reflect.Struct:
		ok = []int{wInt, wFloat, wBool, wStr, wArr, wFreeze}
	default:
		return nil
	}
	var n *Node
	switch pick(r, ok...) {
	case wInt:
		n = t.g.intNode()
	case wFloat:
		n = pick(r, &Node{T: tFLOAT, U: 5}, &Node{T: tDOUBLE, U: math.Float64bits(r.Float64())})
	case wBool:
		n = &Node{T: pick(r, byte(tTRUE), byte(tFALSE))}
	case wStr:
		n = t.g.strNode(t.g.randStr(20))
	case wArr:
		n = &Node{T: pick(r, byte(tARRAY), byte(tAREF)), Kids: []*Node{t.g.intNode()}}
		if r.P(3) {
			n.Kids = nil
		}
	case wHash:
		n = &Node{T: pick(r, byte(tHASH), byte(tHREF)), Kids: []*Node{t.g.str("id"), t.g.intNode()}}
		if r.P(3) {
			n.Kids = nil
		}
	case wFreeze:
		n = &Node{T: tOBJF, Kids: []*Node{t.g.str("Foo"), {T: tREFN, Kids: []*Node{{T: tARRAY, Kids: []*Node{{T: tBINARY, S: "abc"}}}}}}}
	}
	t.wrong = fmt.Sprintf("%v <- %s", ty, tagName(n.T))
	if n.T == tOBJF {
		return n
	}
	return t.wrap(n, false)
}

// prefill sets some of what the document does not set, or sets anew.
func prefill(g *valGen, n *Node, v reflect.Value) {
	r := g.r
	for {
		switch n.T {
		case tREFN, tWEAKEN, tOBJV:
			n = n.Kids[0]
			continue
		case tOBJECT:
			n = n.Kids[1]
			continue
		case tREFP, tALIAS, tCOPY:
			return
		}
		break
	}
	undef := n.T == tUNDEF || n.T == tCUNDEF
	switch v.Kind() {
	case reflect.Bool, reflect.String, reflect.Float32, reflect.Float64, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if r.P(3) {
			fillValue(g, v, 8)
		}
	case reflect.Slice, reflect.Map:
		if undef && r.Bool() {
			fillValue(g, v, 8)
		}
	case reflect.Ptr:
		if v.Type() == tRegexpPtr {
			return
		}
		if r.Bool() && v.Type().Elem().Kind() != reflect.Map {
			p := reflect.New(v.Type().Elem())
			prefill(g, n, p.Elem())
			v.Set(p)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if n.T != tARRAY && n.T != tAREF || i >= len(n.Kids) {
				fillValue(g, v.Index(i), 8)
			} else {
				prefill(g, n.Kids[i], v.Index(i))
			}
		}
	case reflect.Struct:
		keys := fieldKeys(v.Type())
		set := map[int]bool{}
		if n.T == tHASH || n.T == tHREF {
			for i := 0; i+1 < len(n.Kids); i += 2 {
				if f, ok := fieldOf(keys, strOf(n.Kids[i])); ok {
					set[f] = true
					prefill(g, n.Kids[i+1], v.Field(f))
				}
			}
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !set[i] && f.CanSet() && f.Kind() != reflect.Chan && f.Type() != tRegexpPtr && !r.P(3) {
				fillValue(g, f, 8)
			}
		}
	}
}

// typedCmp compares a variable with the document.
type typedCmp struct {
	perl   bool
	gots   []any
	wants  []*V
	at     map[*Node]reflect.Value
	copies map[*Node]*evalCtx
	n      int64
}

func (t *typedCmp) cmp(n *Node, got, init reflect.Value, ctx *evalCtx, path string) string {
	t.n++
	if len(path) > 300 {
		path = "..." + path[len(path)-200:]
	}
	if got.Kind() == reflect.Interface {
		t.wants = append(t.wants, ctx.val(n))
		t.gots = append(t.gots, got.Interface())
		return ""
	}
	for {
		switch n.T {
		case tREFN, tWEAKEN, tOBJV:
			n = n.Kids[0]
			continue
		case tOBJECT:
			n = n.Kids[1]
			continue
		case tCOPY:
			// what a COPY stands for is decoded once, however often it is referred to
			cc := t.copies[n]
			if cc == nil {
				cc = &evalCtx{perl: ctx.perl, nodes: map[*Node]*V{}}
				t.copies[n] = cc
			}
			n, ctx = n.Target, cc
			continue
		case tREFP, tALIAS:
			o, ok := t.at[n.Target]
			if !ok {
				return path + ": harness: reference to an item that was not compared"
			}
			if got.Kind() == reflect.Ptr && got.Pointer() != o.Pointer() {
				return path + ": a reference to the same item is another pointer"
			}
			init = o
			n = n.Target
			continue
		}
		break
	}
	if ctx.depth == 0 {
		if _, ok := t.at[n]; !ok {
			t.at[n] = got
		}
	}
	bad := func() string {
		return fmt.Sprintf("%s: %v: got %.200s for %s", path, got.Type(), fmt.Sprintf("%#v", got), short(evalDoc(n, false)))
	}
	if n.T == tUNDEF || n.T == tCUNDEF {
		switch got.Kind() {
		case reflect.Ptr, reflect.Map, reflect.Slice:
			if !got.IsNil() {
				return bad()
			}
		default:
			if !got.IsZero() && !sameVal(got, init) {
				return bad()
			}
		}
		return ""
	}
	switch got.Kind() {
	case reflect.Bool:
		if got.Bool() != (n.T == tTRUE) {
			return bad()
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if got.Int() != intVal(n) {
			return bad()
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if got.Uint() != uint64(intVal(n)) {
			return bad()
		}
	case reflect.Float32, reflect.Float64:
		want := math.Float64frombits(n.U)
		if n.T == tFLOAT {
			want = float64(math.Float32frombits(uint32(n.U)))
		}
		g := got.Float()
		if math.Float64bits(g) != math.Float64bits(want) && !(g != g && want != want) {
			return bad()
		}
	case reflect.String:
		if got.String() != n.S {
			return bad()
		}
	case reflect.Ptr:
		if got.IsNil() {
			return bad()
		}
		if got.Type() == tRegexpPtr {
			re := got.Interface().(*sereal.PerlRegexp)
			if string(re.Pattern) != strOf(n.Kids[0]) || string(re.Modifiers) != strOf(n.Kids[1]) {
				return bad()
			}
			return ""
		}
		in := reflect.Zero(got.Type().Elem())
		if !init.IsNil() {
			in = init.Elem()
		}
		saved, had := t.at[n]
		d := t.cmp(n, got.Elem(), in, ctx, path+".*")
		if had {
			t.at[n] = saved // the pointer, not what it points to
		}
		return d
	case reflect.Slice, reflect.Array:
		arr := got.Kind() == reflect.Array
		if isStrTag(n.T) {
			if !arr && got.Len() != len(n.S) {
				return bad()
			}
			for i := 0; i < got.Len(); i++ {
				want := byte(0)
				if i < len(n.S) {
					want = n.S[i]
				} else {
					want = byte(init.Index(i).Uint())
				}
				if byte(got.Index(i).Uint()) != want {
					return bad()
				}
			}
			return ""
		}
		if !arr && got.Len() != len(n.Kids) {
			return bad()
		}
		for i := 0; i < got.Len(); i++ {
			p := fmt.Sprintf("%s[%d]", path, i)
			in := reflect.Zero(got.Type().Elem())
			if init.Len() > i {
				in = init.Index(i)
			}
			if i >= len(n.Kids) {
				if !sameVal(got.Index(i), in) {
					return p + ": an element without an item was changed"
				}
				continue
			}
			if d := t.cmp(n.Kids[i], got.Index(i), in, ctx, p); d != "" {
				return d
			}
		}
	case reflect.Map:
		if got.IsNil() || got.Len() != len(n.Kids)/2 {
			return bad()
		}
		for i := 0; i+1 < len(n.Kids); i += 2 {
			k := reflect.ValueOf(strOf(n.Kids[i])).Convert(got.Type().Key())
			e := got.MapIndex(k)
			p := fmt.Sprintf("%s{%.30q}", path, k.String())
			if !e.IsValid() {
				return p + ": the key is missing"
			}
			in := reflect.Zero(e.Type())
			if !init.IsNil() {
				if o := init.MapIndex(k); o.IsValid() {
					in = o
				}
			}
			if d := t.cmp(n.Kids[i+1], e, in, ctx, p); d != "" {
				return d
			}
		}
	case reflect.Struct:
		keys := fieldKeys(got.Type())
		set := map[int]bool{}
		for i := 0; i+1 < len(n.Kids); i += 2 {
			f, ok := fieldOf(keys, strOf(n.Kids[i]))
			if !ok {
				continue
			}
			set[f] = true
			if d := t.cmp(n.Kids[i+1], got.Field(f), init.Field(f), ctx, path+"."+got.Type().Field(f).Name); d != "" {
				return d
			}
		}
		for i := 0; i < got.NumField(); i++ {
			if set[i] {
				continue
			}
			t.n++
			p := path + "." + got.Type().Field(i).Name
			if !got.Field(i).CanInterface() {
				if !got.Field(i).IsZero() {
					return p + ": an unexported field was set"
				}
				continue
			}
			if !sameVal(got.Field(i), init.Field(i)) {
				return fmt.Sprintf("%s: a field without a key was changed: %.100s", p, fmt.Sprintf("%#v", got.Field(i)))
			}
		}
	default:
		return path + ": harness: " + got.Type().String()
	}
	return ""
}

func intVal(n *Node) int64 {
	if n.T == tVARINT {
		return int64(n.U)
	}
	return n.I
}

func sameVal(a, b reflect.Value) bool {
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

var c21Roots = []reflect.Type{
	reflect.TypeOf(TRx{}), reflect.TypeOf([]*TRx{}), reflect.TypeOf(TStruct{}), reflect.TypeOf(map[string]*TStruct{}), reflect.TypeOf([]TStruct{}), reflect.TypeOf(TRec{}),
	reflect.TypeOf(SOuter{}), reflect.TypeOf(map[TKey]SOuter{}), reflect.TypeOf([4]TRec{}), reflect.TypeOf(&TRec{}), reflect.TypeOf(TList{}), reflect.TypeOf(TMap{}),
}

// c21Doc makes a type and a document for it.
func c21Doc(c *Ctx, wrongAt int) (reflect.Type, *typedGen, *Doc) {
	r := c.R
	var ty reflect.Type
	if r.P(4) {
		ty = c21Roots[r.N(len(c21Roots))]
	} else {
		tg := &typeGen{r: newRng(c.Seed, hashStr("types21"), uint64(c.Idx%6000))}
		ty = tg.typ(0)
		if ty.Kind() == reflect.Interface || tg.n < 3 {
			ty = tg.structType(0)
		}
	}
	version := r.In(1, 4)
	g := newDocGen(r, version)
	g.freeze = false
	if g.maxStr > 1000 {
		g.maxStr = 400
	}
	t := &typedGen{r: r, g: g, byType: map[reflect.Type][]*Node{}, budget: r.In(5, 80), counts: map[string]int64{}, wrongAt: wrongAt}
	d := &Doc{Version: version}
	d.Type = docTypeFor(r, version)
	if c.Phase == "match-checkptr" && d.Type == 4 {
		d.Type = 0
	}
	d.Body = t.item(ty, 0)
	if version >= 2 && wrongAt == 0 && r.P(6) {
		// as a user header
		d.Header = d.Body
		d.Body = &Node{T: tUNDEF}
	}
	return ty, t, d
}

func c21Match(c *Ctx) {
	r := c.R
	ty, t, d := c21Doc(c, 0)
	b := d.bytes(r)
	root := d.Body
	if d.Header != nil {
		root = d.Header
	}
	cnt := 0
	walk(root, func(*Node) { cnt++ })
	if cnt >= 4 {
		c.Distinct(hashStr(ty.String() + "\x00" + string(b)))
	}
	for k, v := range t.counts {
		c.Count(k, v)
	}
	for k, v := range t.g.counts {
		c.Count("untyped_"+k, v)
	}
	if c.Idx%8000 == 3 {
		c.Sample("%.200v <- %x", ty, clip(b))
	}
	decs := []*sereal.Decoder{{}}
	if !t.notPerl {
		decs = append(decs, &sereal.Decoder{PerlCompat: true})
	}
	if !t.refs {
		decs = append(decs, &sereal.Decoder{DisableReferentialIntegrity: true})
	}
	seed := r.U64()
	pre := !r.P(4)
	for _, dec := range decs {
		got, init := reflect.New(ty), reflect.New(ty)
		if pre {
			for _, v := range []reflect.Value{got, init} {
				vg := newValGen(newRng(seed))
				vg.noNaN, vg.simple = true, true
				vg.budget, vg.maxStr = 40, 30
				prefill(vg, root, v.Elem())
			}
			if !sameVal(got.Elem(), init.Elem()) {
				c.Fail("harness: prefill is not deterministic for %v", ty)
				return
			}
		}
		var err error
		if d.Header != nil {
			err = dec.UnmarshalHeader(b, got.Interface())
			c.Count("headers", 1)
		} else {
			err = dec.Unmarshal(b, got.Interface())
		}
		if err != nil {
			c.Fail("perl=%v: %v\n%.500v\n%s\n%x", dec.PerlCompat, err, ty, short(evalDoc(root, false)), clip(b))
			return
		}
		tc := &typedCmp{perl: dec.PerlCompat, at: map[*Node]reflect.Value{}, copies: map[*Node]*evalCtx{}}
		ctx := &evalCtx{perl: dec.PerlCompat, nodes: map[*Node]*V{}}
		df := tc.cmp(root, got.Elem(), init.Elem(), ctx, "$")
		if df == "" {
			want := &V{K: KArr, A: tc.wants}
			o := eqOpt{CollapsePtr: !dec.PerlCompat || dec.DisableReferentialIntegrity, Share: true}
			if df = diffV(want, fromGo(tc.gots), o); df != "" {
				df = "interface places: " + df
			}
		}
		if df != "" {
			c.Fail("perl=%v: %s\n%.1000v\n%s\n%x", dec.PerlCompat, df, ty, short(evalDoc(root, false)), clip(b))
			return
		}
		c.Count("places_compared", tc.n)
		c.Count("interface_places", int64(len(tc.wants)))
		c.Count("decodes", 1)
	}
}

func c21Mismatch(c *Ctx) {
	r := c.R
	ty, t, d := c21Doc(c, r.In(1, 8))
	if t.wrong == "" {
		c.Count("no_mismatch", 1)
		return
	}
	b := d.bytes(r)
	c.Distinct(hashStr(ty.String() + "\x00" + string(b)))
	c.Count("wrong_"+t.wrong[strings.LastIndex(t.wrong, " ")+1:], 1)
	if c.Idx%8000 == 3 {
		c.Sample("%s: %x", t.wrong, clip(b))
	}
	for _, dec := range []*sereal.Decoder{{}, {PerlCompat: true}} {
		x := reflect.New(ty)
		if err := dec.Unmarshal(b, x.Interface()); err == nil {
			c.Fail("perl=%v: no error for %s\n%.500v\n%x", dec.PerlCompat, t.wrong, ty, clip(b))
			return
		}
		c.Count("errors", 1)
	}
}

func c21Cut(c *Ctx) {
	r := c.R
	ty, _, d := c21Doc(c, 0)
	d.Type = 0
	d.Body, d.Header = pick(r, d.Header, d.Body), nil
	if d.Body == nil {
		return
	}
	b, start := d.raw()
	if len(b) > 3000 {
		return
	}
	// trailing padding is no item: everything before the last byte of the last item is needed
	c.Distinct(hashStr(ty.String() + "\x00" + string(b)))
	for i := 0; i < 12; i++ {
		at := start + r.N(len(b)-start)
		cut := append(make([]byte, 0, at), b[:at]...)
		x := reflect.New(ty)
		if err := (&sereal.Decoder{}).Unmarshal(cut, x.Interface()); err == nil {
			c.Fail("no error for the first %d of %d bytes\n%.500v\n%x", at, len(b), ty, clip(b))
			return
		}
		c.Count("truncated", 1)
	}
}
