package main

import (
	"fmt"
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"
)

func init() {
	register(&Check{
		ID:     "C04",
		Rule:   "A case is a random graph of Go structs with pointers in fields, slices, arrays and maps (cycles, self references, shared nodes, pointers into other structs, zero-size values), encoded with a random configuration from a random root, and decoded into the same type: a simultaneous walk checks that the pointers of both graphs correspond one to one; or an untyped graph of shared and cyclic slices and maps, decoded into an interface{}; distinct by document and shape; non-trivial: at least one pointer occurs twice.",
		Assume: []string{"a pointer into the middle of another encoded value is decoded as a pointer to a copy (Sereal cannot say more)", "pointers to different variables holding the same map are merged (documented in DESIGN.md) and not generated"},
		Phases: []Phase{
			{Name: "typed", Quick: 150000, Thor: 3000000, Run: c04Typed},
			{Name: "types", Quick: 60000, Thor: 1500000, Run: c04Types},
			{Name: "untyped", Quick: 100000, Thor: 2000000, Run: c04Untyped},
			{Name: "long", Quick: 400, Thor: 4000, Run: c04Long},
			{Name: "typed-checkptr", Flavor: "checkptr", Quick: 10000, Thor: 200000, Run: c04Typed},
		},
	})
}

type GInner struct {
	X int
	S string `sereal:"s"`
}

type GNode struct {
	First GInner
	ID    int `sereal:"id"`
	Next  *GNode
	Left  *GNode `sereal:"l"`
	Kids  []*GNode
	M     map[string]*GNode `sereal:"m"`
	Inner *GInner
	Other *GOther
	Pair  [2]*GNode
	PM    *map[string]*GNode
	PP    **GNode
	Zero  *SEmpty
	Vals  []GInner
}

// GOther starts with a GNode, so that they share an address.
type GOther struct {
	Node  GNode
	Back  *GNode
	Self  *GOther
	Kids  map[string][]*GOther
	Empty []*SEmpty
	In    []*GInner
}

type GRoot struct {
	A, B *GNode
	C    *GOther
	D    []*GNode
	E    map[string]*GOther
	F    GNode
	G    []GNode
}

type graphGen struct {
	r      *Rng
	nodes  []*GNode
	others []*GOther
	inners []*GInner
	zeros  []*SEmpty
	maps   []*map[string]*GNode
}

func newGraph(r *Rng) *graphGen {
	g := &graphGen{r: r}
	n := pick(r, 1, 1, 2, 3, 5, r.In(1, 12), r.In(1, 60))
	for i := 0; i < n; i++ {
		g.nodes = append(g.nodes, &GNode{ID: i})
	}
	for i := r.N(3 + n/4); i > 0; i-- {
		o := &GOther{}
		g.others = append(g.others, o)
		g.nodes = append(g.nodes, &o.Node)
	}
	if r.P(2) {
		s := make([]GNode, r.In(1, 4))
		for i := range s {
			g.nodes = append(g.nodes, &s[i])
		}
	}
	for i := r.N(4); i > 0; i-- {
		g.inners = append(g.inners, &GInner{X: i, S: "in"})
	}
	for _, x := range g.nodes {
		if r.P(3) {
			g.inners = append(g.inners, &x.First)
		}
	}
	g.zeros = []*SEmpty{{}, {}}
	dens := r.In(1, 6)
	for i, x := range g.nodes {
		x.First = GInner{X: i * 7, S: pick(r, "", "s", "id", "x", "First")}
		if r.P(8) {
			x.Vals = []GInner{{1, "v"}, {2, ""}}
		}
		if r.P(dens) {
			x.Next = g.node()
		}
		if r.P(dens) {
			x.Left = g.node()
		}
		if r.P(dens) {
			for k := r.N(4); k > 0; k-- {
				x.Kids = append(x.Kids, g.node())
			}
		}
		if r.P(dens + 1) {
			x.M = map[string]*GNode{}
			for k := r.N(4); k > 0; k-- {
				x.M[pick(r, "id", "l", "a", "Next", "b")] = g.node()
			}
		}
		if r.P(dens) && len(g.inners) > 0 {
			x.Inner = g.inners[r.N(len(g.inners))]
		}
		if r.P(dens + 1) {
			x.Other = g.other()
		}
		if r.P(dens + 2) {
			x.Pair = [2]*GNode{g.node(), g.node()}
		}
		if r.P(6) {
			if len(g.maps) == 0 || r.P(2) {
				m := map[string]*GNode{"x": g.node(), "y": g.node()}
				g.maps = append(g.maps, &m)
			}
			x.PM = g.maps[r.N(len(g.maps))]
		}
		if r.P(10) {
			p := &GNode{ID: 1000 + i, Next: g.node()}
			x.PP = &p
		}
		if r.P(6) {
			x.Zero = g.zeros[r.N(2)]
		}
	}
	for _, x := range g.others {
		if r.P(2) {
			x.Back = g.node()
		}
		if r.P(2) {
			x.Self = g.other()
		}
		if r.P(3) {
			x.Kids = map[string][]*GOther{"k": {g.other(), x}, "id": {g.other()}}
		}
		if r.P(3) {
			x.Empty = []*SEmpty{g.zeros[0], g.zeros[1], nil}
		}
		if r.P(3) && len(g.inners) > 0 {
			x.In = []*GInner{g.inners[r.N(len(g.inners))], g.inners[r.N(len(g.inners))]}
		}
	}
	return g
}

func (g *graphGen) node() *GNode {
	if g.r.P(12) {
		return nil
	}
	return g.nodes[g.r.N(len(g.nodes))]
}

func (g *graphGen) other() *GOther {
	if len(g.others) == 0 {
		return nil
	}
	return g.others[g.r.N(len(g.others))]
}

func (g *graphGen) root() any {
	r := g.r
	switch r.N(8) {
	case 0, 1, 2:
		return g.nodes[r.N(len(g.nodes))]
	case 3:
		if o := g.other(); o != nil {
			return o
		}
		return g.nodes[0]
	case 4:
		s := []*GNode{g.node(), g.node(), g.node()}
		return s
	case 5:
		return map[string]*GNode{"a": g.node(), "id": g.node(), "c": g.node()}
	case 6:
		return &GRoot{A: g.node(), B: g.node(), C: g.other(), D: []*GNode{g.node(), g.node()}, E: map[string]*GOther{"id": g.other()}, F: *g.nodes[0], G: []GNode{*g.nodes[0]}}
	}
	return GRoot{A: g.node(), B: g.node(), C: g.other(), D: []*GNode{g.node()}, F: *g.nodes[0]}
}

// isoWalk walks two typed graphs at once.
type isoWalk struct {
	ab, ba map[memoKey]memoKey
	shared int
	cyc    int
	ptrs   int
}

func (w *isoWalk) walk(a, b reflect.Value, path string, depth int) string {
	if len(path) > 200 {
		path = "..." + path[len(path)-150:]
	}
	switch a.Kind() {
	case reflect.Ptr:
		if nilPtr(a) || nilPtr(b) {
			if nilPtr(a) != nilPtr(b) {
				return fmt.Sprintf("%s: nil %v vs nil %v", path, nilPtr(a), nilPtr(b))
			}
			return ""
		}
		if a.Type().Elem().Size() > 0 && a.Type().Elem().Kind() != reflect.Ptr {
			w.ptrs++
			ka, kb := memoKey{a.Type(), a.Pointer(), 0}, memoKey{b.Type(), b.Pointer(), 0}
			x, ok := w.ab[ka]
			y, ok2 := w.ba[kb]
			if ok && ok2 && x == kb && y == ka {
				w.shared++
				return ""
			}
			if ok {
				return fmt.Sprintf("%s: equal pointers became different ones", path)
			}
			if ok2 {
				return fmt.Sprintf("%s: different pointers became equal", path)
			}
			w.ab[ka], w.ba[kb] = kb, ka
		}
		return w.walk(a.Elem(), b.Elem(), path+".*", depth+1)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if f := a.Type().Field(i); f.PkgPath != "" || f.Tag.Get("sereal") == "-" {
				continue
			}
			if d := w.walk(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name, depth+1); d != "" {
				return d
			}
		}
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d vs %d elements", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := w.walk(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i), depth+1); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d vs %d keys", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return fmt.Sprintf("%s: no key %v", path, k)
			}
			if d := w.walk(a.MapIndex(k), y, path+"{"+k.String()+"}", depth+1); d != "" {
				return d
			}
		}
	default:
		if a.Interface() != b.Interface() {
			return fmt.Sprintf("%s: %v vs %v", path, a, b)
		}
	}
	return ""
}

func c04Check(c *Ctx, cfg encCfg, root any) {
	asHeader := cfg.Version >= 2 && c.R.P(5)
	var b []byte
	var err error
	if asHeader {
		b, err = cfg.enc().MarshalWithHeader(root, root)
	} else {
		b, err = cfg.enc().Marshal(root)
	}
	if err != nil {
		c.Fail("%v: %v", cfg, err)
		return
	}
	dst := reflect.New(reflect.TypeOf(root))
	dec := &sereal.Decoder{}
	if err := dec.Unmarshal(b, dst.Interface()); err != nil {
		c.Fail("%v: Unmarshal into %T: %v\n%x", cfg, root, err, clip(b))
		return
	}
	dsts := []reflect.Value{dst}
	if asHeader {
		h := reflect.New(reflect.TypeOf(root))
		if err := dec.UnmarshalHeader(b, h.Interface()); err != nil {
			c.Fail("%v: UnmarshalHeader into %T: %v\n%x", cfg, root, err, clip(b))
			return
		}
		dsts = append(dsts, h)
	}
	for _, d := range dsts {
		w := &isoWalk{ab: map[memoKey]memoKey{}, ba: map[memoKey]memoKey{}}
		if s := w.walk(reflect.ValueOf(root), d.Elem(), "$", 0); s != "" {
			c.Fail("%v: %T: %s\n%x", cfg, root, s, clip(b))
			return
		}
		c.Count("pointers", int64(w.ptrs))
		c.Count("shared_pointers", int64(w.shared))
		if w.shared > 0 {
			c.Distinct(hashStr(string(b)))
		}
	}
}

func c04Typed(c *Ctx) {
	g := newGraph(c.R)
	cfg := randCfg(c.R)
	root := g.root()
	if c.Idx%20000 == 3 {
		c.Sample("%v root %T, %d nodes", cfg, root, len(g.nodes))
	}
	c04Check(c, cfg, root)
}

// c04Types: layered types made at random, whose pointers go to few values of each type.
func c04Types(c *Ctx) {
	r := c.R
	g := newValGen(r)
	g.noNaN = true
	tg := &typeGen{r: r, noIface: true, noPtr: true}
	var types []reflect.Type
	pools := map[reflect.Type][]reflect.Value{}
	for n := r.In(1, 5); n > 0; n-- {
		var fs []reflect.StructField
		for i := r.Len(6); i > 0 || len(fs) == 0; i-- {
			var t reflect.Type
			if len(types) == 0 || r.P(3) {
				t = tg.scalar()
			} else {
				t = reflect.PointerTo(types[r.N(len(types))])
				switch r.N(8) {
				case 0:
					t = reflect.SliceOf(t)
				case 1:
					t = reflect.ArrayOf(r.In(1, 3), t)
				case 2:
					t = reflect.MapOf(reflect.TypeOf(""), t)
				case 3:
					t = reflect.PointerTo(t)
				case 4:
					t = t.Elem()
				}
			}
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", len(fs)), Type: t})
		}
		t := reflect.StructOf(fs)
		if len(types) == 0 && r.P(4) {
			t = pick(r, reflect.TypeOf(SInner{}), reflect.TypeOf(TInner{}), reflect.TypeOf(EBase{}))
		}
		if pools[t] != nil {
			continue
		}
		for i := r.In(1, 4); i > 0; i-- {
			p := reflect.New(t)
			fillPooled(g, p.Elem(), pools)
			pools[t] = append(pools[t], p)
		}
		types = append(types, t)
	}
	// the root has every value twice at least
	var fs []reflect.StructField
	for i, t := range types {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("S%d", i), Type: reflect.SliceOf(reflect.PointerTo(t))})
	}
	root := reflect.New(reflect.StructOf(fs)).Elem()
	for i, t := range types {
		f := root.Field(i)
		for k := r.In(1, 6); k > 0; k-- {
			f.Set(reflect.Append(f, pools[t][r.N(len(pools[t]))]))
		}
	}
	c04Check(c, randCfg(r), root.Interface())
}

func fillPooled(g *valGen, v reflect.Value, pools map[reflect.Type][]reflect.Value) {
	r := g.r
	switch v.Kind() {
	case reflect.Ptr:
		if pool := pools[v.Type().Elem()]; len(pool) > 0 {
			if !r.P(6) {
				v.Set(pool[r.N(len(pool))])
			}
			return
		}
		if v.Type().Elem().Kind() == reflect.Ptr {
			p := reflect.New(v.Type().Elem())
			fillPooled(g, p.Elem(), pools)
			v.Set(p)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fillPooled(g, v.Field(i), pools)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillPooled(g, v.Index(i), pools)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Ptr {
			for i := r.N(4); i > 0; i-- {
				e := reflect.New(v.Type().Elem()).Elem()
				fillPooled(g, e, pools)
				v.Set(reflect.Append(v, e))
			}
			return
		}
		fillValue(g, v, 10)
	case reflect.Map:
		if v.Type().Elem().Kind() == reflect.Ptr {
			v.Set(reflect.MakeMap(v.Type()))
			for i := r.N(4); i > 0; i-- {
				e := reflect.New(v.Type().Elem()).Elem()
				fillPooled(g, e, pools)
				v.SetMapIndex(reflect.ValueOf(g.key()), e)
			}
			return
		}
		fillValue(g, v, 10)
	default:
		fillValue(g, v, 10)
	}
}

// c04Long: long cycles and lists whose references span all offset widths.
func c04Long(c *Ctx) {
	r := c.R
	n := pick(r, 10, 1000, 3000, r.In(1, 6000))
	nodes := make([]*GNode, n)
	for i := range nodes {
		nodes[i] = &GNode{ID: i}
		if i > 0 {
			nodes[i-1].Next = nodes[i]
			nodes[i].Left = nodes[i-1]
		}
		if r.P(50) {
			nodes[i].Kids = []*GNode{nodes[r.N(i+1)], nodes[0]}
			nodes[i].First.S = string(make([]byte, r.Len(9000)))
		}
	}
	if r.P(2) {
		nodes[n-1].Next = nodes[r.N(n)]
	}
	var root any = nodes
	if r.P(2) {
		root = nodes[0]
	}
	if r.P(3) {
		root = nodes[n/2]
	}
	c04Check(c, randCfg(r), root)
}

func c04Untyped(c *Ctx) {
	r := c.R
	g := newValGen(r)
	g.share = true
	g.noStruct = r.Bool()
	var x any = g.pointer(0)
	for i := 0; i < r.N(4); i++ {
		x = &[]any{x, g.pointer(0), g.val(0)}
	}
	cfg := randCfg(r)
	b, err := cfg.enc().Marshal(x)
	if err != nil {
		c.Fail("%v: %v", cfg, err)
		return
	}
	want := meaning(cfg, x)
	for perl := 0; perl < 2; perl++ {
		y, err := decodeAny(&sereal.Decoder{PerlCompat: perl == 1}, b)
		if err != nil {
			c.Fail("%v: PerlCompat %d: %v of %s\n%x", cfg, perl, err, dumpV(want), clip(b))
			return
		}
		got := fromGo(y)
		o := eqOpt{CollapsePtr: true, Share: true, NoWrap: true, UndefNil: true}
		if perl == 1 {
			o = eqOpt{Share: true, UndefNil: true}
		}
		if df := diffV(want, got, o); df != "" {
			c.Fail("%v: PerlCompat %d: %s\nencoded %s\ndecoded %s\n%x", cfg, perl, df, dumpV(want), dumpV(got), clip(b))
			return
		}
	}
	for k, v := range g.counts {
		c.Count(k, v)
	}
	if g.counts["shared_pointer"] > 0 {
		c.Distinct(hashStr(string(b)))
	}
}
