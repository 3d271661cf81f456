package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"unicode/utf8"
)

func init() {
	register(&Check{
		ID:      "C27",
		Rule:    "objects: random graphs of Java objects (boxed numbers, big integers, strings in several encodings, lists, maps, arrays of objects and of primitives, patterns, objects, weak references, in some modes PerlReference and PerlAlias; shared, cyclic, with a header or none, some beyond a limit or of a class that cannot be written) are written by Encoder with random options, several by one encoder. tokens: random trees of items are written with calls of TokenEncoder, in all their variants, offsets taken from the encoder. What comes out is read by the strict parser of the harness (every byte accounted for, offsets lead to items, flags set, type and version agree) and compared with the objects as graphs, or with the tree item by item. Distinct by document; non-trivial: at least 3 items.",
		Assume:  []string{"the parser and evaluator of the harness state the specification", "the snappy and zstd libraries found in this sandbox"},
		Prepare: prepareJava,
		Phases: []Phase{
			{Name: "objects", Quick: 40000, Thor: 1500000, Run: c27Objects, Init: perlInit("java", ""), Done: perlDone},
			{Name: "tokens", Quick: 40000, Thor: 1500000, Run: c27Tokens, Init: perlInit("java", ""), Done: perlDone},
			{Name: "late-count", Quick: 1, Thor: 1, Run: c27LateCount, Init: perlInit("java", ""), Done: perlDone},
		},
	})
}

// javaOpts are the options of the Java encoders.
type javaOpts struct {
	refs, aliases bool
	version, comp int
	threshold     int
	level         int
	maxMap        int
	maxArr        int
	maxStr        int
}

func randJavaOpts(r *Rng) *javaOpts {
	o := &javaOpts{version: r.In(1, 4)}
	if javaType(r, 4) != 0 || r.Bool() {
		top := 1
		if o.version >= 3 {
			top = o.version - 1
		}
		o.comp = r.In(0, top)
		if !javaHasComp() && o.comp != 2 {
			o.comp = 0
		}
	}
	o.threshold = pick(r, 0, 0, 1, 10, 100, 1000)
	if o.comp > 1 && r.P(3) {
		o.level = r.In(1, 9)
	}
	return o
}

func (o *javaOpts) String() string { return fmt.Sprintf("%+v", *o) }

func (o *javaOpts) write(w *wireWriter) {
	f := 0
	if o.refs {
		f |= 1
	}
	if o.aliases {
		f |= 2
	}
	for _, n := range []int{f, o.version, o.comp, o.threshold, o.level, o.maxMap, o.maxArr, o.maxStr} {
		w.n(n)
	}
}

// form says what is wrong with the type of a document.
func (o *javaOpts) form(p *parsed, b []byte, hdr bool) string {
	if p.Version != o.version {
		return fmt.Sprintf("version %d", p.Version)
	}
	typ := 0
	switch o.comp {
	case 1:
		typ = 2
		if o.version == 1 {
			typ = 1
		}
	case 2:
		typ = 3
	case 3:
		typ = 4
	}
	if p.Type != 0 && p.Type != typ {
		return fmt.Sprintf("type %d", p.Type)
	}
	if p.Type != 0 && len(p.RawBody) <= o.threshold {
		return fmt.Sprintf("%d bytes are compressed, which is not above the threshold", len(p.RawBody))
	}
	if p.Type == 0 && typ != 0 && len(p.RawBody) > o.threshold && len(p.RawBody) > 100 && deflated(p.RawBody) < len(p.RawBody)/3 {
		return fmt.Sprintf("%d bytes are not compressed", len(p.RawBody))
	}
	if hdr != (p.Header != nil) {
		return fmt.Sprintf("header: %v", p.Header != nil)
	}
	if !hdr && len(p.Suffix) != 0 {
		return "a suffix"
	}
	return ""
}

// ---- objects ----

type javaThing struct {
	id   int
	v    *V // as a value
	kind byte
}

type javaGen struct {
	r      *Rng
	w      *wireWriter
	o      *javaOpts
	ids    int
	budget int
	things []javaThing
	strs   []string
	noRef  bool // nothing earlier (in a weak reference or an object when there are aliases)

	bad            bool // cannot be written
	mapN, arrN     int  // the most there are
	strN, strOther int
	objs           bool // many objects
	counts         map[string]int64
}

func (g *javaGen) tag(t byte) int {
	g.w.b = append(g.w.b, t)
	g.ids++
	return g.ids - 1
}

func (g *javaGen) keep(id int, v *V, kind byte) *V {
	g.things = append(g.things, javaThing{id, v, kind})
	return v
}

// again writes an earlier object of these kinds.
func (g *javaGen) again(kinds string) (*V, byte) {
	for k := 0; k < 5 && len(g.things) > 0; k++ {
		t := g.things[g.r.N(len(g.things))]
		if strings.IndexByte(kinds, t.kind) >= 0 {
			g.w.b = append(g.w.b, '^')
			g.w.n(t.id)
			g.counts["again"]++
			return t.v, t.kind
		}
	}
	return nil, 0
}

func utf16len(s string) int {
	n := 0
	for _, c := range s {
		if n++; c > 0xffff {
			n++
		}
	}
	return n
}

func (g *javaGen) text() string {
	r := g.r
	if len(g.strs) > 0 && r.P(3) {
		return g.strs[r.N(len(g.strs))]
	}
	s := randText(r, r.Len(60))
	if r.P(6) {
		// the same in many documents, of the same hash code
		s = pick(r, "Aa", "BB", "AaAa", "AaBB", "BBBB", "My::Class", "éAa", "éBB")
	}
	if !utf8.ValidString(s) {
		s = latin1(s)
	}
	g.strs = append(g.strs, s)
	return s
}

func (g *javaGen) str() *V {
	s := g.text()
	id := g.tag('s')
	g.w.str(s)
	g.strN = max(g.strN, utf16len(s))
	return g.keep(id, vStr(s), 's')
}

func (g *javaGen) scalar() *V {
	r := g.r
	switch r.N(16) {
	case 0:
		g.tag('n')
		return &V{K: KUndef}
	case 1:
		g.tag('u')
		return &V{K: KUndef}
	case 2:
		g.tag('c')
		if g.o.version >= 3 {
			return &V{K: KCUndef}
		}
		return &V{K: KUndef}
	case 3:
		b := r.Bool()
		id := g.tag('t')
		n := 0
		if b {
			n = 1
		}
		g.w.n(n)
		return g.keep(id, vBool(b), 's')
	case 4:
		f := r.Float32()
		id := g.tag('f')
		g.w.n(int(int32(math.Float32bits(f))))
		return g.keep(id, vF32(f), 's')
	case 5:
		f := r.Float64()
		id := g.tag('d')
		g.w.u64(math.Float64bits(f))
		return g.keep(id, vF64(f), 's')
	case 6:
		i := big.NewInt(r.Int64())
		switch r.N(5) {
		case 0:
			i.SetUint64(r.Uint64())
		case 1:
			i.Add(new(big.Int).SetUint64(math.MaxUint64), big.NewInt(int64(r.In(-2, 0))))
		case 2:
			i.Add(big.NewInt(math.MinInt64), big.NewInt(int64(r.In(0, 2))))
		case 3:
			i.Add(big.NewInt(math.MaxInt64), big.NewInt(int64(r.In(-2, 2))))
		}
		if r.P(60) {
			i = pick(r, new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).Sub(big.NewInt(math.MinInt64), big.NewInt(1)), new(big.Int).Lsh(big.NewInt(-3), 90))
			g.bad = true
		}
		id := g.tag('G')
		g.w.str(i.String())
		if i.IsInt64() {
			return g.keep(id, vInt(i.Int64()), 's')
		}
		return g.keep(id, vUint(i.Uint64()), 's')
	case 7, 8:
		s := g.text()
		if r.Bool() {
			s = string(r.Bytes(r.Len(60)))
		}
		g.strOther = max(g.strOther, len(s))
		id := g.tag(pick(r, byte('1'), 'b'))
		g.w.str(s)
		return g.keep(id, vBytes(s), 's')
	case 9:
		p := pick(r, "", "abc", "a.c", "[a-z]+ x", "ünï", "日本", "x\U0001F600", strings.Repeat("ab|", 30)+"c")
		fl := r.N(16)
		f, s := 0, ""
		for i, x := range []struct {
			c string
			f int
		}{{"m", 8}, {"s", 32}, {"i", 2}, {"x", 4}} {
			if fl>>i&1 == 1 {
				f |= x.f
				s += x.c
			}
		}
		g.strN = max(g.strN, 0)
		g.strOther = max(g.strOther, utf16len(p))
		id := g.tag('r')
		g.w.str(p)
		g.w.n(f)
		return g.keep(id, &V{K: KRegexp, S: p, S2: s}, 's')
	case 10, 11, 12:
		return g.str()
	}
	i := r.Int64()
	t := byte('L')
	switch {
	case r.P(3):
		i, t = int64(r.In(-128, 127)), 'B'
	case r.P(3):
		i, t = int64(int32(i)), 'I'
	case r.P(3):
		i = int64(r.In(-40, 140))
	}
	id := g.tag(t)
	g.w.str(fmt.Sprint(i))
	return g.keep(id, vInt(i), 's')
}

// container writes a list or map; outer is what it is as a value.
func (g *javaGen) container(kind byte) (outer *V) {
	r := g.r
	v := &V{K: KArr}
	if r.Bool() {
		v = &V{K: KMap, M: map[string]*V{}}
	}
	outer = v
	if !g.o.refs {
		outer = &V{K: KPtr, A: []*V{v}}
	}
	n := r.Len(8)
	if r.P(100) {
		n = pick(r, 15, 16, 127, 128, 300)
	}
	n = min(n, max(g.budget, 0))
	noRef := g.noRef
	g.noRef = false
	defer func() { g.noRef = noRef }()
	if v.K == KArr && r.P(8) {
		id := g.tag('p')
		k := pick(r, byte('i'), 'l', 'd', 's')
		g.w.b = append(g.w.b, k)
		g.w.n(n)
		for ; n > 0; n-- {
			switch k {
			case 'i':
				i := int64(int32(r.Int64()))
				g.w.str(fmt.Sprint(i))
				v.A = append(v.A, vInt(i))
			case 'l':
				i := r.Int64()
				g.w.str(fmt.Sprint(i))
				v.A = append(v.A, vInt(i))
			case 'd':
				f := float64(r.In(-1000, 1000)) / 8
				g.w.str(fmt.Sprint(f))
				v.A = append(v.A, vF64(f))
			default:
				s := g.text()
				g.strN = max(g.strN, utf16len(s))
				g.w.str(s)
				v.A = append(v.A, vStr(s))
			}
		}
		g.arrN = max(g.arrN, len(v.A))
		g.budget -= len(v.A)
		return g.keep(id, outer, kind)
	}
	if v.K == KArr {
		id := g.tag('l')
		g.keep(id, outer, kind)
		k := pick(r, byte('a'), 'k', 'o')
		g.w.b = append(g.w.b, k)
		g.w.n(n)
		g.arrN = max(g.arrN, n)
		for i := 0; i < n; i++ {
			v.A = append(v.A, g.value())
		}
		return outer
	}
	id := g.tag('m')
	g.keep(id, outer, kind)
	mk := pick(r, byte('h'), 'l', 't')
	if g.o.aliases {
		mk = 'l' // what comes first matters
	}
	g.w.b = append(g.w.b, mk)
	at := len(g.w.b)
	g.w.n(0)
	for i := 0; i < n; i++ {
		mark, ids, things := len(g.w.b), g.ids, len(g.things)
		var k *V
		if r.P(5) {
			if k, _ = g.again("s"); k != nil && k.K != KStr {
				g.w.b = g.w.b[:mark]
				k = nil
			}
		}
		if k == nil {
			k = g.str()
		}
		if _, ok := v.M[k.S]; ok {
			g.w.b, g.ids, g.things = g.w.b[:mark], ids, g.things[:things]
			continue
		}
		v.M[k.S] = nil
		v.M[k.S] = g.value()
	}
	m := len(v.M)
	copy(g.w.b[at:], []byte{byte(m), byte(m >> 8), byte(m >> 16), byte(m >> 24)})
	g.mapN = max(g.mapN, m)
	return outer
}

// value writes any object. Kinds: s scalars, c containers, t containers that a PerlReference holds, R references, o objects.
func (g *javaGen) value() *V {
	r := g.r
	g.budget--
	if g.budget <= 0 {
		return g.scalar()
	}
	n := r.N(20)
	if g.objs && r.P(3) {
		n = 14
	}
	switch {
	case n < 7:
		return g.scalar()
	case n < 9 && !g.noRef:
		kinds := "csRo"
		if g.o.refs {
			kinds = "sR"
		}
		if v, _ := g.again(kinds); v != nil {
			return v
		}
		return g.scalar()
	case n < 14:
		return g.ref()
	case n == 14:
		id := g.tag('o')
		name := pick(r, "", "A", "Foo::Bar", "Ünï::Kod", "Aa", "BB", g.text())
		g.w.str(name)
		g.strN = max(g.strN, utf16len(name))
		v := &V{K: KObj, S: name}
		defer func(n bool) { g.noRef = n }(g.noRef)
		g.noRef = g.noRef || g.o.aliases
		v.A = []*V{g.ref()}
		if g.o.refs {
			return v
		}
		return g.keep(id, v, 'o')
	case n < 17:
		g.tag('w')
		defer func(n bool) { g.noRef = n }(g.noRef)
		g.noRef = g.noRef || g.o.aliases
		var x *V
		switch r.N(5) {
		case 0:
			x = g.scalar()
		case 1:
			if g.o.refs {
				x = g.container('x')
				break
			}
			fallthrough
		default:
			x = g.ref()
		}
		g.counts["weak"]++
		if x.K != KPtr {
			x = &V{K: KPtr, A: []*V{x}}
		}
		return &V{K: KWeak, A: []*V{x}}
	case n < 19:
		if !g.o.refs || g.o.aliases {
			id := g.tag('a')
			_ = id
			g.counts["alias"]++
			if g.o.aliases && !g.noRef {
				if v, _ := g.again("cstRo"); v != nil {
					g.counts["alias_again"]++
					return v
				}
			}
			if r.Bool() {
				return g.scalar()
			}
			return g.ref()
		}
		return g.scalar()
	}
	if r.P(30) {
		g.tag('?')
		g.bad = true
		return &V{K: KUnknown}
	}
	if g.o.refs {
		return g.container('c') // as it is
	}
	return g.scalar()
}

// ref writes what is a reference.
func (g *javaGen) ref() *V {
	r := g.r
	if !g.noRef && r.P(4) {
		kinds := "c"
		if g.o.refs {
			kinds = "R"
		}
		if v, _ := g.again(kinds); v != nil {
			return v
		}
	}
	if !g.o.refs {
		if r.P(6) {
			return g.plainRef()
		}
		return g.container('c')
	}
	id := g.tag('R')
	g.counts["references"]++
	v := &V{K: KPtr, A: []*V{nil}}
	switch n := r.N(8); {
	case n == 0:
		g.keep(id, v, '-')
		v.A[0] = g.scalar()
	case n == 1 && g.budget > 0:
		g.budget--
		v.A[0] = g.ref()
	case n < 4 && !g.noRef:
		if x, _ := g.again("t"); x != nil {
			v.A[0] = x
			break
		}
		fallthrough
	default:
		// the reference exists when the container is filled
		v.A[0] = &V{}
		g.keep(id, v, 'R')
		g.containerInto(v)
		return v
	}
	return g.keep(id, v, 'R')
}

// plainRef writes a PerlReference where lists and maps are references already.
func (g *javaGen) plainRef() *V {
	g.tag('R')
	g.counts["references"]++
	g.budget--
	switch g.r.N(4) {
	case 0:
		return &V{K: KPtr, A: []*V{g.scalar()}}
	case 1:
		if g.budget > 0 {
			return &V{K: KPtr, A: []*V{g.plainRef()}}
		}
	case 2:
		if !g.noRef {
			if v, _ := g.again("c"); v != nil {
				return v
			}
		}
	}
	return g.container('c')
}

// containerInto writes the container a reference holds, in which the reference may stand.
func (g *javaGen) containerInto(v *V) {
	n := len(g.things)
	x := g.container('t')
	*v.A[0] = *x
	for i := n; i < len(g.things); i++ {
		if g.things[i].v == x {
			g.things[i].v = v.A[0]
		}
	}
	replaceV(v.A[0], x, v.A[0], map[*V]bool{})
}

// replaceV puts b in the place of a.
func replaceV(v, a, b *V, seen map[*V]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	for i, k := range v.A {
		if k == a {
			v.A[i] = b
		} else {
			replaceV(k, a, b, seen)
		}
	}
	for k, x := range v.M {
		if x == a {
			v.M[k] = b
		} else {
			replaceV(x, a, b, seen)
		}
	}
}

func c27Objects(c *Ctx) {
	r := c.R
	o := randJavaOpts(r)
	o.refs, o.aliases = r.Bool(), r.P(3)
	if r.P(10) {
		o.maxMap = r.In(1, 8)
	}
	if r.P(10) {
		o.maxArr = r.In(1, 8)
	}
	if r.P(10) {
		o.maxStr = pick(r, 3, 20, 50)
	}
	w := &wireWriter{b: []byte{'E'}}
	w.n(r.N(3) / 2)
	o.write(w)
	type doc struct {
		g    [2]*javaGen
		want [2]*V
	}
	var docs []*doc
	cnt := r.In(1, 3)
	if r.P(3) {
		cnt = r.In(3, 8)
	}
	w.n(cnt)
	objs := r.P(3)
	for i := 0; i < cnt; i++ {
		d := &doc{}
		how := r.N(4)
		if o.version == 1 && !r.P(20) {
			how &= 2
		}
		w.n(how)
		for k := 1 - how&1; k < 2; k++ {
			g := &javaGen{r: r, w: w, o: o, budget: r.Len(60), objs: objs, counts: map[string]int64{}}
			d.g[k] = g
			if r.P(8) {
				d.want[k] = g.value()
			} else if o.refs && r.P(3) {
				d.want[k] = g.container('c')
			} else {
				d.want[k] = g.ref()
			}
			for n, x := range g.counts {
				c.Count(n, x)
			}
			if k == 0 {
				c.Count("headers", 1)
			}
		}
		docs = append(docs, d)
	}
	res, err := thePerl.call(w.b)
	if err != nil {
		c.Fail("%s: %v", o, err)
		return
	}
	rd := &wireReader{s: res}
	for i, d := range docs {
		hdr := d.g[0] != nil
		must, may := "", false
		if hdr && o.version == 1 {
			must = "header in version 1"
		}
		for _, g := range d.g {
			if g == nil {
				continue
			}
			if g.bad {
				must = "something that cannot be written"
			}
			if o.maxMap > 0 && g.mapN > o.maxMap || o.maxArr > 0 && g.arrN > o.maxArr || o.maxStr > 0 && g.strN > o.maxStr {
				must = "a limit"
			}
			may = may || o.maxStr > 0 && g.strOther > o.maxStr
		}
		if rd.byte() == 'X' {
			msg := rd.str()
			if must == "" && !may {
				c.Fail("%s, document %d: %s\n%s", o, i, msg, dumpV(d.want[1]))
				return
			}
			c.Count("refused", 1)
			continue
		}
		b := []byte(rd.str())
		if must != "" {
			c.Fail("%s, document %d: written in spite of %s\n%x", o, i, must, clip(b))
			return
		}
		if !c27Same(c, o, fmt.Sprintf("%s, document %d", o, i), b, d.want) {
			return
		}
	}
}

func c27Parse(c *Ctx, o *javaOpts, said string, b []byte, hdr bool) *parsed {
	p, err := parseDoc(b)
	if err != nil {
		c.Fail("%s: %v\n%x", said, err, clip(b))
		return nil
	}
	if s := o.form(p, b, hdr); s != "" {
		c.Fail("%s: %s\n%x", said, s, clip(b))
		return nil
	}
	n := 0
	walk(p.Body, func(*Node) { n++ })
	if n >= 3 {
		c.Distinct(hashStr(string(b)))
	}
	tagCounts(c, p.Body)
	c.Count(fmt.Sprintf("type_%d", p.Type), 1)
	return p
}

func c27Same(c *Ctx, o *javaOpts, said string, b []byte, want [2]*V) bool {
	p := c27Parse(c, o, said, b, want[0] != nil)
	if p == nil {
		return false
	}
	if c.Idx%5000 == 0 {
		c.Sample("%s: %s", said, dumpV(want[1]))
	}
	for k, root := range []*Node{p.Header, p.Body} {
		if want[k] == nil {
			continue
		}
		got := (&evalCtx{perl: true, chars: true, nodes: map[*Node]*V{}}).val(root)
		if df := diffV(want[k], got, eqOpt{Share: true}); df != "" {
			c.Fail("%s, part %d: %s\nwant %s\ngot  %s\n%x", said, k, df, dumpV(want[k]), dumpV(got), clip(b))
			return false
		}
		c.Count("values_compared", int64(sizeV(got)))
	}
	return true
}

// ---- calls of the token encoder ----

type javaCalls struct {
	r     *Rng
	w     *wireWriter
	slot  map[*Node]int
	inRe  map[*Node]bool // pattern or modifiers
	refed map[*Node]bool
	late  bool // no counts
	calls int64
}

func (g *javaCalls) op(c byte) { g.w.b = append(g.w.b, c); g.calls++ }

func (g *javaCalls) opn(c byte, n int) { g.op(c); g.w.n(n) }

// off remembers the offset of a node behind the last call.
func (g *javaCalls) off(n *Node, plus int) {
	if g.refed[n] {
		g.slot[n] = len(g.slot)
		g.opn('@', g.slot[n])
		g.w.n(plus)
	}
}

func (g *javaCalls) long(n *Node) {
	r := g.r
	u := uint64(n.I)
	if n.T == tVARINT {
		u = n.U
	}
	if n.T == tVARINT && n.U > math.MaxInt64 || (n.T == tVARINT || n.T == tPOS) && r.Bool() {
		g.op('u')
	} else {
		g.op('l')
	}
	g.w.u64(u)
}

// count is the count of a container or none, if no offset within is needed later.
func (g *javaCalls) count(n *Node, cnt int) int {
	if g.late || g.r.P(3) {
		if cnt < 128 || g.late {
			return -1
		}
		any := false
		for _, k := range n.Kids {
			walk(k, func(x *Node) { any = any || g.refed[x] })
		}
		if !any {
			return -1
		}
	}
	return cnt
}

func (g *javaCalls) kids(n *Node) {
	for _, k := range n.Kids {
		g.item(k)
	}
}

func (g *javaCalls) str(n *Node) {
	if n.T == tUTF8 {
		m := g.r.N(6)
		if !utf8.ValidString(n.S) {
			m = 4 + m&1
		}
		g.opn('s', m)
	} else {
		g.opn('b', g.r.N(3))
	}
	g.w.str(n.S)
}

func (g *javaCalls) item(n *Node) {
	r := g.r
	switch n.T {
	case tPOS, tNEG, tVARINT, tZIGZAG:
		g.long(n)
		g.off(n, 0)
	case tFLOAT:
		g.opn('f', int(int32(n.U)))
		g.off(n, 0)
	case tDOUBLE:
		g.op('d')
		g.w.u64(n.U)
		g.off(n, 0)
	case tTRUE, tFALSE:
		x := 0
		if n.T == tTRUE {
			x = 1
		}
		g.opn('t', x)
		g.off(n, 0)
	case tUNDEF:
		g.op('U')
		g.off(n, 0)
	case tCUNDEF:
		g.op('K')
		g.off(n, 0)
	case tBINARY, tSHORT, tUTF8:
		g.str(n)
		g.off(n, 0)
	case tARRAY:
		g.opn('<', g.count(n, len(n.Kids)))
		g.off(n, 0)
		g.kids(n)
		g.op(']')
	case tHASH:
		g.opn('=', g.count(n, len(n.Kids)/2))
		g.off(n, 0)
		g.kids(n)
		g.op(')')
	case tAREF:
		g.opn('[', len(n.Kids))
		g.off(n, 0)
		g.kids(n)
		g.op(']')
	case tHREF:
		g.opn('(', len(n.Kids)/2)
		g.off(n, 0)
		g.kids(n)
		g.op(')')
	case tREFN:
		k := n.Kids[0]
		isA, isH := k.T == tARRAY, k.T == tHASH
		if (isA || isH) && !g.refed[k] && r.Bool() {
			cnt := len(k.Kids)
			if isH {
				cnt /= 2
			}
			x := g.count(k, cnt)
			if x < 0 || x > 15 {
				if isA {
					g.opn('[', x)
				} else {
					g.opn('(', x)
				}
				g.off(n, 0)
				g.kids(k)
				if isA {
					g.op(']')
				} else {
					g.op(')')
				}
				return
			}
		}
		g.op('R')
		g.off(n, 0)
		g.item(k)
	case tWEAKEN:
		k := n.Kids[0]
		isRef := k.T == tREFN || k.T == tREFP || k.T == tAREF || k.T == tHREF || k.T == tOBJECT || k.T == tOBJV
		if g.refed[n] || !isRef || r.Bool() {
			g.op('w')
			g.off(n, 0)
			g.item(k)
			return
		}
		force := r.N(2)
		g.opn('{', force)
		if k.T == tREFN && force == 1 && !g.refed[k] && !isRefNode(k.Kids[0]) {
			k = k.Kids[0] // becomes a reference
		}
		g.item(k)
		g.op('}')
	case tREFP:
		g.opn('P', g.slotOf(n.Target))
		g.off(n, 0)
	case tALIAS:
		g.opn('A', g.slotOf(n.Target))
		g.off(n, 0)
	case tCOPY:
		if g.inRe[n.Target] {
			g.str(n.Target)
		} else {
			g.opn('C', g.slotOf(n.Target))
		}
		g.off(n, 0)
	case tREGEXP:
		p, f := n.Kids[0], n.Kids[1]
		for p.T == tCOPY {
			p = p.Target
		}
		m := 0
		if p.T == tUTF8 {
			m = 1
			if fs := strOf(f); fs == strings.Join(msix(fs), "") && r.Bool() {
				m = 2
			}
		}
		g.opn('x', m)
		g.w.str(p.S)
		g.w.str(strOf(f))
		g.off(n, 0)
	case tOBJECT:
		k := n.Kids[0]
		if k.T == tCOPY && !g.inRe[k.Target] {
			g.opn('o', g.slotOf(k.Target))
		} else {
			for x := k; ; x = x.Target {
				if x.T == tCOPY {
					continue
				}
				m := 0
				if x.T == tUTF8 {
					m = r.In(1, 2)
				}
				g.opn('O', m)
				g.w.str(x.S)
				break
			}
		}
		g.off(n, 0)
		g.off(k, 1)
		g.item(n.Kids[1])
		g.op('E')
	case tOBJV:
		g.opn('V', g.slotOf(n.Target))
		g.off(n, 0)
		g.item(n.Kids[0])
		g.op('E')
	default:
		panic("no call")
	}
}

func msix(s string) (f []string) {
	for _, c := range []string{"m", "s", "i", "x"} {
		if strings.Contains(s, c) {
			f = append(f, c)
		}
	}
	return f
}

func isRefNode(k *Node) bool {
	switch k.T {
	case tREFN, tREFP, tAREF, tHREF, tOBJECT, tOBJV, tALIAS, tCOPY, tWEAKEN:
		return true
	}
	return false
}

func (g *javaCalls) slotOf(n *Node) int {
	s, ok := g.slot[n]
	if !ok {
		panic(fmt.Sprintf("no offset of tag %#x", n.T))
	}
	return s
}

func (g *javaCalls) part(root *Node) {
	g.inRe, g.refed, g.slot = map[*Node]bool{}, map[*Node]bool{}, map[*Node]int{}
	walk(root, func(n *Node) {
		if n.T == tREGEXP {
			g.inRe[n.Kids[0]], g.inRe[n.Kids[1]] = true, true
		}
	})
	walk(root, func(n *Node) {
		if n.Target != nil && !g.inRe[n] && !g.inRe[n.Target] {
			g.refed[n.Target] = true
		}
	})
	g.item(root)
}

// javaItems lists the items of a tree.
func javaItems(root *Node) (s []string) {
	ord := map[*Node]int{}
	inRe := map[*Node]bool{}
	walk(root, func(n *Node) {
		if n.T == tREGEXP {
			inRe[n.Kids[0]], inRe[n.Kids[1]] = true, true
		}
	})
	var f func(n *Node)
	f = func(n *Node) {
		ord[n] = len(ord)
		str := func(n *Node) string {
			for n.T == tCOPY {
				n = n.Target
			}
			if n.T == tUTF8 {
				return fmt.Sprintf("u %x", n.S)
			}
			return fmt.Sprintf("b %x", n.S)
		}
		t := ""
		switch n.T {
		case tPOS, tNEG, tZIGZAG:
			t = fmt.Sprintf("int %d", n.I)
		case tVARINT:
			t = fmt.Sprintf("int %d", n.U)
		case tFLOAT:
			u := n.U
			if isNaN32(u) {
				u = 0x7fc00000
			}
			t = fmt.Sprintf("float %x", u)
		case tDOUBLE:
			u := n.U
			if x := math.Float64frombits(u); x != x {
				u = 0x7ff8000000000000
			}
			t = fmt.Sprintf("double %x", u)
		case tBINARY, tSHORT, tUTF8:
			t = str(n)
		case tREGEXP:
			t = fmt.Sprintf("regexp %s %x", str(n.Kids[0]), strOf(n.Kids[1]))
			ord[n.Kids[0]] = len(ord)
			ord[n.Kids[1]] = len(ord)
			s = append(s, t)
			return
		case tCOPY:
			if inRe[n.Target] {
				t = str(n)
			} else {
				t = fmt.Sprintf("COPY of %d", ord[n.Target])
			}
		default:
			t = fmt.Sprintf("%s %d", tagName(n.T), len(n.Kids))
			if n.Target != nil && inRe[n.Target] {
				t += " " + str(n.Target)
			} else if n.Target != nil {
				t += fmt.Sprintf(" of %d", ord[n.Target])
			}
		}
		s = append(s, t)
		for _, k := range n.Kids {
			f(k)
		}
	}
	f(root)
	return s
}

func c27Tokens(c *Ctx) {
	o := randJavaOpts(c.R)
	again := c.R.N(3) / 2
	d, dg := genDoc(c.R, o.version, func(g *docGen) { javaDocGen(g) })
	for k, v := range dg.counts {
		c.Count(k, v)
	}
	c27Doc(c, o, again, d, false)
}

// c27LateCount: an array of 200 items, the count given by its end, in which the last copies the first.
func c27LateCount(c *Ctx) {
	first := &Node{T: tBINARY, S: "copied"}
	arr := &Node{T: tARRAY, Kids: []*Node{first}}
	for i := 0; i < 198; i++ {
		arr.Kids = append(arr.Kids, &Node{T: tPOS, I: int64(i % 16)})
	}
	arr.Kids = append(arr.Kids, &Node{T: tCOPY, Target: first})
	c27Doc(c, &javaOpts{version: 3}, 1, &Doc{Body: &Node{T: tREFN, Kids: []*Node{arr}}}, true)
}

func c27Doc(c *Ctx, o *javaOpts, again int, d *Doc, late bool) {
	r := c.R
	w := &wireWriter{b: []byte{'W'}}
	w.n(again)
	o.write(w)
	slots := 0
	for _, n := range []*Node{d.Header, d.Body} {
		if n != nil {
			walk(n, func(*Node) { slots++ })
		}
	}
	w.n(slots)
	g := &javaCalls{r: r, w: w, late: late}
	if d.Header != nil {
		g.op('H')
		g.part(d.Header)
		g.op('h')
	}
	g.op('X')
	g.op('!')
	g.part(d.Body)
	g.op('Y')
	g.opn('.', r.N(4))
	c.Count("calls", g.calls)
	res, err := thePerl.call(w.b)
	if err != nil {
		c.Fail("%s: %v\n%s", o, err, dumpV(evalDoc(d.Body, true)))
		return
	}
	rd := &wireReader{s: res}
	b := []byte(rd.str())
	p := c27Parse(c, o, o.String(), b, d.Header != nil)
	if p == nil {
		return
	}
	if c.Idx%5000 == 0 {
		c.Sample("%s: %s", o, dumpV(evalDoc(d.Body, true)))
	}
	for k, x := range [][2]*Node{{d.Header, p.Header}, {d.Body, p.Body}} {
		if x[0] == nil {
			continue
		}
		want, got := javaItems(x[0]), javaItems(x[1])
		for i := 0; i < len(want) || i < len(got); i++ {
			a, b2 := "nothing", "nothing"
			if i < len(want) {
				a = want[i]
			}
			if i < len(got) {
				b2 = got[i]
			}
			if a != b2 {
				c.Fail("%s, part %d: item %d is %.100s and not %.100s\n%x", o, k, i, b2, a, clip(b))
				return
			}
		}
		c.Count("items_compared", int64(len(want)))
	}
}
