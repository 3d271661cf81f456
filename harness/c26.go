package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
)

func init() {
	register(&Check{
		ID:      "C26",
		Rule:    "A case is a random well-formed document of version 1 to 4 in all legal forms that the Java implementation knows (padding, track bits, wide varints, every string, number and container tag, REFP, ALIAS, COPY, WEAKEN, regexps, objects, user headers, compression), read by the Java code built from this tree. tokens: header and body are iterated over with TokenDecoder, in any order and several times, some only in part, and every token with its offset, track offset, value, size and whether it is a key is compared with those of the tree the document was written from; COPYs are followed or not. values: Decoder with six options gives the values of header and body, compared as graphs. Decoders are used again for further documents, which stand alone or within a larger array. Distinct by bytes; non-trivial: at least 3 items.",
		Assume:  []string{"the evaluator and writer of the harness state the specification", "the snappy and zstd libraries found in this sandbox"},
		Prepare: prepareJava,
		Phases: []Phase{
			{Name: "tokens", Quick: 40000, Thor: 1500000, Run: c26Tokens, Init: perlInit("java", ""), Done: perlDone},
			{Name: "values", Quick: 40000, Thor: 1500000, Run: c26Values, Init: perlInit("java", ""), Done: perlDone},
			{Name: "damaged", Quick: 40000, Thor: 1500000, Run: c26Damaged, Init: perlInit("java", ""), Done: perlDone},
		},
	})
}

func javaDocGen(g *docGen) {
	g.java, g.perlReal, g.freeze = true, true, false
}

// javaTokens writes the tokens of an item.
type javaTokens struct {
	s   []string
	sub bool
}

func (t *javaTokens) add(n *Node, key, track bool, f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	name, rest, _ := strings.Cut(s, " ")
	s = fmt.Sprintf("%s @%d", name, n.Off)
	if track && n.Track {
		s += fmt.Sprintf(" track %d", n.Off)
	}
	if key {
		s += " key"
	}
	if rest != "" {
		s += " " + rest
	}
	t.s = append(t.s, s)
}

func (t *javaTokens) end(s string) { t.s = append(t.s, s) }

func javaStr(n *Node) string {
	for n.T == tCOPY {
		n = n.Target
	}
	if n.T == tUTF8 {
		return fmt.Sprintf("u %x", n.S)
	}
	return fmt.Sprintf("b %x", n.S)
}

func (t *javaTokens) item(n *Node, key bool) {
	add := func(f string, a ...any) { t.add(n, key, true, f, a...) }
	kids := func() {
		for i, k := range n.Kids {
			t.item(k, (n.T == tHASH || n.T == tHREF) && i%2 == 0)
		}
	}
	switch n.T {
	case tPOS, tNEG, tZIGZAG:
		add("LONG %d", n.I)
	case tVARINT:
		if n.U > math.MaxInt64 {
			add("UNSIGNED_LONG %d", n.U)
		} else {
			add("LONG %d", n.U)
		}
	case tFLOAT:
		u := uint32(n.U)
		if isNaN32(n.U) {
			u = 0x7fc00000
		}
		add("FLOAT %x", u)
	case tDOUBLE:
		u := n.U
		if f := math.Float64frombits(u); f != f {
			u = 0x7ff8000000000000
		}
		add("DOUBLE %x", u)
	case tTRUE, tFALSE, tUNDEF, tCUNDEF:
		add("%s", tagName(n.T))
	case tBINARY, tSHORT:
		add("BINARY %s", javaStr(n))
	case tUTF8:
		add("UTF8 %s", javaStr(n))
	case tARRAY:
		add("ARRAY_START %d", len(n.Kids))
		kids()
		t.end("ARRAY_END")
	case tHASH:
		add("HASH_START %d", len(n.Kids))
		kids()
		t.end("HASH_END")
	case tAREF:
		add("REFN")
		t.add(n, false, false, "ARRAY_START %d", len(n.Kids))
		kids()
		t.end("ARRAY_END")
	case tHREF:
		add("REFN")
		t.add(n, false, false, "HASH_START %d", len(n.Kids))
		kids()
		t.end("HASH_END")
	case tREFN, tWEAKEN:
		add("%s", tagName(n.T))
		t.item(n.Kids[0], key)
	case tREFP, tALIAS, tCOPY:
		add("%s %d", tagName(n.T), n.Target.Off)
		if n.T == tCOPY && t.sub {
			t.item(n.Target, key)
			t.end("SUBDECODE_END")
		}
	case tREGEXP:
		_, f, _ := strings.Cut(javaStr(n.Kids[1]), " ")
		add("REGEXP %s f %s", javaStr(n.Kids[0]), f)
	case tOBJECT, tOBJV:
		c := n.Target
		if n.T == tOBJECT {
			c = n.Kids[0]
		}
		add("OBJECT_START %s", javaStr(c))
		t.item(n.Kids[len(n.Kids)-1], false)
		t.end("OBJECT_END")
	default:
		panic("no Java token")
	}
}

// javaDoc makes a document and what tells the driver where it stands.
func javaDoc(c *Ctx, w *wireWriter, opt func(g *docGen)) (*Doc, []byte, string) {
	r := c.R
	version := r.In(1, 4)
	d, g := genDoc(r, version, func(g *docGen) {
		javaDocGen(g)
		if opt != nil {
			opt(g)
		}
	})
	d.Type = javaType(r, version)
	b := d.bytes(r)
	start, behind := 0, 0
	if r.P(3) {
		start, behind = pick(r, 0, 1, 7, 100), pick(r, 0, 1, 100)
	}
	w.n(r.N(3) / 2) // a new decoder
	w.str(string(b))
	w.n(start)
	w.n(behind)
	cnt := 0
	walk(d.Body, func(*Node) { cnt++ })
	if cnt >= 3 {
		c.Distinct(hashStr(string(b)))
	}
	tagCounts(c, d.Body)
	for k, v := range g.counts {
		c.Count(k, v)
	}
	said := fmt.Sprintf("v%d type %d, %d bytes from %d, %d behind", version, d.Type, len(b), start, behind)
	if c.Idx%5000 == 0 {
		c.Sample("%s: %s", said, dumpV(evalDoc(d.Body, true)))
	}
	return d, b, said
}

func headerSize(d *Doc) int {
	if d.Header == nil {
		return 0
	}
	w := docWriter{b: []byte{1}}
	w.node(d.Header)
	return len(w.b) - 1 + len(d.HeadTail)
}

func c26Tokens(c *Ctx) {
	r := c.R
	w := &wireWriter{b: []byte{'T'}}
	d, b, said := javaDoc(c, w, nil)
	type op struct {
		what byte
		arg  int
	}
	var ops []op
	for i := r.In(1, 4); i > 0; i-- {
		o := op{what: pick(r, byte('b'), 'b', 'h', 'n')}
		if o.what == 'h' && d.Header == nil {
			o.what = 'n'
		}
		if i == 1 {
			o.what = 'b'
		}
		if o.what != 'n' {
			o.arg = r.N(2)
			if i > 1 && r.P(3) {
				o.arg |= r.In(1, 6) << 1
			}
		}
		ops = append(ops, o)
	}
	w.n(len(ops))
	for _, o := range ops {
		w.b = append(w.b, o.what)
		w.n(o.arg)
	}
	res, err := thePerl.call(w.b)
	if err != nil {
		c.Fail("%s, %q: %v\n%x", said, ops, err, clip(b))
		return
	}
	rd := &wireReader{s: res}
	for i, o := range ops {
		if o.what == 'n' {
			hs := headerSize(d)
			has := 0
			if hs > 0 {
				has = 1
			}
			if gh, gs := rd.n(), rd.n(); gh != has || gs != hs {
				c.Fail("%s: hasHeader %d and headerSize %d, not %d and %d\n%x", said, gh, gs, has, hs, clip(b))
				return
			}
			continue
		}
		t := &javaTokens{sub: o.arg&1 == 1}
		root := d.Body
		if o.what == 'h' {
			root = d.Header
			d.head() // offsets
			c.Count("headers", 1)
		}
		t.item(root, false)
		t.end("END")
		want := t.s
		if n := o.arg >> 1; n > 0 && n < len(want) {
			want = want[:n]
			c.Count("in_part", 1)
		}
		got := strings.Split(strings.TrimSuffix(rd.str(), "\n"), "\n")
		c.Count("tokens_compared", int64(len(want)))
		for k := range want {
			g := "nothing"
			if k < len(got) {
				g = got[k]
			}
			if g != want[k] {
				c.Fail("%s, step %d of %q: token %d is %s and not %s\n%x", said, i, ops, k, g, want[k], clip(b))
				return
			}
		}
		if len(got) > len(want) {
			c.Fail("%s, step %d of %q: tokens behind the last\n%x", said, i, ops, clip(b))
			return
		}
	}
}

// options of the decoder
const (
	jRefs = 1 << iota
	jAliases
	jUndef
	jLatin1
	jStrip
	jArrays
)

// javaReader reads values as the driver writes them.
type javaReader struct {
	wireReader
	byID    []*V
	aliases int
}

func (rd *javaReader) value() *V {
	switch t := rd.byte(); t {
	case 'n':
		return &V{K: KNil}
	case 'c':
		return &V{K: KCUndef}
	case 'u':
		return &V{K: KUndef}
	case 'i':
		i, err := strconv.ParseInt(rd.str(), 10, 64)
		if err != nil {
			panic(err)
		}
		return vInt(i)
	case 'I':
		i, _ := new(big.Int).SetString(rd.str(), 10)
		if !i.IsUint64() || i.Uint64() <= math.MaxInt64 {
			return &V{K: KUnknown, S: "BigInteger " + i.String()}
		}
		return vUint(i.Uint64())
	case 'f':
		u, _ := strconv.ParseUint(rd.str(), 16, 32)
		return &V{K: KF32, U: u}
	case 'd':
		u, _ := strconv.ParseUint(rd.str(), 16, 64)
		return &V{K: KF64, U: u}
	case 't', 'F':
		return vBool(t == 't')
	case 'b':
		return vBytes(rd.str())
	case 's':
		return vStr(rd.str())
	case 'r':
		p := rd.str()
		return &V{K: KRegexp, S: p, S2: rd.str()}
	case 'a':
		v := &V{K: KArr}
		rd.byID = append(rd.byID, v)
		v.A = make([]*V, rd.n())
		for i := range v.A {
			v.A[i] = rd.value()
		}
		return v
	case 'm':
		v := &V{K: KMap, M: map[string]*V{}}
		rd.byID = append(rd.byID, v)
		n := rd.n()
		for i := 0; i < n; i++ {
			k := rd.str()
			v.M[k] = rd.value()
		}
		return v
	case 'o':
		v := &V{K: KObj}
		rd.byID = append(rd.byID, v)
		v.S = rd.str()
		v.A = []*V{rd.value()}
		return v
	case 'R':
		v := &V{K: KPtr, A: []*V{nil}}
		rd.byID = append(rd.byID, v)
		v.A[0] = rd.value()
		return v
	case 'A':
		rd.aliases++
		return rd.value()
	case 'w':
		return &V{K: KWeak, A: []*V{rd.value()}}
	case '^':
		return rd.byID[rd.n()]
	default:
		return &V{K: KUnknown, S: fmt.Sprintf("%q", t)}
	}
}

func c26Values(c *Ctx) {
	r := c.R
	flags := pick(r, 0, 0, jRefs, jRefs|jAliases, r.N(64))
	w := &wireWriter{b: []byte{'D'}}
	w.n(flags)
	d, b, said := javaDoc(c, w, func(g *docGen) { g.javaFlags = flags + 1 })
	ops := pick(r, "b", "hb", "bh", "nhbn", "hhb", "bhn", "nb")
	if d.Header == nil {
		ops = strings.ReplaceAll(ops, "h", "")
	}
	w.n(len(ops))
	w.b = append(w.b, ops...)
	said = fmt.Sprintf("%s, options %06b, %s", said, flags, ops)
	res, err := thePerl.call(w.b)
	if err != nil {
		c.Fail("%s: %v\n%s\n%x", said, err, dumpV(evalDoc(d.Body, true)), clip(b))
		return
	}
	rd := &javaReader{wireReader: wireReader{s: res}}
	for _, o := range ops {
		if o == 'n' {
			hs := headerSize(d)
			has := 0
			if hs > 0 {
				has = 1
			}
			if gh, gs := rd.n(), rd.n(); gh != has || gs != hs {
				c.Fail("%s: hasHeader %d and headerSize %d, not %d and %d\n%x", said, gh, gs, has, hs, clip(b))
				return
			}
			continue
		}
		root := d.Body
		if o == 'h' {
			root = d.Header
			c.Count("headers", 1)
		}
		want := (&evalCtx{perl: true, chars: true, nodes: map[*Node]*V{}}).val(root)
		rd.byID = nil
		got := rd.value()
		eo := eqOpt{CollapsePtr: flags&jRefs == 0, Share: true, UndefNil: flags&jUndef == 0}
		if flags&jStrip != 0 {
			want = stripObjects(want, map[*V]*V{})
		}
		if df := diffV(want, got, eo); df != "" {
			c.Fail("%s: %s\nwant %s\ngot  %s\n%x", said, df, dumpV(want), dumpV(got), clip(b))
			return
		}
		c.Count("values_compared", int64(sizeV(want)))
		c.Count("aliases_wrapped", int64(rd.aliases))
	}
}

// stripObjects takes the classes away.
func stripObjects(v *V, done map[*V]*V) *V {
	if v == nil {
		return v
	}
	for v.K == KObj {
		v = v.A[0]
	}
	if x, ok := done[v]; ok {
		return x
	}
	x := *v
	done[v] = &x
	x.A = nil
	for _, k := range v.A {
		x.A = append(x.A, stripObjects(k, done))
	}
	if v.M != nil {
		x.M = map[string]*V{}
		for k, y := range v.M {
			x.M[k] = stripObjects(y, done)
		}
	}
	return &x
}

func c26Damaged(c *Ctx) {
	r := c.R
	w := &wireWriter{b: []byte{'M'}}
	flags := pick(r, 0, 0, jRefs, jRefs|jAliases, r.N(64))
	w.n(flags)
	version := r.In(1, 4)
	d, _ := genDoc(r, version, javaDocGen)
	d.Type = javaType(r, version)
	b := d.bytes(r)
	cut := false
	if r.P(3) {
		cut = true
		at := len(d.head()) - r.N(2)
		if d.Type == 3 || d.Type == 1 {
			at = len(b) // what is missing of the compressed may not matter
		}
		if at < len(b) {
			b = b[:r.In(at, len(b)-1)]
		} else {
			cut = false
		}
	} else if d.Type != 0 && r.P(3) {
		// damaged before it is compressed
		raw, at := d.raw()
		m := mutate(r, raw, at)
		if len(m) > at {
			b = append(append([]byte{}, b[:len(d.head())]...), compressBody(r, d.Type, m[at:])...)
		}
	} else if r.P(10) {
		b = mutate(r, b, 0)
	} else if r.Bool() {
		b = tagMutate(r, b, 5)
	} else {
		b = mutate(r, b, 5)
	}
	w.str(string(b))
	for k := 0; k < 4; k++ {
		for i := 0; i < 3; i++ {
			n := [2]int{}
			if i > 0 {
				n = [2]int{r.N(20), r.N(40)}
			}
			w.n(n[0])
			w.n(n[1])
			w.str(pick(r, "\x00", "\xff", "\x01", "\x60", "\x25", "=srl\x04\x00\x25", "\x80\x01"))
		}
	}
	res, err := thePerl.call(w.b)
	if err != nil {
		c.Fail("%v\nv%d type %d, options %06b\n%x", err, version, d.Type, flags, clip(b))
		return
	}
	rd := &wireReader{s: res}
	c.Distinct(hashStr(string(b)))
	for k := 0; k < 4; k++ {
		s := rd.str()
		if cut && k%2 == 0 && s != "refused" {
			c.Fail("a document cut off is read (%d: %s)\nv%d type %d, options %06b\n%x", k, s, version, d.Type, flags, clip(b))
			return
		}
		f, _, _ := strings.Cut(s, " ")
		c.Count("outcome_"+f, 1)
	}
	if cut {
		c.Count("cut", 1)
	}
}
