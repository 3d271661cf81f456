package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/Sereal/Sereal/Go/sereal"
)

func init() {
	register(&Check{
		ID:      "C18",
		Rule:    "go-to-perl: a random Go value (shared and cyclic pointers, Perl* values, frozen values, structs) is encoded with PerlCompat and a random configuration, with or without a header, decoded by the Perl module built from this tree, and the structure Perl then holds, dumped with its string flags, number kinds, classes, weak references and reference identities, compared with the meaning of the value. perl-to-go: a random Perl structure is built in Perl from a description, encoded by the Perl module with random options, and the document is read by the strict parser and by the Go decoder, plain and PerlCompat, and compared with the description. through-go: the document is decoded and encoded again by Go, and decoded by Perl. Distinct by document; non-trivial: at least 10 bytes.",
		Assume:  []string{"strings of Go values are valid UTF-8; Perl cannot hold others", "weak references refer to what is held elsewhere", "frozen objects return one byte string"},
		Prepare: preparePerl("plain"),
		Phases: []Phase{
			{Name: "go-to-perl", Quick: 200000, Thor: 4000000, Run: c18GoPerl, Init: c18Init, Done: perlDone},
			{Name: "perl-to-go", Quick: 200000, Thor: 4000000, Run: c18PerlGo, Init: c18Init, Done: perlDone},
		},
	})
}

func c18Init(c *Ctx) {
	var err error
	if thePerl, err = startPerl("plain", "c18.pl"); err != nil {
		panic(err)
	}
}

// ---- values on the wire ----

type wireReader struct {
	s    string
	p    int
	objs []*V
}

func (w *wireReader) byte() byte { c := w.s[w.p]; w.p++; return c }
func (w *wireReader) n() int {
	n := binary.LittleEndian.Uint32([]byte(w.s[w.p : w.p+4]))
	w.p += 4
	return int(n)
}
func (w *wireReader) u64() uint64 {
	n := binary.LittleEndian.Uint64([]byte(w.s[w.p : w.p+8]))
	w.p += 8
	return n
}
func (w *wireReader) str() string { n := w.n(); s := w.s[w.p : w.p+n]; w.p += n; return s }

func (w *wireReader) slot(v *V) *V {
	switch c := w.byte(); c {
	case 'u':
		v.K = KUndef
	case 't', 'f':
		v.K = KBool
		if c == 't' {
			v.I = 1
		}
	case 'i':
		v.K, v.I = KInt, int64(w.u64())
	case 'U':
		*v = *vUint(w.u64())
	case 'd':
		v.K, v.U = KF64, w.u64()
	case 's':
		v.K, v.S = KBytes, w.str()
	case 'S':
		v.K, v.S = KStr, w.str()
	case 'r':
		v.K, v.A = KPtr, []*V{w.referent()}
	case 'w':
		v.K, v.A = KWeak, []*V{{K: KPtr, A: []*V{w.referent()}}}
	default:
		panic(fmt.Sprintf("bad code %q from Perl", c))
	}
	return v
}

func (w *wireReader) referent() *V {
	c := w.byte()
	if c == '#' {
		return w.objs[w.n()]
	}
	v := &V{}
	w.objs = append(w.objs, v)
	class := ""
	if w.byte() == 'c' {
		class = w.str()
	}
	switch c {
	case 'A':
		v.K, v.A = KArr, make([]*V, w.n())
		for i := range v.A {
			v.A[i] = w.slot(&V{})
		}
	case 'H':
		v.K, v.M = KMap, map[string]*V{}
		for n := w.n(); n > 0; n-- {
			w.byte()
			k := w.str()
			v.M[k] = w.slot(&V{})
		}
	case 'X':
		v.K, v.S, v.S2 = KRegexp, w.str(), w.str()
	case 'V':
		w.slot(v)
	default:
		panic(fmt.Sprintf("bad kind %q from Perl", c))
	}
	v.C = class
	return v
}

type wireWriter struct {
	b    []byte
	ids  map[*V]int
	elem map[*V]elemOf // elements of arrays that are referred to
}

type elemOf struct {
	arr *V
	i   int
}

func (w *wireWriter) n(n int)      { w.b = binary.LittleEndian.AppendUint32(w.b, uint32(n)) }
func (w *wireWriter) str(s string) { w.n(len(s)); w.b = append(w.b, s...) }
func (w *wireWriter) u64(u uint64) { w.b = binary.LittleEndian.AppendUint64(w.b, u) }

func (w *wireWriter) slot(v *V) {
	put := func(c byte) { w.b = append(w.b, c) }
	switch v.K {
	case KUndef:
		put('u')
	case KBool:
		put("ft"[v.I])
	case KInt:
		put('i')
		w.u64(uint64(v.I))
	case KUint:
		put('U')
		w.u64(v.U)
	case KF64:
		put('d')
		w.u64(v.U)
	case KBytes:
		put('s')
		w.str(v.S)
	case KStr:
		put('S')
		w.str(v.S)
	case KPtr:
		put('r')
		w.referent(v.A[0])
	case KWeak:
		put('w')
		w.referent(v.A[0].A[0])
	case KFreeze:
		put('z')
		w.str(v.S)
		w.str(v.S2)
	default:
		panic("slot " + kindNames[v.K])
	}
}

func (w *wireWriter) referent(v *V) {
	if id, ok := w.ids[v]; ok {
		w.b = append(w.b, '#')
		w.n(id)
		return
	}
	w.ids[v] = len(w.ids)
	if e, ok := w.elem[v]; ok {
		w.b = append(w.b, 'E')
		w.n(w.ids[e.arr])
		w.n(e.i)
		return
	}
	k := byte('V')
	switch v.K {
	case KArr:
		k = 'A'
	case KMap:
		k = 'H'
	case KRegexp:
		k = 'X'
	}
	w.b = append(w.b, k)
	if v.C == "" {
		w.b = append(w.b, '-')
	} else {
		w.b = append(w.b, 'c')
		w.str(v.C)
	}
	switch k {
	case 'A':
		w.n(len(v.A))
		for _, x := range v.A {
			w.slot(x)
		}
	case 'H':
		w.n(len(v.M))
		for _, k := range sortedKeys(v.M) {
			if utf8.ValidString(k) && !isASCII(k) {
				w.b = append(w.b, 'S')
			} else {
				w.b = append(w.b, 's')
			}
			w.str(k)
			w.slot(v.M[k])
		}
	case 'X':
		w.str(v.S)
		w.str(v.S2)
	default:
		w.slot(v)
	}
}

// ---- the form in which both sides are compared ----

// perlForm gives classes to the referents, and the other differences of notation one form.
func perlForm(v *V) *V {
	memo := map[*V]*V{}
	var classes []func() // given at the end, when cycles are complete
	var rec func(v *V) *V
	rec = func(v *V) *V {
		if x, ok := memo[v]; ok {
			return x
		}
		n := &V{K: v.K, I: v.I, U: v.U, S: v.S, S2: v.S2, C: v.C}
		memo[v] = n
		switch v.K {
		case KNil, KUndef, KCUndef:
			n.K = KUndef
			if v.K == KCUndef {
				n.S = "canonical" // Perl has one only, so references to it are equal
			}
		case KF32:
			*n = *vF64(float64(math.Float32frombits(uint32(v.U))))
		case KRegexp:
			n.S2 = sortMods(v.S2)
		case KFreeze:
			*n = V{K: KPtr, A: []*V{{K: KBytes, S: v.S2, C: "Frozen::" + v.S}}}
		case KObj:
			x := rec(v.A[0])
			if x.K == KRegexp {
				x = &V{K: KPtr, A: []*V{x}}
			}
			*n = V{K: x.K, I: x.I, U: x.U, S: x.S, S2: x.S2, A: x.A, M: x.M}
			if x.K == KPtr {
				classes = append(classes, func() { n.A[0].C = v.S })
			}
		case KWeak:
			x := rec(v.A[0])
			n.A = []*V{x}
		case KArr, KPtr:
			n.A = make([]*V, len(v.A))
			for i, x := range v.A {
				n.A[i] = rec(x)
			}
		case KMap:
			n.M = make(map[string]*V, len(v.M))
			for k, x := range v.M {
				n.M[k] = rec(x)
			}
		}
		return n
	}
	n := rec(v)
	for _, f := range classes {
		f()
	}
	return n
}

func sortMods(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if !strings.ContainsRune("ual^", rune(s[i])) {
			b = append(b, s[i])
		}
	}
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return string(b)
}

// ---- Go writes, Perl reads ----

func c18GoPerl(c *Ctx) {
	r := c.R
	g := newValGen(r)
	g.perlOK = true
	g.share = r.Bool()
	g.perlTypes = r.P(2)
	if g.maxStr > 20000 {
		g.maxStr = 20000
	}
	x := g.val(0)
	cfg := randCfg(r)
	cfg.Perl = true
	var header any
	if cfg.Version >= 2 && r.P(4) {
		h := newValGen(r)
		h.perlOK = true
		h.budget = r.In(1, 30)
		header = h.val(0)
		if header == nil {
			header = "h"
		}
	}
	if len(g.ptrs) > 0 {
		x = []any{x, append([]any{}, g.ptrs...)}
	}
	b, err := cfg.enc().MarshalWithHeader(header, x)
	if err != nil {
		c.Fail("%v: %v of %T %s", cfg, err, x, dumpV(meaning(cfg, x)))
		return
	}

	cmd := "D"
	if header != nil {
		cmd = "H"
	}
	res, err := thePerl.call(append([]byte(cmd), b...))
	want := perlForm(meaning(cfg, x))
	if err != nil {
		c.Fail("%v: Perl does not decode the document: %v\n%s\n%x", cfg, err, dumpV(want), clip(b))
		return
	}
	w := &wireReader{s: res}
	if header != nil {
		got := w.slot(&V{})
		w.objs = nil
		if df := diffV(perlForm(meaning(cfg, header)), perlForm(got), c18Opt); df != "" {
			c.Fail("%v: header: %s\nGo   %s\nPerl %s\n%x", cfg, df, dumpV(perlForm(meaning(cfg, header))), dumpV(got), clip(b))
		}
		c.Count("headers", 1)
	}
	got := perlForm(w.slot(&V{}))
	if w.p != len(res) {
		panic("rest of the dump")
	}
	if df := diffV(want, got, c18Opt); df != "" {
		c.Fail("%v: %s\nGo   %s\nPerl %s\n%x", cfg, df, dumpV(want), dumpV(got), clip(b))
	}
	c18Note(c, b, got, "go")
}

var c18Opt = eqOpt{PtrShare: true}

func c18Note(c *Ctx, b []byte, v *V, from string) {
	if len(b) >= 10 {
		c.Distinct(hashStr(string(b)))
	}
	c.Count("documents_from_"+from, 1)
	seen := map[*V]bool{}
	var rec func(v *V)
	rec = func(v *V) {
		if seen[v] {
			if v.K == KArr || v.K == KMap {
				c.Count("shared_from_"+from, 1)
			}
			return
		}
		seen[v] = true
		c.Count(kindNames[v.K]+"_from_"+from, 1)
		if v.C != "" {
			c.Count("classes_from_"+from, 1)
		}
		for _, x := range v.A {
			rec(x)
		}
		for _, x := range v.M {
			rec(x)
		}
	}
	rec(v)
}

// ---- Perl writes, Go reads ----

// perlGen makes descriptions of Perl structures.
type perlGen struct {
	r      *Rng
	budget int
	keys   []string
	refs   []*V // referents that may be referred to again
	elem   map[*V]elemOf
	freeze bool
	alias  bool // strings may become one scalar, so references to scalars mean less
	max    int

	lossy bool // Go does not keep all of it: classes that are not ASCII, keys that are not UTF-8, weak references to scalars
}

func (g *perlGen) text() string {
	if len(g.keys) > 0 && g.r.P(3) {
		return pick(g.r, g.keys...)
	}
	s := strings.ToValidUTF8(randText(g.r, g.r.Len(g.max)), "?")
	if g.r.P(2) {
		g.keys = append(g.keys, s)
	}
	return s
}

func (g *perlGen) scalar() *V {
	r := g.r
	switch r.N(12) {
	case 0:
		return &V{K: KUndef}
	case 1, 2, 3:
		return vInt(r.Int64())
	case 4:
		return vUint(r.Uint64())
	case 5, 6:
		return vF64(r.Float64())
	case 7:
		return vF64(float64(r.Float32()))
	case 8:
		return vBytes(string(r.Bytes(r.Len(g.max))))
	case 9:
		return vBytes(g.text())
	}
	return vStr(g.text())
}

func (g *perlGen) slot(depth int) *V {
	r := g.r
	g.budget--
	if g.budget < 0 || depth > 25 || r.P(3) {
		return g.scalar()
	}
	if g.freeze && r.P(8) {
		return &V{K: KFreeze, S: pick(r, "Fz", "Fz::Long::Name", "Fz\u00e9\u20ac"), S2: string(r.Bytes(r.Len(60)))}
	}
	if len(g.refs) > 0 && r.P(6) {
		x := &V{K: KPtr, A: []*V{pick(r, g.refs...)}}
		if r.P(3) {
			if k := x.A[0].K; k != KArr && k != KMap {
				g.lossy = true
			}
			return &V{K: KWeak, A: []*V{x}}
		}
		return x
	}
	class := ""
	if r.P(4) {
		class = pick(r, "Foo", "Foo::Bar", "A", "main", "Cl\u00e4ss\u20ac", strings.Repeat("LongClass", 6))
		g.lossy = g.lossy || !isASCII(class)
	}
	n := r.Len(20)
	if r.P(30) {
		n = r.Len(300)
	}
	if n > g.budget {
		n = r.N(g.budget + 1)
	}
	v := &V{C: class}
	p := &V{K: KPtr, A: []*V{v}}
	switch r.N(8) {
	case 0, 1, 2:
		v.K = KArr
		g.refs = append(g.refs, v)
		v.A = make([]*V, n)
		for i := range v.A {
			if i > 0 && r.P(15) {
				// a reference to an earlier element
				j := r.N(i)
				if x := v.A[j]; x.K != KPtr && x.K != KWeak && x.K != KFreeze {
					g.elem[x] = elemOf{v, j}
					v.A[i] = &V{K: KPtr, A: []*V{x}}
					continue
				}
			}
			v.A[i] = g.slot(depth + 1)
		}
	case 3, 4, 5:
		v.K, v.M = KMap, map[string]*V{}
		same := map[string]bool{}
		g.refs = append(g.refs, v)
		for ; n > 0; n-- {
			k := g.text()
			if r.P(10) {
				k = string(r.Bytes(r.N(10)))
				if utf8.ValidString(k) && !isASCII(k) {
					k = "x"
				}
			}
			if p := perlKey(k); !same[p] {
				same[p] = true
				g.lossy = g.lossy || !utf8.ValidString(k)
				v.M[k] = g.slot(depth + 1)
			}
		}
	case 6:
		if r.P(2) {
			*v = V{K: KRegexp, S: pick(r, "", "abc", "^a+(b|c)*?$", "\\d{2,3}", "a/b", strings.Repeat("long", 20)), S2: pick(r, "", "i", "ms", "imsx", "x"), C: "Regexp"}
			if r.P(3) {
				v.C = "My::Regexp"
			}
			return p
		}
		fallthrough
	default:
		if g.alias {
			class = ""
		}
		x := g.slot(depth + 1)
		*v = *x
		v.C = class
		if x.K == KFreeze {
			v.C = ""
		}
		if v.C == "" || v.K == KPtr {
			g.refs = append(g.refs, v)
		}
	}
	return p
}

// perlKey is the characters of a key: bytes are characters below 256 in Perl.
func perlKey(k string) string {
	if utf8.ValidString(k) {
		return k
	}
	var b []rune
	for i := 0; i < len(k); i++ {
		b = append(b, rune(k[i]))
	}
	return string(b)
}

func newPerlGen(r *Rng) *perlGen {
	g := &perlGen{r: r, elem: map[*V]elemOf{}, max: 60}
	switch r.N(10) {
	case 0:
		g.budget = 1
	case 1:
		g.budget = r.In(100, 600)
	default:
		g.budget = r.In(2, 60)
	}
	if r.P(10) {
		g.max = 20000
	}
	return g
}

func c18PerlGo(c *Ctx) {
	r := c.R
	g := newPerlGen(r)
	version := r.In(1, 4)
	opts := map[string]string{"protocol_version": fmt.Sprint(version)}
	comp := 0
	if r.P(2) {
		comp = r.In(1, []int{0, 1, 1, 2, 3}[version])
		opts["compress"] = fmt.Sprint(comp)
		opts["compress_threshold"] = pick(r, "0", "1", "10", "1024")
		if r.Bool() {
			opts["compress_level"] = fmt.Sprint(r.In(1, 9))
		}
	}
	for _, o := range []string{"dedupe_strings", "aliased_dedupe_strings", "no_shared_hashkeys", "canonical_refs", "canonical"} {
		if r.P(4) {
			opts[o] = "1"
		}
	}
	if r.P(4) {
		opts["sort_keys"] = pick(r, "1", "2", "3")
	}
	if r.P(4) {
		opts["freeze_callbacks"] = "1"
		g.freeze = true
	}
	g.alias = opts["aliased_dedupe_strings"] != ""
	want := g.slot(0)
	w := &wireWriter{elem: g.elem, ids: map[*V]int{}}
	w.b = append(w.b, 'X')
	w.n(len(opts))
	for _, k := range sortedKeys(opts) {
		w.str(k)
		w.str(opts[k])
	}
	var hwant *V
	if version > 1 && r.P(4) {
		hg := newPerlGen(r)
		hg.budget = r.In(1, 20)
		hg.alias = g.alias
		hwant = hg.slot(0)
		if hwant.K == KUndef {
			hwant = vInt(1) // an undef is no header
		}
		w.b = append(w.b, 'h')
		w.elem = hg.elem
		w.slot(hwant)
		w.ids, w.elem = map[*V]int{}, g.elem
	} else {
		w.b = append(w.b, '-')
	}
	w.slot(want)
	res, err := thePerl.call(w.b)
	dedupe := opts["dedupe_strings"] != "" || opts["aliased_dedupe_strings"] != ""
	if err != nil {
		c.Fail("%v: Perl does not encode: %v\n%s", opts, err, dumpV(want))
		return
	}
	b := []byte(res)
	what := fmt.Sprintf("%v", opts)
	c18Read(c, what, b, perlForm(want), hwant, dedupe, g.alias, !g.freeze && !g.lossy)
	c18Note(c, b, want, "perl")
	c.Count(fmt.Sprintf("perl_v%d", version), 1)
	if c.Idx%5000 == 3 {
		c.Sample("%v %s: %x", opts, dumpV(want), clip(b))
	}
}

func c18Read(c *Ctx, what string, b []byte, want, hwant *V, dedupe, alias, through bool) {
	d, err := parseDoc(b)
	if err != nil {
		c.Fail("%s: the document of Perl is not well-formed: %v\n%s\n%x", what, err, dumpV(want), clip(b))
		return
	}
	pairs := []struct {
		name string
		want *V
		node *Node
	}{{"body", want, d.Body}}
	if hwant != nil {
		pairs = append(pairs, struct {
			name string
			want *V
			node *Node
		}{"header", perlForm(hwant), d.Header})
	}
	for _, p := range pairs {
		if p.node == nil {
			c.Fail("%s: no %s\n%x", what, p.name, clip(b))
			return
		}
		o := c18Opt
		o.ASCIIBytes = dedupe
		if alias {
			o.PtrShare, o.Share = false, true
		}
		if df := diffV(p.want, perlForm(evalDoc(p.node, true)), o); df != "" {
			c.Fail("%s: %s in the document: %s\nPerl  %s\nspec  %s\n%x", what, p.name, df, dumpV(p.want), dumpV(perlForm(evalDoc(p.node, true))), clip(b))
			return
		}
		for _, perl := range []bool{false, true} {
			dec := &sereal.Decoder{PerlCompat: perl}
			var x any
			var err error
			if p.name == "body" {
				err = dec.Unmarshal(b, &x)
			} else {
				err = dec.UnmarshalHeader(b, &x)
			}
			if err != nil {
				c.Fail("%s: Go does not decode the %s (PerlCompat %v): %v\n%s\n%x", what, p.name, perl, err, dumpV(p.want), clip(b))
				return
			}
			o := eqOpt{CollapsePtr: !perl, Share: true, ASCIIBytes: dedupe}
			ww, got := p.want, fromGo(x)
			if perl {
				got = perlForm(got)
			} else {
				ww, got = plainForm(ww), plainForm(got)
			}
			if df := diffV(ww, got, o); df != "" {
				c.Fail("%s: %s (PerlCompat %v): %s\nPerl %s\nGo   %s\n%x", what, p.name, perl, df, dumpV(ww), dumpV(got), clip(b))
				return
			}
			c.Count("go_decodes", 1)
			if perl && p.name == "body" && through {
				cfg := randCfg(c.R)
				cfg.Perl = true
				b2, err := cfg.enc().Marshal(x)
				if err != nil {
					c.Fail("%s: %v: Go does not encode what it decoded: %v\n%s\n%x", what, cfg, err, dumpV(p.want), clip(b))
					return
				}
				res, err := thePerl.call(append([]byte("D"), b2...))
				if err != nil {
					c.Fail("%s: %v: Perl does not decode what Go made of its document: %v\n%s\n%x\n%x", what, cfg, err, dumpV(p.want), clip(b), clip(b2))
					return
				}
				got := perlForm((&wireReader{s: res}).slot(&V{}))
				if df := diffV(p.want, got, o); df != "" {
					c.Fail("%s: %v: %s after going through Go\nPerl %s\nthen %s\n%x\n%x", what, cfg, df, dumpV(p.want), dumpV(got), clip(b), clip(b2))
					return
				}
				c.Count("through_go", 1)
			}
		}
	}
}

// plainForm is what is left of a structure without classes and weak references.
func plainForm(v *V) *V {
	v = perlForm(v)
	seen := map[*V]bool{}
	var rec func(v *V)
	rec = func(v *V) {
		if seen[v] {
			return
		}
		seen[v] = true
		if v.K == KWeak {
			v.K = KPtr
		}
		if !strings.HasPrefix(v.C, "Frozen::") {
			v.C = ""
		}
		for _, x := range v.A {
			rec(x)
		}
		for _, x := range v.M {
			rec(x)
		}
	}
	rec(v)
	return v
}
