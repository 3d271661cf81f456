package main

import (
	"fmt"
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"
)

func init() {
	register(&Check{
		ID:     "C05",
		Rule:   "A case is a random Go value (as in C02, with Perl* values, frozen values, shared, interior and cyclic pointers), with or without a user header, encoded with a random configuration; the document is read by a strict parser written from the specification and its meaning, string types, classes and reference identities compared with the value; distinct by document bytes; non-trivial: a body of at least 3 items.",
		Assume: []string{"pointers to different variables that hold the same string, slice, map or pointer data may be encoded as one reference, and are not generated"},
		Phases: []Phase{
			{Name: "values", Quick: 300000, Thor: 4000000, Run: c05Case},
			{Name: "offsets", Quick: 3000, Thor: 60000, Run: c05Offsets},
			{Name: "values-pure", Flavor: "pure", Quick: 30000, Thor: 400000, Run: c05Case},
		},
	})
}

// meaning maps a value to what a document of it means to a reader of the specification.
func meaning(cfg encCfg, x any) *V {
	m := newMapper()
	m.typed, m.noShare, m.objects = true, true, true
	m.perlRefs = cfg.Perl
	m.freeze = !cfg.NoFreeze
	v := m.of(reflect.ValueOf(x))
	if m.err != "" {
		panic(m.err)
	}
	return v
}

var c05Opt = eqOpt{PtrShare: true, UndefNil: false}

// nilUndef makes undef of nil, as Perl sees it.
func nilUndef(v *V) *V {
	seen := map[*V]bool{}
	var rec func(v *V)
	rec = func(v *V) {
		if seen[v] {
			return
		}
		seen[v] = true
		if v.K == KNil {
			v.K = KUndef
		}
		for _, x := range v.A {
			rec(x)
		}
		for _, x := range v.M {
			rec(x)
		}
	}
	rec(v)
	return v
}

// checkDoc reads b strictly and compares body and header with the values.
func checkDoc(c *Ctx, cfg encCfg, b []byte, header, x any) {
	d, err := parseDoc(b)
	if err != nil {
		c.Fail("%v: the document is not well-formed: %v\nof %T %s\n%x", cfg, err, x, dumpV(meaning(cfg, x)), clip(b))
		return
	}
	c.Count("documents_parsed", 1)
	c.Count("items", int64(len(d.items)))
	ver := cfg.Version
	if ver == 0 {
		ver = 3
	}
	if d.Version != ver {
		c.Fail("%v: version %d", cfg, d.Version)
	}
	if d.Type != 0 && d.Type != cfg.Comp {
		c.Fail("%v: document type %d", cfg, d.Type)
	}
	want := nilUndef(meaning(cfg, x))
	if df := diffV(want, evalDoc(d.Body, true), c05Opt); df != "" {
		c.Fail("%v: body: %s\nvalue    %s\ndocument %s\n%x", cfg, df, dumpV(want), dumpV(evalDoc(d.Body, true)), clip(b))
	}
	if header == nil || ver == 1 {
		if len(d.Suffix) != 0 {
			c.Fail("%v: a header without header value: %x", cfg, clip(d.Suffix))
		}
	} else {
		if d.Header == nil {
			c.Fail("%v: no header\n%x", cfg, clip(b))
			return
		}
		want := nilUndef(meaning(cfg, header))
		if df := diffV(want, evalDoc(d.Header, true), c05Opt); df != "" {
			c.Fail("%v: header: %s\nvalue    %s\ndocument %s\n%x", cfg, df, dumpV(want), dumpV(evalDoc(d.Header, true)), clip(b))
		}
		c.Count("headers", 1)
	}
	for _, n := range []*Node{d.Body, d.Header} {
		if n == nil {
			continue
		}
		walk(n, func(k *Node) {
			switch k.T {
			case tARRAY, tHASH:
				if cfg.Perl && (k.parent == nil || k.parent.T != tREFN) {
					c.Fail("%v: an array or hash at %d without a reference to it\n%x", cfg, k.pos, clip(b))
				}
			case tCOPY:
				c.Count("copies", 1)
				if cfg.NoDedup {
					c.Fail("%v: COPY with DisableDedup\n%x", cfg, clip(b))
				}
			case tREFP:
				c.Count("refp", 1)
			case tOBJF:
				c.Count("frozen", 1)
			case tOBJECT:
				c.Count("objects", 1)
			}
		})
	}
}

func c05Gen(r *Rng) *valGen {
	g := newValGen(r)
	g.share = r.Bool()
	g.perlTypes = r.P(3)
	return g
}

func c05Case(c *Ctx) {
	r := c.R
	g := c05Gen(r)
	x := g.val(0)
	cfg := randCfg(r)
	if r.P(20) {
		x = []any{TThaw{[]byte(g.str())}, x, &TThaw{[]byte("abc")}, map[string]any{"id": TThaw{}}}
	}
	var header any
	if r.P(3) {
		h := c05Gen(r)
		h.budget = r.In(1, 30)
		h.keys = g.keys
		header = h.val(0)
	}
	b, err := cfg.enc().MarshalWithHeader(header, x)
	if err != nil {
		c.Fail("%v: %v of %T %s", cfg, err, x, dumpV(meaning(cfg, x)))
		return
	}
	for k, v := range g.counts {
		c.Count(k, v)
	}
	if len(b) >= 10 {
		c.Distinct(hashStr(string(b)))
	}
	if c.Idx%5000 == 2 {
		c.Sample("%v %T %s: %x", cfg, x, dumpV(meaning(cfg, x)), clip(b))
	}
	checkDoc(c, cfg, b, header, x)
	if r.P(10) && !c.Failed() {
		b, err := sereal.Marshal(x)
		if err != nil {
			c.Fail("sereal.Marshal: %v", err)
			return
		}
		checkDoc(c, encCfg{Version: 3}, b, nil, x)
	}
}

func c05Offsets(c *Ctx) {
	r := c.R
	edge := pick(r, 1<<7, 1<<14, 1<<14, 1<<14, 1<<21)
	pad := edge - r.In(0, 400)
	if pad < 0 {
		pad = 0
	}
	p := &SInner{A: 5, B: "shared"}
	a := &[]any{1, p, nil}
	(*a)[2] = a
	x := []any{map[string]any{"early": 1, "key1": a}, SInner{A: 1, B: "x"}, string(make([]byte, pad))}
	for i := r.In(1, 40); i > 0; i-- {
		k := fmt.Sprintf("late%d", i)
		q := &[]any{i}
		x = append(x, q, map[string]any{k: i, "early": 2}, SInner{A: i, B: "y"}, p, map[string]any{k: q, "key1": a}, SOuter{Int: i, P: p})
	}
	cfg := randCfg(r)
	var h any
	if r.P(3) {
		h = x[2:]
	}
	b, err := cfg.enc().MarshalWithHeader(h, x)
	if err != nil {
		c.Fail("%v", err)
		return
	}
	c.Distinct(hashStr(string(b)))
	checkDoc(c, cfg, b, h, x)
}
