package main

import (
	"bytes"
	"fmt"

	"github.com/Sereal/Sereal/Go/sereal"
)

func init() {
	register(&Check{
		ID:     "C11",
		Rule:   "A case is a merger with a random configuration (version 2, 3 or default, top-level element, flat or not, string dedup, compressor and threshold, size hint) and a history of 0 to 8 well-formed documents (0 to 400 small ones in the phase long) of all versions and compressions, generated in all legal forms or written by the encoder; the result is read by a strict parser and compared item by item, with string types (keys included), classes and references, and decoded; distinct by the merged bytes; non-trivial: at least 2 documents.",
		Assume: []string{"documents to merge have no COPY of containers when strings are deduplicated, no PADs before a top-level array that is flattened, and no reference to it"},
		Phases: []Phase{
			{Name: "merge", Quick: 60000, Thor: 1500000, Run: c11Case},
			{Name: "long", Quick: 600, Thor: 12000, Run: c11Long},
			{Name: "merge-pure", Flavor: "pure", Quick: 6000, Thor: 150000, Run: c11Case},
			{Name: "merge-asan", Flavor: "asan", Quick: 5000, Thor: 150000, Run: c11Case},
		},
	})
}

type mergeCfg struct {
	Kind      int // index of mergerMakers
	ArrayRef  bool
	Flat      bool
	Dedupe    bool
	Comp      int
	Level     int
	Threshold int
	Expected  uint
}

func (m mergeCfg) String() string {
	type t mergeCfg
	return fmt.Sprintf("%+v", t(m))
}

func (m mergeCfg) version() int {
	if m.Kind == 1 {
		return 2
	}
	return 3
}

func randMergeCfg(r *Rng) mergeCfg {
	m := mergeCfg{Kind: r.N(3), ArrayRef: r.Bool(), Flat: r.Bool(), Dedupe: r.Bool()}
	if r.P(3) {
		m.Comp = 2
		if m.version() >= 3 && r.Bool() {
			m.Comp, m.Level = 3, pick(r, 0, -1, 1, 6, 9)
		}
	}
	m.Threshold = pick(r, 0, 1, 10, 100, 1024, 1<<20)
	if r.P(3) {
		m.Expected = uint(pick(r, 1, 5, 6, 7, 50, 5000, 100000))
	}
	return m
}

func (m mergeCfg) merger() *sereal.Merger {
	g := mergerMakers[m.Kind]()
	g.TopLevelElement = sereal.TopLevelArray
	if m.ArrayRef {
		g.TopLevelElement = sereal.TopLevelArrayRef
	}
	g.KeepFlat = m.Flat
	g.DedupeStrings = m.Dedupe
	switch m.Comp {
	case 2:
		g.Compression = sereal.SnappyCompressor{Incremental: true}
	case 3:
		g.Compression = sereal.ZlibCompressor{Level: m.Level}
	}
	g.CompressionThreshold = m.Threshold
	g.ExpectedSize = m.Expected
	return g
}

// flatKids says which elements the merger takes from a document.
func (m mergeCfg) flatKids(n *Node) ([]*Node, bool) {
	if m.Flat {
		switch {
		case !m.ArrayRef && n.T == tARRAY:
			return n.Kids, true
		case m.ArrayRef && n.T == tREFN && n.Kids[0].T == tARRAY:
			return n.Kids[0].Kids, true
		case m.ArrayRef && n.T == tAREF:
			return n.Kids, true
		}
	}
	return []*Node{n}, false
}

// mergeable says whether the limits of the merger allow the document.
func (m mergeCfg) mergeable(n *Node) bool {
	ok := true
	targets := map[*Node]bool{}
	walk(n, func(k *Node) {
		if k.Target != nil {
			targets[k.Target] = true
			if k.T == tCOPY && m.Dedupe && !isScalar(k.Target.T) {
				ok = false
			}
		}
	})
	if kids, flat := m.flatKids(n); flat {
		_ = kids
		if n.Pads > 0 || targets[n] {
			ok = false
		}
		if n.T == tREFN && (n.Kids[0].Pads > 0 || targets[n.Kids[0]]) {
			ok = false
		}
	}
	return ok
}

// mergeInput makes a document to merge; n is its root.
func (m mergeCfg) mergeInput(c *Ctx, budget int) (b []byte, n *Node, desc string) {
	r := c.R
	for try := 0; try < 20; try++ {
		if r.P(4) {
			// encoder output
			g := newValGen(r)
			g.share, g.perlTypes = r.Bool(), r.P(3)
			if budget > 0 {
				g.budget, g.maxStr = budget, 100
			}
			cfg := randCfg(r)
			x := g.val(0)
			if r.P(3) {
				x = []any{x, "id", []byte("id"), g.val(1)}
			}
			if cfg.Perl && r.Bool() {
				x = &[]any{x}
			}
			eb, err := cfg.enc().MarshalWithHeader(pick[any](r, nil, nil, nil, "header"), x)
			if err != nil {
				c.Fail("encoder: %v", err)
				return nil, nil, ""
			}
			d, err := parseDoc(eb)
			if err != nil {
				c.Fail("encoder output: %v", err)
				return nil, nil, ""
			}
			if m.mergeable(d.Body) {
				return eb, d.Body, "encoder " + cfg.String()
			}
			continue
		}
		v := r.In(1, 4)
		d, _ := genDoc(r, v, func(g *docGen) {
			g.perlish = r.P(3)
			if budget > 0 {
				g.budget, g.maxStr = budget, 100
			}
		})
		d.Type = docTypeFor(r, v)
		if (c.Phase == "merge-pure" || c.Phase == "history-pure") && d.Type == 4 {
			d.Type = 3
		}
		if !m.mergeable(d.Body) {
			continue
		}
		return d.bytes(r), d.Body, fmt.Sprintf("v%d type %d", v, d.Type)
	}
	d := &Doc{Version: 3, Body: &Node{T: tPOS, I: 1}}
	return d.bytes(r), d.Body, "one"
}

// mergedItems finds the top-level array of a merged document.
func (m mergeCfg) mergedItems(c *Ctx, out []byte) []*Node {
	d, err := parseDoc(out)
	if err != nil {
		c.Fail("%v: the merged document is not well-formed: %v\n%x", m, err, clip(out))
		return nil
	}
	c.Count("merged_items", int64(len(d.items)))
	if d.Version != m.version() || len(d.Suffix) != 0 {
		c.Fail("%v: version %d, header %x", m, d.Version, d.Suffix)
		return nil
	}
	if d.Type != 0 && d.Type != m.Comp {
		c.Fail("%v: document type %d", m, d.Type)
		return nil
	}
	n := d.Body
	if m.ArrayRef {
		if n.T != tREFN {
			c.Fail("%v: top-level tag %#x", m, n.T)
			return nil
		}
		n = n.Kids[0]
	}
	if n.T != tARRAY {
		c.Fail("%v: top-level tag %#x", m, n.T)
		return nil
	}
	return n.Kids
}

func evalList(nodes []*Node, own func(i int) *evalCtx) *V {
	v := &V{K: KArr}
	for i, n := range nodes {
		v.A = append(v.A, own(i).val(n))
	}
	return v
}

func newTyped() *evalCtx { return &evalCtx{perl: true, ktype: true, nodes: map[*Node]*V{}} }

func c11Case(c *Ctx) { c11Run(c, c.R.Len(8), 0) }

func c11Long(c *Ctx) { c11Run(c, c.R.In(20, 400), c.R.In(1, 12)) }

func c11Run(c *Ctx, ndocs, budget int) {
	r := c.R
	m := randMergeCfg(r)
	mg := m.merger()
	want := &V{K: KArr}
	wantPlain := &V{K: KArr}
	wantPerl := &V{K: KArr}
	var descs []string
	var inputs [][]byte
	for i := 0; i < ndocs; i++ {
		b, n, desc := m.mergeInput(c, budget)
		if c.Failed() {
			return
		}
		orig := append([]byte{}, b...)
		kids, _ := m.flatKids(n)
		cnt, err := mg.Append(b)
		if err != nil {
			c.Fail("%v: Append of document %d: %v\n%s %s\n%x", m, i, err, desc, dumpV(evalTyped(n)), clip(b))
			return
		}
		if cnt != len(kids) {
			c.Fail("%v: Append of document %d returned %d, it has %d\n%x", m, i, cnt, len(kids), clip(b))
			return
		}
		if !bytes.Equal(b, orig) {
			c.Fail("%v: Append modified its input\n%x", m, clip(orig))
			return
		}
		// later use of the buffer must not matter
		for j := range b {
			b[j] = 0xEE
		}
		inputs = append(inputs, orig)
		descs = append(descs, desc)
		et, ep, eq := newTyped(), &evalCtx{nodes: map[*Node]*V{}}, &evalCtx{perl: true, nodes: map[*Node]*V{}}
		// the items of a flattened array may refer to each other only
		for _, k := range kids {
			want.A = append(want.A, et.val(k))
			wantPlain.A = append(wantPlain.A, ep.val(k))
			wantPerl.A = append(wantPerl.A, eq.val(k))
		}
		c.Count("appended", 1)
		c.Count("appended_items", int64(cnt))
	}
	refused := false
	if r.P(6) {
		// a compressor that cannot be used: an error as long as it is set, and no other document afterwards
		comp, thr := mg.Compression, mg.CompressionThreshold
		mg.Compression, mg.CompressionThreshold = sereal.SnappyCompressor{}, 0
		if k := r.N(3); k == 0 {
			mg.Compression = sereal.ZlibCompressor{Level: 42}
		} else if k == 1 && m.version() < 3 {
			mg.Compression = sereal.ZlibCompressor{}
		}
		for k := r.In(1, 3); k > 0; k-- {
			if out, err := mg.Finish(); err == nil {
				c.Fail("%v: Finish with %#v gives no error: %x", m, mg.Compression, clip(out))
				return
			}
		}
		mg.Compression, mg.CompressionThreshold = comp, thr
		refused = true
		c.Count("finish_refused", 1)
	}
	out, err := mg.Finish()
	if err != nil {
		if !refused {
			c.Fail("%v: Finish: %v", m, err)
		}
		return
	}
	show := func() string {
		s := fmt.Sprintf("merged %x\n", clip(out))
		for i, b := range inputs {
			if i < 6 {
				s += fmt.Sprintf("input %d (%s): %x\n", i, descs[i], clip(b))
			}
		}
		return s
	}
	if ndocs >= 2 {
		c.Distinct(hashStr(string(out)))
	}
	if ndocs > 0 && len(want.A) > 0 {
		items := m.mergedItems(c, out)
		if c.Failed() {
			c.Fail("%s", show())
			return
		}
		e := newTyped()
		got := evalList(items, func(int) *evalCtx { return e })
		if df := diffV(want, got, eqOpt{Share: true, PtrShare: true}); df != "" {
			c.Fail("%v: %s\nwant %s\ngot  %s\n%s", m, df, dumpV(want), dumpV(got), show())
			return
		}
	}
	for perl := 0; perl < 2; perl++ {
		dec := &sereal.Decoder{PerlCompat: perl == 1}
		x, err := decodeAny(dec, out)
		if err != nil {
			c.Fail("%v: decoding the merged document: %v\n%s", m, err, show())
			return
		}
		got := fromGo(x)
		if m.ArrayRef && perl == 1 {
			if got.K != KPtr {
				c.Fail("%v: top level %s", m, short(got))
				return
			}
			got = got.A[0]
		}
		w, o := wantPlain, eqOpt{CollapsePtr: true, Share: true}
		if perl == 1 {
			w, o = wantPerl, eqOpt{Share: true}
		}
		if df := diffV(w, got, o); df != "" {
			c.Fail("%v: decoded, PerlCompat %v: %s\nwant %s\ngot  %s\n%s", m, perl == 1, df, dumpV(w), dumpV(got), show())
			return
		}
	}
	if out2, err := mg.Finish(); err != nil || !bytes.Equal(out, out2) {
		c.Fail("%v: a second Finish gives another document: %v\n%x\n%x", m, err, clip(out), clip(out2))
	}
	if n, err := mg.Append(inputOr(inputs)); err == nil || n != 0 {
		c.Fail("%v: Append after Finish returned %d, %v", m, n, err)
	}
	if c.Idx%8000 == 4 {
		c.Sample("%v %d documents %v -> %s", m, ndocs, descs, dumpV(want))
	}
}

func inputOr(in [][]byte) []byte {
	if len(in) > 0 {
		return in[0]
	}
	return []byte("=\xf3rl\x03\x00\x01")
}
