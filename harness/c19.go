package main

import (
	"github.com/Sereal/Sereal/Go/sereal"
)

func init() {
	register(&Check{
		ID:     "C19",
		Rule:   "A case is a random well-formed document of version 1 to 4, of any document type, in which arrays and hashes stand behind references as Perl writes them (REFN, REFP to finished and to still open containers, ARRAYREF, HASHREF, COPY, WEAKEN, OBJECT, OBJECTV, REGEXP, UNDEF, CANONICAL_UNDEF, padding, wide varints, user headers); it is decoded with PerlCompat, encoded again with PerlCompat under two random settings, and the meaning of both documents is compared as a graph by the parser and evaluator of the harness; distinct by bytes; non-trivial: at least 3 items.",
		Assume: []string{"ALIAS and references shared between plain scalars are left out, as the statement says", "frozen objects are left out: the encoder does not take PerlFreeze"},
		Phases: []Phase{
			{Name: "docs", Quick: 120000, Thor: 2500000, Run: c19Case},
			{Name: "dense", Quick: 40000, Thor: 800000, Run: c19Case},
			{Name: "twice", Quick: 20000, Thor: 400000, Run: c19Case},
		},
	})
}

var c19Opt = eqOpt{Share: true}

func c19Case(c *Ctx) {
	r := c.R
	version := r.In(1, 4)
	d, g := genDoc(r, version, func(g *docGen) {
		g.perlish, g.noAlias, g.noScalarShare, g.freeze = true, true, true, false
		if c.Phase == "dense" {
			// many references among few items
			g.budget = r.In(5, 60)
			g.maxStr = 4
		}
	})
	d.Type = docTypeFor(r, version)
	b := d.bytes(r)
	cnt := 0
	walk(d.Body, func(*Node) { cnt++ })
	if cnt >= 3 {
		c.Distinct(hashStr(string(b)))
	}
	tagCounts(c, d.Body)
	for k, v := range g.counts {
		c.Count(k, v)
	}
	want := evalDoc(d.Body, true)
	var hwant *V
	if d.Header != nil {
		hwant = evalDoc(d.Header, true)
	}
	if c.Idx%10000 == 0 {
		c.Sample("v%d type %d, %d bytes: %s", version, d.Type, len(b), dumpV(want))
	}
	dec := &sereal.Decoder{PerlCompat: true}
	n := 2
	if c.Phase == "twice" {
		n = 4
	}
	for i := 0; i < n; i++ {
		x, err := decodeAny(dec, b)
		if err != nil {
			c.Fail("round %d: decode: %v\n%s\n%x", i, err, dumpV(want), clip(b))
			return
		}
		var h any
		if hwant != nil {
			if err := dec.UnmarshalHeader(b, &h); err != nil {
				c.Fail("round %d: header: %v\n%x", i, err, clip(b))
				return
			}
		}
		cfg := randCfg(r)
		cfg.Perl = true
		out, err := cfg.enc().MarshalWithHeader(h, x)
		if err != nil {
			c.Fail("round %d: %v: encode: %v\n%s\n%x", i, cfg, err, dumpV(want), clip(b))
			return
		}
		nd, err := parseDoc(out)
		if err != nil {
			c.Fail("round %d: %v: the new document is not well-formed: %v\n%s\nold %x\nnew %x", i, cfg, err, dumpV(want), clip(b), clip(out))
			return
		}
		got := evalDoc(nd.Body, true)
		if df := diffV(want, got, c19Opt); df != "" {
			c.Fail("round %d: %v: %s\nwant %s\ngot  %s\nold v%d %x\nnew %x", i, cfg, df, dumpV(want), dumpV(got), version, clip(b), clip(out))
			return
		}
		if hwant != nil && cfg.Version >= 2 {
			if nd.Header == nil {
				c.Fail("round %d: %v: the header is gone", i, cfg)
				return
			}
			if df := diffV(hwant, evalDoc(nd.Header, true), c19Opt); df != "" {
				c.Fail("round %d: %v: header: %s\nold %x\nnew %x", i, cfg, df, clip(b), clip(out))
				return
			}
			c.Count("headers", 1)
		}
		c.Count("round_trips", 1)
		c.Count("kinds_compared", int64(len(nd.items)))
		if c.Phase == "twice" {
			// the next round starts from what this one wrote
			b = out
			if cfg.Version == 1 {
				hwant = nil
			}
		}
	}
}
