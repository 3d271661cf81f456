package main

import (
	"bytes"

	"github.com/Sereal/Sereal/Go/sereal"
)

// decodeAny decodes into an interface{}.
func decodeAny(d *sereal.Decoder, b []byte) (x any, err error) {
	err = d.Unmarshal(b, &x)
	return
}

func tagCounts(c *Ctx, n *Node) {
	walk(n, func(k *Node) {
		c.Count("item_"+tagName(k.T), 1)
		if k.Track {
			c.Count("track_bits", 1)
		}
		if k.Pads > 0 {
			c.Count("pads", 1)
		}
		if k.Wide > 0 {
			c.Count("wide_varints", 1)
		}
	})
}

var tagNames = map[byte]string{tPOS: "POS", tNEG: "NEG", tVARINT: "VARINT", tZIGZAG: "ZIGZAG", tFLOAT: "FLOAT", tDOUBLE: "DOUBLE", tUNDEF: "UNDEF",
	tBINARY: "BINARY", tUTF8: "STR_UTF8", tREFN: "REFN", tREFP: "REFP", tHASH: "HASH", tARRAY: "ARRAY", tOBJECT: "OBJECT", tOBJV: "OBJECTV",
	tALIAS: "ALIAS", tCOPY: "COPY", tWEAKEN: "WEAKEN", tREGEXP: "REGEXP", tOBJF: "OBJECT_FREEZE", tOBJVF: "OBJECTV_FREEZE", tCUNDEF: "CANONICAL_UNDEF",
	tFALSE: "FALSE", tTRUE: "TRUE", tAREF: "ARRAYREF", tHREF: "HASHREF", tSHORT: "SHORT_BINARY"}

func tagName(t byte) string { return tagNames[t] }

func init() {
	register(&Check{
		ID:     "C06",
		Rule:   "A case is a random well-formed document of version 1 to 4 in all legal forms, decoded with four flag settings and compared as a graph with the evaluation of the tree it was written from; distinct by the structural hash of that tree's value and the bytes; non-trivial: at least 3 items.",
		Assume: []string{"the evaluator and writer of the harness state the specification", "documents with COPY of tracked or referring items, duplicate keys, or pure reference cycles are not generated"},
		Phases: []Phase{
			{Name: "docs", Quick: 60000, Thor: 1500000, Run: c06Case},
			{Name: "docs-pure", Flavor: "pure", Quick: 8000, Thor: 200000, Run: c06Case},
		},
	})
}

func c06Case(c *Ctx) {
	r := c.R
	version := r.In(1, 4)
	d, g := genDoc(r, version, func(g *docGen) {
		if c.Idx%4 == 3 {
			g.perlish = true
		}
	})
	d.Type = docTypeFor(r, version)
	if c.Phase == "docs-pure" && d.Type == 4 {
		d.Type = 0
	}
	b := d.bytes(r)
	orig := append([]byte{}, b...)
	cnt := 0
	walk(d.Body, func(*Node) { cnt++ })
	if cnt >= 3 {
		c.Distinct(hashStr(string(b)))
	}
	tagCounts(c, d.Body)
	for k, v := range g.counts {
		c.Count(k, v)
	}
	plain := evalDoc(d.Body, false)
	perl := evalDoc(d.Body, true)
	var hplain, hperl *V
	if d.Header != nil {
		hplain, hperl = evalDoc(d.Header, false), evalDoc(d.Header, true)
	}
	if c.Idx%5000 == 0 {
		c.Sample("v%d type %d, %d bytes: %s", version, d.Type, len(b), dumpV(perl))
	}
	for f := 0; f < 4; f++ {
		dec := &sereal.Decoder{PerlCompat: f&1 == 1, DisableReferentialIntegrity: f&2 == 2}
		want, hwant := plain, hplain
		o := eqOpt{CollapsePtr: true, Share: true}
		if dec.PerlCompat {
			want, hwant = perl, hperl
			o.CollapsePtr = dec.DisableReferentialIntegrity
		}
		x, err := decodeAny(dec, b)
		if err != nil {
			c.Fail("flags %d: %v\nv%d type %d: %s\n%x", f, err, version, d.Type, dumpV(want), clip(orig))
			return
		}
		got := fromGo(x)
		if df := diffV(want, got, o); df != "" {
			c.Fail("flags %d: %s\nwant %s\ngot  %s\nv%d type %d: %x", f, df, dumpV(want), dumpV(got), version, d.Type, clip(orig))
			return
		}
		if f == 2 {
			if p := hasRefPointer(got); p {
				c.Fail("DisableReferentialIntegrity: a reference was decoded as a pointer: %s\n%x", dumpV(got), clip(orig))
				return
			}
		}
		if d.Header != nil {
			var h any
			if err := dec.UnmarshalHeader(b, &h); err != nil {
				c.Fail("flags %d: header: %v\n%x", f, err, clip(orig))
				return
			}
			if df := diffV(hwant, fromGo(h), o); df != "" {
				c.Fail("flags %d: header: %s\n%x", f, df, clip(orig))
				return
			}
			c.Count("headers", 1)
		}
		c.Count("decodes", 1)
		if !bytes.Equal(b, orig) {
			c.Fail("the input buffer was modified")
			return
		}
	}
}

// hasRefPointer finds pointers other than those of the Perl* wrappers.
func hasRefPointer(v *V) bool {
	seen := map[*V]bool{}
	var rec func(v *V) bool
	rec = func(v *V) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if v.K == KPtr {
			return true
		}
		for _, x := range v.A {
			if rec(x) {
				return true
			}
		}
		for _, x := range v.M {
			if rec(x) {
				return true
			}
		}
		return false
	}
	return rec(v)
}

// clipLen is how many bytes of a document messages show.
var clipLen = 500

func clip(b []byte) []byte {
	if len(b) > clipLen {
		return b[:clipLen]
	}
	return b
}
