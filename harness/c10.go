package main

import (
	"bytes"
	"fmt"

	"github.com/Sereal/Sereal/Go/sereal"
)

func init() {
	register(&Check{
		ID:     "C10",
		Rule:   "A case is a document (encoder output with each compressor, level and threshold, or a generated document of version 1 to 4, incompressible to hugely compressible, empty to several MB) that is decompressed into several destination buffers; the result is compared byte for byte with the uncompressed document, and decoded values with each other; distinct by document bytes; non-trivial: a body of at least 3 bytes.",
		Assume: []string{"the destination buffer does not overlap the input"},
		Phases: []Phase{
			{Name: "generated", Quick: 40000, Thor: 800000, Run: c10Generated},
			{Name: "encoded", Quick: 40000, Thor: 800000, Run: c10Encoded},
			{Name: "encoded-pure", Flavor: "pure", Quick: 8000, Thor: 100000, Run: c10Encoded},
			{Name: "large", Quick: 60, Thor: 800, Run: c10Large},
			{Name: "generated-asan", Flavor: "asan", Quick: 3000, Thor: 60000, Run: c10Generated},
		},
	})
}

// c10Check decompresses comp in all ways; raw is the same document uncompressed.
func c10Check(c *Ctx, what string, comp, raw []byte) {
	r := c.R
	orig := append([]byte{}, comp...)
	dsts := [][]byte{nil, {}, make([]byte, 0, len(raw)), make([]byte, len(raw)), make([]byte, len(comp)), make([]byte, r.N(len(comp)+1)), make([]byte, r.N(2*len(raw)+50)),
		make([]byte, len(raw)+100), make([]byte, r.N(20), 20+2*len(raw)+r.N(20)), make([]byte, len(comp), len(comp)+len(raw)), make([]byte, len(comp)+1)}
	if len(raw) > 100000 {
		dsts = dsts[:5+r.N(3)]
	}
	for i, dst := range dsts {
		full := dst[:cap(dst)]
		for j := range full {
			full[j] = 0xA5
		}
		got, err := sereal.DecompressDocument(dst, comp)
		c.Count("decompressed", 1)
		if err != nil {
			c.Fail("%s: DecompressDocument, buffer %d (len %d cap %d): %v\n%x", what, i, len(dst), cap(dst), err, clip(comp))
			return
		}
		if !bytes.Equal(got, raw) {
			j := 0
			for j < len(got) && j < len(raw) && got[j] == raw[j] {
				j++
			}
			c.Fail("%s: DecompressDocument, buffer %d (len %d cap %d): %d bytes instead of %d, different at %d\nwant %x\ngot  %x", what, i, len(dst), cap(dst), len(got), len(raw), j, clip(raw), clip(got))
			return
		}
		if !bytes.Equal(comp, orig) {
			c.Fail("%s: DecompressDocument modified its input", what)
			return
		}
		if cap(dst) > 0 && len(got) > 0 && &got[0] == &full[0] {
			c.Count("buffer_reused", 1)
		}
	}
}

func c10Generated(c *Ctx) {
	r := c.R
	d, _ := genDoc(r, r.In(1, 4), nil)
	d.Type = docTypeFor(r, d.Version)
	if r.P(2) && d.Type == 0 {
		d.Type = 2
	}
	comp := d.bytes(r)
	raw, hl := d.raw()
	if len(raw)-hl >= 3 {
		c.Distinct(hashStr(string(comp)))
	}
	c.Count(fmt.Sprintf("type%d", d.Type), 1)
	c10Check(c, fmt.Sprintf("v%d type %d", d.Version, d.Type), comp, raw)
	if c.Failed() {
		return
	}
	for perl := 0; perl < 2; perl++ {
		dec := &sereal.Decoder{PerlCompat: perl == 1}
		x, err := decodeAny(dec, comp)
		y, err2 := decodeAny(dec, raw)
		if err != nil || err2 != nil {
			c.Fail("compressed: %v, raw: %v", err, err2)
			return
		}
		if df := diffV(fromGo(x), fromGo(y), eqOpt{PtrShare: perl == 1, Share: true}); df != "" {
			c.Fail("compressed and raw: %s", df)
			return
		}
	}
	if c.Idx%8000 == 5 {
		c.Sample("v%d type %d, %d bytes from %d", d.Version, d.Type, len(comp), len(raw))
	}
}

// plainVal has no maps and structs, so that its encoding does not depend on their order.
func plainVal(r *Rng, depth, size int) any {
	switch r.N(7) {
	case 0:
		return int(r.Int64())
	case 1:
		return bytes.Repeat([]byte(randText(r, r.In(1, 30))), r.In(0, 1+size/30))
	case 2:
		return r.Bytes(r.Len(size))
	case 3:
		if depth < 4 {
			a := make([]any, r.N(12))
			for i := range a {
				a[i] = plainVal(r, depth+1, size/4+1)
			}
			return a
		}
	case 4:
		x := r.Float64()
		return &x
	case 5:
		return map[string]any{"one": plainVal(r, depth+1, size/2+1)}
	}
	return randText(r, r.Len(size))
}

func levelFor(r *Rng, comp int) int {
	if comp == 3 {
		return r.In(-1, 9)
	}
	return 0
}

func c10Encoded(c *Ctx) {
	r := c.R
	x := plainVal(r, 0, pick(r, 1, 40, 2000, 2000, 20000, 100000))
	cfg := randCfg(r)
	cfg.Comp = 0
	if cfg.Perl && r.Bool() {
		cfg.Perl = false
	}
	var h any
	if r.P(3) {
		h = plainVal(r, 2, 50)
	}
	raw, err := cfg.enc().MarshalWithHeader(h, x)
	if err != nil {
		c.Fail("%v", err)
		return
	}
	body := len(raw) - bodyStartOf(raw)
	if body >= 3 {
		c.Distinct(hashStr(string(raw)))
	}
	var comps []int
	switch cfg.Version {
	case 1:
		comps = []int{1, 2}
	case 2:
		comps = []int{2}
	case 3:
		comps = []int{2, 3}
	}
	for _, comp := range comps {
		cfg.Comp, cfg.Level = comp, levelFor(r, comp)
		cfg.Threshold = pick(r, 0, 1, 100, 1024, 1<<20, body-1, body, body+1, -1)
		b, err := cfg.enc().MarshalWithHeader(h, x)
		if err != nil {
			c.Fail("%v: %v", cfg, err)
			return
		}
		wantT := comp
		if cfg.Threshold != 0 && body < cfg.Threshold {
			wantT = 0
		}
		if int(b[4]>>4) != wantT {
			c.Fail("%v: a body of %d bytes gives document type %d, want %d", cfg, body, b[4]>>4, wantT)
			return
		}
		c.Count(fmt.Sprintf("type%d", wantT), 1)
		if wantT == 0 && !bytes.Equal(b, raw) {
			c.Fail("%v: a body below the threshold is not the uncompressed one\n%x\n%x", cfg, clip(b), clip(raw))
			return
		}
		// independent decompression
		p := bodyStartOf(b)
		db, err := decompressBody(wantT, b[p:])
		if err != nil || !bytes.Equal(db, raw[len(raw)-body:]) {
			c.Fail("%v: the compressed body does not decompress to the raw one: %v\n%x", cfg, err, clip(b))
			return
		}
		c10Check(c, fmt.Sprint(cfg), b, raw)
		if c.Failed() {
			return
		}
		y, err := decodeAny(&sereal.Decoder{}, b)
		if err != nil {
			c.Fail("%v: %v", cfg, err)
			return
		}
		if df := diffV(expected(x), fromGo(y), eqOpt{CollapsePtr: true}); df != "" {
			c.Fail("%v: %s", cfg, df)
			return
		}
	}
	c10Check(c, "raw", raw, raw)
	if c.Idx%8000 == 3 {
		c.Sample("%v: body of %d bytes", cfg, body)
	}
}

// c10Large: bodies of megabytes, from incompressible to all the same.
func c10Large(c *Ctx) {
	r := c.R
	n := r.In(1<<20, 12<<20)
	var s []byte
	switch r.N(4) {
	case 0:
		s = make([]byte, n)
	case 1:
		s = r.Bytes(n)
	case 2:
		s = bytes.Repeat([]byte("abcdefghijklmnopqrstuvwxyz0123456789"), n/36)
	case 3:
		s = append(r.Bytes(n/2), make([]byte, n/2)...)
	}
	x := []any{1, s, "end"}
	for _, cfg := range []encCfg{{Version: 1, Comp: 1}, {Version: 1, Comp: 2}, {Version: 2, Comp: 2}, {Version: 3, Comp: 2}, {Version: 3, Comp: 3, Level: pick(r, -1, 1, 6, 9)}} {
		raw, err := encCfg{Version: cfg.Version}.enc().Marshal(x)
		b, err2 := cfg.enc().Marshal(x)
		if err != nil || err2 != nil {
			c.Fail("%v: %v %v", cfg, err, err2)
			return
		}
		if int(b[4]>>4) != cfg.Comp {
			c.Fail("%v: document type %d", cfg, b[4]>>4)
		}
		c.Distinct(hashStr(string(b)))
		c.Count("large_bytes", int64(len(raw)))
		c10Check(c, fmt.Sprint(cfg), b, raw)
		if c.Failed() {
			return
		}
		var y []any
		if err := sereal.Unmarshal(b, &y); err != nil {
			c.Fail("%v: %v", cfg, err)
			return
		}
		if len(y) != 3 || !bytes.Equal(y[1].([]byte), s) {
			c.Fail("%v: other value", cfg)
		}
	}
	d := &Doc{Version: 4, Type: 4, Body: &Node{T: tARRAY, Kids: []*Node{{T: tBINARY, S: string(s)}, {T: tTRUE}}}}
	b := d.bytes(r)
	raw, _ := d.raw()
	c10Check(c, "zstd", b, raw)
	if c.Failed() {
		return
	}
	var y []any
	if err := sereal.Unmarshal(b, &y); err != nil || len(y) != 2 || !bytes.Equal(y[0].([]byte), s) {
		c.Fail("zstd: %v", err)
	}
}
