package main

import (
	"fmt"
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"
)

func init() {
	register(&Check{
		ID:   "C09",
		Rule: "A case is a document with a random header value and a random body value (encoder output of version 1 to 3, or a generated document of version 2 to 4, any compression); header and body are decoded separately and together, alone, with the body damaged and with the header damaged; distinct by document bytes; non-trivial: header and body each of at least 2 items.",
		Phases: []Phase{
			{Name: "encoded", Quick: 100000, Thor: 2000000, Run: c09Encoded},
			{Name: "generated", Quick: 60000, Thor: 1000000, Run: c09Generated},
		},
	})
}

type sentinelT struct{ a, b int }

// c09Damage returns variants of b with another body; hdrEnd is where the body starts.
func damageBody(r *Rng, b []byte, bodyStart int) [][]byte {
	var out [][]byte
	cp := func() []byte { return append([]byte{}, b...) }
	x := cp()
	for i := bodyStart; i < len(x); i++ {
		x[i] = byte(r.U64())
	}
	out = append(out, x)
	x = cp()
	for i := bodyStart; i < len(x); i++ {
		x[i] = 0xff
	}
	out = append(out, x)
	if bodyStart >= 7 {
		out = append(out, cp()[:bodyStart])
	}
	if bodyStart+1 <= len(b) {
		out = append(out, cp()[:bodyStart+1])
	}
	return append(out, append(cp(), r.Bytes(5)...))
}

func bodyStartOf(b []byte) int {
	p := 5
	n, s := 0, 0
	for {
		n |= int(b[p]&0x7f) << s
		s += 7
		p++
		if b[p-1] < 0x80 {
			return p + n
		}
	}
}

func c09Encoded(c *Ctx) {
	r := c.R
	hg, bg := newValGen(r), newValGen(r)
	hg.budget = r.In(1, 40)
	hg.share, bg.share = r.P(3), r.P(3)
	bg.keys = []string{"id", "shared"}
	hg.keys = []string{"id", "shared"}
	h, x := hg.val(0), bg.val(0)
	if r.P(10) {
		h = x // the same value, pointers and all
	}
	cfg := randCfg(r)
	if r.P(3) {
		h = nil
	}
	b, err := cfg.enc().MarshalWithHeader(h, x)
	if err != nil {
		c.Fail("%v: %v", cfg, err)
		return
	}
	has := h != nil && cfg.Version > 1
	wantH, wantX := meaning(cfg, h), meaning(cfg, x)
	if sizeV(wantH) > 1 && sizeV(wantX) > 1 {
		c.Distinct(hashStr(string(b)))
	}
	if c.Idx%10000 == 4 {
		c.Sample("%v header %s body %s", cfg, dumpV(wantH), dumpV(wantX))
	}
	c09Decode(c, fmt.Sprint(cfg), b, has, wantH, wantX, eqOpt{CollapsePtr: true, Share: true, NoWrap: true, UndefNil: true}, false)
	if c.Failed() || !has {
		return
	}
	// encoded alone
	hb, err := cfg.enc().Marshal(h)
	if err != nil {
		c.Fail("%v", err)
		return
	}
	hy, err := decodeAny(&sereal.Decoder{}, hb)
	if err != nil {
		c.Fail("%v: header as a body: %v", cfg, err)
		return
	}
	var hx any
	if err := sereal.NewDecoder().UnmarshalHeader(b, &hx); err != nil {
		c.Fail("%v", err)
		return
	}
	if df := diffV(fromGo(hy), fromGo(hx), eqOpt{Share: true, CollapsePtr: true}); df != "" {
		c.Fail("%v: header decoded alone and as a header: %s", cfg, df)
	}
	// typed, if the header is a plain value of a struct type
	if rv := reflect.ValueOf(h); rv.Kind() == reflect.Struct && rv.Type() == reflect.TypeOf(SInner{}) {
		var t SInner
		if err := sereal.NewDecoder().UnmarshalHeader(b, &t); err != nil {
			c.Fail("%v: header into a struct: %v", cfg, err)
		} else if s := h.(SInner); t.A != s.A || t.B != s.B || t.c != 0 || t.D != nil {
			c.Fail("%v: header into a struct: %+v, want %+v", cfg, t, s)
		}
		c.Count("typed_headers", 1)
	}
}

// c09Decode decodes b in all ways.
func c09Decode(c *Ctx, what string, b []byte, has bool, wantH, wantX *V, o eqOpt, perl bool) {
	r := c.R
	dec := &sereal.Decoder{PerlCompat: perl}
	checkH := func(how string, b []byte) {
		if has {
			var hv any
			if err := dec.UnmarshalHeader(b, &hv); err != nil {
				c.Fail("%s: UnmarshalHeader, %s: %v\n%x", what, how, err, clip(b))
			} else if df := diffV(wantH, fromGo(hv), o); df != "" {
				c.Fail("%s: UnmarshalHeader, %s: %s\nwant %s\ngot  %s\n%x", what, how, df, dumpV(wantH), dumpV(fromGo(hv)), clip(b))
			}
			c.Count("headers_decoded", 1)
			return
		}
		var hv any = sentinelT{1, 2}
		var nilv any
		m := map[string]any{"a": 1}
		for i, p := range []any{&hv, &nilv, &m} {
			if err := dec.UnmarshalHeader(b, p); err != nil {
				c.Fail("%s: UnmarshalHeader without header, %s, %d: %v\n%x", what, how, i, err, clip(b))
			}
		}
		if hv != (sentinelT{1, 2}) || nilv != nil || len(m) != 1 {
			c.Fail("%s: UnmarshalHeader without header, %s, changed the variable to %v %v %v", what, how, hv, nilv, m)
		}
		c.Count("no_header", 1)
	}
	checkX := func(how string, b []byte) {
		var xv any
		if err := dec.Unmarshal(b, &xv); err != nil {
			c.Fail("%s: Unmarshal, %s: %v\n%x", what, how, err, clip(b))
		} else if df := diffV(wantX, fromGo(xv), o); df != "" {
			c.Fail("%s: Unmarshal, %s: %s\n%x", what, how, df, clip(b))
		}
	}
	checkH("intact", b)
	checkX("intact", b)
	var hv, xv any
	hv = nil
	if err := dec.UnmarshalHeaderBody(b, &hv, &xv); err != nil {
		c.Fail("%s: UnmarshalHeaderBody: %v\n%x", what, err, clip(b))
	} else {
		if df := diffV(wantX, fromGo(xv), o); df != "" {
			c.Fail("%s: UnmarshalHeaderBody, body: %s\n%x", what, df, clip(b))
		}
		if has {
			if df := diffV(wantH, fromGo(hv), o); df != "" {
				c.Fail("%s: UnmarshalHeaderBody, header: %s\n%x", what, df, clip(b))
			}
		} else if hv != nil {
			c.Fail("%s: UnmarshalHeaderBody without header: %v", what, hv)
		}
	}
	if c.Failed() {
		return
	}
	bs := bodyStartOf(b)
	for i, x := range damageBody(r, b, bs) {
		checkH(fmt.Sprintf("damaged body %d", i), x)
	}
	c.Count("damaged_bodies", 5)
	if !has {
		return
	}
	// the body does not depend on the header
	x := append([]byte{}, b...)
	for i := 5; ; i++ {
		if x[i] < 0x80 {
			for j := i + 1; j < bs; j++ {
				x[j] = byte(r.U64())
			}
			break
		}
	}
	if x[4]&15 >= 2 {
		checkX("damaged header", x)
		// header replaced by one of another length
		y := append([]byte{}, b[:5]...)
		s := append([]byte{byte(r.N(256))}, r.Bytes(r.Len(300))...)
		y = putVarint(y, uint64(len(s)), 0)
		y = append(append(y, s...), b[bs:]...)
		checkX("other header", y)
		y = append(append([]byte{}, b[:5]...), 0)
		y = append(y, b[bs:]...)
		checkX("no header", y)
	}
}

func c09Generated(c *Ctx) {
	r := c.R
	d, _ := genDoc(r, r.In(2, 4), nil)
	d.Type = docTypeFor(r, d.Version)
	if d.Header == nil && !r.P(3) {
		h := newDocGen(r, d.Version)
		h.budget = r.In(1, 60)
		d.Header, d.Suffix = h.item(), nil
	}
	b := d.bytes(r)
	perl := r.Bool()
	var wantH *V
	if d.Header != nil {
		wantH = evalDoc(d.Header, perl)
		if sizeV(wantH) > 1 {
			c.Distinct(hashStr(string(b)))
		}
	}
	o := eqOpt{CollapsePtr: !perl, Share: true}
	c09Decode(c, fmt.Sprintf("v%d type %d", d.Version, d.Type), b, d.Header != nil, wantH, evalDoc(d.Body, perl), o, perl)
}
