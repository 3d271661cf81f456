package main

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/Sereal/Sereal/Go/sereal"
)

// headMagics are the four bytes that documents start with in this check.
var headMagics = func() [][]byte {
	m := [][]byte{[]byte("=srl"), []byte("=\xf3rl"), []byte("=\xc3\xb3r")}
	for _, good := range [][]byte{[]byte("=srl"), []byte("=\xf3rl")} {
		for i := 0; i < 4; i++ {
			for _, d := range []byte{1, 0x20, 0x80, 0xff} {
				b := append([]byte{}, good...)
				b[i] ^= d
				m = append(m, b)
			}
		}
	}
	m = append(m, []byte("\xf3=rl"), []byte("lrs="), []byte("lr\xf3="), []byte("=Srl"), []byte("\x00\x00\x00\x00"), []byte("Sere"), []byte("=sr\x00"), []byte("=slr"), []byte("\xff\xff\xff\xff"), []byte("=\xc3\xb3l"), []byte("=\xc3rl"))
	return m
}()

func init() {
	register(&Check{
		ID:   "C08",
		Rule: "A case is one of all combinations of 46 magic strings, 16 versions and 16 document types, with a body that is compressed the way the type asks for, at all lengths below 16 bytes and complete; Unmarshal, UnmarshalHeader, DecompressDocument, Merger.Append (three kinds of merger) and LooksLikeSereal have to accept exactly the valid ones; distinct by the first five bytes and the body; all are non-trivial.",
		Phases: []Phase{
			{Name: "headers", Quick: len(headMagics) * 256 * 4, Thor: len(headMagics) * 256 * 60, Run: c08Case},
			{Name: "headers-pure", Flavor: "pure", Quick: len(headMagics) * 256, Thor: len(headMagics) * 256 * 10, Run: c08Case},
			{Name: "utf8", Quick: 4000, Thor: 100000, Run: c08UTF8},
		},
	})
}

func magicFits(magic []byte, version int) bool {
	switch string(magic) {
	case "=srl":
		return version == 1 || version == 2
	case "=\xf3rl":
		return version >= 3
	}
	return false
}

func typeFits(version, typ int) bool {
	switch typ {
	case 0, 2:
		return true
	case 1:
		return version == 1
	case 3:
		return version >= 3
	case 4:
		return version >= 4
	}
	return false
}

type headOp struct {
	name string
	f    func(b []byte) error
}

func headOps(withHeader bool) []headOp {
	ops := []headOp{
		{"Unmarshal", func(b []byte) error { var x any; return sereal.Unmarshal(b, &x) }},
		{"Decoder.Unmarshal", func(b []byte) error { var x any; return (&sereal.Decoder{PerlCompat: true}).Unmarshal(b, &x) }},
		{"Unmarshal into []any", func(b []byte) error { var x []any; return sereal.NewDecoder().Unmarshal(b, &x) }},
		{"UnmarshalHeader", func(b []byte) error { var x any; return sereal.NewDecoder().UnmarshalHeader(b, &x) }},
		{"UnmarshalHeaderBody", func(b []byte) error { var h, x any; return sereal.NewDecoder().UnmarshalHeaderBody(b, &h, &x) }},
		{"DecompressDocument", func(b []byte) error { _, err := sereal.DecompressDocument(nil, b); return err }},
	}
	for i, mk := range mergerMakers {
		ops = append(ops, headOp{fmt.Sprintf("Merger %d", i), func(b []byte) error {
			n, err := mk().Append(b)
			if err == nil && n != 1 {
				return fmt.Errorf("Append returned %d", n)
			}
			if err != nil && n != 0 {
				return nil
			}
			return err
		}})
	}
	return ops
}

var mergerMakers = []func() *sereal.Merger{sereal.NewMerger, sereal.NewMergerV2, sereal.NewMergerV3}

func c08Case(c *Ctx) {
	r := c.R
	i := c.Idx % (len(headMagics) * 256)
	magic, version, typ := headMagics[i/256], i%256&15, i%256>>4
	g := newDocGen(r, 3)
	g.refs, g.budget = false, r.In(1, 10)
	n := &Node{T: tARRAY, Kids: []*Node{g.item()}}
	w := docWriter{}
	w.node(n)
	var sfx []byte
	if r.P(3) {
		hw := docWriter{b: []byte{1}}
		hw.node(&Node{T: tPOS, I: 5})
		sfx = hw.b
	}
	b := append([]byte{}, magic...)
	b = append(b, byte(version|typ<<4))
	b = putVarint(b, uint64(len(sfx)), 0)
	b = append(b, sfx...)
	b = append(b, compressBody(nil, typ, w.b)...)
	c.Distinct(hashStr(string(b)))
	fits := magicFits(magic, version)
	valid := fits && version <= 4 && typeFits(version, typ)
	decodable := valid && !(typ == 4 && c.Phase == "headers-pure")
	orig := append([]byte{}, b...)
	for _, op := range headOps(len(sfx) > 0) {
		err := op.f(b)
		c.Count("operations", 1)
		if decodable && err != nil {
			c.Fail("%s rejects a valid document (version %d, type %d): %v\n%x", op.name, version, typ, err, b)
		} else if !valid && err == nil {
			c.Fail("%s accepts magic %q with version %d, type %d\n%x", op.name, magic, version, typ, b)
		} else if typ == 4 && valid && !decodable && op.name != "UnmarshalHeader" && err == nil {
			c.Fail("%s accepts zstd without support for it", op.name)
		}
		if valid {
			c.Count("accepted", 1)
		} else {
			c.Count("rejected", 1)
		}
		if string(magic) == "=\xc3\xb3r" && !errors.Is(err, sereal.ErrBadHeaderUTF8) {
			c.Fail("%s: %v for a UTF-8 encoded document", op.name, err)
		}
		if string(magic) != "=\xc3\xb3r" && errors.Is(err, sereal.ErrBadHeaderUTF8) {
			c.Fail("%s: %v for magic %q", op.name, err, magic)
		}
	}
	if l := sereal.LooksLikeSereal(b); valid && !l {
		c.Fail("LooksLikeSereal is false for a valid document\n%x", b)
	} else if !fits && l {
		c.Fail("LooksLikeSereal is true for magic %q with version %d\n%x", magic, version, b)
	}
	// the same header, cut
	for k := 0; k < 7; k++ {
		for _, op := range headOps(false) {
			if k == 6 && (op.name == "UnmarshalHeader" || op.name == "DecompressDocument") {
				continue // they need no body
			}
			if op.f(b[:k:k]) == nil {
				c.Fail("%s accepts %d bytes: %x", op.name, k, b[:k])
			}
		}
		if sereal.LooksLikeSereal(b[:k:k]) {
			c.Fail("LooksLikeSereal is true for %d bytes: %x", k, b[:k])
		}
	}
	for k := 7; k < len(b) && k < 40; k++ {
		if l := sereal.LooksLikeSereal(b[:k]); !fits && l {
			c.Fail("LooksLikeSereal is true for magic %q with version %d\n%x", magic, version, b[:k])
		}
	}
	if !bytes.Equal(b, orig) {
		c.Fail("the document was modified")
	}
	if c.Idx%9000 == 5 {
		c.Sample("magic %q version %d type %d valid %v", magic, version, typ, valid)
	}
}

// c08UTF8: whole documents that went through a UTF-8 encoder.
func c08UTF8(c *Ctx) {
	r := c.R
	d, _ := genDoc(r, r.In(3, 4), nil)
	d.Type = docTypeFor(r, d.Version)
	b := d.bytes(r)
	var u []byte
	for _, x := range b {
		u = append(u, string(rune(x))...)
	}
	c.Distinct(hashStr(string(u)))
	for _, op := range headOps(false) {
		if err := op.f(u); !errors.Is(err, sereal.ErrBadHeaderUTF8) {
			c.Fail("%s: %v for a UTF-8 encoded document\n%x", op.name, err, clip(u))
		}
		c.Count("operations", 1)
	}
	if sereal.LooksLikeSereal(u) {
		c.Fail("LooksLikeSereal is true for a UTF-8 encoded document\n%x", clip(u))
	}
}
