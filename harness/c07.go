package main

import (
	"fmt"

	"github.com/Sereal/Sereal/Go/sereal"
)

func init() {
	register(&Check{
		ID:     "C07",
		Rule:   "A case is a well-formed random document with one defect planted at a random place (or cut short at every or 60 places); every decode of it must give an error; distinct by the bytes of the broken document.",
		Assume: []string{"COPY offsets into the middle of an item are not counted as defects: no reader can tell"},
		Phases: []Phase{{Name: "defects", Quick: 60000, Thor: 1200000, Run: c07Case}},
	})
}

// mustFail decodes b in several ways and wants errors.
func mustFail(c *Ctx, b []byte, what string) bool {
	c.Distinct(hashStr(string(b)))
	for f := 0; f < 4; f++ {
		dec := &sereal.Decoder{PerlCompat: f&1 == 1, DisableReferentialIntegrity: f&2 == 2}
		x, err := decodeAny(dec, b)
		c.Count("decodes", 1)
		if err == nil {
			c.Fail("%s: decoded without an error (flags %d) to %s\n%x", what, f, short(fromGo(x)), clip(b))
			return false
		}
	}
	return true
}

var badTags = []byte{tLDBL, 0x34, 0x35, 0x36, 0x37, 0x38, tMANY, tPACKET, tEXTEND}

func c07Case(c *Ctx) {
	r := c.R
	version := r.In(1, 4)
	d, g := genDoc(r, version, func(g *docGen) {
		if g.maxStr > 300 {
			g.maxStr = 300
		}
		if g.budget > 100 {
			g.budget = 100
		}
	})
	var all []*Node
	walk(d.Body, func(n *Node) { all = append(all, n) })
	inFreeze := map[*Node]bool{}
	for _, n := range all {
		if n.T == tOBJF || n.T == tOBJVF {
			walk(n.Kids[len(n.Kids)-1], func(k *Node) { inFreeze[k] = true })
		}
	}
	defect := r.N(12)
	sel := func(f func(n *Node) bool) *Node {
		var ok []*Node
		for _, n := range all {
			if f(n) {
				ok = append(ok, n)
			}
		}
		if len(ok) == 0 {
			return nil
		}
		return ok[r.N(len(ok))]
	}
	// appended puts more items behind a body that is an array
	appended := func(ns ...*Node) {
		d.Body = &Node{T: tARRAY, Kids: append([]*Node{d.Body}, ns...)}
	}
	finish := func(what string) {
		c.Count("defect: "+what, 1)
		d.Type = 0
		if r.P(3) {
			d.Type = docTypeFor(r, version)
		}
		b := d.bytes(r)
		if c.Idx%4000 < 12 {
			c.Sample("%s: %x", what, clip(b))
		}
		mustFail(c, b, what)
	}
	_ = g
	switch defect {
	case 0, 1, 2: // cut short
		d.Type = docTypeFor(r, version)
		b := d.bytes(r)
		cuts := len(b)
		step := 1
		if cuts > 120 {
			step = cuts / 60
		}
		c.Count("defect: cut short", 1)
		for n := r.N(step); n < cuts; n += step {
			c.Count("prefixes", 1)
			if !mustFail(c, b[:n:n], fmt.Sprintf("prefix of %d of %d bytes (type %d)", n, len(b), d.Type)) {
				return
			}
		}
	case 3: // a reserved or unsupported tag
		n := sel(func(n *Node) bool { return true })
		b, _ := d.raw()
		b[n.pos] = b[n.pos]&tTrack | badTags[r.N(len(badTags))]
		c.Count("defect: bad tag", 1)
		mustFail(c, b, "bad tag")
	case 4: // COPY inside COPY
		t := sel(func(n *Node) bool { return !n.IsStr && n.T != tALIAS && !inFreeze[n] && isScalar(n.T) })
		if t == nil {
			t = g.intNode()
			appended(t)
		}
		cp := g.form(&Node{T: tCOPY, Target: t})
		switch r.N(3) {
		case 0:
			appended(cp, g.form(&Node{T: tCOPY, Target: cp}))
		case 1:
			a := g.form(&Node{T: tARRAY, Kids: []*Node{g.scalar(), cp}})
			appended(a, g.form(&Node{T: tCOPY, Target: a}))
		default:
			// in a hash key
			k := g.str("some key")
			kc := &Node{T: tCOPY, Target: k, IsStr: true}
			h := &Node{T: tHASH, Kids: []*Node{k, g.scalar()}}
			h2 := &Node{T: tHASH, Kids: []*Node{kc, g.scalar()}}
			h3 := &Node{T: tHASH, Kids: []*Node{{T: tCOPY, Target: kc, IsStr: true}, g.scalar()}}
			appended(h, h2, h3)
		}
		finish("COPY inside COPY")
	case 5, 6: // offsets that do not point backwards
		n := sel(func(n *Node) bool { return n.Target != nil })
		if n == nil {
			n = &Node{T: pick(r, byte(tCOPY), byte(tREFP), byte(tALIAS), byte(tOBJV), byte(tOBJVF))}
			n.Target = &Node{}
			switch n.T {
			case tOBJV:
				n.Kids = []*Node{g.ref()}
			case tOBJVF:
				n.Kids = []*Node{{T: tREFN, Kids: []*Node{{T: tARRAY, Kids: []*Node{{T: tBINARY, S: "x"}}}}}}
			}
			// a string behind, so that the offset leads to something sensible
			appended(n, g.strNode("forward"), g.strNode("forward 2"))
		}
		old := n.Target
		tr := old.Track
		defer func() { old.Track = tr }()
		n.Target = &Node{Off: old.Off}
		d.raw()
		end := n.end - n.pos + n.Off
		switch r.N(4) {
		case 0:
			n.Target.Off = end + r.In(0, 30)
		case 1:
			n.Target.Off = 1<<uint(r.In(20, 62)) + r.N(3)
		case 2:
			n.Target.Off = -1 - r.N(1000)
		default:
			// exactly the next item
			n.Target.Off = end
			d.raw()
			n.Target.Off = n.end - n.pos + n.Off
		}
		if n.T == tOBJV || n.T == tOBJVF {
			// the end of its kids: somewhere behind
			if n.Target.Off >= 0 && n.Target.Off < end {
				n.Target.Off = end
			}
		}
		finish("offset that does not point backwards: " + tagName(n.T))
	case 7: // REFP or ALIAS to an item that is not tracked
		n := sel(func(n *Node) bool { return n.T == tREFP || n.T == tALIAS })
		if n == nil {
			t := g.scalar()
			t.Track = false
			n = &Node{T: pick(r, byte(tREFP), byte(tALIAS)), Target: t}
			appended(t, n)
		}
		n.Target.Track = false
		finish("untracked target of " + tagName(n.T))
	case 8: // an offset next to the tracked item
		n := sel(func(n *Node) bool { return (n.T == tREFP || n.T == tALIAS) && n.Target.Off > 8 })
		if n == nil {
			return
		}
		d.raw()
		off := n.Target.Off + pick(r, -1, 1)
		for _, k := range all {
			if k.Off == off && k.Track {
				return
			}
		}
		n.Target = &Node{Off: off}
		finish("offset next to a tracked item")
	case 9: // a key, class name or regexp part that is not a string
		n := sel(func(n *Node) bool { return n.IsStr })
		if n == nil {
			return
		}
		bad := []*Node{{T: tPOS, I: 5}, {T: tNEG, I: -3}, {T: tVARINT, U: 99}, {T: tUNDEF}, {T: tTRUE}, {T: tARRAY}, {T: tHASH}, {T: tAREF},
			{T: tREFN, Kids: []*Node{{T: tBINARY, S: "key"}}}, {T: tDOUBLE}, {T: tFLOAT}}[r.N(11)]
		b, _ := d.raw()
		w := docWriter{}
		w.node(bad)
		out := append([]byte{}, b[:n.pos]...)
		out = append(out, w.b...)
		if r.Bool() {
			out = append(out, b[n.end:]...)
		} else {
			out = append(out, b[n.pos:]...)
		}
		c.Count("defect: not a string", 1)
		mustFail(c, out, "a key, class or pattern that is not a string")
	case 10: // varints that do not end
		n := sel(func(n *Node) bool {
			switch n.T {
			case tVARINT, tZIGZAG, tBINARY, tUTF8, tARRAY, tHASH, tREFP, tALIAS, tCOPY, tOBJV, tOBJVF:
				return !inFreeze[n] || n.T == tBINARY
			}
			return false
		})
		if n == nil {
			return
		}
		b, _ := d.raw()
		out := append([]byte{}, b[:n.pos+1]...)
		for i := r.In(10, 20); i > 0; i-- {
			out = append(out, 0x80|byte(r.N(128))*byte(r.N(2)))
		}
		out = append(out, byte(r.N(3)))
		out = append(out, b[n.pos+1:]...)
		c.Count("defect: long varint", 1)
		mustFail(c, out, "varint of more than 10 bytes at "+tagName(n.T))
	case 11: // frozen objects, compressed data
		if version < 3 || r.P(2) {
			c07Compressed(c, d)
			return
		}
		f := &Node{T: tOBJF, Kids: []*Node{g.str("Foo")}}
		str := &Node{T: tBINARY, S: g.randStr(30)}
		bad := []*Node{
			{T: tARRAY, Kids: []*Node{str}},
			{T: tREFN, Kids: []*Node{{T: tHASH, Kids: []*Node{{T: tBINARY, S: "k", IsStr: true}, str}}}},
			{T: tREFN, Kids: []*Node{str}},
			str,
			{T: tPOS, I: 3},
			{T: tUNDEF},
			{T: tREFN, Kids: []*Node{{T: tARRAY, Kids: []*Node{g.intNode()}}}},
			{T: tREFN, Kids: []*Node{{T: tARRAY, Kids: []*Node{{T: tUNDEF}}}}},
			{T: tREFN, Kids: []*Node{{T: tARRAY}}},
		}
		f.Kids = append(f.Kids, bad[r.N(len(bad))])
		appended(f, g.scalar())
		finish("malformed frozen object")
	}
}

func c07Compressed(c *Ctx, d *Doc) {
	r := c.R
	for d.Type == 0 {
		d.Type = docTypeFor(r, d.Version)
		if d.Version == 2 {
			d.Type = 2
		}
	}
	raw, hl := d.raw()
	b := d.bytes(r)
	c.Count("defect: compressed data", 1)
	what := fmt.Sprintf("type %d", d.Type)
	switch r.N(3) {
	case 0: // the declared compressed length is longer than the data
		if d.Type == 1 {
			return
		}
		out := append([]byte{}, b[:hl]...)
		rest := b[hl:]
		if d.Type == 3 {
			_, n := uvarint(rest)
			out = append(out, rest[:n]...)
			rest = rest[n:]
		}
		ln, n := uvarint(rest)
		out = putVarint(out, ln+uint64(pick(r, 1, 2, 100, 1<<20, 1<<31, 1<<40, 1<<62)), 0)
		out = append(out, rest[n:]...)
		mustFail(c, out, what+": compressed length beyond the data")
	case 1: // the declared compressed length is shorter: the stream is cut
		if d.Type == 1 {
			return
		}
		out := append([]byte{}, b[:hl]...)
		rest := b[hl:]
		if d.Type == 3 {
			_, n := uvarint(rest)
			out = append(out, rest[:n]...)
			rest = rest[n:]
		}
		ln, n := uvarint(rest)
		if ln < 2 {
			return
		}
		out = putVarint(out, uint64(r.N(int(ln-1))), 0)
		out = append(out, rest[n:]...)
		mustFail(c, out, what+": compressed length shorter than the data")
	case 2: // damage: an error or, where a bit does not matter, the same value
		if d.Type == 1 || d.Type == 2 {
			return // no checksum
		}
		if d.Type == 4 {
			return // none by default either
		}
		out := append([]byte{}, b...)
		_, n := uvarint(out[hl:])
		_, n2 := uvarint(out[hl+n:])
		i := hl + n + n2
		if i >= len(out) {
			return
		}
		i += r.N(len(out) - i)
		out[i] ^= 1 << uint(r.N(8))
		x, err := decodeAny(&sereal.Decoder{}, out)
		c.Count("decodes", 1)
		if err == nil {
			y, err2 := decodeAny(&sereal.Decoder{}, raw)
			if err2 != nil {
				c.Fail("%v", err2)
				return
			}
			if df := diffV(fromGo(y), fromGo(x), eqOpt{CollapsePtr: true, Share: true}); df != "" {
				c.Fail("damaged zlib data decoded to something else: %s\n%x", df, clip(out))
			}
		}
	}
}

func uvarint(b []byte) (uint64, int) {
	var u uint64
	for i, c := range b {
		if i < 10 {
			u |= uint64(c&0x7f) << uint(7*i)
		}
		if c < 0x80 {
			return u, i + 1
		}
	}
	return 0, len(b)
}
