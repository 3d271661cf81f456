package main

import (
	"bytes"
	"fmt"

	"github.com/Sereal/Sereal/Go/sereal"
)

func init() {
	register(&Check{
		ID:     "C12",
		Rule:   "A case is a merger with a random configuration and a history of Appends of well-formed documents, mixed with cut, corrupt, unsupported or arbitrary ones; those with a known defect must be refused, and the result must have the content that a merger gives which never saw the refused ones (and that the evaluation of the good documents gives); distinct by history; non-trivial: at least one refused and one accepted document.",
		Assume: []string{"garbage behind a complete body, EXTEND and LONG_DOUBLE tags and hash keys that are not strings are outside the statement: the merger does not look at them"},
		Phases: []Phase{
			{Name: "history", Quick: 60000, Thor: 1500000, Run: c12History},
			{Name: "prefixes", Quick: 6000, Thor: 150000, Run: c12Prefixes},
			{Name: "arbitrary", Quick: 100000, Thor: 3000000, Run: c12Arbitrary},
			{Name: "arbitrary-asan", Flavor: "asan", Quick: 10000, Thor: 300000, Run: c12Arbitrary},
			{Name: "arbitrary-checkptr", Flavor: "checkptr", Quick: 10000, Thor: 300000, Run: c12Arbitrary},
			{Name: "history-pure", Flavor: "pure", Quick: 6000, Thor: 150000, Run: c12History},
		},
	})
}

// breakDoc makes a document that must be refused, or one of unknown fate.
func breakDoc(c *Ctx, m mergeCfg) (b []byte, what string, must bool) {
	r := c.R
	v := r.In(1, 4)
	d, g := genDoc(r, v, func(g *docGen) {
		if g.maxStr > 300 {
			g.maxStr = 300
		}
		if g.budget > 80 {
			g.budget = 80
		}
	})
	d.Type = docTypeFor(r, v)
	if c.Phase == "history-pure" && d.Type == 4 {
		d.Type = 0
	}
	var all []*Node
	walk(d.Body, func(n *Node) { all = append(all, n) })
	// rebuild writes the document with the damaged raw body
	rebuild := func(f func(raw []byte, hl int)) []byte {
		raw, hl := d.raw()
		f(raw, hl)
		if d.Type == 0 {
			return raw
		}
		raw[4] = byte(d.Version) | byte(d.Type)<<4
		return append(raw[:hl:hl], compressBody(r, d.Type, raw[hl:])...)
	}
	switch r.N(11) {
	case 0, 1: // the file is cut
		b := d.bytes(r)
		return b[:r.N(len(b))], "cut", true
	case 2: // the body is cut behind the compression
		raw, hl := d.raw()
		n := hl + r.N(len(raw)-hl)
		body := raw[hl:n]
		if d.Type == 0 {
			return raw[:n], "cut", true
		}
		raw[4] = byte(d.Version) | byte(d.Type)<<4
		return append(raw[:hl:hl], compressBody(r, d.Type, append([]byte{}, body...))...), "cut behind the compression", true
	case 3: // unknown tag
		n := all[r.N(len(all))]
		bad := pick(r, byte(0x34), 0x35, 0x36, 0x37, 0x38, tMANY, tPACKET)
		return rebuild(func(raw []byte, hl int) { raw[n.pos] = raw[n.pos]&tTrack | bad }), fmt.Sprintf("tag %#x", bad), true
	case 4, 5: // bad offset, behind everything
		t := pick(r, byte(tCOPY), byte(tREFP), byte(tALIAS), byte(tOBJV), byte(tOBJVF))
		n := &Node{T: t, Target: &Node{}}
		switch t {
		case tOBJV:
			n.Kids = []*Node{g.ref()}
		case tOBJVF:
			n.Kids = []*Node{{T: tREFN, Kids: []*Node{{T: tARRAY, Kids: []*Node{{T: tBINARY, S: "x"}}}}}}
		}
		str := g.strNode(randText(r, r.In(3, 40)))
		d.Body = &Node{T: tARRAY, Kids: []*Node{str, d.Body, n, g.strNode("behind")}}
		if m.ArrayRef {
			d.Body = &Node{T: tREFN, Kids: []*Node{d.Body}}
		}
		d.raw()
		what := ""
		switch r.N(6) {
		case 0:
			n.Target.Off = n.Off
			what = "offset of itself"
		case 1:
			n.Target.Off = n.Off + r.In(1, 12)
			what = "offset forwards"
		case 2:
			n.Target.Off = pick(r, 1<<20, 1<<31-1, 1<<31, 1<<32, 1<<62, -1, -2, -n.Off)
			what = "huge offset"
		case 3:
			n.Target.Off = d.Body.Off - d.Body.Pads - 1
			if v == 1 {
				n.Target.Off = r.N(5)
			}
			what = "offset before the body"
		default:
			// inside the contents of a string
			n.Target.Off = str.Off + 2 + r.N(len(str.S)-1)
			if str.T != tSHORT {
				n.Target.Off = str.Off + str.end - str.pos - len(str.S) + r.N(len(str.S))
			}
			what = "offset into a string"
		}
		return d.bytes(r), what, true
	case 6: // bad header
		b := d.bytes(r)
		switch r.N(4) {
		case 0:
			copy(b, magicOf(5-v)) // 1<->4, 2<->3
			if v == 1 && d.Type == 1 {
				d.Type = 1
			}
			return b, "magic of another version", true
		case 1:
			b[r.N(4)] ^= 1 << uint(r.N(8))
			return b, "bad magic", true
		case 2:
			b[4] = b[4]&0xf0 | byte(pick(r, 0, 5, 6, 7, 15))
			return b, "bad version", true
		}
		t := pick(r, 5, 6, 7, 8, 15)
		if v > 1 && r.Bool() {
			t = 1
		} else if v < 3 && r.Bool() {
			t = pick(r, 3, 4)
		}
		b[4] = b[4]&0x0f | byte(t)<<4
		return b, "bad type", true
	case 7: // class names that are not strings
		n := g.object()
		n.T = tOBJECT
		cl := g.intNode()
		if r.Bool() {
			cl = g.container(true)
		}
		n.Kids = []*Node{cl, n.Kids[len(n.Kids)-1]}
		n.Target = nil
		d.Body = &Node{T: tARRAY, Kids: []*Node{d.Body, n}}
		return d.bytes(r), "class is not a string", true
	case 8: // sizes
		n := &Node{T: pick(r, byte(tBINARY), byte(tUTF8), byte(tARRAY), byte(tHASH))}
		sz := pick(r, uint64(1000), 1<<20, 1<<31, 1<<32, 1<<62, 1<<63, 1<<64-1)
		n.Raw = append([]byte{n.T}, putVarint(nil, sz, 0)...)
		n.Raw = append(n.Raw, r.Bytes(r.N(10))...)
		d.Body = &Node{T: tARRAY, Kids: []*Node{d.Body, n}}
		return d.bytes(r), fmt.Sprintf("size %d", sz), n.T == tBINARY || n.T == tUTF8
	case 9:
		return mutate(r, d.bytes(r), r.N(8)), "mutated", false
	}
	return rebuild(func(raw []byte, hl int) {
		for k := r.In(1, 3); k > 0; k-- {
			i := hl + r.N(len(raw)-hl)
			switch r.N(3) {
			case 0:
				raw[i] ^= 1 << uint(r.N(8))
			case 1:
				raw[i] = interestingBytes[r.N(len(interestingBytes))]
			case 2:
				copy(raw[i:], interestingVarint(r))
			}
		}
	}), "mutated behind the compression", false
}

type mergeStep struct {
	b    []byte
	what string
}

func c12History(c *Ctx) {
	r := c.R
	m := randMergeCfg(r)
	if r.P(3) {
		m.Comp = 0
	}
	mg := m.merger()
	var good []mergeStep
	var counts []int
	want := &V{K: KArr}
	allGood, refused := true, 0
	total := 0
	var hist []string
	hash := uint64(0)
	for n := r.In(1, 10); n > 0; n-- {
		if r.P(2) {
			b, root, desc := m.mergeInput(c, r.In(1, 30))
			if c.Failed() {
				return
			}
			k, err := mg.Append(append([]byte{}, b...))
			hist = append(hist, fmt.Sprintf("good %s -> %d %v %x", desc, k, err, clip(b)))
			if err != nil {
				c.Fail("%v: a well-formed document is refused: %v\n%v", m, err, hist)
				return
			}
			kids, _ := m.flatKids(root)
			et := newTyped()
			for _, k := range kids {
				want.A = append(want.A, et.val(k))
			}
			good = append(good, mergeStep{b, desc})
			counts = append(counts, k)
			total += k
			c.Count("accepted", 1)
			hash = mix(hash ^ hashStr(string(b)))
			continue
		}
		var b []byte
		var what string
		must := false
		if r.P(12) {
			b, what = hostile(c), "hostile"
			if c.Phase == "history-pure" && len(b) > 4 && b[4]>>4 == 4 {
				continue
			}
		} else {
			b, what, must = breakDoc(c, m)
		}
		hash = mix(hash ^ hashStr(string(b)))
		orig := append([]byte{}, b...)
		k, err := mg.Append(b)
		hist = append(hist, fmt.Sprintf("bad %s -> %d %v %x", what, k, err, clip(orig)))
		if !bytes.Equal(b, orig) {
			c.Fail("Append modified its input")
		}
		if err == nil {
			if must {
				c.Fail("%v: a broken document (%s) is accepted\n%x", m, what, clip(orig))
				return
			}
			good = append(good, mergeStep{orig, what})
			counts = append(counts, k)
			total += k
			allGood = false
			c.Count("damaged_accepted", 1)
			continue
		}
		if k != 0 {
			c.Fail("%v: a refused document counts %d elements (%s: %v)", m, k, what, err)
			return
		}
		refused++
		c.Count("refused: "+whatClass(what), 1)
	}
	if refused > 0 && len(good) > 0 {
		c.Distinct(hash)
	}
	out, err := mg.Finish()
	if err != nil {
		c.Fail("%v: Finish: %v\n%v", m, err, hist)
		return
	}
	// the same without what was refused
	mb := m.merger()
	for i, s := range good {
		k, err := mb.Append(append([]byte{}, s.b...))
		if err != nil || k != counts[i] {
			c.Fail("%v: without the refused documents Append of %s returns %d, %v\n%v", m, s.what, k, err, hist)
			return
		}
	}
	out2, err := mb.Finish()
	if err != nil {
		c.Fail("%v: Finish without the refused documents: %v", m, err)
		return
	}
	if total == 0 {
		x, err := decodeAny(&sereal.Decoder{}, out)
		if a, ok := x.([]any); err != nil || !ok || len(a) != 0 {
			c.Fail("%v: nothing was appended, but decoding gives %v, %v\n%x\n%v", m, x, err, out, hist)
		}
		return
	}
	if allGood {
		items := m.mergedItems(c, out)
		if c.Failed() {
			c.Fail("%v", hist)
			return
		}
		if df := diffV(want, evalList(items, sameCtx(newTyped())), eqOpt{Share: true, PtrShare: true}); df != "" {
			c.Fail("%v: %s\nmerged %x\n%v", m, df, clip(out), hist)
			return
		}
		c.Count("histories_evaluated", 1)
		return
	}
	p1, e1 := parseDoc(out)
	p2, e2 := parseDoc(out2)
	if e1 == nil && e2 == nil {
		v1, v2 := evalAny(p1.Body), evalAny(p2.Body)
		if (v1 == nil) != (v2 == nil) {
			c.Fail("%v: with and without refused documents: only one has a meaning\nwith    %x\nwithout %x\n%v", m, clip(out), clip(out2), hist)
			return
		}
		if v1 == nil {
			c.Count("histories_without_meaning", 1)
			return
		}
		if df := diffV(v1, v2, eqOpt{Share: true, PtrShare: true}); df != "" {
			c.Fail("%v: with and without refused documents: %s\nwith    %x\nwithout %x\n%v", m, df, clip(out), clip(out2), hist)
		}
		c.Count("histories_compared", 1)
		return
	}
	c.Count("histories_not_well_formed", 1)
	if refused == 0 && m.Comp != 3 && !bytes.Equal(out, out2) {
		c.Fail("%v: the same documents give different results\n%x\n%x", m, clip(out), clip(out2))
	}
}

// evalAny returns nil for documents that have no finite meaning.
func evalAny(n *Node) (v *V) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(perr); !ok {
				panic(r)
			}
			v = nil
		}
	}()
	return evalTyped(n)
}

func whatClass(s string) string {
	if len(s) > 4 && (s[:4] == "tag " || s[:5] == "size ") {
		return s[:4]
	}
	return s
}

func sameCtx(e *evalCtx) func(int) *evalCtx { return func(int) *evalCtx { return e } }

// c12Prefixes: all prefixes of one document, into one merger.
func c12Prefixes(c *Ctx) {
	r := c.R
	m := randMergeCfg(r)
	b, root, desc := m.mergeInput(c, r.In(1, 15))
	if c.Failed() {
		return
	}
	step := 1
	if len(b) > 400 {
		step = len(b) / 200
	}
	mg := m.merger()
	cnt := 0
	want := &V{K: KArr}
	add := func() {
		k, err := mg.Append(b)
		kids, _ := m.flatKids(root)
		if err != nil || k != len(kids) {
			c.Fail("%v: Append returns %d, %v for a good document (%s) after %d prefixes of it\n%x", m, k, err, desc, cnt, b)
		}
		et := newTyped()
		for _, k := range kids {
			want.A = append(want.A, et.val(k))
		}
	}
	if r.Bool() {
		add()
	}
	for n := r.N(step); n < len(b) && !c.Failed(); n += step {
		k, err := mg.Append(b[:n:n])
		cnt++
		if err == nil || k != 0 {
			c.Fail("%v: Append of %d of %d bytes (%s) returns %d, %v\n%x", m, n, len(b), desc, k, err, b)
		}
	}
	c.Count("prefixes", int64(cnt))
	if c.Failed() {
		return
	}
	add()
	if c.Failed() {
		return
	}
	c.Distinct(hashStr(string(b)))
	out, err := mg.Finish()
	if err != nil {
		c.Fail("%v: Finish: %v", m, err)
		return
	}
	if len(want.A) == 0 {
		return
	}
	items := m.mergedItems(c, out)
	if c.Failed() {
		return
	}
	if df := diffV(want, evalList(items, sameCtx(newTyped())), eqOpt{Share: true, PtrShare: true}); df != "" {
		c.Fail("%v: after %d refused prefixes: %s\n%s %x\nmerged %x", m, cnt, df, desc, clip(b), clip(out))
	}
	if c.Idx%2000 == 1 {
		c.Sample("%v: %d prefixes of %x (%s)", m, cnt, clip(b), desc)
	}
}

// c12Arbitrary: nothing may crash.
func c12Arbitrary(c *Ctx) {
	r := c.R
	m := randMergeCfg(r)
	mg := m.merger()
	for n := r.In(1, 4); n > 0; n-- {
		b := hostile(c)
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.Fail("%v: Append: panic: %v\n%x", m, e, clip(b))
				}
			}()
			c.Distinct(hashStr(string(b)))
			k, err := mg.Append(b[:len(b):len(b)])
			if err == nil {
				c.Count("accepted", 1)
			} else {
				c.Count("refused", 1)
				if k != 0 {
					c.Fail("%v: a refused document counts %d elements: %v\n%x", m, k, err, clip(b))
				}
			}
		}()
		if c.Failed() {
			return
		}
	}
	out, err := mg.Finish()
	if err != nil {
		c.Fail("%v: Finish: %v", m, err)
		return
	}
	c.Count("finished", 1)
	if len(out) == 0 {
		c.Fail("%v: Finish returns nothing", m)
	}
}
