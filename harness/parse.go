package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
)

// parser is a strict reader of documents, written from sereal_spec.pod alone.
type parser struct {
	b     []byte
	p     int
	base  int // offset = position - base
	limit int
	items map[int]*Node // by position of the tag
	depth int
	yesNo bool
	perl  bool // what only Perl writes: version 5, any arguments of frozen objects
}

type perr struct{ s string }

func (p *parser) fail(f string, a ...any) {
	panic(perr{fmt.Sprintf("at %d: ", p.p) + fmt.Sprintf(f, a...)})
}

func (p *parser) byte() byte {
	if p.p >= p.limit {
		p.fail("unexpected end")
	}
	c := p.b[p.p]
	p.p++
	return c
}

func (p *parser) varint() uint64 {
	u, n := binary.Uvarint(p.b[p.p:p.limit])
	if n <= 0 {
		p.fail("bad varint")
	}
	p.p += n
	return u
}

func (p *parser) bytes(n uint64) string {
	if n > uint64(p.limit-p.p) {
		p.fail("string of %d bytes, %d are left", n, p.limit-p.p)
	}
	s := string(p.b[p.p : p.p+int(n)])
	p.p += int(n)
	return s
}

// target finds the item at an offset read from the document.
func (p *parser) target(off uint64, at int) *Node {
	if off > math.MaxInt32 {
		p.fail("offset %d", off)
	}
	t := p.items[int(off)+p.base]
	if t == nil || t.pos > at || t.pos == at && !p.perl {
		p.fail("offset %d is not the start of an earlier item", off)
	}
	return t
}

func (p *parser) item(strOnly bool) *Node {
	if p.depth++; p.depth > 200000 {
		p.fail("too deep")
	}
	defer func() { p.depth-- }()
	pads := 0
	c := p.byte()
	var padded []int
	for c&^tTrack == tPAD {
		if pads++; c&tTrack != 0 && p.perl {
			padded = append(padded, p.p-1) // once a WEAKEN
		}
		c = p.byte()
	}
	n := &Node{Pads: pads, pos: p.p - 1, Track: c&tTrack != 0, IsStr: strOnly, open: true}
	n.Off = n.pos - p.base
	c &^= tTrack
	p.items[n.pos] = n
	for _, x := range padded {
		p.items[x], n.Track = n, true
	}
	if strOnly && !(c == tBINARY || c == tUTF8 || c >= tSHORT || c == tCOPY) {
		p.fail("tag %#x where a string is needed", c)
	}
	switch {
	case c < tNEG:
		n.T, n.I, n.U = tPOS, int64(c), uint64(c)
	case c < tVARINT:
		n.T, n.I = tNEG, int64(c)-32
	case c == tVARINT:
		n.T, n.U = c, p.varint()
		n.I = int64(n.U)
	case c == tZIGZAG:
		u := p.varint()
		n.T, n.I = c, int64(u>>1)^-int64(u&1)
	case c == tFLOAT:
		s := p.bytes(4)
		n.T, n.U = c, uint64(binary.LittleEndian.Uint32([]byte(s)))
	case c == tDOUBLE:
		s := p.bytes(8)
		n.T, n.U = c, binary.LittleEndian.Uint64([]byte(s))
	case c == tUNDEF, c == tCUNDEF, c == tTRUE, c == tFALSE:
		n.T = c
	case p.perl && (c == tYES || c == tNO):
		n.T = c
		p.yesNo = true
	case c == tBINARY, c == tUTF8:
		n.T = c
		n.S = p.bytes(p.varint())
	case c >= tSHORT:
		n.T = tSHORT
		n.S = p.bytes(uint64(c & 31))
	case c == tARRAY, c >= tAREF && c < tHREF:
		cnt := uint64(c & 15)
		n.T = tAREF
		if c == tARRAY {
			n.T, cnt = c, p.varint()
		}
		if cnt > uint64(p.limit-p.p) {
			p.fail("array of %d", cnt)
		}
		for i := uint64(0); i < cnt; i++ {
			n.Kids = append(n.Kids, p.kid(n, false))
		}
	case c == tHASH, c >= tHREF && c < tSHORT:
		cnt := uint64(c & 15)
		n.T = tHREF
		if c == tHASH {
			n.T, cnt = c, p.varint()
		}
		if cnt > uint64(p.limit-p.p) {
			p.fail("hash of %d", cnt)
		}
		seen := map[string]bool{}
		for i := uint64(0); i < cnt; i++ {
			k := p.kid(n, true)
			if seen[strOf(k)] {
				p.fail("duplicate key %q", strOf(k))
			}
			seen[strOf(k)] = true
			n.Kids = append(n.Kids, k, p.kid(n, false))
		}
	case c == tREFN, c == tWEAKEN:
		n.T = c
		n.Kids = []*Node{p.kid(n, false)}
		if c == tWEAKEN {
			switch n.Kids[0].T {
			case tREFN, tREFP, tAREF, tHREF, tOBJECT, tOBJV, tCOPY, tALIAS:
			default:
				p.fail("WEAKEN of tag %#x", n.Kids[0].T)
			}
		}
	case c == tREFP, c == tALIAS:
		n.T = c
		t := p.target(p.varint(), n.pos)
		if !t.Track {
			p.fail("tag %#x refers to an item without track flag at %d", c, t.pos)
		}
		if t.IsStr {
			p.fail("tag %#x refers to a key or class name", c)
		}
		n.Target = t
	case c == tCOPY:
		n.T = c
		t := p.target(p.varint(), n.pos)
		if t.open {
			p.fail("COPY of an enclosing item")
		}
		if strOnly && !isStrTag(t.T) {
			p.fail("COPY of tag %#x where a string is needed", t.T)
		}
		if t.T == tCOPY {
			p.fail("COPY of a COPY")
		}
		n.Target = t
	case c == tREGEXP:
		n.T = c
		n.Kids = []*Node{p.kid(n, true), p.kid(n, true)}
	case c == tOBJECT:
		n.T = c
		n.Kids = []*Node{p.kid(n, true), p.kid(n, false)}
	case c == tOBJF:
		n.T = c
		n.Kids = []*Node{p.kid(n, true)}
		n.Kids = append(n.Kids, p.payload(n))
	case c == tOBJV, c == tOBJVF:
		n.T = c
		t := p.target(p.varint(), n.pos)
		if !isStrTag(t.T) && !(t.T == tCOPY && t.IsStr) {
			p.fail("class offset leads to tag %#x", t.T)
		}
		n.Target = t
		if c == tOBJV {
			n.Kids = []*Node{p.kid(n, false)}
		} else {
			n.Kids = []*Node{p.payload(n)}
		}
	default:
		p.fail("tag %#x", c)
	}
	n.open = false
	n.end = p.p
	return n
}

func (p *parser) payload(n *Node) *Node {
	k := p.kid(n, false)
	if p.perl {
		if k.T == tAREF || k.T == tREFN && k.Kids[0].T == tARRAY || k.T == tREFP && k.Target.T == tARRAY {
			return k
		}
		p.fail("payload of a frozen object")
	}
	isStr := func(n *Node) bool { return isStrTag(n.T) || n.T == tCOPY && isStrTag(n.Target.T) }
	if k.T == tAREF && len(k.Kids) == 1 && isStr(k.Kids[0]) {
		return &Node{T: tREFN, Kids: []*Node{{T: tARRAY, Kids: k.Kids}}}
	}
	if k.T != tREFN || k.Kids[0].T != tARRAY || len(k.Kids[0].Kids) != 1 || !isStr(k.Kids[0].Kids[0]) {
		p.fail("payload of a frozen object")
	}
	return k
}

func (p *parser) kid(n *Node, strOnly bool) *Node {
	k := p.item(strOnly)
	k.parent = n
	return k
}

// parsed is a document as the strict parser sees it.
type parsed struct {
	Version, Type int
	Suffix        []byte
	Header, Body  *Node
	RawBody       []byte
	items         map[int]*Node
}

var errTrailing = errors.New("bytes after the body")

// parseDoc reads a document; every byte must be accounted for.
func parseDoc(b []byte) (d *parsed, err error) { return parseAs(b, false) }

func parseAs(b []byte, perl bool) (d *parsed, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(perr); ok {
				d, err = nil, errors.New(e.s)
				return
			}
			panic(r)
		}
	}()
	if len(b) < 7 {
		return nil, errors.New("too short")
	}
	d = &parsed{Version: int(b[4] & 15), Type: int(b[4] >> 4)}
	if d.Version < 1 || d.Version > 4 && !(perl && d.Version == 5) {
		return nil, fmt.Errorf("version %d", d.Version)
	}
	if string(b[:4]) != string(magicOf(d.Version)) {
		return nil, fmt.Errorf("magic %q for version %d", b[:4], d.Version)
	}
	switch d.Type {
	case 0, 2:
	case 1:
		if d.Version != 1 {
			return nil, errors.New("type 1 in version > 1")
		}
	case 3:
		if d.Version < 3 {
			return nil, errors.New("type 3 in version < 3")
		}
	case 4:
		if d.Version < 4 {
			return nil, errors.New("type 4 in version < 4")
		}
	default:
		return nil, fmt.Errorf("type %d", d.Type)
	}
	sl, n := binary.Uvarint(b[5:])
	if n <= 0 || sl > uint64(len(b)-5-n) {
		return nil, errors.New("bad header length")
	}
	start := 5 + n
	bodyStart := start + int(sl)
	d.Suffix = b[start:bodyStart]
	if len(d.Suffix) > 0 && d.Suffix[0]&1 == 1 {
		p := &parser{perl: perl, b: d.Suffix, p: 1, base: 0, limit: len(d.Suffix), items: map[int]*Node{}}
		d.Header = p.item(false)
		if p.p != p.limit {
			return nil, fmt.Errorf("header: %w", errTrailing)
		}
	}
	body, err := decompressBody(d.Type, b[bodyStart:])
	if err != nil {
		return nil, err
	}
	d.RawBody = body
	full := append(append([]byte{}, b[:bodyStart]...), body...)
	p := &parser{perl: perl, b: full, p: bodyStart, limit: len(full), items: map[int]*Node{}}
	if d.Version > 1 {
		p.base = bodyStart - 1
	}
	d.Body = p.item(false)
	if p.p != p.limit {
		return nil, errTrailing
	}
	if p.yesNo && d.Version < 5 {
		return nil, errors.New("YES or NO before version 5")
	}
	d.items = p.items
	return d, nil
}
