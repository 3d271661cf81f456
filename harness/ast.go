package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"

	"github.com/DataDog/zstd"
	"github.com/golang/snappy"
)

// tags of the format, from sereal_spec.pod
const (
	tPOS    = 0x00
	tNEG    = 0x10
	tVARINT = 0x20
	tZIGZAG = 0x21
	tFLOAT  = 0x22
	tDOUBLE = 0x23
	tLDBL   = 0x24
	tUNDEF  = 0x25
	tBINARY = 0x26
	tUTF8   = 0x27
	tREFN   = 0x28
	tREFP   = 0x29
	tHASH   = 0x2a
	tARRAY  = 0x2b
	tOBJECT = 0x2c
	tOBJV   = 0x2d
	tALIAS  = 0x2e
	tCOPY   = 0x2f
	tWEAKEN = 0x30
	tREGEXP = 0x31
	tOBJF   = 0x32
	tOBJVF  = 0x33
	tNO     = 0x34
	tYES    = 0x35
	tCUNDEF = 0x39
	tFALSE  = 0x3a
	tTRUE   = 0x3b
	tMANY   = 0x3c
	tPACKET = 0x3d
	tEXTEND = 0x3e
	tPAD    = 0x3f
	tAREF   = 0x40
	tHREF   = 0x50
	tSHORT  = 0x60
	tTrack  = 0x80
)

// Node is one item of a document.
type Node struct {
	T      byte // tag without the low bits of POS, NEG, SHORT, AREF, HREF
	I      int64
	U      uint64
	S      string
	Kids   []*Node // array elements; key, value, ...; class, item; pattern, modifiers; the item behind REFN and WEAKEN
	Target *Node   // REFP, ALIAS, COPY, OBJV, OBJVF
	Track  bool
	IsStr  bool // in a position where only a string may stand: key, class, pattern, modifiers

	// how it is written
	Pads   int
	PadTrk bool
	Wide   int // superfluous bytes of the varint

	Raw []byte // written as it is, for broken documents

	Off    int // offset by which others refer to it
	pos    int // position of its tag in the buffer
	end    int
	parent *Node
	open   bool

	v *V
}

func isStrTag(t byte) bool { return t == tBINARY || t == tUTF8 || t == tSHORT }

func putVarint(b []byte, u uint64, wide int) []byte {
	n := 0
	for u >= 0x80 {
		b = append(b, byte(u)|0x80)
		u >>= 7
		n++
	}
	for wide > 0 && n < 9 {
		b = append(b, byte(u)|0x80)
		u = 0
		n++
		wide--
	}
	return append(b, byte(u))
}

// docWriter writes nodes. Offsets of items are positions minus base.
type docWriter struct {
	b    []byte
	base int
}

func (w *docWriter) node(n *Node) {
	for i := 0; i < n.Pads; i++ {
		t := byte(tPAD)
		if n.PadTrk && i == 0 {
			t |= tTrack
		}
		w.b = append(w.b, t)
	}
	n.pos = len(w.b)
	n.Off = n.pos - w.base
	if n.Raw != nil {
		w.b = append(w.b, n.Raw...)
		n.end = len(w.b)
		return
	}
	tag := n.T
	if n.Track {
		tag |= tTrack
	}
	switch n.T {
	case tPOS, tNEG:
		w.b = append(w.b, tag|byte(n.I)&0x0f)
	case tVARINT:
		w.b = append(w.b, tag)
		w.b = putVarint(w.b, n.U, n.Wide)
	case tZIGZAG:
		w.b = append(w.b, tag)
		w.b = putVarint(w.b, uint64(n.I<<1)^uint64(n.I>>63), n.Wide)
	case tFLOAT:
		w.b = append(w.b, tag)
		w.b = binary.LittleEndian.AppendUint32(w.b, uint32(n.U))
	case tDOUBLE:
		w.b = append(w.b, tag)
		w.b = binary.LittleEndian.AppendUint64(w.b, n.U)
	case tLDBL:
		w.b = append(w.b, tag)
		w.b = append(w.b, longDouble(n.U)...)
	case tUNDEF, tCUNDEF, tTRUE, tFALSE, tYES, tNO:
		w.b = append(w.b, tag)
	case tBINARY, tUTF8:
		w.b = append(w.b, tag)
		w.b = putVarint(w.b, uint64(len(n.S)), n.Wide)
		w.b = append(w.b, n.S...)
	case tSHORT:
		w.b = append(w.b, tag|byte(len(n.S)))
		w.b = append(w.b, n.S...)
	case tARRAY:
		w.b = append(w.b, tag)
		w.b = putVarint(w.b, uint64(len(n.Kids)), n.Wide)
		w.kids(n)
	case tHASH:
		w.b = append(w.b, tag)
		w.b = putVarint(w.b, uint64(len(n.Kids)/2), n.Wide)
		w.kids(n)
	case tAREF:
		w.b = append(w.b, tag|byte(len(n.Kids)))
		w.kids(n)
	case tHREF:
		w.b = append(w.b, tag|byte(len(n.Kids)/2))
		w.kids(n)
	case tREFN, tWEAKEN, tREGEXP, tOBJECT, tOBJF:
		w.b = append(w.b, tag)
		w.kids(n)
	case tREFP, tALIAS, tCOPY:
		w.b = append(w.b, tag)
		w.b = putVarint(w.b, uint64(n.Target.Off), n.Wide)
	case tOBJV, tOBJVF:
		w.b = append(w.b, tag)
		w.b = putVarint(w.b, uint64(n.Target.Off), n.Wide)
		w.kids(n)
	default:
		panic(fmt.Sprintf("writer: tag %#x", n.T))
	}
	n.end = len(w.b)
}

func (w *docWriter) kids(n *Node) {
	for _, k := range n.Kids {
		w.node(k)
	}
}

// Doc is a document.
type Doc struct {
	Version int
	Type    int // 0 raw 1 snappy 2 incremental snappy 3 zlib 4 zstd
	Header  *Node
	Suffix  []byte // if Header is nil: flags byte and anything, or nothing
	Body    *Node
	WideSfx int
	// what else the suffix has when Header is there
	HeadFlags byte
	HeadTail  []byte
}

func magicOf(version int) []byte {
	if version < 3 {
		return []byte("=srl")
	}
	return []byte("=\xf3rl")
}

// head writes everything before the body.
func (d *Doc) head() []byte {
	b := append([]byte{}, magicOf(d.Version)...)
	b = append(b, byte(d.Version)|byte(d.Type)<<4)
	sfx := d.Suffix
	if d.Header != nil {
		w := docWriter{b: []byte{1 | d.HeadFlags}}
		w.base = 0 // the flags byte is at 0, the first item at 1
		w.node(d.Header)
		sfx = append(w.b, d.HeadTail...)
	}
	b = putVarint(b, uint64(len(sfx)), d.WideSfx)
	return append(b, sfx...)
}

// raw returns the uncompressed document and where its body starts.
func (d *Doc) raw() ([]byte, int) {
	t := d.Type
	d.Type = 0
	h := d.head()
	d.Type = t
	w := docWriter{b: h}
	if d.Version == 1 {
		w.base = 0
	} else {
		w.base = len(h) - 1
	}
	w.node(d.Body)
	return w.b, len(h)
}

// bytes returns the document, compressed according to its type.
func (d *Doc) bytes(r *Rng) []byte {
	raw, hl := d.raw()
	if d.Type == 0 {
		return raw
	}
	out := append([]byte{}, raw[:hl]...)
	out[4] = byte(d.Version) | byte(d.Type)<<4
	return append(out, compressBody(r, d.Type, raw[hl:])...)
}

// compressBody frames body the way the spec says, with the reference libraries.
func compressBody(r *Rng, typ int, body []byte) []byte {
	switch typ {
	case 1:
		return snappy.Encode(nil, body)
	case 2:
		c := snappy.Encode(nil, body)
		return append(putVarint(nil, uint64(len(c)), wideOf(r)), c...)
	case 3:
		var buf bytes.Buffer
		lv := zlib.DefaultCompression
		if r != nil {
			lv = r.In(-2, 9)
		}
		zw, _ := zlib.NewWriterLevel(&buf, lv)
		zw.Write(body)
		zw.Close()
		b := putVarint(nil, uint64(len(body)), wideOf(r))
		b = putVarint(b, uint64(buf.Len()), wideOf(r))
		return append(b, buf.Bytes()...)
	case 4:
		lv := 3
		if r != nil {
			lv = r.In(1, 12)
		}
		c, err := zstd.CompressLevel(nil, body, lv)
		if err != nil {
			panic(err)
		}
		return append(putVarint(nil, uint64(len(c)), wideOf(r)), c...)
	}
	return body
}

func wideOf(r *Rng) int {
	if r != nil && r.P(8) {
		return r.In(1, 3)
	}
	return 0
}

var errFrame = errors.New("compressed framing is not exact")

// decompressBody is the independent inverse; every byte must be accounted for.
func decompressBody(typ int, b []byte) ([]byte, error) {
	switch typ {
	case 0:
		return b, nil
	case 1:
		return snappy.Decode(nil, b)
	case 2, 4:
		u, n := binary.Uvarint(b)
		if n <= 0 || u != uint64(len(b)-n) {
			return nil, errFrame
		}
		if typ == 4 {
			return zstd.Decompress(nil, b[n:])
		}
		return snappy.Decode(nil, b[n:])
	case 3:
		ul, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, errFrame
		}
		cl, n2 := binary.Uvarint(b[n:])
		if n2 <= 0 || cl != uint64(len(b)-n-n2) {
			return nil, errFrame
		}
		rd := bytes.NewReader(b[n+n2:])
		zr, err := zlib.NewReader(rd)
		if err != nil {
			return nil, err
		}
		out, err := io.ReadAll(zr)
		if err != nil {
			return nil, err
		}
		if uint64(len(out)) != ul || rd.Len() != 0 {
			return nil, errFrame
		}
		return out, nil
	}
	return nil, fmt.Errorf("unknown document type %d", typ)
}

// ---- meaning of a document ----

// evalCtx evaluates nodes. In plain mode references, classes and weakness are transparent.
type evalCtx struct {
	perl  bool
	ktype bool // hash keys carry their string type
	chars bool // keys, classes and patterns are characters
	depth int  // of COPYs
	nodes map[*Node]*V
}

func evalDoc(n *Node, perl bool) *V {
	e := &evalCtx{perl: perl, nodes: map[*Node]*V{}}
	return e.val(n)
}

func (e *evalCtx) val(n *Node) *V {
	if v, ok := e.nodes[n]; ok {
		return v
	}
	set := func(v *V) *V { e.nodes[n] = v; return v }
	switch n.T {
	case tPOS, tNEG:
		return set(vInt(n.I))
	case tVARINT:
		return set(vUint(n.U))
	case tZIGZAG:
		return set(vInt(n.I))
	case tFLOAT:
		return set(&V{K: KF32, U: n.U})
	case tDOUBLE:
		return set(&V{K: KF64, U: n.U})
	case tUNDEF:
		if e.perl {
			return set(&V{K: KUndef})
		}
		return set(&V{K: KNil})
	case tCUNDEF:
		if e.perl {
			return set(&V{K: KCUndef})
		}
		return set(&V{K: KNil})
	case tTRUE, tFALSE:
		return set(vBool(n.T == tTRUE))
	case tBINARY, tSHORT:
		return set(vBytes(n.S))
	case tUTF8:
		return set(vStr(n.S))
	case tARRAY, tAREF:
		v := &V{K: KArr, A: make([]*V, len(n.Kids))}
		if n.T == tAREF && e.perl {
			set(&V{K: KPtr, A: []*V{v}})
		} else {
			set(v)
		}
		for i, k := range n.Kids {
			v.A[i] = e.val(k)
		}
		return e.nodes[n]
	case tHASH, tHREF:
		v := &V{K: KMap, M: make(map[string]*V, len(n.Kids)/2)}
		if n.T == tHREF && e.perl {
			set(&V{K: KPtr, A: []*V{v}})
		} else {
			set(v)
		}
		for i := 0; i+1 < len(n.Kids); i += 2 {
			k := e.str(n.Kids[i])
			if e.ktype {
				k = strTypeOf(n.Kids[i]) + k
			}
			v.M[k] = e.val(n.Kids[i+1])
		}
		return e.nodes[n]
	case tREFN:
		if !e.perl {
			return set(e.val(n.Kids[0]))
		}
		v := set(&V{K: KPtr, A: []*V{nil}})
		v.A[0] = e.val(n.Kids[0])
		return v
	case tREFP:
		if !e.perl {
			return set(e.val(n.Target))
		}
		v := set(&V{K: KPtr, A: []*V{nil}})
		v.A[0] = e.val(n.Target)
		return v
	case tALIAS:
		return set(e.val(n.Target))
	case tCOPY:
		c := &evalCtx{perl: e.perl, ktype: e.ktype, chars: e.chars, depth: e.depth + 1, nodes: map[*Node]*V{}}
		if c.depth > 30 {
			panic(perr{"COPY without end"})
		}
		return set(c.val(n.Target))
	case tWEAKEN:
		if !e.perl {
			return set(e.val(n.Kids[0]))
		}
		v := set(&V{K: KWeak, A: []*V{nil}})
		v.A[0] = e.val(n.Kids[0])
		return v
	case tREGEXP:
		return set(&V{K: KRegexp, S: e.str(n.Kids[0]), S2: strOf(n.Kids[1])})
	case tOBJECT, tOBJV:
		if !e.perl {
			return set(e.val(n.Kids[len(n.Kids)-1]))
		}
		v := set(&V{K: KObj, S: classOf(n), A: []*V{nil}})
		if e.chars && n.Target != nil {
			v.S = charsOf(n.Target)
		} else if e.chars {
			v.S = charsOf(n.Kids[0])
		}
		v.A[0] = e.val(n.Kids[len(n.Kids)-1])
		return v
	case tOBJF, tOBJVF:
		f := n.Kids[len(n.Kids)-1].Kids[0].Kids[0] // REFN ARRAY 1 <string>
		return set(&V{K: KFreeze, S: classOf(n), S2: strOf(f)})
	}
	panic(fmt.Sprintf("eval: tag %#x", n.T))
}

func (e *evalCtx) str(n *Node) string {
	if e.chars {
		return charsOf(n)
	}
	return strOf(n)
}

// evalTyped keeps the string types of hash keys apart.
func evalTyped(n *Node) *V {
	e := &evalCtx{perl: true, ktype: true, nodes: map[*Node]*V{}}
	return e.val(n)
}

func strTypeOf(n *Node) string {
	for n.T == tCOPY {
		n = n.Target
	}
	if n.T == tUTF8 {
		return "u:"
	}
	return "b:"
}

func classOf(n *Node) string {
	if n.Target != nil {
		return strOf(n.Target)
	}
	return strOf(n.Kids[0])
}

// strOf is the content of a string item.
func strOf(n *Node) string {
	for n.T == tCOPY {
		n = n.Target
	}
	return n.S
}

func f32bits(f float32) uint64 { return uint64(math.Float32bits(f)) }

// longDouble is a float64 as the x87 writes it to 16 bytes.
func longDouble(u uint64) []byte {
	se := uint16(u >> 63 << 15)
	frac := u & (1<<52 - 1)
	var m uint64
	switch e := u >> 52 & 0x7ff; {
	case e == 0x7ff:
		se |= 0x7fff
		m = 1<<63 | frac<<11
	case e == 0 && frac == 0:
	case e == 0:
		x := 16383 - 1022
		for frac>>52 == 0 {
			frac <<= 1
			x--
		}
		se |= uint16(x)
		m = frac << 11
	default:
		se |= uint16(e - 1023 + 16383)
		m = 1<<63 | frac<<11
	}
	b := binary.LittleEndian.AppendUint64(nil, m)
	b = binary.LittleEndian.AppendUint16(b, se)
	return append(b, 0, 0, 0, 0, 0, 0)
}
