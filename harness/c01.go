package main

import (
	"fmt"
	"runtime/metrics"
	"syscall"

	"github.com/Sereal/Sereal/Go/sereal"
)

func init() {
	register(&Check{
		ID:     "C01",
		Rule:   "A case is a byte string (a mutated or spliced well-formed document, raw tag soup, crafted declared lengths, crafted nesting) given to Unmarshal, UnmarshalHeader and UnmarshalHeaderBody of decoders with random flags into one of about 55 target types, to DecompressDocument and LooksLikeSereal; monitored for panics, process death, hangs and allocated bytes; distinct by its bytes and target; non-trivial: the header is accepted.",
		Assume: []string{"a case that neither finishes in 150 s nor does so when run alone is a hang", "workers of the plain flavour run under an address space limit of 10 GB", "quadratic work through COPY tags is allowed"},
		Phases: []Phase{
			{Name: "mutated", Quick: 400000, Thor: 6000000, Run: c01Mutated, Init: c01Limit},
			{Name: "claims", Quick: 30000, Thor: 400000, Run: c01Claims, Init: c01Limit},
			{Name: "nesting", Quick: 240, Thor: 2000, Run: c01Nesting, Init: c01Limit, Shards: 4},
			{Name: "mutated-asan", Flavor: "asan", Quick: 12000, Thor: 300000, Run: c01Mutated},
			{Name: "mutated-checkptr", Flavor: "checkptr", Quick: 12000, Thor: 300000, Run: c01Mutated},
			{Name: "mutated-pure", Flavor: "pure", Quick: 8000, Thor: 300000, Run: c01Mutated},
		},
	})
}

func c01Limit(c *Ctx) {
	lim := syscall.Rlimit{Cur: 10 << 30, Max: 10 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

var interestingBytes = []byte{0, 1, 0x0f, 0x10, 0x1f, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f, 0x30,
	0x31, 0x32, 0x33, 0x39, 0x3a, 0x3b, 0x3c, 0x3d, 0x3e, 0x3f, 0x40, 0x41, 0x4f, 0x50, 0x51, 0x60, 0x61, 0x7f, 0x80, 0xa8, 0xa9, 0xab, 0xaa, 0xff, 0xfe}

func interestingVarint(r *Rng) []byte {
	switch r.N(6) {
	case 0:
		return putVarint(nil, uint64(boundInts[r.N(len(boundInts))]), 0)
	case 1:
		return putVarint(nil, ^uint64(0)-uint64(r.N(40)), 0)
	case 2:
		return putVarint(nil, 1<<63+uint64(r.N(40))-20, 0)
	case 3:
		b := make([]byte, r.In(1, 14))
		for i := range b {
			b[i] = 0x80 | byte(r.U64())
		}
		if r.Bool() {
			b = append(b, byte(r.N(128)))
		}
		return b
	case 4:
		return putVarint(nil, uint64(r.N(300)), r.N(3))
	}
	return putVarint(nil, r.U64()>>uint(r.N(64)), 0)
}

// mutate changes b in a few places from lo on.
func mutate(r *Rng, b []byte, lo int) []byte {
	b = append([]byte{}, b...)
	if len(b) <= lo {
		return append(b, r.Bytes(r.N(8))...)
	}
	n := 1
	if r.P(2) {
		n = r.In(1, 8)
	}
	for ; n > 0; n-- {
		if len(b) <= lo {
			break
		}
		i := lo + r.N(len(b)-lo)
		switch r.N(9) {
		case 0:
			b[i] ^= 1 << uint(r.N(8))
		case 1:
			b[i] = interestingBytes[r.N(len(interestingBytes))]
		case 2:
			b[i] = byte(r.U64())
		case 3: // insert
			ins := []byte{interestingBytes[r.N(len(interestingBytes))]}
			if r.Bool() {
				ins = append(ins, interestingVarint(r)...)
			}
			b = append(b[:i:i], append(ins, b[i:]...)...)
		case 4: // overwrite with a varint
			v := interestingVarint(r)
			copy(b[i:], v)
		case 5: // delete
			j := i + r.N(min(len(b)-i, 10)+1)
			b = append(b[:i:i], b[j:]...)
		case 6: // cut
			if r.P(3) {
				b = b[:i]
			}
		case 7: // duplicate a piece
			j := i + r.N(min(len(b)-i, 60)+1)
			k := lo + r.N(len(b)-lo)
			b = append(b[:k:k], append(append([]byte{}, b[i:j]...), b[k:]...)...)
		case 8:
			b[i] ^= tTrack
		}
	}
	return b
}

// hostile makes a byte string that looks like a document.
func hostile(c *Ctx) []byte {
	r := c.R
	version := r.In(1, 4)
	switch r.N(20) {
	case 0:
		return r.Bytes(r.Len(300))
	case 1: // valid head, tag soup
		b := append([]byte{}, magicOf(version)...)
		b = append(b, byte(version), 0)
		for n := r.Len(300); n > 0; n-- {
			b = append(b, interestingBytes[r.N(len(interestingBytes))])
			if r.P(4) {
				b = append(b, interestingVarint(r)...)
			}
		}
		return b
	case 2: // any head
		b := append([]byte{}, magicOf(version)...)
		b = append(b, byte(r.U64()))
		b = append(b, interestingVarint(r)...)
		return append(b, r.Bytes(r.Len(100))...)
	}
	d, _ := genDoc(r, version, func(g *docGen) {
		if g.maxStr > 3000 && !r.P(10) {
			g.maxStr = 300
		}
		if g.budget > 150 && !r.P(10) {
			g.budget = 150
		}
	})
	d.Type = docTypeFor(r, version)
	switch r.N(6) {
	case 0: // as it is
		return d.bytes(r)
	case 1: // damage behind the compression
		if d.Type != 0 {
			raw, hl := d.raw()
			m := mutate(r, raw, hl)
			out := append([]byte{}, m[:min(hl, len(m))]...)
			out[4] = byte(d.Version) | byte(d.Type)<<4
			return append(out, compressBody(r, d.Type, m[min(hl, len(m)):])...)
		}
	case 2: // damage to the user header as well
		return mutate(r, d.bytes(r), 5)
	case 3: // anything
		return mutate(r, d.bytes(r), 0)
	}
	d.Type = 0
	raw, hl := d.raw()
	return mutate(r, raw, hl)
}

// allocBound is what decoding b may allocate.
func allocBound(b []byte) uint64 {
	n := uint64(len(b))
	if len(b) > 5 {
		switch b[4] >> 4 {
		case 1, 2:
			n *= 66
		case 3:
			n *= 1100
		case 4:
			return 1 << 62 // the format allows any expansion
		}
	}
	copies := uint64(1)
	if len(b) <= 5 || b[4]>>4 == 0 {
		for _, x := range b {
			if x&^tTrack == tCOPY {
				copies++
			}
		}
	} else {
		copies += n / 3
	}
	return 256<<10 + n*600*copies
}

// attack runs every entry point on b.
func attack(c *Ctx, b []byte, mk func() any, flags int) {
	defer func() {
		if r := recover(); r != nil {
			c.Fail("panic: %v (target %T, flags %d)\n%x", r, mk(), flags, clip(b))
		}
	}()
	c.Count("inputs", 1)
	newDec := func() *sereal.Decoder {
		d := &sereal.Decoder{PerlCompat: flags&1 != 0, DisableReferentialIntegrity: flags&2 != 0}
		if flags&4 != 0 {
			d.RegisterName("Foo", &TThaw{})
			d.RegisterName("X", &TThaw{})
		}
		return d
	}
	looks := sereal.LooksLikeSereal(b)
	if looks {
		c.Distinct(hashStr(string(b)) ^ uint64(flags))
		c.Count("accepted_headers", 1)
	}
	// The counter moves in steps as big as the caches of the allocator: repeat what exceeds the bound.
	measure := func(what string, k uint64, f func()) bool {
		bound := k * allocBound(b)
		least := ^uint64(0)
		for i := 0; i < 6; i++ {
			before := allocated()
			f()
			if got := allocated() - before; got < least {
				least = got
			}
			if least <= bound {
				return true
			}
		}
		c.Fail("%s of %d bytes allocates %d bytes (bound %d, target %T, flags %d)\n%x", what, len(b), least, bound, mk(), flags, clip(b))
		return false
	}
	if !measure("Unmarshal", 1, func() {
		if newDec().Unmarshal(b, mk()) == nil {
			c.Count("decoded", 1)
		}
	}) {
		return
	}
	if !measure("UnmarshalHeaderBody", 3, func() {
		newDec().UnmarshalHeader(b, mk())
		newDec().UnmarshalHeaderBody(b, mk(), mk())
	}) {
		return
	}
	measure("DecompressDocument", 1, func() {
		out, err := sereal.DecompressDocument(nil, b)
		if err == nil {
			c.Count("decompressed", 1)
			if len(out) > 5 && out[4]>>4 != 0 {
				c.Fail("DecompressDocument left type %d\n%x", out[4]>>4, clip(b))
			}
		}
	})
	c.Count("calls", 5)
}

func c01Mutated(c *Ctx) {
	r := c.R
	b := hostile(c)
	if c.Idx%20000 < 3 {
		c.Sample("%x", clip(b))
	}
	attack(c, b, targetMakers[0], r.N(8))
	if !c.Failed() {
		attack(c, b, targetMakers[r.N(len(targetMakers))], r.N(8))
	}
}

// c01Claims: small documents that claim to be huge.
func c01Claims(c *Ctx) {
	r := c.R
	version := r.In(1, 4)
	b := append([]byte{}, magicOf(version)...)
	b = append(b, byte(version))
	big := func() uint64 {
		switch r.N(5) {
		case 0:
			return uint64(pick(r, 1<<31-1, 1<<31, 1<<32, 1<<32-1, 1<<30, 1<<26, 1<<20, 1<<24, 1<<40, 1<<62))
		case 1:
			return ^uint64(0) - uint64(r.N(1000))
		case 2:
			return 1<<63 + uint64(r.N(1000)) - 500
		}
		return uint64(r.U64() >> uint(r.In(1, 50)))
	}
	what := ""
	switch r.N(7) {
	case 0: // one huge claim
		b = append(b, 0)
		if r.P(3) {
			b = append(b, tREFN)
		}
		t := pick(r, byte(tARRAY), byte(tHASH), byte(tBINARY), byte(tUTF8))
		what = tagName(t)
		b = append(b, t)
		b = append(b, putVarint(nil, big(), 0)...)
		b = append(b, r.Bytes(r.N(50))...)
	case 1: // nested containers which each claim all that is left
		b = append(b, 0)
		n := r.In(500, 30000)
		t := pick(r, byte(tARRAY), byte(tHASH))
		what = "nested " + tagName(t)
		mul := 1
		var unit []byte
		if t == tHASH {
			unit = []byte{tSHORT}
			mul = 2
		}
		total := n * (4 + len(unit))
		for i := 0; i < n; i++ {
			b = append(b, t)
			left := (total - i*(4+len(unit)) - 40) / mul
			if left < 1 {
				left = 1
			}
			b = append(b, putVarint(nil, uint64(left), 0)...)
			b = append(b, unit...)
		}
	case 2: // header suffix
		b = append(b, putVarint(nil, big(), 0)...)
		b = append(b, 1)
		b = append(b, r.Bytes(r.N(60))...)
		what = "user header"
	case 3: // zlib
		version = r.In(3, 4)
		b = append(append([]byte{}, magicOf(version)...), byte(version)|0x30, 0)
		body := compressBody(nil, 3, r.Bytes(r.N(40)))
		_, n := uvarint(body)
		b = append(b, putVarint(nil, big(), 0)...)
		b = append(b, body[n:]...)
		what = "zlib length"
	case 4: // snappy
		inc := byte(2)
		if version == 1 && r.Bool() {
			inc = 1
		}
		b[4] |= inc << 4
		b = append(b, 0)
		body := compressBody(nil, 1, r.Bytes(r.N(40)))
		_, n := uvarint(body)
		body = append(putVarint(nil, big(), 0), body[n:]...)
		if inc == 2 {
			b = append(b, putVarint(nil, uint64(len(body)), 0)...)
		}
		b = append(b, body...)
		what = "snappy length"
	case 5: // zstd frame with a huge content size
		b = append(append([]byte{}, magicOf(4)...), 4|0x40, 0)
		frame := []byte{0x28, 0xb5, 0x2f, 0xfd, 0xe0}
		u := big()
		for i := 0; i < 8; i++ {
			frame = append(frame, byte(u>>uint(8*i)))
		}
		frame = append(frame, r.Bytes(r.N(40))...)
		b = append(b, putVarint(nil, uint64(len(frame)), 0)...)
		b = append(b, frame...)
		what = "zstd content size"
	case 6: // compressed length
		typ := pick(r, 2, 3)
		if typ == 3 {
			version = r.In(3, 4)
		}
		b = append(append([]byte{}, magicOf(version)...), byte(version)|byte(typ)<<4, 0)
		if typ == 3 {
			b = append(b, putVarint(nil, uint64(r.N(1000)), 0)...)
		}
		b = append(b, putVarint(nil, big(), 0)...)
		b = append(b, r.Bytes(r.N(40))...)
		what = "compressed length"
	}
	c.Count("claims: "+what, 1)
	if c.Idx%3000 < 2 {
		c.Sample("%s: %x", what, clip(b))
	}
	before := allocated()
	mk := targetMakers[0]
	if r.Bool() {
		mk = targetMakers[r.N(len(targetMakers))]
	}
	attack(c, b, mk, r.N(8))
	if what == "zstd content size" && !c.Failed() {
		if got := allocated() - before; got > 64<<20 {
			c.Fail("a zstd document of %d bytes makes the decoder allocate %d bytes", len(b), got)
		}
	}
}

// c01Nesting: very deep documents.
func c01Nesting(c *Ctx) {
	r := c.R
	version := r.In(1, 4)
	depth := pick(r, 90_000, 110_000, 1_000_000, 3_000_000, 12_000_000)
	units := [][]byte{
		{tREFN}, {tARRAY, 1}, {tAREF | 1}, {tHASH, 1, tSHORT | 1, 'a'}, {tHREF | 1, tSHORT | 1, 'a'}, {tWEAKEN}, {tWEAKEN, tREFN},
		{tOBJECT, tSHORT | 1, 'X', tREFN}, {tREFN, tARRAY, 1}, {tREFN, tHASH, 1, tSHORT | 2, 'i', 'd'}, {tREFN | tTrack}, {tAREF | 1 | tTrack},
		{tPAD}, {tHASH, 1, tSHORT | 2, 'i', 'd', tARRAY, 1},
		{tOBJF, tSHORT | 1, 'X', tREFN, tARRAY, 1},
		{tREFN, tHASH | tTrack, 1, tSHORT | 1, 'M', tHASH, 1, tSHORT},
		{tOBJV, 0x07, tREFN},
	}
	ui := c.Idx % len(units)
	u := units[ui]
	n := depth / max(1, len(u)/2)
	b := append([]byte{}, magicOf(version)...)
	b = append(b, byte(version), 0)
	if u[0] == tOBJV {
		b = append(b, tOBJECT, tSHORT|1, 'X', tARRAY, 1) // class name at 2
		u = []byte{tOBJV, 2, tREFN}
		if version == 1 {
			u[1] = 7
		}
	}
	for i := 0; i < n; i++ {
		b = append(b, u...)
	}
	if r.Bool() {
		b = append(b, 1)
	}
	mks := []func() any{func() any { return new(any) }, func() any { return new(any) }, func() any { return new(TRec) }, func() any { return new(TList) },
		func() any { return new(TMap) }, func() any { return new(TPtrMap) }, func() any { return new([]any) }, func() any { return new(map[string]any) },
		func() any { x := any(TList(nil)); return &x }}
	ti := r.N(len(mks))
	flags := r.N(8)
	inHeader := version > 1 && r.P(5)
	if inHeader {
		head := append(append([]byte{}, b[:5]...), putVarint(nil, uint64(len(b)-6+1), 0)...)
		b = append(append(append(head, 1), b[6:]...), 1)
	}
	c.Distinct(hashStr(fmt.Sprint(ui, n, version, ti, flags, inHeader)))
	c.Count("nested_documents", 1)
	if c.Idx < 2 {
		c.Sample("%d times % x, version %d, target %T, flags %d", n, u, version, mks[ti](), flags)
	}
	d := &sereal.Decoder{PerlCompat: flags&1 != 0, DisableReferentialIntegrity: flags&2 != 0}
	err := d.UnmarshalHeaderBody(b, mks[ti](), mks[ti]())
	if err != nil {
		c.Count("nested_rejected", 1)
	}
	if depth > 1_000_000 {
		return
	}
	var m *sereal.Merger = sereal.NewMerger()
	m.Append(b)
}
