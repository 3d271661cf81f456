package main

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
)

func init() {
	register(&Check{
		ID:      "C22",
		Rule:    "A case is a byte string (a mutated or spliced well-formed document of the Perl shape, tag soup, crafted lengths, offsets and nesting), options and an entry point of the Perl decoder built from this tree, given to it three times, the third time with another decoder object. Monitors: AddressSanitizer and UndefinedBehaviorSanitizer in the modules (the input is in a block of exactly its size), the end of the process, an audit of everything reachable from what was decoded (every scalar alive, of a kind Perl data has, and counted exactly as often as it is held), of undef, true and false, of the number of live scalars and allocated bytes over repetitions, and of the result of a well-formed document decoded afterwards. Distinct by bytes, options and entry; non-trivial: the header is accepted.",
		Assume:  []string{"compressed documents are decoded with max_uncompressed_size, as the documentation advises", "a case that Perl does not finish in 100 s is a hang"},
		Prepare: preparePerl("plain", "asan"),
		Phases: []Phase{
			{Name: "mutated-asan", Quick: 60000, Thor: 1500000, Run: c22Mutated, Init: c22Init("asan"), Done: perlDone},
			{Name: "mutated-plain", Quick: 60000, Thor: 1500000, Run: c22Mutated, Init: c22Init("plain"), Done: perlDone},
			{Name: "nesting-plain", Quick: 160, Thor: 4000, Run: c22Nesting, Init: c22Init("plain"), Done: perlDone},
			{Name: "nesting-asan", Quick: 80, Thor: 2000, Run: c22Nesting, Init: c22Init("asan"), Done: perlDone},
		},
	})
}

func c22Init(kind string) func(c *Ctx) {
	return func(c *Ctx) {
		var err error
		if thePerl, err = startPerl(kind, "c22.pl"); err != nil {
			panic(err)
		}
	}
}

// perlOpts picks options of the Perl decoder.
func perlOpts(r *Rng) map[string]string {
	o := map[string]string{}
	flag := func(n int, names ...string) {
		for _, s := range names {
			if r.P(n) {
				o[s] = "1"
			}
		}
	}
	flag(20, "refuse_snappy", "refuse_zlib", "refuse_zstd", "refuse_objects")
	flag(5, "set_readonly", "set_readonly_scalars", "use_undef", "alias_smallint", "validate_utf8", "no_bless_objects")
	if r.P(6) {
		o["no_thaw_objects"] = pick(r, "0", "1")
	}
	if r.P(5) {
		o["alias_varint_under"] = pick(r, "1", "16", "17", "100", "300")
	}
	if r.P(12) {
		o["max_recursion_depth"] = pick(r, "1", "3", "10", "30", "100")
	}
	if r.P(20) {
		o["max_num_hash_entries"] = pick(r, "1", "10")
	}
	if r.P(20) {
		o["max_num_array_entries"] = pick(r, "1", "10")
	}
	if r.P(20) {
		o["max_string_length"] = pick(r, "1", "10")
	}
	if r.P(10) {
		o["nested"] = "1"
	}
	return o
}

func optString(o map[string]string) string {
	var s []string
	for k, v := range o {
		s = append(s, k+"="+v)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func (w *wireWriter) opts(o map[string]string) {
	w.n(len(o))
	for _, k := range sortedKeys(o) {
		w.str(k)
		w.str(o[k])
	}
}

func c22Attack(c *Ctx, b []byte, o map[string]string, entry, into, offset int) {
	o["max_uncompressed_size"] = "3000000"
	if entry == 10 {
		o["incremental"] = "1"
	}
	if len(b) > 5 && (string(b[:4]) == "=srl" || string(b[:4]) == "=\xf3rl") {
		c.Distinct(hashStr(fmt.Sprint(string(b), optString(o), entry)))
		c.Count("documents", 1)
	}
	w := &wireWriter{}
	w.b = append(w.b, 'V')
	w.opts(o)
	w.n(entry)
	w.n(into)
	w.n(offset)
	w.n(shapeOf(b, entry, offset))
	w.str(string(b))
	res, err := thePerl.call(w.b)
	c.Evals(3)
	if err != nil {
		c.Fail("entry %d, into %d, offset %d, options %s: %v\n%x", entry, into, offset, optString(o), err, clip(b))
		return
	}
	if strings.HasPrefix(res, "1") {
		c.Count("decoded", 1)
	} else {
		c.Count("refused", 1)
	}
}

// shapeOf says what to allow for: 1 when what the document is decoded as may refer to itself, which Perl never
// frees, 2 when such a circle may be left behind although decoding succeeds, 4 when an object may be complete
// before decoding fails, because the user header holds it, or a document before.
func shapeOf(b []byte, entry, offset int) int {
	b = b[min(offset, len(b)):]
	if len(b) < 7 || b[4]&0xf0 != 0 {
		return 7
	}
	s := 0
	for _, x := range b[5:] {
		switch x &^ tTrack {
		case tREFP, tALIAS:
			s |= 1
		case tWEAKEN, tOBJF, tOBJVF, tCOPY:
			s |= 2
		}
	}
	if s&1 == 0 {
		s = 0
	}
	n, k := binary.Uvarint(b[5:])
	if k <= 0 {
		return 7
	}
	if n > 0 || entry == 10 {
		s |= 4
	}
	if entry == 4 || entry == 8 {
		// a bare ARRAY or HASH takes the place of a variable with magic of its own
		i := 5 + k + int(min(n, 1<<30))
		for i < len(b) && b[i]&^tTrack == tPAD {
			i++
		}
		if i < len(b) && (b[i]&^tTrack == tARRAY || b[i]&^tTrack == tHASH) {
			s |= 7
		}
	}
	return s
}

func c22Mutated(c *Ctx) {
	r := c.R
	var b []byte
	if r.P(3) {
		b = hostile(c)
	} else {
		b = perlHostile(c)
	}
	entry := pick(r, 0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 7, 8, 9, 10, 11)
	offset := 0
	if entry == 4 || entry == 8 {
		offset = r.N(20)
		b = append(r.Bytes(offset), b...)
		if r.P(40) {
			offset = len(b) + r.N(3)
		}
	}
	if entry == 10 && r.Bool() {
		b = append(b, perlHostile(c)...)
	}
	if c.Idx%20000 < 3 {
		c.Sample("entry %d: %x", entry, clip(b))
	}
	c22Attack(c, b, perlOpts(r), entry, r.N(7), offset)
}

// perlHostile makes a document of the Perl shape, damaged or not.
func perlHostile(c *Ctx) []byte {
	r := c.R
	version := r.In(1, 5)
	d, _ := genDoc(r, min(version, 4), func(g *docGen) {
		g.perlish = !r.P(6)
		g.budget = min(g.budget, 150)
		if g.maxStr > 3000 && !r.P(10) {
			g.maxStr = 300
		}
	})
	d.Version = version
	d.Type = docTypeFor(r, min(version, 4))
	switch r.N(8) {
	case 0:
		return d.bytes(r)
	case 1:
		return mutate(r, d.bytes(r), 5)
	case 2: // damage behind the compression
		if d.Type != 0 {
			raw, hl := d.raw()
			m := mutate(r, raw, hl)
			out := append([]byte{}, m[:min(hl, len(m))]...)
			out[4] = byte(d.Version) | byte(d.Type)<<4
			return append(out, compressBody(r, d.Type, m[min(hl, len(m)):])...)
		}
	case 3: // cut somewhere
		d.Type = 0
		raw, hl := d.raw()
		return raw[:hl+r.N(len(raw)-hl+1)]
	}
	d.Type = 0
	raw, hl := d.raw()
	return tagMutate(r, raw, hl)
}

// tagMutate damages a body in ways that keep much of it well-formed: tags are exchanged, offsets bent, items dropped.
func tagMutate(r *Rng, b []byte, lo int) []byte {
	b = append([]byte{}, b...)
	if len(b) <= lo {
		return b
	}
	for n := r.In(1, 4); n > 0; n-- {
		if len(b) <= lo {
			break
		}
		i := lo + r.N(len(b)-lo)
		// look for a tag of interest
		want := pick(r, byte(tREFP), byte(tALIAS), byte(tCOPY), byte(tOBJECT), byte(tOBJV), byte(tOBJF), byte(tOBJVF), byte(tWEAKEN), byte(tREFN), byte(tREGEXP), byte(tUNDEF))
		for j := i; j < len(b); j++ {
			if b[j]&^tTrack == want {
				i = j
				break
			}
		}
		switch r.N(9) {
		case 0:
			b[i] ^= tTrack
		case 1:
			b[i] = pick(r, byte(tREFP), byte(tALIAS), byte(tCOPY), byte(tOBJECT), byte(tOBJV), byte(tOBJF), byte(tOBJVF), byte(tWEAKEN), byte(tREFN), byte(tREGEXP), byte(tUNDEF), byte(tCUNDEF), byte(tTRUE), byte(tPAD), byte(tARRAY), byte(tHASH), byte(tHREF|1), byte(tAREF|1), byte(tAREF|2))
		case 2: // an offset behind the tag
			if i+1 < len(b) {
				b[i+1] = byte(r.In(1, min(127, i-lo+3)))
			}
		case 3: // the same again
			b = append(b[:i:i], append([]byte{b[i]}, b[i:]...)...)
		case 4: // a tag before it
			b = append(b[:i:i], append([]byte{pick(r, byte(tWEAKEN), byte(tREFN), byte(tPAD), byte(tPAD|tTrack), byte(tREFN|tTrack), byte(tAREF|1), byte(tOBJF))}, b[i:]...)...)
		case 5: // drop it
			b = append(b[:i:i], b[i+1:]...)
		case 6: // a reference to something tracked
			var tracked []int
			for j := lo; j < i; j++ {
				if b[j]&tTrack != 0 {
					tracked = append(tracked, j-lo+1)
				}
			}
			if len(tracked) > 0 {
				ref := putVarint([]byte{pick(r, byte(tREFP), byte(tALIAS), byte(tALIAS|tTrack), byte(tCOPY))}, uint64(tracked[r.N(len(tracked))]), 0)
				if r.Bool() {
					b = append(b[:i:i], append(ref, b[i:]...)...)
				} else {
					b = append(b[:i:i], append(ref, b[min(len(b), i+1):]...)...)
				}
			}
		case 7: // an object around it
			o := []byte{pick(r, byte(tOBJECT), byte(tOBJF), byte(tOBJECT|tTrack)), tSHORT | 3, 'F', 'o', 'o'}
			b = append(b[:i:i], append(o, b[i:]...)...)
		case 8:
			b = b[:i]
		}
	}
	return b
}

// c22Nesting: very deep documents.
func c22Nesting(c *Ctx) {
	r := c.R
	version := r.In(1, 5)
	depth := pick(r, 1000, 9_000, 9_990, 11_000, 100_000, 1_000_000, 3_000_000)
	units := [][]byte{
		{tREFN}, {tARRAY, 1}, {tAREF | 1}, {tHASH, 1, tSHORT | 1, 'a'}, {tHREF | 1, tSHORT | 1, 'a'}, {tWEAKEN}, {tWEAKEN, tREFN},
		{tOBJECT, tSHORT | 1, 'Q', tREFN}, {tREFN, tARRAY, 1}, {tREFN, tHASH, 1, tSHORT | 2, 'i', 'd'}, {tREFN | tTrack}, {tAREF | 1 | tTrack},
		{tPAD}, {tPAD | tTrack}, {tHASH, 1, tSHORT | 2, 'i', 'd', tARRAY, 1},
		{tOBJF, tSHORT | 1, 'Q', tREFN, tARRAY, 1},
		{tOBJF, tSHORT | 1, 'Q'},
		{tOBJECT, tSHORT | 1, 'Q'},
		{tREGEXP},
		{tOBJV, 0x02, tREFN},
		{tOBJV, 0x02},
		{tOBJVF, 0x02},
		{tOBJVF, 0x02, tAREF | 1},
	}
	ui := c.Idx % len(units)
	u := append([]byte{}, units[ui]...)
	n := depth / max(1, len(u)/2)
	b := append([]byte{}, magicOf(min(version, 4))...)
	b = append(b, byte(version), 0)
	if u[0] == tOBJV || u[0] == tOBJVF {
		b = append(b, tOBJECT, tSHORT|1, 'Q', tAREF|1) // class name at 2
		if version == 1 {
			u[1] = 8
		}
	}
	for i := 0; i < n; i++ {
		b = append(b, u...)
	}
	if r.Bool() {
		b = append(b, 1)
		if u[0] == tREGEXP {
			for i := 0; i < n; i++ {
				b = append(b, tSHORT)
			}
		}
	}
	o := map[string]string{}
	if r.P(3) {
		o = perlOpts(r)
	}
	c.Count("nested_documents", 1)
	c22Attack(c, b, o, pick(r, 0, 0, 2, 7), 0, 0)
}
