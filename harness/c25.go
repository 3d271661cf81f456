package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

func init() {
	register(&Check{
		ID:      "C25",
		Rule:    "A case is a random well-formed document of version 1 to 4 in all legal forms (or several of them in one string) and a set of options of the Perl decoder built from this tree. options: options that change how the result is made (read-only, shared integers and undef, without classes or THAW), compared scalar by scalar with the evaluation of the tree. limits: options that refuse documents, with limits just at, below and above what the document has; what has to be refused is computed from the tree; every set is tried three times, with an innocent document after each. depth: every recursion limit up to what the document needs. stream: documents decoded at offsets, incrementally, from files, cut and with garbage behind. Distinct by bytes and options; non-trivial: at least 3 items.",
		Assume:  []string{"the length of strings is limited in bytes or characters (documented as characters, tested with both accepted)", "whether limits apply to documents that are not compressed, to class names and to patterns is left open"},
		Prepare: preparePerl("plain", "asan"),
		Phases: []Phase{
			{Name: "options", Quick: 60000, Thor: 1500000, Run: c25Options, Init: perlInit("plain", "c23.pl"), Done: perlDone},
			{Name: "limits", Quick: 20000, Thor: 500000, Run: c25Limits, Init: perlInit("plain", "c25.pl"), Done: perlDone},
			{Name: "depth", Quick: 4000, Thor: 100000, Run: c25Depth, Init: perlInit("plain", "c25.pl"), Done: perlDone},
			{Name: "stream", Quick: 40000, Thor: 1000000, Run: c25Stream, Init: perlInit("plain", "c25.pl"), Done: perlDone},
			{Name: "options-asan", Quick: 8000, Thor: 200000, Run: c25Options, Init: perlInit("asan", "c23.pl"), Done: perlDone},
			{Name: "limits-asan", Quick: 3000, Thor: 80000, Run: c25Limits, Init: perlInit("asan", "c25.pl"), Done: perlDone},
			{Name: "stream-asan", Quick: 6000, Thor: 150000, Run: c25Stream, Init: perlInit("asan", "c25.pl"), Done: perlDone},
		},
	})
}

// c25Options: options that change how the result is made.
func c25Options(c *Ctx) {
	r := c.R
	version := r.In(1, 4)
	d, g := genDoc(r, version, perlDocGen(r.Bool()))
	d.Type = docTypeFor(r, version)
	po := perlOptions{noBless: r.P(10), noThaw: r.P(4)}
	if r.P(2) {
		po.readonly = r.In(1, 2)
		c.Count("readonly_"+strconv.Itoa(po.readonly), 1)
	}
	if r.P(2) {
		po.aliasUnder = pick(r, 16, 16, int64(r.In(16, 300)), int64(r.In(16, 100000)))
		c.Count("shared_integers", 1)
	}
	po.useUndef = r.P(3)
	c23Run(c, d, g.counts, po, r.N(16), true)
}

// docFacts is what the limits of the decoder are about.
type docFacts struct {
	objects        bool
	arr, hash      int // the most elements of one
	chars, bytes   int // the longest string: where a limit must hold, and whatever it is
	badUTF8        bool
	depMin, depMax int
}

func factsOf(n *Node) *docFacts {
	f := &docFacts{}
	str := func(k *Node, may bool) {
		if k.T != tBINARY && k.T != tUTF8 && k.T != tSHORT {
			return
		}
		f.bytes = max(f.bytes, len(k.S))
		if !may {
			m := len(k.S)
			if k.T == tUTF8 {
				m = utf8.RuneCountInString(k.S)
				f.badUTF8 = f.badUTF8 || !utf8.ValidString(k.S)
			}
			f.chars = max(f.chars, m)
		}
	}
	walk(n, func(k *Node) {
		switch k.T {
		case tOBJECT, tOBJV, tOBJF, tOBJVF:
			f.objects = true
		case tARRAY, tAREF:
			f.arr = max(f.arr, len(k.Kids))
		case tHASH, tHREF:
			f.hash = max(f.hash, len(k.Kids)/2)
			for i := 0; i < len(k.Kids); i += 2 {
				str(k.Kids[i], false)
			}
		}
		str(k, k.IsStr)
	})
	var dep func(k *Node, n int) (int, int)
	dep = func(k *Node, n int) (lo, hi int) {
		if n > 2000 {
			panic("too deep")
		}
		sub := k.Kids
		if k.T == tCOPY && !k.IsStr {
			sub = []*Node{k.Target}
		}
		for _, s := range sub {
			l, h := dep(s, n+1)
			lo, hi = max(lo, l), max(hi, h)
		}
		switch k.T {
		case tARRAY, tAREF, tHASH, tHREF:
			lo++
		}
		if len(sub) > 0 {
			hi += 2
		}
		return
	}
	f.depMin, f.depMax = dep(n, 0)
	return f
}

// spoilUTF8 makes some strings invalid.
func spoilUTF8(r *Rng, n *Node) {
	fixed := map[*Node]bool{}
	walk(n, func(k *Node) {
		if k.Target != nil {
			fixed[k.Target] = true
		}
		switch k.T {
		case tOBJECT, tOBJF, tREGEXP:
			for _, s := range k.Kids {
				if s.IsStr {
					fixed[s] = true
				}
			}
		}
	})
	var l []*Node
	walk(n, func(k *Node) {
		if k.T == tUTF8 && !fixed[k] {
			l = append(l, k)
		}
	})
	if len(l) == 0 {
		return
	}
	k := pick(r, l...)
	bad := pick(r, "\x80", "\xc3", "\xff", "\xe2\x82", "\xf0\x9f\x98", "\xc0\x80", "\xc3\x28", "\x80\x80\x80", "\xe0\x80\x80", "\xfe")
	i := r.N(len(k.S) + 1)
	for i < len(k.S) && !utf8.RuneStart(k.S[i]) {
		i++
	}
	k.S = k.S[:i] + bad + k.S[i:]
}

func c25Limits(c *Ctx) {
	r := c.R
	version := r.In(1, 4)
	d, g := genDoc(r, version, perlDocGen(r.P(3)))
	if r.P(40) {
		c25Deep(c)
		return
	}
	d.Type = docTypeFor(r, version)
	if r.P(3) {
		spoilUTF8(r, pick(r, d.Body, d.Body, orNode(d.Header, d.Body)))
	}
	facts := []*docFacts{{}, factsOf(d.Body)}
	if d.Header != nil {
		facts[0] = factsOf(d.Header)
	}
	if ev := evalPerl(d.Body, perlOptions{}); ev.conflict != "" {
		c.Count("left_out", 1)
		return
	}
	if d.Header != nil && evalPerl(d.Header, perlOptions{}).conflict != "" {
		c.Count("left_out", 1)
		return
	}
	b := d.bytes(r)
	raw, hl := d.raw()
	body := len(raw) - hl
	w := &wireWriter{b: []byte{'L'}}
	w.str(string(b))
	n := r.In(4, 10)
	w.n(n)
	near := func(x int) int { return max(1, pick(r, x-1, x, x+1, x+1+r.N(10), 1+r.N(x+1))) }
	for ; n > 0; n-- {
		entry := r.N(6)
		both := entry == 1 || entry == 5
		parts := facts[1:]
		if both {
			parts = facts
		} else if entry == 2 {
			parts = facts[:1]
		}
		o := map[string]string{}
		used := map[int]bool{}
		must, may := false, false
		var res []string
		for k := pick(r, 1, 1, 1, 2, 3); k > 0; k-- {
			var name string
			kind := r.N(9)
			if used[max(kind, 2)] {
				continue
			}
			used[max(kind, 2)] = true
			switch kind {
			case 0, 1, 2:
				typ := r.In(0, 2)
				name = "refuse_" + []string{"snappy", "zlib", "zstd"}[typ]
				o[name] = "1"
				// the type is in the header: nothing of the document is accepted
				if d.Type > 0 && []int{0, 0, 0, 1, 2}[d.Type] == typ {
					must = true
					res = append(res, "refuse")
				}
			case 3:
				name = "refuse_objects"
				o[name] = "1"
				for _, f := range parts {
					if f.objects {
						must = true
						res = append(res, "object")
					}
				}
			case 4:
				name = "max_num_array_entries"
				l := near(max(facts[1].arr, pick(r, 0, facts[0].arr)))
				o[name] = strconv.Itoa(l)
				for _, f := range parts {
					if f.arr > l {
						must = true
						res = append(res, "array.*maximum")
					}
				}
			case 5:
				name = "max_num_hash_entries"
				l := near(max(facts[1].hash, pick(r, 0, facts[0].hash)))
				o[name] = strconv.Itoa(l)
				for _, f := range parts {
					if f.hash > l {
						must = true
						res = append(res, "hash.*maximum")
					}
				}
			case 6:
				name = "max_string_length"
				l := near(pick(r, facts[1].chars, facts[1].chars, facts[1].bytes, facts[0].chars))
				o[name] = strconv.Itoa(l)
				for _, f := range parts {
					if f.chars > l {
						must = true
					}
					if f.bytes > l {
						may = true
						res = append(res, "string.*maximum")
					}
				}
			case 7:
				name = "max_uncompressed_size"
				l := near(body)
				o[name] = strconv.Itoa(l)
				if body > l && entry != 2 {
					may = true
					if d.Type != 0 {
						must = true
					}
					res = append(res, "maximum size|larger than")
				}
			case 8:
				name = "validate_utf8"
				o[name] = "1"
				for _, f := range parts {
					if f.badUTF8 {
						must = true
						res = append(res, "utf-?8")
					}
				}
			}
			c.Count("option_"+name, 1)
		}
		w.opts(o)
		w.n(entry)
		switch {
		case must:
			w.n(1)
			c.Count("to_be_refused", 1)
		case may:
			w.n(2)
		default:
			w.n(0)
			c.Count("to_be_accepted", 1)
		}
		if len(res) == 0 {
			res = []string{"no message at all"}
		}
		w.str(strings.Join(res, "|"))
		c.Distinct(hashStr(string(b) + fmt.Sprint(o, entry)))
	}
	for k, v := range g.counts {
		c.Count(k, v)
	}
	if c.Idx%3000 == 0 {
		c.Sample("v%d type %d, %d bytes: array %d, hash %d, string %d of %d", version, d.Type, len(b), facts[1].arr, facts[1].hash, facts[1].chars, facts[1].bytes)
	}
	if _, err := thePerl.call(w.b); err != nil {
		c.Fail("%v\nv%d type %d: %x", err, version, d.Type, clip(b))
	}
}

func orNode(a, b *Node) *Node {
	if a != nil {
		return a
	}
	return b
}

// c25Deep: nesting near the default limit of 10000, where 3 more or less are allowed.
func c25Deep(c *Ctx) {
	r := c.R
	n := pick(r, 9900+r.N(97), 10004+r.N(100))
	b := []byte("=\xf3rl\x04\x00")
	kind := r.N(4)
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			b = append(b, 0x41)
		case 1:
			b = append(b, 0x28)
		case 2:
			b = append(b, 0x51, 0x61, 'k')
		default:
			b = append(b, pick(r, "\x41", "\x28", "\x51\x60", "\x42\x01", "\x3f\x41")...)
		}
	}
	b = append(b, 1)
	w := &wireWriter{b: []byte{'N'}}
	w.str(string(b))
	if n > 10000 {
		w.n(1)
		c.Count("too_deep", 1)
	} else {
		w.n(0)
		c.Count("just_deep_enough", 1)
	}
	c.Distinct(hashStr(string(b)))
	if _, err := thePerl.call(w.b); err != nil {
		c.Fail("%d levels of kind %d: %v", n, kind, err)
	}
}

// c25Depth: a document is refused by small recursion limits and accepted by all others.
func c25Depth(c *Ctx) {
	r := c.R
	version := r.In(1, 4)
	d, _ := genDoc(r, version, perlDocGen(r.Bool()))
	d.Type = docTypeFor(r, version)
	if evalPerl(d.Body, perlOptions{}).conflict != "" {
		c.Count("left_out", 1)
		return
	}
	f := factsOf(d.Body)
	b := d.bytes(r)
	w := &wireWriter{b: []byte{'D'}}
	w.str(string(b))
	w.n(f.depMax + 4)
	c.Distinct(hashStr(string(b)))
	res, err := thePerl.call(w.b)
	if err != nil {
		c.Fail("%v\nv%d type %d: %x", err, version, d.Type, clip(b))
		return
	}
	i := strings.IndexByte(res, '1')
	c.Count("limits_tried", int64(len(res)))
	if i < 0 || strings.Contains(res[i:], "0") {
		c.Fail("limits up to %d: %s\nv%d type %d: %x", f.depMax+4, res, version, d.Type, clip(b))
		return
	}
	if t := i + 1; t+3 < f.depMin {
		c.Fail("%d levels are accepted by limit %d\nv%d type %d: %x", f.depMin, t, version, d.Type, clip(b))
	}
	c.Count(fmt.Sprintf("needs_limit_%02d", min(i+1, 20)), 1)
}

// c25Stream: several documents in one string.
func c25Stream(c *Ctx) {
	r := c.R
	if r.P(10) {
		c25Looks(c)
		return
	}
	w := &wireWriter{b: []byte{'S'}}
	var docs [][]byte
	for n := r.In(1, 5); n > 0; n-- {
		version := r.In(1, 4)
		d, _ := genDoc(r, version, perlDocGen(r.P(3)))
		if d.Type = docTypeFor(r, version); d.Type == 1 {
			d.Type = 2 // it has no end
		}
		if d.Body.T == tWEAKEN || d.Header != nil && d.Header.T == tWEAKEN {
			continue
		}
		if evalPerl(d.Body, perlOptions{}).conflict != "" || d.Header != nil && evalPerl(d.Header, perlOptions{}).conflict != "" {
			c.Count("left_out", 1)
			continue
		}
		docs = append(docs, d.bytes(r))
		c.Count("documents", 1)
	}
	if len(docs) == 0 {
		return
	}
	w.n(len(docs))
	for _, b := range docs {
		w.str(string(b))
	}
	w.str(string(r.Bytes(pick(r, 0, 1, r.N(40)))))
	rest := r.Bytes(r.N(20))
	if len(rest) > 0 && rest[0] == '=' {
		rest[0] = 'x'
	}
	if r.P(2) {
		b := pick(r, docs...)
		rest = b[:r.N(min(len(b), 60))]
	}
	w.str(string(rest))
	mode := r.N(4)
	w.n(mode)
	w.n(r.N(128))
	o := map[string]string{}
	if mode == 1 || mode == 2 && r.Bool() {
		o["incremental"] = "1"
	}
	w.opts(o)
	c.Count("stream_"+[]string{"offsets", "incremental", "file", "cut"}[mode], 1)
	c.Distinct(hashStr(string(w.b)))
	if _, err := thePerl.call(w.b); err != nil {
		c.Fail("%v\n%d documents, first %x", err, len(docs), clip(docs[0]))
	}
}

// c25Looks: what is said of the beginning of documents.
func c25Looks(c *Ctx) {
	r := c.R
	version := r.In(1, 4)
	d, _ := genDoc(r, version, perlDocGen(r.P(3)))
	d.Type = docTypeFor(r, version)
	b := d.bytes(r)
	w := &wireWriter{b: []byte{'M'}}
	type q struct{ s, want string }
	l := []q{{string(b), strconv.Itoa(version)}, {string(b) + string(r.Bytes(5)), strconv.Itoa(version)}, {"", ""}, {"=srl", ""}}
	var u strings.Builder
	for _, x := range b {
		u.WriteRune(rune(x))
	}
	if version >= 3 {
		l = append(l, q{u.String(), "0"})
	}
	x := append([]byte(nil), b...)
	x[r.N(4)] ^= byte(1 << r.N(8))
	if s := string(x[:4]); s != "=srl" && s != "=\xf3rl" && s != "=\xc3\xb3r" {
		l = append(l, q{string(x), ""})
	}
	y := append(append([]byte(nil), magicOf(5-version)...), b[4:]...)
	if (version < 3) != (5-version < 3) {
		l = append(l, q{string(y), ""})
	}
	if r.Bool() { // an odd number of them: as strings of perl's other encoding
		l = append(l, q{"no document", ""})
	}
	w.n(len(l))
	for _, x := range l {
		w.str(x.s)
		w.str(x.want)
	}
	c.Count("looks", int64(len(l)))
	if _, err := thePerl.call(w.b); err != nil {
		c.Fail("%v\nv%d type %d: %x", err, version, d.Type, clip(b))
	}
}
