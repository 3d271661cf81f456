package main

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

func init() {
	register(&Check{
		ID:      "C24",
		Rule:    "A case is a Perl value: a random document decoded by the Perl decoder, then changed at random places (strings used as numbers and numbers as strings, holes, weak and strong references, aliases, restricted hashes, half-finished iterations, pos and utf8 magic, v-strings, booleans, regexps, code and globs), and a place in it that is encoded by Sereal::Encoder of this tree through one of 9 entry points, with three sets of options. Each is encoded three times with the same encoder object, also after it failed, or while it is busy in FREEZE. The bytes are read by the strict parser of the harness and by the Perl decoder, and both are compared, scalar by scalar with identities, with a dump of the value made before. Distinct by bytes; non-trivial: at least 3 items.",
		Assume:  []string{"scalars with a string and a number that do not belong together (dualvar) are not generated", "what encoding says of the order of keys for sort_keys 1 is that it is the same order always"},
		Prepare: preparePerl("plain", "asan"),
		Phases: []Phase{
			{Name: "values", Quick: 40000, Thor: 1000000, Run: c24Case, Init: perlInit("plain", "c24.pl"), Done: perlDone},
			{Name: "dense", Quick: 40000, Thor: 1000000, Run: c24Case, Init: perlInit("plain", "c24.pl"), Done: perlDone},
			{Name: "values-asan", Quick: 8000, Thor: 200000, Run: c24Case, Init: perlInit("asan", "c24.pl"), Done: perlDone},
		},
	})
}

// encOpts are the options of an encoder, and what they come to.
type encOpts struct {
	m                  map[string]string
	version            int
	typ                int // of compressed documents
	threshold          int
	dedupe, aliased    bool
	noBless, croak     bool
	undef, stringify   bool
	sort               int
	canonRefs, noShare bool
	depth              int
	canonical, freeze  bool
}

func randEncOpts(r *Rng, freeze bool) *encOpts {
	o := &encOpts{m: map[string]string{}, version: 5, threshold: 1024}
	set := func(k, v string) { o.m[k] = v }
	switch r.N(8) {
	case 0:
		set("use_protocol_v1", "1")
		o.version = 1
	case 1, 2, 3:
	default:
		o.version = r.In(1, 5)
		set("protocol_version", strconv.Itoa(o.version))
	}
	switch r.N(8) {
	case 0, 1, 2:
		c := r.In(0, min(max(o.version-1, 1), 3))
		set("compress", strconv.Itoa(c))
		o.typ = []int{0, 2, 3, 4}[c]
		if c > 1 && r.Bool() {
			set("compress_level", strconv.Itoa(r.In(1, 9)))
		}
	case 3:
		set("snappy", "1")
		o.typ = 2
		if o.version == 1 {
			o.typ = 1
		}
	case 4:
		set("snappy_incr", "1")
		o.typ = 2
	}
	if o.typ > 0 && r.P(2) {
		o.threshold = pick(r, 0, 1, 30, 200)
		k := "compress_threshold"
		if o.typ < 3 && r.Bool() {
			k = "snappy_threshold"
		}
		set(k, strconv.Itoa(o.threshold))
	}
	if o.noShare = r.P(4); o.noShare {
		set("no_shared_hashkeys", "1")
	}
	switch r.N(6) {
	case 0, 1:
		set("dedupe_strings", "1")
		o.dedupe = true
	case 2:
		set("aliased_dedupe_strings", "1")
		o.aliased, o.dedupe = true, true
	}
	if r.P(4) {
		set("canonical", "1")
		o.canonical = true
		o.sort, o.canonRefs = 1, true
	}
	if r.P(4) {
		o.sort = r.In(0, 3)
		set("sort_keys", strconv.Itoa(o.sort))
		o.canonical = o.canonical && o.sort > 0
	}
	if r.P(5) {
		o.canonRefs = r.Bool()
		set("canonical_refs", pick(r, "0", ""))
		if o.canonRefs {
			set("canonical_refs", "1")
		}
		o.canonical = o.canonical && o.canonRefs
	}
	if freeze {
		set("freeze_callbacks", "1")
		o.freeze = true
	} else if o.noBless = r.P(6); o.noBless {
		set("no_bless_objects", "1")
	}
	if o.croak = r.P(20); o.croak {
		set("croak_on_bless", "1")
	}
	switch r.N(4) {
	case 0:
		set("stringify_unknown", "1")
		o.stringify = true
	case 1, 2:
		set("undef_unknown", "1")
		o.undef = true
	}
	if r.P(6) {
		set("warn_unknown", pick(r, "1", "-1"))
	}
	if r.P(8) {
		o.depth = r.In(1, 12)
		set("max_recursion_depth", strconv.Itoa(o.depth))
	}
	if r.P(8) {
		set("use_standard_double", "1")
	}
	if !o.canonical {
		delete(o.m, "") // nothing
	}
	return o
}

// encInfo is what matters of a value for encoding it.
type encInfo struct {
	object, unknown bool
	sharedArgs      bool // what an object freezes is shared with something else
	referredElement bool // an element that cannot be represented is referred to: it depends on which comes first
	lower, upper    int  // of the depth it takes
}

func encLook(root *V) encInfo {
	var in encInfo
	seen := map[*V]bool{}
	tree, containers := true, 0
	var look func(v *V)
	look = func(v *V) {
		if seen[v] {
			tree = false
			return
		}
		if v.S != immortal || v.K != KUndef && v.K != KBool {
			seen[v] = true
		}
		if v.K == KUnknown {
			in.unknown = true
		}
		if v.K == KArr || v.K == KMap {
			containers++
		}
		if (v.K == KPtr || v.K == KWeak) && v.A[0].C != "" {
			in.object = true
		}
		for _, x := range v.A {
			look(x)
		}
		for _, x := range v.M {
			look(x)
		}
	}
	look(root)
	held := map[*V]int{root: 1}
	for v := range seen {
		for _, x := range v.A {
			held[x]++
		}
	}
	element, referred := map[*V]bool{}, map[*V]bool{}
	for v := range seen {
		for _, x := range v.A {
			if v.K == KPtr || v.K == KWeak {
				referred[x] = true
			} else {
				element[x] = true
			}
		}
		for _, x := range v.M {
			element[x] = true
		}
	}
	for x := range referred {
		in.referredElement = in.referredElement || x.K == KUnknown && element[x]
	}
	for v := range seen {
		if a := v.M["args"]; v.C != "" && v.K == KMap && a != nil && len(a.A) == 1 {
			in.sharedArgs = in.sharedArgs || held[a] > 0 || held[a.A[0]] > 1
			for _, x := range a.A[0].A {
				in.sharedArgs = in.sharedArgs || held[x] > 1
			}
		}
	}
	if !tree {
		in.lower, in.upper = 1, containers+2
		return in
	}
	var deep func(v *V) (int, int)
	deep = func(v *V) (int, int) {
		for v.K == KPtr || v.K == KWeak {
			v = v.A[0]
		}
		lo, hi := 0, 0
		el := func(x *V) {
			hi = max(hi, 1)
			if x.K == KPtr || x.K == KWeak {
				l, h := deep(x)
				lo, hi = max(lo, l), max(hi, h)
			}
		}
		for _, x := range v.A {
			el(x)
		}
		for _, x := range v.M {
			el(x)
		}
		return lo + 1, hi + 1
	}
	in.lower, in.upper = deep(root)
	return in
}

// encExpect is what a document of the value has to mean.
func encExpect(root *V, o *encOpts) *V {
	strong := map[*V]bool{root: true}
	seen, refd := map[*V]bool{}, map[*V]bool{}
	var count func(v *V)
	count = func(v *V) {
		if seen[v] {
			return
		}
		seen[v] = true
		if o.freeze && v.C != "" {
			// FREEZE returns copies
			for _, x := range v.M["args"].A[0].A {
				for _, y := range x.A {
					strong[y], refd[y] = true, true
					count(y)
				}
			}
			return
		}
		for _, x := range v.A {
			if v.K != KWeak {
				strong[x] = true
			}
			if v.K != KArr {
				refd[x] = true
			}
			count(x)
		}
		for _, x := range v.M {
			strong[x] = true
			count(x)
		}
	}
	count(root)
	memo := map[*V]*V{}
	var cp func(v *V) *V
	unknown := func(n *V, typ, class string, bare bool) {
		n.A = nil
		if n.K = KUndef; o.stringify {
			if class != "" {
				typ = class + "=" + typ
			}
			if n.K, n.S, n.S2 = KBytes, typ, "unknown"; bare {
				n.S = "*main::"
			}
		}
	}
	cp = func(v *V) *V {
		if n := memo[v]; n != nil {
			return n
		}
		n := &V{K: v.K, I: v.I, U: v.U, S: v.S, S2: v.S2, C: v.C}
		memo[v] = n
		if o.noBless || !refd[v] {
			n.C = "" // references bless
		}
		switch v.K {
		case KUndef:
			if o.version < 3 {
				n.S = ""
			}
		case KBool:
			if v.S != immortal && o.version < 5 {
				if n.K, n.S = KBytes, ""; v.I == 1 {
					n.K = KInt
				}
			}
		case KUnknown:
			n.C = ""
			unknown(n, v.S, v.C, true)
		case KPtr, KWeak:
			t := v.A[0]
			if t.K == KUnknown {
				unknown(n, t.S, t.C, false)
				return n
			}
			n.A = []*V{cp(t)}
			if v.K == KWeak && (!strong[t] || t.S == immortal) {
				n.S = "either"
			}
		case KArr:
			for _, x := range v.A {
				n.A = append(n.A, cp(x))
			}
		case KMap:
			n.M = map[string]*V{}
			if o.freeze && n.C != "" {
				args := &V{K: KArr}
				for _, x := range v.M["args"].A[0].A {
					y := *x
					y.C = ""
					if y.K == KWeak {
						y.K = KPtr
					}
					if y.S == immortal && (y.K == KUndef || y.K == KBool) {
						y.S = ""
					}
					args.A = append(args.A, cp(&y))
				}
				n.M["args"] = &V{K: KPtr, A: []*V{args}}
				return n
			}
			for k, x := range v.M {
				n.M[k] = cp(x)
			}
		}
		return n
	}
	return encLoose(cp(root), o)
}

// encLoose takes out what options make unspecific: string flags, and which strings are one.
func encLoose(root *V, o *encOpts) *V {
	if !o.dedupe {
		return root
	}
	seen := map[*V]bool{}
	leaf := func(v *V) bool { return v.K != KPtr && v.K != KWeak && v.K != KArr && v.K != KMap && v.S != immortal }
	var rec func(v *V)
	sub := func(x *V) *V {
		if x.K == KBytes {
			x.K, x.S = KStr, latin1(x.S)
		}
		if o.aliased && leaf(x) {
			y := *x
			y.From = x
			return &y
		}
		rec(x)
		return x
	}
	rec = func(v *V) {
		if seen[v] {
			return
		}
		seen[v] = true
		if v.K == KBytes {
			v.K, v.S = KStr, latin1(v.S)
		}
		for i, x := range v.A {
			v.A[i] = sub(x)
		}
		for k, x := range v.M {
			v.M[k] = sub(x)
		}
	}
	rec(root)
	return root
}

var addrOf = regexp.MustCompile(`\(0x[0-9a-f]+\)$`)

func encDiff(want, got *V, o *encOpts) string {
	return (&graphDiff{strong: map[*V]int{}}).diff(want, encLoose(got, o))
}

func c24Case(c *Ctx) {
	r := c.R
	version := r.In(1, 4)
	freeze := r.P(4)
	if freeze {
		version = r.In(3, 4)
	}
	dense := c.Phase == "dense"
	d, g := genDoc(r, version, func(g *docGen) {
		perlDocGen(dense)(g)
		g.freezeOnly = freeze
		if !freeze {
			g.freeze = false
		}
		if g.budget > 100 {
			g.budget = 100
		}
	})
	d.Header = nil
	if evalPerl(d.Body, perlOptions{}).conflict != "" {
		c.Count("left_out", 1)
		return
	}
	spices := 0
	if !freeze {
		spices = r.Len(12)
	}
	var path, hpath []int
	if !r.P(2) {
		path = append(path, r.N(1000))
	}
	if r.P(2) {
		hpath = append(hpath, r.N(1000))
	}
	w := &wireWriter{b: []byte{'R'}}
	w.n(r.N(1 << 30))
	w.n(spices)
	fr := 0
	if freeze {
		fr = 1
	}
	w.n(fr)
	w.str(string(d.bytes(r)))
	for _, p := range [][]int{path, hpath} {
		w.n(len(p))
		for _, x := range p {
			w.n(x)
		}
	}
	type variant struct {
		o      *encOpts
		entry  int
		poison int
	}
	var vs []variant
	w.n(3)
	for i := 0; i < 3; i++ {
		v := variant{randEncOpts(r, freeze), r.N(9), r.N(8)}
		vs = append(vs, v)
		w.opts(v.o.m)
		w.n(v.entry)
		w.n(v.poison)
	}
	c.Count("spices", int64(spices))
	for k, v := range g.counts {
		c.Count("of_"+k, v)
	}
	if debugDoc != nil {
		debugDoc(d)
	}
	res, err := thePerl.call(w.b)
	show := func() string {
		s := ""
		for _, v := range vs {
			s += fmt.Sprintf("entry %d, poison %d, %v; ", v.entry, v.poison, v.o.m)
		}
		return s
	}
	if err != nil {
		c.Fail("Perl: %v\n%s", err, show())
		return
	}
	c.Evals(9)
	rd := &graphReader{wireReader: wireReader{s: res}}
	graph := func() *V { rd.byID = nil; return rd.value() }
	hdr := graph()
	body := graph()
	bi, hi := encLook(body), encLook(hdr)
	if freeze && (bi.sharedArgs || hi.sharedArgs) || bi.referredElement || hi.referredElement {
		c.Count("left_out", 1)
		return
	}
	for i, v := range vs {
		o := v.o
		hasHdr := (v.entry == 3 || v.entry == 4 || v.entry == 5 || v.entry == 8) && hdr.K != KUndef
		fail := func(f string, a ...any) {
			c.Fail("variant %d: %s\nentry %d, poison %d, %v\nbody %s\nheader %s", i, fmt.Sprintf(f, a...), v.entry, v.poison, o.m, dumpV(body), dumpV(hdr))
		}
		// what must and what may go wrong
		must, may := false, map[string]bool{}
		look := func(in encInfo) {
			if o.croak && in.object {
				must, may["croak_on_bless"] = true, true
			}
			if in.unknown && !o.undef && !o.stringify {
				must, may["not representable"] = true, true
			}
			if o.depth > 0 && in.upper >= o.depth {
				may["maximum recursion depth"] = true
				if in.lower >= o.depth && !freeze {
					must = true
				}
			}
		}
		look(bi)
		if hasHdr {
			look(hi)
			if o.version == 1 {
				must, may["user header data"] = true, true
			}
		}
		if rd.byte() == 'e' {
			e := rd.str()
			ok := false
			for k := range may {
				ok = ok || strings.Contains(e, k)
			}
			if !ok {
				fail("refuses the value: %s", e)
				return
			}
			c.Count("refused", 1)
			continue
		}
		b := rd.str()
		h2, b2 := graph(), graph()
		again := ""
		if o.m["canonical"] != "" {
			again = rd.str()
		}
		if must {
			fail("accepts the value: %x", clip([]byte(b)))
			return
		}
		c.Distinct(hashStr(b))
		p, err := parseAs([]byte(b), true)
		if err != nil {
			fail("not well-formed: %v\n%x", err, clip([]byte(b)))
			return
		}
		if s := c24Form(o, p, hasHdr); s != "" {
			fail("%s\n%x", s, clip([]byte(b)))
			return
		}
		tagCounts(c, p.Body)
		po := perlOptions{}
		side := func(name string, v *V, n *Node, perl *V) bool {
			want := encExpect(v, o)
			g := evalPerl(n, po)
			if g.conflict != "" {
				fail("%s: %s\n%x", name, g.conflict, clip([]byte(b)))
				return false
			}
			late := g.late
			if df := encDiff(want, g.root, o); df != "" {
				fail("%s: the document means something else: %s\nwant %s\ngot  %s\n%x", name, df, dumpV(want), dumpV(g.root), clip([]byte(b)))
				return false
			}
			if df := encDiff(encExpect(v, o), perl, o); df != "" && !late {
				fail("%s: after decoding: %s\n%x\nwant %s\ngot  %s", name, df, clip([]byte(b)), dumpV(encExpect(v, o)), dumpV(perl))
				return false
			}
			return true
		}
		if !side("body", body, p.Body, b2) {
			return
		}
		if hasHdr && !side("header", hdr, p.Header, h2) {
			return
		}
		c.Count("encoded", 1)
		c.Count("scalars_compared", int64(len(rd.byID)))
		if c.Idx%5000 == 0 {
			c.Sample("%v, entry %d, %d bytes: %s", o.m, v.entry, len(b), dumpV(body))
		}
		if o.canonical {
			if again == b {
				c.Count("canonical_again", 1)
			} else {
				c.Count("canonical_differs", 1)
			}
		}
	}
}

// c24Form looks at the things options promise of the document.
func c24Form(o *encOpts, p *parsed, hasHdr bool) string {
	if p.Version != o.version {
		return fmt.Sprintf("version %d", p.Version)
	}
	if (p.Header != nil) != hasHdr {
		return "header or not?"
	}
	if p.Type != 0 && (p.Type != o.typ || len(p.RawBody) < o.threshold) {
		return fmt.Sprintf("type %d for a body of %d bytes", p.Type, len(p.RawBody))
	}
	much := len(p.RawBody) * 2 / 3
	if o.typ < 3 {
		much = len(p.RawBody) / 5
	}
	if z := deflated(p.RawBody); o.typ > 0 && p.Type == 0 && len(p.RawBody) >= max(o.threshold, 64) && z < much {
		return fmt.Sprintf("a body of %d bytes is not compressed, although zlib would make it %d", len(p.RawBody), z)
	}
	s := ""
	var classes, keys, strs map[string]bool
	once := func(m map[string]bool, n *Node, what string) {
		if n.T == tCOPY {
			return
		}
		k := "b" + n.S
		if n.T == tUTF8 {
			k = "u" + n.S
		}
		if m[k] {
			s = fmt.Sprintf("%s %q is written out twice", what, n.S)
		}
		m[k] = true
	}
	form := func(n *Node) {
		switch n.T {
		case tAREF, tHREF:
			if o.canonRefs {
				s = "a short reference"
			}
		case tOBJECT, tOBJF:
			once(classes, n.Kids[0], "class name")
		}
		if o.dedupe && !o.aliased && !o.stringify && !n.IsStr && isStrTag(n.T) && len(n.S) > 3 {
			once(strs, n, "string")
		}
		if n.T == tHASH || n.T == tHREF {
			last := ""
			for i := 0; i+1 < len(n.Kids); i += 2 {
				k := charsOf(n.Kids[i])
				if !o.noShare && o.sort == 0 && isASCII(k) {
					once(keys, n.Kids[i], "key")
				}
				if o.noShare && !o.dedupe && n.Kids[i].T == tCOPY {
					s = "a shared key"
				}
				if o.sort == 2 && i > 0 && k <= last || o.sort == 3 && i > 0 && k >= last {
					s = fmt.Sprintf("key %q after %q", k, last)
				}
				last = k
			}
		}
		if n.T == tCOPY && !o.dedupe && !n.IsStr {
			s = "a COPY"
		}
	}
	fresh := func() {
		classes, keys, strs = map[string]bool{}, map[string]bool{}, map[string]bool{}
	}
	fresh()
	walk(p.Body, form)
	if p.Header != nil {
		fresh()
		walk(p.Header, form)
	}
	return s
}

func deflated(b []byte) int {
	var z bytes.Buffer
	w := zlib.NewWriter(&z)
	w.Write(b)
	w.Close()
	return z.Len()
}
