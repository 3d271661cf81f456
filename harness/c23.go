package main

import "strconv"

func init() {
	register(&Check{
		ID:      "C23",
		Rule:    "A case is a random well-formed document of version 1 to 4 and any document type in all legal forms (padding, track bits, wide varints, every string, number and container tag, REFP, ALIAS, COPY, WEAKEN, regexps, objects and frozen objects with any arguments, also shared ones, user headers), decoded by the Perl decoder built from this tree through one of 16 entry points, three times over with one decoder object. The result is dumped scalar by scalar and compared, identities included, with the evaluation of the tree the document was written from; its reference counts are audited, and after taking it apart no scalar may be left. Distinct by bytes and entry; non-trivial: at least 3 items.",
		Assume:  []string{"the evaluator and writer of the harness state the specification", "arrays and hashes stand behind references, as everywhere in Perl", "documents that bless one thing into two classes, or undef, true or false, are not generated"},
		Prepare: preparePerl("plain", "asan"),
		Phases: []Phase{
			{Name: "docs", Quick: 60000, Thor: 1500000, Run: c23Case, Init: perlInit("plain", "c23.pl"), Done: perlDone},
			{Name: "thaw-order", Quick: 1, Thor: 1, Run: c23ThawOrder, Init: perlInit("plain", "c23.pl"), Done: perlDone},
			{Name: "dense", Quick: 60000, Thor: 1500000, Run: c23Case, Init: perlInit("plain", "c23.pl"), Done: perlDone},
			{Name: "docs-asan", Quick: 10000, Thor: 300000, Run: c23Case, Init: perlInit("asan", "c23.pl"), Done: perlDone},
		},
	})
}

func perlInit(kind, script string) func(c *Ctx) {
	return func(c *Ctx) {
		var err error
		if thePerl, err = startPerl(kind, script); err != nil {
			panic(err)
		}
	}
}

func perlDocGen(dense bool) func(g *docGen) {
	return func(g *docGen) {
		g.perlish, g.perlReal, g.freeze = true, true, g.version >= 3
		if dense {
			g.budget = g.r.In(5, 60)
			g.maxStr = 4
		}
	}
}

// intoEntry says whether the entry point decodes into a variable.
func intoEntry(entry int) bool {
	switch entry {
	case 1, 3, 5, 7, 10, 12:
		return true
	}
	return false
}

func c23Case(c *Ctx) {
	r := c.R
	version := r.In(1, 4)
	d, g := genDoc(r, version, perlDocGen(c.Phase == "dense"))
	d.Type = docTypeFor(r, version)
	po := perlOptions{noBless: r.P(10), noThaw: r.P(4)}
	c23Run(c, d, g.counts, po, r.N(16), true)
}

// c23ThawOrder: a document whose second frozen object has the first one as argument.
func c23ThawOrder(c *Ctx) {
	short := func(s string) *Node { return &Node{T: tSHORT, S: s} }
	arr := &Node{T: tARRAY, Kids: []*Node{{T: tPOS, I: 1}}, Track: true}
	a := &Node{T: tOBJF, Kids: []*Node{short("A"), {T: tREFN, Kids: []*Node{arr}}}}
	b := &Node{T: tOBJF, Kids: []*Node{short("B"), {T: tAREF, Kids: []*Node{{T: tREFP, Target: arr}}}}}
	d := &Doc{Version: 4, Body: &Node{T: tAREF, Kids: []*Node{a, b}}}
	c23Run(c, d, nil, perlOptions{}, 0, false)
	if n := len(c.fails); n > 0 {
		c.fails[n-1] = "THAW gets an object not yet thawed: " + c.fails[n-1]
	}
}

// c23Run decodes a document and compares.
func c23Run(c *Ctx, d *Doc, counts map[string]int64, po perlOptions, entry int, lateOK bool) {
	r, version := c.R, d.Version
	opts := map[string]string{}
	if po.noBless {
		opts["no_bless_objects"] = "1"
		if po.noThaw = r.Bool(); !po.noThaw {
			opts["no_thaw_objects"] = "0"
		}
	}
	if po.noThaw && !(po.noBless && r.Bool()) {
		opts["no_thaw_objects"] = "1"
	}
	if po.readonly > 0 {
		opts[[]string{"", "set_readonly", "set_readonly_scalars"}[po.readonly]] = "1"
		if po.readonly == 1 && r.P(3) {
			opts["set_readonly_scalars"] = "1"
		}
	}
	switch {
	case po.aliasUnder == 16 && r.Bool():
		opts["alias_smallint"] = "1"
	case po.aliasUnder == 16:
		opts["alias_varint_under"] = strconv.Itoa(r.In(1, 16))
	case po.aliasUnder > 0:
		opts["alias_varint_under"] = strconv.FormatInt(po.aliasUnder, 10)
	}
	if po.useUndef {
		opts["use_undef"] = "1"
	}
	want := evalPerl(d.Body, po)
	hwant := &perlGraph{root: &V{K: KUndef}}
	if debugDoc != nil {
		debugDoc(d)
	}
	if d.Header != nil {
		hwant = evalPerl(d.Header, po)
	}
	if want.conflict != "" || hwant.conflict != "" {
		c.Count("left_out", 1)
		return
	}
	b := d.bytes(r)
	offset := 0
	src := b
	switch entry {
	case 9, 10, 12:
		if r.Bool() {
			offset = r.In(1, 40)
			src = append(r.Bytes(offset), b...)
		}
	}
	w := &wireWriter{b: []byte{'G'}}
	w.opts(opts)
	w.n(entry)
	w.n(offset)
	w.n(r.N(8))
	if want.cycles || hwant.cycles {
		w.n(1) // which Perl never frees
		c.Count("lost_cycles", 1)
	} else {
		w.n(0)
	}
	w.str(string(src))
	cnt := 0
	walk(d.Body, func(*Node) { cnt++ })
	if cnt >= 3 {
		c.Distinct(hashStr(string(b) + string(rune(entry))))
	}
	tagCounts(c, d.Body)
	for k, v := range counts {
		c.Count(k, v)
	}
	if c.Idx%5000 == 0 {
		c.Sample("v%d type %d, entry %d, %d bytes: %s", version, d.Type, entry, len(b), dumpV(want.root))
	}
	res, err := thePerl.call(w.b)
	if err != nil {
		c.Fail("entry %d, offset %d, %v: %v\nv%d type %d: %s\n%x", entry, offset, opts, err, version, d.Type, dumpV(want.root), clip(b))
		return
	}
	if !intoEntry(entry) {
		want.copyRoot()
		hwant.copyRoot()
	}
	hasHeader := entry == 6 || entry == 7 || entry == 8 || entry == 10 || entry == 11 || entry == 12
	rd := &graphReader{wireReader: wireReader{s: res}}
	h := rd.value()
	rd.byID = nil
	got := rd.value()
	df := (&graphDiff{ro: true}).diff(want.root, got)
	if df != "" && want.late && lateOK {
		// the arguments of THAW should be thawed before, but see the phase known
		po.lifo = true
		w2 := evalPerl(d.Body, po)
		if !intoEntry(entry) {
			w2.copyRoot()
		}
		if (&graphDiff{ro: true}).diff(w2.root, got) == "" {
			c.Count("thawed_late", 1)
			df = ""
		}
	}
	if df != "" {
		c.Fail("entry %d, %v: %s\nwant %s\ngot  %s\nv%d type %d: %x", entry, opts, df, dumpV(want.root), dumpV(got), version, d.Type, clip(b))
		return
	}
	c.Count("scalars_compared", int64(len(rd.byID)))
	if hasHeader {
		df := (&graphDiff{ro: true}).diff(hwant.root, h)
		if df != "" && hwant.late && lateOK {
			po.lifo = true
			w2 := evalPerl(d.Header, po)
			if !intoEntry(entry) {
				w2.copyRoot()
			}
			if (&graphDiff{ro: true}).diff(w2.root, h) == "" {
				c.Count("thawed_late", 1)
				df = ""
			}
		}
		if df != "" && (d.Header != nil || entry < 10) {
			c.Fail("entry %d, %v: header: %s\nwant %s\ngot  %s\nv%d type %d: %x", entry, opts, df, dumpV(hwant.root), dumpV(h), version, d.Type, clip(b))
			return
		}
		c.Count("headers", 1)
	}
}

// debugDoc sees every document, for debugging.
var debugDoc func(d *Doc)
