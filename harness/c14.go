package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"
)

func init() {
	register(&Check{
		ID:     "C14",
		Rule:   "A case is a history of 3 to 14 calls on one Encoder or one Decoder whose settings change now and then: values and documents of all kinds, user headers, values and documents that were used before, ones that fail (unencodable parts, failing MarshalBinary and UnmarshalBinary, recursion limit, damaged and cut documents, targets that do not fit), and local struct types of the same name with other fields; each call is repeated on a new instance with the same settings and must give the same; distinct by history; non-trivial: at least one failing call in front of a successful one.",
		Assume: []string{"encoded documents are compared by their parsed content (the order of keys is random), byte for byte where nothing is ordered at random"},
		Phases: []Phase{
			{Name: "encoder", Quick: 60000, Thor: 1200000, Run: c14Encoder},
			{Name: "decoder", Quick: 40000, Thor: 800000, Run: c14Decoder},
			{Name: "round-trip", Quick: 40000, Thor: 800000, Run: c14Both},
			{Name: "limits", Quick: 400, Thor: 8000, Run: c14Limits},
		},
	})
}

// localItem makes values of eight local types, all called main.Item.
func localItem(r *Rng) any {
	s, n := randText(r, r.Len(40)), r.N(1000)
	switch r.N(8) {
	case 0:
		type Item struct{ A, B int }
		return pick[any](r, Item{n, 2}, &Item{n, 3}, []Item{{n, 1}})
	case 1:
		type Item struct{ B, A int }
		return pick[any](r, Item{n, 2}, &Item{n, 3}, []Item{{n, 1}})
	case 2:
		type Item struct {
			A string `sereal:"B"`
			B string `sereal:"A"`
		}
		return pick[any](r, Item{s, "x"}, &Item{s, "y"}, []Item{{s, "z"}})
	case 3:
		type Item struct {
			X string `sereal:"A"`
			A string `sereal:"-"`
			B int
		}
		return pick[any](r, Item{s, "x", n}, &Item{s, "y", 4}, []Item{{s, "z", n}})
	case 4:
		type Item struct{}
		return pick[any](r, Item{}, &Item{}, []Item{{}})
	case 5:
		type Item struct {
			C, D string
			A    []int
			E    any
			B    map[string]int
		}
		return pick[any](r, Item{C: s, A: []int{n}}, &Item{D: s, B: map[string]int{s: 1}}, []Item{{C: s, E: s}})
	case 6:
		type Item struct {
			a int
			B float64 `sereal:"A"`
		}
		return pick[any](r, Item{n, 1.5}, &Item{n, 2.5}, []Item{{n, 3.5}})
	}
	type Item struct {
		A *int
		B []byte
	}
	return pick[any](r, Item{nil, []byte(s)}, &Item{nil, []byte(s)}, []Item{{nil, []byte(s)}})
}

// ordered says whether the encoder writes v in only one way.
func ordered(v reflect.Value) bool {
	seen := map[memoKey]bool{}
	var rec func(v reflect.Value) bool
	rec = func(v reflect.Value) bool {
		switch v.Kind() {
		case reflect.Interface:
			return v.IsNil() || rec(v.Elem())
		case reflect.Ptr:
			k := memoKey{v.Type(), v.Pointer(), 0}
			if v.IsNil() || seen[k] {
				return true
			}
			seen[k] = true
			return rec(v.Elem())
		case reflect.Slice:
			k := memoKey{v.Type(), v.Pointer(), v.Len()}
			if v.Len() > 0 && seen[k] {
				return true
			}
			seen[k] = true
			fallthrough
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				if !rec(v.Index(i)) {
					return false
				}
			}
		case reflect.Map:
			if v.Len() > 1 {
				return false
			}
			for _, k := range v.MapKeys() {
				return rec(v.MapIndex(k))
			}
		case reflect.Struct:
			if v.NumField() > 1 && v.Type().PkgPath() != "github.com/Sereal/Sereal/Go/sereal" {
				return false
			}
			for i := 0; i < v.NumField(); i++ {
				if !rec(v.Field(i)) {
					return false
				}
			}
		}
		return true
	}
	return rec(v)
}

// failsEnc makes a value that cannot be encoded, behind some content.
func failsEnc(r *Rng, g *valGen) any {
	x := badValue(r)
	if r.P(4) {
		x = FzStr("error")
	}
	p := &SInner{A: 1}
	for i := r.N(4); i > 0; i-- {
		switch r.N(5) {
		case 0:
			x = []any{g.val(3), "dup-me-please", p, map[string]any{"dup-key": 1}, x, p}
		case 1:
			x = map[string]any{"dup-key": x}
		case 2:
			x = []any{p, p, x}
		case 3:
			x = &[]any{SInner{}, SOuter{}, x}
		case 4:
			x = sereal.PerlObject{Class: "dup-class", Reference: &[]any{x}}
		}
	}
	return x
}

// sameDocs compares two documents by content.
func sameDocs(a, b []byte) string {
	if bytes.Equal(a, b) {
		return ""
	}
	pa, err := parseDoc(a)
	if err != nil {
		return "first document: " + err.Error()
	}
	pb, err := parseDoc(b)
	if err != nil {
		return "second document: " + err.Error()
	}
	if pa.Version != pb.Version {
		return fmt.Sprintf("version %d and %d", pa.Version, pb.Version)
	}
	if df := diffV(evalDoc(pa.Body, true), evalDoc(pb.Body, true), eqOpt{PtrShare: true}); df != "" {
		return "body: " + df
	}
	if (pa.Header == nil) != (pb.Header == nil) {
		return "only one has a header"
	}
	if pa.Header != nil {
		if df := diffV(evalDoc(pa.Header, true), evalDoc(pb.Header, true), eqOpt{PtrShare: true}); df != "" {
			return "header: " + df
		}
	}
	na, nb := tagProfile(pa.Body), tagProfile(pb.Body)
	if na != nb {
		return "tags: " + na + " and " + nb
	}
	return ""
}

// tagProfile counts the tags which do not depend on the order of keys.
func tagProfile(n *Node) string {
	k := map[string]int{}
	walk(n, func(n *Node) {
		switch n.T {
		case tCOPY, tREFP, tREFN, tOBJECT, tOBJF, tARRAY, tHASH, tALIAS, tWEAKEN:
			k[tagName(n.T)]++
		}
	})
	return fmt.Sprint(k)
}

func c14Encoder(c *Ctx) {
	r := c.R
	cfg := randCfg(r)
	e := cfg.enc()
	g := newValGen(r)
	if g.budget > 60 {
		g.budget = 60
	}
	g.share = r.Bool()
	g.perlTypes = r.P(3)
	var old []any
	failed, ok := false, false
	h := uint64(0)
	value := func() (any, bool) {
		g.budget = r.In(2, 40)
		switch r.N(12) {
		case 0, 1:
			return failsEnc(r, g), true
		case 2, 3:
			if len(old) > 0 {
				return old[r.N(len(old))], false
			}
		case 4, 5, 6:
			x := localItem(r)
			if r.P(3) {
				x = []any{x, localItem(r), g.val(2), localItem(r)}
			}
			return x, false
		case 7:
			return []any{FzStr("a"), "dup-me-please", map[string]any{"dup-key": SInner{}}, FzInt(5)}, false
		case 8:
			return sereal.PerlObject{Class: "dup-class", Reference: &[]any{1}}, false
		}
		return g.val(0), false
	}
	n := r.In(3, 14)
	for i := 0; i < n; i++ {
		if r.P(4) {
			nc := randCfg(r)
			nc.Version = cfg.Version
			switch {
			case nc.Version == 1 && nc.Comp > 2, nc.Version == 2 && nc.Comp != 2, nc.Version == 3 && nc.Comp == 1:
				nc.Comp = 0
			}
			if nc.Comp != 0 && r.P(5) {
				nc.Comp = pick(r, 1, 2, 3) // perhaps not valid for the version
				nc.Threshold = 0           // the size of the document is not always the same
			}
			if r.P(4) && !g.share { // what is shared may be reached at several depths
				nc.MaxDepth = r.In(1, 6)
			}
			nc.NoFreeze = r.P(4)
			cfg = nc
			cfg.apply(e)
			if cfg.Comp == 0 {
				e.Compression = nil
			}
		}
		x, bad := value()
		var hd any
		if r.P(4) {
			hd, _ = value()
		}
		fail := 0
		if r.P(5) {
			fail = r.In(1, 3)
		}
		fzReset()
		fzLog.outErr = fail
		b1, err1 := e.MarshalWithHeader(hd, x)
		fzReset()
		fzLog.outErr = fail
		b2, err2 := cfg.enc().MarshalWithHeader(hd, x)
		fzReset()
		c.Count("encodes", 1)
		if (err1 == nil) != (err2 == nil) {
			c.Fail("call %d %v: error %v on the used encoder, %v on a new one (%T)", i, cfg, err1, err2, x)
			return
		}
		if err1 != nil {
			if len(b1) != 0 {
				c.Fail("call %d: a document together with the error %v", i, err1)
			}
			c.Count("failed_encodes", 1)
			failed = true
			continue
		}
		if bad {
			// unencodable values with DisableFREEZE may be encodable
			c.Count("not_so_bad", 1)
		}
		if ordered(reflect.ValueOf(x)) && ordered(reflect.ValueOf(hd)) {
			c.Count("compared_bytes", 1)
			if !bytes.Equal(b1, b2) {
				c.Fail("call %d %v: other bytes than with a new encoder (%T):\n%x\n%x", i, cfg, x, clip(b1), clip(b2))
				return
			}
		} else if df := sameDocs(b1, b2); df != "" {
			c.Fail("call %d %v: other document than with a new encoder (%T): %s\n%x\n%x", i, cfg, x, df, clip(b1), clip(b2))
			return
		}
		h = mix(h ^ hashStr(string(b2)))
		ok = ok || failed
		if len(old) < 5 {
			old = append(old, x)
		}
	}
	if ok {
		c.Distinct(h)
	}
}

// localTarget makes variables of local types, all called main.Item.
func localTarget(r *Rng) func() any {
	switch r.N(6) {
	case 0:
		type Item struct{ A, B int }
		return pick(r, func() any { return new(Item) }, func() any { return new([]Item) }, func() any { return new(*Item) })
	case 1:
		type Item struct{ B, A int }
		return pick(r, func() any { return new(Item) }, func() any { return new([]Item) }, func() any { return new(*Item) })
	case 2:
		type Item struct {
			A any `sereal:"B"`
			B any `sereal:"A"`
		}
		return pick(r, func() any { return new(Item) }, func() any { return new([]Item) }, func() any { return new(*Item) })
	case 3:
		type Item struct {
			X any `sereal:"A"`
			A any `sereal:"-"`
			B any
		}
		return pick(r, func() any { return new(Item) }, func() any { return new([]Item) }, func() any { return new(map[string]Item) })
	case 4:
		type Item struct{}
		return pick(r, func() any { return new(Item) }, func() any { return new([]Item) }, func() any { return new(*Item) })
	}
	type Item struct {
		A any
		B []any
		C *int
	}
	return pick(r, func() any { return new(Item) }, func() any { return new([]Item) }, func() any { return new(map[string]*Item) })
}

func c14Decoder(c *Ctx) {
	r := c.R
	d := &sereal.Decoder{}
	perl, dri := r.P(4), r.P(6)
	type reg struct {
		class string
		x     any
	}
	var regs []reg
	apply := func(d *sereal.Decoder) { d.PerlCompat, d.DisableReferentialIntegrity = perl, dri }
	var old [][]byte
	failed, ok := false, false
	h := uint64(0)
	doc := func() []byte {
		switch r.N(8) {
		case 0:
			return hostile(c)
		case 1, 2:
			if len(old) > 0 {
				b := old[r.N(len(old))]
				if r.Bool() {
					return b[:r.In(6, len(b))]
				}
				return b
			}
		case 3:
			b, err := randCfg(r).enc().Marshal(pick[any](r, localItem(r), []any{localItem(r), localItem(r)}, map[string]any{"A": 1, "B": "x", "b": 2}))
			if err == nil {
				return b
			}
		case 4: // deep ones
			b, err := sereal.Marshal(deepValue(r.In(1, 300)))
			if err == nil {
				if r.Bool() {
					b = b[:r.In(6, len(b))]
				}
				return b
			}
		case 5:
			b, err := randCfg(r).enc().Marshal(fzRec(r, 2))
			if err == nil {
				return b
			}
		}
		dd, _ := genDoc(r, r.In(1, 4), func(g *docGen) {
			g.perlish = r.P(3)
			g.freeze = r.P(3)
			if g.budget > 80 {
				g.budget = 80
			}
		})
		dd.Type = docTypeFor(r, dd.Version)
		return dd.bytes(r)
	}
	n := r.In(3, 14)
	for i := 0; i < n; i++ {
		if r.P(4) {
			perl, dri = r.P(3), r.P(5)
			apply(d)
		} else if i == 0 {
			apply(d)
		}
		if r.P(3) {
			class := pick(r, "Foo", "X", "main.FzStr", "main.FzStruct", "main.FzInt", "main.FzBig")
			x := pick[any](r, &FzStruct{}, &TThaw{}, new(FzStr))
			d.RegisterName(class, x)
			regs = append(regs, reg{class, x})
		}
		mk := targetMakers[r.N(len(targetMakers))]
		switch r.N(4) {
		case 0:
			mk = targetMakers[0]
		case 1:
			mk = localTarget(r)
		}
		b := doc()
		op := r.N(6)
		fail := 0
		if r.P(5) {
			fail = r.In(1, 3)
		}
		run := func(d *sereal.Decoder) (any, any, error) {
			fzReset()
			fzLog.inErr = fail
			defer fzReset()
			x, hd := mk(), new(any)
			var err error
			switch op {
			case 0:
				err = d.UnmarshalHeader(b, hd)
			case 1:
				err = d.UnmarshalHeaderBody(b, hd, x)
			default:
				err = d.Unmarshal(b, x)
			}
			return x, *hd, err
		}
		x1, h1, err1 := run(d)
		nd := &sereal.Decoder{}
		apply(nd)
		for _, g := range regs {
			nd.RegisterName(g.class, g.x)
		}
		x2, h2, err2 := run(nd)
		c.Count("decodes", 1)
		if fmt.Sprint(err1) != fmt.Sprint(err2) {
			c.Fail("call %d: error %v on the used decoder, %v on a new one (%T)\n%x", i, err1, err2, x1, clip(b))
			return
		}
		if err1 != nil {
			c.Count("failed_decodes", 1)
			failed = true
			continue
		}
		m1, m2 := newMapper(), newMapper()
		m1.freeze, m2.freeze = true, true
		o := eqOpt{Share: true, PtrShare: true}
		v1, v2 := m1.of(reflect.ValueOf([]any{x1, h1})), m2.of(reflect.ValueOf([]any{x2, h2}))
		fzReset()
		if df := diffV(v1, v2, o); df != "" {
			c.Fail("call %d (op %d, %T): other result than with a new decoder: %s\nused %s\nnew  %s\n%x", i, op, x1, df, dumpV(v1), dumpV(v2), clip(b))
			return
		}
		ok = ok || failed
		h = mix(h ^ hashV(v1))
		if len(old) < 5 {
			old = append(old, b)
		}
	}
	if ok {
		c.Distinct(h)
	}
}

func deepValue(n int) any {
	var x any = n
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			x = []any{x}
		} else {
			x = map[string]any{"k": x}
		}
	}
	return x
}

// c14Both: local types of the same name go through one encoder and one decoder.
func c14Both(c *Ctx) {
	r := c.R
	cfg := randCfg(r)
	cfg.Perl = false
	e, d := cfg.enc(), &sereal.Decoder{}
	var h uint64
	for i := r.In(3, 10); i > 0; i-- {
		if r.P(5) {
			e.Marshal(failsEnc(r, newValGen(r)))
			d.Unmarshal(hostile(c), new(any))
			c.Count("failing", 2)
		}
		x := localItem(r)
		if reflect.TypeOf(x).Kind() == reflect.Ptr {
			x = reflect.ValueOf(x).Elem().Interface()
		}
		b, err := e.Marshal(x)
		if err != nil {
			c.Fail("%v: %v", cfg, err)
			return
		}
		want := reflect.New(reflect.TypeOf(x)).Elem()
		want.Set(reflect.ValueOf(x))
		hideUnencoded(want)
		y := reflect.New(reflect.TypeOf(x))
		if err := d.Unmarshal(b, y.Interface()); err != nil {
			c.Fail("%v: %v\n%x", cfg, err, clip(b))
			return
		}
		if df := deepDiff(want, y.Elem(), "$"); df != "" {
			c.Fail("%v: %+v: %s\n%x", cfg, x, df, clip(b))
			return
		}
		c.Count("round_trips", 1)
		h = mix(h ^ hashStr(fmt.Sprintf("%T%v", x, x)))
	}
	c.Distinct(h)
}

// hideUnencoded zeroes the fields that are not encoded.
func hideUnencoded(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(n, v)
		for i := 0; i < n.Len(); i++ {
			hideUnencoded(n.Index(i))
		}
		v.Set(n)
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" && f.Tag.Get("sereal") != "-" {
				n.Field(i).Set(v.Field(i))
			}
		}
		v.Set(n)
	}
}

// c14Limits: what a call used up of the decoder's limits is available to the next.
func c14Limits(c *Ctx) {
	r := c.R
	d := &sereal.Decoder{PerlCompat: r.P(3)}
	var h uint64
	for i := r.In(3, 8); i > 0; i-- {
		n := r.In(100, 45000)
		var b []byte
		switch r.N(4) {
		case 0: // nested arrays
			b = append(bytes.Repeat([]byte{tREFN, tARRAY, 1}, n), 5)
		case 1: // nested hashes
			b = append(bytes.Repeat([]byte{tREFN, tHASH, 1, tSHORT | 1, 'k'}, n), 5)
		case 2: // a long array
			b = append([]byte{tREFN, tARRAY}, putVarint(nil, uint64(n), 0)...)
			b = append(b, bytes.Repeat([]byte{7}, n)...)
		case 3: // copies of nested arrays
			n = r.In(1, 300)
			b = append([]byte{tARRAY, 2}, bytes.Repeat([]byte{tREFN, tARRAY, 1}, n)...)
			b = append(b, 5, tCOPY, 3)
		}
		full := append(append([]byte{}, magicOf(3)...), 3, 0)
		full = append(full, b...)
		bad := r.Bool()
		if bad {
			full = full[:len(full)-r.In(1, 2)]
		}
		op := func(d *sereal.Decoder) (any, error) {
			if n < 400 && r.P(4) {
				return nil, d.UnmarshalHeader(full, new(any))
			}
			return decodeAny(d, full)
		}
		s := *r
		x1, err1 := op(d)
		*r = s
		x2, err2 := op(&sereal.Decoder{PerlCompat: d.PerlCompat})
		c.Count("decodes", 1)
		if fmt.Sprint(err1) != fmt.Sprint(err2) {
			c.Fail("error %v on the used decoder, %v on a new one: %x", err1, err2, clip(full))
			return
		}
		if bad && x1 != nil && err1 == nil || !bad && err1 != nil {
			c.Fail("error %v with cut=%v: %x", err1, bad, clip(full))
			return
		}
		if n < 2000 {
			if df := diffV(fromGo(x2), fromGo(x1), eqOpt{Share: true, PtrShare: true}); df != "" {
				c.Fail("other result than with a new decoder: %s: %x", df, clip(full))
				return
			}
		}
		h = mix(h ^ hashStr(string(full)))
	}
	c.Distinct(h)
}
