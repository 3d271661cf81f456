package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"runtime/debug"
	"syscall"

	"github.com/Sereal/Sereal/Go/sereal"
)

func init() {
	register(&Check{
		ID:     "C17",
		Rule:   "A case is a generated, encoded or damaged document in a buffer with slack, or a value with slack in its slices; every operation runs, then inputs (slack included) are compared with a copy, inputs and results are overwritten, the instances are used again, and earlier results are compared with what they were; in the phase \"protected\" the input is on read-only pages in front of an unmapped one, so that any write to it and any read behind it traps; distinct by document and target; non-trivial: at least one string or byte slice was decoded.",
		Assume: []string{"a finished Merger keeps returning the same document", "DecompressDocument may put its result into dst"},
		Phases: []Phase{
			{Name: "decode", Quick: 60000, Thor: 1200000, Run: c17Decode},
			{Name: "decompress", Quick: 30000, Thor: 600000, Run: c17Decompress},
			{Name: "encode", Quick: 40000, Thor: 800000, Run: c17Encode},
			{Name: "merge", Quick: 16000, Thor: 300000, Run: c17Merge},
			{Name: "protected", Quick: 30000, Thor: 600000, Run: c17Protected, Init: c17Map},
		},
	})
}

// rawHash hashes everything reachable from v, slices up to their capacity.
func rawHash(v reflect.Value) uint64 {
	seen := map[memoKey]bool{}
	var rec func(v reflect.Value) uint64
	rec = func(v reflect.Value) uint64 {
		if !v.IsValid() {
			return 11
		}
		h := mix(uint64(v.Kind()) * 77)
		add := func(x uint64) { h = mix(h*31 ^ x) }
		switch v.Kind() {
		case reflect.Bool:
			if v.Bool() {
				add(1)
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			add(uint64(v.Int()))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			add(v.Uint())
		case reflect.Float32, reflect.Float64:
			add(math.Float64bits(v.Float()))
		case reflect.String:
			add(hashStr(v.String()))
		case reflect.Interface:
			add(rec(v.Elem()))
		case reflect.Ptr:
			add(uint64(v.Pointer()))
			k := memoKey{v.Type(), v.Pointer(), 0}
			if !v.IsNil() && !seen[k] {
				seen[k] = true
				add(rec(v.Elem()))
			}
		case reflect.Slice:
			add(uint64(v.Pointer()) ^ uint64(v.Len())<<40 ^ uint64(v.Cap())<<20)
			k := memoKey{v.Type(), v.Pointer(), v.Len()}
			if v.Cap() == 0 || seen[k] {
				break
			}
			seen[k] = true
			n := v.Cap()
			if n > v.Len()+64 {
				n = v.Len() + 64
			}
			full := v.Slice(0, n)
			for i := 0; i < full.Len(); i++ {
				add(rec(full.Index(i)))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				add(rec(v.Index(i)))
			}
		case reflect.Map:
			add(uint64(v.Pointer()))
			k := memoKey{v.Type(), v.Pointer(), 0}
			if seen[k] {
				break
			}
			seen[k] = true
			sum := uint64(v.Len())
			it := v.MapRange()
			for it.Next() {
				sum += mix(rec(it.Key())*3 ^ flatHash(it.Value()))
			}
			add(sum)
			// what is behind the values, in the order of the keys
			for _, k := range sortedMapKeys(v) {
				add(rec(v.MapIndex(k)))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				add(rec(v.Field(i)))
			}
		}
		return h
	}
	return rec(v)
}

func flatHash(v reflect.Value) uint64 {
	for v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() {
		return 1
	}
	return hashStr(v.Type().String())
}

func sortedMapKeys(v reflect.Value) []reflect.Value {
	m := map[string]reflect.Value{}
	for _, k := range v.MapKeys() {
		m[fmt.Sprintf("%v", k)] = k
	}
	var l []reflect.Value
	for _, k := range sortedKeys(m) {
		l = append(l, m[k])
	}
	return l
}

// scribble overwrites all byte slices that v leads to, up to their capacity, and reports how many.
func scribble(v reflect.Value, x byte) int {
	n := 0
	seen := map[memoKey]bool{}
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			rec(v.Elem())
		case reflect.Ptr:
			k := memoKey{v.Type(), v.Pointer(), 0}
			if !v.IsNil() && !seen[k] {
				seen[k] = true
				rec(v.Elem())
			}
		case reflect.Slice:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				if v.Cap() > 0 {
					b := v.Slice(0, v.Cap()).Bytes()
					for i := range b {
						b[i] ^= x
					}
					n++
				}
				return
			}
			k := memoKey{v.Type(), v.Pointer(), v.Len()}
			if v.Cap() == 0 || seen[k] {
				return
			}
			seen[k] = true
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
		case reflect.Map:
			k := memoKey{v.Type(), v.Pointer(), 0}
			if seen[k] {
				return
			}
			seen[k] = true
			for _, k := range v.MapKeys() {
				rec(v.MapIndex(k))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					rec(v.Field(i))
				}
			}
		}
	}
	rec(v)
	return n
}

// slack puts b into a bigger buffer.
type slack struct {
	buf, orig []byte
	lo, n     int
}

func newSlack(r *Rng, b []byte) *slack {
	s := &slack{lo: r.In(0, 40), n: len(b)}
	s.buf = bytes.Repeat([]byte{0xc3}, s.lo+len(b)+r.In(0, 300)+r.N(2)*len(b))
	copy(s.buf[s.lo:], b)
	s.orig = append([]byte{}, s.buf...)
	return s
}

func (s *slack) b() []byte     { return s.buf[s.lo : s.lo+s.n] }
func (s *slack) ok() bool      { return bytes.Equal(s.buf, s.orig) }
func (s *slack) fill(x byte)   { copy(s.buf, bytes.Repeat([]byte{x}, len(s.buf))) }
func (s *slack) restore()      { copy(s.buf, s.orig) }
func (s *slack) where() string { return fmt.Sprintf("%x\nwas  %x", clip(s.buf), clip(s.orig)) }

// KeepBytes keeps the slice that it is given.
type KeepBytes struct{ B []byte }

func (k KeepBytes) MarshalBinary() ([]byte, error)  { return k.B, nil }
func (k *KeepBytes) UnmarshalBinary(b []byte) error { k.B = b; return nil }

type keepRec struct {
	A, B KeepBytes
	C    []KeepBytes
	D    map[string]*KeepBytes
	E    any
}

func c17Doc(c *Ctx) []byte {
	r := c.R
	switch r.N(6) {
	case 0:
		return hostile(c)
	case 1:
		g := newValGen(r)
		g.perlTypes = r.Bool()
		cfg := randCfg(r)
		var hd any
		if r.P(3) {
			hd = newValGen(r).val(0)
		}
		if b, err := cfg.enc().MarshalWithHeader(hd, g.val(0)); err == nil {
			return b
		}
	case 2:
		x := keepRec{KeepBytes{[]byte(fzText(r))}, KeepBytes{[]byte("b")}, []KeepBytes{{[]byte(fzText(r))}, {r.Bytes(9)}}, map[string]*KeepBytes{"x": {r.Bytes(40)}}, KeepBytes{[]byte("e")}}
		if b, err := randCfg(r).enc().Marshal(x); err == nil {
			return b
		}
	}
	d, _ := genDoc(r, r.In(1, 4), func(g *docGen) {
		g.perlish = r.P(3)
		g.freeze = r.P(3)
		g.maxStr = min(g.maxStr, 3000)
	})
	d.Type = docTypeFor(r, d.Version)
	return d.bytes(r)
}

func c17Decode(c *Ctx) {
	r := c.R
	dec := &sereal.Decoder{PerlCompat: r.P(3), DisableReferentialIntegrity: r.P(6)}
	for _, class := range []string{"Foo", "X", "main.KeepBytes", "main.FzStr"} {
		if r.Bool() {
			dec.RegisterName(class, &KeepBytes{})
		}
	}
	type result struct {
		x    any
		h    *any
		v    *V
		snap string
	}
	var old []result
	look := func(x any, h *any) *V {
		return fromGo([]any{x, *h})
	}
	for i := r.In(1, 4); i > 0; i-- {
		s := newSlack(r, c17Doc(c))
		mk := targetMakers[r.N(len(targetMakers))]
		switch r.N(4) {
		case 0, 1:
			mk = targetMakers[0]
		case 2:
			if r.Bool() {
				mk = func() any { return new(keepRec) }
			}
		}
		x, h := mk(), new(any)
		var err error
		op := func(x any, h *any) error {
			if r.P(2) {
				return dec.Unmarshal(s.b(), x)
			}
			return dec.UnmarshalHeaderBody(s.b(), h, x)
		}
		rs := *r
		err = op(x, h)
		c.Count("decodes", 1)
		if !s.ok() {
			c.Fail("decoding into %T (error %v) changed the input: %s", x, err, s.where())
			return
		}
		if err != nil {
			c.Count("errors", 1)
			s.fill(0xEE)
			continue
		}
		v := look(x, h)
		snap := dumpV(v)
		// the input is overwritten
		s.fill(0xEE)
		if df := diffV(v, look(x, h), eqOpt{Share: true, PtrShare: true}); df != "" {
			c.Fail("decoded into %T: overwriting the input changes the result: %s\n%x", x, df, clip(s.orig))
			return
		}
		s.restore()
		// the results of the same document are independent
		y, h2 := mk(), new(any)
		*r = rs
		if err := op(y, h2); err != nil {
			c.Fail("decoding again: %v", err)
			return
		}
		if df := diffV(v, look(y, h2), eqOpt{Share: true, PtrShare: true}); df != "" {
			c.Fail("decoding again into %T: %s\n%x", x, df, clip(s.orig))
			return
		}
		if n := scribble(reflect.ValueOf([]any{y, h2}), 0x5a); n > 0 {
			c.Count("byte_slices_overwritten", int64(n))
			if !s.ok() {
				c.Fail("writing to a result (%T) changed the input: %s", y, s.where())
				return
			}
			if df := diffV(v, look(x, h), eqOpt{Share: true, PtrShare: true}); df != "" {
				c.Fail("writing to a result (%T) changed an earlier one: %s\n%x", y, df, clip(s.orig))
				return
			}
			c.Distinct(hashStr(string(s.b())) ^ hashStr(fmt.Sprintf("%T", x)))
		}
		z, h3 := mk(), new(any)
		*r = rs
		if err := op(z, h3); err != nil {
			c.Fail("decoding a third time: %v", err)
			return
		}
		if df := diffV(v, look(z, h3), eqOpt{Share: true, PtrShare: true}); df != "" {
			c.Fail("decoding into %T after writing to a result: %s\n%x", x, df, clip(s.orig))
			return
		}
		if bad := overlap(reflect.ValueOf([]any{z, h3})); bad != "" {
			c.Fail("%T: %s\n%x", z, bad, clip(s.orig))
			return
		}
		old = append(old, result{x, h, v, snap})
		for _, o := range old {
			if w := dumpV(look(o.x, o.h)); w != o.snap {
				c.Fail("an earlier result (%T) changed from %s to %s", o.x, o.snap, w)
				return
			}
		}
	}
}

// overlap finds byte slices of a result that share memory (capacity included) although they are not the same slice.
func overlap(v reflect.Value) string {
	type span struct{ lo, hi uintptr }
	spans := map[uintptr]span{}
	var los []uintptr
	bad := ""
	seen := map[memoKey]bool{}
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			rec(v.Elem())
		case reflect.Ptr:
			k := memoKey{v.Type(), v.Pointer(), 0}
			if !v.IsNil() && !seen[k] {
				seen[k] = true
				rec(v.Elem())
			}
		case reflect.Slice:
			k := memoKey{v.Type(), v.Pointer(), v.Len()}
			if v.Cap() == 0 || seen[k] {
				return
			}
			seen[k] = true
			if v.Type().Elem().Kind() == reflect.Uint8 {
				s := span{v.Pointer(), v.Pointer() + uintptr(v.Cap())}
				if o, ok := spans[s.lo]; ok && o != s {
					bad = "two byte slices of a result start at the same address"
				}
				spans[s.lo] = s
				los = append(los, s.lo)
				return
			}
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
		case reflect.Map:
			k := memoKey{v.Type(), v.Pointer(), 0}
			if seen[k] {
				return
			}
			seen[k] = true
			for _, k := range v.MapKeys() {
				rec(v.MapIndex(k))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					rec(v.Field(i))
				}
			}
		}
	}
	rec(v)
	if bad != "" {
		return bad
	}
	sortU(los)
	for i := 1; i < len(los); i++ {
		if los[i] != los[i-1] && spans[los[i-1]].hi > los[i] {
			return "two byte slices of a result overlap (appending to one would overwrite the other)"
		}
	}
	return ""
}

func sortU(l []uintptr) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

func c17Decompress(c *Ctx) {
	r := c.R
	var olds []struct{ b, snap []byte }
	for i := r.In(1, 5); i > 0; i-- {
		s := newSlack(r, c17Doc(c))
		out, err := sereal.DecompressDocument(nil, s.b())
		if !s.ok() {
			c.Fail("DecompressDocument (error %v) changed the input: %s", err, s.where())
			return
		}
		if err != nil {
			continue
		}
		snap := append([]byte{}, out...)
		// into a buffer of any size
		n := pick(r, 0, 1, len(s.b())-1, len(s.b()), len(s.b())+1, len(out), 2*len(out)+10, r.N(5000))
		dst := make([]byte, max(n, 0), max(n, 0)+r.N(2)*r.N(3000))
		out2, err := sereal.DecompressDocument(dst, s.b())
		if !s.ok() {
			c.Fail("DecompressDocument into a buffer of %d bytes changed the input: %s", n, s.where())
			return
		}
		if err != nil || !bytes.Equal(out2, out) {
			c.Fail("DecompressDocument into a buffer of %d bytes: %v\n%x\n%x", n, err, clip(out), clip(out2))
			return
		}
		s.fill(0xEE)
		if !bytes.Equal(out, snap) || !bytes.Equal(out2, snap) {
			c.Fail("overwriting the input changes the decompressed document (dst %d bytes)\n%x", n, clip(s.orig))
			return
		}
		s.restore()
		full := out2[:cap(out2)]
		for i := range full {
			full[i] = 0x77
		}
		if !s.ok() {
			c.Fail("writing to the result of DecompressDocument (dst %d bytes) changed the input: %s", n, s.where())
			return
		}
		if !bytes.Equal(out, snap) {
			c.Fail("writing to a result of DecompressDocument changed an earlier one")
			return
		}
		olds = append(olds, struct{ b, snap []byte }{out, snap})
		for _, o := range olds {
			if !bytes.Equal(o.b, o.snap) {
				c.Fail("a later DecompressDocument changed an earlier result")
				return
			}
		}
		c.Count("decompressed", 1)
		c.Distinct(hashStr(string(s.b())) ^ mix(uint64(n)))
	}
}

// stretch gives slices of a value more capacity than length, filled with other data.
func stretch(r *Rng, v reflect.Value) {
	seen := map[uintptr]bool{}
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if b, ok := v.Interface().([]byte); ok && v.CanSet() && b != nil {
				n := append(append(make([]byte, 0, len(b)+20), b...), "slackslackslack"...)
				v.Set(reflect.ValueOf(n[:len(b)]))
				return
			}
			rec(v.Elem())
		case reflect.Ptr:
			if !v.IsNil() && !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				rec(v.Elem())
			}
		case reflect.Slice, reflect.Array:
			if v.Kind() == reflect.Slice {
				if v.Len() == 0 || seen[v.Pointer()] {
					return
				}
				seen[v.Pointer()] = true
			}
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
		case reflect.Map:
			if seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			for _, k := range v.MapKeys() {
				rec(v.MapIndex(k))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if f.CanSet() && f.Type() == tBytes && f.Len() > 0 {
					b := f.Bytes()
					n := append(append(make([]byte, 0, len(b)+20), b...), "slackslackslack"...)
					f.Set(reflect.ValueOf(n[:len(b)]))
				} else if f.CanSet() {
					rec(f)
				}
			}
		}
	}
	rec(v)
}

func c17Encode(c *Ctx) {
	r := c.R
	cfg := randCfg(r)
	e := cfg.enc()
	type res struct{ b, snap []byte }
	var olds []res
	for i := r.In(1, 5); i > 0; i-- {
		g := newValGen(r)
		g.share, g.perlTypes = r.Bool(), r.P(3)
		g.maxStr = min(g.maxStr, 2000)
		var x any = []any{g.val(0), []byte(g.str()), KeepBytes{append(make([]byte, 0, 50), "kept"...)}, g.val(0)}
		bad := r.P(6)
		if bad {
			x = []any{x, failsEnc(r, g)}
		}
		stretch(r, reflect.ValueOf(x))
		h0 := rawHash(reflect.ValueOf(x))
		var b []byte
		var err error
		if r.P(3) {
			b, err = e.MarshalWithHeader(x, x)
		} else {
			b, err = e.Marshal(x)
		}
		c.Count("encodes", 1)
		if h1 := rawHash(reflect.ValueOf(x)); h1 != h0 {
			c.Fail("%v: Marshal (error %v) changed the value: %s", cfg, err, dumpV(fromGo(x)))
			return
		}
		if err != nil {
			continue
		}
		snap := append([]byte{}, b...)
		// the value is overwritten
		scribble(reflect.ValueOf(x), 0x33)
		if !bytes.Equal(b, snap) {
			c.Fail("%v: changing the value changes its document", cfg)
			return
		}
		h2 := rawHash(reflect.ValueOf(x))
		if r.P(3) {
			full := b[:cap(b)]
			for i := range full {
				full[i] = 0x99
			}
			if rawHash(reflect.ValueOf(x)) != h2 {
				c.Fail("%v: writing to the document changes the value", cfg)
				return
			}
		} else {
			olds = append(olds, res{b, snap})
		}
		for _, o := range olds {
			if !bytes.Equal(o.b, o.snap) {
				c.Fail("%v: a document changed after it was returned\n%x\n%x", cfg, clip(o.snap), clip(o.b))
				return
			}
		}
		c.Distinct(hashStr(string(snap)))
	}
}

func c17Merge(c *Ctx) {
	r := c.R
	mc := randMergeCfg(r)
	var in []*slack
	for i := r.In(1, 6); i > 0; i-- {
		in = append(in, newSlack(r, c17Doc(c)))
	}
	// what comes out if nobody touches the buffers
	run := func(touch bool) ([]byte, bool) {
		m := mc.merger()
		var log []byte
		for _, s := range in {
			n, err := m.Append(s.b())
			log = append(log, fmt.Sprintln(n, err)...)
			if !s.ok() {
				c.Fail("Append (error %v) changed its input: %s", err, s.where())
				return nil, false
			}
			if touch {
				s.fill(0xEE)
			}
		}
		out, err := m.Finish()
		log = append(log, fmt.Sprintln(err)...)
		snap := append([]byte{}, out...)
		if touch {
			for _, s := range in {
				s.fill(0x11)
			}
			if !bytes.Equal(snap, out) {
				c.Fail("%v: overwriting the inputs changes the merged document", mc)
				return nil, false
			}
			for _, s := range in {
				s.restore()
			}
		} else {
			// the merger is used again
			for _, s := range in {
				m.Append(s.b())
			}
			m.Finish()
			if !bytes.Equal(snap, out) {
				c.Fail("%v: using the merger again changes its document", mc)
				return nil, false
			}
			full := out[:cap(out)]
			for i := range full {
				full[i] = 0x99
			}
			for _, s := range in {
				if !s.ok() {
					c.Fail("%v: writing to the merged document changes an input: %s", mc, s.where())
					return nil, false
				}
			}
		}
		return append(snap, log...), true
	}
	a, ok := run(false)
	if !ok {
		return
	}
	b, ok := run(true)
	if !ok {
		return
	}
	c.Count("merged", 1)
	if !bytes.Equal(a, b) {
		c.Fail("%v: overwriting inputs after Append changes the merged document\n%x\n%x", mc, clip(a), clip(b))
		return
	}
	c.Distinct(hashStr(string(a)))
}

// protected pages: the input is at the end of a read-only region, an unmapped page follows.
var protMem []byte

const protSize = 1 << 20

func c17Map(c *Ctx) {
	page := syscall.Getpagesize()
	m, err := syscall.Mmap(-1, 0, protSize+page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	if err := syscall.Mprotect(m[protSize:], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	protMem = m
	debug.SetPanicOnFault(true)
}

func c17Protected(c *Ctx) {
	r := c.R
	doc := c17Doc(c)
	if len(doc) > protSize {
		return
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	debug.SetPanicOnFault(true)
	if err := syscall.Mprotect(protMem[:protSize], syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
		panic(err)
	}
	b := protMem[protSize-len(doc) : protSize : protSize]
	copy(b, doc)
	if err := syscall.Mprotect(protMem[:protSize], syscall.PROT_READ); err != nil {
		panic(err)
	}
	sereal.LooksLikeSereal(b)
	for i := 0; i < 3; i++ {
		dec := &sereal.Decoder{PerlCompat: r.Bool()}
		dec.RegisterName("Foo", &TThaw{})
		x := targetMakers[r.N(len(targetMakers))]()
		if i == 0 {
			x = new(any)
		}
		dec.UnmarshalHeaderBody(b, new(any), x)
		c.Count("decodes", 1)
	}
	var dst []byte
	if r.Bool() {
		dst = make([]byte, r.N(4000)+len(b))
	}
	sereal.DecompressDocument(dst, b)
	m := randMergeCfg(r).merger()
	m.Append(b)
	m.Append(b)
	m.Finish()
	// a value which is on the pages
	cfg := randCfg(r)
	e := cfg.enc()
	if _, err := e.Marshal([]any{b, map[string]any{"x": b}, &sereal.PerlRegexp{Pattern: b, Modifiers: b[:0]}, KeepBytes{b}}); err != nil {
		c.Fail("%v", err)
	}
	c.Count("protected_inputs", 1)
	c.Distinct(hashStr(string(doc)))
}
