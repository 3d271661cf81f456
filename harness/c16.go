package main

import (
	"errors"
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"
)

func init() {
	register(&Check{
		ID:     "C16",
		Rule:   "A case is a random value (untyped, of a random type, or a chain of up to 60000 levels of all kinds of containers) whose nesting depth an independent walk computes, encoded with limits around and far from that depth, as body, as header or as both with different depths; the call must fail with ErrMaxRecursionLimit exactly if the depth reaches the limit, and otherwise give the document that an encoder without limit gives; or a cyclic value that cannot be represented, which must fail that way for every limit; distinct by document, configuration and limit; non-trivial: depth of at least 2 and a limit within 1 of it.",
		Assume: []string{"byte slices ([]byte) are leaves; other slices, empty and nil containers and nil pointers count as a level", "values without sharing: what is shared is encoded at one of its places only", "Perl* values and frozen values are left out"},
		Phases: []Phase{
			{Name: "values", Quick: 100000, Thor: 2000000, Run: c16Values},
			{Name: "chains", Quick: 3000, Thor: 60000, Run: c16Chains},
			{Name: "cyclic", Quick: 4000, Thor: 80000, Run: c16Cyclic},
		},
	})
}

// depthOf returns the nesting depth of v; ok is false if something is shared.
func depthOf(v reflect.Value) (depth int, ok bool) {
	ok = true
	seen := map[memoKey]bool{}
	mark := func(k memoKey) {
		if seen[k] {
			ok = false
		}
		seen[k] = true
	}
	var rec func(v reflect.Value) int
	kids := func(n int, at func(i int) reflect.Value) int {
		d := 0
		for i := 0; i < n; i++ {
			d = max(d, rec(at(i)))
		}
		return d + 1
	}
	rec = func(v reflect.Value) int {
		if !v.IsValid() {
			return 0
		}
		switch v.Kind() {
		case reflect.Interface:
			return rec(v.Elem())
		case reflect.Slice:
			if v.Type() == tBytes {
				return 0
			}
			return kids(v.Len(), v.Index)
		case reflect.Array:
			return kids(v.Len(), v.Index)
		case reflect.Map:
			ks := v.MapKeys()
			return kids(len(ks), func(i int) reflect.Value { return v.MapIndex(ks[i]) })
		case reflect.Struct:
			t := v.Type()
			d := 0
			for i := 0; i < t.NumField(); i++ {
				tag := t.Field(i).Tag.Get("sereal")
				if tag == "-" || t.Field(i).PkgPath != "" {
					continue
				}
				d = max(d, rec(v.Field(i)))
			}
			return d + 1
		case reflect.Ptr:
			if v.IsNil() {
				return 1
			}
			if v.Type().Elem().Size() == 0 {
				mark(memoKey{v.Type(), 0, 0})
			} else {
				mark(memoKey{v.Type(), v.Pointer(), 0})
			}
			// pointers to the same data may be taken for the same
			e := v.Elem()
			for e.Kind() == reflect.Interface {
				e = e.Elem()
			}
			switch e.Kind() {
			case reflect.Map, reflect.Ptr:
				mark(memoKey{e.Type(), e.Pointer(), -1})
			case reflect.Slice:
				if e.Cap() > 0 {
					mark(memoKey{e.Type(), e.Pointer(), -1 - e.Len()})
				}
			}
			if !ok {
				return 1
			}
			return rec(v.Elem()) + 1
		}
		return 0
	}
	depth = rec(v)
	return depth, ok
}

func c16Value(r *Rng) any {
	switch r.N(3) {
	case 0:
		g := &typeGen{r: r}
		t := g.typ(0)
		v := reflect.New(t).Elem()
		vg := newValGen(r)
		vg.maxStr = 40
		vg.noNaN = true
		fillValue(vg, v, 0)
		return v.Interface()
	case 1:
		x, _ := chain(r, r.N(12))
		return x
	}
	g := newValGen(r)
	g.maxStr = 100
	g.noNaN = true
	return g.val(0)
}

// limits picks a limit and says whether it is close to the depth.
func limits(r *Rng, d int) (int, bool) {
	switch r.N(6) {
	case 0, 1:
		return max(d, 1), true
	case 2, 3:
		return d + 1, true
	case 4:
		return max(1, d-1), true
	}
	return r.In(1, 2*d+2), false
}

func c16Check(c *Ctx, cfg encCfg, hd, x any, hdepth, depth int) {
	r := c.R
	free := cfg
	free.MaxDepth = 0
	want, err := free.enc().MarshalWithHeader(hd, x)
	if err != nil {
		c.Fail("%v: without limit: %v", free, err)
		return
	}
	d := depth
	if hd != nil && cfg.Version >= 2 {
		d = max(depth, hdepth)
	}
	for i := 0; i < 3; i++ {
		near := false
		cfg.MaxDepth, near = limits(r, d)
		if near && d >= 2 {
			c.Distinct(mix(hashStr(cfg.String())) ^ hashStr(string(want)))
		}
		e := cfg.enc()
		if r.P(3) { // what was encoded before does not count
			e.MarshalWithHeader(x, x)
		}
		b, err := e.MarshalWithHeader(hd, x)
		c.Count("encodes", 1)
		if d >= cfg.MaxDepth {
			c.Count("beyond_limit", 1)
			if err == nil {
				c.Fail("%v: depth %d (header %d) is accepted: %s", cfg, depth, hdepth, dumpV(expected(x)))
				return
			}
			if !errors.Is(err, sereal.ErrMaxRecursionLimit) {
				c.Fail("%v: depth %d (header %d): error %v", cfg, depth, hdepth, err)
				return
			}
			if b != nil {
				c.Fail("%v: a document together with an error", cfg)
			}
			continue
		}
		c.Count("within_limit", 1)
		if err != nil {
			c.Fail("%v: depth %d (header %d): %v: %s", cfg, depth, hdepth, err, dumpV(expected(x)))
			return
		}
		if depth < 6000 {
			if df := sameDocs(want, b); df != "" {
				c.Fail("%v: not the same as without limit: %s", cfg, df)
				return
			}
		}
	}
}

func c16Values(c *Ctx) {
	r := c.R
	x := c16Value(r)
	d, ok := depthOf(reflect.ValueOf(x))
	if !ok {
		c.Count("skipped_shared", 1)
		return
	}
	cfg := randCfg(r)
	var hd any
	hdepth := 0
	if r.P(3) {
		hd = c16Value(r)
		if hdepth, ok = depthOf(reflect.ValueOf(hd)); !ok {
			hd = nil
		}
	}
	c.Count("max_depth_"+bucket(d), 1)
	if c.Idx%20000 == 7 {
		c.Sample("%v depth %d: %s", cfg, d, dumpV(expected(x)))
	}
	c16Check(c, cfg, hd, x, hdepth, d)
}

func bucket(n int) string {
	switch {
	case n < 2:
		return "0-1"
	case n < 5:
		return "2-4"
	case n < 10:
		return "5-9"
	case n < 100:
		return "10-99"
	}
	return "100+"
}

type cStruct struct {
	X any
	Y int
}
type cTyped struct {
	L []cTyped
	P *cTyped
	M map[string]cTyped
	A [1]any
}

// chain nests n levels.
func chain(r *Rng, n int) (any, int) {
	var x any = pick[any](r, nil, 5, "leaf", []byte("leaf"), 1.5, true)
	d := 0
	typed := r.P(4)
	var t cTyped
	if typed {
		// the first levels are typed
		d = 2 // struct and array
		for i := r.N(n + 1); i > 0 && d < n; i-- {
			k := cTyped{}
			switch r.N(3) {
			case 0:
				k.L = []cTyped{t}
				d += 2
			case 1:
				p := t
				k.P = &p
				d += 2
			case 2:
				k.M = map[string]cTyped{"a": t}
				d += 2
			}
			t = k
		}
		x = t
	}
	for d < n {
		switch r.N(9) {
		case 0:
			x = []any{1, x}
			d++
		case 1:
			x = map[string]any{"k": x}
			d++
		case 2:
			x = map[NStr]any{"k": x}
			d++
		case 3:
			x = [2]any{x, "r"}
			d++
		case 4:
			x = cStruct{X: x}
			d++
		case 5:
			y := x
			x = &y
			d++
		case 6:
			x = &cStruct{X: x}
			d += 2
		case 7:
			x = NAny{x}
			d++
		case 8:
			x = &[]any{x}
			d += 2
		}
	}
	return x, d
}

func c16Chains(c *Ctx) {
	r := c.R
	n := pick(r, r.In(10, 100), r.In(100, 1000), r.In(1000, 5000))
	if c.Idx%50 == 0 {
		n = r.In(5000, 60000)
	}
	x, _ := chain(r, n)
	d, ok := depthOf(reflect.ValueOf(x))
	if !ok {
		c.Count("skipped_shared", 1)
		return
	}
	cfg := randCfg(r)
	cfg.Comp = 0
	var hd any
	hdepth := 0
	if r.P(3) {
		hd, hdepth = x, d
		x, _ = chain(r, r.In(1, n))
		if d, ok = depthOf(reflect.ValueOf(x)); !ok {
			return
		}
		// nothing is shared between header and body
	}
	c.Count("max_depth_"+bucket(d), 1)
	c16Check(c, cfg, hd, x, hdepth, d)
}

// c16Cyclic: cycles of slices and maps, which have no representation.
func c16Cyclic(c *Ctx) {
	r := c.R
	type cell struct {
		set func(any)
		x   any
	}
	mk := func() cell {
		switch r.N(6) {
		case 0:
			s := make([]any, r.In(1, 3))
			i := r.N(len(s))
			return cell{func(x any) { s[i] = x }, s}
		case 1:
			m := map[string]any{"x": 1}
			return cell{func(x any) { m["self"] = x }, m}
		case 2:
			m := NMap{}
			return cell{func(x any) { m["self"] = x }, m}
		case 3:
			s := make(NAny, 1)
			return cell{func(x any) { s[0] = x }, s}
		case 4:
			m := map[NStr]any{}
			return cell{func(x any) { m["self"] = x }, m}
		}
		s := make([]cStruct, 2)
		return cell{func(x any) { s[1].X = x }, s}
	}
	n := r.In(1, 6)
	cells := make([]cell, n)
	for i := range cells {
		cells[i] = mk()
	}
	for i := range cells {
		cells[i].set(cells[(i+1)%n].x)
	}
	x := cells[0].x
	for i := r.N(4); i > 0; i-- {
		x = pick[any](r, []any{x}, map[string]any{"in": x}, cStruct{X: x}, [1]any{x})
	}
	cfg := randCfg(r)
	for i := 0; i < 3; i++ {
		cfg.MaxDepth = pick(r, 1, 2, 3, r.In(1, 50), r.In(50, 2000), 10000)
		if r.P(100) {
			cfg.MaxDepth = 200000
		}
		e := cfg.enc()
		var err error
		if cfg.Version > 1 && r.P(3) {
			_, err = e.MarshalWithHeader(x, 1)
		} else {
			_, err = e.Marshal(x)
		}
		if !errors.Is(err, sereal.ErrMaxRecursionLimit) {
			c.Fail("%v: a cyclic value gives the error %v", cfg, err)
			return
		}
		// the encoder is still good
		e.MaxRecursionDepth = 3
		if b, err := e.Marshal([]any{1, "x"}); err != nil || len(b) < 6 {
			c.Fail("%v: after a cyclic value: %v", cfg, err)
			return
		}
		c.Count("cyclic", 1)
		c.Distinct(mix(uint64(c.Idx)<<20 ^ uint64(cfg.MaxDepth)))
	}
}
