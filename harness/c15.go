package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Sereal/Sereal/Go/sereal"
)

func init() {
	register(&Check{
		ID:     "C15",
		Rule:   "A case is a set of shared values and documents and 2 to 16 goroutines that start together; each makes 4 to 30 calls (package functions on the shared inputs, own Encoders, Decoders and Mergers with all compressions), with yields and pauses injected in between; the race detector watches, and every result is compared with that of the same call made alone before; distinct by the order in which calls begin and end (an interleaving); non-trivial: at least two calls overlap.",
		Assume: []string{"one Encoder, Decoder or Merger is not shared between goroutines"},
		Phases: []Phase{
			{Name: "race", Flavor: "race", Quick: 1500, Thor: 60000, Run: c15Case},
			{Name: "race-first", Flavor: "race", Quick: 160, Thor: 1600, Shards: 160, Run: c15Case},
			{Name: "stress", Quick: 6000, Thor: 300000, Run: c15Case, Env: []string{"GOMAXPROCS=8"}},
		},
	})
}

type cRec struct {
	ID   int            `sereal:"id"`
	Name string         `sereal:"name"`
	Kids []*cRec        `sereal:"kids"`
	M    map[string]any `sereal:"m"`
	T    time.Time
	P    *cRec
}

// conJob is one call with what it gives alone.
type conJob struct {
	name string
	run  func() any
	same func(want, got any) string
	want any
}

type conDoc struct {
	b   []byte
	err error
}

func sameDocRes(want, got any) string {
	a, b := want.(conDoc), got.(conDoc)
	if fmt.Sprint(a.err) != fmt.Sprint(b.err) {
		return fmt.Sprintf("error %v instead of %v", b.err, a.err)
	}
	if a.err != nil {
		return ""
	}
	return sameDocs(a.b, b.b)
}

func sameBytesRes(want, got any) string {
	a, b := want.(conDoc), got.(conDoc)
	if fmt.Sprint(a.err) != fmt.Sprint(b.err) {
		return fmt.Sprintf("error %v instead of %v", b.err, a.err)
	}
	if !bytes.Equal(a.b, b.b) {
		return fmt.Sprintf("%x instead of %x", clip(b.b), clip(a.b))
	}
	return ""
}

type conVal struct {
	v   *V
	err error
}

func valOf(x any, err error) any {
	if err != nil {
		return conVal{nil, err}
	}
	return conVal{fromGo(x), nil}
}

func sameValRes(want, got any) string {
	a, b := want.(conVal), got.(conVal)
	if fmt.Sprint(a.err) != fmt.Sprint(b.err) {
		return fmt.Sprintf("error %v instead of %v", b.err, a.err)
	}
	if a.err != nil {
		return ""
	}
	return diffV(a.v, b.v, eqOpt{Share: true, PtrShare: true})
}

func conRec(r *Rng, depth int) *cRec {
	c := &cRec{ID: r.N(100), Name: randText(r, r.Len(60)), M: map[string]any{"a": 1, "name": randText(r, 5)}, T: time.Unix(int64(r.N(1<<30)), 5).UTC()}
	if depth < 3 {
		for i := r.N(3); i > 0; i-- {
			c.Kids = append(c.Kids, conRec(r, depth+1))
		}
	}
	if len(c.Kids) > 0 {
		c.P = c.Kids[0]
	}
	return c
}

func c15Case(c *Ctx) {
	r := c.R
	var vals []any
	var docs [][]byte
	for i := r.In(1, 4); i > 0; i-- {
		g := newValGen(r)
		g.share = r.Bool()
		g.perlTypes = r.P(3)
		g.budget = r.In(2, 60)
		g.maxStr = min(g.maxStr, 2000)
		vals = append(vals, g.val(0))
	}
	vals = append(vals, conRec(r, 0), localItem(r), []any{localItem(r), localItem(r), "x"})
	for i := r.In(1, 4); i > 0; i-- {
		d, _ := genDoc(r, r.In(1, 4), func(g *docGen) {
			g.budget = min(g.budget, 80)
			g.maxStr = min(g.maxStr, 2000)
		})
		d.Type = docTypeFor(r, d.Version)
		docs = append(docs, d.bytes(r))
	}
	for i := r.In(1, 4); i > 0; i-- {
		if b, err := randCfg(r).enc().Marshal(vals[r.N(len(vals))]); err == nil {
			docs = append(docs, b)
		}
	}
	docs = append(docs, hostile(c))
	recDoc, err := sereal.Marshal(vals[len(vals)-3])
	if err != nil {
		c.Fail("%v", err)
		return
	}
	var mcs []mergeCfg
	for i := 0; i < 3; i++ {
		mcs = append(mcs, randMergeCfg(r))
	}
	mkJob := func() *conJob {
		x, b := vals[r.N(len(vals))], docs[r.N(len(docs))]
		switch r.N(12) {
		case 0, 1:
			return &conJob{name: "Marshal", run: func() any { b, err := sereal.Marshal(x); return conDoc{b, err} }, same: sameDocRes}
		case 2, 3:
			return &conJob{name: "Unmarshal", run: func() any {
				var y any
				err := sereal.Unmarshal(b, &y)
				return valOf(y, err)
			}, same: sameValRes}
		case 4:
			return &conJob{name: "Unmarshal typed", run: func() any {
				var y cRec
				err := sereal.Unmarshal(recDoc, &y)
				return valOf(&y, err)
			}, same: sameValRes}
		case 5:
			return &conJob{name: "LooksLikeSereal", run: func() any { return conDoc{[]byte(fmt.Sprint(sereal.LooksLikeSereal(b))), nil} }, same: sameBytesRes}
		case 6, 7:
			return &conJob{name: "DecompressDocument", run: func() any {
				out, err := sereal.DecompressDocument(nil, b)
				return conDoc{append([]byte{}, out...), err}
			}, same: sameBytesRes}
		case 8, 9:
			cfg := randCfg(r)
			if cfg.Version == 3 && r.Bool() {
				cfg.Comp, cfg.Level, cfg.Threshold = 3, r.In(-1, 9), 0
			}
			var hd any
			if r.P(3) {
				hd = vals[r.N(len(vals))]
			}
			same := sameDocRes
			return &conJob{name: "Encoder", run: func() any {
				e := cfg.enc()
				e.Marshal(x)
				b, err := e.MarshalWithHeader(hd, x)
				return conDoc{b, err}
			}, same: same}
		case 10:
			perl := r.Bool()
			mk := targetMakers[r.N(len(targetMakers))]
			return &conJob{name: "Decoder", run: func() any {
				d := &sereal.Decoder{PerlCompat: perl}
				d.RegisterName("Foo", &TThaw{})
				d.RegisterName("time.Time", &time.Time{})
				x, h := mk(), new(any)
				err := d.UnmarshalHeaderBody(b, h, x)
				return valOf([]any{x, *h}, err)
			}, same: sameValRes}
		}
		mc := mcs[r.N(len(mcs))]
		var in [][]byte
		for i := r.In(1, 4); i > 0; i-- {
			in = append(in, docs[r.N(len(docs))])
		}
		return &conJob{name: "Merger", run: func() any {
			m := mc.merger()
			var log []byte
			for _, b := range in {
				n, err := m.Append(b)
				log = append(log, fmt.Sprint(n, err, ";")...)
			}
			out, err := m.Finish()
			return conDoc{append(append([]byte{}, out...), log...), err}
		}, same: sameBytesRes}
	}
	jobs := make([]*conJob, r.In(4, 16))
	for i := range jobs {
		jobs[i] = mkJob()
	}
	alone := func() {
		for _, j := range jobs {
			j.want = j.run()
		}
	}
	// in the first case of a worker the package is used by all goroutines at once from the start
	late := c.Phase == "race-first" || r.P(4)
	if !late {
		alone()
	}
	ng := r.In(2, 16)
	if c.Phase == "race-first" {
		ng = 8
	}
	type res struct {
		j   *conJob
		got any
	}
	results := make([][]res, ng)
	panics := make([]string, ng)
	order := make([]uint32, 4096)
	var seq atomic.Int32
	note := func(x uint32) {
		if i := seq.Add(1) - 1; int(i) < len(order) {
			atomic.StoreUint32(&order[i], x)
		}
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < ng; g++ {
		gr := newRng(r.U64())
		n := r.In(4, 30)
		if c.Phase == "stress" {
			n = r.In(4, 12)
		}
		// plan is made of the jobs only: what is shared is only read
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					panics[g] = fmt.Sprint(x)
				}
			}()
			<-start
			for i := 0; i < n; i++ {
				j := gr.N(len(jobs))
				switch gr.N(6) {
				case 0:
					runtime.Gosched()
				case 1:
					if gr.P(30) {
						runtime.GC() // empties the pools
					} else if gr.P(4) {
						time.Sleep(time.Duration(gr.N(50)) * time.Microsecond)
					}
				}
				note(uint32(g)<<16 | uint32(j)<<1)
				got := jobs[j].run()
				note(uint32(g)<<16 | uint32(j)<<1 | 1)
				results[g] = append(results[g], res{jobs[j], got})
			}
		}(g)
	}
	close(start)
	wg.Wait()
	if late {
		alone()
	}
	for g := range results {
		if panics[g] != "" {
			c.Fail("panic in goroutine %d: %s", g, panics[g])
			return
		}
		for _, x := range results[g] {
			c.Count("calls "+x.j.name, 1)
			if df := x.j.same(x.j.want, x.got); df != "" {
				c.Fail("%s of %d goroutines gives something else than alone: %s", x.j.name, ng, df)
				return
			}
		}
	}
	// overlapping calls
	n := min(int(seq.Load()), len(order))
	active, overlap, h := 0, 0, uint64(0)
	for _, x := range order[:n] {
		if x&1 == 0 {
			if active > 0 {
				overlap++
			}
			active++
		} else {
			active--
		}
		h = mix(h ^ uint64(x))
	}
	c.Count("overlapping_calls", int64(overlap))
	if overlap > 0 {
		c.Distinct(h)
	}
}
