package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// What a document means in Perl, scalar by scalar: every V is a scalar, an array or a hash with an identity of
// its own. KPtr and KWeak have what they refer to in A[0]; C is the class something is blessed into.

const immortal = "immortal"

type perlOptions struct {
	noBless, noThaw bool
	lifo            bool // the last frozen object of the document is thawed first, whatever it refers to
	readonly        int  // 1 everything, 2 scalars that are no references
	aliasUnder      int64
	useUndef        bool
}

type perlEval struct {
	o      perlOptions
	obj    map[*Node]*V
	g      *perlGraph
	depth  int
	inArgs bool
}

// perlGraph is what is known of the whole document.
type perlGraph struct {
	undef    *V
	yes, no  *V
	blessed  []func() bool // in the end
	frozen   []*frozenV
	twice    string
	conflict string       // why the document is not used
	late     bool         // an argument of THAW is an object that lifo thaws afterwards
	raw      map[*V]bool  // copies of such arguments
	cycles   bool         // something unreachable holds itself
	made     []*V         // every scalar, array and hash there ever was
	ints     map[int64]*V // shared integers
	shared   map[*V]bool
	root     *V
}

type frozenV struct {
	class string
	arr   *V
}

// evalPerl evaluates body or header.
func evalPerl(n *Node, o perlOptions) *perlGraph {
	g := &perlGraph{
		ints: map[int64]*V{}, shared: map[*V]bool{},
		undef: &V{K: KUndef, S: immortal}, yes: &V{K: KBool, I: 1, S: immortal}, no: &V{K: KBool, S: immortal},
	}
	e := &perlEval{o: o, obj: map[*Node]*V{}, g: g}
	g.root = g.make()
	e.fill(g.root, n)
	g.finish(o)
	return g
}

func (e *perlEval) slot(n *Node) *V {
	if n.T == tALIAS {
		v := e.obj[n.Target]
		if v == nil {
			panic("ALIAS to nothing")
		}
		e.obj[n] = v
		return v
	}
	if v := e.sharedScalar(n); v != nil {
		e.obj[n] = v
		return v
	}
	v := e.g.make()
	e.fill(v, n)
	return v
}

// sharedScalar gives the scalar that stands in arrays and hashes for all such items.
func (e *perlEval) sharedScalar(n *Node) *V {
	i := n.I
	switch n.T {
	case tUNDEF, tCUNDEF:
		if e.o.useUndef {
			return e.g.undef
		}
		return nil
	case tVARINT:
		if n.U > math.MaxInt64 {
			return nil
		}
		i = int64(n.U)
	case tPOS, tNEG, tZIGZAG:
	default:
		return nil
	}
	if e.o.aliasUnder == 0 || i < -16 || i >= e.o.aliasUnder {
		return nil
	}
	v := e.g.ints[i]
	if v == nil {
		v = e.g.make()
		*v = *vInt(i)
		v.RO = 1
		e.g.ints[i] = v
		e.g.shared[v] = true
	}
	return v
}

// readonly says for everything that was decoded whether it is read-only.
func (g *perlGraph) readonly(mode int) {
	for _, v := range g.made {
		if g.shared[v] {
			continue
		}
		switch v.K {
		case KArr, KMap, KPtr, KWeak:
			v.RO = 0
			if mode == 1 {
				v.RO = 1
			}
		case KRegexp:
			v.RO = []int8{0, 1, 2}[mode]
		default:
			v.RO = min(int8(mode), 1)
		}
	}
}

func (e *perlEval) container(v *V, n *Node) {
	if n.T == tARRAY || n.T == tAREF {
		v.K, v.A = KArr, make([]*V, 0, len(n.Kids))
		for _, k := range n.Kids {
			v.A = append(v.A, e.slot(k))
		}
		return
	}
	v.K, v.M = KMap, make(map[string]*V, len(n.Kids)/2)
	for i := 0; i+1 < len(n.Kids); i += 2 {
		k := charsOf(n.Kids[i])
		if _, ok := v.M[k]; ok {
			e.g.conflict = "duplicate key"
		}
		v.M[k] = e.slot(n.Kids[i+1])
	}
}

func (e *perlEval) fill(v *V, n *Node) {
	e.obj[n] = v
	set := func(w *V) { *v = *w }
	switch n.T {
	case tPOS, tNEG, tZIGZAG:
		set(vInt(n.I))
	case tVARINT:
		set(vUint(n.U))
	case tFLOAT:
		set(vF64(float64(math.Float32frombits(uint32(n.U)))))
	case tDOUBLE, tLDBL:
		set(&V{K: KF64, U: n.U})
	case tUNDEF, tCUNDEF:
		v.K = KUndef
	case tTRUE, tYES:
		set(vBool(true))
	case tFALSE, tNO:
		set(vBool(false))
	case tBINARY, tSHORT:
		set(vBytes(n.S))
	case tUTF8:
		set(vStr(n.S))
	case tARRAY, tHASH:
		e.container(v, n)
	case tAREF, tHREF:
		x := e.g.make()
		v.K, v.A = KPtr, []*V{x}
		e.container(x, n)
	case tREFN:
		v.K = KPtr
		k := n.Kids[0]
		if (k.T == tCUNDEF || k.T == tUNDEF && e.o.useUndef) && !k.Track && k.Pads == 0 {
			v.A = []*V{e.g.undef}
			return
		}
		if (k.T == tTRUE || k.T == tFALSE) && !k.Track {
			v.A = []*V{e.g.yes}
			if k.T == tFALSE {
				v.A[0] = e.g.no
			}
			return
		}
		x := e.g.make()
		v.A = []*V{x}
		e.fill(x, k)
	case tREFP:
		x := e.obj[n.Target]
		if x == nil {
			panic("REFP to nothing")
		}
		v.K, v.A = KPtr, []*V{x}
	case tCOPY:
		e.depth++
		if e.depth > 30 {
			panic("COPY without end")
		}
		old := e.obj
		e.obj = map[*Node]*V{}
		e.fill(v, n.Target)
		e.obj = old
		e.depth--
		e.obj[n] = v
	case tWEAKEN:
		e.fill(v, n.Kids[0])
		v.K = KWeak
	case tREGEXP:
		v.K, v.S, v.S2 = KRegexp, charsOf(n.Kids[0]), sortMods(strOf(n.Kids[1]))
	case tOBJECT, tOBJV:
		k := n.Kids[len(n.Kids)-1]
		e.fill(v, k)
		class := e.class(n)
		e.g.blessed = append(e.g.blessed, func() bool {
			if e.o.noBless || v.K == KUndef {
				return true
			}
			x := v.A[0]
			if x.S == immortal || e.g.shared[x] || v.K != KPtr && v.K != KWeak || x.C != "" && x.C != class {
				e.g.twice = fmt.Sprintf(" (%q as %q, immortal %v)", x.C, class, x.S == immortal)
				return false
			}
			x.C = class
			return true
		})
	case tOBJF, tOBJVF:
		f := &frozenV{class: e.class(n)}
		e.g.frozen = append(e.g.frozen, f)
		e.fill(v, n.Kids[len(n.Kids)-1])
		f.arr = v.A[0]
	default:
		panic(fmt.Sprintf("perl: tag %#x", n.T))
	}
}

func (e *perlEval) class(n *Node) string {
	if n.Target != nil {
		return charsOf(n.Target)
	}
	return charsOf(n.Kids[0])
}

// finish blesses and thaws, and clears weak references to what nothing else holds.
func (g *perlGraph) finish(o perlOptions) {
	g.readonly(o.readonly)
	// the dead first
	g.sweep()
	for _, f := range g.blessed {
		if !f() {
			g.conflict = "blessed twice, or what is shared" + g.twice
		}
	}
	alive := map[*V]bool{}
	for _, v := range g.made {
		alive[v] = true
	}
	waiting := map[*V]bool{}
	for _, f := range g.frozen {
		waiting[f.arr] = true
	}
	g.raw = map[*V]bool{}
	// the innermost, which come last in the document, first
	for i := len(g.frozen) - 1; i >= 0; i-- {
		f := g.frozen[i]
		if !alive[f.arr] {
			continue // thawed, and freed right after
		}
		if f.arr.C != "" {
			g.conflict = "frozen and blessed"
		}
		if o.noThaw {
			f.arr.C = "Sereal::Decoder::THAW_args"
			n := vStr(f.class)
			if l, ok := bytesOf(f.class); ok {
				n = vBytes(l)
			}
			g.made = append(g.made, n)
			f.arr.A = append(f.arr.A, n)
			continue
		}
		// THAW makes a hash of its arguments: bless { args => [@args] }, class
		args := &V{K: KArr}
		for _, a := range f.arr.A {
			b := *a
			b.C, b.RO, b.A = "", 0, append([]*V(nil), a.A...)
			if b.K == KRegexp {
				g.conflict = "a regexp as argument"
			}
			if b.S == immortal {
				b.S = ""
			}
			if b.K == KPtr && waiting[b.A[0]] {
				g.late = true
				if o.lifo {
					g.raw[&b] = true
				}
			}
			args.A = append(args.A, &b)
			g.made = append(g.made, &b)
		}
		th := &V{K: KMap, M: map[string]*V{"args": {K: KPtr, A: []*V{args}}}, C: f.class}
		g.made = append(g.made, args, th, th.M["args"])
		g.replace(f.arr, th)
		delete(waiting, f.arr)
	}
	g.sweep()
}

func (g *perlGraph) make() *V {
	v := &V{}
	g.made = append(g.made, v)
	return v
}

func (g *perlGraph) all() []*V { return g.made }

// reachable says what can be reached, through weak references too.
func (g *perlGraph) reachable() map[*V]bool {
	seen := map[*V]bool{g.root: true}
	l := []*V{g.root}
	add := func(x *V) {
		if !seen[x] {
			seen[x] = true
			l = append(l, x)
		}
	}
	for i := 0; i < len(l); i++ {
		for _, x := range l[i].A {
			add(x)
		}
		for _, x := range l[i].M {
			add(x)
		}
	}
	return seen
}

// copyRoot assigns the value to another variable.
func (g *perlGraph) copyRoot() {
	v := *g.root
	v.C, v.RO, v.A = "", 0, append([]*V(nil), v.A...)
	if v.K == KWeak {
		v.K = KPtr
	}
	if v.S == immortal {
		v.S = ""
	}
	g.root = &v
	g.made = append(g.made, &v)
	g.sweep()
}

func (g *perlGraph) replace(old, new *V) {
	for _, v := range g.all() {
		if (v.K == KPtr || v.K == KWeak) && v.A[0] == old && !g.raw[v] {
			v.A[0] = new
		}
	}
}

// sweep frees what nothing holds and turns weak references to it into undef.
func (g *perlGraph) sweep() {
	cnt := map[*V]int{g.root: 1, g.undef: 1, g.yes: 1, g.no: 1}
	for _, v := range g.ints {
		cnt[v] = 1 // by the decoder
	}
	each := func(v *V, f func(x *V)) {
		if v.K != KWeak {
			for _, x := range v.A {
				f(x)
			}
			for _, x := range v.M {
				f(x)
			}
		}
	}
	for _, v := range g.made {
		each(v, func(x *V) { cnt[x]++ })
	}
	dead := map[*V]bool{}
	var kill func(v *V)
	kill = func(v *V) {
		if dead[v] {
			return
		}
		dead[v] = true
		each(v, func(x *V) {
			if cnt[x]--; cnt[x] == 0 {
				kill(x)
			}
		})
	}
	for _, v := range g.made {
		if cnt[v] == 0 {
			kill(v)
		}
	}
	left := g.made[:0]
	for _, v := range g.made {
		if !dead[v] {
			left = append(left, v)
			if v.K == KWeak && dead[v.A[0]] {
				v.K, v.A = KUndef, nil
			}
		}
	}
	g.made = left
	seen := g.reachable()
	for _, v := range g.made {
		if !seen[v] && !g.shared[v] {
			g.cycles = true
		}
	}
}

// ---- what Perl says it has ----

type graphReader struct {
	wireReader
	byID []*V
}

// readGraph reads one value as gdump in c23.pl writes it.
func (r *graphReader) value() *V {
	switch c := r.byte(); c {
	case '#':
		return r.byID[r.n()]
	case '@':
	default:
		panic(fmt.Sprintf("bad code %q from Perl", c))
	}
	v := &V{}
	r.byID = append(r.byID, v)
	c := r.byte()
	if c == 'R' {
		v.RO = 1
		c = r.byte()
	}
	if c == 'c' {
		v.C = r.str()
	}
	switch c := r.byte(); c {
	case 'Y', 'N':
		v.K, v.S = KBool, immortal
		if c == 'Y' {
			v.I = 1
		}
	case 'O':
		v.K, v.S = KUndef, immortal
	case 'u':
		v.K = KUndef
	case 't', 'f':
		v.K = KBool
		if c == 't' {
			v.I = 1
		}
	case 'i':
		v.K, v.I = KInt, int64(r.u64())
	case 'U':
		*v = V{K: KUint, U: r.u64(), C: v.C, RO: v.RO}
	case 'd':
		v.K, v.U = KF64, r.u64()
	case 'm', 'M':
		v.K, v.S, v.S2 = KBytes, r.str(), "num"
		if c == 'M' {
			v.K = KStr
		}
	case 's':
		v.K, v.S = KBytes, r.str()
	case 'S':
		v.K, v.S = KStr, r.str()
	case 'r', 'w':
		v.K = KPtr
		if c == 'w' {
			v.K = KWeak
		}
		v.A = []*V{nil}
		v.A[0] = r.value()
	case 'X':
		v.K, v.S = KRegexp, r.str()
		v.S2 = sortMods(r.str())
	case '?':
		v.K, v.S = KUnknown, r.str()
	case 'A':
		v.K = KArr
		for n := r.n(); n > 0; n-- {
			v.A = append(v.A, r.value())
		}
	case 'H':
		v.K, v.M = KMap, map[string]*V{}
		for n := r.n(); n > 0; n-- {
			k := r.str()
			v.M[k] = r.value()
		}
	default:
		panic(fmt.Sprintf("bad kind %q from Perl", c))
	}
	return v
}

// graphDiff compares scalar by scalar; what is the same here must be the same there.
type graphDiff struct {
	ro     bool       // look at what is read-only
	strong map[*V]int // how many of the references to what only weak ones refer to are strong on the right
}

func diffGraph(a, b *V) string { return (&graphDiff{}).diff(a, b) }

// isNumeral says whether Perl writes the number as s.
func isNumeral(s string, n *V) bool {
	switch n.K {
	case KInt:
		return s == strconv.FormatInt(n.I, 10)
	case KUint:
		return s == strconv.FormatUint(n.U, 10)
	case KF64:
		f := math.Float64frombits(n.U)
		if g, err := strconv.ParseFloat(s, 64); err != nil || g != f {
			return false
		}
		w := strconv.FormatFloat(f, 'g', 15, 64)
		m, _, _ := strings.Cut(w, "e")
		x, _, _ := strings.Cut(s, "e")
		if strings.Contains(m, ".") {
			m = strings.TrimRight(strings.TrimRight(m, "0"), ".")
		}
		return m == x
	}
	return false
}

func (gd *graphDiff) diff(a, b *V) string {
	ab, ba := map[*V]*V{}, map[*V]*V{}
	var rec func(a, b *V, path string) string
	rec = func(a, b *V, path string) string {
		if len(path) > 300 {
			path = "..." + path[len(path)-200:]
		}
		bad := func(f string, x ...any) string { return path + ": " + fmt.Sprintf(f, x...) }
		// nor does it matter that weak references to them vanish when they are not
		if w, o := a, b; w.K == KWeak || b.K == KWeak {
			if b.K == KWeak {
				w, o = b, a
			}
			if o.K == KUndef && w.A[0].S == immortal {
				return ""
			}
		}
		// true, false and undef may be shared or not, unless a reference to the canonical undef is meant
		if a.S == immortal || b.S == immortal {
			if a.K != b.K || a.I != b.I || a.C != b.C || a.K == KUndef && a.S == immortal && b.S != immortal {
				return bad("%s vs %s", short(a), short(b))
			}
			if a.S == immortal || a.K == KUndef || a.K == KBool {
				return ""
			}
		}
		x, ok := ab[a]
		y, ok2 := ba[b]
		if ok && x != b {
			return bad("the same as an earlier %s on the left only", short(a))
		}
		if ok2 && y != a {
			return bad("the same as an earlier %s on the right only", short(b))
		}
		if ok {
			return ""
		}
		ab[a], ba[b] = b, a
		if gd.ro && a.RO != 2 && a.RO != b.RO {
			return bad("%s read-only %d vs %d", short(a), a.RO, b.RO)
		}
		if a.C != b.C {
			return bad("class %q vs %q", a.C, b.C)
		}
		ka, kb, sa, sb := a.K, b.K, a.S, b.S
		if (ka == KStr || ka == KBytes) && (kb == KStr || kb == KBytes) && isASCII(sa) {
			ka, kb = KStr, KStr
		}
		if ka == KWeak && a.S == "either" && (kb == KPtr || kb == KWeak) {
			n := 0
			if kb == KPtr {
				n = 1
			}
			t := a.A[0]
			if t.From != nil {
				t = t.From
			}
			gd.strong[t] += n
			kb = ka
		}
		if (ka == KStr || ka == KBytes) && a.S2 == "num" && isNumeral(sa, b) {
			return ""
		}
		if a.S2 == "unknown" && (kb == KStr || kb == KBytes) {
			if t := addrOf.ReplaceAllString(sb, ""); t == sa && t != sb || sa == "*main::" && strings.HasPrefix(sb, sa) {
				return ""
			}
		}
		if ka != kb {
			return bad("%s vs %s", short(a), short(b))
		}
		switch ka {
		case KUndef:
		case KBool, KInt:
			if a.I != b.I {
				return bad("%s vs %s", short(a), short(b))
			}
		case KUint:
			if a.U != b.U {
				return bad("%s vs %s", short(a), short(b))
			}
		case KF64:
			if f, g := math.Float64frombits(a.U), math.Float64frombits(b.U); a.U != b.U && !(f != f && g != g) {
				return bad("%s vs %s", short(a), short(b))
			}
		case KStr, KBytes, KRegexp:
			if sa != sb || ka == KRegexp && a.S2 != b.S2 {
				return bad("%s vs %s", short(a), short(b))
			}
		case KPtr, KWeak:
			return rec(a.A[0], b.A[0], path+".*")
		case KArr:
			if len(a.A) != len(b.A) {
				return bad("%d vs %d elements", len(a.A), len(b.A))
			}
			for i := range a.A {
				if d := rec(a.A[i], b.A[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
					return d
				}
			}
		case KMap:
			if len(a.M) != len(b.M) {
				return bad("%d vs %d keys", len(a.M), len(b.M))
			}
			for _, k := range sortedKeys(a.M) {
				y, ok := b.M[k]
				if !ok {
					return bad("key %.60q is missing on the right", k)
				}
				if d := rec(a.M[k], y, fmt.Sprintf("%s{%.20q}", path, k)); d != "" {
					return d
				}
			}
		default:
			return bad("kind %s", kindNames[ka])
		}
		return ""
	}
	d := rec(a, b, "$")
	if d == "" {
		for v, n := range gd.strong {
			if n != 1 && v.S != immortal {
				return fmt.Sprintf("%d of the references to %s are strong", n, short(v))
			}
		}
	}
	return d
}

// bytesOf gives the characters of a string as bytes, if that is possible.
func bytesOf(s string) (string, bool) {
	b := make([]byte, 0, len(s))
	for _, c := range s {
		if c > 255 {
			return "", false
		}
		b = append(b, byte(c))
	}
	return string(b), true
}
