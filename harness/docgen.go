package main

import (
	"fmt"
	"math"
	"strings"
	"unicode/utf8"
)

// docGen generates well-formed documents as trees of Nodes, in document order.
type docGen struct {
	r             *Rng
	version       int
	perlReal      bool // documents as the Perl decoder must take them: perlish, with more forms and without what Perl has no place for
	inArgs        int  // within the arguments of a frozen object
	perlish       bool // arrays and hashes only behind references, as in Perl
	refs          bool // REFP, ALIAS, COPY, WEAKEN, OBJECT, ...
	noAlias       bool
	noScalarShare bool
	freeze        bool
	java          bool // only tags that the Java code knows
	javaFlags     int  // with these options less 1 of the Java decoder
	freezeOnly    bool // all objects are frozen ones
	plainForms    bool // no PADs, wide varints or spurious track bits
	asciiKeys     bool
	noNaN         bool
	budget        int
	maxStr        int

	done    []*Node // finished items in value position
	strs    []*Node // strings so far, in any position
	classes []*Node // class names of OBJECT and OBJECT_FREEZE
	stack   []*Node
	frozens []*Node // arrays of frozen objects
	copied  map[*Node]bool
	counts  map[string]int64
	depth   int
	refp    int
}

func newDocGen(r *Rng, version int) *docGen {
	g := &docGen{r: r, version: version, refs: true, freeze: version >= 3, copied: map[*Node]bool{}, counts: map[string]int64{}}
	switch r.N(10) {
	case 0:
		g.budget = r.In(1, 4)
	case 1:
		g.budget = r.In(100, 600)
	default:
		g.budget = r.In(3, 60)
	}
	g.maxStr = 300
	if r.P(12) {
		g.maxStr = 70000
	}
	return g
}

func (g *docGen) form(n *Node) *Node {
	if g.plainForms {
		return n
	}
	if g.r.P(14) {
		n.Pads = g.r.In(1, 3)
		n.PadTrk = g.r.P(3)
	}
	if g.r.P(14) {
		n.Wide = g.r.In(1, 9)
	}
	return n
}

func (g *docGen) spurious(n *Node) *Node {
	if !g.plainForms && g.r.P(20) {
		n.Track = true
	}
	return n
}

// randStr returns the content of a string.
func (g *docGen) randStr(max int) string {
	r := g.r
	n := r.Len(max)
	if n > 0 && r.P(3) && len(g.strs) > 0 {
		// a near miss of an earlier one
		s := g.strs[r.N(len(g.strs))].S
		if len(s) > 0 && len(s) < 1000 {
			return nearMiss(r, s)
		}
	}
	return randText(r, n)
}

// nearMiss makes a string that has nearly everything in common with s, or is s.
func nearMiss(r *Rng, s string) string {
	b := []byte(s)
	switch n := len(b); {
	case n == 0:
		return "a"
	case n > 100000:
		return s
	default:
		switch r.N(8) {
		case 0:
			b[r.N(n)] ^= 1
		case 1:
			b[n-1] ^= 2
		case 2:
			b[0] ^= 0x20
		case 3:
			b = b[:n-1]
		case 4:
			b = append(b, "x"...)
		case 5:
			b = append(append([]byte{'x'}, b...), b[n-1])
		case 6:
			b[r.N(n)], b[n-1] = b[n-1], b[r.N(n)]
		}
	}
	return string(b)
}

// randText returns n bytes, often valid UTF-8, rarely anything.
func randText(r *Rng, n int) string {
	switch r.N(5) {
	case 0:
		return string(r.Bytes(n))
	case 1:
		var b []byte
		for len(b) < n {
			c := string(rune(pick(r, 0x20+r.N(90), 0xe0+r.N(30), 0x400+r.N(100), 0x1f600+r.N(20))))
			if len(b)+len(c) > n {
				b = append(b, 'x')
				continue
			}
			b = append(b, c...)
		}
		return string(b)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFG0123456789_-: "[r.N(47)]
	}
	return string(b)
}

func (g *docGen) strNode(s string) *Node {
	r := g.r
	n := &Node{S: s}
	switch {
	case r.P(2) && (!g.perlReal || utf8.ValidString(s)):
		n.T = tUTF8
	case len(s) < 32 && !r.P(4):
		n.T = tSHORT
	default:
		n.T = tBINARY
	}
	return g.form(n)
}

// str makes a string for a position where only a string may stand.
func (g *docGen) str(s string) *Node {
	n := g.strNode(s)
	n.IsStr = true
	if !g.plainForms && g.r.P(30) {
		n.Track = true
	}
	g.strs = append(g.strs, n)
	return n
}

// copyStr makes a COPY of an earlier string, or nil.
func (g *docGen) copyStr(ok func(s string) bool) *Node {
	for i := 0; i < 4 && len(g.strs) > 0; i++ {
		t := g.strs[g.r.N(len(g.strs))]
		if ok(t.S) {
			g.counts["copy_str"]++
			return g.form(&Node{T: tCOPY, Target: t, IsStr: true})
		}
	}
	return nil
}

func (g *docGen) key(used map[string]bool) *Node {
	var n *Node
	if g.refs && g.r.P(3) {
		n = g.copyStr(func(s string) bool { return !used[s] && (!g.asciiKeys || isASCII(s)) })
	}
	if n == nil {
		s := g.randStr(g.maxStr / 4)
		if g.r.P(2) {
			s = pick(g.r, "id", "name", "a", "b", "key", "value", "Foo", "")
		}
		for used[s] || (g.asciiKeys && !isASCII(s)) {
			s = fmt.Sprintf("k%d", g.r.N(100000))
		}
		n = g.str(s)
	}
	if g.perlReal {
		for used["chars:"+charsOf(n)] {
			if n.T != tCOPY {
				g.strs = g.strs[:len(g.strs)-1]
			}
			n = g.str(fmt.Sprintf("k%d", g.r.N(100000)))
		}
		used["chars:"+charsOf(n)] = true
	}
	used[strOf(n)] = true
	return n
}

// charsOf is the string of characters that an item stands for, in UTF-8.
func charsOf(n *Node) string {
	for n.T == tCOPY {
		n = n.Target
	}
	if n.T == tUTF8 {
		return n.S
	}
	return latin1(n.S)
}

func latin1(s string) string {
	if isASCII(s) {
		return s
	}
	var b []rune
	for i := 0; i < len(s); i++ {
		b = append(b, rune(s[i]))
	}
	return string(b)
}

// classOK leaves out the names that Perl takes apart.
func (g *docGen) classOK(s string) bool {
	return s != "" && (!g.asciiKeys || isASCII(s)) && (!g.perlReal || !strings.ContainsAny(s, ":'\x00") && s[0] != '*' && len(s) < 200)
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func (g *docGen) class() *Node {
	if g.r.P(4) {
		if n := g.copyStr(g.classOK); n != nil {
			return n
		}
	}
	s := pick(g.r, "Foo", "Foo::Bar", "My::Class", "X", "Foo::Bar::Baz::Quux::Long::Class::Name::Indeed")
	if g.r.P(4) {
		s = "C" + g.randStr(40)
		if !g.classOK(s) {
			s = "Other"
		}
	}
	n := g.str(s)
	g.classes = append(g.classes, n)
	return n
}

func (g *docGen) intNode() *Node {
	r := g.r
	if r.P(12) {
		return g.form(&Node{T: tVARINT, U: 1<<63 + r.U64()>>uint(r.In(1, 63))})
	}
	return g.intOf(r.Int64())
}

// intOf writes i in one of its forms.
func (g *docGen) intOf(i int64) *Node {
	r := g.r
	n := &Node{I: i, U: uint64(i)}
	switch {
	case i >= 0 && i <= 15 && !r.P(4):
		n.T = tPOS
	case i >= -16 && i < 0 && !r.P(4):
		n.T = tNEG
	case i >= 0 && !r.P(4):
		n.T = tVARINT
	default:
		n.T = tZIGZAG
	}
	return g.form(n)
}

func (g *docGen) scalar() *Node {
	r := g.r
	var n *Node
	switch r.N(12) {
	case 0, 1, 2:
		n = g.intNode()
	case 3:
		f := r.Float32()
		n = g.form(&Node{T: tFLOAT, U: f32bits(f)})
	case 4:
		f := r.Float64()
		if g.noNaN && f != f {
			f = 1.5
		}
		n = g.form(&Node{T: tDOUBLE, U: math.Float64bits(f)})
	case 5:
		n = g.form(&Node{T: pick(r, byte(tTRUE), byte(tFALSE))})
		if g.perlReal && !g.java {
			switch r.N(4) {
			case 0:
				n.T = pick(r, byte(tYES), byte(tNO))
			case 1:
				f := r.Float64()
				if f != f {
					f = -0.5
				}
				n.T, n.U = tLDBL, math.Float64bits(f)
			}
		}
	case 6:
		t := byte(tUNDEF)
		if g.version >= 3 && r.P(2) {
			t = tCUNDEF
		}
		n = g.form(&Node{T: t})
	default:
		n = g.strNode(g.randStr(g.maxStr))
		g.strs = append(g.strs, n)
	}
	return g.spurious(n)
}

func (g *docGen) push(n *Node) { n.open = true; g.stack = append(g.stack, n) }
func (g *docGen) pop(n *Node) {
	n.open = false
	g.stack = g.stack[:len(g.stack)-1]
}

// container fills an array or a hash.
func (g *docGen) container(bare bool) *Node {
	r := g.r
	n := &Node{}
	hash := r.P(2)
	cnt := r.Len(40)
	if r.P(40) {
		cnt = r.Len(300)
	}
	if cnt > g.budget {
		cnt = r.N(g.budget + 1)
	}
	ref := !bare
	if ref && cnt > 15 {
		cnt = r.N(16)
	}
	switch {
	case hash && ref:
		n.T = tHREF
	case hash:
		n.T = tHASH
	case ref:
		n.T = tAREF
	default:
		n.T = tARRAY
	}
	g.form(n)
	g.spurious(n)
	g.push(n)
	used := map[string]bool{}
	for i := 0; i < cnt; i++ {
		if hash {
			n.Kids = append(n.Kids, g.key(used))
		}
		n.Kids = append(n.Kids, g.item())
	}
	g.pop(n)
	return n
}

// copyable says whether a COPY may refer to n.
func copyable(n *Node, size *int) bool {
	*size++
	if *size > 40 || n.open || n.Track && !isScalar(n.T) {
		return false
	}
	switch n.T {
	case tREFP, tALIAS, tWEAKEN:
		return false
	case tCOPY:
		return n.IsStr
	case tREGEXP:
		if n.Kids[0].T == tCOPY || n.Kids[1].T == tCOPY {
			return false
		}
	}
	for _, k := range n.Kids {
		if !copyable(k, size) {
			return false
		}
		if k.Track {
			return false
		}
	}
	return true
}

func isScalar(t byte) bool {
	switch t {
	case tPOS, tNEG, tVARINT, tZIGZAG, tFLOAT, tDOUBLE, tUNDEF, tCUNDEF, tTRUE, tFALSE, tYES, tNO, tLDBL, tBINARY, tUTF8, tSHORT:
		return true
	}
	return false
}

func (g *docGen) markCopied(n *Node) {
	g.copied[n] = true
	for _, k := range n.Kids {
		g.markCopied(k)
	}
}

// refTarget finds an item that a REFP may point to.
func (g *docGen) refTarget(open bool) *Node {
	r := g.r
	for try := 0; try < 6; try++ {
		var t *Node
		if open && r.P(3) && len(g.stack) > 0 {
			i := r.N(len(g.stack))
			t = g.stack[i]
			// what is open must already have a value: a container at or below it
			okc := false
			for _, s := range g.stack[i:] {
				switch s.T {
				case tARRAY, tHASH, tAREF, tHREF:
					okc = true
				}
			}
			if !okc {
				continue
			}
			if t.T == tWEAKEN {
				continue
			}
			if g.perlish && (t.T == tOBJECT || t.T == tOBJV) {
				continue
			}
			if g.javaFlags > 0 {
				// what the Java decoder knows of from the start
				switch t.T {
				case tARRAY, tHASH, tAREF, tHREF:
				case tREFN:
					if (g.javaFlags-1)&jRefs == 0 {
						continue
					}
				default:
					continue
				}
			}
		} else if len(g.done) > 0 {
			// prefer containers
			for k := 0; k < 3; k++ {
				t = g.done[r.N(len(g.done))]
				if t.T == tARRAY || t.T == tHASH {
					break
				}
			}
		}
		if t == nil || g.copied[t] || t.IsStr {
			continue
		}
		switch t.T {
		case tCOPY, tALIAS, tWEAKEN:
			continue
		}
		if g.noScalarShare {
			switch t.T {
			case tARRAY, tHASH:
			default:
				continue
			}
		}
		return t
	}
	return nil
}

// item makes an item in value position.
func (g *docGen) item() *Node {
	g.budget--
	g.depth++
	n := g.item1()
	g.depth--
	g.done = append(g.done, n)
	return n
}

func (g *docGen) item1() *Node {
	r := g.r
	if g.budget <= 0 || g.depth > 60 || r.P(3) {
		return g.scalar()
	}
	if r.P(25) && !g.freezeOnly {
		return g.regexp()
	}
	if g.refs {
		switch r.N(14) {
		case 0, 1:
			if t := g.refTarget(true); t != nil {
				t.Track = true
				g.counts["refp"]++
				if t.open {
					g.counts["refp_to_open"]++
				}
				g.refp++
				return g.spurious(g.form(&Node{T: tREFP, Target: t}))
			}
		case 2:
			if !g.noAlias {
				if t := g.refTarget(false); t != nil && !t.open {
					if g.perlish && (t.T == tARRAY || t.T == tHASH) {
						break
					}
					t.Track = true
					g.counts["alias"]++
					return g.form(&Node{T: tALIAS, Target: t})
				}
			}
		case 3, 4:
			for try := 0; try < 4 && len(g.done) > 0; try++ {
				t := g.done[r.N(len(g.done))]
				sz := 0
				if t.T == tCOPY || g.perlish && (t.T == tARRAY || t.T == tHASH) || !copyable(t, &sz) {
					continue
				}
				g.budget -= sz
				g.markCopied(t)
				g.counts["copy"]++
				return g.form(&Node{T: tCOPY, Target: t})
			}
		case 5:
			if g.inArgs > 0 {
				break
			}
			n := g.form(&Node{T: tWEAKEN})
			g.push(n)
			n.Kids = []*Node{g.ref()}
			g.pop(n)
			g.counts["weaken"]++
			return n
		case 6, 7, 8:
			if g.freezeOnly {
				return g.frozen()
			}
			return g.object()
		case 9:
			if g.freeze && len(g.frozens) > 0 && r.P(3) {
				if t := g.frozens[r.N(len(g.frozens))]; !g.copied[t] {
					t.Track = true
					g.counts["refp_to_frozen"]++
					return g.form(&Node{T: tREFP, Target: t})
				}
			}
			if g.freeze {
				return g.frozen()
			}
		}
	}
	if g.perlish {
		return g.ref()
	}
	switch r.N(4) {
	case 0:
		return g.ref()
	default:
		return g.container(true)
	}
}

// ref makes a reference.
func (g *docGen) ref() *Node {
	r := g.r
	if g.refs && r.P(6) {
		if t := g.refTarget(true); t != nil {
			t.Track = true
			g.counts["refp"]++
			g.refp++
			return g.form(&Node{T: tREFP, Target: t})
		}
	}
	if r.P(3) {
		return g.container(false)
	}
	n := g.spurious(g.form(&Node{T: tREFN}))
	g.push(n)
	var k *Node
	if r.P(5) || g.budget <= 0 {
		g.budget--
		k = g.item1()
		g.done = append(g.done, k)
	} else {
		g.budget--
		k = g.container(true)
		g.done = append(g.done, k)
	}
	// a reference to nothing but an alias or a copy of a container is fine, too
	if g.perlReal && k.T == tALIAS {
		k.T = tREFP // in Perl an alias takes the place of an element
	}
	n.Kids = []*Node{k}
	g.pop(n)
	return n
}

func (g *docGen) regexp() *Node {
	n := g.spurious(g.form(&Node{T: tREGEXP}))
	var p *Node
	if g.refs && g.r.P(4) {
		p = g.copyStr(func(s string) bool { return !g.perlReal || isWord(s) })
	}
	if p == nil && g.perlReal {
		p = g.str(pick(g.r, "", "a", "^x+$", "[a-z]*\\d{2,3}", "(foo|b(a)r)", "\xe4\xf6", "\u0434+\u263a", "not a comment", "a/b\\/c", " \n\t"))
	} else if p == nil {
		p = g.str(g.randStr(100))
	}
	var m *Node
	if g.perlReal && g.r.P(4) {
		m = g.copyStr(func(s string) bool { return s == "" || s == "x" || s == "i" || s == "msix" })
	}
	if m == nil {
		m = g.str(pick(g.r, "", "i", "msix", "x"))
	}
	n.Kids = []*Node{p, m}
	g.counts["regexp"]++
	return n
}

func (g *docGen) object() *Node {
	n := g.spurious(g.form(&Node{}))
	if len(g.classes) > 0 && g.r.P(2) {
		n.T = tOBJV
		n.Target = g.classes[g.r.N(len(g.classes))]
		g.counts["objectv"]++
	} else {
		n.T = tOBJECT
		n.Kids = []*Node{g.class()}
		g.counts["object"]++
	}
	g.push(n)
	var k *Node
	if g.perlish || g.r.P(2) {
		k = g.ref()
	} else {
		k = g.container(true)
	}
	n.Kids = append(n.Kids, k)
	g.done = append(g.done, k)
	g.pop(n)
	return n
}

func (g *docGen) frozen() *Node {
	n := g.form(&Node{})
	if len(g.classes) > 0 && g.r.P(2) {
		n.T = tOBJVF
		n.Target = g.classes[g.r.N(len(g.classes))]
	} else {
		n.T = tOBJF
		n.Kids = []*Node{g.class()}
	}
	if g.perlReal {
		// any arguments
		arr := &Node{T: tARRAY}
		n.Kids = append(n.Kids, &Node{T: tREFN, Kids: []*Node{arr}})
		if r := g.r; r.P(3) {
			n.Kids[len(n.Kids)-1] = g.form(&Node{T: tAREF})
			arr = n.Kids[len(n.Kids)-1]
		} else {
			g.form(arr)
		}
		open := arr.T == tARRAY && g.r.Bool()
		if open {
			g.frozens = append(g.frozens, arr)
		}
		g.inArgs++
		for i := g.r.Len(4); i > 0 && g.budget > 0; i-- {
			arr.Kids = append(arr.Kids, g.item())
		}
		g.inArgs--
		if arr.T == tARRAY && !open {
			g.frozens = append(g.frozens, arr)
		}
		g.counts["freeze"]++
		return n
	}
	s := g.randStr(g.maxStr)
	str := &Node{S: s, T: tBINARY}
	if len(s) < 32 && g.r.P(2) {
		str.T = tSHORT
	}
	n.Kids = append(n.Kids, &Node{T: tREFN, Kids: []*Node{{T: tARRAY, Kids: []*Node{str}}}})
	g.counts["freeze"]++
	return n
}

// genDoc makes a whole document.
func genDoc(r *Rng, version int, opt func(g *docGen)) (*Doc, *docGen) {
	g := newDocGen(r, version)
	if opt != nil {
		opt(g)
	}
	d := &Doc{Version: version}
	if version >= 2 && r.P(4) {
		h := newDocGen(r, version)
		if opt != nil {
			opt(h)
		}
		h.budget = r.In(1, 20)
		d.Header = h.item()
		if g.perlReal && r.P(3) {
			d.HeadFlags = byte(r.N(128)) << 1
			d.HeadTail = pick(r, []byte{0x3f}, r.Bytes(r.In(1, 9)))
		}
	} else if version >= 2 && r.P(8) {
		// a suffix without user data
		d.Suffix = append([]byte{byte(r.N(128)) << 1}, r.Bytes(r.N(20))...)
	} else if version == 1 && r.P(6) {
		d.Suffix = append([]byte{byte(r.N(128)) << 1}, r.Bytes(r.N(20))...)
	}
	if r.P(10) && !g.plainForms {
		d.WideSfx = r.In(1, 3)
	}
	d.Body = g.root()
	return d, g
}

// root makes the body: a container more often than not.
func (g *docGen) root() *Node {
	if g.r.P(8) {
		return g.item()
	}
	var n *Node
	if g.perlish {
		g.budget--
		n = g.ref()
	} else if g.r.P(3) {
		n = g.ref()
	} else {
		n = g.container(true)
	}
	g.done = append(g.done, n)
	return n
}

func docTypeFor(r *Rng, version int) int {
	switch version {
	case 1:
		return pick(r, 0, 0, 1, 2)
	case 2:
		return pick(r, 0, 0, 2)
	case 3:
		return pick(r, 0, 0, 2, 3)
	}
	return pick(r, 0, 0, 2, 3, 4)
}

// walk visits all nodes in document order.
func walk(n *Node, f func(n *Node)) {
	f(n)
	for _, k := range n.Kids {
		walk(k, f)
	}
}

func isWord(s string) bool {
	for _, c := range s {
		if c != '_' && (c < '0' || c > '9') && (c < 'a' || c > 'z') && (c < 'A' || c > 'Z') {
			return false
		}
	}
	return true
}
