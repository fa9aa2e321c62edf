package main

// Boolean guards are kept as reduced ordered binary decision diagrams over
// "atoms" (hash-consed value-graph nodes of boolean type).  They are only a
// canonical representation of control-dependence predicates: equality of two
// guards is pointer equality, no satisfiability search is involved.

type B int32

const (
	False B = 0
	True  B = 1
)

type bddNode struct {
	v      int32
	lo, hi B
}

type bddMgr struct {
	nodes  []bddNode
	uniq   map[bddNode]B
	iteC   map[[3]B]B
	atoms  []*Node
	atomIx map[*Node]int32
	supC   map[B][]int32
	fvC    map[B][]int32
	mbC    map[B]int
}

var bm = &bddMgr{
	nodes:  []bddNode{{1 << 30, 0, 0}, {1 << 30, 1, 1}},
	uniq:   map[bddNode]B{},
	iteC:   map[[3]B]B{},
	atomIx: map[*Node]int32{},
	supC:   map[B][]int32{},
	fvC:    map[B][]int32{},
	mbC:    map[B]int{},
}

func (m *bddMgr) mk(v int32, lo, hi B) B {
	if lo == hi {
		return lo
	}
	k := bddNode{v, lo, hi}
	if r, ok := m.uniq[k]; ok {
		return r
	}
	r := B(len(m.nodes))
	m.nodes = append(m.nodes, k)
	m.uniq[k] = r
	if len(m.nodes) > 8000000 {
		panic(undecided("guard diagram too large"))
	}
	return r
}

func (m *bddMgr) ite(f, g, h B) B {
	switch {
	case f == True:
		return g
	case f == False:
		return h
	case g == h:
		return g
	case g == True && h == False:
		return f
	}
	k := [3]B{f, g, h}
	if r, ok := m.iteC[k]; ok {
		return r
	}
	v := m.nodes[f].v
	if w := m.nodes[g].v; w < v {
		v = w
	}
	if w := m.nodes[h].v; w < v {
		v = w
	}
	cof := func(x B, hi bool) B {
		n := m.nodes[x]
		if n.v != v {
			return x
		}
		if hi {
			return n.hi
		}
		return n.lo
	}
	lo := m.ite(cof(f, false), cof(g, false), cof(h, false))
	hi := m.ite(cof(f, true), cof(g, true), cof(h, true))
	r := m.mk(v, lo, hi)
	m.iteC[k] = r
	return r
}

func and(xs ...B) B {
	r := True
	for _, x := range xs {
		r = bm.ite(r, x, False)
	}
	return r
}
func or(xs ...B) B {
	r := False
	for _, x := range xs {
		r = bm.ite(r, True, x)
	}
	return r
}
func not(x B) B        { return bm.ite(x, False, True) }
func implies(a, b B) B { return bm.ite(a, b, True) }
func xor(a, b B) B     { return bm.ite(a, not(b), b) }
func iff(a, b B) B     { return bm.ite(a, b, not(b)) }

// entails reports the purely propositional implication a => b.
func entails(a, b B) bool { return and(a, not(b)) == False }

func (m *bddMgr) atomVar(n *Node) B {
	ix, ok := m.atomIx[n]
	if !ok {
		ix = int32(len(m.atoms))
		m.atoms = append(m.atoms, n)
		m.atomIx[n] = ix
	}
	return m.mk(ix, False, True)
}

func (m *bddMgr) support(f B) []int32 {
	if f <= 1 {
		return nil
	}
	if s, ok := m.supC[f]; ok {
		return s
	}
	seen := map[B]bool{}
	vs := map[int32]bool{}
	var walk func(B)
	walk = func(x B) {
		if x <= 1 || seen[x] {
			return
		}
		seen[x] = true
		n := m.nodes[x]
		vs[n.v] = true
		walk(n.lo)
		walk(n.hi)
	}
	walk(f)
	out := make([]int32, 0, len(vs))
	for v := range vs {
		out = append(out, v)
	}
	sortInt32(out)
	m.supC[f] = out
	return out
}

func sortInt32(a []int32) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func supportAtoms(f B) []*Node {
	var out []*Node
	for _, v := range bm.support(f) {
		out = append(out, bm.atoms[v])
	}
	return out
}

// restrictVar fixes one atom.
func restrictVar(f B, v int32, val bool) B {
	memo := map[B]B{}
	var rec func(B) B
	rec = func(x B) B {
		if x <= 1 {
			return x
		}
		n := bm.nodes[x]
		if n.v > v {
			return x
		}
		if n.v == v {
			if val {
				return n.hi
			}
			return n.lo
		}
		if r, ok := memo[x]; ok {
			return r
		}
		r := bm.mk(n.v, rec(n.lo), rec(n.hi))
		memo[x] = r
		return r
	}
	return rec(f)
}

func restrictAtom(f B, a *Node, val bool) B {
	ix, ok := bm.atomIx[a]
	if !ok {
		return f
	}
	return restrictVar(f, ix, val)
}

// minimize: Coudert-Madre restrict; a function equal to f wherever care holds.
func minimize(f, care B) B {
	if care == False || care == True {
		return f
	}
	memo := map[[2]B]B{}
	var rec func(f, c B) B
	rec = func(f, c B) B {
		if f <= 1 || c == True {
			return f
		}
		k := [2]B{f, c}
		if r, ok := memo[k]; ok {
			return r
		}
		fn, cn := bm.nodes[f], bm.nodes[c]
		var r B
		switch {
		case cn.v < fn.v:
			r = rec(f, or(cn.lo, cn.hi))
		default:
			clo, chi := c, c
			if cn.v == fn.v {
				clo, chi = cn.lo, cn.hi
			}
			if clo == False {
				r = rec(fn.hi, chi)
			} else if chi == False {
				r = rec(fn.lo, clo)
			} else {
				r = bm.mk(fn.v, rec(fn.lo, clo), rec(fn.hi, chi))
			}
		}
		memo[k] = r
		return r
	}
	return rec(f, care)
}

// rewrite replaces atoms by guards.
func rewriteB(f B, fn func(*Node) (B, bool)) B {
	memo := map[B]B{}
	var rec func(B) B
	rec = func(x B) B {
		if x <= 1 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		n := bm.nodes[x]
		lo, hi := rec(n.lo), rec(n.hi)
		var c B
		if b, ok := fn(bm.atoms[n.v]); ok {
			c = b
		} else {
			c = bm.mk(n.v, False, True)
		}
		r := bm.ite(c, hi, lo)
		memo[x] = r
		return r
	}
	return rec(f)
}

func fvB(f B) []int32 {
	if f <= 1 {
		return nil
	}
	if s, ok := bm.fvC[f]; ok {
		return s
	}
	var out []int32
	for _, a := range supportAtoms(f) {
		out = unionI(out, a.fv)
	}
	bm.fvC[f] = out
	return out
}

func mbB(f B) int {
	if f <= 1 {
		return 0
	}
	if s, ok := bm.mbC[f]; ok {
		return s
	}
	m := 0
	for _, a := range supportAtoms(f) {
		if a.mb > m {
			m = a.mb
		}
	}
	bm.mbC[f] = m
	return m
}

// cubes enumerates the satisfying cubes of f as literal lists (for display).
func cubes(f B, max int) []string {
	var out []string
	var rec func(x B, acc string)
	rec = func(x B, acc string) {
		if len(out) >= max {
			return
		}
		if x == False {
			return
		}
		if x == True {
			if acc == "" {
				acc = "true"
			}
			out = append(out, acc)
			return
		}
		n := bm.nodes[x]
		a := bm.atoms[n.v].String()
		sep := ""
		if acc != "" {
			sep = " & "
		}
		rec(n.hi, acc+sep+a)
		rec(n.lo, acc+sep+"!"+a)
	}
	rec(f, "")
	return out
}

var refC = map[B]bool{}

func refB(f B) bool {
	if f <= 1 {
		return false
	}
	if r, ok := refC[f]; ok {
		return r
	}
	r := false
	for _, a := range supportAtoms(f) {
		r = r || a.hasRef
	}
	refC[f] = r
	return r
}
