package main

// Values read under a path condition are simplified under it, so that the
// alternatives already excluded (an error that has been handled) disappear.

var pruning bool

var pruneMemo = map[[2]int64]*Node{}

func prune(n *Node, c B) *Node {
	if c == True || c == False || !hasGuards(n) {
		return n
	}
	k := [2]int64{int64(n.id), int64(c)}
	if r, ok := pruneMemo[k]; ok {
		return r
	}
	r := prune0(n, c)
	pruneMemo[k] = r
	return r
}

func hasGuards(n *Node) bool {
	switch n.op {
	case OChoice, OBool, OList, OMap, OStruct, OTuple, OBox, OSorted, ORev:
		return true
	}
	return false
}

func prune0(n *Node, c B) *Node {
	switch n.op {
	case OBool:
		if n.conds[0] <= 1 {
			return n
		}
		return boolNode(pruneB(n.conds[0], c))
	case OChoice:
		var ls []leaf
		changed := false
		rest := True
		for i, a := range n.args {
			g := pruneB(n.conds[i], c)
			if and(g, c) == False {
				changed = true
				continue
			}
			a2 := prune(a, and(c, n.conds[i]))
			if a2 != a || g != n.conds[i] {
				changed = true
			}
			ls = append(ls, leaf{g, a2})
			rest = and(rest, not(g))
		}
		if !changed {
			return n
		}
		if len(ls) == 1 {
			return ls[0].v
		}
		// the guards stay exclusive and complete
		used := False
		for i := range ls {
			if i == len(ls)-1 {
				ls[i].g = not(used)
			} else {
				ls[i].g = and(ls[i].g, not(used))
			}
			used = or(used, ls[i].g)
		}
		return choice(ls)
	case OList, OMap:
		var out []*Node
		changed := false
		for _, s := range n.args {
			s2 := pruneSeg(s, c)
			if s2 != s {
				changed = true
			}
			if s2 != nil {
				out = append(out, s2)
			}
		}
		if !changed {
			return n
		}
		if n.op == OMap {
			return mkMap(out, n.typ)
		}
		return mkList(out, n.typ)
	case OSorted, ORev:
		a := prune(n.args[0], c)
		if a == n.args[0] {
			return n
		}
		if n.op == ORev {
			return mkRev(a)
		}
		return mkSorted(a, n.args[1])
	case OStruct, OTuple, OBox:
		var args []*Node
		for i, a := range n.args {
			b := prune(a, c)
			if b != a && args == nil {
				args = append([]*Node{}, n.args...)
			}
			if args != nil {
				args[i] = b
			}
		}
		if args == nil {
			return n
		}
		m := intern(n.op, n.sym, args, n.conds, n.typ)
		if m.aux == nil {
			m.aux = n.aux
		}
		if m.pos == 0 {
			m.pos = n.pos
		}
		return m
	}
	return n
}

func pruneB(g, c B) B {
	if g <= 1 {
		return g
	}
	if entails(c, g) {
		return True
	}
	if and(c, g) == False {
		return False
	}
	return minimize(g, relevant(c, g))
}

// relevant: the part of c about the atoms of g (weaker than c).
func relevant(c, g B) B {
	in := map[int32]bool{}
	for _, v := range bm.support(g) {
		in[v] = true
	}
	for _, v := range bm.support(c) {
		if !in[v] {
			c = or(restrictVar(c, v, true), restrictVar(c, v, false))
		}
	}
	return c
}

// pruneSeg returns nil when the segment is empty under c.
func pruneSeg(s *Node, c B) *Node {
	if s.op == OEmit {
		g := pruneB(s.conds[0], c)
		if g == False {
			return nil
		}
		it := prune(s.args[0], and(c, s.conds[0]))
		if g == s.conds[0] && it == s.args[0] {
			return s
		}
		return emit(g, it)
	}
	if s.op == OList {
		var out []*Node
		for _, x := range s.args {
			if y := pruneSeg(x, c); y != nil {
				out = append(out, y)
			}
		}
		if len(out) == 0 {
			return nil
		}
		return bodyOf(out)
	}
	if s.op != OFor {
		return s
	}
	if pruneB(segGuard(s), c) == False {
		return nil
	}
	v, o := open(s)
	b := pruneSeg(o.args[1], c)
	if b == nil {
		return nil
	}
	dom := prune(s.args[0], c)
	if b == o.args[1] && dom == s.args[0] {
		return s
	}
	r := mkFor(v, dom, b)
	if dom != s.args[0] {
		// keep one segment per segment
		if len(r) != 1 {
			dom = s.args[0]
			r = mkFor(v, dom, b)
		}
	}
	if len(r) == 1 {
		return r[0]
	}
	return s
}

func (fr *Frame) pruneCells(st *State) {
	c := fr.here()
	if c == True {
		return
	}
	for k, v := range st.cells {
		if w := prune(v, c); w != v {
			st.cells[k] = w
		}
	}
}
