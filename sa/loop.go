package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A loop is summarised by the list it iterates over and, for every value or
// cell it changes, the recurrence that value follows.

type comp struct {
	phi  *ssa.Phi
	cell *Node
	path []int
	ph   *Node
	init *Node
	T    *Node // value at the end of an iteration
	fin  func(D *Node) *Node
	inv  bool
	typ  types.Type
}

type loopRun struct {
	latch []*Edge
	exits []*Edge
	lc    B
	ls    *State
	lvals map[*comp]*Node
	mark  int
	snap  map[ssa.Value]*Node
}

func (fr *Frame) snapshot(lp *loopInfo) map[ssa.Value]*Node {
	m := map[ssa.Value]*Node{}
	for _, v := range lp.live {
		if n, ok := fr.vals[v]; ok {
			m[v] = n
		}
	}
	return m
}

func addOver(e *Edge, snap map[ssa.Value]*Node) {
	o := map[ssa.Value]*Node{}
	for k, v := range snap {
		o[k] = v
	}
	for k, v := range e.over {
		o[k] = v
	}
	e.over = o
}

// setLive gives the values defined inside the loop their value after it.
func (fr *Frame) setLive(lp *loopInfo, outs []*Edge) {
	for _, v := range lp.live {
		var uses []*ssa.BasicBlock
		for _, r := range *v.Referrers() {
			if phi, ok := r.(*ssa.Phi); ok {
				// the phi reads the value on its edges: on those that leave
				// the loop directly see edgeVal
				for i, p := range phi.Block().Preds {
					if phi.Edges[i] == v && !lp.blocks[p] {
						uses = append(uses, p)
					}
				}
				continue
			}
			if r.Block() != nil && !lp.blocks[r.Block()] {
				uses = append(uses, r.Block())
			}
		}
		if len(uses) == 0 {
			continue
		}
		var sel []*Edge
		for _, e := range outs {
			if e.kind != eJump || e.cond == False {
				continue
			}
			dom := true
			for _, u := range uses {
				if !e.to.Dominates(u) {
					dom = false
				}
			}
			if dom {
				sel = append(sel, e)
			}
		}
		if len(sel) == 0 {
			for _, e := range outs {
				if e.kind == eJump {
					sel = append(sel, e)
				}
			}
		}
		c := False
		for _, e := range sel {
			c = or(c, e.cond)
		}
		var ls []leaf
		for _, e := range sel {
			if n, ok := e.over[v]; ok {
				ls = append(ls, leaf{minimize(e.cond, c), n})
			}
		}
		if len(ls) > 0 {
			fr.vals[v] = choice(ls)
		}
	}
}

func (fr *Frame) loop(lp *loopInfo, ins []*Edge) []*Edge {
	ev.nLoops++
	c0, s0, live := mergeEdges(ins)
	if c0 == False {
		return nil
	}
	init := fr.phis(lp.header, live, c0)
	fr.inLoop++
	outer, cur := fr.outer, fr.cur
	fr.outer, fr.cur = and(fr.outer, c0), True
	defer func() { fr.inLoop--; fr.outer, fr.cur = outer, cur }()
	outs, ok := fr.unroll(lp, c0, s0, init)
	if !ok {
		outs = fr.symbolic(lp, c0, s0, init)
	}
	fr.setLive(lp, outs)
	return outs
}

// counts: the test depends on a value the loop changes, other than through
// something it calls.
func counts(v ssa.Value, h *ssa.BasicBlock, depth int) bool {
	if depth > 20 {
		return true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		return true
	case *ssa.UnOp:
		return x.Op == token.MUL || counts(x.X, h, depth+1)
	case *ssa.BinOp:
		return counts(x.X, h, depth+1) || counts(x.Y, h, depth+1)
	case *ssa.Convert:
		return counts(x.X, h, depth+1)
	case *ssa.ChangeType:
		return counts(x.X, h, depth+1)
	case *ssa.Index:
		return counts(x.X, h, depth+1) || counts(x.Index, h, depth+1)
	case *ssa.Call:
		if _, ok := x.Call.Value.(*ssa.Builtin); ok {
			for _, a := range x.Call.Args {
				if counts(a, h, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

func (fr *Frame) staticTest(lp *loopInfo, st *State) bool {
	h := lp.header
	if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	for _, in := range h.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return false
		}
	}
	if !counts(h.Instrs[len(h.Instrs)-1].(*ssa.If).Cond, h, 0) {
		return false
	}
	n := 0
	for _, e := range fr.block(h, True, st.clone()) {
		if e.cond == False {
			n++
		} else if e.kind != eJump {
			return false
		}
	}
	return n > 0
}

func (fr *Frame) unroll(lp *loopInfo, c0 B, s0 *State, init map[*ssa.Phi]*Node) ([]*Edge, bool) {
	var outs []*Edge
	c, st := c0, s0.clone()
	for p, n := range init {
		fr.vals[p] = n
	}
	for it := 0; ; it++ {
		if it > 64 || !fr.staticTest(lp, st) {
			return nil, false
		}
		var latch []*Edge
		for _, e := range fr.region(lp.header, lp, c, st) {
			if e.kind == eJump && e.to == lp.header {
				latch = append(latch, e)
			} else {
				outs = append(outs, e)
			}
		}
		snap := fr.snapshot(lp)
		for _, e := range outs {
			if e.over == nil || !overDone(e, lp) {
				addOver(e, snap)
			}
		}
		c2, st2, live := mergeEdges(latch)
		if c2 == False {
			return outs, true
		}
		next := fr.phis(lp.header, live, c2)
		for p, n := range next {
			fr.vals[p] = n
		}
		c, st = c2, st2.clone()
	}
}

// overDone: the edge already carries the values of this loop.
func overDone(e *Edge, lp *loopInfo) bool {
	for _, v := range lp.live {
		if _, ok := e.over[v]; !ok {
			return false
		}
	}
	return true
}

func replacePath(n *Node, path []int, v *Node) *Node {
	if len(path) == 0 {
		return v
	}
	args := append([]*Node{}, n.args...)
	args[path[0]] = replacePath(args[path[0]], path[1:], v)
	return intern(n.op, n.sym, args, nil, n.typ)
}

func atPath(n *Node, path []int) *Node {
	for _, i := range path {
		if n.op == OBox {
			n = n.args[0]
		}
		if n.op == OStruct && i < len(n.args) {
			n = n.args[i]
			continue
		}
		// unknown struct value: read the field
		if st := derefStructType(n.typ); st != nil && i < st.NumFields() {
			n = mkField(n, st.Field(i).Name(), st.Field(i).Type())
			continue
		}
		return opaque("field of unknown value")
	}
	return n
}

// runBody evaluates one iteration.
func (fr *Frame) runBody(lp *loopInfo, comps []*comp, bind map[*comp]*Node, s0 *State, tr, ob *Node) *loopRun {
	st := s0.clone()
	st.trace, st.obs = tr, ob
	for _, c := range comps {
		v := bind[c]
		if c.phi != nil {
			fr.vals[c.phi] = v
			continue
		}
		cur, ok := st.cells[c.cell]
		if !ok {
			cur = initCell(s0, c.cell)
		}
		st.cells[c.cell] = replacePath(cur, c.path, v)
	}
	r := &loopRun{mark: refCtr + 1, lvals: map[*comp]*Node{}}
	for _, e := range fr.region(lp.header, lp, True, st) {
		if e.kind == eJump && e.to == lp.header {
			r.latch = append(r.latch, e)
		} else {
			r.exits = append(r.exits, e)
		}
	}
	r.snap = fr.snapshot(lp)
	for _, e := range r.exits {
		addOver(e, r.snap)
	}
	var live []*Edge
	r.lc, r.ls, live = mergeEdges(r.latch)
	if r.lc == False {
		return r
	}
	phis := fr.phis(lp.header, live, r.lc)
	for _, c := range comps {
		if c.phi != nil {
			r.lvals[c] = freeze(r.ls.content2(phis[c.phi], r.mark), r.ls, r.mark)
			continue
		}
		cur, ok := r.ls.cells[c.cell]
		if !ok {
			cur = initCell(s0, c.cell)
		}
		r.lvals[c] = freeze(atPath(cur, c.path), r.ls, r.mark)
	}
	return r
}

// content2 resolves slices allocated in this iteration.
func (s *State) content2(n *Node, mark int) *Node {
	if n.op == OChoice {
		return lift(n, func(x *Node) *Node { return s.content2(x, mark) })
	}
	if n.op == ORef && isSliceType(n.typ) {
		if k, ok := n.aux.(int); ok && k >= mark {
			return s.content(n)
		}
	}
	return n
}

func initCell(s0 *State, k *Node) *Node {
	if c, ok := s0.cells[k]; ok {
		return c
	}
	if k.op == OParam && strings.HasPrefix(k.sym, "sv:") {
		if n, ok := k.aux.(*Node); ok {
			return n
		}
	}
	if k.op == OParam && strings.HasPrefix(k.sym, "&") {
		return loadGlobal(k, nil)
	}
	return opaque("cell")
}

var svVals = map[*Node]ssa.Value{}

// changed finds the paths below a cell whose value differs.
func changed(a, b *Node, path []int, out func(path []int, a *Node)) {
	if a == b {
		return
	}
	if a.op == OStruct && b.op == OStruct && a.sym == b.sym && len(a.args) == len(b.args) && a.sym != "array" {
		for i := range a.args {
			changed(a.args[i], b.args[i], append(append([]int{}, path...), i), out)
		}
		return
	}
	out(path, a)
}

func samePath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func prefixPath(a, b []int) bool { return len(a) <= len(b) && samePath(a, b[:len(a)]) }

func structFieldType(n *Node) types.Type { return n.typ }

func (fr *Frame) symbolic(lp *loopInfo, c0 B, s0 *State, init map[*ssa.Phi]*Node) []*Edge {
	h := lp.header
	var comps []*comp
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n := init[p]
		if isSliceType(p.Type()) {
			n = s0.content(n)
			if n.op == ORef {
				n = init[p]
			}
		}
		comps = append(comps, &comp{phi: p, init: n, typ: p.Type(), ph: freshVar("ph", p.Type(), nil)})
	}
	// range over a map or string
	var next *ssa.Next
	for _, in := range h.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			next = n
		}
	}
	var dom, v *Node
	if next != nil {
		rg := fr.val(s0, next.Iter)
		var x *Node
		if rg.op == OTuple && len(rg.args) == 1 {
			x = rg.args[0]
		} else {
			x = opaque("range")
		}
		if next.IsString {
			dom = mkCall("runes", []*Node{x}, types.NewSlice(types.Typ[types.Rune]), nil)
			v = freshVar("r", types.Typ[types.Rune], dom)
			fr.nexts[next] = intern(OTuple, "", []*Node{boolNode(True), mkCall("runeoff", []*Node{v}, types.Typ[types.Int], nil), v}, nil, nil)
		} else {
			mt := next.Iter.(*ssa.Range).X.Type()
			if x.op == OChoice {
				x = choice(leaves(x))
			}
			dom = mkMapElems(x)
			v = freshVar("kv", nil, dom)
			fr.nexts[next] = intern(OTuple, "", []*Node{boolNode(True), mapKey(v, mt), mapVal(v, mt)}, nil, nil)
		}
		defer delete(fr.nexts, next)
	}
	// find what the loop changes
	bind := map[*comp]*Node{}
	for _, c := range comps {
		bind[c] = c.ph
	}
	var run *loopRun
	for round := 0; ; round++ {
		if round > 12 {
			panic(undecided("loop state does not stabilise in " + fr.fn.String()))
		}
		run = fr.runBody(lp, comps, bind, s0, emptyList, emptyList)
		if run.lc == False {
			break
		}
		more := false
		for _, c := range comps {
			if !c.inv && c.phi != nil && (run.lvals[c] == c.ph || run.lvals[c] == c.init && bind[c] == c.init) {
				c.inv = true
				bind[c] = c.init
				more = true
			}
		}
		var keys []*Node
		for k := range run.ls.cells {
			keys = append(keys, k)
		}
		sortNodes(keys)
		for _, k := range keys {
			if _, in := s0.cells[k]; !in {
				if k.op == ORef {
					continue
				}
				if sv := svVals[k]; sv != nil && strings.HasPrefix(k.sym, "sv:"+itoa(fr.id)+":") {
					if in, ok := sv.(ssa.Instruction); ok && lp.blocks[in.Block()] {
						continue
					}
				}
			}
			cur := initCell(s0, k)
			// what the iteration started with
			start := cur
			for _, c := range comps {
				if c.cell == k {
					start = replacePath(start, c.path, bind[c])
				}
			}
			changed(start, run.ls.cells[k], nil, func(path []int, a *Node) {
				for _, c := range comps {
					if c.cell == k && prefixPath(c.path, path) {
						return
					}
				}
				// a wider path replaces narrower ones
				kept := comps[:0:0]
				for _, c := range comps {
					if c.cell == k && prefixPath(path, c.path) {
						continue
					}
					kept = append(kept, c)
				}
				comps = kept
				iv := atPath(cur, path)
				t := iv.typ
				// empty maps and lists are shared between types
				if t == nil || iv.op == OMap || iv.op == OList {
					if ct := cellType(k, path); ct != nil {
						t = ct
					}
				}
				nc := &comp{cell: k, path: path, init: iv, typ: t, ph: freshVar("ph", t, nil)}
				comps = append(comps, nc)
				bind[nc] = nc.ph
				more = true
			})
		}
		if !more {
			break
		}
	}
	if run.lc == False {
		// the body always leaves: not a loop after all
		for _, c := range comps {
			bind[c] = c.init
		}
		if next != nil {
			panic(undecided("range loop that never repeats in " + fr.fn.String()))
		}
		r := fr.runBody(lp, comps, bind, s0, s0.trace, s0.obs)
		for _, e := range r.exits {
			e.cond = and(c0, e.cond)
		}
		return r.exits
	}
	// the counter
	var counter *comp
	var cStart, cEnd *Node
	if next == nil {
		counter, dom, v, cStart, cEnd = fr.findCounter(lp, comps, run)
	}
	if dom == nil {
		if outs, ok := fr.streamLoop(lp, comps, bind, c0, s0, run); ok {
			return outs
		}
		if outs, ok := fr.consumeLoop(lp, comps, bind, c0, s0, run); ok {
			return outs
		}
		return fr.unknownLoop(lp, comps, bind, c0, s0, run)
	}
	if counter != nil {
		bind[counter] = cStart
		counter.fin = func(D *Node) *Node { panic("counter") }
		run = fr.runBody(lp, comps, bind, s0, emptyList, emptyList)
		// the elements are read from a sorted or reversed form of the list
		if y := permHit[v]; y != nil {
			dom = y
			nv := freshVar("x", v.typ, dom)
			cStart = subst1(cStart, v, nv)
			v = nv
			bind[counter] = cStart
			run = fr.runBody(lp, comps, bind, s0, emptyList, emptyList)
		}
	}
	return fr.finish(lp, comps, bind, c0, s0, run, dom, v, counter, cEnd, next)
}

func cellType(k *Node, path []int) types.Type {
	t := k.typ
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	for _, i := range path {
		st, ok := t.Underlying().(*types.Struct)
		if !ok || i >= st.NumFields() {
			return nil
		}
		t = st.Field(i).Type()
	}
	return t
}

func sortNodes(ns []*Node) {
	for i := 1; i < len(ns); i++ {
		for j := i; j > 0 && ns[j].id < ns[j-1].id; j-- {
			ns[j], ns[j-1] = ns[j-1], ns[j]
		}
	}
}

// literal: a single (possibly negated) atom.
func literal(k B) (*Node, bool, bool) {
	if k <= 1 {
		return nil, false, false
	}
	n := bm.nodes[k]
	switch {
	case n.lo == False && n.hi == True:
		return bm.atoms[n.v], true, true
	case n.lo == True && n.hi == False:
		return bm.atoms[n.v], false, true
	}
	return nil, false, false
}

func mentions(n *Node, comps []*comp) bool {
	for _, c := range comps {
		if !c.inv && n.has(c.ph) {
			return true
		}
	}
	return false
}

func ltOffset(n *Node) int64 {
	var d int64
	neg := false
	for i, r := range n.sym {
		if i == 0 && r == '-' {
			neg = true
			continue
		}
		d = d*10 + int64(r-'0')
	}
	if neg {
		return -d
	}
	return d
}

func mkSub(a, b *Node) *Node {
	la, ka := linear(a)
	lb, kb := linear(b)
	switch {
	case lb == nil:
		return mkAdd(a, constInt(-kb))
	case la == lb:
		return constInt(ka - kb)
	}
	return mkArith("-", []*Node{a, b}, types.Typ[types.Int])
}

// findCounter looks for the test that bounds the loop.
func (fr *Frame) findCounter(lp *loopInfo, comps []*comp, run *loopRun) (cc *comp, dom, v, start, end *Node) {
	var order []*ssa.BasicBlock
	order = append(order, lp.header)
	for _, b := range fr.info.rpo {
		if lp.blocks[b] && b != lp.header {
			order = append(order, b)
		}
	}
	for _, b := range order {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		// must guard every further iteration
		domAll := true
		for _, e := range run.latch {
			if e.from != b && !b.Dominates(e.from) {
				domAll = false
			}
		}
		if !domAll {
			continue
		}
		in0, in1 := lp.blocks[b.Succs[0]], lp.blocks[b.Succs[1]]
		if in0 == in1 {
			continue
		}
		cn, ok := fr.vals[iff.Cond]
		if !ok {
			continue
		}
		k := cond(cn)
		if !in0 {
			k = not(k)
		}
		var upper, lower *Node
		var c *comp
		for _, x := range comps {
			if x.inv || x.T != nil {
				continue
			}
			if a, posv, ok := literal(k); ok && a.op == OLt {
				d := constInt(ltOffset(a))
				switch {
				case posv && a.args[0] == x.ph:
					upper = mkAdd(a.args[1], d)
				case posv && a.args[1] == x.ph: // a < ph + d
					lower = mkAdd(mkSub(a.args[0], d), constInt(1))
				case !posv && a.args[0] == x.ph:
					lower = mkAdd(a.args[1], d)
				case !posv && a.args[1] == x.ph:
					upper = mkAdd(mkSub(a.args[0], d), constInt(1))
				}
				if upper != nil || lower != nil {
					c = x
					break
				}
			}
			// i != n
			for _, a := range supportAtoms(k) {
				if a.op != OLt || upper != nil {
					continue
				}
				for i := 0; i < 2; i++ {
					if a.args[i] == x.ph {
						o := a.args[1-i]
						for _, d := range []int64{0, ltOffset(a), -ltOffset(a), 1 - ltOffset(a), ltOffset(a) - 1} {
							u := mkAdd(o, constInt(d))
							if k == not(eqB(x.ph, u)) {
								if run.lvals[x] == mkAdd(x.ph, constInt(1)) {
									upper, c = u, x
								} else {
									lower, c = mkAdd(u, constInt(1)), x
								}
								break
							}
						}
					}
				}
			}
			if c != nil {
				break
			}
		}
		if c == nil {
			continue
		}
		T := run.lvals[c]
		if upper != nil && T == mkAdd(c.ph, constInt(1)) && !mentions(upper, comps) {
			N := mkSub(upper, c.init)
			base, off := linear(N)
			i0, i0ok := c.init.intVal()
			if base != nil && base.op == OLen && i0ok && !isStringType(base.args[0].typ) && base.args[0].op != OConcat && !isMapType(base.args[0].typ) {
				L := base.args[0]
				switch {
				case off == 0:
					dom = L
				case off < 0 && i0 == -off:
					dom = mkSlice(L, constInt(i0), nilNode, L.typ)
				case off < 0:
					dom = mkSlice(L, constInt(0), mkAdd(base, constInt(off)), L.typ)
				}
				if dom != nil {
					v = freshVar("x", elemType(L.typ), dom)
					return c, dom, v, mkAdd(mkIdx(v), c.init), upper
				}
			}
			dom = intern(OCall, "range", []*Node{N}, nil, types.NewSlice(types.Typ[types.Int]))
			v = freshVar("i", types.Typ[types.Int], dom)
			return c, dom, v, mkAdd(v, c.init), upper
		}
		if lower != nil && T == mkAdd(c.ph, constInt(-1)) && !mentions(lower, comps) {
			if lk, ok := lower.intVal(); ok {
				base, off := linear(c.init)
				if base != nil && base.op == OLen && !isStringType(base.args[0].typ) && off-lk+1 == 0 {
					L := base.args[0]
					dom = mkRev(L)
					v = freshVar("x", elemType(L.typ), dom)
					return c, dom, v, mkAdd(intern(OCall, "ridx", []*Node{v}, nil, types.Typ[types.Int]), constInt(lk)), constInt(lk - 1)
				}
			}
		}
	}
	return nil, nil, nil, nil, nil
}

func itoa(i int) string { return constInt(int64(i)).sym[2:] }

// finish solves the recurrences and builds the edges leaving the loop.
func (fr *Frame) finish(lp *loopInfo, comps []*comp, bind map[*comp]*Node, c0 B, s0 *State, run *loopRun, dom, v *Node, counter *comp, cEnd *Node, next *ssa.Next) []*Edge {
	var solveSet []*comp
	for _, c := range comps {
		if c == counter || c.inv {
			continue
		}
		c.T = run.lvals[c]
		solveSet = append(solveSet, c)
	}
	exits := run.exits
	lc := run.lc
	// leaving early without having changed anything is the same as idling
	normal := fr.normalTargets(lp, next)
	var rest []*Edge
	for _, e := range exits {
		if fr.stutters(e, lp, solveSet, s0, v, normal) {
			for _, c := range solveSet {
				c.T = choice([]leaf{{and(e.cond, True), c.ph}, {not(e.cond), c.T}})
			}
			run.ls = run.ls.clone()
			run.ls.trace = mergeLists([]leaf{{not(e.cond), run.ls.trace}})
			run.ls.obs = mergeLists([]leaf{{not(e.cond), run.ls.obs}})
			lc = or(lc, e.cond)
			continue
		}
		rest = append(rest, e)
	}
	exits = rest
	// a value carried to the next iteration matters only where there is one
	for _, c := range solveSet {
		c.T = assumeLite(c.T, lc)
		debugf("loop %s: T=%s lc=%s", dom, c.T, showB(lc, 0))
	}
	if len(exits) == 0 && lc == True && next == nil {
		fr.groups(lp, solveSet, bind, s0, run, dom, v, counter, comps)
	}
	sub := fr.solve(solveSet, dom, v)
	// exits
	E := False
	conds := make([]B, len(exits))
	for i, e := range exits {
		conds[i] = substB(e.cond, sub)
		E = or(E, conds[i])
	}
	prior := func(seg *Node, D *Node) []*Node { // segments over a domain
		var out []*Node
		l := subst(freeze(seg, run.ls, run.mark), sub)
		u := freshVar("u", v.typ, D)
		out = append(out, mkForAll(u, D, segs(subst1(l, v, u)))...)
		return out
	}
	// obligations of all reached iterations
	var obl []leaf
	if lc != False {
		obl = append(obl, leaf{lc, run.ls.obs})
	}
	for _, e := range exits {
		obl = append(obl, leaf{e.cond, e.st.obs})
	}
	itObs := subst(freezeIn(mergeLists(obl), run), sub)
	reach := True
	if E != False {
		u := freshVar("u", v.typ, mkPrefix(dom, v))
		reach = not(mkExists(u, mkPrefix(dom, v), subst1B(E, v, u)))
	}
	obs := append([]*Node{}, segs(s0.obs)...)
	{
		u := freshVar("u", v.typ, dom)
		for _, s := range segs(itObs) {
			s = guardSeg(reach, s)
			if segGuard(s) == False {
				continue
			}
			obs = append(obs, mkFor(u, dom, subst1(s, v, u))...)
		}
	}
	obsL := mkList(obs, nil)

	var outs []*Edge
	Ex := False
	if E != False {
		u := freshVar("u", v.typ, dom)
		Ex = mkExists(u, dom, subst1B(E, v, u))
		uf := freshVar("u", v.typ, dom)
		vs := mkFirst(uf, dom, subst1B(E, v, uf), v.typ)
		at := placeOf(v, vs, dom)
		for ph, s := range sub {
			at[ph] = subst(s, placeOf(v, vs, dom))
		}
		su := newSubst(at)
		trace := append(append([]*Node{}, segs(s0.trace)...), prior(run.ls.trace, mkPrefix(dom, vs))...)
		taken := False
		for i, e := range exits {
			ec := Ex
			if len(exits) > 1 {
				// some exit is taken: the last one is taken when no other is
				if i < len(exits)-1 {
					ec = and(Ex, subst1B(conds[i], v, vs))
					taken = or(taken, ec)
				} else {
					ec = and(Ex, not(taken))
				}
			}
			st := &State{cells: map[*Node]*Node{}}
			for k, x := range e.st.cells {
				st.cells[k] = su.node(assumeLite(x, e.cond))
			}
			tr := append(append([]*Node{}, trace...), segs(su.node(e.st.trace))...)
			st.trace, st.obs = mkList(tr, nil), obsL
			ne := &Edge{kind: e.kind, from: e.from, to: e.to, cond: and(c0, ec), st: st, pos: e.pos}
			for _, r := range e.ret {
				ne.ret = append(ne.ret, su.node(assumeLite(r, e.cond)))
			}
			if e.code != nil {
				ne.code = su.node(e.code)
			}
			ne.over = map[ssa.Value]*Node{}
			for k, x := range e.over {
				ne.over[k] = su.node(assumeLite(x, e.cond))
			}
			outs = append(outs, ne)
		}
	}
	if not(Ex) == False {
		return outs
	}
	// running out of elements
	b2 := map[*comp]*Node{}
	for _, c := range comps {
		switch {
		case c == counter:
			b2[c] = cEnd
		case c.inv:
			b2[c] = c.init
		default:
			b2[c] = c.fin(dom)
		}
	}
	if next != nil {
		nt := next.Type().(*types.Tuple)
		fr.nexts[next] = intern(OTuple, "", []*Node{boolNode(False), zeroT(nt.At(1).Type()), zeroT(nt.At(2).Type())}, nil, nil)
	}
	trace := append(append([]*Node{}, segs(s0.trace)...), prior(run.ls.trace, dom)...)
	fin := fr.runBody(lp, comps, b2, s0, mkList(trace, nil), obsL)
	for _, e := range fin.exits {
		e.cond = and(c0, not(Ex), e.cond)
		outs = append(outs, e)
	}
	return outs
}

func zeroT(t types.Type) *Node {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nilNode
	}
	return zero(t)
}

func freezeIn(n *Node, run *loopRun) *Node {
	if !n.hasRef {
		return n
	}
	if run.ls == nil {
		return n
	}
	// obligations mention references only for display; keep what can be resolved
	return subst(n, freezeMap(run.ls, run.mark, []*Node{n}, nil))
}

// normalTargets: blocks reached when the loop runs out of elements.
func (fr *Frame) normalTargets(lp *loopInfo, next *ssa.Next) map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]bool{}
	for _, s := range lp.header.Succs {
		if !lp.blocks[s] {
			m[s] = true
		}
	}
	return m
}

func (fr *Frame) stutters(e *Edge, lp *loopInfo, comps []*comp, s0 *State, v *Node, normal map[*ssa.BasicBlock]bool) bool {
	if e.kind != eJump || hasB(e.cond, v) || len(e.st.trace.args) > 0 {
		return false
	}
	to := e.to
	// skip empty forwarding blocks
	if !normal[to] {
		return false
	}
	if e.from != nil {
		// phis of the target must read start-of-iteration values
		for _, in := range to.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			var here, hdr *Node
			for i, pr := range to.Preds {
				if pr == e.from {
					here = fr.edgeVal(e, p.Edges[i])
				}
				if pr == lp.header {
					hdr = fr.edgeVal(e, p.Edges[i])
				}
			}
			if here == nil || hdr == nil || here != hdr || here.has(v) {
				return false
			}
		}
	}
	for _, c := range comps {
		if c.cell != nil {
			cur, ok := e.st.cells[c.cell]
			if !ok || atPath(cur, c.path) != c.ph {
				return false
			}
		}
	}
	return true
}

// solve finds a closed form for each changed value; it returns the values at
// the start of the iteration for element v.
func (fr *Frame) solve(comps []*comp, dom, v *Node) map[*Node]*Node {
	sub := map[*Node]*Node{}
	pre := mkPrefix(dom, v)
	left := append([]*comp{}, comps...)
	for len(left) > 0 {
		var next []*comp
		progress := false
		for _, c := range left {
			T := subst(c.T, sub)
			dep := false
			for _, o := range left {
				if o != c && T.has(o.ph) && c.fin == nil {
					dep = true
				}
			}
			if dep {
				next = append(next, c)
				continue
			}
			if c.fin == nil {
				c.fin = solveOne(c, T, dom, v)
			}
			if c.fin == nil {
				o := opaque("recurrence:" + fr.fn.Name())
				debugf("unsolved recurrence in %s: %s (init %s) over %s\n", fr.fn, T, c.init, dom)
				o.typ = c.typ
				c.fin = func(*Node) *Node { return o }
				sub[c.ph] = o
			} else {
				sub[c.ph] = c.fin(pre)
			}
			progress = true
		}
		if !progress {
			for _, c := range next {
				o := opaque("mutual recurrence:" + fr.fn.Name())
				debugf("mutual recurrence in %s: %s\n", fr.fn, c.T)
				o.typ = c.typ
				c.fin = func(*Node) *Node { return o }
				sub[c.ph] = o
			}
			break
		}
		left = next
	}
	return sub
}

func solveOne(c *comp, T, dom, v *Node) func(D *Node) *Node {
	ph := c.ph
	init := c.init
	if T == ph {
		return func(*Node) *Node { return init }
	}
	over := func(D *Node) *Node { return freshVar("u", v.typ, D) }
	reB := func(x B, u *Node) B { return subst1B(x, v, u) }
	// previous element (shifted values) are last writes
	if isBoolType(c.typ) || isBoolNode(init) && isBoolNode(T) {
		return solveBool(cond(T), bm.atomVar(ph), cond(init), v)
	}
	if isSliceType(c.typ) || T.op == OList {
		if f := solveList(c, T, dom, v); f != nil {
			return f
		}
	}
	if isMapType(c.typ) || T.op == OMap || c.init.op == OMap {
		if f := solveMap(c, T, dom, v); f != nil {
			return f
		}
	}
	if isIntType(c.typ) || isIntNode(init) {
		if f := solveSum(c, T, v); f != nil {
			return f
		}
	}
	if f := solveStates(c, T, v); f != nil {
		return f
	}
	if isStringType(c.typ) {
		if f := solveConcat(c, T, v); f != nil {
			return f
		}
	}
	// last write
	{
		g := False
		var ws []leaf
		ok := true
		for _, l := range leaves(T) {
			if l.v == ph {
				continue
			}
			if l.v.has(ph) || hasB(l.g, ph) {
				ok = false
				break
			}
			g = or(g, l.g)
			ws = append(ws, l)
		}
		if ok && len(ws) > 0 {
			for i := range ws {
				ws[i].g = minimize(ws[i].g, g)
			}
			w := choice(ws)
			return func(D *Node) *Node {
				u := over(D)
				gu := reB(g, u)
				ex := mkExists(u, D, gu)
				u2 := over(D)
				z := mkLast(u2, D, reB(g, u2), v.typ)
				return ifte(ex, subst(w, placeOf(v, z, D)), init)
			}
		}
	}
	// first write: the value is only replaced while it is nil
	if init.op == ONil {
		nb := nilB(ph)
		if a, _, ok := literal(nb); ok {
			g := False
			var ws []leaf
			good := true
			for _, l := range leaves(T) {
				if l.v == ph {
					continue
				}
				gg := restrictAtom(l.g, a, true)
				if l.v.has(ph) || hasB(gg, ph) || restrictAtom(l.g, a, false) != False {
					good = false
					break
				}
				gg = and(gg, not(nilB(l.v))) // replacing nil by nil is nothing
				g = or(g, gg)
				ws = append(ws, leaf{gg, l.v})
			}
			if good && len(ws) > 0 {
				for i := range ws {
					ws[i].g = minimize(ws[i].g, g)
				}
				w := choice(ws)
				return func(D *Node) *Node {
					u := over(D)
					ex := mkExists(u, D, reB(g, u))
					u2 := over(D)
					z := mkFirst(u2, D, reB(g, u2), v.typ)
					return ifte(ex, subst(w, placeOf(v, z, D)), nilNode)
				}
			}
		}
	}
	// T may depend on ph through its nil-ness or a flag: fall back
	return nil
}

// placeOf: v becomes the element z of the list D. Within a computed list, z is
// a term that does not name a place any more: its position is kept with the list.
func placeOf(v, z, D *Node) map[*Node]*Node {
	m := map[*Node]*Node{v: z}
	if D.op == OList && z.op != OVar {
		at := mkIdx(v)
		m[at] = lift(z, func(x *Node) *Node {
			if x.op == ONil {
				return mkIdx(x)
			}
			return intern(OCall, "idxin", []*Node{x, D}, nil, types.Typ[types.Int])
		})
	}
	return m
}

func solveBool(T, phb, init B, v *Node) func(D *Node) *Node {
	a, _, _ := literal(phb)
	hi, lo := restrictAtom(T, a, true), restrictAtom(T, a, false)
	if hasB(hi, a) || hasB(lo, a) {
		return nil
	}
	set, clr := and(lo, hi), and(not(lo), not(hi))
	if and(lo, not(hi)) != False {
		return nil // toggles
	}
	over := func(D *Node) *Node { return freshVar("u", v.typ, D) }
	return func(D *Node) *Node {
		u := over(D)
		switch {
		case clr == False:
			return boolNode(or(init, mkExists(u, D, subst1B(lo, v, u))))
		case set == False:
			return boolNode(and(init, not(mkExists(u, D, subst1B(not(hi), v, u)))))
		}
		g := subst1B(or(set, clr), v, u)
		ex := mkExists(u, D, g)
		u2 := over(D)
		z := mkLast(u2, D, subst1B(or(set, clr), v, u2), v.typ)
		return boolNode(or(and(not(ex), init), and(ex, subst1B(minimize(set, or(set, clr)), v, z))))
	}
}

// solveFill: the list is filled or changed element by element, at the place of
// the element visited.
func solveFill(c *comp, T, dom, v *Node) (f func(D *Node) *Node, is bool) {
	ph := c.ph
	ls := leaves(T)
	for _, l := range ls {
		if l.v.op == OCall && l.v.sym == "setidx" && l.v.args[0] == ph {
			is = true
		}
	}
	if !is {
		return nil, false
	}
	var old *Node // the element before it is visited
	switch {
	case c.init == dom:
		old = v
	case c.init.op == OCall && c.init.sym == "zeros" && c.init.args[0] == mkLen(dom):
		old = zeroT(elemType(c.typ))
	default:
		return nil, true
	}
	at := mkIdx(v)
	m := map[*Node]*Node{mkIndex(ph, at, elemType(c.typ)): old}
	var out []leaf
	for _, l := range ls {
		x := leaf{substB(l.g, m), old}
		if l.v != ph {
			if l.v.op != OCall || l.v.sym != "setidx" || l.v.args[0] != ph || l.v.args[1] != at {
				return nil, true
			}
			x.v = subst(l.v.args[2], m)
		}
		if x.v.has(ph) || hasB(x.g, ph) {
			return nil, true
		}
		out = append(out, x)
	}
	item := choice(out)
	return func(D *Node) *Node {
		if D != dom {
			return partial(c.init)
		}
		u := freshVar("u", v.typ, D)
		return mkList(mkFor(u, D, emit(True, subst1(item, v, u))), c.typ)
	}, true
}

// solveList: the list is extended at its end.
func solveList(c *comp, T, dom, v *Node) func(D *Node) *Node {
	ph := c.ph
	if f, is := solveFill(c, T, dom, v); is {
		return f
	}
	ss := segs(T)
	id := segs(ph)
	if len(ss) == 0 || ss[0] != id[0] {
		// rebuilt from scratch in every iteration
		return nil
	}
	add := append([]*Node{}, ss[1:]...)
	// occurrences of the list itself in what is added: membership tests only
	self := false
	for _, s := range add {
		if s.has(ph) {
			self = true
		}
	}
	init := c.init
	if !self {
		return func(D *Node) *Node {
			u := freshVar("u", v.typ, D)
			out := append([]*Node{}, segs(init)...)
			body := &Node{op: OList, args: nil}
			for _, s := range add {
				body.args = append(body.args, subst1(s, v, u))
			}
			return mkList(append(out, mkForAll(u, D, body.args)...), c.typ)
		}
	}
	if len(add) != 1 || add[0].op != OEmit {
		return nil
	}
	item, g := add[0].args[0], add[0].conds[0]
	if item.has(ph) {
		return nil
	}
	// guards that test membership of an equal item
	var own []*Node
	base := g
	for _, a := range supportAtoms(g) {
		if !a.has(ph) {
			continue
		}
		if a.op != OExists || a.args[0] != ph {
			return nil
		}
		e, o := open(a)
		if o.conds[0] == True || hasB(o.conds[0], ph) {
			return nil
		}
		if subst1B(o.conds[0], e, item) != True {
			return nil
		}
		if l, p, ok := literal(o.conds[0]); !ok || !p || l.op != OEq {
			return nil
		}
		own = append(own, a)
		base = restrictAtom(base, a, false)
		if restrictAtom(g, a, true) != False {
			return nil
		}
	}
	return func(D *Node) *Node {
		u := freshVar("u", v.typ, D)
		gu := subst1B(base, v, u)
		pre := mkPrefix(prefixBase(D), u)
		for _, a := range own {
			e, o := open(a)
			p := subst1B(o.conds[0], v, u)
			w := freshVar("w", v.typ, pre)
			gu = and(gu, not(existsOver(init, e, p)), not(mkExists(w, pre, and(subst1B(base, v, w), subst1B(p, e, subst1(item, v, w))))))
		}
		out := append([]*Node{}, segs(init)...)
		return mkList(append(out, mkFor(u, D, emit(gu, subst1(item, v, u)))...), c.typ)
	}
}

func existsOver(l, e *Node, p B) B {
	w := freshVar("w", e.typ, l)
	return mkExists(w, l, subst1B(p, e, w))
}

// prefixBase: the list whose prefix is meant inside a partial domain.
func prefixBase(D *Node) *Node {
	if D.op == OPrefix {
		return D.args[0]
	}
	return D
}

func mkForAll(u, D *Node, ss []*Node) []*Node {
	if len(ss) == 0 {
		return nil
	}
	return mkFor(u, D, bodyOf(ss))
}

// solveMap: entries are written, one after the other.
func solveMap(c *comp, T, dom, v *Node) func(D *Node) *Node {
	ph := c.ph
	for _, l := range leaves(T) {
		if l.v != ph && l.v.op != OMap {
			return nil
		}
	}
	ss := mapSegs(T)
	id := mapSegs(ph)
	if len(ss) == 0 || ss[0] != id[0] {
		return nil
	}
	add := append([]*Node{}, ss[1:]...)
	init := c.init
	if init.op == ORef {
		return nil
	}
	// m[k] = append(m[k], ...)
	for i, s := range add {
		add[i] = normPut(s, ph, add[:i])
	}
	kept := add[:0:0]
	for _, s := range add {
		if s != nil {
			kept = append(kept, s)
		}
	}
	add = kept
	self := false
	for _, s := range add {
		if s.has(ph) {
			self = true
		}
	}
	build := func(D *Node, f func(s, u *Node) *Node) *Node {
		u := freshVar("u", v.typ, D)
		out := append([]*Node{}, mapSegs(init)...)
		var body []*Node
		for _, s := range add {
			body = append(body, f(subst1(s, v, u), u))
		}
		return mkMap(append(out, mkForAll(u, D, body)...), c.typ)
	}
	if !self {
		return func(D *Node) *Node { return build(D, func(s, u *Node) *Node { return s }) }
	}
	// writes that happen only while the key is absent
	if len(add) != 1 || add[0].op != OEmit || add[0].args[0].has(ph) || add[0].args[0].op != OTuple {
		return nil
	}
	g, kv := add[0].conds[0], add[0].args[0]
	key, val := kv.args[0], kv.args[1]
	constVal := val.op == OBool && val.conds[0] == True || val.op == OStruct && len(val.args) == 0 || val.isConst()
	if init.op == OMap && len(init.args) == 0 && nilB(val) == False {
		// what is stored is never nil: a nil entry is a missing one
		for _, a := range supportAtoms(g) {
			if a.op != ONilP || !isCall(a.args[0], "mapget") || a.args[0].args[0] != ph || a.args[0].args[1] != key {
				continue
			}
			ok := cond(mkCall("mapok", []*Node{ph, key}, types.Typ[types.Bool], nil))
			g = or(and(ok, restrictAtom(g, a, false)), and(not(ok), restrictAtom(g, a, true)))
		}
	}
	base := g
	for _, a := range supportAtoms(g) {
		if !a.has(ph) {
			continue
		}
		if a.op == OCall && (a.sym == "mapok" || a.sym == "mapget" && constVal) && a.args[0] == ph && a.args[1] == key {
			if restrictAtom(base, a, true) != False && !constVal {
				return nil
			}
			base = restrictAtom(base, a, false)
			continue
		}
		return nil
	}
	if constVal {
		add[0] = emit(base, kv)
		return func(D *Node) *Node { return build(D, func(s, u *Node) *Node { return s }) }
	}
	return func(D *Node) *Node {
		return build(D, func(s, u *Node) *Node {
			pre := mkPrefix(prefixBase(D), u)
			w := freshVar("w", v.typ, pre)
			ku := subst1(key, v, u)
			seen := mkExists(w, pre, and(subst1B(base, v, w), eqB(subst1(key, v, w), ku)))
			_, inInit := lookup(init, ku, nilNode)
			return emit(and(subst1B(base, v, u), not(seen), not(inInit)), s.args[0])
		})
	}
}

// normPut rewrites m[k] = append(m[k], items) to an appending entry, and drops
// the creation of an empty group.
func normPut(s, ph *Node, before []*Node) *Node {
	if s.op != OEmit || s.args[0].op != OTuple || s.args[0].sym != "kv" {
		return s
	}
	k, val := s.args[0].args[0], s.args[0].args[1]
	if val == emptyList || val.op == ONil {
		// only when the key is absent
		for _, a := range supportAtoms(s.conds[0]) {
			if a.op == OCall && a.sym == "mapok" && a.args[0] == ph && a.args[1] == k && restrictAtom(s.conds[0], a, true) == False {
				g := restrictAtom(s.conds[0], a, false)
				return emit(g, intern(OTuple, "kvapp", []*Node{k, emptyList}, nil, nil))
			}
		}
		return s
	}
	if val.op == OList && len(val.args) > 0 {
		get := mkCall("mapget", []*Node{ph, k}, elemType(ph.typ), nil)
		id := segs(get)
		okB := cond(mkCall("mapok", []*Node{ph, k}, types.Typ[types.Bool], nil))
		if len(id) == 1 && (val.args[0] == id[0] || val.args[0] == guardSeg(okB, id[0])) {
			rest := mkList(val.args[1:], val.typ)
			if !rest.has(ph) {
				return emit(s.conds[0], intern(OTuple, "kvapp", []*Node{k, rest}, nil, nil))
			}
		}
	}
	return s
}

func solveSum(c *comp, T, v *Node) func(D *Node) *Node {
	ph := c.ph
	type add struct {
		g B
		t *Node
	}
	var adds []add
	for _, l := range leaves(T) {
		if hasB(l.g, ph) {
			return nil
		}
		t := minusPh(l.v, ph)
		if t == nil {
			return nil
		}
		adds = append(adds, add{l.g, t})
	}
	return func(D *Node) *Node {
		r := c.init
		for _, a := range adds {
			if k, ok := a.t.intVal(); ok && k == 0 {
				continue
			}
			u := freshVar("u", v.typ, D)
			r = mkAdd(r, mkSum(u, D, subst1B(a.g, v, u), subst1(a.t, v, u)))
		}
		return r
	}
}

// minusPh: n - ph when n is a sum containing ph exactly once.
func minusPh(n, ph *Node) *Node {
	if n == ph {
		return constInt(0)
	}
	if n.op != OAdd {
		return nil
	}
	for i := 0; i < 2; i++ {
		if n.args[i].has(ph) {
			if n.args[1-i].has(ph) {
				return nil
			}
			r := minusPh(n.args[i], ph)
			if r == nil {
				return nil
			}
			return mkAdd(r, n.args[1-i])
		}
	}
	return nil
}

// solveStates: a value that only ever takes two constants.
func solveStates(c *comp, T, v *Node) func(D *Node) *Node {
	if !c.init.isConst() && c.init.op != OFunc && c.init.op != ONil {
		return nil
	}
	states := []*Node{c.init}
	for i := 0; i < len(states); i++ {
		for _, l := range leaves(subst1(T, c.ph, states[i])) {
			if !l.v.isConst() && l.v.op != OFunc && l.v.op != ONil {
				return nil
			}
			dup := false
			for _, s := range states {
				if s == l.v {
					dup = true
				}
			}
			if !dup {
				states = append(states, l.v)
			}
			if len(states) > 2 {
				return nil
			}
		}
	}
	if len(states) != 2 {
		return func(*Node) *Node { return c.init }
	}
	a, b := states[0], states[1]
	is := func(n *Node) B {
		r := False
		for _, l := range leaves(n) {
			if l.v == b {
				r = or(r, l.g)
			}
		}
		return r
	}
	lo, hi := is(subst1(T, c.ph, a)), is(subst1(T, c.ph, b))
	p := freshVar("st", types.Typ[types.Bool], nil)
	pb := bm.atomVar(p)
	f := solveBool(bm.ite(pb, hi, lo), pb, False, v)
	if f == nil {
		return nil
	}
	return func(D *Node) *Node { return ifte(cond(f(D)), b, a) }
}

// solveConcat: text is appended.
func solveConcat(c *comp, T, v *Node) func(D *Node) *Node {
	ph := c.ph
	var ss []*Node
	for _, l := range leaves(T) {
		if hasB(l.g, ph) {
			return nil
		}
		if l.v == ph {
			continue
		}
		if l.v.op != OConcat || l.v.args[0] != ph {
			return nil
		}
		for _, p := range l.v.args[1:] {
			if p.has(ph) {
				return nil
			}
		}
		ss = append(ss, emit(l.g, mkConcat(l.v.args[1:])))
	}
	return func(D *Node) *Node {
		u := freshVar("u", v.typ, D)
		var body []*Node
		for _, s := range ss {
			body = append(body, subst1(s, v, u))
		}
		l := mkList(mkForAll(u, D, body), types.NewSlice(types.Typ[types.String]))
		return mkConcat([]*Node{c.init, mkCall("concatall", []*Node{l}, types.Typ[types.String], nil)})
	}
}

// ---- loops without a bound

// streamLoop: a loop that reads tokens until the end of the document.
func (fr *Frame) streamLoop(lp *loopInfo, comps []*comp, bind map[*comp]*Node, c0 B, s0 *State, run *loopRun) ([]*Edge, bool) {
	var ctr *comp
	for _, c := range comps {
		if c.cell != nil && len(c.path) == 1 && !c.inv {
			cur := s0.cells[c.cell]
			if cur != nil && cur.op == OStruct && cur.sym == "lexstate" && run.lvals[c] == mkAdd(c.ph, constInt(1)) {
				ctr = c
			}
		}
	}
	if ctr == nil {
		return nil, false
	}
	k0, ok := ctr.init.intVal()
	if !ok {
		return nil, false
	}
	src := s0.cells[ctr.cell].args[0]
	tokT := lexTokenType
	tokAt := func(p *Node) *Node { return mkCall("tok", []*Node{src, p}, tokT, nil) }
	// values that only lag behind the reader: latch value is a function of the position
	pos := freshVar("n", types.Typ[types.Int], nil) // position at the start of the iteration
	b := map[*comp]*Node{}
	for k, x := range bind {
		b[k] = x
	}
	b[ctr] = pos
	lag := map[*comp]bool{}
	changedLag := true
	var r *loopRun
	for changedLag {
		changedLag = false
		r = fr.runBody(lp, comps, b, s0, emptyList, emptyList)
		if r.lc == False {
			return nil, false
		}
		for _, c := range comps {
			if c == ctr || c.inv || lag[c] {
				continue
			}
			T := r.lvals[c]
			if mentions(T, comps) || !T.has(pos) {
				continue
			}
			if subst1(T, pos, constInt(k0-1)) == c.init {
				lag[c] = true
				b[c] = subst1(T, pos, mkAdd(pos, constInt(-1)))
				changedLag = true
			}
		}
	}
	// exits: all must be "the token just looked at is the end of the document"
	if len(r.exits) == 0 {
		return nil, false
	}
	E := False
	for _, e := range r.exits {
		if e.kind == eTerm {
			return nil, false
		}
		E = or(E, e.cond)
	}
	kindOf := func(t *Node) *Node { return mkField(t, "Kind", nil) }
	a := int64(-1)
	for d := int64(-1); d <= 1; d++ {
		if E == eqB(kindOf(tokAt(mkAdd(pos, constInt(d)))), lexEOF()) {
			a = d
			break
		}
		if d == 1 {
			return nil, false
		}
	}
	// the element processed in an iteration is the token read one before or at pos
	// index base: with the reader at k0 when the loop starts
	tokens := mkCall("tokens", []*Node{src}, types.NewSlice(tokT), nil)
	v := freshVar("t", tokT, tokens)
	var rest []*comp
	for _, c := range comps {
		if c != ctr && !c.inv && !lag[c] {
			c.T = r.lvals[c]
			rest = append(rest, c)
		}
	}
	// which token do the updates look at?
	off := int64(99)
	bad := false
	look := func(n *Node) {
		collectNodes([]*Node{n}, func(x *Node) {
			if x.op == OCall && x.sym == "tok" && x.has(pos) {
				base, d := linear(x.args[1])
				if base != pos || (off != 99 && off != d) {
					bad = true
				}
				off = d
			}
		})
	}
	for _, c := range rest {
		look(c.T)
	}
	look(r.ls.trace)
	if bad {
		debugf("token loop looks at several tokens in %s\n", fr.fn)
		return nil, false
	}
	if off == 99 {
		off = a
	}
	first := k0 + off // index of the first token processed
	if first != 0 {
		debugf("token loop starts at token %d\n", first)
		// the first tokens are skipped
		if first < 0 {
			return nil, false
		}
		tokens = mkSlice(tokens, constInt(first), nilNode, tokens.typ)
		v = freshVar("t", tokT, tokens)
	}
	toV := map[*Node]*Node{tokAt(mkAdd(pos, constInt(off))): v}
	eofFacts := func(n *Node) *Node { return subst(n, toV) }
	isEOF := eqB(kindOf(v), lexEOF())
	for _, c := range rest {
		c.T = eofFacts(c.T)
		if c.T.has(pos) {
			return nil, false
		}
	}
	tr := eofFacts(freeze(r.ls.trace, r.ls, r.mark))
	if tr.has(pos) {
		return nil, false
	}
	atEOF := func(n *Node) *Node { return assumeNode(n, isEOF) }
	notEOF := func(n *Node) *Node { return assumeNode(n, not(isEOF)) }
	switch a - off {
	case 0:
		// tests the token, then processes it; leaving happens before any update
		for _, e := range r.exits {
			for _, c := range rest {
				if c.cell != nil && atPath(e.st.cells[c.cell], c.path) != c.ph {
					return nil, false
				}
			}
			if len(e.st.trace.args) > 0 {
				return nil, false
			}
		}
	case 1:
		// processes the token, then reads the next one and tests that
		for _, e := range r.exits {
			for _, c := range rest {
				var x *Node
				if c.cell != nil {
					x = eofFacts(freeze(atPath(e.st.cells[c.cell], c.path), e.st, r.mark))
				} else {
					x = c.T // a phi: the value the loop would continue with (checked by over below)
					for i, p := range lp.header.Preds {
						if lp.blocks[p] {
							lv := c.phi.Edges[i]
							if n, ok := r.snap[lv]; ok {
								x = eofFacts(freeze(n, e.st, r.mark))
							}
						}
					}
				}
				if x != c.T && atEOF(x) != atEOF(c.T) {
					debugf("token loop: exit differs from latch: %s / %s\n", x, c.T)
					return nil, false
				}
			}
		}
		// if the document has no token at all its end is processed: must do nothing
		for _, c := range rest {
			if atEOF(c.T) != c.ph {
				debugf("token loop: end of document is not neutral: %s\n", atEOF(c.T))
				return nil, false
			}
		}
		if len(segs(atEOF(tr))) > 0 {
			return nil, false
		}
	default:
		debugf("token loop: tests token %d, processes %d\n", a, off)
		return nil, false
	}
	for _, c := range rest {
		c.T = notEOF(c.T)
	}
	fr.solve(rest, tokens, v)
	// after the loop
	end := map[*Node]*Node{}
	for _, c := range rest {
		end[c.ph] = c.fin(tokens)
	}
	var outs []*Edge
	var tsegs []*Node
	tsegs = append(tsegs, segs(s0.trace)...)
	{
		u := freshVar("u", tokT, tokens)
		tsegs = append(tsegs, mkForAll(u, tokens, segs(subst1(notEOF(tr), v, u)))...)
	}
	ob := append([]*Node{}, segs(s0.obs)...)
	{
		var ol []leaf
		ol = append(ol, leaf{r.lc, r.ls.obs})
		for _, e := range r.exits {
			ol = append(ol, leaf{e.cond, e.st.obs})
		}
		l := eofFacts(freezeIn(mergeLists(ol), r))
		l = subst(l, end)
		u := freshVar("u", tokT, tokens)
		for _, s := range segs(l) {
			ob = append(ob, mkFor(u, tokens, subst1(s, v, u))...)
		}
	}
	for _, e := range r.exits {
		st := &State{cells: map[*Node]*Node{}, trace: mkList(tsegs, nil), obs: mkList(ob, nil)}
		for k, x := range e.st.cells {
			st.cells[k] = x
		}
		for _, c := range rest {
			if c.cell != nil {
				st.cells[c.cell] = replacePath(st.cells[c.cell], c.path, end[c.ph])
			}
		}
		for k, x := range st.cells {
			if x.has(pos) || mentions(x, comps) {
				y := subst(x, end)
				if y.has(pos) {
					y = subst1(y, pos, opaque("stream position"))
				}
				st.cells[k] = y
			}
		}
		ne := &Edge{kind: e.kind, from: e.from, to: e.to, cond: and(c0, minimize(e.cond, E)), st: st, pos: e.pos, over: map[ssa.Value]*Node{}}
		fixv := func(x *Node) *Node {
			x = eofFacts(x)
			// the value the loop ends with
			for _, c := range rest {
				if x == c.T || x == c.ph || notEOF(x) == c.T {
					return end[c.ph]
				}
			}
			y := subst(x, end)
			if y.has(pos) || y.has(v) {
				return opaque("value left by a token loop")
			}
			return y
		}
		for k, x := range e.over {
			ne.over[k] = fixv(x)
		}
		for _, x := range e.ret {
			ne.ret = append(ne.ret, fixv(x))
		}
		outs = append(outs, ne)
	}
	return outs, true
}

// assumeLite simplifies a boolean or a selected value under an assumption.
func assumeLite(n *Node, g B) *Node {
	if g == True || g == False {
		return n
	}
	switch n.op {
	case OBool:
		if and(g, n.conds[0]) == False {
			return boolNode(False)
		}
		return boolNode(minimize(n.conds[0], g))
	case OChoice:
		var ls []leaf
		for i, a := range n.args {
			if and(g, n.conds[i]) == False {
				continue
			}
			ls = append(ls, leaf{minimize(n.conds[i], g), assumeLite(a, and(g, n.conds[i]))})
		}
		if len(ls) == 1 {
			return ls[0].v
		}
		// the guards must stay exclusive and complete
		for i := range ls {
			if i < len(ls)-1 {
				ls[i].g = and(ls[i].g, not(orLeaves(ls[:i])))
			} else {
				ls[i].g = not(orLeaves(ls[:i]))
			}
		}
		return choice(ls)
	}
	return n
}

func orLeaves(ls []leaf) B {
	r := False
	for _, l := range ls {
		r = or(r, l.g)
	}
	return r
}

// assumeNode simplifies a value under an assumption.
func assumeNode(n *Node, g B) *Node {
	switch n.op {
	case OChoice:
		var ls []leaf
		for i, a := range n.args {
			if and(g, n.conds[i]) == False || refute(and(g, n.conds[i])) {
				continue
			}
			ls = append(ls, leaf{minimize(n.conds[i], g), assumeNode(a, g)})
		}
		return choice(ls)
	case OList, OMap:
		var out []*Node
		for _, s := range n.args {
			gs := segGuard(s)
			if and(g, gs) == False || (s.op == OEmit && refute(and(g, gs))) {
				continue
			}
			if s.op == OEmit {
				out = append(out, emit(minimize(gs, g), assumeNode(s.args[0], g)))
			} else {
				out = append(out, s)
			}
		}
		if n.op == OMap {
			return mkMap(out, n.typ)
		}
		return mkList(out, n.typ)
	case OBool:
		return boolNode(minimize(n.conds[0], g))
	}
	return n
}

// consumeLoop: for len(rest) > 0 { x := rest[0]; rest = rest[1:] ... }
func (fr *Frame) consumeLoop(lp *loopInfo, comps []*comp, bind map[*comp]*Node, c0 B, s0 *State, run *loopRun) ([]*Edge, bool) {
	for _, c := range comps {
		if c.inv || !isSliceType(c.typ) {
			continue
		}
		T := run.lvals[c]
		if T.op != OSlice || T.args[0] != c.ph || T.args[1] != constInt(1) || T.args[2].op != ONil {
			continue
		}
		// the loop must test emptiness in its header
		iff, ok := lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		k := cond(fr.vals[iff.Cond])
		if !lp.blocks[lp.header.Succs[0]] {
			k = not(k)
		}
		if k != nonEmpty(c.ph) {
			continue
		}
		dom := c.init
		v := freshVar("x", elemType(c.typ), dom)
		// the remaining list: element v first
		remTail := opaque("remaining elements")
		remTail.typ = c.typ
		rem := mkList(append([]*Node{emit(True, v)}, segs(remTail)...), c.typ)
		b := map[*comp]*Node{}
		for x, n := range bind {
			b[x] = n
		}
		b[c] = rem
		r := fr.runBody(lp, comps, b, s0, emptyList, emptyList)
		dep := false
		for _, x := range comps {
			if x != c && !x.inv && mentionsNode(r.lvals[x], remTail) {
				dep = true
			}
		}
		if dep {
			continue
		}
		return fr.finish(lp, comps, b, c0, s0, r, dom, v, c, emptyList, nil), true
	}
	return nil, false
}

func mentionsNode(n, x *Node) bool {
	found := false
	collectNodes([]*Node{n}, func(y *Node) {
		if y == x {
			found = true
		}
	})
	return found
}

// unknownLoop gives up on the values but keeps the control structure.
func (fr *Frame) unknownLoop(lp *loopInfo, comps []*comp, bind map[*comp]*Node, c0 B, s0 *State, run *loopRun) []*Edge {
	if outs, ok := fr.walkLoop(lp, comps, c0, s0); ok {
		return outs
	}
	debugf("loop without a recognised bound in %s\n", fr.fn)
	b := map[*comp]*Node{}
	for _, c := range comps {
		if c.inv {
			b[c] = c.init
			continue
		}
		o := opaque("loop:" + fr.fn.Name())
		o.typ = c.typ
		b[c] = o
	}
	tr := s0.trace
	if len(run.ls.trace.args) > 0 {
		e := intern(OEvent, "unknown-loop", []*Node{opaque("loop")}, nil, nil)
		tr = mkList(append(append([]*Node{}, segs(tr)...), emit(True, e)), nil)
	}
	e := intern(OEvent, "unknown-loop@"+fr.fn.String(), nil, nil, nil)
	ob := mkList(append(append([]*Node{}, segs(s0.obs)...), emit(True, e)), nil)
	r := fr.runBody(lp, comps, b, s0, tr, ob)
	var outs []*Edge
	taken := False
	for i, x := range r.exits {
		c := x.cond
		if i == len(r.exits)-1 {
			c = not(taken)
		} else {
			c = and(bm.atomVar(opaque("exit:"+fr.fn.Name())), not(taken))
			taken = or(taken, c)
		}
		x.cond = and(c0, c)
		outs = append(outs, x)
	}
	return outs
}
