package main

import "go/types"

// Grouping: a loop that looks its element's group up by a key, creates the
// group when there is none, and adds the element to it:
//
//	for _, e := range L {
//		g, ok := byKey[key(e)]
//		if !ok { g = &T{...}; byKey[key(e)] = g; order = append(order, g) }
//		g.items = append(g.items, e.items...)
//	}
//
// The object of a group is the one made for its first element, with every
// field folded over the elements with that key.

// keyedLookup: the one question the loop asks the table ph, and its key.
func keyedLookup(ns []*Node, ph *Node) (atom, key *Node, field string) {
	seen := map[*Node]bool{}
	bad := false
	note := func(a, k *Node, f string) {
		if atom != nil && (a != nil && atom != a && field != "" || key != k || field != f) {
			bad = true
		}
		if a != nil {
			atom = a
		}
		key, field = k, f
	}
	elemKey := func(n *Node) (k *Node, f string) {
		w, o := open(n)
		a, pos, ok := literal(o.conds[0])
		if !ok || !pos || a.op != OEq {
			return nil, ""
		}
		for i := 0; i < 2; i++ {
			if x := a.args[i]; x.op == OField && x.args[0] == w && !a.args[1-i].has(w) {
				return a.args[1-i], x.sym
			}
		}
		return nil, ""
	}
	var visit func(n *Node)
	visit = func(n *Node) {
		if n == nil || seen[n] || bad || !n.has(ph) {
			return
		}
		seen[n] = true
		switch {
		case n.op == OCall && (n.sym == "mapok" || n.sym == "mapget") && n.args[0] == ph:
			note(n, n.args[1], "")
			visit(n.args[1])
			return
		case (n.op == OExists || n.op == OFirst) && n.args[0] == ph:
			k, f := elemKey(n)
			if k == nil {
				bad = true
				return
			}
			if n.op == OExists {
				note(n, k, f)
			} else {
				note(nil, k, f)
			}
			return
		}
		for _, a := range n.args {
			visit(a)
		}
		for _, c := range n.conds {
			for _, a := range supportAtoms(c) {
				visit(a)
			}
		}
	}
	for _, n := range ns {
		visit(n)
	}
	if bad {
		return nil, nil, ""
	}
	return
}

// groups solves the recurrences of a grouping loop.
func (fr *Frame) groups(lp *loopInfo, comps []*comp, bind map[*comp]*Node, s0 *State, run *loopRun, dom, v *Node, counter *comp, every []*comp) bool {
	for _, m := range comps {
		if m == counter || m.inv || m.T == m.ph || m.T == nil {
			continue
		}
		isMap := isMapType(m.typ)
		if !isMap && !isSliceType(m.typ) || !isPtrType(elemType(m.typ)) {
			continue
		}
		if fr.groupsIn(m, isMap, lp, comps, bind, s0, run, dom, v, counter, every) {
			return true
		}
	}
	return false
}

func (fr *Frame) groupsIn(m *comp, isMap bool, lp *loopInfo, comps []*comp, bind map[*comp]*Node, s0 *State, run *loopRun, dom, v *Node, counter *comp, every []*comp) bool {
	if isMap && !(m.init.op == OMap && len(m.init.args) == 0) || !isMap && m.init != nilNode && m.init != emptyList {
		return false
	}
	var others []*comp
	all := []*Node{m.T}
	for _, c := range comps {
		if c == m || c == counter || c.inv || c.T == c.ph {
			continue
		}
		others = append(others, c)
		all = append(all, c.T)
	}
	atom, key, field := keyedLookup(all, m.ph)
	if key == nil || !isMap && (atom == nil || atom.op != OExists) || mentions(key, comps) || isMap != (field == "") {
		return false
	}
	at := map[*Node]*Node{}
	if isMap {
		ok := mkCall("mapok", []*Node{m.ph, key}, types.Typ[types.Bool], nil)
		at[ok] = boolNode(True)
		// every group's object exists
		if a, pos, ok := literal(nilB(mkCall("mapget", []*Node{m.ph, key}, elemType(m.typ), nil))); ok {
			at[a] = boolNode(map[bool]B{true: False, false: True}[pos])
		}
	} else {
		at[atom] = boolNode(True)
	}
	no := map[*Node]*Node{}
	for a, b := range at {
		no[a] = boolNode(not(b.conds[0]))
	}
	when := func(n *Node, b B) *Node {
		if b == True {
			return newSubst(at).node(n)
		}
		return newSubst(no).node(n)
	}
	// the first element of a group
	T1 := when(m.T, False)
	var box *Node
	if isMap {
		ss := mapSegs(T1)
		if T1.op != OMap || len(ss) != 2 || ss[0] != mapSegs(m.ph)[0] || ss[1].op != OEmit || ss[1].conds[0] != True {
			return false
		}
		kv := ss[1].args[0]
		if kv.op != OTuple || kv.sym != "kv" || kv.args[0] != key {
			return false
		}
		box = kv.args[1]
	} else {
		ss := segs(T1)
		if T1.op != OList || len(ss) != 2 || ss[0] != segs(m.ph)[0] || ss[1].op != OEmit || ss[1].conds[0] != True {
			return false
		}
		box = ss[1].args[0]
	}
	if box.op != OBox || box.args[0].op != OStruct || mentions(box, comps) {
		return false
	}
	obj := box.args[0]
	st := derefStructType(obj.typ)
	if st == nil || st.NumFields() != len(obj.args) {
		return false
	}
	if when(m.T, True) != m.ph {
		return false
	}
	// a later element: the group's object has unknown contents
	R := newRef(elemType(m.typ), "group")
	phs := make([]*Node, st.NumFields())
	for i := range phs {
		phs[i] = freshVar("gf", st.Field(i).Type(), nil)
		if st.Field(i).Name() == field {
			if obj.args[i] != key {
				return false
			}
			phs[i] = key
		}
	}
	s2 := s0.clone()
	s2.cells[R] = structNode(obj.sym, phs, obj.typ)
	b2 := map[*comp]*Node{}
	for c, x := range bind {
		b2[c] = x
	}
	var tab *Node
	if isMap {
		tab = mkMap([]*Node{emit(True, intern(OTuple, "kv", []*Node{key, R}, nil, nil))}, m.typ)
	} else {
		tab = mkList([]*Node{emit(True, R)}, m.typ)
	}
	b2[m] = tab
	r2 := fr.runBody(lp, every, b2, s2, emptyList, emptyList)
	if r2.lc != True || len(r2.exits) > 0 || r2.lvals[m] != tab || len(r2.ls.trace.args) > 0 || len(run.ls.trace.args) > 0 {
		return false
	}
	after := r2.ls.cells[R]
	if after == nil || after.op != OStruct || len(after.args) != len(phs) {
		return false
	}
	// every field is folded over the elements of the group
	fold := make([]func(D, at *Node) *Node, len(phs))
	isPh := map[*Node]bool{}
	for _, p := range phs {
		if p != key {
			isPh[p] = true
		}
	}
	for i, p := range phs {
		val := obj.args[i]
		t2 := freeze(r2.ls.content2(after.args[i], r2.mark), r2.ls, r2.mark)
		if t2 == p {
			fold[i] = func(D, at *Node) *Node { return subst1(val, v, at) }
			continue
		}
		if p == key || mentions(t2, comps) || t2.hasRef {
			return false
		}
		for q := range isPh {
			if q != p && t2.has(q) {
				return false
			}
		}
		z := zero(st.Field(i).Type())
		if x := subst1(t2, p, z); x != val && mkList(segs(x), nil) != mkList(segs(val), nil) {
			return false
		}
		p, t := p, st.Field(i).Type()
		fold[i] = func(D, at *Node) *Node {
			x := freshVar("g", v.typ, dom)
			same := eqB(subst1(key, v, x), subst1(key, v, at))
			c := &comp{ph: p, init: z, typ: t, T: choice([]leaf{{same, subst1(t2, v, x)}, {not(same), p}})}
			f := solveOne(c, c.T, dom, x)
			if f == nil {
				return nil
			}
			return f(D)
		}
		if fold[i](dom, v) == nil {
			return false
		}
	}
	whole := func(D, at *Node) *Node {
		args := make([]*Node, len(fold))
		for i, f := range fold {
			args[i] = f(D, at)
		}
		return mkBox(structNode(obj.sym, args, obj.typ))
	}
	first := func(D, at *Node) B {
		pre := mkPrefix(prefixBase(D), at)
		w := freshVar("w", v.typ, pre)
		return not(mkExists(w, pre, eqB(subst1(key, v, w), subst1(key, v, at))))
	}
	// everything else that changes
	type later struct {
		c      *comp
		t1, t2 *Node
	}
	var ls []later
	for _, c := range others {
		t1, t2 := when(c.T, False), r2.lvals[c]
		for q := range isPh {
			if t2.has(q) {
				return false
			}
		}
		if t1.has(m.ph) || t2.hasRef && mentionsNode(t2, R) {
			return false
		}
		ls = append(ls, later{c, t1, t2})
	}
	fins := map[*comp]func(D *Node) *Node{}
	if isMap {
		fins[m] = func(D *Node) *Node {
			u := freshVar("u", v.typ, D)
			e := emit(first(D, u), intern(OTuple, "kv", []*Node{subst1(key, v, u), whole(D, u)}, nil, nil))
			return mkMap(mkForAll(u, D, []*Node{e}), m.typ)
		}
	} else {
		fins[m] = func(D *Node) *Node {
			u := freshVar("u", v.typ, D)
			return mkList(mkForAll(u, D, []*Node{emit(first(D, u), whole(D, u))}), m.typ)
		}
	}
	for _, l := range ls {
		l := l
		T := func(D *Node) *Node {
			f := first(D, v)
			t1 := newSubst(map[*Node]*Node{box: whole(D, v)}).node(l.t1)
			return choice([]leaf{{f, t1}, {not(f), l.t2}})
		}
		dep := false
		for _, o := range others {
			if o != l.c && T(dom).has(o.ph) {
				dep = true
			}
		}
		if dep || solveOne(l.c, T(dom), dom, v) == nil {
			return false
		}
		fins[l.c] = func(D *Node) *Node { return solveOne(l.c, T(D), dom, v)(D) }
	}
	for c, f := range fins {
		c.fin = f
	}
	// the obligations of an iteration
	pre := mkPrefix(dom, v)
	vals := map[*Node]*Node{R: whole(pre, v)}
	for i, p := range phs {
		if p != key {
			vals[p] = fold[i](pre, v)
		}
	}
	f := first(pre, v)
	run.ls = run.ls.clone()
	run.ls.obs = mergeLists([]leaf{{f, when(run.ls.obs, False)}, {not(f), newSubst(vals).node(r2.ls.obs)}})
	return true
}
