package main

import (
	"fmt"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Recursion, and loops that walk a structure: each becomes an uninterpreted
// function of its parameters together with one unfolding of its body. Two of
// them are the same function when the unfoldings agree up to the order of the
// parameters, the inner calls being taken as equal.

type recInfo struct {
	fn     *ssa.Function
	static map[int]*Node // parameters handed through unchanged, bound to a constant
	params []*Node
	body   *Node // result (tuple) in terms of params, inner calls as rec:<fn>
	obs    *Node
	name   string
	perm   []int // position of each parameter among those of name
	// a parameter for which nil is an ordinary case, and what the function
	// yields then, in terms of loose; params stand for values other than nil
	nilCase map[int]*Node
	loose   []*Node
}

var recBodies []*recInfo

func isSelfRecursive(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var reach func(g *ssa.Function, d int) bool
	reach = func(g *ssa.Function, d int) bool {
		if d > 6 || seen[g] {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if t := c.Common().StaticCallee(); t != nil {
						if t == fn {
							return true
						}
						if len(t.Blocks) > 0 && ev.inline(t) && reach(t, d+1) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return reach(fn, 0)
}

// staticParams: the parameters every recursive call hands through unchanged.
func staticParams(fn *ssa.Function, args []*Node) map[int]*Node {
	out := map[int]*Node{}
	for i, a := range args {
		if i < len(fn.Params) && (a.isConst() || a == boolNode(True) || a == boolNode(False) || a.op == OFunc) {
			out[i] = a
		}
	}
	if len(out) == 0 {
		return out
	}
	seen := map[*ssa.Function]bool{}
	var scan func(g *ssa.Function, d int)
	scan = func(g *ssa.Function, d int) {
		if seen[g] || d > 6 {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				t := c.Common().StaticCallee()
				if t == fn {
					for i := range out {
						if g != fn || c.Common().Args[i] != ssa.Value(fn.Params[i]) {
							delete(out, i)
						}
					}
				} else if t != nil && len(t.Blocks) > 0 && ev.inline(t) {
					scan(t, d+1)
				}
			}
		}
	}
	scan(fn, 0)
	return out
}

func (ri *recInfo) dynamic(args []*Node) []*Node {
	var out []*Node
	for i, a := range args {
		if _, ok := ri.static[i]; !ok {
			out = append(out, a)
		}
	}
	return out
}

func (fr *Frame) recursive(st *State, c B, fn *ssa.Function, args []*Node, in ssa.Instruction) (*Node, B, *State, []*Edge) {
	st = st.clone()
	if ri := ev.recActive[fn]; ri != nil {
		args = ri.dynamic(args)
		ri.addPre(st, args)
		return ri.call(args), c, st, nil
	}
	e := intern(OEvent, "recpre:"+fn.String(), args, nil, nil)
	e.pos = in.Pos()
	st.obs = mkList(append(append([]*Node{}, segs(st.obs)...), emit(True, e)), nil)
	return recApply("rec:"+fn.String(), fn.Signature.Results(), args), c, st, nil
}

func recApply(name string, res *types.Tuple, args []*Node) *Node {
	one := func(i int) *Node {
		n := name
		if res.Len() > 1 {
			n += "#" + strconv.Itoa(i)
		}
		return mkCall(n, args, res.At(i).Type(), nil)
	}
	switch res.Len() {
	case 0:
		return nilNode
	case 1:
		return one(0)
	}
	var vs []*Node
	for i := 0; i < res.Len(); i++ {
		vs = append(vs, one(i))
	}
	return intern(OTuple, "", vs, nil, nil)
}

// addPre: the values handed to an inner call must not be nil, except where nil
// is an ordinary case.
func (ri *recInfo) addPre(st *State, args []*Node) {
	var must []*Node
	for i, a := range args {
		if ri.nilCase[i] == nil {
			must = append(must, a)
		}
	}
	e := intern(OEvent, "recpre:"+ri.fn.String(), must, nil, nil)
	st.obs = mkList(append(append([]*Node{}, segs(st.obs)...), emit(True, e)), nil)
}

// call is an inner call.
func (ri *recInfo) call(args []*Node) *Node {
	return ri.split(args, recApply(ri.name, ri.fn.Signature.Results(), args))
}

// split separates the cases in which an argument is nil.
func (ri *recInfo) split(args []*Node, r *Node) *Node {
	if len(ri.nilCase) == 0 {
		return r
	}
	rest := True
	part := func(j int) func(n *Node) *Node {
		return func(n *Node) *Node {
			if n.op == OTuple {
				return n.args[j]
			}
			return n
		}
	}
	type nc struct {
		g B
		v *Node
	}
	var cs []nc
	for i := range args {
		b := ri.nilCase[i]
		if b == nil {
			continue
		}
		g := nilB(args[i])
		if g == False {
			continue
		}
		sub := map[*Node]*Node{}
		for k, p := range ri.loose {
			sub[p] = args[k]
		}
		sub[ri.loose[i]] = nilNode
		cs = append(cs, nc{and(rest, g), subst(b, sub)})
		rest = and(rest, not(g))
	}
	if len(cs) == 0 {
		return r
	}
	n := ri.fn.Signature.Results().Len()
	var vs []*Node
	for j := 0; j < n; j++ {
		f := part(j)
		ls := []leaf{}
		for _, c := range cs {
			ls = append(ls, leaf{c.g, f(c.v)})
		}
		ls = append(ls, leaf{rest, f(r)})
		vs = append(vs, choice(ls))
	}
	if n == 1 {
		return vs[0]
	}
	return intern(OTuple, "", vs, nil, nil)
}

// unfold evaluates the body; first with parameters that may be nil, to see for
// which of them nil is an ordinary case, and then for the remaining values.
// build evaluates the body on the given parameters.
func (ri *recInfo) unfold(ts []types.Type, build func(params []*Node) (body, obs *Node, ok bool)) bool {
	any := false
	for i, t := range ts {
		ri.loose = append(ri.loose, param(fmt.Sprintf("rq%d:%s", i, types.TypeString(t, nil)), t))
		any = any || isPtr(t)
	}
	if any {
		body, obs, ok := build(ri.loose)
		if !ok {
			return false
		}
		cases := map[int]*Node{}
		for i, q := range ri.loose {
			if isPtr(ts[i]) && ri.ordinaryNil(q, body, obs) {
				cases[i] = subst(body, map[*Node]*Node{q: nilNode})
			}
		}
		if len(cases) > 0 {
			ri.nilCase = cases
		}
	}
	for i, t := range ts {
		ri.params = append(ri.params, recParam(i, t))
	}
	body, obs, ok := build(ri.params)
	if !ok {
		return false
	}
	ri.body, ri.obs = body, obs
	return true
}

func (ri *recInfo) ordinaryNil(q, body, obs *Node) bool {
	tested := false
	collectNodes([]*Node{body}, func(n *Node) {
		tested = tested || n.op == ONilP && n.args[0] == q
	})
	if !tested {
		return false
	}
	nilSub := map[*Node]*Node{q: nilNode}
	plain := true
	collectNodes([]*Node{subst(body, nilSub)}, func(n *Node) {
		if n.op == OCall && strings.HasPrefix(n.sym, ri.name) || n.op == OOpaque && strings.HasPrefix(n.sym, "nil.") {
			plain = false
		}
	})
	if ob := subst(obs, nilSub); ob.op == OList {
		for _, r := range rowsOf(ob) {
			if r.guard != False {
				plain = false
			}
		}
	} else {
		plain = false
	}
	return plain
}

func (ri *recInfo) apply(args []*Node) *Node {
	p := make([]*Node, len(args))
	for i, a := range args {
		p[ri.perm[i]] = a
	}
	return ri.split(args, recApply(ri.name, ri.fn.Signature.Results(), p))
}

func recParam(i int, t types.Type) *Node {
	p := param(fmt.Sprintf("rp%d:%s", i, types.TypeString(t, nil)), t)
	nonNilParams[p] = true // checked at every call (recpre)
	return p
}

// identify looks for a recursion with the same unfolding.
func (ri *recInfo) identify() {
	own := ri.name
	ri.perm = make([]int, len(ri.params))
	for i := range ri.perm {
		ri.perm[i] = i
	}
	for _, o := range recBodies {
		if len(o.params) != len(ri.params) || len(o.body.args) != len(ri.body.args) {
			continue
		}
		for _, perm := range permutations(len(ri.params)) {
			sub := map[*Node]*Node{}
			ok := true
			for i, j := range perm {
				if !types.Identical(ri.params[i].typ, o.params[j].typ) {
					ok = false
				}
				sub[ri.params[i]] = o.params[j]
			}
			if !ok {
				continue
			}
			b := renameCalls(subst(ri.body, sub), own, o.name, perm)
			if valuesEquivalent(b, o.body) {
				ri.name, ri.perm = o.name, perm
				return
			}
			if os.Getenv("SA_MODEL") != "" {
				fmt.Println("RECDIFF", ri.name, o.name, "\n", ri.body, "\n", o.body)
				debugModel("rec")
			}
		}
	}
	recBodies = append(recBodies, ri)
}

func permutations(n int) [][]int {
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	if n > 4 {
		return [][]int{id}
	}
	var out [][]int
	var rec func(cur []int, used int)
	rec = func(cur []int, used int) {
		if len(cur) == n {
			out = append(out, append([]int{}, cur...))
			return
		}
		for i := 0; i < n; i++ {
			if used>>i&1 == 0 {
				rec(append(cur, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return out
}

// recursiveRoot summarises a recursive function once and applies the summary.
func (fr *Frame) recursiveRoot(st *State, c B, fn *ssa.Function, args []*Node, in ssa.Instruction) (*Node, B, *State, []*Edge) {
	static := staticParams(fn, args)
	key := "rec:" + fn.String()
	for i := range fn.Params {
		if a, ok := static[i]; ok {
			key += "[" + a.String() + "]"
		}
	}
	ri := ev.rec[key]
	if ri == nil {
		ri = &recInfo{fn: fn, static: static, name: key}
		ev.rec[key] = ri
		var ts []types.Type
		for i, p := range fn.Params {
			if _, ok := static[i]; !ok {
				ts = append(ts, p.Type())
			}
		}
		ri.unfold(ts, func(params []*Node) (*Node, *Node, bool) {
			var all []*Node
			k := 0
			for i := range fn.Params {
				if a, ok := static[i]; ok {
					all = append(all, a)
					continue
				}
				all = append(all, params[k])
				k++
			}
			s0 := newState()
			save := ev.recActive[fn]
			ev.recActive[fn] = ri
			_, outs := evalBody(fr, fn, nil, all, s0)
			ev.recActive[fn] = save
			var rets []*Edge
			for _, e := range outs {
				if e.kind == eTerm {
					panic(undecided("recursive function may end the process: " + fn.String()))
				}
				rets = append(rets, e)
			}
			c2, st2, live := mergeEdges(rets)
			if c2 == False {
				panic(undecided("recursive function never returns: " + fn.String()))
			}
			if st2.trace != emptyList {
				panic(undecided("recursive function with side effects: " + fn.String()))
			}
			var vs []*Node
			for i := 0; i < fn.Signature.Results().Len(); i++ {
				var ls []leaf
				for _, e := range live {
					ls = append(ls, leaf{minimize(e.cond, c2), e.ret[i]})
				}
				vs = append(vs, choice(ls))
			}
			return intern(OTuple, "", vs, nil, nil), st2.obs, true
		})
		ri.identify()
	}
	st = st.clone()
	args = ri.dynamic(args)
	ri.unfoldObs(st, args)
	return ri.apply(args), c, st, nil
}

// unfoldObs adds the obligations of one unfolding, on the actual arguments.
func (ri *recInfo) unfoldObs(st *State, args []*Node) {
	sub := map[*Node]*Node{}
	for i, p := range ri.params {
		sub[p] = args[i]
	}
	some := True
	for i := range ri.nilCase {
		some = and(some, not(nilB(args[i])))
	}
	if ob := subst(ri.obs, sub); ob.op == OList && some != False {
		ob = mergeLists([]leaf{{some, ob}})
		st.obs = mkList(append(append([]*Node{}, segs(st.obs)...), segs(ob)...), nil)
	}
}

// walkLoop treats a loop without side effects after which the function only
// computes its result as a recursive function of the values it changes.
func (fr *Frame) walkLoop(lp *loopInfo, comps []*comp, c0 B, s0 *State) ([]*Edge, bool) {
	for _, l := range fr.info.loops {
		if l != lp && l.blocks[lp.header] {
			return nil, false
		}
	}
	if fr.fn.Signature.Results().Len() == 0 || len(fr.defers) > 0 {
		return nil, false
	}
	ri := &recInfo{fn: fr.fn}
	var dyn []*comp
	for _, c := range comps {
		if c.phi == nil {
			return nil, false
		}
		if c.inv {
			fr.vals[c.phi] = c.init
			continue
		}
		dyn = append(dyn, c)
	}
	if len(dyn) == 0 {
		return nil, false
	}
	ri.name = fmt.Sprintf("rec:loop%d:%s", len(recBodies), fr.fn.String())
	var ts []types.Type
	for _, c := range dyn {
		ts = append(ts, c.phi.Type())
	}
	ok := ri.unfold(ts, func(params []*Node) (*Node, *Node, bool) {
		for i, c := range dyn {
			fr.vals[c.phi] = params[i]
		}
		st := s0.clone()
		st.trace, st.obs = emptyList, emptyList
		cells := st.clone().cells
		outer := fr.outer
		fr.outer = True
		outs := fr.walk(lp.header, st)
		fr.outer = outer
		var rets []*Edge
		for _, e := range outs {
			if e.st.trace != emptyList || e.kind == eTerm {
				return nil, nil, false
			}
			for k, v := range cells {
				if e.st.cells[k] != v {
					return nil, nil, false
				}
			}
			if e.kind == eReturn {
				rets = append(rets, e)
				continue
			}
			var next []*Node
			for _, c := range dyn {
				for i, pr := range lp.header.Preds {
					if pr == e.from {
						next = append(next, fr.edgeVal(e, c.phi.Edges[i]))
						break
					}
				}
			}
			if len(next) != len(dyn) {
				return nil, nil, false
			}
			e.st = e.st.clone()
			ri.addPre(e.st, next)
			r := ri.call(next)
			vs := []*Node{r}
			if r.op == OTuple {
				vs = r.args
			}
			rets = append(rets, &Edge{kind: eReturn, from: e.from, cond: e.cond, st: e.st, ret: vs})
		}
		c2, st2, live := mergeEdges(rets)
		if c2 != True {
			return nil, nil, false
		}
		var vs []*Node
		for i := 0; i < fr.fn.Signature.Results().Len(); i++ {
			var ls []leaf
			for _, e := range live {
				ls = append(ls, leaf{e.cond, e.ret[i]})
			}
			vs = append(vs, choice(ls))
		}
		return intern(OTuple, "", vs, nil, nil), st2.obs, true
	})
	if !ok {
		return nil, false
	}
	ri.identify()
	var init []*Node
	for _, c := range dyn {
		init = append(init, c.init)
	}
	res := s0.clone()
	ri.unfoldObs(res, init)
	r := ri.apply(init)
	ret := []*Node{r}
	if r.op == OTuple {
		ret = r.args
	}
	return []*Edge{{kind: eReturn, from: lp.header, cond: c0, st: res, ret: ret}}, true
}

// walk executes everything from the loop header on, up to the end of the
// function or the next arrival at the header.
func (fr *Frame) walk(h *ssa.BasicBlock, st0 *State) []*Edge {
	pending := map[*ssa.BasicBlock][]*Edge{}
	var outs []*Edge
	route := func(e *Edge) {
		switch {
		case e.cond == False:
		case e.kind != eJump || e.to == h:
			outs = append(outs, e)
		default:
			pending[e.to] = append(pending[e.to], e)
		}
	}
	for _, b := range fr.info.rpo {
		c, st := True, st0
		if b != h {
			ins := pending[b]
			if len(ins) == 0 {
				continue
			}
			if inner := fr.info.loops[b]; inner != nil {
				for _, e := range fr.loop(inner, ins) {
					route(e)
				}
				continue
			}
			var live []*Edge
			c, st, live = mergeEdges(ins)
			if c == False {
				continue
			}
			for p, n := range fr.phis(b, live, c) {
				fr.vals[p] = n
			}
		}
		for _, e := range fr.block(b, c, st.clone()) {
			route(e)
		}
	}
	return outs
}

// renameCalls replaces the symbol of recursive calls and reorders their
// arguments.
func renameCalls(n *Node, from, to string, perm []int) *Node {
	sub := map[*Node]*Node{}
	collectNodes([]*Node{n}, func(x *Node) {
		if x.op == OCall && (x.sym == from || strings.HasPrefix(x.sym, from+"#")) {
			args := make([]*Node, len(x.args))
			for i, a := range x.args {
				args[perm[i]] = a
			}
			sub[x] = intern(OCall, to+x.sym[len(from):], args, nil, x.typ)
		}
	})
	if len(sub) == 0 {
		return n
	}
	return subst(n, sub)
}

func valuesEquivalent(a, b *Node) bool {
	if a == b {
		return true
	}
	if a.op == OTuple && b.op == OTuple && len(a.args) == len(b.args) {
		for i := range a.args {
			if !valuesEquivalent(a.args[i], b.args[i]) {
				return false
			}
		}
		return true
	}
	if isBoolNode(a) || isBoolNode(b) {
		return equivalent(cond(a), cond(b))
	}
	return refute(not(eqB(a, b)))
}
