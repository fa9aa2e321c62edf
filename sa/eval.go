package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Interprocedural value-graph construction.  Every function is summarised as
// the values it returns, the events it performs and the obligations it incurs,
// each under the predicate on which it is control dependent.  Blocks are
// visited once per context in reverse post-order; loops are summarised by
// recognising the list they iterate over and the recurrence of each value.

type State struct {
	cells map[*Node]*Node
	trace *Node
	obs   *Node
}

func newState() *State {
	return &State{cells: map[*Node]*Node{}, trace: emptyList, obs: emptyList}
}

func (s *State) clone() *State {
	c := make(map[*Node]*Node, len(s.cells)+4)
	for k, v := range s.cells {
		c[k] = v
	}
	return &State{cells: c, trace: s.trace, obs: s.obs}
}

type edgeKind int

const (
	eJump edgeKind = iota
	eReturn
	eTerm
)

type Edge struct {
	kind edgeKind
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
	cond B
	st   *State
	over map[ssa.Value]*Node
	ret  []*Node
	code *Node // exit status / panic value of a terminal edge
	pos  token.Pos
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	live   []ssa.Value // defined inside, used outside
}

type fnInfo struct {
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loopInfo
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	info := &fnInfo{loops: map[*ssa.BasicBlock]*loopInfo{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		info.rpo = append(info.rpo, post[i])
	}
	rpoIx := map[*ssa.BasicBlock]int{}
	for i, b := range info.rpo {
		rpoIx[b] = i
	}
	for _, b := range info.rpo {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := info.loops[h]
				if l == nil {
					l = &loopInfo{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					info.loops[h] = l
				}
				var walk func(x *ssa.BasicBlock)
				walk = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							walk(p)
						}
					}
				}
				walk(b)
			} else if rpoIx[h] <= rpoIx[b] {
				panic(undecided("irreducible control flow in " + fn.String()))
			}
		}
	}
	for _, l := range info.loops {
		for _, b := range info.rpo {
			if !l.blocks[b] {
				continue
			}
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					if r.Block() != nil && !l.blocks[r.Block()] {
						l.live = append(l.live, v)
						break
					}
				}
			}
		}
	}
	fnInfos[fn] = info
	return info
}

type deferRec struct {
	c    *ssa.Defer
	cond B
	args []*Node
	fn   *Node
}

type Frame struct {
	fn     *ssa.Function
	vals   map[ssa.Value]*Node
	id     int
	caller *Frame
	depth  int
	info   *fnInfo
	inLoop int
	defers []deferRec
	outer  B                   // what holds on entry of the innermost enclosing loop, and of the function
	cur    B                   // path condition of the current block
	nexts  map[*ssa.Next]*Node // current element of a map/string range
}

var frameCtr, refCtr int

type Evaluator struct {
	prog      *ssa.Program
	globals   *State
	stack     []*ssa.Function
	args      [][]*Node
	rec       map[string]*recInfo
	recActive map[*ssa.Function]*recInfo
	inline    func(*ssa.Function) bool
	cut       func(fn *ssa.Function, args []*Node, st *State) (*Node, bool)
	inited    map[*ssa.Package]bool
	funcs     map[*ssa.Function]bool // analysed
	nCalls    int
	nLoops    int
	nBlocks   int
	deadline  int
	entryRec  bool
}

var ev *Evaluator

func (e *Evaluator) tick() {
	e.nBlocks++
	if e.nBlocks > 400000 {
		panic(undecided("analysis budget exhausted"))
	}
}

func mergeEdges(ins []*Edge) (B, *State, []*Edge) {
	var live []*Edge
	c := False
	for _, e := range ins {
		if e.cond != False {
			live = append(live, e)
			c = or(c, e.cond)
		}
	}
	if len(live) == 0 {
		return False, nil, nil
	}
	if len(live) == 1 {
		return c, live[0].st, live
	}
	gs := make([]B, len(live))
	for i, e := range live {
		gs[i] = minimize(e.cond, c)
	}
	st := &State{cells: map[*Node]*Node{}}
	keys := map[*Node]bool{}
	for _, e := range live {
		for k := range e.st.cells {
			keys[k] = true
		}
	}
	for k := range keys {
		var ls []leaf
		same := true
		var first *Node
		for i, e := range live {
			v, ok := e.st.cells[k]
			if !ok {
				if k.op == OParam && strings.HasPrefix(k.sym, "sv:") {
					v = k.aux.(*Node)
				} else {
					continue
				}
			}
			if first == nil {
				first = v
			} else if v != first {
				same = false
			}
			ls = append(ls, leaf{gs[i], v})
		}
		if same {
			st.cells[k] = first
		} else {
			st.cells[k] = choice(ls)
		}
	}
	var tr, ob []leaf
	for i, e := range live {
		tr = append(tr, leaf{gs[i], e.st.trace})
		ob = append(ob, leaf{gs[i], e.st.obs})
	}
	st.trace = mergeLists(tr)
	st.obs = mergeObs(ob)
	return c, st, live
}

// mergeObs unions obligations; those present on both sides are kept once.
func mergeObs(ls []leaf) *Node { return mergeLists(ls) }

func (fr *Frame) edgeVal(e *Edge, v ssa.Value) *Node {
	if e.over != nil {
		if n, ok := e.over[v]; ok {
			return n
		}
	}
	save := fr.cur
	fr.cur = e.cond
	n := fr.val(e.st, v)
	fr.cur = save
	return n
}

func (fr *Frame) phis(b *ssa.BasicBlock, live []*Edge, c B) map[*ssa.Phi]*Node {
	out := map[*ssa.Phi]*Node{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var ls []leaf
		for _, e := range live {
			for i, pr := range b.Preds {
				if pr == e.from {
					ls = append(ls, leaf{minimize(e.cond, c), fr.edgeVal(e, p.Edges[i])})
					break
				}
			}
		}
		n := choice(ls)
		if n.typ == nil && n.op == OChoice {
			n.typ = p.Type()
		}
		out[p] = n
	}
	return out
}

func (fr *Frame) region(start *ssa.BasicBlock, lp *loopInfo, cond0 B, st0 *State) []*Edge {
	pending := map[*ssa.BasicBlock][]*Edge{}
	var outs []*Edge
	save := fr.cur
	defer func() { fr.cur = save }()
	route := func(e *Edge) {
		if e.cond == False {
			return
		}
		if e.kind != eJump || (lp != nil && (e.to == lp.header || !lp.blocks[e.to])) {
			outs = append(outs, e)
			return
		}
		pending[e.to] = append(pending[e.to], e)
	}
	for _, b := range fr.info.rpo {
		if lp != nil && !lp.blocks[b] {
			continue
		}
		ins := pending[b]
		var c B
		var st *State
		if b == start {
			c, st = cond0, st0
		} else {
			if len(ins) == 0 {
				continue
			}
			if inner := fr.info.loops[b]; inner != nil {
				for _, e := range fr.loop(inner, ins) {
					route(e)
				}
				continue
			}
			var live []*Edge
			c, st, live = mergeEdges(ins)
			if c == False {
				continue
			}
			for p, n := range fr.phis(b, live, c) {
				fr.vals[p] = n
			}
		}
		for _, e := range fr.block(b, c, st.clone()) {
			route(e)
		}
	}
	return outs
}

// block executes the instructions of b.
func (fr *Frame) block(b *ssa.BasicBlock, c B, st *State) []*Edge {
	ev.tick()
	var outs []*Edge
	fr.cur = c
	if pruning {
		fr.pruneCells(st)
	}
	for _, in := range b.Instrs {
		if p := in.Pos(); p.IsValid() {
			curPos = p
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			k := cond(fr.val(st, in.Cond))
			outs = append(outs,
				&Edge{from: b, to: b.Succs[0], cond: and(c, k), st: st},
				&Edge{from: b, to: b.Succs[1], cond: and(c, not(k)), st: st})
			return outs
		case *ssa.Jump:
			return append(outs, &Edge{from: b, to: b.Succs[0], cond: c, st: st})
		case *ssa.Return:
			var rs []*Node
			for _, r := range in.Results {
				rs = append(rs, fr.val(st, r))
			}
			return append(outs, &Edge{kind: eReturn, from: b, cond: c, st: st, ret: rs, pos: in.Pos()})
		case *ssa.Panic:
			v := fr.val(st, in.X)
			addObs(st, "panic", True, in.Pos(), v)
			return append(outs, &Edge{kind: eTerm, from: b, cond: c, st: st, code: intern(OEvent, "panic", []*Node{v}, nil, nil), pos: in.Pos()})
		case *ssa.Store:
			fr.store(st, in)
		case *ssa.MapUpdate:
			fr.mapUpdate(st, in)
		case *ssa.RunDefers:
			c2, st2, terms := fr.runDefers(c, st)
			c, st = c2, st2
			outs = append(outs, terms...)
		case *ssa.Defer:
			fr.deferCall(st, in, c)
		case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
			panic(undecided("goroutines and channels are not modelled: " + pos(in.Pos())))
		case *ssa.Call:
			r, c2, st2, terms := fr.call(st, c, in.Common(), in)
			for _, t := range terms {
				t.from = b
				outs = append(outs, t)
			}
			c, st = c2, st2
			if c == False {
				return outs
			}
			if pruning && fr.cur != c {
				fr.cur = c
				st = st.clone()
				fr.pruneCells(st)
				r = prune(r, fr.here())
			}
			fr.vals[in] = r
		case ssa.Value:
			fr.vals[in] = fr.instr(st, in)
		default:
			panic(undecided(fmt.Sprintf("instruction %T at %s", in, pos(in.Pos()))))
		}
	}
	return outs
}

func obsEvent(kind string, g B, p token.Pos, args ...*Node) *Node {
	e := intern(OEvent, kind+"@"+pos(p), args, nil, nil)
	return emit(g, e)
}

func addObs(st *State, kind string, g B, p token.Pos, args ...*Node) {
	if g == False {
		return
	}
	o := obsEvent(kind, g, p, args...)
	for _, s := range st.obs.args {
		if s == o {
			return
		}
	}
	st.obs = mkList(append(append([]*Node{}, segs(st.obs)...), o), nil)
}

func addEvent(st *State, e *Node) {
	st.trace = mkList(append(append([]*Node{}, segs(st.trace)...), emit(True, e)), nil)
}

// ---- values

func (fr *Frame) val(st *State, v ssa.Value) *Node {
	switch v := v.(type) {
	case *ssa.Const:
		return constNode(v)
	case *ssa.Function:
		return funcNode(v)
	case *ssa.Global:
		return globalRef(v)
	case *ssa.Builtin:
		return intern(OFunc, "builtin:"+v.Name(), nil, nil, nil)
	}
	n, ok := fr.vals[v]
	if !ok {
		return opaque("undef:" + v.Name() + ":" + fr.fn.String())
	}
	if st != nil && isSliceType(v.Type()) && len(st.cells) > 0 {
		if c, ok := st.cells[fr.svkey(v)]; ok {
			n = c
		}
	}
	if pruning {
		return prune(n, fr.here())
	}
	return n
}

func (fr *Frame) here() B { return and(fr.outer, fr.cur) }

func (fr *Frame) svkey(v ssa.Value) *Node {
	k := intern(OParam, fmt.Sprintf("sv:%d:%s", fr.id, v.Name()), nil, nil, v.Type())
	svVals[k] = v
	return k
}

func funcNode(f *ssa.Function) *Node {
	n := intern(OFunc, f.String(), nil, nil, f.Type())
	n.aux = f
	return n
}

func globalRef(g *ssa.Global) *Node {
	n := intern(OParam, "&"+g.String(), nil, nil, g.Type())
	if n.aux == nil {
		n.aux = g
	}
	return n
}

func constNode(c *ssa.Const) *Node {
	if c.Value == nil {
		return zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return boolNode(True)
		}
		return boolNode(False)
	case constant.String:
		return constStr(constant.StringVal(c.Value))
	case constant.Int:
		if isIntType(c.Type()) || !isFloat(c.Type()) {
			if i, ok := constant.Int64Val(c.Value); ok {
				return constInt(i)
			}
		}
	}
	return intern(OConst, "f:"+c.Value.ExactString(), nil, nil, c.Type())
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isBuilderType(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "strings.Builder" || s == "bytes.Buffer"
}

func zero(t types.Type) *Node {
	if isBuilderType(t) {
		return constStr("")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return boolNode(False)
		case u.Info()&types.IsString != 0:
			return constStr("")
		case u.Info()&types.IsInteger != 0:
			return constInt(0)
		case u.Info()&types.IsNumeric != 0:
			return intern(OConst, "f:0", nil, nil, t)
		}
		return nilNode
	case *types.Struct:
		var args []*Node
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, zero(u.Field(i).Type()))
		}
		return structNode(types.TypeString(t, nil), args, t)
	case *types.Array:
		if u.Len() <= 256 {
			z := zero(u.Elem())
			var args []*Node
			for i := int64(0); i < u.Len(); i++ {
				args = append(args, z)
			}
			return intern(OStruct, "array", args, nil, t)
		}
	case *types.Slice:
		return emptyList
	case *types.Tuple:
		var args []*Node
		for i := 0; i < u.Len(); i++ {
			args = append(args, zero(u.At(i).Type()))
		}
		return intern(OTuple, "", args, nil, nil)
	}
	return nilNode
}

func newRef(t types.Type, hint string) *Node {
	refCtr++
	n := intern(ORef, "r"+strconv.Itoa(refCtr)+":"+hint, nil, nil, t)
	n.pos = curPos
	n.aux = refCtr
	n.hasRef = true
	return n
}

func addrField(base *Node, f string, typ types.Type) *Node {
	return lift(base, func(b *Node) *Node { return intern(OAddr, "f:"+f, []*Node{b}, nil, typ) })
}

// tracked: an address rooted in a cell of the state.
func (s *State) tracked(a *Node) bool {
	for {
		if _, ok := s.cells[a]; ok {
			return true
		}
		if a.op == OAddr {
			a = a.args[0]
			continue
		}
		if a.op == OParam && strings.HasPrefix(a.sym, "&") {
			return true
		}
		return false
	}
}

func (s *State) load(a *Node, typ types.Type) *Node {
	if a.op == OChoice {
		return lift(a, func(x *Node) *Node { return s.load(x, typ) })
	}
	if c, ok := s.cells[a]; ok {
		return c
	}
	switch a.op {
	case OBox:
		return a.args[0]
	case OAddr:
		if strings.HasPrefix(a.sym, "f:") {
			base := a.args[0]
			f := a.sym[2:]
			if s.tracked(base) {
				return mkField(s.load(base, nil), f, typ)
			}
			if base.op == OAddr {
				return mkField(s.load(base, nil), f, typ)
			}
			return mkField(base, f, typ)
		}
		if a.sym == "i" {
			return mkIndex(s.content(a.args[0]), a.args[1], typ)
		}
	case OParam:
		if strings.HasPrefix(a.sym, "&") {
			return loadGlobal(a, typ)
		}
		if derefStructType(a.typ) != nil {
			return a
		}
	case ONil:
		return opaque("nil deref")
	}
	if typ != nil {
		if _, ok := typ.Underlying().(*types.Struct); ok {
			return a
		}
	}
	if typ == nil {
		return a
	}
	return mkCall("deref", []*Node{a}, typ, nil)
}

func loadGlobal(a *Node, typ types.Type) *Node {
	g, _ := a.aux.(*ssa.Global)
	if g != nil && ev.inline != nil && isRepoPkg(g.Pkg) {
		ev.initPkg(g.Pkg)
		if !wholeProgram() && mutableGlobals()[g] {
			// what an earlier call has left there
			return param("glob:"+strings.TrimPrefix(a.sym, "&"), g.Type().(*types.Pointer).Elem())
		}
		if c, ok := ev.globals.cells[a]; ok {
			return c
		}
		return zero(g.Type().(*types.Pointer).Elem())
	}
	t := typ
	if g != nil {
		t = g.Type().(*types.Pointer).Elem()
	}
	n := param("glob:"+strings.TrimPrefix(a.sym, "&"), t)
	return n
}

// wholeProgram: main is analysed, so that package variables start as their
// initialisers leave them.
func wholeProgram() bool { return selectedCmd != "" }

var mutGlobals map[*ssa.Global]bool

// mutableGlobals are the package variables of the repository that are, or
// could be, changed outside the initialisers, or whose memory is.
func mutableGlobals() map[*ssa.Global]bool {
	if mutGlobals == nil {
		mutGlobals = map[*ssa.Global]bool{}
		for g := range changedGlobals(moduleFunctions()) {
			mutGlobals[g] = true
		}
	}
	return mutGlobals
}

// mutatedGlobals are the maps and objects such variables start with.
func mutatedGlobals() map[*Node]bool {
	out := map[*Node]bool{}
	for a, v := range ev.globals.cells {
		if g, ok := a.aux.(*ssa.Global); ok && mutableGlobals()[g] {
			out[v] = true
		}
	}
	return out
}

// content of a slice or map value (which may be a reference to a cell).
func (s *State) content(n *Node) *Node {
	if n.op == OChoice {
		return lift(n, s.content)
	}
	if n.op == ORef {
		if c, ok := s.cells[n]; ok {
			return c
		}
		if c, ok := ev.globals.cells[n]; ok && (wholeProgram() || !mutatedGlobals()[n]) {
			return c
		}
	}
	if n.op == OBox && len(n.args) == 1 && (n.args[0].op == OStruct && n.args[0].sym == "array") {
		return n.args[0]
	}
	return n
}

func (s *State) put(a, v *Node) {
	if a.op == OChoice {
		for i, x := range a.args {
			s.put(x, ifte(a.conds[i], v, s.load(x, nil)))
		}
		return
	}
	if a.op == OAddr && s.tracked(a.args[0]) {
		if _, own := s.cells[a]; !own {
			if strings.HasPrefix(a.sym, "f:") {
				s.put(a.args[0], setField(s.load(a.args[0], nil), a.sym[2:], v, a.args[0].typ))
				return
			}
			if a.sym == "i" {
				s.put(a.args[0], setIndex(s.load(a.args[0], nil), a.args[1], v))
				return
			}
		}
	}
	if a.op != ORef && a.op != OParam || (a.op == OParam && !strings.HasPrefix(a.sym, "&")) {
		addObs(s, "mutate", True, curPos, a)
	}
	s.cells[a] = v
}

func setField(x *Node, f string, v *Node, t types.Type) *Node {
	if x.op == OChoice {
		return lift(x, func(y *Node) *Node { return setField(y, f, v, t) })
	}
	st := derefStructType(x.typ)
	if st == nil {
		st = derefStructType(t)
	}
	if st == nil {
		return opaque("setfield " + f)
	}
	args := make([]*Node, st.NumFields())
	for i := range args {
		if st.Field(i).Name() == f {
			args[i] = v
		} else {
			args[i] = mkField(x, st.Field(i).Name(), st.Field(i).Type())
		}
	}
	typ := x.typ
	if x.op != OStruct {
		if p, ok := typ.Underlying().(*types.Pointer); ok {
			typ = p.Elem()
		}
		return structNode(types.TypeString(typ, nil), args, typ)
	}
	return structNode(x.sym, args, x.typ)
}

func setIndex(x, i, v *Node) *Node {
	if x.op == OStruct && x.sym == "array" {
		if k, ok := i.intVal(); ok && int(k) < len(x.args) {
			args := append([]*Node{}, x.args...)
			args[k] = v
			return intern(OStruct, "array", args, nil, x.typ)
		}
	}
	if items, ok := staticItems(x); ok {
		if k, ok := i.intVal(); ok && int(k) < len(items) {
			l := append([]*Node{}, items...)
			l[k] = v
			return listOf(l...)
		}
	}
	return mkCall("setidx", []*Node{x, i, v}, x.typ, nil)
}

func (fr *Frame) store(st *State, in *ssa.Store) {
	v := fr.val(st, in.Val)
	if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
		if isSliceType(ia.X.Type()) {
			if _, isPtr := ia.X.Type().Underlying().(*types.Pointer); !isPtr {
				i := fr.val(st, ia.Index)
				base := fr.val(st, ia.X)
				fr.assignSlice(st, ia.X, setIndex(st.content(base), i, v))
				return
			}
		}
	}
	a := fr.val(st, in.Addr)
	st.put(a, v)
}

// assignSlice replaces the content of the slice held in v.
func (fr *Frame) assignSlice(st *State, v ssa.Value, c *Node) {
	base := fr.val(st, v)
	if base.op == ORef {
		st.cells[base] = c
		return
	}
	if astRooted(base) {
		addObs(st, "mutate", True, curPos, base)
	}
	fr.assignRoot(st, v, c)
}

func (fr *Frame) assignRoot(st *State, v ssa.Value, c *Node) {
	switch x := v.(type) {
	case *ssa.ChangeType:
		fr.assignRoot(st, x.X, c)
	case *ssa.MakeInterface:
		fr.assignRoot(st, x.X, c)
		return
	case *ssa.Convert:
		fr.assignRoot(st, x.X, c)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a := fr.val(st, x.X)
			if st.tracked(a) && isSliceType(x.Type()) {
				st.put(a, c)
			}
		}
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			fr.assignRoot(st, x.X, c)
		}
	}
	if isSliceType(v.Type()) {
		k := fr.svkey(v)
		if k.aux == nil {
			if n, ok := fr.vals[v]; ok {
				k.aux = n
			} else {
				k.aux = opaque("slice")
			}
		}
		st.cells[k] = c
	}
}

// astRooted: a list that is (part of) a parsed document.
func astRooted(n *Node) bool {
	switch n.op {
	case OField:
		return true
	case OParam:
		return !strings.HasPrefix(n.sym, "sv:")
	case OSlice, ORev, OSorted, OPrefix:
		return astRooted(n.args[0])
	case OChoice:
		for _, a := range n.args {
			if astRooted(a) {
				return true
			}
		}
	}
	return false
}

func (fr *Frame) mapUpdate(st *State, in *ssa.MapUpdate) {
	m := fr.val(st, in.Map)
	k, v := fr.val(st, in.Key), fr.val(st, in.Value)
	if isSliceType(in.Value.Type()) {
		v = st.content(v)
	}
	addObs(st, "nilmap", nilB(m), in.Pos(), m)
	var do func(m *Node, g B)
	do = func(m *Node, g B) {
		if m.op == OChoice {
			for i, a := range m.args {
				do(a, and(g, m.conds[i]))
			}
			return
		}
		c, ok := st.cells[m]
		if !ok {
			addObs(st, "mutate", True, in.Pos(), m)
			return
		}
		st.cells[m] = ifte(g, mapPut(c, k, v), c)
	}
	do(m, True)
}

func pos(p token.Pos) string {
	if !p.IsValid() || ev == nil {
		return "?"
	}
	q := ev.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i == 0 {
		f = f[6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// ---- plain instructions

func (fr *Frame) instr(st *State, in ssa.Value) *Node {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		r := newRef(in.Type(), in.Comment)
		r.pos = in.Pos()
		st.cells[r] = zero(t)
		return r
	case *ssa.BinOp:
		return fr.binop(st, in)
	case *ssa.UnOp:
		x := fr.val(st, in.X)
		switch in.Op {
		case token.MUL:
			fr.derefOb(st, x, in)
			n := st.load(x, in.Type())
			if n.typ == nil {
				n.typ = in.Type()
			}
			return n
		case token.NOT:
			return boolNode(not(cond(x)))
		case token.SUB:
			return mkArith("-", []*Node{constInt(0), x}, in.Type())
		case token.XOR:
			return mkArith("^", []*Node{x, constInt(-1)}, in.Type())
		}
		panic(undecided("channel receive at " + pos(in.Pos())))
	case *ssa.ChangeInterface:
		return fr.val(st, in.X)
	case *ssa.ChangeType:
		n := fr.val(st, in.X)
		return retype(n, in.Type())
	case *ssa.Convert:
		return convert(st, fr.val(st, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		return convert(st, fr.val(st, in.X), in.X.Type(), in.Type())
	case *ssa.Extract:
		return mkExt(fr.val(st, in.Tuple), strconv.Itoa(in.Index), in.Type())
	case *ssa.Field:
		st2 := derefStructType(in.X.Type())
		return mkField(fr.val(st, in.X), st2.Field(in.Field).Name(), in.Type())
	case *ssa.FieldAddr:
		x := fr.val(st, in.X)
		fr.derefOb(st, x, in)
		st2 := derefStructType(in.X.Type())
		return addrField(x, st2.Field(in.Field).Name(), in.Type())
	case *ssa.Index:
		x, i := st.content(fr.val(st, in.X)), fr.val(st, in.Index)
		fr.boundsOb(st, x, i, in)
		return mkIndex(x, i, in.Type())
	case *ssa.IndexAddr:
		x, i := fr.val(st, in.X), fr.val(st, in.Index)
		if _, isPtr := in.X.Type().Underlying().(*types.Pointer); isPtr {
			if _, ok := i.intVal(); !ok {
				fr.boundsOb(st, st.load(x, nil), i, in)
			}
			return intern(OAddr, "i", []*Node{x, i}, nil, in.Type())
		}
		fr.boundsOb(st, st.content(x), i, in)
		e := intern(OAddr, "i", []*Node{x, i}, nil, in.Type())
		return e
	case *ssa.Lookup:
		x, i := fr.val(st, in.X), fr.val(st, in.Index)
		if !isMapType(in.X.Type()) {
			fr.boundsOb(st, x, i, in)
			return mkIndex(x, i, in.Type())
		}
		mt := in.X.Type().Underlying().(*types.Map)
		v, ok := lookup(st.content(x), i, zero(mt.Elem()))
		if isBoolType(mt.Elem()) && !in.CommaOk {
			v = boolNode(and(ok, cond(v)))
		} else if v.op == OCall && v.sym == "mapget" {
			v = ifte(ok, v, zero(mt.Elem()))
		}
		if in.CommaOk {
			return intern(OTuple, "", []*Node{v, boolNode(ok)}, nil, nil)
		}
		return v
	case *ssa.MakeClosure:
		var bs []*Node
		for _, b := range in.Bindings {
			bs = append(bs, fr.val(st, b))
		}
		n := intern(OClosure, in.Fn.String(), bs, nil, in.Type())
		n.aux = in.Fn
		return n
	case *ssa.MakeInterface:
		return mkIface(fr.val(st, in.X), in.X.Type(), in.Type())
	case *ssa.MakeMap:
		r := newRef(in.Type(), "map")
		st.cells[r] = mkMap(nil, in.Type())
		return r
	case *ssa.MakeSlice:
		l := fr.val(st, in.Len)
		if k, ok := l.intVal(); ok {
			if k == 0 {
				return emptyList
			}
			if k <= 64 {
				r := newRef(in.Type(), "slice")
				var items []*Node
				z := zero(elemType(in.Type()))
				for i := int64(0); i < k; i++ {
					items = append(items, z)
				}
				st.cells[r] = listOf(items...)
				return r
			}
		}
		r := newRef(in.Type(), "slice")
		st.cells[r] = mkCall("zeros", []*Node{l, zero(elemType(in.Type()))}, in.Type(), nil)
		return r
	case *ssa.Range:
		return intern(OTuple, "range", []*Node{st.content(fr.val(st, in.X))}, nil, nil)
	case *ssa.Next:
		if v, ok := fr.nexts[in]; ok {
			return v
		}
		return opaque("next")
	case *ssa.Slice:
		return fr.slice(st, in)
	case *ssa.TypeAssert:
		x := fr.val(st, in.X)
		if x.op == OCall && strings.HasPrefix(x.sym, "iface:") {
			if t, ok := x.aux.(types.Type); ok && types.Identical(t, in.AssertedType) {
				if in.CommaOk {
					return intern(OTuple, "", []*Node{x.args[0], boolNode(True)}, nil, nil)
				}
				return x.args[0]
			}
		}
		s := "assert:" + types.TypeString(in.AssertedType, nil)
		if in.CommaOk {
			ok := mkCall(s+"?", []*Node{x}, types.Typ[types.Bool], nil)
			return intern(OTuple, "", []*Node{mkCall(s, []*Node{x}, in.AssertedType, nil), ok}, nil, nil)
		}
		addObs(st, "assert", not(cond(mkCall(s+"?", []*Node{x}, types.Typ[types.Bool], nil))), in.Pos(), x)
		return mkCall(s, []*Node{x}, in.AssertedType, nil)
	case *ssa.SliceToArrayPointer:
		return fr.val(st, in.X)
	}
	panic(undecided(fmt.Sprintf("instruction %T at %s", in, pos(in.Pos()))))
}

func retype(n *Node, t types.Type) *Node {
	switch n.op {
	case OList, ONil, OChoice, OFunc, OClosure, ORef:
		if n.typ == nil {
			n.typ = t
		}
	}
	return n
}

// mkIface: conversions to interfaces keep the dynamic type where it matters
// (method calls, and nil pointers that become non-nil interfaces).
func mkIface(x *Node, from, to types.Type) *Node {
	it, _ := to.Underlying().(*types.Interface)
	if it == nil || it.NumMethods() == 0 {
		return x
	}
	if x.op == OChoice {
		return lift(x, func(y *Node) *Node { return mkIface(y, from, to) })
	}
	if x.op == OCall && (x.sym == "error" || strings.HasPrefix(x.sym, "iface:")) {
		return x
	}
	n := intern(OCall, "iface:"+types.TypeString(from, nil), []*Node{x}, nil, to)
	n.aux = from
	return n
}

func (fr *Frame) derefOb(st *State, x *Node, in ssa.Instruction) {
	if g := nilB(x); g != False {
		addObs(st, "nil", g, in.Pos(), x)
	}
}

// arrayLen is the length of the array an instruction indexes, -1 if it indexes
// something else.
func arrayLen(in ssa.Instruction) int64 {
	var t types.Type
	switch in := in.(type) {
	case *ssa.Index:
		t = in.X.Type()
	case *ssa.IndexAddr:
		t = in.X.Type()
	default:
		return -1
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len()
	}
	return -1
}

func (fr *Frame) boundsOb(st *State, x, i *Node, in ssa.Instruction) {
	n := mkLen(x)
	if k := arrayLen(in); k >= 0 {
		n = constInt(k)
	}
	out := or(ltB(i, constInt(0), 0), not(ltB(i, n, 0)))
	if out != False {
		addObs(st, "bounds", out, in.Pos(), x, i)
	}
}

func convert(st *State, x *Node, from, to types.Type) *Node {
	fs, ts := isStringType(from), isStringType(to)
	if fs && ts {
		return x
	}
	if isIntType(from) && isIntType(to) {
		// narrowing loses information
		return lift(x, func(y *Node) *Node { return convInt(y, from, to) })
	}
	if isSliceType(from) && ts { // string([]byte)
		return lift(st.content(x), func(y *Node) *Node { return mkCall("string", []*Node{y}, to, nil) })
	}
	if fs && isSliceType(to) {
		k := "bytes"
		if e := elemType(to); e != nil && types.TypeString(e, nil) != "byte" && types.TypeString(e, nil) != "uint8" {
			k = "runes"
		}
		return lift(x, func(y *Node) *Node { return mkCall(k, []*Node{y}, to, nil) })
	}
	if isIntType(from) && ts {
		return lift(x, func(y *Node) *Node {
			if k, ok := y.intVal(); ok {
				return constStr(string(rune(k)))
			}
			return mkCall("runestr", []*Node{y}, to, nil)
		})
	}
	return mkCall("convert:"+types.TypeString(to, nil), []*Node{x}, to, nil)
}

func intBits(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, true
	}
	uns := b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, uns
	case types.Int16, types.Uint16:
		return 16, uns
	case types.Int32, types.Uint32:
		return 32, uns
	}
	return 64, uns
}

func convInt(y *Node, from, to types.Type) *Node {
	fb, fu := intBits(from)
	tb, tu := intBits(to)
	if k, ok := y.intVal(); ok {
		switch {
		case tb == 64:
			return y
		case tu:
			return constInt(k & (1<<uint(tb) - 1))
		default:
			s := uint(64 - tb)
			return constInt(k << s >> s)
		}
	}
	if tb > fb && (fu || !tu) || tb == fb && fu == tu || tb == 64 && fb == 64 {
		return y
	}
	return mkCall("int:"+types.TypeString(to, nil), []*Node{y}, to, nil)
}

func (fr *Frame) binop(st *State, in *ssa.BinOp) *Node {
	x, y := fr.val(st, in.X), fr.val(st, in.Y)
	t := in.X.Type()
	switch in.Op {
	case token.ADD:
		if isStringType(t) {
			return mkConcat([]*Node{x, y})
		}
		if isIntType(t) {
			return mkAdd(x, y)
		}
	case token.SUB:
		return mkArith("-", []*Node{x, y}, in.Type())
	case token.EQL:
		return boolNode(eqB(x, y))
	case token.NEQ:
		return boolNode(not(eqB(x, y)))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isStringType(t) {
			switch in.Op {
			case token.LSS:
				return boolNode(strLt(x, y))
			case token.GTR:
				return boolNode(strLt(y, x))
			case token.LEQ:
				return boolNode(not(strLt(y, x)))
			default:
				return boolNode(not(strLt(x, y)))
			}
		}
		if isIntType(t) {
			switch in.Op {
			case token.LSS:
				return boolNode(ltB(x, y, 0))
			case token.GTR:
				return boolNode(ltB(y, x, 0))
			case token.LEQ:
				return boolNode(not(ltB(y, x, 0)))
			default:
				return boolNode(not(ltB(x, y, 0)))
			}
		}
	case token.AND, token.OR:
		if isBoolType(t) {
			if in.Op == token.AND {
				return boolNode(and(cond(x), cond(y)))
			}
			return boolNode(or(cond(x), cond(y)))
		}
	}
	return mkArith(in.Op.String(), []*Node{x, y}, in.Type())
}

func strLt(x, y *Node) B {
	if x == y {
		return False
	}
	if x.op == OChoice {
		return liftB(x, func(a *Node) B { return strLt(a, y) })
	}
	if y.op == OChoice {
		return liftB(y, func(a *Node) B { return strLt(x, a) })
	}
	a, aok := x.strVal()
	b, bok := y.strVal()
	if aok && bok {
		if a < b {
			return True
		}
		return False
	}
	return cond(intern(OCall, "strlt", []*Node{x, y}, nil, types.Typ[types.Bool]))
}

func (fr *Frame) slice(st *State, in *ssa.Slice) *Node {
	x := fr.val(st, in.X)
	if _, isPtr := in.X.Type().Underlying().(*types.Pointer); isPtr {
		x = st.load(x, nil)
		if x.op == OStruct && x.sym == "array" {
			x = listOf(x.args...)
		}
	} else {
		x = st.content(x)
	}
	lo, hi := constInt(0), nilNode
	if in.Low != nil {
		lo = fr.val(st, in.Low)
	}
	if in.High != nil {
		hi = fr.val(st, in.High)
	}
	if in.Low == nil && in.High == nil {
		return retype(x, in.Type())
	}
	h := hi
	if hi.op == ONil {
		h = mkLen(x)
	}
	// lo <= hi <= len (cap for slices is not modelled: len is stricter)
	bad := or(ltB(lo, constInt(0), 0), ltB(h, lo, 0), ltB(mkLen(x), h, 0))
	if bad != False {
		addObs(st, "slice", bad, in.Pos(), x, lo, hi)
	}
	return mkSlice(x, lo, hi, in.Type())
}

// ---- calls

func (fr *Frame) runDefers(c B, st *State) (B, *State, []*Edge) {
	var terms []*Edge
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		g := minimize(d.cond, c)
		if and(d.cond, c) == False {
			continue
		}
		before := st
		r, c2, st2, ts := fr.invoke(st.clone(), c, d.fn, d.args, d.c.Common(), d.c)
		_ = r
		terms = append(terms, ts...)
		if g != True {
			_, st2, _ = mergeEdges([]*Edge{{cond: and(c2, d.cond), st: st2}, {cond: and(c, not(d.cond)), st: before}})
			if st2 == nil {
				st2 = before
			}
		} else {
			c = c2
		}
		st = st2
	}
	return c, st, terms
}

func (fr *Frame) deferCall(st *State, in *ssa.Defer, c B) {
	f, args := fr.callee(st, in.Common())
	if fr.inLoop > 0 {
		e := intern(OEvent, "defer:"+calleeName(in.Common(), f), snapAll(st, args), nil, nil)
		e.pos = in.Pos()
		addEvent(st, e)
		return
	}
	fr.defers = append(fr.defers, deferRec{in, c, args, f})
}

func calleeName(cc *ssa.CallCommon, f *Node) string {
	if fn := cc.StaticCallee(); fn != nil {
		return fn.String()
	}
	if cc.IsInvoke() {
		return "invoke:" + cc.Method.Name()
	}
	return f.sym
}

// callee returns the function value and all arguments (receiver first).
func (fr *Frame) callee(st *State, cc *ssa.CallCommon) (*Node, []*Node) {
	var args []*Node
	f := fr.val(st, cc.Value)
	if cc.IsInvoke() {
		args = append(args, f)
		f = intern(OFunc, "invoke:"+cc.Method.Name(), nil, nil, nil)
	}
	for _, a := range cc.Args {
		args = append(args, fr.val(st, a))
	}
	return f, args
}

func (fr *Frame) call(st *State, c B, cc *ssa.CallCommon, in ssa.Instruction) (*Node, B, *State, []*Edge) {
	ev.nCalls++
	f, args := fr.callee(st, cc)
	return fr.invoke(st, c, f, args, cc, in)
}

func (fr *Frame) invoke(st *State, c B, f *Node, args []*Node, cc *ssa.CallCommon, in ssa.Instruction) (*Node, B, *State, []*Edge) {
	if f.op == OChoice {
		if r := ruleChoice(f, args, st); r != nil {
			return r, c, st, nil
		}
		// one call per possible callee
		var outs []*Edge
		var terms []*Edge
		var vals []leaf
		for i, g := range f.args {
			gi := f.conds[i]
			if and(c, gi) == False {
				continue
			}
			r, ci, sti, ts := fr.invoke(st.clone(), and(c, gi), g, args, cc, in)
			terms = append(terms, ts...)
			if ci != False {
				outs = append(outs, &Edge{cond: ci, st: sti})
				vals = append(vals, leaf{ci, r})
			}
		}
		c2, st2, _ := mergeEdges(outs)
		if c2 == False {
			return opaque("noreturn"), False, st, terms
		}
		for i := range vals {
			vals[i].g = minimize(vals[i].g, c2)
		}
		return choice(vals), c2, st2, terms
	}
	if strings.HasPrefix(f.sym, "invoke:") && f.op == OFunc {
		recv := args[0]
		if recv.op == OChoice {
			var ls []leaf
			pure := true
			for i, a := range recv.args {
				if !(a.op == OCall && a.sym == "error") && a.op != ONil {
					pure = false
				}
				_ = i
			}
			if !pure {
				var outs, terms []*Edge
				for i, a := range recv.args {
					if and(c, recv.conds[i]) == False {
						continue
					}
					as := append([]*Node{a}, args[1:]...)
					r, ci, sti, ts := fr.invoke(st.clone(), and(c, recv.conds[i]), f, as, cc, in)
					terms = append(terms, ts...)
					if ci != False {
						outs = append(outs, &Edge{cond: ci, st: sti})
						ls = append(ls, leaf{ci, r})
					}
				}
				c2, st2, _ := mergeEdges(outs)
				if c2 == False {
					return opaque("noreturn"), False, st, terms
				}
				for i := range ls {
					ls[i].g = minimize(ls[i].g, c2)
				}
				return choice(ls), c2, st2, terms
			}
		}
		fr.derefOb(st, recv, in)
		if recv.op == OCall && strings.HasPrefix(recv.sym, "iface:") {
			t := recv.aux.(types.Type)
			m := ev.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
			if m != nil {
				as := append([]*Node{recv.args[0]}, args[1:]...)
				return fr.invoke(st, c, funcNode(m), as, cc, in)
			}
		}
		return fr.external(st, c, "invoke:"+cc.Method.Name(), nil, args, cc, in)
	}
	switch f.op {
	case OFunc:
		if strings.HasPrefix(f.sym, "builtin:") {
			return fr.builtin(st, f.sym[8:], args, cc, in), c, st, nil
		}
		if fn, ok := f.aux.(*ssa.Function); ok {
			return fr.callFn(st, c, fn, nil, args, cc, in)
		}
	case OClosure:
		fn := f.aux.(*ssa.Function)
		return fr.callFn(st, c, fn, f.args, args, cc, in)
	case ONil:
		addObs(st, "nil", True, in.Pos(), f)
		return opaque("call of nil"), c, st, nil
	}
	// a function value that is not known
	return fr.external(st, c, "apply", nil, append([]*Node{f}, args...), cc, in)
}

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (fr *Frame) callFn(st *State, c B, fn *ssa.Function, bind, args []*Node, cc *ssa.CallCommon, in ssa.Instruction) (*Node, B, *State, []*Edge) {
	// synthetic wrappers and bound methods: follow
	if ev.cut != nil {
		if r, ok := ev.cut(fn, args, st); ok {
			return r, c, st, nil
		}
	}
	if r, ok := fr.intrinsic(st, fn, args, cc, in); ok {
		return r, c, st, nil
	}
	if r, c2, st2, ts, ok := fr.cobra(st, c, fn, args, cc, in); ok {
		return r, c2, st2, ts
	}
	if fnPkg(fn) == "sync" && strings.HasPrefix(strings.TrimPrefix(fn.Name(), "("), "Once") && len(args) == 1 && runsOnce(args[0]) {
		// OnceFunc, OnceValue: the function itself, as what it does and gives is always the same
		return args[0], c, st, nil
	}
	if fn.String() == "(*sync.Once).Do" && len(args) == 2 && runsOnce(args[1]) {
		return nilNode, c, st, nil // see initPkg
	}
	if len(fn.Blocks) == 0 || !(ev.inline(fn) || fn.Parent() != nil && ev.inline(rootFn(fn))) {
		return fr.external(st, c, fn.String(), fn, args, cc, in)
	}
	// recursion
	for i, g := range ev.stack {
		if g == fn {
			_ = i
			return fr.recursive(st, c, fn, args, in)
		}
	}
	if len(ev.stack) > 40 {
		panic(undecided("call depth exceeded in " + fn.String()))
	}
	if isSelfRecursive(fn) && bind == nil {
		return fr.recursiveRoot(st, c, fn, args, in)
	}
	sub, outs := evalBody(fr, fn, bind, args, st)
	var rets []*Edge
	var terms []*Edge
	for _, e := range outs {
		switch e.kind {
		case eReturn:
			rets = append(rets, e)
		case eTerm:
			e.cond = and(c, e.cond)
			terms = append(terms, e)
		}
	}
	c2, st2, live := mergeEdges(rets)
	if c2 == False {
		return opaque("noreturn"), False, st, terms
	}
	n := fn.Signature.Results().Len()
	vals := make([]*Node, n)
	for i := 0; i < n; i++ {
		var ls []leaf
		for _, e := range live {
			ls = append(ls, leaf{minimize(e.cond, c2), e.ret[i]})
		}
		vals[i] = choice(ls)
		if vals[i].typ == nil && (vals[i].op == OChoice || vals[i].op == OList && vals[i] != emptyList) {
			vals[i].typ = fn.Signature.Results().At(i).Type()
		}
	}
	// content changes of slice arguments made by the callee are seen by the caller
	st2 = st2.clone()
	off := 0
	if cc != nil {
		actual := cc.Args
		if len(fn.Params) == len(actual)+1 {
			off = 1
		}
		for i, p := range fn.Params {
			if !isSliceType(p.Type()) {
				continue
			}
			k := sub.svkey(p)
			if nc, ok := st2.cells[k]; ok && i-off >= 0 && i-off < len(actual) {
				fr.assignRoot(st2, actual[i-off], nc)
			}
		}
	}
	for k := range st2.cells {
		if k.op == OParam && strings.HasPrefix(k.sym, fmt.Sprintf("sv:%d:", sub.id)) {
			delete(st2.cells, k)
		}
	}
	var r *Node
	switch n {
	case 0:
		r = nilNode
	case 1:
		r = vals[0]
	default:
		r = intern(OTuple, "", vals, nil, nil)
	}
	return r, and(c, c2), st2, terms
}

func rootFn(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// evalBody runs a function body on the given arguments.
func evalBody(caller *Frame, fn *ssa.Function, bind, args []*Node, st *State) (*Frame, []*Edge) {
	frameCtr++
	fr := &Frame{fn: fn, vals: map[ssa.Value]*Node{}, id: frameCtr, caller: caller, info: infoOf(fn), nexts: map[*ssa.Next]*Node{}, outer: True, cur: True}
	if caller != nil {
		fr.outer = caller.here()
	}
	if fn.Pkg != nil && isRepoPkg(fn.Pkg) || fn.Parent() != nil {
		ev.funcs[fn] = true
	}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.vals[p] = args[i]
		}
	}
	for i, b := range fn.FreeVars {
		if i < len(bind) {
			fr.vals[b] = bind[i]
		}
	}
	ev.stack = append(ev.stack, fn)
	save := curPos
	outs := fr.region(fn.Blocks[0], nil, True, st)
	curPos = save
	ev.stack = ev.stack[:len(ev.stack)-1]
	return fr, outs
}

// ---- packages

func isRepoPkg(p *ssa.Package) bool {
	return p != nil && p.Pkg != nil && strings.HasPrefix(p.Pkg.Path(), repoModule)
}

const repoModule = "github.com/CrowdStrike/gql"

func (e *Evaluator) initPkg(p *ssa.Package) {
	if e.inited[p] {
		return
	}
	e.inited[p] = true
	fn := p.Func("init")
	if fn == nil {
		return
	}
	// run the initialiser on the shared global state
	st := e.globals
	save, stack := curPos, e.stack
	e.stack = nil
	frameCtr++
	fr := &Frame{fn: fn, vals: map[ssa.Value]*Node{}, id: frameCtr, info: infoOf(fn), nexts: map[*ssa.Next]*Node{}}
	guard := p.Var("init$guard")
	if guard != nil {
		st.cells[globalRef(guard)] = boolNode(False)
	}
	outs := fr.region(fn.Blocks[0], nil, True, st)
	_, st2, _ := mergeEdges(outs)
	// what is set up once on the first use is as good as set up here
	for _, f := range onceArgs(p) {
		if st2 == nil {
			break
		}
		_, c, st3, _ := fr.callFn(st2, True, f, nil, nil, nil, nil)
		if c == True && st3 != nil {
			st2 = st3
		}
	}
	if st2 != nil {
		for k, v := range st2.cells {
			e.globals.cells[k] = v
		}
		e.globals.trace, e.globals.obs = st2.trace, st2.obs
	}
	e.stack, curPos = stack, save
}

func debugf(format string, a ...any) {
	if os.Getenv("SA_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, format, a...)
	}
}

// runsOnce: a function that depends on nothing and is only used to run once.
func runsOnce(f *Node) bool {
	if f.op != OFunc && f.op != OClosure {
		return false
	}
	fn, ok := f.aux.(*ssa.Function)
	return ok && len(fn.Params) == 0 && len(f.args) == 0 && onceOnly()[fn]
}

// onceArgs are the functions a package gives to sync.Once.
func onceArgs(p *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(ev.prog) {
		if rootFn(fn).Pkg != p {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if f := cc.StaticCallee(); f == nil || f.String() != "(*sync.Once).Do" || len(cc.Args) != 2 {
					continue
				}
				g, ok := cc.Args[1].(*ssa.Function)
				if ok && len(g.Params) == 0 && onceOnly()[g] {
					out = append(out, g)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
