package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// The value graph.  Nodes are hash-consed; equality of values is pointer
// equality.  Bound variables of quantified nodes are named canonically (by the
// height of the binder), so alpha-equivalent nodes are identical.

type Op uint8

const (
	OConst Op = iota // sym: "i:.." "s:.." "f:.."
	ONil
	OParam // symbolic root, sym unique
	OVar   // variable (free: "v<n>", bound: "B<h>")
	OField // args[0].sym
	OIndex // args[0][args[1]]
	OLen
	OCall // pure application sym(args)
	OExt  // sym-th component of args[0]
	OStruct
	OBox  // pointer to a struct value whose identity does not matter
	OList // segments: OFor / OEmit
	OFor  // binder: args[0]=domain, args[1]=segment
	OEmit // args[0]=item, conds[0]=guard
	OChoice
	OBool
	OFirst  // binder: first element of args[0] satisfying conds[0] (nil if none)
	OLast   // binder
	OExists // binder (boolean atom)
	OSum    // binder: sum over args[0] of args[1] where conds[0]
	OIdx    // index of an element variable
	OPrefix // elements of args[0] before element args[1]
	OSlice  // args[0][args[1]:args[2]]
	ORev
	OSorted // args[0] sorted by comparator args[1]
	OTuple
	OMap // map as sequence of writes: args are segments emitting OTuple(k,v)
	OMapElems
	OFunc
	OClosure
	ORef  // fresh allocation
	OAddr // address inside args[0]; sym path
	OConcat
	OFmt
	OAdd
	OEq // boolean atoms
	OLt // args[0] < args[1] + d   (sym = d)
	ONilP
	OMuVar
	OMu
	OEvent // sym kind, args
	OPrev
	OOpaque
	OLoopVar // binder for general loops
	OLoop
	OArith
)

var opNames = map[Op]string{}

type Node struct {
	id     int
	op     Op
	sym    string
	args   []*Node
	conds  []B
	typ    types.Type
	fv     []int32
	mb     int
	pos    token.Pos
	aux    any
	hasRef bool
}

type undecided string

func (u undecided) Error() string { return string(u) }

var (
	nodeTab = map[string]*Node{}
	nodes   []*Node
	varDom  = map[*Node]*Node{} // free element variable -> its domain
	varCtr  int
	curPos  token.Pos
)

func unionI(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func hasI(a []int32, x int32) bool {
	i := sort.Search(len(a), func(i int) bool { return a[i] >= x })
	return i < len(a) && a[i] == x
}

func withoutI(a []int32, x int32) []int32 {
	if !hasI(a, x) {
		return a
	}
	out := make([]int32, 0, len(a))
	for _, y := range a {
		if y != x {
			out = append(out, y)
		}
	}
	return out
}

func isBinder(op Op) bool {
	switch op {
	case OFor, OFirst, OLast, OExists, OSum, OPrev:
		return true
	}
	return false
}

func intern(op Op, sym string, args []*Node, conds []B, typ types.Type) *Node {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(op)))
	sb.WriteByte('|')
	sb.WriteString(sym)
	sb.WriteByte('|')
	for _, a := range args {
		if a == nil {
			panic("nil arg in node")
		}
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte(',')
	}
	sb.WriteByte('|')
	for _, c := range conds {
		sb.WriteString(strconv.Itoa(int(c)))
		sb.WriteByte(',')
	}
	k := sb.String()
	if n, ok := nodeTab[k]; ok {
		if n.typ == nil && typ != nil {
			n.typ = typ
		}
		return n
	}
	n := &Node{id: len(nodes), op: op, sym: sym, args: args, conds: conds, typ: typ, pos: curPos}
	if len(nodes) > 6000000 {
		panic(undecided("value graph too large"))
	}
	nodes = append(nodes, n)
	nodeTab[k] = n
	if op == OVar {
		n.fv = []int32{int32(n.id)}
	}
	if isBinder(op) {
		h, _ := strconv.Atoi(strings.SplitN(sym, ":", 2)[0])
		bv := boundVar(h)
		var f []int32
		for _, a := range args[1:] {
			f = unionI(f, a.fv)
		}
		for _, c := range conds {
			f = unionI(f, fvB(c))
		}
		f = withoutI(f, int32(bv.id))
		for _, a := range args {
			n.hasRef = n.hasRef || a.hasRef
		}
		for _, c := range conds {
			n.hasRef = n.hasRef || refB(c)
		}
		n.fv = unionI(f, args[0].fv)
		n.mb = h
		if args[0].mb > h {
			n.mb = args[0].mb
		}
		return n
	}
	if op == ORef {
		n.hasRef = true
	}
	for _, a := range args {
		n.hasRef = n.hasRef || a.hasRef
		n.fv = unionI(n.fv, a.fv)
		if a.mb > n.mb {
			n.mb = a.mb
		}
	}
	for _, c := range conds {
		n.hasRef = n.hasRef || refB(c)
		n.fv = unionI(n.fv, fvB(c))
		if m := mbB(c); m > n.mb {
			n.mb = m
		}
	}
	return n
}

func boundVar(h int) *Node { return intern(OVar, "B"+strconv.Itoa(h), nil, nil, nil) }

func freshVar(hint string, typ types.Type, dom *Node) *Node {
	varCtr++
	n := intern(OVar, "v"+strconv.Itoa(varCtr)+":"+hint, nil, nil, typ)
	if dom != nil {
		varDom[n] = dom
	}
	return n
}

func (n *Node) has(v *Node) bool { return hasI(n.fv, int32(v.id)) }
func hasB(c B, v *Node) bool     { return hasI(fvB(c), int32(v.id)) }

// ---- constants

func constInt(i int64) *Node {
	return intern(OConst, "i:"+strconv.FormatInt(i, 10), nil, nil, types.Typ[types.Int])
}
func constStr(s string) *Node { return intern(OConst, "s:"+s, nil, nil, types.Typ[types.String]) }
func (n *Node) isConst() bool { return n.op == OConst }
func (n *Node) intVal() (int64, bool) {
	if n.op == OConst && strings.HasPrefix(n.sym, "i:") {
		v, err := strconv.ParseInt(n.sym[2:], 10, 64)
		return v, err == nil
	}
	return 0, false
}
func (n *Node) strVal() (string, bool) {
	if n.op == OConst && strings.HasPrefix(n.sym, "s:") {
		return n.sym[2:], true
	}
	return "", false
}

var nilNode = intern(ONil, "", nil, nil, nil)
var emptyList = intern(OList, "", nil, nil, nil)

func param(name string, t types.Type) *Node { return intern(OParam, name, nil, nil, t) }

func opaque(why string) *Node {
	varCtr++
	return intern(OOpaque, fmt.Sprintf("%s#%d", why, varCtr), nil, nil, nil)
}

// partial is some list of the length of x, of unknown elements.
func partial(x *Node) *Node {
	varCtr++
	return intern(OOpaque, fmt.Sprintf("partially filled list#%d", varCtr), []*Node{x}, nil, x.typ)
}

func boolNode(b B) *Node { return intern(OBool, "", nil, []B{b}, types.Typ[types.Bool]) }

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isSliceType(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Slice, *types.Array:
		return true
	}
	return false
}
func isMapType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}
func isPtrType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// cond turns a boolean-typed node into a guard.
func cond(n *Node) B {
	switch n.op {
	case OBool:
		return n.conds[0]
	case OChoice:
		r := False
		for i, a := range n.args {
			r = or(r, and(n.conds[i], cond(a)))
		}
		return r
	case OEq, OLt, ONilP, OExists:
		return bm.atomVar(n)
	case OOpaque, OVar, OField, OCall, OExt, OParam, OIndex, OFirst, OLast, OPrev, OLoop, OArith:
		return bm.atomVar(n)
	case OConst:
		if n.sym == "i:0" {
			return False
		}
	}
	return bm.atomVar(n)
}

// ---- choice

type leaf struct {
	g B
	v *Node
}

func leaves(n *Node) []leaf {
	if n.op == OChoice {
		out := make([]leaf, len(n.args))
		for i := range n.args {
			out[i] = leaf{n.conds[i], n.args[i]}
		}
		return out
	}
	return []leaf{{True, n}}
}

func isListy(n *Node) bool {
	return n.op == OList || (n.typ != nil && isSliceType(n.typ) && n.op != OChoice)
}

func choice(in []leaf) *Node {
	// flatten, drop dead leaves, merge equal values
	var ls []leaf
	idx := map[*Node]int{}
	var add func(g B, v *Node)
	add = func(g B, v *Node) {
		if g == False {
			return
		}
		if v.op == OChoice {
			for i, a := range v.args {
				add(and(g, v.conds[i]), a)
			}
			return
		}
		if i, ok := idx[v]; ok {
			ls[i].g = or(ls[i].g, g)
			return
		}
		idx[v] = len(ls)
		ls = append(ls, leaf{g, v})
	}
	for _, l := range in {
		add(l.g, l.v)
	}
	if len(ls) == 0 {
		return opaque("unreachable")
	}
	// the text of an absent value, written out
	if i, ok := idx[constStr("<nil>")]; ok && len(ls) > 1 {
		for j := range ls {
			if x := ls[j].v; j != i && x.op == OCall && isValueText(x.sym) && and(ls[i].g, not(nilB(x.args[0]))) == False {
				ls[j].g = or(ls[j].g, ls[i].g)
				ls = append(ls[:i:i], ls[i+1:]...)
				break
			}
		}
	}
	if len(ls) == 1 {
		return ls[0].v
	}
	allBool, allList, allStruct, allBox, allTuple := true, true, true, true, true
	anyList := false
	for _, l := range ls {
		if l.v.op != OBool {
			allBool = false
		}
		if l.v.op == OList || (l.v.typ != nil && isSliceType(l.v.typ)) || l.v.op == ORev || l.v.op == OSlice && isSliceType(l.v.typ) {
			anyList = true
		} else if l.v.op != ONil {
			allList = false
		}
		if l.v.op != OStruct || l.v.sym != ls[0].v.sym || len(l.v.args) != len(ls[0].v.args) {
			allStruct = false
		}
		if l.v.op != OBox {
			allBox = false
		}
		if l.v.op != OTuple || len(l.v.args) != len(ls[0].v.args) {
			allTuple = false
		}
	}
	if allBool {
		r := False
		for _, l := range ls {
			r = or(r, and(l.g, l.v.conds[0]))
		}
		return boolNode(r)
	}
	if anyList && allList {
		return mergeLists(ls)
	}
	if allBox {
		var in []leaf
		for _, l := range ls {
			in = append(in, leaf{l.g, l.v.args[0]})
		}
		return mkBox(choice(in))
	}
	if allStruct || allTuple {
		args := make([]*Node, len(ls[0].v.args))
		for i := range args {
			var in []leaf
			for _, l := range ls {
				in = append(in, leaf{l.g, l.v.args[i]})
			}
			args[i] = choice(in)
		}
		return intern(ls[0].v.op, ls[0].v.sym, args, nil, ls[0].v.typ)
	}
	// eta: nil leaf covered by the nil case of another leaf
	for i, l := range ls {
		if l.v.op != ONil {
			continue
		}
		for j := range ls {
			if j != i && entails(l.g, nilB(ls[j].v)) {
				ls[j].g = or(ls[j].g, l.g)
				ls = append(append([]leaf{}, ls[:i]...), ls[i+1:]...)
				return choice(ls)
			}
		}
	}
	sort.SliceStable(ls, func(i, j int) bool { return ls[i].v.id < ls[j].v.id })
	var args []*Node
	var conds []B
	var typ types.Type
	for _, l := range ls {
		args = append(args, l.v)
		conds = append(conds, l.g)
		if typ == nil {
			typ = l.v.typ
		}
	}
	return intern(OChoice, "", args, conds, typ)
}

func lift(n *Node, f func(*Node) *Node) *Node {
	if n.op != OChoice {
		return f(n)
	}
	var out []leaf
	for i, a := range n.args {
		out = append(out, leaf{n.conds[i], f(a)})
	}
	return choice(out)
}

func liftB(n *Node, f func(*Node) B) B {
	if n.op != OChoice {
		return f(n)
	}
	r := False
	for i, a := range n.args {
		r = or(r, and(n.conds[i], f(a)))
	}
	return r
}

func ifte(c B, a, b *Node) *Node { return choice([]leaf{{c, a}, {not(c), b}}) }

// ---- lists

// segs returns the segments of a list-valued node.
func segs(n *Node) []*Node {
	switch n.op {
	case OList:
		return n.args
	case ONil:
		return nil
	case OChoice:
		return segs(mergeLists(leaves(n)))
	case OMap:
		return n.args
	}
	v := freshVar("e", elemType(n.typ), n)
	return []*Node{mkForRaw(v, n, emit(True, v))}
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.Typ[types.Byte]
		}
	case *types.Map:
		return u.Elem()
	}
	return nil
}

func emit(g B, item *Node) *Node {
	// x, where x is the first of its kind: the first of its kind is called x
	for _, p := range leaders(g) {
		item = newSubst(map[*Node]*Node{p[1]: p[0]}).node(item)
	}
	return intern(OEmit, "", []*Node{item}, []B{g}, nil)
}

var leadersMemo = map[B][][2]*Node{}

// leaders: the elements x that g says are equal to the first or last element
// of a kind that depends on x.
func leaders(g B) [][2]*Node {
	if g == True || g == False {
		return nil
	}
	if r, ok := leadersMemo[g]; ok {
		return r
	}
	var r [][2]*Node
	for _, ix := range bm.support(g) {
		a := bm.atoms[ix]
		if a.op != OEq {
			continue
		}
		for i := 0; i < 2; i++ {
			x, y := a.args[i], a.args[1-i]
			if x.op == OVar && (y.op == OFirst || y.op == OLast) && y.has(x) && and(g, not(bm.atomVar(a))) == False {
				r = append(r, [2]*Node{x, y})
			}
		}
	}
	leadersMemo[g] = r
	return r
}

func mkList(ss []*Node, typ types.Type) *Node {
	var out []*Node
	for _, s := range ss {
		if segGuard(s) == False {
			continue
		}
		out = append(out, s)
	}
	if len(out) == 1 && out[0].op == OFor && out[0].args[1].op == OEmit {
		e := out[0].args[1]
		h, _ := strconv.Atoi(out[0].sym)
		if e.conds[0] == True && e.args[0] == boundVar(h) {
			return out[0].args[0]
		}
	}
	if len(out) == 0 {
		return emptyList
	}
	return intern(OList, "", out, nil, typ)
}

func segGuard(s *Node) B {
	for s.op == OFor {
		s = s.args[1]
	}
	if s.op == OList {
		g := False
		for _, x := range s.args {
			g = or(g, segGuard(x))
		}
		return g
	}
	if s.op != OEmit {
		return True // all elements of a list
	}
	return s.conds[0]
}

// bodySegs: the segments produced for one element of a loop.
func bodySegs(b *Node) []*Node {
	if b.op == OFor || b.op == OEmit {
		return []*Node{b}
	}
	var out []*Node
	for _, s := range segs(b) {
		if segGuard(s) != False {
			out = append(out, s)
		}
	}
	return out
}

// bodyOf makes one loop body of several segments.
func bodyOf(ss []*Node) *Node {
	var out []*Node
	for _, s := range ss {
		for _, x := range bodySegs(s) {
			if segGuard(x) != False {
				out = append(out, x)
			}
		}
	}
	switch len(out) {
	case 0:
		return emit(False, nilNode)
	case 1:
		return out[0]
	}
	return intern(OList, "", out, nil, nil)
}

// guardSeg conjoins a guard (free of the segment's bound variables).
func guardSeg(g B, s *Node) *Node {
	if g == True {
		return s
	}
	switch s.op {
	case OEmit:
		return emit(and(g, s.conds[0]), s.args[0])
	case OFor:
		// there is something to visit when the body runs
		ne := nonEmpty(s.args[0])
		if and(ne, not(g)) == False {
			return s
		}
		if a, pos, ok := literal(ne); ok && pos {
			g = restrictAtom(g, a, true)
		}
		v, body := open(s)
		return mkForRaw(v, s.args[0], guardSeg(g, body.args[1]))
	}
	var out []*Node
	for _, x := range bodySegs(s) {
		out = append(out, guardSeg(g, x))
	}
	return bodyOf(out)
}

func mergeLists(ls []leaf) *Node {
	var lists [][]*Node
	var typ types.Type
	for _, l := range ls {
		lists = append(lists, segs(l.v))
		if typ == nil {
			typ = l.v.typ
		}
	}
	var out []*Node
	k := 0
	for {
		same := true
		for _, l := range lists {
			if k >= len(l) || l[k] != lists[0][k] {
				same = false
				break
			}
		}
		if !same {
			break
		}
		out = append(out, lists[0][k])
		k++
	}
	for i, l := range lists {
		for _, s := range l[k:] {
			out = append(out, guardSeg(ls[i].g, s))
		}
	}
	return mkList(out, typ)
}

func appendList(a, b *Node) *Node {
	typ := a.typ
	if typ == nil {
		typ = b.typ
	}
	s := append(append([]*Node{}, segs(a)...), segs(b)...)
	return mkList(s, typ)
}

func listOf(items ...*Node) *Node {
	var ss []*Node
	for _, i := range items {
		ss = append(ss, emit(True, i))
	}
	return mkList(ss, nil)
}

// staticItems returns the items of a list of statically known shape.
func staticItems(n *Node) ([]*Node, bool) {
	if n.op == ONil {
		return nil, true
	}
	if n.op != OList {
		return nil, false
	}
	var out []*Node
	for _, s := range n.args {
		if s.op != OEmit || s.conds[0] != True {
			return nil, false
		}
		out = append(out, s.args[0])
	}
	return out, true
}

// open instantiates a binder's bound variable with a fresh one.
func open(n *Node) (*Node, *Node) {
	h, _ := strconv.Atoi(strings.SplitN(n.sym, ":", 2)[0])
	bv := boundVar(h)
	v := freshVar("o", elemType(n.args[0].typ), n.args[0])
	sub := map[*Node]*Node{bv: v}
	args := append([]*Node{n.args[0]}, n.args[1:]...)
	for i := 1; i < len(args); i++ {
		args[i] = substRaw(args[i], sub)
	}
	conds := make([]B, len(n.conds))
	for i, c := range n.conds {
		conds[i] = substRawB(c, sub)
	}
	return v, &Node{op: n.op, sym: n.sym, args: args, conds: conds, typ: n.typ}
}

func binderHeight(args []*Node, conds []B) int {
	h := 0
	for _, a := range args {
		if a.mb > h {
			h = a.mb
		}
	}
	for _, c := range conds {
		if m := mbB(c); m > h {
			h = m
		}
	}
	return h + 1
}

func close_(op Op, symx string, v *Node, dom *Node, args []*Node, conds []B, typ types.Type) *Node {
	h := binderHeight(args, conds)
	bv := boundVar(h)
	sub := map[*Node]*Node{v: bv}
	as := []*Node{dom}
	for _, a := range args {
		as = append(as, substRaw(a, sub))
	}
	cs := make([]B, len(conds))
	for i, c := range conds {
		cs[i] = substRawB(c, sub)
	}
	sym := strconv.Itoa(h)
	if symx != "" {
		sym += ":" + symx
	}
	return intern(op, sym, as, cs, typ)
}

// substRaw renames variables without re-normalising (only for var->var).
func substRaw(n *Node, sub map[*Node]*Node) *Node { return (&substituter{sub: sub, raw: true}).node(n) }
func substRawB(c B, sub map[*Node]*Node) B        { return (&substituter{sub: sub, raw: true}).b(c) }

func subst(n *Node, sub map[*Node]*Node) *Node { return newSubst(sub).node(n) }
func substB(c B, sub map[*Node]*Node) B        { return newSubst(sub).b(c) }
func subst1(n, v, t *Node) *Node               { return subst(n, map[*Node]*Node{v: t}) }
func subst1B(c B, v, t *Node) B                { return substB(c, map[*Node]*Node{v: t}) }

type substituter struct {
	sub  map[*Node]*Node
	raw  bool
	memo map[*Node]*Node
	mb   map[B]B
	vars []int32
	all  bool // keys may be non-variable nodes
}

func newSubst(sub map[*Node]*Node) *substituter {
	s := &substituter{sub: sub}
	for k := range sub {
		if k.op != OVar {
			s.all = true
		}
	}
	return s
}

func (s *substituter) init() {
	if s.memo == nil {
		s.memo = map[*Node]*Node{}
		s.mb = map[B]B{}
		for k := range s.sub {
			s.vars = unionI(s.vars, k.fv)
		}
	}
}

func meetI(a, b []int32) bool {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			return true
		}
		if a[i] < b[j] {
			i++
		} else {
			j++
		}
	}
	return false
}

func (s *substituter) node(n *Node) *Node {
	s.init()
	if r, ok := s.sub[n]; ok {
		return r
	}
	if !s.all && !meetI(n.fv, s.vars) {
		return n
	}
	if s.all && len(n.args) == 0 && len(n.conds) == 0 {
		return n
	}
	if r, ok := s.memo[n]; ok {
		return r
	}
	var r *Node
	if s.raw {
		args := make([]*Node, len(n.args))
		for i, a := range n.args {
			args[i] = s.node(a)
		}
		conds := make([]B, len(n.conds))
		for i, c := range n.conds {
			conds[i] = s.b(c)
		}
		if sym := n.op == OEq || n.op == OCall && n.sym == "strings.EqualFold"; sym && (args[0].id > args[1].id && !args[1].isConst() || args[0].isConst()) {
			args[0], args[1] = args[1], args[0]
		}
		r = intern(n.op, n.sym, args, conds, n.typ)
	} else if isBinder(n.op) {
		dom := s.node(n.args[0])
		v, o := open(n)
		varDom[v] = dom
		if v.typ == nil {
			v.typ = elemType(dom.typ)
		}
		args := make([]*Node, 0, len(n.args))
		for _, a := range o.args[1:] {
			args = append(args, s.node(a))
		}
		conds := make([]B, len(o.conds))
		for i, c := range o.conds {
			conds[i] = s.b(c)
		}
		r = rebuildBinder(n, v, dom, args, conds)
	} else {
		args := make([]*Node, len(n.args))
		for i, a := range n.args {
			args[i] = s.node(a)
		}
		conds := make([]B, len(n.conds))
		for i, c := range n.conds {
			conds[i] = s.b(c)
		}
		r = rebuild(n, args, conds)
	}
	s.memo[n] = r
	return r
}

func (s *substituter) b(c B) B {
	s.init()
	if c <= 1 {
		return c
	}
	if !s.all && !meetI(fvB(c), s.vars) {
		return c
	}
	if r, ok := s.mb[c]; ok {
		return r
	}
	n := bm.nodes[c]
	lo, hi := s.b(n.lo), s.b(n.hi)
	a := bm.atoms[n.v]
	var ab B
	na := s.node(a)
	if na == a {
		ab = bm.mk(n.v, False, True)
	} else if s.raw && na.op == OLt && !na.args[1].isConst() && na.args[0].id > na.args[1].id {
		d, _ := strconv.ParseInt(na.sym, 10, 64)
		ab = not(ltAtom(na.args[1], na.args[0], 1-d))
	} else {
		ab = cond(na)
	}
	r := bm.ite(ab, hi, lo)
	s.mb[c] = r
	return r
}

func rebuildBinder(n, v, dom *Node, args []*Node, conds []B) *Node {
	switch n.op {
	case OFor:
		ss := mkFor(v, dom, args[0])
		return &Node{op: OList, args: ss} // spliced by rebuild(OList)
	case OFirst:
		return mkFirst(v, dom, conds[0], n.typ)
	case OLast:
		return mkLast(v, dom, conds[0], n.typ)
	case OExists:
		return boolNode(mkExists(v, dom, conds[0]))
	case OSum:
		return mkSum(v, dom, conds[0], args[0])
	case OPrev:
		return close_(OPrev, "", v, dom, args, conds, n.typ)
	}
	panic("binder")
}

func rebuild(n *Node, args []*Node, conds []B) *Node {
	switch n.op {
	case OField:
		return mkField(args[0], n.sym, n.typ)
	case OIndex:
		return mkIndex(args[0], args[1], n.typ)
	case OLen:
		return mkLen(args[0])
	case OCall:
		return mkCall(n.sym, args, n.typ, n.aux)
	case OExt:
		return mkExt(args[0], n.sym, n.typ)
	case OStruct, OTuple:
		r := intern(n.op, n.sym, args, nil, n.typ)
		if r.pos == 0 {
			r.pos = n.pos
		}
		return r
	case OBox:
		r := mkBox(args[0])
		if r.op == OBox && r != n && (r.pos == 0 || n.pos != 0 && r.id == len(nodes)-1) {
			r.pos = n.pos
		}
		return r
	case OList:
		var ss []*Node
		for _, a := range args {
			if a.op == OList {
				ss = append(ss, a.args...)
			} else {
				ss = append(ss, a)
			}
		}
		return mkList(ss, n.typ)
	case OFor:
		panic("for")
	case OEmit:
		return emit(conds[0], args[0])
	case OChoice:
		var ls []leaf
		for i := range args {
			ls = append(ls, leaf{conds[i], args[i]})
		}
		return choice(ls)
	case OBool:
		return boolNode(conds[0])
	case OIdx:
		return mkIdx(args[0])
	case OPrefix:
		return mkPrefix(args[0], args[1])
	case OSlice:
		return mkSlice(args[0], args[1], args[2], n.typ)
	case ORev:
		return mkRev(args[0])
	case OSorted:
		return mkSorted(args[0], args[1])
	case OMap:
		var ss []*Node
		for _, a := range args {
			if a.op == OList {
				ss = append(ss, a.args...)
			} else {
				ss = append(ss, a)
			}
		}
		return mkMap(ss, n.typ)
	case OMapElems:
		return mkMapElems(args[0])
	case OConcat:
		return mkConcat(args)
	case OFmt:
		return mkFmt(n.sym, args[0])
	case OAdd:
		return mkAdd(args[0], args[1])
	case OArith:
		return mkArith(n.sym, args, n.typ)
	case OEq:
		return boolNode(eqB(args[0], args[1]))
	case OLt:
		d, _ := strconv.ParseInt(n.sym, 10, 64)
		return boolNode(ltB(args[0], args[1], d))
	case ONilP:
		return boolNode(nilB(args[0]))
	}
	r := intern(n.op, n.sym, args, conds, n.typ)
	if r.aux == nil {
		r.aux = n.aux
	}
	return r
}

// ---- structural constructors

func mkBox(c *Node) *Node {
	r := intern(OBox, "", []*Node{c}, nil, nil)
	return r
}

func structNode(name string, args []*Node, typ types.Type) *Node {
	return intern(OStruct, name, args, nil, typ)
}

// derefStructType returns the struct type behind t.
func derefStructType(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	u := t.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	s, _ := u.(*types.Struct)
	return s
}

func fieldIndex(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func mkField(x *Node, f string, typ types.Type) *Node {
	switch x.op {
	case OChoice:
		return lift(x, func(y *Node) *Node { return mkField(y, f, typ) })
	case OBox:
		return mkField(x.args[0], f, typ)
	case OStruct:
		if st := derefStructType(x.typ); st != nil {
			if i := fieldIndex(st, f); i >= 0 && i < len(x.args) {
				return x.args[i]
			}
		}
	case OFirst, OLast:
		// a field pinned by the search condition
		if p := pinned(x, f); p != nil {
			return p
		}
	case ONil:
		return intern(OOpaque, "nil."+f, nil, nil, typ)
	}
	if typ == nil {
		if st := derefStructType(x.typ); st != nil {
			if i := fieldIndex(st, f); i >= 0 {
				typ = st.Field(i).Type()
			}
		}
	}
	return intern(OField, f, []*Node{x}, nil, typ)
}

func pinned(x *Node, f string) *Node {
	h, _ := strconv.Atoi(strings.SplitN(x.sym, ":", 2)[0])
	bv := boundVar(h)
	return pinnedBy(bv, x.conds[0], f)
}

// pinnedBy: if c implies v.f == n with n independent of v, return n.
func pinnedBy(v *Node, c B, f string) *Node {
	for _, a := range supportAtoms(c) {
		if a.op != OEq {
			continue
		}
		for i := 0; i < 2; i++ {
			l, r := a.args[i], a.args[1-i]
			if l.op == OField && l.sym == f && l.args[0] == v && !r.has(v) {
				if restrictAtom(c, a, false) == False {
					return r
				}
			}
		}
	}
	return nil
}

func mkIdx(v *Node) *Node {
	if v.op == OChoice {
		return lift(v, mkIdx)
	}
	return intern(OIdx, "", []*Node{v}, nil, types.Typ[types.Int])
}

func mkIndex(x, i *Node, typ types.Type) *Node {
	if x.op == OChoice {
		return lift(x, func(y *Node) *Node { return mkIndex(y, i, typ) })
	}
	if i.op == OChoice {
		return lift(i, func(y *Node) *Node { return mkIndex(x, y, typ) })
	}
	if items, ok := staticItems(x); ok {
		if k, ok := i.intVal(); ok && k >= 0 && int(k) < len(items) {
			return items[k]
		}
	}
	if k, ok := i.intVal(); ok && k >= 0 && x.op == OList && int(k) < len(x.args) {
		// the first elements are there in any case
		fixed := true
		for _, s := range x.args[:k+1] {
			fixed = fixed && s.op == OEmit && s.conds[0] == True
		}
		if fixed {
			return x.args[k].args[0]
		}
	}
	if x.op == OList && len(x.args) > 0 {
		if k, ok := i.intVal(); ok && k == 0 {
			u := freshVar("f", elemType(x.typ), x)
			return mkFirst(u, x, True, u.typ)
		}
	}
	if i.op == OIdx {
		// the position within a prefix is the position within the list
		if d := varDom[i.args[0]]; d != nil && d.op == OPrefix && d.args[0] == x {
			return i.args[0]
		}
	}
	if ls := alternatives(x); ls != nil && i.isConst() {
		out := make([]leaf, len(ls))
		rest := True
		for j, l := range ls {
			out[j] = leaf{l.g, mkIndex(l.v, i, typ)}
			rest = and(rest, not(l.g))
		}
		if rest != False {
			o := opaque("nil.index")
			o.typ = typ
			out = append(out, leaf{rest, o})
		}
		return choice(out)
	}
	if isCall(i, "idxin") && i.args[1] == x {
		return i.args[0]
	}
	if isCall(i, "ridx") {
		// visited from the end
		v := i.args[0]
		d := domOf(v)
		if d != nil && d.op == OPrefix {
			d = d.args[0]
		}
		if d != nil && d == mkRev(x) {
			return v
		}
	}
	if x.op == OStruct && x.sym == "array" {
		if k, ok := i.intVal(); ok && k >= 0 && int(k) < len(x.args) {
			return x.args[k]
		}
	}
	if i.op == OIdx && i.args[0].op == OParam && strings.HasPrefix(i.args[0].sym, "cmp.") {
		return i.args[0]
	}
	if i.op == OIdx {
		v := i.args[0]
		if d := varDom[v]; d != nil && d == x {
			return v
		} else if d != nil && (x.op == OSorted || x.op == ORev) && permHit != nil && mkLen(x) == mkLen(d) {
			permHit[v] = x
		}
		if v.op == OFirst || v.op == OLast {
			if v.args[0] == x {
				return v
			}
		}
	}
	if s, ok := x.strVal(); ok {
		if k, ok := i.intVal(); ok && k >= 0 && int(k) < len(s) {
			return constInt(int64(s[k]))
		}
	}
	if typ == nil {
		typ = elemType(x.typ)
	}
	return intern(OIndex, "", []*Node{x, i}, nil, typ)
}

// alternatives: a list that is one of several whole lists.
func alternatives(x *Node) []leaf {
	if x.op != OList || len(x.args) < 2 {
		return nil
	}
	var out []leaf
	seen := False
	for _, s := range x.args {
		if s.op != OFor {
			return nil
		}
		w, o := open(s)
		b := o.args[1]
		if b.op != OEmit || b.args[0] != w || hasB(b.conds[0], w) || and(seen, b.conds[0]) != False {
			return nil
		}
		seen = or(seen, b.conds[0])
		out = append(out, leaf{b.conds[0], s.args[0]})
	}
	return out
}

// permHit records that a list of the same length as the domain of a variable
// (a sorted or reversed form of it) is read at the variable's index.
var permHit = map[*Node]*Node{}

func mkExt(x *Node, sym string, typ types.Type) *Node {
	if x.op == OChoice {
		return lift(x, func(y *Node) *Node { return mkExt(y, sym, typ) })
	}
	if x.op == OTuple {
		i, _ := strconv.Atoi(sym)
		return x.args[i]
	}
	return intern(OExt, sym, []*Node{x}, nil, typ)
}

func mkLen(x *Node) *Node {
	switch x.op {
	case OChoice:
		return lift(x, mkLen)
	case ONil:
		return constInt(0)
	case OList:
		if items, ok := staticItems(x); ok {
			return constInt(int64(len(items)))
		}
	case OSorted, ORev:
		return mkLen(x.args[0])
	case OOpaque:
		if len(x.args) == 1 {
			return mkLen(x.args[0])
		}
	case OCall:
		switch x.sym {
		case "setidx":
			return mkLen(x.args[0])
		case "zeros":
			return x.args[0]
		}
		if n := matchLen(x); n != nil {
			return n
		}
	}
	if s, ok := x.strVal(); ok {
		return constInt(int64(len(s)))
	}
	return intern(OLen, "", []*Node{x}, nil, types.Typ[types.Int])
}

func mkSlice(x, lo, hi *Node, typ types.Type) *Node {
	if x.op == OChoice {
		return lift(x, func(y *Node) *Node { return mkSlice(y, lo, hi, typ) })
	}
	l, lok := lo.intVal()
	h, hok := hi.intVal()
	if hi.op == ONil && lok && l == 0 {
		return x
	}
	if lok && l == 0 && hi == mkLen(x) {
		return x
	}
	if lok && hok && l == h {
		if isStringType(typ) {
			return constStr("")
		}
		return emptyList
	}
	if items, ok := staticItems(x); ok && lok {
		if hi.op == ONil {
			h, hok = int64(len(items)), true
		}
		if hok && l >= 0 && h <= int64(len(items)) && l <= h {
			return listOf(items[l:h]...)
		}
	}
	if s, ok := x.strVal(); ok && lok {
		if hi.op == ONil {
			h, hok = int64(len(s)), true
		}
		if hok && l >= 0 && h <= int64(len(s)) && l <= h {
			return constStr(s[l:h])
		}
	}
	return intern(OSlice, "", []*Node{x, lo, hi}, nil, typ)
}

func mkRev(x *Node) *Node {
	if x.op == ORev {
		return x.args[0]
	}
	return intern(ORev, "", []*Node{x}, nil, x.typ)
}

func mkSorted(x, less *Node) *Node {
	if x.op == ONil || x == emptyList {
		return x
	}
	if x.op == OList {
		if len(x.args) == 1 && x.args[0].op == OEmit {
			return x
		}
		if totalOrder(less) {
			// the order in which a map is visited is lost
			if y := expandMaps(x); y != x {
				return mkSorted(y, less)
			}
		}
	}
	return intern(OSorted, "", []*Node{x, less}, nil, x.typ)
}

// totalOrder: elements that compare equal are the same.
func totalOrder(less *Node) bool {
	if s, ok := less.strVal(); ok && s == "natural" {
		return true
	}
	return false
}

// distinctDom: a list whose elements differ from each other.
func distinctDom(d *Node) bool { return d.op == OCall && d.sym == "glob" }

// expandMaps visits known maps with distinct keys entry by entry.
func expandMaps(x *Node) *Node {
	var out []*Node
	changed := false
	for _, s := range x.args {
		if s.op != OFor || s.args[0].op != OMapElems {
			out = append(out, s)
			continue
		}
		es := mapEntries(s.args[0].args[0])
		if es == nil {
			out = append(out, s)
			continue
		}
		changed = true
		v, o := open(s)
		for _, e := range es {
			out = append(out, fuse(e, v, o.args[1])...)
		}
	}
	if !changed {
		return x
	}
	return mkList(out, x.typ)
}

// mapEntries: the entries of a map when each is known to have its own key.
func mapEntries(m *Node) []*Node {
	if m.op != OMap || len(m.args) == 0 {
		return nil
	}
	if len(m.args) > 1 {
		// entries of different constant keys
		seen := map[*Node]bool{}
		for _, s := range m.args {
			if s.op != OEmit || s.args[0].sym != "kv" || s.args[0].args[0].op != OConst || seen[s.args[0].args[0]] {
				return nil
			}
			seen[s.args[0].args[0]] = true
		}
		return m.args
	}
	s := m.args[0]
	if s.op == OEmit {
		if s.args[0].sym != "kv" {
			return nil
		}
		return m.args
	}
	if s.op == OFor && distinctDom(s.args[0]) && s.args[1].op == OEmit {
		w, o := open(s)
		kv := o.args[1].args[0]
		if kv.op == OTuple && kv.sym == "kv" && kv.args[0] == w {
			return m.args
		}
	}
	return nil
}

// bagDom: a domain with the same elements where their order is of no account.
func bagDom(d *Node) *Node {
	if d.op == OMapElems {
		if es := mapEntries(d.args[0]); es != nil {
			return mkList(es, d.typ)
		}
	}
	return d
}

func mkPrefix(l, v *Node) *Node { return intern(OPrefix, "", []*Node{l, v}, nil, l.typ) }

// baseDom strips order-only wrappers.
func baseDom(d *Node) *Node {
	for d.op == OSorted || d.op == ORev {
		d = d.args[0]
	}
	return d
}

// uniqueKey returns the field that identifies the elements of the list d.
func uniqueKey(d *Node) string {
	for {
		switch d.op {
		case OSorted, ORev, OPrefix, OSlice:
			d = d.args[0]
			continue
		}
		break
	}
	if d.typ == nil {
		return ""
	}
	nt, ok := d.typ.(*types.Named)
	if !ok {
		return ""
	}
	if d.op == OCall && nt.Obj().Name() == "DefinitionList" {
		return "Name"
	}
	if d.op != OField && d.op != OParam {
		return ""
	}
	switch nt.Obj().Name() {
	case "FieldList", "ArgumentDefinitionList", "ArgumentList", "EnumValueList", "DirectiveDefinitionList":
		return "Name"
	case "DefinitionList":
		if d.sym == "Extensions" {
			return ""
		}
		return "Name"
	case "OperationTypeDefinitionList":
		return "Operation"
	}
	return ""
}

func mkForRaw(v, dom, body *Node) *Node {
	return close_(OFor, "", v, dom, []*Node{body}, nil, nil)
}

// mkFor builds "for v in dom: body" and returns it as segments.
func mkFor(v, dom, body *Node) []*Node {
	if body.op != OFor && body.op != OEmit { // several segments
		body = bodyOf([]*Node{body})
	}
	g := segGuard(body)
	if g == False {
		return nil
	}
	switch dom.op {
	case OList, ONil, OChoice:
		var out []*Node
		for _, s := range segs(dom) {
			out = append(out, fuse(s, v, body)...)
		}
		return out
	}
	if k := uniqueKey(dom); k != "" {
		if p := pinnedBy(v, g, k); p != nil {
			w := freshVar("p", v.typ, dom)
			f := mkFirst(w, dom, eqB(mkField(w, k, nil), p), v.typ)
			ex := not(nilB(f))
			b2 := subst1(body, v, f)
			return guardAll(ex, b2)
		}
	}
	// for v in L if !exists(u in Prefix(L,v): c(u)) && c(v)  ->  the first match
	for _, a := range supportAtoms(g) {
		if a.op == OExists && a.args[0].op == OPrefix && a.args[0].args[1] == v && a.args[0].args[0] == dom && restrictAtom(g, a, true) == False {
			u, o := open(a)
			c := o.conds[0]
			if hasB(c, v) {
				continue
			}
			cv := subst1B(c, u, v)
			if entails(g, cv) {
				f := mkFirst(u, dom, c, v.typ)
				// within the chosen element the prefix test holds
				b2 := assume(body, a, false)
				b2 = subst1(b2, v, f)
				return guardAll(not(nilB(f)), b2)
			}
		}
	}
	// the element itself is a witness of statements that some element exists
	for _, a := range supportAtoms(g) {
		if !cutCommands || a.op != OExists || a.args[0] != dom || a.has(v) {
			continue
		}
		_, o := openWith(a, v)
		if and(g, not(o.conds[0])) == False {
			body = assume(body, a, true)
			g = segGuard(body)
		}
	}
	return []*Node{mkForRaw(v, dom, body)}
}

// assume fixes the truth value of an atom throughout a segment's guard.
func assume(seg *Node, a *Node, val bool) *Node {
	if seg.op == OEmit {
		return emit(restrictAtom(seg.conds[0], a, val), seg.args[0])
	}
	if seg.op != OFor {
		var out []*Node
		for _, x := range bodySegs(seg) {
			out = append(out, assume(x, a, val))
		}
		return bodyOf(out)
	}
	v, o := open(seg)
	return mkForRaw(v, seg.args[0], assume(o.args[1], a, val))
}

func guardAll(g B, body *Node) []*Node {
	var out []*Node
	for _, s := range bodySegs(body) {
		out = append(out, guardSeg(g, s))
	}
	return out
}

// fuse: for x in (segment s): body[v:=x]
func fuse(s, v, body *Node) []*Node {
	if s.op == OEmit {
		b := subst1(body, v, s.args[0])
		return guardAll(s.conds[0], b)
	}
	if s.op != OFor {
		var out []*Node
		for _, x := range bodySegs(s) {
			out = append(out, fuse(x, v, body)...)
		}
		return out
	}
	w, o := open(s)
	inner := fuse(o.args[1], v, body)
	if len(inner) == 0 {
		return nil
	}
	return mkFor(w, s.args[0], bodyOf(inner))
}

// segExists: guard that the segment yields an item satisfying c[v:=item]
func segExists(s, v *Node, c B) B {
	if s.op == OEmit {
		return and(s.conds[0], subst1B(c, v, s.args[0]))
	}
	if s.op != OFor {
		r := False
		for _, x := range bodySegs(s) {
			r = or(r, segExists(x, v, c))
		}
		return r
	}
	w, o := open(s)
	return mkExists(w, s.args[0], segExists(o.args[1], v, c))
}

func nonEmpty(l *Node) B {
	if l.op == OCall {
		if n := matchLen(l); n != nil {
			return matchB(l.args[0], l.args[1])
		}
	}
	v := freshVar("n", elemType(l.typ), l)
	return mkExists(v, l, True)
}

// clauseOf returns the literals of a disjunction of statements that something
// exists, nil for other guards.
func clauseOf(c B) []B {
	var out []B
	for c > True {
		n := bm.nodes[c]
		a := bm.atoms[n.v]
		if a.op != OExists || n.hi != True {
			return nil
		}
		out = append(out, bm.atomVar(a))
		c = n.lo
	}
	if c == True {
		return nil
	}
	return out
}

// dropExcluded removes comparisons with a constant that are settled by a
// comparison of the same value with another constant.
func dropExcluded(c B) B {
	type grp struct {
		x  *Node
		at []*Node
	}
	var groups []grp
	for _, a := range supportAtoms(c) {
		if a.op != OEq {
			continue
		}
		k, x := a.args[0], a.args[1]
		if !k.isConst() {
			k, x = x, k
		}
		if !k.isConst() || x.isConst() {
			continue
		}
		found := false
		for i := range groups {
			if groups[i].x == x {
				groups[i].at = append(groups[i].at, a)
				found = true
			}
		}
		if !found {
			groups = append(groups, grp{x, []*Node{a}})
		}
	}
	for _, g := range groups {
		if len(g.at) < 2 || len(g.at) > 12 {
			continue
		}
		care := True
		for i, a := range g.at {
			for _, b := range g.at[:i] {
				care = and(care, not(and(bm.atomVar(a), bm.atomVar(b))))
			}
		}
		f := and(c, care)
		c = f
		for _, a := range g.at {
			for _, val := range []bool{false, true} {
				if d := restrictAtom(c, a, val); and(d, care) == f {
					c = d
					break
				}
			}
		}
		c = minimize(c, care)
	}
	return c
}

// tidy drops the statement that a list has elements (of some kind) where the
// statements that it has some of a narrower kind make no use of it.
func tidy(c B) B {
	if c <= 1 {
		return c
	}
	as := supportAtoms(c)
	for _, a := range as {
		if a.op != OExists {
			continue
		}
		care := True
		for _, b := range as {
			if b != a && b.op == OExists && b.args[0] == a.args[0] && narrower(b, a) {
				care = and(care, or(not(bm.atomVar(b)), bm.atomVar(a)))
			}
		}
		if care == True {
			continue
		}
		for _, on := range []bool{true, false} {
			if t := restrictAtom(c, a, on); and(xor(c, t), care) == False {
				return tidy(t)
			}
		}
	}
	return c
}

var narrowerMemo = map[[2]*Node]bool{}

// narrower: what satisfies the condition of b satisfies that of a.
func narrower(b, a *Node) bool {
	if a.conds[0] == True {
		return true
	}
	k := [2]*Node{b, a}
	r, ok := narrowerMemo[k]
	if !ok {
		v, ob := open(b)
		_, oa := openWith(a, v)
		r = and(ob.conds[0], not(oa.conds[0])) == False
		narrowerMemo[k] = r
	}
	return r
}

func mkExists(v, dom *Node, c B) B {
	c = tidy(dropExcluded(c))
	if c == False {
		return False
	}
	switch dom.op {
	case OSorted, ORev:
		return mkExists(v, baseDom(dom), c)
	case OMapElems:
		if d := bagDom(dom); d != dom {
			return mkExists(v, d, c)
		}
	case OList, ONil, OChoice:
		r := False
		if dom.op == OChoice {
			for i, a := range dom.args {
				r = or(r, and(dom.conds[i], mkExists(v, a, c)))
			}
			return r
		}
		for _, s := range segs(dom) {
			r = or(r, segExists(s, v, c))
		}
		return r
	}
	if !hasB(c, v) && c != True {
		return and(c, mkExists(v, dom, True))
	}
	if c == True && assumedNonEmpty[dom] {
		return True
	}
	// pull out independent atoms
	for _, ix := range bm.support(c) {
		a := bm.atoms[ix]
		if !a.has(v) {
			ab := bm.atomVar(a)
			return bm.ite(ab, mkExists(v, dom, restrictVar(c, ix, true)), mkExists(v, dom, restrictVar(c, ix, false)))
		}
	}
	// an earlier one like x: x is not the first one of its kind
	if dom.op == OPrefix && isPtrType(elemType(dom.args[0].typ)) && c != True && uniqueKey(dom) == "" {
		if l, x := dom.args[0], dom.args[1]; subst1B(c, v, x) == True {
			w := freshVar("p", v.typ, l)
			return not(eqB(x, mkFirst(w, l, subst1B(c, v, w), v.typ)))
		}
	}
	// one statement per inner list
	if ls := clauseOf(c); len(ls) > 1 {
		r := False
		for _, l := range ls {
			r = or(r, mkExists(v, dom, l))
		}
		return r
	}
	if k := uniqueKey(dom); k != "" {
		if p := pinnedBy(v, c, k); p != nil {
			base := eqB(mkField(v, k, nil), p)
			if x := memberWithKey(dom, k, p); x != nil {
				return subst1B(c, v, x)
			}
			if c == base {
				if isSelfPrefix(dom, k, p) {
					return False
				}
				return bm.atomVar(close_(OExists, "", v, dom, nil, []B{c}, types.Typ[types.Bool]))
			}
			w := freshVar("p", v.typ, dom)
			f := mkFirst(w, dom, eqB(mkField(w, k, nil), p), v.typ)
			rest := restrictAtomOf(c, base)
			return and(mkExists(v, dom, base), subst1B(rest, v, f))
		}
	}
	if f := firstOccurrence(v, dom, c); f != nil {
		return and(not(nilB(f)), subst1B(c, v, f))
	}
	// a known member is a witness
	for x, d := range witnesses(c, dom) {
		if d && subst1B(c, v, x) == True {
			return True
		}
	}
	n := close_(OExists, "", v, dom, nil, []B{c}, types.Typ[types.Bool])
	return bm.atomVar(canonExists(n))
}

// firstOccurrence: c says that v is the first element of dom with its own key
// and that the key is p; then v is the first element with key p.
func firstOccurrence(v, dom *Node, c B) *Node {
	for _, a := range supportAtoms(c) {
		if a.op != OEq {
			continue
		}
		f := a.args[0]
		if f == v {
			f = a.args[1]
		} else if a.args[1] != v {
			continue
		}
		if f.op != OFirst || f.args[0] != dom || !f.has(v) || !entails(c, bm.atomVar(a)) {
			continue
		}
		w, o := open(f)
		k := o.conds[0]
		if k <= 1 || bm.nodes[k].lo != False || bm.nodes[k].hi != True {
			continue
		}
		e := bm.atoms[bm.nodes[k].v]
		if e.op != OEq {
			continue
		}
		x, y := e.args[0], e.args[1]
		if x.op != OField || y.op != OField || x.sym != y.sym || !(x.args[0] == w && y.args[0] == v || x.args[0] == v && y.args[0] == w) {
			continue
		}
		p := pinnedBy(v, c, x.sym)
		if p == nil || p.has(v) {
			continue
		}
		return mkFirst(w, dom, eqB(mkField(w, x.sym, nil), p), v.typ)
	}
	return nil
}

func restrictAtomOf(c, lit B) B {
	// lit is a single positive atom implied by c
	n := bm.nodes[lit]
	if lit > 1 && n.lo == False && n.hi == True {
		return restrictVar(c, n.v, true)
	}
	return minimize(c, lit)
}

func witnesses(c B, dom *Node) map[*Node]bool {
	out := map[*Node]bool{}
	for _, id := range fvB(c) {
		x := nodes[id]
		if d := varDom[x]; d != nil && (d == dom || baseDom(d) == baseDom(dom)) && x.op == OVar && !strings.HasPrefix(x.sym, "B") {
			out[x] = true
		}
	}
	return out
}

// isSelfPrefix: Prefix(L,x) cannot contain an element with x's own key.
func isSelfPrefix(dom *Node, k string, p *Node) bool {
	return dom.op == OPrefix && p.op == OField && p.sym == k && p.args[0] == dom.args[1]
}

// memberWithKey: p is x.k with x known to be a member of dom.
func memberWithKey(dom *Node, k string, p *Node) *Node {
	if p.op == OField && p.sym == k {
		x := p.args[0]
		if d := varDom[x]; d != nil && baseDom(d) == baseDom(dom) {
			return x
		}
	}
	return nil
}

func mkFirst(v, dom *Node, c B, typ types.Type) *Node { return mkFL(OFirst, v, dom, c, typ) }
func mkLast(v, dom *Node, c B, typ types.Type) *Node  { return mkFL(OLast, v, dom, c, typ) }

func mkFL(op Op, v, dom *Node, c B, typ types.Type) *Node {
	c = tidy(dropExcluded(c))
	if c == False {
		return nilNode
	}
	if typ == nil {
		typ = v.typ
	}
	switch dom.op {
	case ONil:
		return nilNode
	case OChoice:
		return lift(dom, func(d *Node) *Node { return mkFL(op, v, d, c, typ) })
	case ORev:
		if op == OFirst {
			return mkFL(OLast, v, dom.args[0], c, typ)
		}
		return mkFL(OFirst, v, dom.args[0], c, typ)
	case OList:
		return segsFirst(op, segs(dom), v, c, typ, False)
	}
	// independent atoms
	for _, ix := range bm.support(c) {
		a := bm.atoms[ix]
		if !a.has(v) {
			ab := bm.atomVar(a)
			return ifte(ab, mkFL(op, v, dom, restrictVar(c, ix, true), typ), mkFL(op, v, dom, restrictVar(c, ix, false), typ))
		}
	}
	if f := firstOccurrence(v, dom, c); f != nil {
		return ifte(and(not(nilB(f)), subst1B(c, v, f)), f, nilNode)
	}
	if k := uniqueKey(dom); k != "" {
		if p := pinnedBy(v, c, k); p != nil {
			base := eqB(mkField(v, k, nil), p)
			if x := memberWithKey(dom, k, p); x != nil {
				return ifte(subst1B(c, v, x), x, nilNode)
			}
			f := close_(OFirst, "", v, baseDom(dom), nil, []B{base}, typ)
			if c == base {
				return f
			}
			rest := restrictAtomOf(c, base)
			return ifte(or(nilB(f), not(subst1B(rest, v, f))), nilNode, f)
		}
	}
	if distinctDom(baseDom(dom)) {
		// the element that equals a known member
		for x := range witnesses(c, dom) {
			if c == eqB(v, x) {
				return x
			}
		}
	}
	return canonFL(close_(op, "", v, dom, nil, []B{c}, typ))
}

// segsFirst: sequential choice over segments.
// some holds when there is a match.
func segsFirst(op Op, ss []*Node, v *Node, c B, typ types.Type, some B) *Node {
	if op == OLast {
		r := make([]*Node, len(ss))
		for i := range ss {
			r[len(ss)-1-i] = ss[i]
		}
		ss = r
	}
	var ls []leaf
	live := True
	for _, s := range ss {
		ex := segExists(s, v, c)
		if and(live, ex) == False {
			continue
		}
		ls = append(ls, leaf{and(live, ex), segFirst(op, s, v, c, typ)})
		live = and(live, not(ex))
	}
	if some == False {
		ls = append(ls, leaf{live, nilNode})
		return choice(ls)
	}
	for i := range ls {
		ls[i].g = minimize(ls[i].g, some)
	}
	return choice(ls)
}

// segFirst: the item of the first match within one segment (assuming one exists).
func segFirst(op Op, s, v *Node, c B, typ types.Type) *Node {
	if s.op == OEmit {
		return s.args[0]
	}
	if s.op != OFor {
		return segsFirst(op, bodySegs(s), v, c, typ, segExists(s, v, c))
	}
	w, o := open(s)
	inner := segExists(o.args[1], v, c)
	f := mkFL(op, w, s.args[0], inner, w.typ)
	in := segFirst(op, o.args[1], v, c, typ)
	return subst1(in, w, f)
}

// lenSum writes the length of a computed list as a sum over the lists it is
// made from.
func lenSum(x *Node) *Node {
	v := freshVar("n", elemType(x.typ), x)
	return mkSum(v, x, True, constInt(1))
}

func sumTerm(n *Node) *Node {
	if n.op == OLen && n.args[0].op == OList {
		return lenSum(n.args[0])
	}
	return n
}

func mkSum(v, dom *Node, c B, term *Node) *Node {
	if c == False {
		return constInt(0)
	}
	term = sumTerm(term)
	if term.op == OChoice || term.op == OAdd {
		r := constInt(0)
		for i, a := range term.args {
			g := True
			if term.op == OChoice {
				g = term.conds[i]
			}
			r = mkAdd(r, mkSum(v, dom, and(c, g), a))
		}
		return r
	}
	if k, ok := term.intVal(); ok && k == 0 {
		return constInt(0)
	}
	dom = bagDom(dom)
	switch dom.op {
	case ONil, OList, OChoice:
		r := constInt(0)
		for _, s := range segs(dom) {
			r = mkAdd(r, segSum(s, v, c, term))
		}
		return r
	}
	// sum of 1 over everything is the length
	if k, ok := term.intVal(); ok && k == 1 && c == True {
		return mkLen(baseDom(dom))
	}
	return close_(OSum, "", v, baseDom(dom), []*Node{term}, []B{c}, types.Typ[types.Int])
}

func segSum(s, v *Node, c B, term *Node) *Node {
	if s.op == OEmit {
		g := and(s.conds[0], subst1B(c, v, s.args[0]))
		return ifte(g, subst1(term, v, s.args[0]), constInt(0))
	}
	if s.op != OFor {
		r := constInt(0)
		for _, x := range bodySegs(s) {
			r = mkAdd(r, segSum(x, v, c, term))
		}
		return r
	}
	w, o := open(s)
	in := segSum(o.args[1], v, c, term)
	return mkSum(w, s.args[0], True, in)
}

// ---- arithmetic on integers

// linear decomposes an int node as base + offset.
func linear(n *Node) (*Node, int64) {
	if k, ok := n.intVal(); ok {
		return nil, k
	}
	if n.op == OAdd {
		if k, ok := n.args[1].intVal(); ok {
			b, o := linear(n.args[0])
			return b, o + k
		}
	}
	return n, 0
}

func mkAdd(a, b *Node) *Node {
	if a.op == OChoice {
		return lift(a, func(x *Node) *Node { return mkAdd(x, b) })
	}
	if b.op == OChoice {
		return lift(b, func(x *Node) *Node { return mkAdd(a, x) })
	}
	la, ka := linear(a)
	lb, kb := linear(b)
	k := ka + kb
	var base *Node
	switch {
	case la == nil && lb == nil:
		return constInt(k)
	case la == nil:
		base = lb
	case lb == nil:
		base = la
	default:
		// flatten and order commutative terms
		var ts []*Node
		var fl func(n *Node)
		fl = func(n *Node) {
			if n.op == OAdd {
				fl(n.args[0])
				fl(n.args[1])
				return
			}
			ts = append(ts, n)
		}
		fl(la)
		fl(lb)
		sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
		base = ts[0]
		for _, t := range ts[1:] {
			base = intern(OAdd, "", []*Node{base, t}, nil, a.typ)
		}
	}
	if k == 0 {
		return base
	}
	return intern(OAdd, "", []*Node{base, constInt(k)}, nil, base.typ)
}

func mkArith(op string, args []*Node, typ types.Type) *Node {
	for i, a := range args {
		if a.op == OChoice {
			i := i
			return lift(a, func(x *Node) *Node {
				as := append([]*Node{}, args...)
				as[i] = x
				return mkArith(op, as, typ)
			})
		}
	}
	if len(args) == 2 {
		x, xok := args[0].intVal()
		y, yok := args[1].intVal()
		if xok && yok {
			switch op {
			case "-":
				return constInt(x - y)
			case "*":
				return constInt(x * y)
			case "|":
				return constInt(x | y)
			case "&":
				return constInt(x & y)
			case "^":
				return constInt(x ^ y)
			case "/":
				if y != 0 {
					return constInt(x / y)
				}
			case "%":
				if y != 0 {
					return constInt(x % y)
				}
			case "<<":
				if y >= 0 && y < 63 {
					return constInt(x << uint(y))
				}
			case ">>":
				if y >= 0 && y < 63 {
					return constInt(x >> uint(y))
				}
			}
		}
		switch op {
		case "-":
			if yok {
				return mkAdd(args[0], constInt(-y))
			}
			if args[0] == args[1] {
				return constInt(0)
			}
		case "|":
			if xok && x == 0 {
				return args[1]
			}
			if yok && y == 0 {
				return args[0]
			}
			if args[0] == args[1] {
				return args[0]
			}
		}
		if (op == "*" || op == "|" || op == "&" || op == "^") && args[0].id > args[1].id {
			args = []*Node{args[1], args[0]}
		}
	}
	return intern(OArith, op, args, nil, typ)
}

// ltB: a < b + d
func ltB(a, b *Node, d int64) B {
	if a.op == OChoice {
		return liftB(a, func(x *Node) B { return ltB(x, b, d) })
	}
	if b.op == OChoice {
		return liftB(b, func(x *Node) B { return ltB(a, x, d) })
	}
	la, ka := linear(a)
	lb, kb := linear(b)
	k := d + kb - ka // la < lb + k
	switch {
	case la == nil && lb == nil:
		if 0 < k {
			return True
		}
		return False
	case la == lb:
		if 0 < k {
			return True
		}
		return False
	case lb == nil:
		return ltConst(la, k)
	case la == nil:
		// 0 < lb + k  <=>  !(lb < 1-k)
		return not(ltConst(lb, 1-k))
	}
	if nb, no, ok := rangeBound(la); ok && nb == lb && k >= no {
		return True
	}
	if nb, no, ok := rangeBound(lb); ok && nb == la && k <= 1-no {
		return False
	}
	if la.op == OIdx && lb.op == OLen && idxWithin(la.args[0], lb.args[0]) && k >= 0 {
		return True
	}
	if la.op == OLen && lb.op == OIdx && idxWithin(lb.args[0], la.args[0]) && k <= 1 {
		return False
	}
	if isCall(la, "idxin") && lb.op == OLen && la.args[1] == lb.args[0] && k >= 0 {
		return True
	}
	if isCall(lb, "idxin") && la.op == OLen && lb.args[1] == la.args[0] && k <= 1 {
		return False
	}
	if isCall(la, "ridx") && lb.op == OLen && domOf(la.args[0]) == mkRev(lb.args[0]) && k >= 0 {
		return True
	}
	if isCall(lb, "ridx") && la.op == OLen && domOf(lb.args[0]) == mkRev(la.args[0]) && k <= 1 {
		return False
	}
	if la.op == OIdx && lb.op == OIdx {
		// an element of a prefix comes before the element that ends it
		if d := domOf(la.args[0]); d != nil && d.op == OPrefix && d.args[1] == lb.args[0] && k >= 0 {
			return True
		}
		if d := domOf(lb.args[0]); d != nil && d.op == OPrefix && d.args[1] == la.args[0] && k <= 1 {
			return False
		}
	}
	if la.id > lb.id {
		// la < lb+k  <=> !(lb < la - k + 1)
		return not(ltAtom(lb, la, 1-k))
	}
	return ltAtom(la, lb, k)
}

// rangeBound: v counts up to base+off.
func rangeBound(v *Node) (base *Node, off int64, ok bool) {
	if v.op != OVar && v.op != OFirst {
		return nil, 0, false
	}
	d := domOf(v)
	for d != nil && d.op == OPrefix {
		d = d.args[0]
	}
	if d == nil || !isCall(d, "range") {
		return nil, 0, false
	}
	base, off = linear(d.args[0])
	return base, off, base != nil
}

func domOf(v *Node) *Node {
	if d := varDom[v]; d != nil {
		return d
	}
	if v.op == OFirst || v.op == OLast {
		return v.args[0]
	}
	return nil
}

// idxWithin: the position of v is a position of l.
func idxWithin(v, l *Node) bool {
	d := domOf(v)
	for d != nil {
		if d == l || baseDom(d) == baseDom(l) {
			return true
		}
		if d.op == OPrefix {
			d = d.args[0]
			continue
		}
		return false
	}
	return false
}

func ltAtom(a, b *Node, k int64) B {
	return bm.atomVar(intern(OLt, strconv.FormatInt(k, 10), []*Node{a, b}, nil, types.Typ[types.Bool]))
}

// ltConst: t < k
func ltConst(t *Node, k int64) B {
	if nonNeg(t) && k <= 0 {
		return False
	}
	if t.op == OLen && k == 1 {
		x := t.args[0]
		if isStringType(x.typ) || x.op == OConcat {
			return eqB(x, constStr(""))
		}
		if isMapType(x.typ) {
			return not(nonEmpty(mkMapElems(x)))
		}
		return not(nonEmpty(x))
	}
	if t.op == OLen && t.args[0].op == OList {
		if u := lenSum(t.args[0]); u != t {
			return ltB(u, constInt(k), 0)
		}
	}
	if t.op == OSum && k == 1 {
		v, o := open(t)
		if nonNeg(o.args[1]) {
			return not(mkExists(v, t.args[0], and(o.conds[0], not(ltB(o.args[1], constInt(1), 0)))))
		}
	}
	if t.op == OAdd && k == 1 && nonNeg(t.args[0]) && nonNeg(t.args[1]) {
		return and(ltB(t.args[0], constInt(1), 0), ltB(t.args[1], constInt(1), 0))
	}
	return ltAtom(t, constInt(0), k)
}

func nonNeg(t *Node) bool {
	switch t.op {
	case OLen, OIdx:
		return true
	case OCall:
		return t.sym == "ridx" || t.sym == "runeoff" || t.sym == "idxin"
	case OConst:
		k, ok := t.intVal()
		return ok && k >= 0
	case OSum:
		return nonNeg(t.args[1])
	case OAdd:
		return nonNeg(t.args[0]) && nonNeg(t.args[1])
	case OIndex:
		return isStringType(t.args[0].typ)
	case OVar, OFirst:
		if _, _, ok := rangeBound(t); ok {
			return true
		}
	}
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return true
		}
	}
	return false
}

// ---- equality

func isIntNode(n *Node) bool {
	if _, ok := n.intVal(); ok {
		return true
	}
	switch n.op {
	case OLen, OIdx, OSum, OAdd:
		return true
	}
	return isIntType(n.typ)
}

func eqB(a, b *Node) B {
	if a == b {
		return True
	}
	if a.op == OChoice {
		return liftB(a, func(x *Node) B { return eqB(x, b) })
	}
	if b.op == OChoice {
		return liftB(b, func(x *Node) B { return eqB(a, x) })
	}
	if a.op == OConst && b.op == OConst {
		return False
	}
	for _, p := range [2][2]*Node{{a, b}, {b, a}} {
		if t, ok := p[0].strVal(); ok && t == "<nil>" && p[1].op == OCall && isValueText(p[1].sym) {
			return nilB(p[1].args[0])
		}
	}
	if a.op == ONil {
		return nilB(b)
	}
	if b.op == ONil {
		return nilB(a)
	}
	if a == emptyList {
		return nilB(b)
	}
	if b == emptyList {
		return nilB(a)
	}
	if isBoolNode(a) || isBoolNode(b) {
		return iff(cond(a), cond(b))
	}
	if isIntNode(a) || isIntNode(b) {
		return and(not(ltB(a, b, 0)), not(ltB(b, a, 0)))
	}
	if a.op == OStruct && b.op == OStruct && a.sym == b.sym && len(a.args) == len(b.args) {
		r := True
		for i := range a.args {
			r = and(r, eqB(a.args[i], b.args[i]))
		}
		return r
	}
	if a.op == OFunc && b.op == OFunc {
		return False
	}
	if a.op == ORef && b.op == ORef {
		return False
	}
	if a == emptyStr && neverEmpty(b) || b == emptyStr && neverEmpty(a) {
		return False
	}
	if distinctA != nil && twoRoots(a, b, distinctA, distinctB) {
		comparedByAddress = true
		return False
	}
	if a.id > b.id {
		a, b = b, a
	}
	if a.op == OConst && b.op != OConst {
		a, b = b, a
	}
	// comparison of a list element with its own search result
	return bm.atomVar(intern(OEq, "", []*Node{a, b}, nil, types.Typ[types.Bool]))
}

var emptyStr = constStr("")

// neverEmpty: names in a parsed document are never empty.
func neverEmpty(n *Node) bool {
	if assumedNonEmpty[n] {
		return true
	}
	switch n.op {
	case OField:
		if n.sym == "Name" && n.args[0].typ != nil {
			t := n.args[0].typ
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			if nt, ok := t.(*types.Named); ok && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == pkgAst {
				switch nt.Obj().Name() {
				case "Definition", "FieldDefinition", "ArgumentDefinition", "EnumValueDefinition", "DirectiveDefinition", "Directive", "Argument":
					return true
				}
			}
		}
	case OConcat:
		for _, p := range n.args {
			if s, ok := p.strVal(); ok && s != "" {
				return true
			}
			if neverEmpty(p) {
				return true
			}
		}
	}
	return false
}

func isBoolNode(n *Node) bool {
	switch n.op {
	case OBool, OEq, OLt, ONilP, OExists:
		return true
	}
	return isBoolType(n.typ)
}

var nonNilParams = map[*Node]bool{}

// nonNilFields: pointers the parser always sets.
var nonNilFields = map[string]bool{"Position": true, "Type": true, "Src": true, "position": true}

func nilB(x *Node) B {
	switch x.op {
	case ONil:
		return True
	case OChoice:
		return liftB(x, nilB)
	case OBox, ORef, OFunc, OClosure, OAddr, OConst, OStruct, OConcat, OFmt, OBool:
		return False
	case OList, OSorted, ORev:
		return not(nonEmpty(x))
	case OMap:
		return False
	case OVar:
		if d := varDom[x]; d != nil && isPtrType(x.typ) {
			return False
		}
	case OParam:
		if strings.HasPrefix(x.sym, "&") || nonNilParams[x] {
			return False
		}
	case OIndex:
		if isPtrType(x.typ) {
			return False
		}
	case OFirst, OLast:
		v, o := open(x)
		return not(mkExists(v, x.args[0], o.conds[0]))
	case OField:
		if nonNilFields[x.sym] && isPtrType(x.typ) {
			return False
		}
		if len(setFields) > 0 {
			if d := varDom[x.args[0]]; d != nil && (isCall(d, "apply") || isCall(d, "changes")) && setFields[elemName(d)+"."+x.sym] {
				return False
			}
		}
	case OCall:
		if neverNil(x) {
			return False
		}
	}
	if isSliceType(x.typ) {
		return not(nonEmpty(x))
	}
	return bm.atomVar(intern(ONilP, "", []*Node{x}, nil, types.Typ[types.Bool]))
}

func neverNil(x *Node) bool {
	switch x.sym {
	case "error", "regexp", "lexer.New":
		return true
	}
	return false
}

// ---- strings

func mkConcat(parts []*Node) *Node {
	for i, p := range parts {
		if p.op == OChoice {
			i := i
			return lift(p, func(x *Node) *Node {
				ps := append([]*Node{}, parts...)
				ps[i] = x
				return mkConcat(ps)
			})
		}
	}
	var out []*Node
	var add func(p *Node)
	add = func(p *Node) {
		if p.op == OConcat {
			for _, q := range p.args {
				add(q)
			}
			return
		}
		if s, ok := p.strVal(); ok {
			if s == "" {
				return
			}
			if len(out) > 0 {
				if t, ok := out[len(out)-1].strVal(); ok {
					out[len(out)-1] = constStr(t + s)
					return
				}
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		add(p)
	}
	switch len(out) {
	case 0:
		return constStr("")
	case 1:
		return out[0]
	}
	return intern(OConcat, "", out, nil, types.Typ[types.String])
}

func mkFmt(verb string, x *Node) *Node {
	if x.op == OChoice {
		return lift(x, func(y *Node) *Node { return mkFmt(verb, y) })
	}
	if s, ok := x.strVal(); ok && (verb == "%s" || verb == "%v") {
		return constStr(s)
	}
	if k, ok := x.intVal(); ok && (verb == "%d" || verb == "%v") {
		return constStr(strconv.FormatInt(k, 10))
	}
	if (verb == "%s" || verb == "%v") && (isStringType(x.typ) || x.op == OConcat || x.op == OFmt) {
		return x
	}
	if verb == "%v" && isIntNode(x) {
		verb = "%d"
	}
	if verb == "%s" {
		verb = "%v"
	}
	if x.op == OCall && x.sym == "error" {
		return x.args[0]
	}
	if u := sumTerm(x); u != x {
		return mkFmt(verb, u)
	}
	return intern(OFmt, verb, []*Node{x}, nil, types.Typ[types.String])
}

// ---- maps

func mkMap(ss []*Node, typ types.Type) *Node {
	return intern(OMap, "", ss, nil, typ)
}

func mapPut(m *Node, k, v *Node) *Node {
	return mkMap(append(append([]*Node{}, mapSegs(m)...), emit(True, intern(OTuple, "kv", []*Node{k, v}, nil, nil))), m.typ)
}

func mapSegs(m *Node) []*Node {
	if m.op == OMap {
		return m.args
	}
	if m.op == ONil {
		return nil
	}
	if m.op == OChoice {
		var ls []leaf
		for i, a := range m.args {
			ls = append(ls, leaf{m.conds[i], intern(OList, "", mapSegs(a), nil, nil)})
		}
		return segs(mergeLists(ls))
	}
	// unknown map: all its elements
	d := mkMapElems(m)
	v := freshVar("kv", nil, d)
	return []*Node{mkForRaw(v, d, emit(True, intern(OTuple, "kv", []*Node{mapKey(v, m.typ), mapVal(v, m.typ)}, nil, nil)))}
}

func mkMapElems(m *Node) *Node { return intern(OMapElems, "", []*Node{m}, nil, nil) }

func mapKey(v *Node, mt types.Type) *Node {
	var t types.Type
	if mt != nil {
		if m, ok := mt.Underlying().(*types.Map); ok {
			t = m.Key()
		}
	}
	return mkCall("mapkey", []*Node{v}, t, nil)
}
func mapVal(v *Node, mt types.Type) *Node {
	return mkCall("mapval", []*Node{v}, elemType(mt), nil)
}

// lookup returns value and presence of key k in m.
func lookup(m, k *Node, zero *Node) (*Node, B) {
	if m.op == OChoice {
		var ls []leaf
		ok := False
		for i, a := range m.args {
			v, o := lookup(a, k, zero)
			ls = append(ls, leaf{m.conds[i], v})
			ok = or(ok, and(m.conds[i], o))
		}
		return choice(ls), ok
	}
	if k.op == OChoice {
		var ls []leaf
		ok := False
		for i, a := range k.args {
			v, o := lookup(m, a, zero)
			ls = append(ls, leaf{k.conds[i], v})
			ok = or(ok, and(k.conds[i], o))
		}
		return choice(ls), ok
	}
	if m.op == ONil {
		return zero, False
	}
	if m.op != OMap {
		if isKeyOf(k, m) {
			return mkCall("mapget", []*Node{m, k}, elemType(m.typ), nil), True
		}
		okn := mkCall("mapok", []*Node{m, k}, types.Typ[types.Bool], nil)
		val := mkCall("mapget", []*Node{m, k}, elemType(m.typ), nil)
		if isBoolType(elemType(m.typ)) {
			return val, cond(okn)
		}
		return val, cond(okn)
	}
	ss := m.args
	for _, s := range ss {
		if hasApp(s) {
			return lookupApp(ss, k)
		}
	}
	// last write wins
	live := True
	var ls []leaf
	for i := len(ss) - 1; i >= 0; i-- {
		val, ok := segLookup(ss[i], k)
		ls = append(ls, leaf{and(live, ok), val})
		live = and(live, not(ok))
	}
	ls = append(ls, leaf{live, zero})
	return choice(ls), not(live)
}

// isKeyOf: k is an element of a list made of keys of the unknown map m.
func isKeyOf(k, m *Node) bool {
	if k.op == OCall && k.sym == "mapkey" {
		d := domOf(k.args[0])
		return d != nil && d.op == OMapElems && d.args[0] == m
	}
	d := domOf(k)
	for d != nil && (d.op == OSorted || d.op == ORev || d.op == OPrefix || d.op == OSlice) {
		d = d.args[0]
	}
	if d == nil || d.op != OList || len(d.args) == 0 {
		return false
	}
	for _, s := range d.args {
		if s.op != OFor || s.args[0].op != OMapElems || s.args[0].args[0] != m {
			return false
		}
		w, o := open(s)
		if o.args[1].op != OEmit {
			return false
		}
		if x := o.args[1].args[0]; x.op != OCall || x.sym != "mapkey" || x.args[0] != w {
			return false
		}
	}
	return true
}

// group maps: m[k] = append(m[k], x) adds to what is there
func hasApp(s *Node) bool {
	for s.op == OFor {
		s = s.args[1]
	}
	if s.op == OList {
		for _, x := range s.args {
			if hasApp(x) {
				return true
			}
		}
		return false
	}
	return s.op == OEmit && s.args[0].sym == "kvapp"
}

func lookupApp(ss []*Node, k *Node) (*Node, B) {
	acc, ok := emptyList, False
	for _, s := range ss {
		if hasApp(s) {
			add, p := segApp(s, k)
			acc, ok = appendList(acc, mkList(add, nil)), or(ok, p)
			continue
		}
		v, p := segLookup(s, k)
		acc, ok = choice([]leaf{{p, v}, {not(p), acc}}), or(ok, p)
	}
	return acc, ok
}

// segApp: what the appending entries of s contribute to key k.
func segApp(s, k *Node) ([]*Node, B) {
	if s.op == OEmit {
		kv := s.args[0]
		g := and(s.conds[0], eqB(kv.args[0], k))
		var out []*Node
		for _, x := range segs(kv.args[1]) {
			if y := guardSeg(g, x); segGuard(y) != False {
				out = append(out, y)
			}
		}
		return out, g
	}
	if s.op != OFor {
		var out []*Node
		p := False
		for _, x := range bodySegs(s) {
			if !hasApp(x) {
				panic(undecided("map of lists filled in several ways in one loop"))
			}
			in, q := segApp(x, k)
			out, p = append(out, in...), or(p, q)
		}
		return out, p
	}
	w, o := open(s)
	in, p := segApp(o.args[1], k)
	if len(in) == 0 {
		return nil, mkExists(w, s.args[0], p)
	}
	return mkFor(w, s.args[0], bodyOf(in)), mkExists(w, s.args[0], p)
}

func segLookup(s, k *Node) (*Node, B) {
	if s.op == OEmit {
		kv := s.args[0]
		if kv.op == OChoice || len(kv.args) < 2 {
			panic(undecided("map entry of unknown shape"))
		}
		return kv.args[1], and(s.conds[0], eqB(kv.args[0], k))
	}
	if s.op != OFor {
		// last write wins
		live := True
		var ls []leaf
		ss := bodySegs(s)
		for i := len(ss) - 1; i >= 0; i-- {
			val, ok := segLookup(ss[i], k)
			ls = append(ls, leaf{and(live, ok), val})
			live = and(live, not(ok))
		}
		ls = append(ls, leaf{live, nilNode})
		return choice(ls), not(live)
	}
	w, o := open(s)
	// unknown base map
	if s.args[0].op == OMapElems && o.args[1].op == OEmit {
		m := s.args[0].args[0]
		if o.args[1].conds[0] == True {
			return lookup(m, k, nilNode)
		}
	}
	val, ok := segLookup(o.args[1], k)
	ex := mkExists(w, s.args[0], ok)
	if ex == False {
		return nilNode, False
	}
	f := mkLast(w, s.args[0], ok, w.typ)
	return subst1(val, w, f), ex
}

// ---- display

// nodeName: short names for large values in reports.
var nodeName = map[*Node]string{}

func (n *Node) String() string { return show(n, 0) }

func show(n *Node, d int) string {
	if n == nil {
		return "<none>"
	}
	if s, ok := nodeName[n]; ok && d > 0 {
		return s
	}
	if d > 14 {
		return "…"
	}
	a := func(i int) string { return show(n.args[i], d+1) }
	list := func(xs []*Node) string {
		var out []string
		for _, x := range xs {
			out = append(out, show(x, d+1))
		}
		return strings.Join(out, ", ")
	}
	bv := func() string { return "B" + strings.SplitN(n.sym, ":", 2)[0] }
	switch n.op {
	case OConst:
		if strings.HasPrefix(n.sym, "s:") {
			return strconv.Quote(n.sym[2:])
		}
		return n.sym[2:]
	case ONil:
		return "nil"
	case OParam, OVar:
		return n.sym
	case OField:
		return a(0) + "." + n.sym
	case OIndex:
		return a(0) + "[" + a(1) + "]"
	case OLen:
		return "len(" + a(0) + ")"
	case OCall:
		s := n.sym
		if i := strings.LastIndex(s, "/"); i >= 0 {
			s = s[i+1:]
		}
		return s + "(" + list(n.args) + ")"
	case OExt:
		return a(0) + "#" + n.sym
	case OStruct:
		return "{" + list(n.args) + "}"
	case OBox:
		return "&" + a(0)
	case OTuple:
		return "<" + list(n.args) + ">"
	case OList:
		return "[" + strings.Join(mapStr(n.args, d), "; ") + "]"
	case OMap:
		return "map[" + strings.Join(mapStr(n.args, d), "; ") + "]"
	case OFor:
		return "for " + bv() + " in " + a(0) + ": " + a(1)
	case OEmit:
		if n.conds[0] == True {
			return a(0)
		}
		return "if " + showB(n.conds[0], d+1) + " -> " + a(0)
	case OChoice:
		var out []string
		for i := range n.args {
			out = append(out, showB(n.conds[i], d+1)+" => "+a(i))
		}
		return "(" + strings.Join(out, " | ") + ")"
	case OBool:
		return "b(" + showB(n.conds[0], d+1) + ")"
	case OFirst:
		return "first(" + bv() + " in " + a(0) + ": " + showB(n.conds[0], d+1) + ")"
	case OLast:
		return "last(" + bv() + " in " + a(0) + ": " + showB(n.conds[0], d+1) + ")"
	case OExists:
		return "exists(" + bv() + " in " + a(0) + ": " + showB(n.conds[0], d+1) + ")"
	case OSum:
		return "sum(" + bv() + " in " + a(0) + " if " + showB(n.conds[0], d+1) + ": " + a(1) + ")"
	case OEq:
		return "(" + a(0) + "==" + a(1) + ")"
	case OLt:
		if n.args[1].isConst() {
			return "(" + a(0) + "<" + n.sym + ")"
		}
		return "(" + a(0) + "<" + a(1) + "+" + n.sym + ")"
	case ONilP:
		return "nil?(" + a(0) + ")"
	case OConcat:
		return "cat(" + list(n.args) + ")"
	case OFmt:
		return "fmt" + n.sym + "(" + a(0) + ")"
	case OAdd:
		return "(" + a(0) + "+" + a(1) + ")"
	case OArith:
		return "(" + n.sym + " " + list(n.args) + ")"
	case OEvent:
		return "!" + n.sym + "(" + list(n.args) + ")"
	case OPrefix:
		return "prefix(" + list(n.args) + ")"
	case OOpaque:
		return "?" + n.sym
	case OFunc:
		return "func:" + n.sym
	}
	return fmt.Sprintf("op%d:%s(%s)", n.op, n.sym, list(n.args))
}

func mapStr(ns []*Node, d int) []string {
	var out []string
	for _, x := range ns {
		out = append(out, show(x, d+1))
	}
	return out
}

func showB(c B, d int) string {
	if c == True {
		return "true"
	}
	if c == False {
		return "false"
	}
	if d > 14 {
		return "…"
	}
	cs := cubesD(c, 6, d)
	if len(cs) == 1 {
		return cs[0]
	}
	return "{" + strings.Join(cs, " || ") + "}"
}

func cubesD(f B, max, d int) []string {
	var out []string
	var rec func(x B, acc string)
	rec = func(x B, acc string) {
		if len(out) > max {
			return
		}
		if x == False {
			return
		}
		if x == True {
			if len(out) == max {
				acc = "…"
			}
			out = append(out, acc)
			return
		}
		n := bm.nodes[x]
		a := show(bm.atoms[n.v], d+1)
		sep := ""
		if acc != "" {
			sep = " & "
		}
		rec(n.hi, acc+sep+a)
		rec(n.lo, acc+sep+"!"+a)
	}
	rec(f, "")
	return out
}
