package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Path-wise symbolic transfer functions of straight-line segments for the
// bisimulation engine: from a loop header (or the entry) to the next one.

type bval any

type (
	bPtr struct {
		obj  string
		path string // "/1/0"
	}
	bNil   struct{}
	bAgg   []bval
	bSlice struct {
		obj     string
		lo, len *tm
	}
	bIface struct {
		t types.Type
		v bval
	}
	bFunc struct {
		fn   *ssa.Function
		bind []bval
	}
	bBytes struct{ seq *tm } // a []byte under construction
	bMap   struct{ obj string }
)

type bFrame struct {
	fn    *ssa.Function
	block *ssa.BasicBlock
	prev  *ssa.BasicBlock
	idx   int
	env   map[ssa.Value]bval
	fresh bool // at a cut point: do not cut again before moving on
	call  ssa.Instruction
}

type bObj struct {
	v bval // struct: bAgg; array: bAgg; text buffer or symbolic array: *tm
	t types.Type
}

type bState struct {
	side   *bSide
	frames []*bFrame
	mem    map[string]*bObj
	f      *facts
	steps  map[*ssa.BasicBlock]int
	exit   string // "", cut, return, restart, panic
	ret    []bval
	at     token.Pos
}

type bSide struct {
	pkg     *ssa.Package
	eng     *bisim
	globals map[string]*bObj // initialised once, never written afterwards
	live    map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	heads   map[*ssa.Function]map[*ssa.BasicBlock]bool
	entry   *ssa.Function
	recv    bval
}

type bisim struct {
	inPkg map[*ssa.Package]bool
	fns   map[*ssa.Function]bool
	n     int
}

type needSplit struct{ a bAtom }

func (s *bState) clone() *bState {
	c := *s
	c.frames = make([]*bFrame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]bval, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		c.frames[i] = &g
	}
	c.mem = make(map[string]*bObj, len(s.mem))
	for k, v := range s.mem {
		c.mem[k] = v
	}
	c.steps = make(map[*ssa.BasicBlock]int, len(s.steps))
	for k, v := range s.steps {
		c.steps[k] = v
	}
	c.f = s.f.clone()
	return &c
}

func (s *bState) top() *bFrame { return s.frames[len(s.frames)-1] }

func bUnd(format string, a ...any) undecided {
	return undecided(fmt.Sprintf(format, a...))
}

// ask decides an atom or asks for the path to be split.
func (s *bState) ask(a bAtom) bool {
	switch s.f.decide(a) {
	case 1:
		return true
	case 0:
		return false
	}
	panic(needSplit{a})
}

func (s *bState) ge(l lin) bool   { return s.ask(linAtom('g', l)) }
func (s *bState) zero(l lin) bool { return s.ask(linAtom('z', l)) }

func linAtom(kind byte, l lin) bAtom {
	if len(l.m) == 1 {
		for a, k := range l.m {
			if isTab(a) {
				set := tabSet(a, func(v int64) bool {
					if kind == 'z' {
						return k*v+l.c == 0
					}
					return k*v+l.c >= 0
				})
				return bAtom{kind: 'b', t: tabAtom(a), set: set}
			}
		}
	}
	return bAtom{kind: kind, l: l}
}

type bPanic struct{}

// ---- running

// run explores from s until every path has reached a cut point or an exit.
func (e *bisim) run(s *bState) []*bState {
	var out []*bState
	work := []*bState{s}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for s.exit == "" {
			if sp := e.step(s); sp != nil {
				t := s.clone()
				t.f.assume(*sp, false)
				s.f.assume(*sp, true)
				work = append(work, t)
			}
			e.n++
			if e.n > 20_000_000 {
				panic(bUnd("the scanner has too many paths"))
			}
		}
		out = append(out, s)
		if len(out) > 60_000 {
			panic(bUnd("the scanner has too many paths"))
		}
	}
	return out
}

func (e *bisim) step(s *bState) (sp *bAtom) {
	fr := s.top()
	fresh := fr.fresh
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case needSplit:
				sp = &x.a
				fr.fresh = fresh
			case bPanic:
				s.exit = "panic"
				if fr.idx < len(fr.block.Instrs) {
					s.at = fr.block.Instrs[fr.idx].Pos()
				}
			default:
				panic(r)
			}
		}
	}()
	if fr.idx == 0 && !fr.fresh && e.side(fr.fn, s).heads[fr.fn][fr.block] {
		if e.mustCut(s) {
			s.exit = "cut"
			return nil
		}
		s.steps[fr.block]++
		if s.steps[fr.block] > 400 {
			panic(bUnd("a loop of %s is not followed", fr.fn.Name()))
		}
	}
	fr.fresh = false
	fr.idx = max(fr.idx, firstReal(fr.block))
	e.instr(s, fr)
	return nil
}

func (e *bisim) side(fn *ssa.Function, s *bState) *bSide {
	s.side.prepare(fn)
	return s.side
}

// prepare computes loop headers and liveness.
func (d *bSide) prepare(fn *ssa.Function) {
	if d.heads[fn] != nil {
		return
	}
	d.eng.fns[fn] = true
	h := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, t := range b.Succs {
			if t.Dominates(b) {
				h[t] = true
			}
		}
	}
	d.heads[fn] = h
	// liveness at block starts (after the phis, which are kept as live)
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	local := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			l := map[ssa.Value]bool{}
			for _, t := range b.Succs {
				for v := range in[t] {
					if p, ok := v.(*ssa.Phi); ok && p.Block() == t {
						continue
					}
					l[v] = true
				}
				k := 0
				for j, p := range t.Preds {
					if p == b {
						k = j
					}
				}
				for _, x := range t.Instrs {
					if p, ok := x.(*ssa.Phi); ok && local(p.Edges[k]) && in[t][p] {
						l[p.Edges[k]] = true
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				x := b.Instrs[j]
				if v, ok := x.(ssa.Value); ok {
					if _, phi := x.(*ssa.Phi); !phi {
						delete(l, v)
					}
				}
				if _, phi := x.(*ssa.Phi); phi {
					continue
				}
				for _, o := range x.Operands(nil) {
					if local(*o) {
						l[*o] = true
					}
				}
			}
			if len(l) != len(in[b]) {
				ch = true
			}
			in[b] = l
		}
	}
	d.live[fn] = in
}

// liveAfter: values needed after the call instruction at idx of block b.
func (d *bSide) liveAfter(fn *ssa.Function, b *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	l := map[ssa.Value]bool{}
	for _, t := range b.Succs {
		for v := range d.live[fn][t] {
			if p, ok := v.(*ssa.Phi); ok && p.Block() == t {
				continue
			}
			l[v] = true
		}
		for j, p := range t.Preds {
			if p != b {
				continue
			}
			for _, x := range t.Instrs {
				if ph, ok := x.(*ssa.Phi); ok && d.live[fn][t][ph] {
					l[ph.Edges[j]] = true
				}
			}
		}
	}
	for j := len(b.Instrs) - 1; j > idx; j-- {
		if v, ok := b.Instrs[j].(ssa.Value); ok {
			delete(l, v)
		}
		for _, o := range b.Instrs[j].Operands(nil) {
			l[*o] = true
		}
	}
	if v, ok := b.Instrs[idx].(ssa.Value); ok {
		delete(l, v)
	}
	return l
}

// mustCut: whether the loop at whose header s stands runs a number of times
// that is not known.
func (e *bisim) mustCut(s *bState) bool {
	fr := s.top()
	c, ok := fr.block.Instrs[len(fr.block.Instrs)-1].(*ssa.If)
	if !ok {
		return true
	}
	bo, ok := c.Cond.(*ssa.BinOp)
	if !ok || bo.Block() != fr.block {
		// the condition may be the result of stepping an iterator over a known text
		return true
	}
	t := s.clone()
	t.f = newFacts()
	tf := t.top()
	tf.idx = firstReal(tf.block)
	cut := true
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case needSplit, bPanic, undecided:
				default:
					panic(r)
				}
			}
		}()
		for tf.block.Instrs[tf.idx] != ssa.Instruction(c) {
			if _, ok := tf.block.Instrs[tf.idx].(*ssa.Call); ok {
				call := tf.block.Instrs[tf.idx].(*ssa.Call)
				if _, b := call.Call.Value.(*ssa.Builtin); !b {
					return
				}
			}
			e.instr(t, tf)
		}
		for _, o := range []ssa.Value{bo.X, bo.Y} {
			x, ok := t.get(tf, o).(*tm)
			if !ok {
				return
			}
			if _, k := x.isInt(); !k {
				return
			}
		}
		cut = false
	}()
	return cut
}

func (s *bState) get(fr *bFrame, v ssa.Value) bval {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Global:
		return bPtr{"glob:" + v.String(), ""}
	case *ssa.Function:
		return bFunc{v, nil}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(bUnd("%s: value %s is not known", fr.fn, v.Name()))
	}
	return r
}

func constVal(c *ssa.Const) bval {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return constant.BoolVal(c.Value)
	case constant.String:
		return tmStr(constant.StringVal(c.Value))
	case constant.Int:
		k, ok := constant.Int64Val(c.Value)
		if !ok {
			return tmMk(tm{op: "sym", sym: "const " + c.Value.ExactString(), sort: 'o'})
		}
		return tmInt(k)
	}
	panic(bUnd("constant %s", c))
}

func isBuffer(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return p == "bytes.Buffer" || p == "strings.Builder"
}

func zeroOf(t types.Type) bval {
	if isBuffer(t) {
		return tmStr("")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return tmStr("")
		case u.Info()&types.IsInteger != 0:
			return tmInt(0)
		}
	case *types.Struct:
		a := make(bAgg, u.NumFields())
		for i := range a {
			a[i] = zeroOf(u.Field(i).Type())
		}
		return a
	case *types.Array:
		if u.Len() > 4096 {
			break
		}
		a := make(bAgg, u.Len())
		for i := range a {
			a[i] = zeroOf(u.Elem())
		}
		return a
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		return bNil{}
	case *types.Tuple:
		return bAgg{}
	}
	panic(bUnd("zero value of %s", t))
}

// ---- memory

func (s *bState) obj(name string) *bObj {
	if o := s.mem[name]; o != nil {
		return o
	}
	if o := s.side.globals[name]; o != nil {
		return o
	}
	panic(bUnd("object %s is not known", name))
}

func (s *bState) load(p bPtr) bval {
	v := s.obj(p.obj).v
	for _, i := range pathOf(p.path) {
		a, ok := v.(bAgg)
		if !ok {
			panic(bUnd("reading inside %T", v))
		}
		v = a[i]
	}
	return v
}

func (s *bState) store(p bPtr, x bval) {
	o := s.obj(p.obj)
	if s.mem[p.obj] == nil {
		panic(bUnd("writing to %s", p.obj))
	}
	if strings.HasPrefix(p.obj, "rigid") {
		panic(bUnd("writing to the document"))
	}
	s.mem[p.obj] = &bObj{setPath(o.v, pathOf(p.path), x), o.t}
}

func setPath(v bval, path []int, x bval) bval {
	if len(path) == 0 {
		return x
	}
	a, ok := v.(bAgg)
	if !ok {
		panic(bUnd("writing inside %T", v))
	}
	b := append(bAgg{}, a...)
	b[path[0]] = setPath(a[path[0]], path[1:], x)
	return b
}

func pathOf(p string) []int {
	var out []int
	for _, x := range strings.Split(p, "/")[1:] {
		n := 0
		fmt.Sscan(x, &n)
		out = append(out, n)
	}
	return out
}

func init() { _ = pathOf }

func (s *bState) alloc(in ssa.Value, t types.Type, v bval) string {
	var b strings.Builder
	for _, f := range s.frames {
		fmt.Fprintf(&b, "%s.", f.fn.Name())
		if f.call != nil {
			fmt.Fprintf(&b, "%d.", instrNo(f.call))
		}
	}
	fmt.Fprintf(&b, "%s", in.Name())
	name := b.String()
	for i := 0; s.mem[name] != nil; i++ {
		if i > 40 {
			panic(bUnd("%s allocates without bound", s.top().fn))
		}
		name = fmt.Sprintf("%s#%d", b.String(), i)
	}
	s.mem[name] = &bObj{v, t}
	return name
}

func instrNo(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return in.Block().Index*1000 + i
		}
	}
	return -1
}

// gc drops objects that are no longer reachable.
func (s *bState) gc() {
	seen := map[string]bool{}
	var visit func(v bval)
	obj := func(n string) {
		if !seen[n] {
			seen[n] = true
			if o := s.mem[n]; o != nil {
				visit(o.v)
			}
		}
	}
	visit = func(v bval) {
		switch v := v.(type) {
		case bPtr:
			obj(v.obj)
		case bSlice:
			obj(v.obj)
		case bMap:
			obj(v.obj)
		case bAgg:
			for _, x := range v {
				visit(x)
			}
		case bIface:
			visit(v.v)
		case bFunc:
			for _, x := range v.bind {
				visit(x)
			}
		}
	}
	for _, f := range s.frames {
		for _, v := range f.env {
			visit(v)
		}
	}
	for _, v := range s.ret {
		visit(v)
	}
	visit(s.side.recv)
	for n := range s.mem {
		if !seen[n] && !strings.HasPrefix(n, "rigid") {
			delete(s.mem, n)
		}
	}
}

// prune keeps only what is live at the cut.
func (s *bState) prune() {
	for i, f := range s.frames {
		s.side.prepare(f.fn)
		var l map[ssa.Value]bool
		if i == len(s.frames)-1 {
			l = s.side.live[f.fn][f.block]
		} else {
			l = s.side.liveAfter(f.fn, f.block, f.idx)
		}
		for v := range f.env {
			if !l[v] {
				delete(f.env, v)
			}
		}
	}
	s.gc()
}

// ---- instructions

func (e *bisim) instr(s *bState, fr *bFrame) {
	in := fr.block.Instrs[fr.idx]
	switch in := in.(type) {
	case *ssa.Phi:
		panic(bUnd("phi out of place"))
	case *ssa.DebugRef:
	case *ssa.Jump:
		s.jump(fr, fr.block.Succs[0])
		return
	case *ssa.If:
		c, ok := s.get(fr, in.Cond).(bool)
		if !ok {
			panic(bUnd("condition %s", in.Cond))
		}
		if c {
			s.jump(fr, fr.block.Succs[0])
		} else {
			s.jump(fr, fr.block.Succs[1])
		}
		return
	case *ssa.Return:
		var rs []bval
		for _, r := range in.Results {
			rs = append(rs, s.get(fr, r))
		}
		s.doReturn(rs, in.Pos())
		return
	case *ssa.Panic:
		panic(bPanic{})
	case *ssa.Store:
		p, ok := s.get(fr, in.Addr).(bPtr)
		if !ok {
			if v, ok := s.get(fr, in.Addr).(bElem); ok {
				s.storeElem(v, s.get(fr, in.Val))
				break
			}
			panic(bPanic{})
		}
		s.store(p, s.get(fr, in.Val))
	case *ssa.MapUpdate:
		s.mapUpdate(s.get(fr, in.Map), s.get(fr, in.Key), s.get(fr, in.Value))
	case *ssa.RunDefers:
	case *ssa.Call:
		if e.call(s, fr, in) {
			return
		}
	case ssa.Value:
		fr.env[in] = e.value(s, fr, in)
	default:
		panic(bUnd("%T in %s", in, fr.fn))
	}
	fr.idx++
}

func (s *bState) jump(fr *bFrame, to *ssa.BasicBlock) {
	k := -1
	for j, p := range to.Preds {
		if p == fr.block {
			k = j
		}
	}
	vals := map[ssa.Value]bval{}
	for _, x := range to.Instrs {
		p, ok := x.(*ssa.Phi)
		if !ok {
			break
		}
		vals[p] = s.get(fr, p.Edges[k])
	}
	for p, v := range vals {
		fr.env[p] = v
	}
	fr.prev, fr.block, fr.idx, fr.fresh = fr.block, to, 0, false
}

// firstReal: the index of the first instruction that is not a phi.
func firstReal(b *ssa.BasicBlock) int {
	for i, x := range b.Instrs {
		if _, ok := x.(*ssa.Phi); !ok {
			return i
		}
	}
	return 0
}

func (s *bState) doReturn(rs []bval, at token.Pos) {
	n := len(s.frames)
	if n == 1 {
		s.exit, s.ret, s.at = "return", rs, at
		return
	}
	s.frames = s.frames[:n-1]
	fr := s.top()
	c, ok := fr.block.Instrs[fr.idx].(*ssa.Call)
	if !ok {
		panic(bUnd("return to %T", fr.block.Instrs[fr.idx]))
	}
	if len(rs) == 1 {
		fr.env[c] = rs[0]
	} else {
		fr.env[c] = bAgg(rs)
	}
	fr.idx++
}

// bElem: the address of an element of a symbolic array.
type bElem struct {
	obj string
	i   *tm
}

func (s *bState) storeElem(e bElem, v bval) {
	x, ok := v.(*tm)
	a, ok2 := s.obj(e.obj).v.(*tm)
	if !ok || !ok2 || s.mem[e.obj] == nil {
		panic(bUnd("writing an element of %s", e.obj))
	}
	s.mem[e.obj] = &bObj{tmMk(tm{op: "store", args: []*tm{a, e.i, x}, sort: 'a'}), s.obj(e.obj).t}
}

func (s *bState) loadElem(e bElem) bval {
	a, ok := s.obj(e.obj).v.(*tm)
	if !ok {
		panic(bUnd("reading an element of %s", e.obj))
	}
	for a.op == "store" {
		if s.zero(linOf(a.args[1]).add(linOf(e.i), -1)) {
			return a.args[2]
		}
		a = a.args[0]
	}
	return tmSelect(a, e.i)
}

func (e *bisim) value(s *bState, fr *bFrame, in ssa.Value) bval {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		return bPtr{s.alloc(in, t, zeroOf(t)), ""}
	case *ssa.UnOp:
		x := s.get(fr, in.X)
		switch in.Op {
		case token.MUL:
			switch p := x.(type) {
			case bPtr:
				return s.load(p)
			case bElem:
				return s.loadElem(p)
			case bNil:
				panic(bPanic{})
			case bTabElem:
				return s.tabLoad(p)
			}
			panic(bUnd("load from %T", x))
		case token.NOT:
			return !x.(bool)
		case token.SUB:
			if t, ok := x.(*tm); ok {
				return linOf(t).scale(-1).tm()
			}
		}
		panic(bUnd("%s", in))
	case *ssa.BinOp:
		return s.binop(headOp(in), s.get(fr, in.X), s.get(fr, in.Y), in.X.Type())
	case *ssa.FieldAddr:
		switch p := s.get(fr, in.X).(type) {
		case bPtr:
			return bPtr{p.obj, fmt.Sprintf("%s/%d", p.path, in.Field)}
		case bNil:
			panic(bPanic{})
		}
		panic(bUnd("field of %T", s.get(fr, in.X)))
	case *ssa.Field:
		a, ok := s.get(fr, in.X).(bAgg)
		if !ok {
			panic(bUnd("field of %T", s.get(fr, in.X)))
		}
		return a[in.Field]
	case *ssa.Extract:
		a, ok := s.get(fr, in.Tuple).(bAgg)
		if !ok || in.Index >= len(a) {
			panic(bUnd("extract from %T", s.get(fr, in.Tuple)))
		}
		return a[in.Index]
	case *ssa.IndexAddr:
		return s.indexAddr(s.get(fr, in.X), s.get(fr, in.Index), in.X.Type())
	case *ssa.Index:
		return s.index(s.get(fr, in.X), s.get(fr, in.Index))
	case *ssa.Lookup:
		x := s.get(fr, in.X)
		if t, ok := x.(*tm); ok && t.sort == 's' {
			return s.index(x, s.get(fr, in.Index))
		}
		return s.lookup(x, s.get(fr, in.Index), in)
	case *ssa.Slice:
		return s.slice(fr, in)
	case *ssa.ChangeType:
		return s.get(fr, in.X)
	case *ssa.MakeInterface:
		return bIface{in.X.Type(), s.get(fr, in.X)}
	case *ssa.ChangeInterface:
		return s.get(fr, in.X)
	case *ssa.Convert:
		return s.convert(s.get(fr, in.X), in.X.Type(), in.Type())
	case *ssa.MakeClosure:
		f := bFunc{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.bind = append(f.bind, s.get(fr, b))
		}
		return f
	case *ssa.MakeMap:
		return bMap{s.alloc(in, in.Type(), bAgg{})}
	case *ssa.MakeSlice:
		if isByteSlice(in.Type()) {
			if k, ok := s.get(fr, in.Len).(*tm); ok && k == tmInt(0) {
				return bBytes{tmStr("")}
			}
		}
	case *ssa.Range:
		if t, ok := s.get(fr, in.X).(*tm); ok && t.sort == 's' {
			return bPtr{s.alloc(in, nil, bAgg{t, tmInt(0)}), ""}
		}
	case *ssa.Next:
		if in.IsString {
			p := s.get(fr, in.Iter).(bPtr)
			a := s.load(p).(bAgg)
			t, pos := a[0].(*tm), a[1].(*tm)
			if !s.ge(linOf(tmLen(t)).add(linOf(pos), -1).add(lin{nil, 1}, -1)) {
				return bAgg{false, tmInt(0), tmInt(0)}
			}
			r, w := s.decode(t, pos)
			s.store(bPtr{p.obj, "/1"}, tmAdd(pos, w))
			return bAgg{true, pos, r}
		}
	case *ssa.TypeAssert:
		x, ok := s.get(fr, in.X).(bIface)
		if ok && types.Identical(x.t, in.AssertedType) {
			if in.CommaOk {
				return bAgg{x.v, true}
			}
			return x.v
		}
	}
	panic(bUnd("%T in %s", in, fr.fn))
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// decode: the character of t at offset off, which is inside t.
func (s *bState) decode(t, off *tm) (r, w *tm) {
	b, lo, hi := parts(t)
	c := tmByte(t, off)
	if k, ok := c.isInt(); ok {
		if k < 0x80 {
			return tmInt(k), tmInt(1)
		}
	} else if s.ask(bAtom{kind: 'b', t: c, set: tabSet(c, func(v int64) bool { return v < 0x80 })}) {
		return c, tmInt(1)
	}
	o := tmAdd(lo, off)
	return tmCall("rune", 'i', b, o, hi), tmCall("width", 'i', b, o, hi)
}

func bits(t types.Type) (n int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, true
	}
	switch b.Kind() {
	case types.Uint8:
		return 8, false
	case types.Int8:
		return 8, true
	case types.Uint16:
		return 16, false
	case types.Int16:
		return 16, true
	case types.Uint32:
		return 32, false
	case types.Int32:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func wrap(v int64, t types.Type) int64 {
	n, sg := bits(t)
	switch {
	case n == 8 && !sg:
		return int64(uint8(v))
	case n == 8:
		return int64(int8(v))
	case n == 16 && !sg:
		return int64(uint16(v))
	case n == 16:
		return int64(int16(v))
	case n == 32 && !sg:
		return int64(uint32(v))
	case n == 32:
		return int64(int32(v))
	}
	return v
}

func arith(op token.Token, x, y int64) (int64, bool) {
	switch op {
	case token.ADD:
		return x + y, true
	case token.SUB:
		return x - y, true
	case token.MUL:
		return x * y, true
	case token.QUO:
		if y != 0 {
			return x / y, true
		}
	case token.REM:
		if y != 0 {
			return x % y, true
		}
	case token.AND:
		return x & y, true
	case token.OR:
		return x | y, true
	case token.XOR:
		return x ^ y, true
	case token.AND_NOT:
		return x &^ y, true
	case token.SHL:
		if y >= 0 && y < 64 {
			return x << uint(y), true
		}
	case token.SHR:
		if y >= 0 && y < 64 {
			return x >> uint(y), true
		}
	}
	return 0, false
}

// headOp: the operator of a comparison.  A counter that starts at 0 and goes up
// one by one to a length is below it exactly when it has not reached it.
func headOp(in *ssa.BinOp) token.Token {
	if in.Op != token.NEQ && in.Op != token.EQL {
		return in.Op
	}
	if op, ok := headOps[in]; ok {
		return op
	}
	op := in.Op
	if _, ok := in.Block().Instrs[len(in.Block().Instrs)-1].(*ssa.If); ok && isIntT(in.X.Type()) {
		loops, _ := loopsOf(in.Parent())
		for _, l := range loops {
			iff, _ := in.Block().Instrs[len(in.Block().Instrs)-1].(*ssa.If)
			if l.head != in.Block() || iff.Cond != ssa.Value(in) || !l.counts() {
				continue
			}
			if _, isPhi := in.X.(*ssa.Phi); isPhi && l.fixed(in.Y) {
				op = map[token.Token]token.Token{token.NEQ: token.LSS, token.EQL: token.GEQ}[in.Op]
			} else if _, isPhi := in.Y.(*ssa.Phi); isPhi && l.fixed(in.X) {
				op = map[token.Token]token.Token{token.NEQ: token.GTR, token.EQL: token.LEQ}[in.Op]
			}
		}
	}
	headOps[in] = op
	return op
}

var headOps = map[*ssa.BinOp]token.Token{}

func (s *bState) binop(op token.Token, x, y bval, t types.Type) bval {
	switch op {
	case token.EQL, token.NEQ:
		r := s.equal(x, y)
		return r == (op == token.EQL)
	}
	a, ok1 := x.(*tm)
	b, ok2 := y.(*tm)
	if !ok1 || !ok2 {
		panic(bUnd("operator %s on %T, %T", op, x, y))
	}
	if a.sort == 's' {
		if op == token.ADD {
			return tmSeq(a, b)
		}
		panic(bUnd("operator %s on texts", op))
	}
	switch op {
	case token.LSS:
		return s.ge(linOf(b).add(linOf(a), -1).add(lin{nil, 1}, -1))
	case token.LEQ:
		return s.ge(linOf(b).add(linOf(a), -1))
	case token.GTR:
		return s.ge(linOf(a).add(linOf(b), -1).add(lin{nil, 1}, -1))
	case token.GEQ:
		return s.ge(linOf(a).add(linOf(b), -1))
	}
	n, _ := bits(t)
	ka, aOK := a.isInt()
	kb, bOK := b.isInt()
	if aOK && bOK {
		if r, ok := arith(op, ka, kb); ok {
			return tmInt(wrap(r, t))
		}
		panic(bPanic{})
	}
	// a function of one byte
	if (isTab(a) || aOK) && (isTab(b) || bOK) && (aOK || bOK || tabAtom(a) == tabAtom(b)) {
		src := a
		if aOK {
			src = b
		}
		atom := tabAtom(src)
		bad := false
		r := tabMap(atom, func(v int64) int64 {
			va, vb := ka, kb
			if !aOK {
				va = tabVal(a, int(v))
			}
			if !bOK {
				vb = tabVal(b, int(v))
			}
			z, ok := arith(op, va, vb)
			bad = bad || !ok
			return wrap(z, t)
		})
		if !bad {
			return r
		}
	}
	switch op {
	case token.ADD, token.SUB:
		if n >= 64 {
			if op == token.ADD {
				return tmAdd(a, b)
			}
			return tmSub(a, b)
		}
	case token.MUL:
		if n >= 64 {
			if aOK {
				return linOf(b).scale(ka).tm()
			}
			if bOK {
				return linOf(a).scale(kb).tm()
			}
		}
	}
	if op == token.ADD || op == token.OR || op == token.AND || op == token.XOR || op == token.MUL {
		if a.id > b.id {
			a, b = b, a
		}
	}
	return tmCall(fmt.Sprintf("%s/%d", op, n), 'i', a, b)
}

func (s *bState) equal(x, y bval) bool {
	switch a := x.(type) {
	case bool:
		if b, ok := y.(bool); ok {
			return a == b
		}
	case bNil:
		switch b := y.(type) {
		case bNil:
			return true
		case bPtr, bIface, bSlice, bFunc, bMap, bElem:
			return false
		case bBytes:
			_ = b
			return false
		}
	case bPtr:
		switch b := y.(type) {
		case bNil:
			return false
		case bPtr:
			return a == b
		}
	case bIface:
		switch b := y.(type) {
		case bNil:
			return false
		case bIface:
			if !types.Identical(a.t, b.t) {
				return false
			}
			return s.equal(a.v, b.v)
		}
	case bSlice, bFunc, bMap, bBytes:
		if _, ok := y.(bNil); ok {
			return false
		}
	case bAgg:
		if b, ok := y.(bAgg); ok && len(a) == len(b) {
			for i := range a {
				if !s.equal(a[i], b[i]) {
					return false
				}
			}
			return true
		}
	case *tm:
		b, ok := y.(*tm)
		if !ok {
			break
		}
		if a.sort == 's' {
			return s.textEqual(a, b)
		}
		return s.zero(linOf(a).add(linOf(b), -1))
	}
	panic(bUnd("comparison of %T and %T", x, y))
}

func (s *bState) textEqual(a, b *tm) bool {
	if a == b {
		return true
	}
	if a.op == "str" {
		a, b = b, a
	}
	if b.op == "str" {
		k := int64(len(b.sym))
		if !s.zero(linOf(tmLen(a)).add(lin{nil, k}, -1)) {
			return false
		}
		good := true
		for i := int64(0); i < k; i++ {
			c, ok := byteAt(a, i)
			if !ok {
				good = false
				break
			}
			if !s.zero(linOf(c).add(lin{nil, int64(b.sym[i])}, -1)) {
				return false
			}
		}
		if good {
			return true
		}
	}
	if s.f.same(a, b) {
		return true
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.ask(bAtom{kind: 'o', t: tmCall("texteq", 'o', a, b)})
}

// hasPrefix for a constant prefix.
func (s *bState) textAffix(t, p *tm, suffix bool) bool {
	if p.op != "str" {
		return s.ask(bAtom{kind: 'o', t: tmCall(fmt.Sprint("affix", suffix), 'o', t, p)})
	}
	k := int64(len(p.sym))
	if !s.ge(linOf(tmLen(t)).add(lin{nil, k}, -1)) {
		return false
	}
	off := tmInt(0)
	if suffix {
		off = tmAddK(tmLen(t), -k)
	}
	for i := int64(0); i < k; i++ {
		if !s.zero(linOf(tmByte(t, tmAddK(off, i))).add(lin{nil, int64(p.sym[i])}, -1)) {
			return false
		}
	}
	return true
}

func (s *bState) inRange(i, n *tm) {
	if !s.ge(linOf(i)) || !s.ge(linOf(n).add(linOf(i), -1).add(lin{nil, 1}, -1)) {
		panic(bPanic{})
	}
}

func (s *bState) index(x, i bval) bval {
	k, ok := i.(*tm)
	if !ok {
		panic(bUnd("index %T", i))
	}
	switch a := x.(type) {
	case *tm:
		s.inRange(k, tmLen(a))
		return tmByte(a, k)
	case bAgg:
		s.inRange(k, tmInt(int64(len(a))))
		return s.tabIndex(a, k)
	}
	panic(bUnd("index into %T", x))
}

// tabIndex reads a constant table at a byte or at a constant.
func (s *bState) tabIndex(a bAgg, k *tm) bval {
	if n, ok := k.isInt(); ok {
		return a[n]
	}
	if !isTab(k) {
		if l := linOf(k); len(l.m) == 1 {
			_ = l
		}
		panic(bUnd("index %s into a table", k))
	}
	set := s.f.set(tabAtom(k))
	allInt, allBool := true, true
	for i := 0; i < 256; i++ {
		if !set.has(i) {
			continue
		}
		v := a[tabVal(k, i)]
		if t, ok := v.(*tm); !ok {
			allInt = false
		} else if _, c := t.isInt(); !c {
			allInt = false
		}
		if _, ok := v.(bool); !ok {
			allBool = false
		}
	}
	switch {
	case allBool:
		var on byteSet
		for i := 0; i < 256; i++ {
			if set.has(i) && a[tabVal(k, i)].(bool) {
				on.add(i)
			}
		}
		return s.ask(bAtom{kind: 'b', t: tabAtom(k), set: on})
	case allInt:
		return tabMap(tabAtom(k), func(v int64) int64 {
			if !set.has(int(v)) {
				return 0
			}
			return a[tabVal(k, int(v))].(*tm).k
		})
	}
	for i := 0; i < 256; i++ {
		if set.has(i) {
			var one byteSet
			for j := 0; j < 256; j++ {
				if tabVal(k, j) == tabVal(k, i) {
					one.add(j)
				}
			}
			if s.ask(bAtom{kind: 'b', t: tabAtom(k), set: one}) {
				return a[tabVal(k, i)]
			}
		}
	}
	panic(bPanic{})
}

// bTabElem: the address of an element of a constant table.
type bTabElem struct {
	p bPtr
	i *tm
}

func (s *bState) tabLoad(p bTabElem) bval {
	a, ok := s.load(p.p).(bAgg)
	if !ok {
		panic(bUnd("table %s", p.p.obj))
	}
	return s.tabIndex(a, p.i)
}

func (s *bState) indexAddr(x, i bval, t types.Type) bval {
	k, ok := i.(*tm)
	if !ok {
		panic(bUnd("index %T", i))
	}
	switch a := x.(type) {
	case bPtr:
		arr, ok := s.load(a).(bAgg)
		if !ok {
			panic(bUnd("index into %T", s.load(a)))
		}
		s.inRange(k, tmInt(int64(len(arr))))
		if n, ok := k.isInt(); ok {
			return bPtr{a.obj, fmt.Sprintf("%s/%d", a.path, n)}
		}
		return bTabElem{a, k}
	case bSlice:
		s.inRange(k, a.len)
		j := tmAdd(a.lo, k)
		if _, ok := s.obj(a.obj).v.(bAgg); ok {
			if n, ok := j.isInt(); ok {
				return bPtr{a.obj, fmt.Sprintf("/%d", n)}
			}
			return bTabElem{bPtr{a.obj, ""}, j}
		}
		return bElem{a.obj, j}
	case bNil:
		panic(bPanic{})
	}
	panic(bUnd("index into %T", x))
}

func (s *bState) slice(fr *bFrame, in *ssa.Slice) bval {
	x := s.get(fr, in.X)
	bound := func(v ssa.Value, d *tm) *tm {
		if v == nil {
			return d
		}
		t, ok := s.get(fr, v).(*tm)
		if !ok {
			panic(bUnd("slice bound"))
		}
		return t
	}
	check := func(lo, hi, n *tm) {
		if !s.ge(linOf(lo)) || !s.ge(linOf(hi).add(linOf(lo), -1)) || !s.ge(linOf(n).add(linOf(hi), -1)) {
			panic(bPanic{})
		}
	}
	switch a := x.(type) {
	case *tm:
		lo, hi := bound(in.Low, tmInt(0)), bound(in.High, tmLen(a))
		check(lo, hi, tmLen(a))
		return tmSlice(a, lo, hi)
	case bPtr:
		arr, ok := s.load(a).(bAgg)
		if !ok || a.path != "" {
			break
		}
		n := tmInt(int64(len(arr)))
		lo, hi := bound(in.Low, tmInt(0)), bound(in.High, n)
		check(lo, hi, n)
		return bSlice{a.obj, lo, tmSub(hi, lo)}
	case bSlice:
		lo, hi := bound(in.Low, tmInt(0)), bound(in.High, a.len)
		check(lo, hi, a.len)
		return bSlice{a.obj, tmAdd(a.lo, lo), tmSub(hi, lo)}
	case bBytes:
		lo, hi := bound(in.Low, tmInt(0)), bound(in.High, tmLen(a.seq))
		check(lo, hi, tmLen(a.seq))
		if lo == tmInt(0) && hi == tmInt(0) {
			return bBytes{tmStr("")}
		}
		return bBytes{tmSlice(a.seq, lo, hi)}
	case bNil:
		lo, hi := bound(in.Low, tmInt(0)), bound(in.High, tmInt(0))
		check(lo, hi, tmInt(0))
		return a
	}
	panic(bUnd("slice of %T", x))
}

func (s *bState) convert(x bval, from, to types.Type) bval {
	if b, ok := x.(bBytes); ok {
		if isStringType(to) {
			return b.seq
		}
	}
	if _, ok := x.(bNil); ok && isStringType(to) {
		return tmStr("")
	}
	t, ok := x.(*tm)
	if !ok {
		panic(bUnd("conversion of %T", x))
	}
	if t.sort == 's' {
		if isByteSlice(to) {
			return bBytes{t}
		}
		if isStringType(to) {
			return t
		}
		panic(bUnd("conversion of a text to %s", to))
	}
	if isStringType(to) {
		return tmSeq(s.runePiece(t))
	}
	nf, sf := bits(from)
	nt, st := bits(to)
	if k, ok := t.isInt(); ok {
		return tmInt(wrap(k, to))
	}
	if isTab(t) {
		return tabMap(t, func(v int64) int64 { return wrap(v, to) })
	}
	if nt > nf && (st || !sf) || nt == nf && st == sf {
		return t
	}
	max := int64(1)<<(min(nt, 62)) - 1
	if st {
		max = int64(1)<<(min(nt, 62)-1) - 1
	}
	if s.f.entails(linOf(t)) && s.f.entails(lin{nil, max}.add(linOf(t), -1)) {
		return t
	}
	if nt >= 32 {
		// lengths and offsets stay far below the limits of the type
		return t
	}
	return tmCall(fmt.Sprintf("conv/%d", nt), 'i', t)
}

// runePiece: the text of a character.
func (s *bState) runePiece(t *tm) *tm {
	if k, ok := t.isInt(); ok {
		return tmStr(string(rune(k)))
	}
	if isTab(t) {
		set := tabSet(t, func(v int64) bool { return v >= 0 && v < 0x80 })
		if s.ask(bAtom{kind: 'b', t: tabAtom(t), set: set}) {
			return t
		}
		return tmCall("utf8", 's', t)
	}
	if t.op == "call" && t.sym == "rune" {
		return t
	}
	return tmCall("utf8", 's', t)
}

func (s *bState) bytePiece(t *tm) *tm {
	if k, ok := t.isInt(); ok {
		return tmStr(string([]byte{byte(k)}))
	}
	if isTab(t) {
		set := tabSet(t, func(v int64) bool { return v >= 0 && v < 0x80 })
		if s.ask(bAtom{kind: 'b', t: tabAtom(t), set: set}) {
			return t
		}
	}
	return tmCall("raw", 'i', t)
}

// ---- maps (constant tables)

func (s *bState) mapUpdate(m, k, v bval) {
	mp, ok := m.(bMap)
	if !ok {
		panic(bPanic{})
	}
	o := s.obj(mp.obj)
	if s.mem[mp.obj] == nil {
		panic(bUnd("writing to a package-level map"))
	}
	a := append(bAgg{}, o.v.(bAgg)...)
	for i := 0; i+1 < len(a); i += 2 {
		if s.equal(a[i], k) {
			a[i+1] = v
			s.mem[mp.obj] = &bObj{a, o.t}
			return
		}
	}
	s.mem[mp.obj] = &bObj{append(a, k, v), o.t}
}

func (s *bState) lookup(m, k bval, in *ssa.Lookup) bval {
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		panic(bUnd("lookup"))
	}
	res := func(v bval, ok bool) bval {
		if in.CommaOk {
			return bAgg{v, ok}
		}
		return v
	}
	if mp, ok := m.(bMap); ok {
		a := s.obj(mp.obj).v.(bAgg)
		for i := 0; i+1 < len(a); i += 2 {
			if s.equal(a[i], k) {
				return res(a[i+1], true)
			}
		}
	} else if _, ok := m.(bNil); !ok {
		panic(bUnd("lookup in %T", m))
	}
	return res(zeroOf(mt.Elem()), false)
}

// ---- calls

func (e *bisim) call(s *bState, fr *bFrame, in *ssa.Call) (entered bool) {
	cc := in.Common()
	var args []bval
	for _, a := range cc.Args {
		args = append(args, s.get(fr, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		fr.env[in] = s.builtin(b.Name(), args, in)
		return false
	}
	if cc.IsInvoke() {
		panic(bUnd("dynamic call %s", in))
	}
	f, ok := s.get(fr, cc.Value).(bFunc)
	if !ok {
		panic(bPanic{})
	}
	if e.inPkg[f.fn.Pkg] || f.fn.Pkg == nil && f.fn.Parent() != nil || f.fn.Pkg == nil && f.fn.Synthetic != "" {
		if len(f.fn.Blocks) == 0 {
			panic(bUnd("%s has no body", f.fn))
		}
		// reading the next token as the last thing this call does
		if f.fn == s.side.entry && len(args) > 0 && s.equal(args[0], s.side.recv) && s.returnsCall(in) {
			s.exit, s.at = "restart", in.Pos()
			return true
		}
		if len(s.frames) > 40 {
			panic(bUnd("recursion of %s", f.fn))
		}
		for _, x := range s.frames {
			if x.fn == f.fn && len(s.frames) > 12 {
				panic(bUnd("recursion of %s", f.fn))
			}
		}
		nf := &bFrame{fn: f.fn, block: f.fn.Blocks[0], env: map[ssa.Value]bval{}, call: in}
		for i, p := range f.fn.Params {
			nf.env[p] = args[i]
		}
		for i, p := range f.fn.FreeVars {
			nf.env[p] = f.bind[i]
		}
		s.side.prepare(f.fn)
		s.frames = append(s.frames, nf)
		return true
	}
	fr.env[in] = s.external(f.fn, args, in)
	return false
}

// returnsCall: the result of the call is what every frame on the stack returns
// next, without doing anything else.
func (s *bState) returnsCall(in *ssa.Call) bool {
	var v ssa.Value = in
	for i := len(s.frames) - 1; i >= 0; i-- {
		fr := s.frames[i]
		c := fr.block.Instrs[fr.idx].(ssa.Value)
		_ = v
		ex := map[ssa.Value]int{}
		b, from := fr.block, fr.idx+1
		ret := false
	scan:
		for hops := 0; hops < 4; hops++ {
			for _, x := range b.Instrs[from:] {
				switch x := x.(type) {
				case *ssa.DebugRef:
				case *ssa.Extract:
					if x.Tuple != c {
						return false
					}
					ex[x] = x.Index
				case *ssa.RunDefers:
				case *ssa.Jump:
					b, from = b.Succs[0], 0
					continue scan
				case *ssa.Return:
					if len(x.Results) == 1 {
						if x.Results[0] != c {
							return false
						}
					} else {
						for k, r := range x.Results {
							if j, ok := ex[r]; !ok || j != k {
								return false
							}
						}
					}
					ret = true
					break scan
				default:
					return false
				}
			}
			break
		}
		if !ret {
			return false
		}
	}
	return true
}

func (s *bState) builtin(name string, args []bval, in *ssa.Call) bval {
	switch name {
	case "len", "cap":
		switch a := args[0].(type) {
		case *tm:
			return tmLen(a)
		case bSlice:
			if name == "len" {
				return a.len
			}
		case bNil:
			return tmInt(0)
		case bBytes:
			if name == "len" {
				return tmLen(a.seq)
			}
		case bMap:
			return tmInt(int64(len(s.obj(a.obj).v.(bAgg)) / 2))
		case bAgg:
			return tmInt(int64(len(a)))
		}
	case "append":
		if isByteSlice(in.Type()) {
			seq := tmStr("")
			switch a := args[0].(type) {
			case bNil:
			case bBytes:
				seq = a.seq
			default:
				panic(bUnd("append to %T", a))
			}
			switch b := args[1].(type) {
			case *tm:
				return bBytes{tmSeq(seq, b)}
			case bBytes:
				return bBytes{tmSeq(seq, b.seq)}
			case bNil:
				return bBytes{seq}
			case bSlice:
				n, ok := b.len.isInt()
				lo, ok2 := b.lo.isInt()
				arr, ok3 := s.obj(b.obj).v.(bAgg)
				if ok && ok2 && ok3 {
					for i := lo; i < lo+n; i++ {
						seq = tmSeq(seq, s.bytePiece(arr[i].(*tm)))
					}
					return bBytes{seq}
				}
			}
		}
	case "min", "max":
		a, b := args[0].(*tm), args[1].(*tm)
		if len(args) == 2 {
			if s.ge(linOf(a).add(linOf(b), -1)) == (name == "max") {
				return a
			}
			return b
		}
	}
	panic(bUnd("%s of %T in %s", name, args[0], in.Parent()))
}

var bPurePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "fmt": true, "errors": true}

func (s *bState) buf(v bval) (bPtr, *tm) {
	p, ok := v.(bPtr)
	if !ok {
		panic(bPanic{})
	}
	t, ok := s.load(p).(*tm)
	if !ok {
		panic(bUnd("buffer"))
	}
	return p, t
}

func (s *bState) external(fn *ssa.Function, args []bval, in *ssa.Call) bval {
	name := fn.String()
	text := func(i int) *tm {
		switch t := args[i].(type) {
		case *tm:
			return t
		case bBytes:
			return t.seq
		case bNil:
			return tmStr("")
		}
		panic(bUnd("argument %T of %s", args[i], name))
	}
	write := func(p *tm, n int) bval {
		b, old := s.buf(args[0])
		s.store(b, tmSeq(old, p))
		switch n {
		case 0:
			return bNil{}
		}
		return bAgg{tmLen(tmSeq(p)), bNil{}}
	}
	switch name {
	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune":
		t := text(0)
		if !s.ge(linOf(tmLen(t)).add(lin{nil, 1}, -1)) {
			return bAgg{tmInt(0xfffd), tmInt(0)}
		}
		r, w := s.decode(t, tmInt(0))
		return bAgg{r, w}
	case "unicode/utf8.RuneLen":
		return s.runeLen(text(0))
	case "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		return write(s.runePiece(text(1)), 2)
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte":
		return write(s.bytePiece(text(1)), 0)
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*bytes.Buffer).Write", "(*strings.Builder).Write":
		return write(text(1), 2)
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		_, t := s.buf(args[0])
		return t
	case "(*bytes.Buffer).Bytes":
		_, t := s.buf(args[0])
		return bBytes{t}
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		_, t := s.buf(args[0])
		return tmLen(t)
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		p, _ := s.buf(args[0])
		s.store(p, tmStr(""))
		return bNil{}
	case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow":
		return bNil{}
	case "bytes.NewBufferString", "bytes.NewBuffer":
		return bPtr{s.alloc(in, in.Type().Underlying().(*types.Pointer).Elem(), text(0)), ""}
	case "strings.HasPrefix":
		return s.textAffix(text(0), text(1), false)
	case "strings.HasSuffix":
		return s.textAffix(text(0), text(1), true)
	case "strings.Split":
		arr := tmCall("split", 'a', text(0), text(1))
		return bSlice{s.alloc(in, in.Type(), arr), tmInt(0), tmCall("nsplit", 'i', arr)}
	case "strings.Join":
		sl, ok := args[0].(bSlice)
		if ok {
			if a, ok := s.obj(sl.obj).v.(*tm); ok {
				return tmCall("join", 's', a, sl.lo, tmAdd(sl.lo, sl.len), text(1))
			}
		}
	case "strings.IndexByte", "strings.ContainsRune", "strings.IndexRune":
		// a byte looked up in a constant text
		t, k := text(0), text(1)
		if t.op == "str" && isTab(k) {
			if name == "strings.ContainsRune" {
				return s.ask(bAtom{kind: 'b', t: tabAtom(k), set: tabSet(k, func(v int64) bool { return strings.ContainsRune(t.sym, rune(v)) })})
			}
			if name == "strings.IndexRune" {
				return tabMap(k, func(v int64) int64 { return int64(strings.IndexRune(t.sym, rune(v))) })
			}
			return tabMap(k, func(v int64) int64 { return int64(strings.IndexByte(t.sym, byte(v))) })
		}
	}
	if fn.Pkg != nil && (bPurePkgs[fn.Pkg.Pkg.Path()] || strings.HasSuffix(fn.Pkg.Pkg.Path(), "gqlparser/v2/gqlerror")) {
		return s.opaque(fn, name, args)
	}
	panic(bUnd("call of %s", name))
}

func (s *bState) runeLen(t *tm) *tm {
	if isTab(t) {
		if s.ask(bAtom{kind: 'b', t: tabAtom(t), set: tabSet(t, func(v int64) bool { return v < 0x80 })}) {
			return tmInt(1)
		}
	}
	return pieceLen(t)
}

// opaque: a function of the library whose result depends on its arguments only.
func (s *bState) opaque(fn *ssa.Function, name string, args []bval) bval {
	var as []*tm
	var flat func(v bval)
	flat = func(v bval) {
		switch v := v.(type) {
		case *tm:
			as = append(as, v)
		case bool:
			as = append(as, tmStr(fmt.Sprint(v)))
		case bNil:
			as = append(as, tmSym("nil", 'o'))
		case bIface:
			as = append(as, tmSym("type "+typeText(v.t), 'o'))
			flat(v.v)
		case bAgg:
			for _, x := range v {
				flat(x)
			}
		case bBytes:
			as = append(as, v.seq)
		case bSlice:
			if a, ok := s.obj(v.obj).v.(bAgg); ok {
				lo, ok1 := v.lo.isInt()
				n, ok2 := v.len.isInt()
				if ok1 && ok2 {
					as = append(as, tmInt(n))
					for _, x := range a[lo : lo+n] {
						flat(x)
					}
					return
				}
			} else if a, ok := s.obj(v.obj).v.(*tm); ok {
				as = append(as, a, v.lo, v.len)
				return
			}
			panic(bUnd("argument of %s", name))
		case bPtr:
			if strings.HasPrefix(v.obj, "rigid") {
				as = append(as, tmSym(v.obj+v.path, 'o'))
				return
			}
			panic(bUnd("argument of %s", name))
		default:
			panic(bUnd("argument %T of %s", v, name))
		}
	}
	for _, a := range args {
		flat(a)
	}
	res := fn.Signature.Results()
	var out bAgg
	for i := 0; i < res.Len(); i++ {
		n := fmt.Sprintf("%s#%d", name, i)
		t := res.At(i).Type()
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsBoolean != 0:
				out = append(out, s.ask(bAtom{kind: 'o', t: tmCall(n, 'o', as...)}))
			case u.Info()&types.IsString != 0:
				out = append(out, tmCall(n, 's', as...))
			default:
				out = append(out, tmCall(n, 'i', as...))
			}
		case *types.Pointer:
			// a new object, identified by what it was made from
			out = append(out, bIface{t, tmCall(n, 'o', as...)})
		case *types.Interface:
			out = append(out, bIface{t, tmCall(n, 'o', as...)})
		default:
			panic(bUnd("result of %s", name))
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return out
}

func typeText(t types.Type) string {
	if b, ok := types.Unalias(t).(*types.Basic); ok && b.Kind() > types.Invalid && b.Kind() <= types.UnsafePointer {
		return types.Typ[b.Kind()].Name()
	}
	return t.String()
}
