package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Termination of loops: a path-wise symbolic execution of one iteration over
// linear expressions of the values at the loop header, against which ranking
// functions read off the loop's own exit conditions are tried.

type tsym struct {
	id   int
	name string
	lo   int64
	has  bool
}

type tlin struct {
	c int64
	m map[*tsym]int64
}

func tconst(c int64) tlin { return tlin{c: c} }
func tsymLin(s *tsym) tlin {
	return tlin{m: map[*tsym]int64{s: 1}}
}

func (a tlin) plus(b tlin, k int64) tlin {
	r := tlin{c: a.c + k*b.c, m: map[*tsym]int64{}}
	for s, x := range a.m {
		r.m[s] += x
	}
	for s, x := range b.m {
		r.m[s] += k * x
	}
	for s, x := range r.m {
		if x == 0 {
			delete(r.m, s)
		}
	}
	return r
}

func (a tlin) isConst() bool { return len(a.m) == 0 }

func (a tlin) key() string {
	var p []string
	for s, x := range a.m {
		p = append(p, fmt.Sprintf("%d*%d", x, s.id))
	}
	sort.Strings(p)
	return fmt.Sprint(a.c, p)
}

func (a tlin) String() string {
	var p []string
	for s, x := range a.m {
		p = append(p, fmt.Sprintf("%+d*%s", x, s.name))
	}
	sort.Strings(p)
	return strings.Join(p, "") + fmt.Sprintf("%+d", a.c)
}

// tval: 'i' integer, 's' string or slice of known length expression, 'b' known
// truth, 'n' nil, 'v' not nil, 'a' aggregate (struct or tuple), 'p' address,
// 'c' a comparison, '?' anything.
type tval struct {
	k    byte
	l    tlin
	b    bool
	fs   map[int]tval
	addr string
	id   int
	op   token.Token // of a comparison
	xy   *[2]tval
}

type tstate struct {
	env    map[tkey]tval
	cells  map[string]tval
	lo     map[*tsym]int64
	eq     map[*tsym]int64
	nil_   map[int]bool // by tval id: true when nil
	truth  map[int]bool
	facts  []tlin         // each ≥ 0
	differ []tlin         // each ≠ 0
	cmp    map[*tsym]bool // positions found to be within the text
	reads  []int
	affix  []string
	forgot bool
}

type tkey struct {
	frame int
	v     ssa.Value
}

func (s *tstate) clone() *tstate {
	n := &tstate{env: map[tkey]tval{}, cells: map[string]tval{}, lo: map[*tsym]int64{}, eq: map[*tsym]int64{}, nil_: map[int]bool{}, truth: map[int]bool{}, cmp: map[*tsym]bool{}, forgot: s.forgot}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.lo {
		n.lo[k] = v
	}
	for k, v := range s.eq {
		n.eq[k] = v
	}
	for k, v := range s.nil_ {
		n.nil_[k] = v
	}
	for k, v := range s.truth {
		n.truth[k] = v
	}
	for k := range s.cmp {
		n.cmp[k] = true
	}
	n.differ = append(n.differ, s.differ...)
	n.facts = append(n.facts, s.facts...)
	n.reads = append(n.reads, s.reads...)
	n.affix = append(n.affix, s.affix...)
	return n
}

func newTstate() *tstate { return (&tstate{}).clone() }

func (s *tstate) norm(l tlin) tlin {
	for y, x := range l.m {
		if v, ok := s.eq[y]; ok {
			l = l.plus(tlin{c: v * x}, 1).plus(tsymLin(y), -x)
		}
	}
	return l
}

// lower: a lower bound of l, if there is one.
func (s *tstate) lower(l tlin) (int64, bool) {
	l = s.norm(l)
	return s.lowerBy(l, 2)
}

// lowerBy subtracts up to n of the facts.
func (s *tstate) lowerBy(l tlin, n int) (int64, bool) {
	best, ok := s.direct(l)
	if ok || n == 0 {
		n = 1
	}
	for _, f := range s.facts {
		r := l.plus(s.norm(f), -1)
		d, has := s.direct(r)
		if !has && n > 1 && len(r.m) < len(l.m) {
			d, has = s.lowerBy(r, n-1)
		}
		if has && (!ok || d > best) {
			best, ok = d, true
		}
	}
	return best, ok
}

func (s *tstate) direct(l tlin) (int64, bool) {
	r := l.c
	for y, x := range l.m {
		lo, has := y.lo, y.has
		if v, o := s.lo[y]; o && (!has || v > lo) {
			lo, has = v, true
		}
		if x < 0 || !has {
			return 0, false
		}
		r += x * lo
	}
	return r, true
}

func (s *tstate) upper(l tlin) (int64, bool) {
	v, ok := s.lower(tconst(0).plus(l, -1))
	return -v, ok
}

// assume l ≥ 0; false when impossible.
func (s *tstate) assume(l tlin) bool {
	l = s.norm(l)
	if u, ok := s.upper(l); ok && u < 0 {
		return false
	}
	if len(l.m) == 1 {
		for y, x := range l.m {
			if x == 1 {
				v := -l.c
				if old, ok := s.lo[y]; !ok || v > old {
					s.lo[y] = v
				}
			}
		}
	}
	if len(l.m) > 0 && len(s.facts) < 64 {
		s.facts = append(s.facts, l)
	}
	return true
}

// ---- loops

type tloop struct {
	head    *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	latches []*ssa.BasicBlock
}

func loopsOf(fn *ssa.Function) (out []*tloop, irreducible bool) {
	by := map[*ssa.BasicBlock]*tloop{}
	// back edges by depth first search; each must go to a dominator
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, q := range b.Succs {
			switch state[q] {
			case 0:
				dfs(q)
			case 1:
				if !q.Dominates(b) {
					irreducible = true
					continue
				}
				l := by[q]
				if l == nil {
					l = &tloop{head: q, body: map[*ssa.BasicBlock]bool{q: true}}
					by[q] = l
					out = append(out, l)
				}
				l.latches = append(l.latches, b)
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					w := work[0]
					work = work[1:]
					if l.body[w] {
						continue
					}
					l.body[w] = true
					work = append(work, w.Preds...)
				}
			}
		}
		state[b] = 2
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	sort.Slice(out, func(i, j int) bool { return out[i].head.Index < out[j].head.Index })
	return out, irreducible
}

func (l *tloop) domsLatches(b *ssa.BasicBlock) bool {
	for _, t := range l.latches {
		if !b.Dominates(t) {
			return false
		}
	}
	return true
}

// ---- the executor

type tex struct {
	t      *termAn
	ids    int
	frames int
	steps  int
	root   *tloop
	rootFr int
	latch  []*tstate
	depth  int
	stack  []*ssa.Function
	outer  map[tkey]tval // values from before the loop, by frame and value
	init   map[string]tval
	start  *tstate
	once   bool
}

type tframe struct {
	id   int
	fn   *ssa.Function
	outs []tout
	free map[ssa.Value]tval
}

type tout struct {
	st   *tstate
	rets []tval
}

type tlimit struct{}

// tround: a turn has come round.
type tround struct{}

func (x *tex) sym(name string, lo int64, has bool) *tsym {
	x.ids++
	return &tsym{x.ids, name, lo, has}
}

func (x *tex) fresh(t types.Type, name string) tval {
	x.ids++
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			un := u.Info()&types.IsUnsigned != 0
			return tval{k: 'i', l: tsymLin(x.sym(name, 0, un))}
		case u.Info()&types.IsString != 0:
			return tval{k: 's', l: tsymLin(x.sym("len "+name, 0, true))}
		}
	case *types.Slice:
		return tval{k: 's', l: tsymLin(x.sym("len "+name, 0, true))}
	case *types.Array:
		return tval{k: 's', l: tconst(u.Len())}
	}
	return tval{k: '?', id: x.ids}
}

func (x *tex) val(st *tstate, fr *tframe, v ssa.Value) tval {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			switch c.Type().Underlying().(type) {
			case *types.Slice:
				return tval{k: 's', l: tconst(0)}
			case *types.Struct:
				return tval{k: 'a', fs: map[int]tval{}}
			case *types.Basic:
				if isStringType(c.Type()) {
					return tval{k: 's', l: tconst(0)}
				}
			}
			return tval{k: 'n'}
		}
		switch c.Value.Kind() {
		case constant.Int:
			if i, ok := constant.Int64Val(c.Value); ok {
				return tval{k: 'i', l: tconst(i)}
			}
		case constant.String:
			return tval{k: 's', l: tconst(int64(len(constant.StringVal(c.Value))))}
		case constant.Bool:
			return tval{k: 'b', b: constant.BoolVal(c.Value)}
		}
		return tval{k: '?'}
	case *ssa.Function, *ssa.MakeClosure:
		return tval{k: 'v'}
	case *ssa.FreeVar:
		if fr.free != nil {
			if a, ok := fr.free[v]; ok {
				return a
			}
		}
		return tval{k: 'p', addr: fmt.Sprintf("fv:%s.%s", fr.fn, c.Name())}
	case *ssa.Global:
		return tval{k: 'p', addr: "g:" + c.String()}
	}
	k := tkey{fr.id, v}
	if r, ok := st.env[k]; ok {
		return r
	}
	if r, ok := x.outer[k]; ok {
		return r
	}
	r := x.fresh(v.Type(), v.Name())
	if b, ok := x.before(fr, v); ok {
		r = b
	}
	if a, ok := v.(*ssa.Alloc); ok {
		r = tval{k: 'p', addr: allocCell(fr, a)}
	}
	x.outer[k] = r
	return r
}

// before: a value from before the loop that is a function of what never
// changes.
func (x *tex) before(fr *tframe, v ssa.Value) (tval, bool) {
	none := newTstate()
	switch i := v.(type) {
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if a := x.val(none, fr, i.Call.Args[0]); a.k == 's' {
				return tval{k: 'i', l: a.l}, true
			}
		}
	case *ssa.BinOp:
		if i.Op == token.ADD || i.Op == token.SUB {
			return x.value(none, fr, i), true
		}
	case *ssa.FieldAddr:
		if a := x.val(none, fr, i.X); a.k != 'p' || !strings.HasPrefix(a.addr, "a:") {
			return x.fieldAddr(a, i), true
		}
	case *ssa.UnOp:
		if i.Op != token.MUL {
			break
		}
		if p := setOnce(i.X); p != nil {
			return x.val(none, fr, p), true
		}
		if fa, ok := i.X.(*ssa.FieldAddr); ok && x.t.fixed(deref(fa.X.Type()), fa.Field) {
			if a := x.val(none, fr, fa); a.k == 'p' {
				return x.load(none, a.addr, i.Type()), true
			}
		}
	}
	return tval{}, false
}

// fixed: no function of the module assigns the field of a value that it did
// not make itself.
func (t *termAn) fixed(st types.Type, f int) bool {
	if t.written == nil {
		t.written = map[string]bool{}
		for fn := range t.pkgs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok && !localAddr(fa) {
							t.written[fmt.Sprintf("%s.%d", deref(fa.X.Type()), fa.Field)] = true
						} else if !localAddr(s.Addr) {
							t.written[deref(s.Addr.Type()).String()] = true
						}
					}
				}
			}
		}
	}
	return !t.written[fmt.Sprintf("%s.%d", st, f)] && !t.written[st.String()]
}

// setOnce: the value from the beginning of the function that a variable holds for good. Variables
// that closures share are kept in cells even when nothing assigns them again.
func setOnce(v ssa.Value) ssa.Value {
	a, ok := v.(*ssa.Alloc)
	if !ok || !a.Heap {
		return nil
	}
	var val ssa.Value
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != ssa.Value(a) || val != nil || r.Block().Index != 0 {
				return nil
			}
			val = r.Val
		case *ssa.UnOp:
			if r.Block().Index == 0 && val == nil {
				return nil // read before it is set
			}
		case *ssa.DebugRef:
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == ssa.Value(a) && !onlyRead(r.Fn.(*ssa.Function).FreeVars[i]) {
					return nil
				}
			}
		default:
			return nil
		}
	}
	switch val := val.(type) {
	case *ssa.Parameter, *ssa.Const:
		return val
	case ssa.Instruction:
		if val.Block().Index == 0 && len(val.Block().Preds) == 0 {
			return val.(ssa.Value)
		}
	}
	return nil
}

func onlyRead(fv *ssa.FreeVar) bool {
	for _, r := range *fv.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == ssa.Value(fv) && !onlyRead(r.Fn.(*ssa.Function).FreeVars[i]) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func allocCell(fr *tframe, a *ssa.Alloc) string {
	if a.Heap {
		return fmt.Sprintf("a:%d.%s^", fr.id, a.Name())
	}
	return fmt.Sprintf("a:%d.%s", fr.id, a.Name())
}

// fieldAddr: the key of a field reached through an address.
func (x *tex) fieldAddr(base tval, in *ssa.FieldAddr) tval {
	return tval{k: 'p', addr: fieldCell(base.addr, deref(in.X.Type()), in.Field)}
}

// fieldCell: fields of what other functions can reach are told apart by type
// and name only.
func fieldCell(base string, st types.Type, i int) string {
	if strings.HasPrefix(base, "a:") && !strings.Contains(base, "^") {
		return fmt.Sprintf("%s.%d", base, i)
	}
	return fmt.Sprintf("h:%s.%d", st, i)
}

func (x *tex) load(st *tstate, a string, t types.Type) tval {
	if v, ok := st.cells[a]; ok {
		return v
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		fs := map[int]tval{}
		for i := 0; i < s.NumFields(); i++ {
			fs[i] = x.load(st, fieldCell(a, t, i), s.Field(i).Type())
		}
		return tval{k: 'a', fs: fs}
	}
	if st.forgot && (!strings.HasPrefix(a, "a:") || strings.Contains(a, "^")) {
		v := x.fresh(t, "t"+a)
		st.cells[a] = v
		return v
	}
	if v, ok := x.init[a]; ok {
		return v
	}
	v := x.fresh(t, a[strings.LastIndex(a, "/")+1:])
	x.init[a] = v
	return v
}

func (x *tex) store(st *tstate, a string, t types.Type, v tval) {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			f, ok := v.fs[i]
			if v.k != 'a' {
				f = x.fresh(s.Field(i).Type(), "f")
			} else if !ok {
				f = zeroVal(s.Field(i).Type())
			}
			x.store(st, fieldCell(a, t, i), s.Field(i).Type(), f)
		}
		return
	}
	st.cells[a] = v
}

func zeroVal(t types.Type) tval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return tval{k: 'i'}
		case u.Info()&types.IsString != 0:
			return tval{k: 's'}
		case u.Info()&types.IsBoolean != 0:
			return tval{k: 'b'}
		}
	case *types.Slice:
		return tval{k: 's'}
	case *types.Struct:
		return tval{k: 'a', fs: map[int]tval{}}
	case *types.Array:
		return tval{k: 's', l: tconst(u.Len())}
	}
	return tval{k: 'n'}
}

func (x *tex) goTo(fr *tframe, from, to *ssa.BasicBlock, st *tstate) {
	l := x.t.loopAt(to)
	if l != nil {
		if l.body[from] {
			// a further iteration
			if l == x.root && fr.id == x.rootFr {
				if x.once {
					panic(tround{})
				}
				x.phis(fr, from, to, st)
				x.latch = append(x.latch, st)
			}
			return
		}
		x.phis(fr, from, to, st)
		x.havoc(fr, l, st)
		x.block(fr, to, st)
		return
	}
	if x.root != nil && fr.id == x.rootFr && !x.root.body[to] {
		return
	}
	x.phis(fr, from, to, st)
	x.block(fr, to, st)
}

func (x *tex) phis(fr *tframe, from, to *ssa.BasicBlock, st *tstate) {
	var vs []tval
	var ps []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, q := range to.Preds {
			if q == from {
				vs = append(vs, x.val(st, fr, p.Edges[i]))
				ps = append(ps, p)
				break
			}
		}
	}
	for i, p := range ps {
		st.env[tkey{fr.id, p}] = vs[i]
	}
}

// havoc makes the state at the header of an inner loop stand for that of every
// iteration.
func (x *tex) havoc(fr *tframe, l *tloop, st *tstate) {
	e := x.t.effect(fr.fn, l, append(x.stack, fr.fn))
	groups := map[string]*tsym{}
	grow := func(old tval, name string, ef teff) tval {
		if (old.k != 'i' && old.k != 's') || !ef.nonneg {
			return tval{}
		}
		s := groups[ef.tie]
		if s == nil || ef.tie == "" {
			s = x.sym("turns "+name, 0, true)
			groups[ef.tie] = s
		}
		return tval{k: old.k, l: old.l.plus(tsymLin(s), 1)}
	}
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		k := tkey{fr.id, p}
		ef := e.phis[p]
		if ef.same {
			continue
		}
		if v := grow(st.env[k], p.Name(), ef); v.k != 0 {
			st.env[k] = v
		} else {
			st.env[k] = x.fresh(p.Type(), p.Name())
		}
	}
	if e.all {
		x.forget(st)
		return
	}
	for a, ef := range e.cells {
		a = strings.Replace(a, "a:F.", fmt.Sprintf("a:%d.", fr.id), 1)
		for fv, at := range fr.free {
			if a == fmt.Sprintf("fv:%s.%s", fr.fn, fv.Name()) {
				a = at.addr
			}
		}
		if ef.same {
			continue
		}
		if v := grow(x.load(st, a, ef.typ), a, ef); v.k != 0 {
			st.cells[a] = v
		} else {
			st.cells[a] = x.fresh(ef.typ, a)
		}
	}
}

func (x *tex) forget(st *tstate) {
	for a := range st.cells {
		if !strings.HasPrefix(a, "a:") || strings.Contains(a, "^") {
			delete(st.cells, a)
		}
	}
	st.forgot = true
}

func (x *tex) block(fr *tframe, b *ssa.BasicBlock, st *tstate) { x.exec(fr, b, 0, st) }

func (x *tex) exec(fr *tframe, b *ssa.BasicBlock, idx int, st *tstate) {
	for ; idx < len(b.Instrs); idx++ {
		x.steps++
		if x.steps > 400000 {
			panic(tlimit{})
		}
		switch in := b.Instrs[idx].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			x.branch(fr, b, in, st)
			return
		case *ssa.Jump:
			x.goTo(fr, b, b.Succs[0], st)
			return
		case *ssa.Return:
			var rs []tval
			for _, r := range in.Results {
				rs = append(rs, x.val(st, fr, r))
			}
			fr.outs = append(fr.outs, tout{st, rs})
			return
		case *ssa.Panic:
			return
		case *ssa.Store:
			a := x.val(st, fr, in.Addr)
			if a.k == 'p' && a.addr != "" {
				x.store(st, a.addr, deref(in.Addr.Type()), x.val(st, fr, in.Val))
			} else if _, elem := in.Addr.(*ssa.IndexAddr); !elem {
				x.forget(st)
			}
		case *ssa.Call:
			outs, known := x.call(fr, in, st)
			if !known {
				break
			}
			for _, o := range outs {
				o.st.env[tkey{fr.id, in}] = tupleOf(o.rets)
				x.exec(fr, b, idx+1, o.st)
			}
			return
		case *ssa.Alloc:
			a := allocCell(fr, in)
			for k := range st.cells {
				if k == a || strings.HasPrefix(k, a+".") {
					delete(st.cells, k)
				}
			}
			st.env[tkey{fr.id, in}] = tval{k: 'p', addr: a}
			x.store(st, a, deref(in.Type()), zeroVal(deref(in.Type())))
		case ssa.Value:
			st.env[tkey{fr.id, in}] = x.value(st, fr, in)
		}
	}
}

func tupleOf(rs []tval) tval {
	if len(rs) == 1 {
		return rs[0]
	}
	fs := map[int]tval{}
	for i, r := range rs {
		fs[i] = r
	}
	return tval{k: 'a', fs: fs}
}

func (x *tex) value(st *tstate, fr *tframe, in ssa.Value) tval {
	switch v := in.(type) {
	case *ssa.FieldAddr:
		return x.fieldAddr(x.val(st, fr, v.X), v)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if p := setOnce(v.X); p != nil {
				return x.val(st, fr, p)
			}
		}
		a := x.val(st, fr, v.X)
		switch v.Op {
		case token.MUL:
			if a.k == 'p' && a.addr != "" {
				return x.load(st, a.addr, v.Type())
			}
		case token.SUB:
			if a.k == 'i' {
				return tval{k: 'i', l: tconst(0).plus(a.l, -1)}
			}
		case token.NOT:
			if a.k == 'b' {
				return tval{k: 'b', b: !a.b}
			}
			if a.k == 'c' {
				a.op = negOp[a.op]
				return a
			}
			return tval{k: 'c', op: token.EQL, xy: &[2]tval{a, {k: 'b'}}}
		}
	case *ssa.BinOp:
		a, b := x.val(st, fr, v.X), x.val(st, fr, v.Y)
		if a.k == 'i' && b.k == 'i' {
			switch v.Op {
			case token.ADD:
				return tval{k: 'i', l: a.l.plus(b.l, 1)}
			case token.SUB:
				return tval{k: 'i', l: a.l.plus(b.l, -1)}
			case token.MUL:
				if b.l.isConst() {
					return tval{k: 'i', l: tconst(0).plus(a.l, b.l.c)}
				}
				if a.l.isConst() {
					return tval{k: 'i', l: tconst(0).plus(b.l, a.l.c)}
				}
			}
		}
		if _, ok := negOp[v.Op]; ok {
			return tval{k: 'c', op: v.Op, xy: &[2]tval{a, b}}
		}
		if a.k == 's' && b.k == 's' && v.Op == token.ADD {
			return tval{k: 's', l: a.l.plus(b.l, 1)}
		}
	case *ssa.Field:
		if a := x.val(st, fr, v.X); a.k == 'a' {
			if f, ok := a.fs[v.Field]; ok {
				return f
			}
		}
	case *ssa.Extract:
		if a := x.val(st, fr, v.Tuple); a.k == 'a' {
			if f, ok := a.fs[v.Index]; ok {
				return f
			}
		}
	case *ssa.Convert:
		a := x.val(st, fr, v.X)
		if a.k == 'i' && isIntT(v.Type()) {
			return a
		}
		if a.k == 's' {
			if s, ok := v.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem().Underlying(), types.Typ[types.Byte]) || isStringType(v.Type()) {
				return a
			}
		}
	case *ssa.ChangeType:
		return x.val(st, fr, v.X)
	case *ssa.MakeInterface:
		return tval{k: 'v'}
	case *ssa.MakeSlice:
		if n := x.val(st, fr, v.Len); n.k == 'i' {
			return tval{k: 's', l: n.l}
		}
	case *ssa.Slice:
		a := x.val(st, fr, v.X)
		if a.k == 'p' {
			if at, ok := deref(v.X.Type()).Underlying().(*types.Array); ok {
				a = tval{k: 's', l: tconst(at.Len())}
			}
		}
		if a.k != 's' {
			break
		}
		hi := a.l
		if v.High != nil {
			h := x.val(st, fr, v.High)
			if h.k != 'i' {
				break
			}
			hi = h.l
		}
		if v.Low != nil {
			l := x.val(st, fr, v.Low)
			if l.k != 'i' {
				break
			}
			hi = hi.plus(l.l, -1)
			st.assume(l.l)
		}
		st.assume(hi)
		return tval{k: 's', l: hi}
	}
	return x.fresh(in.Type(), in.Name())
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

var negOp = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}

func (x *tex) branch(fr *tframe, b *ssa.BasicBlock, in *ssa.If, st *tstate) {
	c := x.val(st, fr, in.Cond)
	for i, to := range b.Succs {
		n := st.clone()
		if x.suppose(n, c, i == 0) {
			x.goTo(fr, b, to, n)
		}
	}
}

// suppose adds v == truth to the state; false when it cannot be.
func (x *tex) suppose(st *tstate, v tval, truth bool) bool {
	switch v.k {
	case 'b':
		return v.b == truth
	case '?':
		if v.id != 0 {
			if t, ok := st.truth[v.id]; ok {
				return t == truth
			}
			st.truth[v.id] = truth
		}
		return true
	case 'c':
	default:
		return true
	}
	op, a, b := v.op, v.xy[0], v.xy[1]
	if !truth {
		op = negOp[op]
	}
	switch op {
	case token.GTR:
		op, a, b = token.LSS, b, a
	case token.GEQ:
		op, a, b = token.LEQ, b, a
	}
	eq := op == token.EQL
	if b.k == 'b' {
		return x.suppose(st, a, b.b == eq)
	}
	if a.k == 'b' {
		return x.suppose(st, b, a.b == eq)
	}
	if a.k == 'n' {
		a, b = b, a
	}
	if b.k == 'n' && (op == token.EQL || op == token.NEQ) {
		switch {
		case a.k == 'n':
			return eq
		case a.k == 'v' || a.k == 'p':
			return !eq
		case a.k == '?' && a.id != 0:
			if t, ok := st.nil_[a.id]; ok {
				return t == eq
			}
			st.nil_[a.id] = eq
		}
		return true
	}
	if a.k == 's' && b.k == 's' && (op == token.EQL || op == token.NEQ) && (a.l.isConst() && a.l.c == 0 || b.l.isConst() && b.l.c == 0) {
		d := a.l.plus(b.l, 1)
		if !eq {
			return st.assume(d.plus(tconst(1), -1))
		}
		return x.equal(st, d)
	}
	if a.k != 'i' || b.k != 'i' {
		return true
	}
	d := st.norm(b.l.plus(a.l, -1)) // b - a
	switch op {
	case token.LSS:
		if !st.assume(d.plus(tconst(1), -1)) {
			return false
		}
		positionWithin(d, st.cmp)
	case token.LEQ:
		return st.assume(d)
	case token.EQL:
		return x.equal(st, d)
	case token.NEQ:
		if d.isConst() {
			return d.c != 0
		}
		st.differ = append(st.differ, d)
		if lo, ok := st.lower(d); ok && lo == 0 {
			return st.assume(d.plus(tconst(1), -1))
		}
		if up, ok := st.upper(d); ok && up == 0 {
			return st.assume(tconst(-1).plus(d, -1))
		}
	}
	return true
}

// positionWithin: what is subtracted from the length of a text.
func positionWithin(d tlin, out map[*tsym]bool) {
	for s, k := range d.m {
		if k == 1 && strings.HasPrefix(s.name, "len ") {
			for p, k := range d.m {
				if k == -1 && !strings.HasPrefix(p.name, "len ") {
					out[p] = true
				}
			}
			return
		}
	}
}

func (x *tex) equal(st *tstate, d tlin) bool {
	if d.isConst() {
		return d.c == 0
	}
	if lo, ok := st.lower(d); ok && lo > 0 {
		return false
	}
	if up, ok := st.upper(d); ok && up < 0 {
		return false
	}
	if len(d.m) == 1 {
		for y, k := range d.m {
			if k == 1 || k == -1 {
				st.eq[y] = -d.c * k
			}
		}
	}
	return true
}

// ---- calls

func (x *tex) call(fr *tframe, in *ssa.Call, st *tstate) ([]tout, bool) {
	set := func(v tval) { st.env[tkey{fr.id, in}] = v }
	arg := func(i int) tval { return x.val(st, fr, in.Call.Args[i]) }
	if b, ok := in.Call.Value.(*ssa.Builtin); ok {
		r := x.fresh(in.Type(), in.Name())
		switch b.Name() {
		case "len":
			if a := arg(0); a.k == 's' {
				r = tval{k: 'i', l: a.l}
			} else {
				r = tval{k: 'i', l: tsymLin(x.sym(in.Name(), 0, true))}
			}
		case "append":
			if a, c := arg(0), arg(1); a.k == 's' && c.k == 's' {
				r = tval{k: 's', l: a.l.plus(c.l, 1)}
			}
		}
		set(r)
		return nil, false
	}
	fn := in.Call.StaticCallee()
	if fn == nil {
		x.dynamic(st, fr, in)
		return nil, false
	}
	if !x.t.mine(fn) {
		switch n := fn.String(); n {
		case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndex", "strings.LastIndexByte", "strings.IndexFunc", "bytes.IndexByte", "bytes.Index":
			a := arg(0)
			if a.k != 's' {
				break
			}
			no := tout{st.clone(), []tval{{k: 'i', l: tconst(-1)}}}
			i := tsymLin(x.sym("turns "+in.Name(), 0, true))
			width := tconst(1)
			if sub := arg(1); sub.k == 's' && !strings.HasSuffix(n, "Any") {
				width = sub.l
			}
			outs := []tout{no}
			if st.assume(a.l.plus(i, -1).plus(width, -1)) {
				outs = append(outs, tout{st, []tval{{k: 'i', l: i}}})
			}
			return outs, true
		case "strings.HasPrefix", "strings.HasSuffix", "bytes.HasPrefix", "bytes.HasSuffix":
			a, p := arg(0), arg(1)
			if a.k != 's' || p.k != 's' || len(st.affix) > 16 {
				break
			}
			outs := []tout{{st.clone(), []tval{{k: 'b'}}}}
			if st.assume(a.l.plus(p.l, -1)) {
				st.affix = append(st.affix, affixKey(n[strings.Index(n, ".Has")+4:], in, a, p))
				outs = append(outs, tout{st, []tval{{k: 'b', b: true}}})
			}
			return outs, true
		case "strings.TrimPrefix", "strings.TrimSuffix", "bytes.TrimPrefix", "bytes.TrimSuffix":
			a, p := arg(0), arg(1)
			if a.k != 's' || p.k != 's' {
				break
			}
			k := affixKey(n[strings.Index(n, ".Trim")+5:], in, a, p)
			for _, h := range st.affix {
				if h == k {
					set(tval{k: 's', l: a.l.plus(p.l, -1)})
					return nil, false
				}
			}
		case "strings.Cut", "bytes.Cut":
			a, sep := arg(0), arg(1)
			if a.k == 's' && sep.k == 's' {
				typ := fn.Signature.Results().At(0).Type()
				no := tout{st.clone(), []tval{a, {k: 's'}, {k: 'b'}}}
				before := x.fresh(typ, "turns "+in.Name())
				after := a.l.plus(before.l, -1).plus(sep.l, -1)
				outs := []tout{no}
				if st.assume(a.l.plus(sep.l, -1)) && st.assume(after) {
					outs = append(outs, tout{st, []tval{before, {k: 's', l: after}, {k: 'b', b: true}}})
				}
				return outs, true
			}
		}
		set(x.library(st, fr, in, fn))
		return nil, false
	}
	if len(fn.Blocks) == 0 {
		x.dynamic(st, fr, in)
		return nil, false
	}
	for _, f := range x.stack {
		if f == fn {
			x.dynamic(st, fr, in)
			return nil, false
		}
	}
	if x.depth >= 8 || fr.fn == fn || !x.t.relevant(fn) {
		if x.t.stores(fn) {
			x.forget(st)
		}
		set(x.freshTuple(in.Type(), in.Name()))
		return nil, false
	}
	x.frames++
	sub := &tframe{id: x.frames, fn: fn}
	for i, p := range fn.Params {
		st.env[tkey{sub.id, p}] = arg(i)
	}
	if mc, ok := in.Call.Value.(*ssa.MakeClosure); ok {
		sub.free = map[ssa.Value]tval{}
		for i, b := range mc.Bindings {
			sub.free[fn.FreeVars[i]] = x.val(st, fr, b)
		}
	}
	if x.once && len(fn.Blocks) > 8 {
		panic(tround{})
	}
	x.depth++
	x.stack = append(x.stack, fr.fn)
	x.block(sub, fn.Blocks[0], st)
	x.stack = x.stack[:len(x.stack)-1]
	x.depth--
	// ways that cannot be told apart are one
	var outs []tout
	seen := map[string]bool{}
	for _, o := range sub.outs {
		for k := range o.st.env {
			if k.frame == sub.id {
				delete(o.st.env, k)
			}
		}
		for a := range o.st.cells {
			if strings.HasPrefix(a, fmt.Sprintf("a:%d.", sub.id)) {
				delete(o.st.cells, a)
			}
		}
		var keys []string
		for a, v := range o.st.cells {
			keys = append(keys, a+"="+o.st.show(v))
		}
		sort.Strings(keys)
		k := fmt.Sprint(keys, o.st.cmpKey(), len(o.st.reads))
		for _, r := range o.rets {
			k += "|" + o.st.show(r)
		}
		if !seen[k] {
			seen[k] = true
			outs = append(outs, o)
		}
	}
	return outs, true
}

func (s *tstate) cmpKey() string {
	var p []int
	for y := range s.cmp {
		p = append(p, y.id)
	}
	sort.Ints(p)
	return fmt.Sprint(p)
}

func (s *tstate) within(o tlin) bool {
	for y := range o.m {
		if s.cmp[y] {
			return true
		}
	}
	return false
}

// show: a key of a value up to the names of unconstrained parts.
func (s *tstate) show(v tval) string {
	switch v.k {
	case 'i', 's':
		l := s.norm(v.l)
		var p []string
		for y, k := range l.m {
			if lo, ok := s.lo[y]; ok || y.has {
				if !ok || lo < y.lo {
					lo = y.lo
				}
				if strings.HasPrefix(y.name, "turns ") || strings.HasPrefix(y.name, "w ") {
					p = append(p, fmt.Sprintf("%d*≥%d", k, lo))
					continue
				}
			}
			if y.name[0] == 't' {
				p = append(p, fmt.Sprintf("%d*any", k))
				continue
			}
			p = append(p, fmt.Sprintf("%d*%d", k, y.id))
		}
		sort.Strings(p)
		return fmt.Sprint(l.c, p)
	case 'a':
		r := "{"
		for i := 0; i < len(v.fs); i++ {
			r += s.show(v.fs[i]) + ","
		}
		return r + "}"
	case '?':
		if n, ok := s.nil_[v.id]; ok {
			return fmt.Sprint("?nil=", n)
		}
		if n, ok := s.truth[v.id]; ok {
			return fmt.Sprint("?is ", n)
		}
		return "?"
	}
	if v.k == 'c' {
		return s.show(v.xy[0]) + v.op.String() + s.show(v.xy[1])
	}
	return fmt.Sprintf("%c%v%s", v.k, v.b, v.addr)
}

// affixKey: the same text and the same constant.
func affixKey(what string, in *ssa.Call, a, p tval) string {
	c, ok := in.Call.Args[1].(*ssa.Const)
	if !ok {
		return fmt.Sprintf("%s ? %p", what, in)
	}
	return what + c.String() + in.Call.Args[0].Name() + a.l.key()
}

func (x *tex) freshTuple(t types.Type, name string) tval {
	if tup, ok := t.(*types.Tuple); ok {
		fs := map[int]tval{}
		for i := 0; i < tup.Len(); i++ {
			fs[i] = x.fresh(tup.At(i).Type(), name)
		}
		return tval{k: 'a', fs: fs}
	}
	return x.fresh(t, name)
}

func (x *tex) dynamic(st *tstate, fr *tframe, in *ssa.Call) {
	if in.Call.IsInvoke() {
		switch in.Call.Method.Name() {
		case "Error", "String", "Len", "Name":
		case "Read":
			x.reader(st, fr, in)
			return
		default:
			x.forget(st)
		}
	} else {
		x.forget(st)
	}
	st.env[tkey{fr.id, in}] = x.freshTuple(in.Type(), in.Name())
}

// reader: a call that consumes input as long as it reports no error; at the
// end of the input it reports one.
func (x *tex) reader(st *tstate, fr *tframe, in *ssa.Call) {
	v := x.freshTuple(in.Type(), in.Name())
	st.env[tkey{fr.id, in}] = v
	if v.k == 'a' {
		e := v.fs[len(v.fs)-1]
		if e.k == '?' {
			st.reads = append(st.reads, e.id)
		}
	} else if v.k == '?' {
		st.reads = append(st.reads, -v.id)
	}
}

func (x *tex) library(st *tstate, fr *tframe, in *ssa.Call, fn *ssa.Function) tval {
	arg := func(i int) tval { return x.val(st, fr, in.Call.Args[i]) }
	name := fn.String()
	switch name {
	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune", "unicode/utf8.DecodeLastRuneInString", "unicode/utf8.DecodeLastRune":
		w := int64(0)
		if a := arg(0); a.k == 's' {
			if lo, ok := st.lower(a.l); ok && lo >= 1 {
				w = 1
			}
		}
		return tval{k: 'a', fs: map[int]tval{0: x.fresh(types.Typ[types.Int32], "t"), 1: {k: 'i', l: tsymLin(x.sym("w "+in.Name(), w, true))}}}
	case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimFunc", "strings.TrimLeftFunc", "strings.TrimRightFunc", "bytes.TrimSpace", "bytes.TrimPrefix", "bytes.TrimLeft":
		if a := arg(0); a.k == 's' {
			s := x.sym("turns "+in.Name(), 0, true)
			r := a.l.plus(tsymLin(s), -1)
			st.assume(r)
			return tval{k: 's', l: r}
		}
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndex", "strings.IndexFunc", "bytes.IndexByte", "bytes.Index":
		return tval{k: 'i', l: tsymLin(x.sym("turns "+in.Name(), -1, true))}
	case "unicode/utf8.RuneLen":
		return tval{k: 'i', l: tsymLin(x.sym("turns "+in.Name(), -1, true))}
	case "fmt.Errorf", "errors.New":
		return tval{k: 'v'}
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf":
		return tval{k: 'v'}
	case "(*bufio.Scanner).Scan", "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadRune", "(*bufio.Reader).ReadByte", "(*bufio.Reader).ReadLine", "(*bufio.Reader).ReadSlice", "(*bufio.Reader).Read", "(*os.File).Read", "(*strings.Reader).Read", "(*strings.Reader).ReadByte", "(*strings.Reader).ReadRune", "(*bytes.Reader).Read", "(*bytes.Buffer).ReadString", "(*bytes.Buffer).Read", "(*bytes.Buffer).ReadByte":
		x.reader(st, fr, in)
		return st.env[tkey{fr.id, in}]
	}
	if strings.HasPrefix(name, "github.com/vektah/gqlparser/v2/gqlerror.Error") {
		return tval{k: 'v'}
	}
	return x.freshTuple(in.Type(), "t"+in.Name())
}

// ---- loop effects

type teff struct {
	same, nonneg bool
	tie          string
	typ          types.Type
}

type teffect struct {
	phis  map[*ssa.Phi]teff
	cells map[string]teff
	all   bool
}

type termAn struct {
	pkgs    map[*ssa.Function]bool
	heads   map[*ssa.BasicBlock]*tloop
	loops   map[*ssa.Function][]*tloop
	effects map[*tloop]*teffect
	rel     map[*ssa.Function]int
	written map[string]bool
}

func (t *termAn) mine(fn *ssa.Function) bool { return t.pkgs[fn] }

func (t *termAn) loopAt(b *ssa.BasicBlock) *tloop {
	fn := b.Parent()
	if _, ok := t.loops[fn]; !ok {
		ls, _ := loopsOf(fn)
		t.loops[fn] = ls
		for _, l := range ls {
			t.heads[l.head] = l
		}
	}
	return t.heads[b]
}

// stores: the function, or one it calls, writes to memory it did not allocate.
func (t *termAn) stores(fn *ssa.Function) bool {
	switch t.rel[fn] {
	case 1, 3:
		return t.rel[fn] == 3
	}
	t.rel[fn] = 1
	r := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if !localAddr(in.Addr) {
					r = true
				}
			case ssa.CallInstruction:
				cc := in.Common()
				if _, ok := cc.Value.(*ssa.Builtin); ok {
					continue
				}
				g := cc.StaticCallee()
				if g == nil {
					r = r || !cc.IsInvoke()
				} else if t.mine(g) && t.stores(g) {
					r = true
				}
			}
		}
	}
	if r {
		t.rel[fn] = 3
	}
	return r
}

func localAddr(v ssa.Value) bool {
	for {
		switch a := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		default:
			return false
		}
	}
}

// relevant: worth following into.
func (t *termAn) relevant(fn *ssa.Function) bool {
	return t.stores(fn) || len(fn.Blocks) <= 8
}

func (t *termAn) iterate(fn *ssa.Function, l *tloop, stack []*ssa.Function) (x *tex, start *tstate, ok bool) {
	x = &tex{t: t, root: l, rootFr: 0, outer: map[tkey]tval{}, init: map[string]tval{}, stack: stack}
	st := newTstate()
	fr := &tframe{id: 0, fn: fn}
	for _, in := range l.head.Instrs {
		if p, o := in.(*ssa.Phi); o {
			st.env[tkey{0, p}] = x.fresh(p.Type(), "t"+p.Name())
		}
	}
	start = st.clone()
	x.start = start
	ok = true
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, lim := r.(tlimit); !lim {
					panic(r)
				}
				ok = false
			}
		}()
		x.block(fr, l.head, st)
	}()
	return x, start, ok
}

func (t *termAn) effect(fn *ssa.Function, l *tloop, stack []*ssa.Function) *teffect {
	if e := t.effects[l]; e != nil {
		return e
	}
	e := &teffect{phis: map[*ssa.Phi]teff{}, cells: map[string]teff{}}
	t.effects[l] = &teffect{all: true, phis: map[*ssa.Phi]teff{}}
	x, start, ok := t.iterate(fn, l, stack)
	if !ok {
		e.all = true
		t.effects[l] = e
		return e
	}
	changes := func(old func() tval, now func(s *tstate) (tval, bool), typ types.Type) teff {
		ef := teff{same: true, nonneg: true, typ: typ}
		var ties []string
		o := old()
		for _, s := range x.latch {
			n, has := now(s)
			if !has {
				ties = append(ties, tconst(0).key())
				continue
			}
			if n.k != o.k || n.k != 'i' && n.k != 's' {
				ef.same, ef.nonneg = false, false
				continue
			}
			d := s.norm(n.l.plus(o.l, -1))
			if !d.isConst() || d.c != 0 {
				ef.same = false
			}
			if lo, ok := s.lower(d); !ok || lo < 0 {
				ef.nonneg = false
			}
			ties = append(ties, d.key())
		}
		if ef.nonneg {
			ef.tie = strings.Join(ties, ";")
		}
		return ef
	}
	for _, in := range l.head.Instrs {
		if p, o := in.(*ssa.Phi); o {
			k := tkey{0, p}
			e.phis[p] = changes(func() tval { return start.env[k] }, func(s *tstate) (tval, bool) { v, ok := s.env[k]; return v, ok }, p.Type())
		}
	}
	for _, s := range x.latch {
		for a, v := range s.cells {
			key := strings.Replace(a, "a:0.", "a:F.", 1)
			if strings.HasPrefix(key, "a:") && !strings.HasPrefix(key, "a:F.") {
				continue
			}
			if _, done := e.cells[key]; done {
				continue
			}
			typ := tvalType(v)
			if o, ok := x.init[a]; ok {
				a := a
				e.cells[key] = changes(func() tval { return o }, func(s *tstate) (tval, bool) { v, ok := s.cells[a]; return v, ok }, typ)
			} else {
				e.cells[key] = teff{typ: typ}
			}
		}
	}
	t.effects[l] = e
	return e
}

func tvalType(v tval) types.Type {
	switch v.k {
	case 'i':
		return types.Typ[types.Int]
	case 's':
		return types.Typ[types.String]
	}
	return types.Typ[types.UnsafePointer]
}

// terminates looks for a ranking function of the loop; "" when there is one,
// else why not.
func (t *termAn) terminates(fn *ssa.Function, l *tloop) string {
	if why, ok := t.rangeLoop(l); ok {
		return why
	}
	if t.descends(l) {
		return ""
	}
	x, start, ok := t.iterate(fn, l, nil)
	if !ok {
		return "its body has too many paths"
	}
	why := ""
	if len(x.latch) > 0 {
		why = x.ranked(fn, l, start)
	}
	if why != "" && len(x.latch) <= 5000 {
		// ways round after which the next turn leaves
		var live []*tstate
		for _, s := range x.latch {
			if !x.leavesNext(fn, l, s) {
				live = append(live, s)
			}
		}
		if len(live) < len(x.latch) {
			x.latch = live
			why = ""
			if len(live) > 0 {
				why = x.ranked(fn, l, start)
			}
		}
	}
	return why
}

// leavesNext: no way through the turn after s comes round again.
func (x *tex) leavesNext(fn *ssa.Function, l *tloop, s *tstate) (out bool) {
	x.once = true
	defer func() {
		x.once = false
		if r := recover(); r != nil {
			switch r.(type) {
			case tlimit, tround:
			default:
				panic(r)
			}
			out = false
		}
	}()
	x.steps = 0
	x.stack, x.depth = nil, 0
	x.block(&tframe{id: 0, fn: fn}, l.head, s.clone())
	return true
}

// ranked looks for what gets smaller on every way round.
func (x *tex) ranked(fn *ssa.Function, l *tloop, start *tstate) string {
	// ranking by what every turn has found to be so far from its bound
	why := "no condition that bounds it was found"
	var cands []tlin
	for _, f := range x.latch[0].facts {
		for y, k := range f.m {
			if k < 0 && !x.stable(tsymLin(y)) {
				if lo, ok := x.latch[0].direct(tsymLin(y)); ok {
					f = f.plus(tsymLin(y), -k).plus(tconst(lo), k)
				}
			}
		}
		if len(f.m) == 0 || !x.stable(f) {
			continue
		}
		cands = append(cands, f)
	}
	for i, f := range cands {
		for _, g := range cands[:i] {
			if len(cands) <= 12 {
				cands = append(cands, f.plus(g, 1))
			}
		}
	}
	for _, f := range cands {
		good := true
		for _, s := range x.latch {
			if _, ok := s.lower(f); !ok {
				good = false
				break
			}
			if lo, ok := s.lower(f.plus(x.nextTurn(f, s, start), -1)); !ok || lo < 1 {
				good = false
				why = fmt.Sprintf("%s does not get smaller on every way round", f)
				break
			}
		}
		if good {
			if os.Getenv("SA_DEBUG") != "" {
				fmt.Println("ranking of", fn, "at", blockPos(l), ":", f, len(x.latch))
			}
			return ""
		}
	}
	for _, f := range x.latch[0].differ {
		if !x.stable(f) {
			continue
		}
		good := true
		var step int64
		for _, s := range x.latch {
			has := false
			for _, g := range s.differ {
				if n := s.norm(g.plus(f, -1)); n.isConst() && n.c == 0 {
					has = true
				}
			}
			d := s.norm(f.plus(x.nextTurn(f, s, start), -1))
			if !has || !d.isConst() || d.c != 1 && d.c != -1 || step != 0 && d.c != step {
				good = false
				break
			}
			step = d.c
		}
		if good {
			return ""
		}
	}
	// a scanner that moves on until the end of its text
	cells := map[string]bool{}
	for a := range x.latch[0].cells {
		if strings.HasPrefix(a, "h:") {
			cells[a] = true
		}
	}
	for a := range cells {
		good := true
		for _, s := range x.latch {
			o, known := x.init[a]
			v, set := s.cells[a]
			if !known || !set || v.k != 'i' || o.k != 'i' || !s.within(o.l) {
				good = false
				break
			}
			if lo, ok := s.lower(v.l.plus(o.l, -1)); !ok || lo < 1 {
				good = false
				break
			}
		}
		if good {
			return ""
		}
	}
	// a reader that consumes input until it reports the end
	good := true
	for _, s := range x.latch {
		read := false
		for _, id := range s.reads {
			if id > 0 {
				if n, ok := s.nil_[id]; ok && n {
					read = true
				}
			} else if tr, ok := s.truth[-id]; ok && tr {
				read = true
			}
		}
		if !read {
			good = false
		} else {
			why = "it may go on after reading has failed or ended"
		}
	}
	if good {
		return ""
	}
	return why
}

// stable: made of values at the start of a turn only.
func (x *tex) stable(m tlin) bool {
	own := map[*tsym]bool{}
	for _, set := range []map[tkey]tval{x.outer, x.start.env} {
		for _, v := range set {
			for y := range v.l.m {
				own[y] = true
			}
		}
	}
	for _, v := range x.init {
		for y := range v.l.m {
			own[y] = true
		}
	}
	for y := range m.m {
		if !own[y] {
			return false
		}
	}
	return true
}

// nextTurn: the measure one turn later.
func (x *tex) nextTurn(m tlin, s *tstate, start *tstate) tlin {
	unknown := func() tlin { return tsymLin(x.sym("tunknown", 0, false)) }
	out := tconst(m.c)
	for y, k := range m.m {
		r := tsymLin(y)
		for key, v := range start.env {
			if v.l.m[y] == 1 {
				r = s.env[key].l
				if s.env[key].k != v.k {
					r = unknown()
				}
			}
		}
		for a, v := range x.init {
			if v.l.m[y] == 1 {
				if n, ok := s.cells[a]; ok {
					r = n.l
					if n.k != v.k {
						r = unknown()
					}
				} else if s.forgot && (!strings.HasPrefix(a, "a:") || strings.Contains(a, "^")) {
					r = unknown()
				}
			}
		}
		out = out.plus(r, k)
	}
	return out
}

// rangeLoop recognises the loops of range statements.
func (t *termAn) rangeLoop(l *tloop) (string, bool) {
	for b := range l.body {
		for _, in := range b.Instrs {
			n, ok := in.(*ssa.Next)
			if !ok || !l.domsLatches(b) {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			ex, ok := iff.Cond.(*ssa.Extract)
			if !ok || ex.Tuple != n || ex.Index != 0 || l.body[b.Succs[1]] {
				continue
			}
			r, ok := n.Iter.(*ssa.Range)
			if !ok || l.body[r.Block()] {
				continue
			}
			for c := range l.body {
				for _, in := range c.Instrs {
					if mu, ok := in.(*ssa.MapUpdate); ok && mu.Map == r.X {
						if k, ok := mu.Key.(*ssa.Extract); !ok || k.Tuple != n {
							return "it adds to the map it ranges over", true
						}
					}
				}
			}
			return "", true
		}
	}
	return "", l.counts()
}

// counts: an index loop whose bound is fixed before the loop.
func (l *tloop) counts() bool {
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok || l.body[l.head.Succs[0]] == l.body[l.head.Succs[1]] {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	// the condition under which the loop goes on, counter first
	op, x, y := cmp.Op, cmp.X, cmp.Y
	if !l.body[l.head.Succs[0]] {
		inv := map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}
		op = inv[op]
	}
	if l.fixed(x) {
		back := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.NEQ: token.NEQ}
		op, x, y = back[op], y, x
	}
	if !l.fixed(y) || !isIntT(x.Type()) {
		return false
	}
	phi, _ := x.(*ssa.Phi)
	pre := int64(0)
	if add, ok := x.(*ssa.BinOp); ok && phi == nil {
		phi, _ = add.X.(*ssa.Phi)
		pre, _ = addend(add)
	}
	if phi == nil || phi.Block() != l.head {
		return false
	}
	sign := int64(0)
	for i, p := range l.head.Preds {
		if !l.body[p] {
			// != is a bound only for what starts on this side of it
			if op == token.NEQ {
				k, isC := constInt64(phi.Edges[i])
				if !isC || k+pre != 0 || !isLen(y) {
					return false
				}
			}
			continue
		}
		add, ok := phi.Edges[i].(*ssa.BinOp)
		if !ok || add.X != phi {
			return false
		}
		d, ok := addend(add)
		if !ok || d == 0 || sign != 0 && (d > 0) != (sign > 0) || op == token.NEQ && d != 1 {
			return false
		}
		sign = d
	}
	switch op {
	case token.LSS, token.LEQ, token.NEQ:
		return sign > 0
	case token.GTR, token.GEQ:
		return sign < 0
	}
	return false
}

// fixed: the value is the same in every turn.
func (l *tloop) fixed(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || !l.body[in.Block()] {
		return true
	}
	switch v := v.(type) {
	case *ssa.Call:
		return isLen(v) && l.fixed(v.Call.Args[0])
	case *ssa.BinOp:
		return l.fixed(v.X) && l.fixed(v.Y)
	case *ssa.Convert:
		return l.fixed(v.X)
	}
	return false
}

// isLen: the length of a slice or a string.
func isLen(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return false
	}
	switch u := c.Call.Args[0].Type().Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

func constInt64(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

// addend: what a sum adds to its first operand.
func addend(b *ssa.BinOp) (int64, bool) {
	k, ok := constInt64(b.Y)
	switch {
	case !ok:
	case b.Op == token.ADD:
		return k, true
	case b.Op == token.SUB:
		return -k, true
	}
	return 0, false
}

// descends: every turn goes from a node to one of its parts.
func (t *termAn) descends(l *tloop) bool {
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if _, ptr := p.Type().Underlying().(*types.Pointer); !ptr {
			continue
		}
		good := true
		for i, q := range l.head.Preds {
			if !l.body[q] {
				continue
			}
			if at := partOf(p.Edges[i], p, map[ssa.Value]bool{}); at == nil || !at.strict {
				good = false
			}
		}
		if good {
			return true
		}
	}
	return false
}

func stepsUp(b *ssa.BinOp) bool {
	k, ok := addend(b)
	return ok && k > 0
}
