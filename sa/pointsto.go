package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An inclusion-based points-to analysis (flow- and context-insensitive,
// field-sensitive), used to decide which instructions can write into the memory
// of a parsed document. The document is one object that contains itself.

type pobj struct {
	id     int
	name   string
	fn     *ssa.Function
	bind   []*pnode // closure bindings
	parent *pobj
	subs   map[string]*pobj
	cont   *pnode // what a cell holds
	copies map[*pobj]bool
	from   []*pobj // struct copies into this object
	to     []*pobj
	typ    types.Type // dynamic type seen in an interface
}

type pnode struct {
	objs  map[*pobj]bool
	succ  map[*pnode]bool
	watch []func(o *pobj)
}

type ptrAnalysis struct {
	doc, view, clip *pobj
	nodes           map[any]*pnode
	objs            map[any]*pobj
	nobj            int
	done            map[*ssa.Function]bool
	work            []func()
	writes          []pwrite
	fns             []*ssa.Function
	iface           map[*pnode][]types.Type
	libs            []pcall
	ctx             ssa.Instruction
	seenFn          map[*ssa.Function]bool
	inst            map[ssa.Instruction]map[*ssa.Function]bool
}

// isLookup: a function that only looks things up: it makes and writes nothing
// and calls nothing. Its calls are told apart.
func isLookup(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Alloc, *ssa.Store, *ssa.MapUpdate, *ssa.MakeClosure, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeInterface, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
				return false
			case *ssa.Call:
				b, ok := x.Call.Value.(*ssa.Builtin)
				if !ok || b.Name() != "len" && b.Name() != "cap" {
					return false
				}
			}
		}
	}
	return true
}

// pcall is a call of a function outside the analysed packages.
type pcall struct {
	caller *ssa.Function
	in     ssa.Instruction
	fn     *ssa.Function
	args   []ssa.Value
}

type pwrite struct {
	fn    *ssa.Function
	pos   token.Pos
	what  string
	where *pnode
	grow  bool // append: only a shortened view is overwritten
}

func newPtrAnalysis() *ptrAnalysis {
	a := &ptrAnalysis{nodes: map[any]*pnode{}, objs: map[any]*pobj{}, done: map[*ssa.Function]bool{}, seenFn: map[*ssa.Function]bool{}, inst: map[ssa.Instruction]map[*ssa.Function]bool{}}
	a.doc = a.obj("doc", "the document")
	a.view = a.obj("view", "a shortened list of the document")
	a.clip = a.obj("clip", "a clipped list of the document")
	for _, o := range []*pobj{a.doc, a.view, a.clip} {
		o.subs = nil
		a.add(o.cont, a.doc)
	}
	return a
}

func (a *ptrAnalysis) docLike(o *pobj) bool { return o == a.doc || o == a.view || o == a.clip }

func (a *ptrAnalysis) obj(key any, name string) *pobj {
	if o, ok := a.objs[key]; ok {
		return o
	}
	a.nobj++
	o := &pobj{id: a.nobj, name: name, subs: map[string]*pobj{}, copies: map[*pobj]bool{}, cont: newPnode()}
	a.objs[key] = o
	return o
}

func newPnode() *pnode { return &pnode{objs: map[*pobj]bool{}, succ: map[*pnode]bool{}} }

// ctxKey is a value of a small function, for one place that calls it.
type ctxKey struct {
	at  ssa.Instruction
	key any
}

func (a *ptrAnalysis) node(key any) *pnode {
	if a.ctx != nil {
		switch key.(type) {
		case *ssa.Global, *ssa.Function, *ssa.Const:
		default:
			key = ctxKey{a.ctx, key}
		}
	}
	n := a.nodes[key]
	if n == nil {
		n = newPnode()
		a.nodes[key] = n
	}
	return n
}

func (a *ptrAnalysis) add(n *pnode, o *pobj) {
	if n.objs[o] {
		return
	}
	n.objs[o] = true
	a.work = append(a.work, func() {
		for _, w := range n.watch {
			w(o)
		}
		for s := range n.succ {
			a.add(s, o)
		}
	})
}

func (a *ptrAnalysis) flow(from, to *pnode) {
	if from == to || from.succ[to] {
		return
	}
	from.succ[to] = true
	for o := range from.objs {
		a.add(to, o)
	}
}

// each calls f for every object n can point to, now and later.
func (a *ptrAnalysis) each(n *pnode, f func(o *pobj)) {
	n.watch = append(n.watch, f)
	for o := range n.objs {
		a.work = append(a.work, func() { f(o) })
	}
}

func (a *ptrAnalysis) sub(o *pobj, f string) *pobj {
	if a.docLike(o) {
		return a.doc
	}
	if s := o.subs[f]; s != nil {
		return s
	}
	depth := 0
	for p := o; p != nil; p = p.parent {
		depth++
	}
	if depth > 8 {
		return o
	}
	a.nobj++
	s := &pobj{id: a.nobj, name: o.name + "." + f, parent: o, subs: map[string]*pobj{}, copies: map[*pobj]bool{}, cont: newPnode()}
	o.subs[f] = s
	for _, src := range o.from {
		a.copyObj(a.sub(src, f), s)
	}
	for _, dst := range o.to {
		a.copyObj(s, a.sub(dst, f))
	}
	return s
}

// copyObj: the struct or array in src is copied into dst.
func (a *ptrAnalysis) copyObj(src, dst *pobj) {
	if src == dst || a.docLike(dst) || dst.copies[src] {
		return
	}
	dst.copies[src] = true
	a.flow(src.cont, dst.cont)
	dst.from = append(dst.from, src)
	src.to = append(src.to, dst)
	names := map[string]bool{}
	for f := range src.subs {
		names[f] = true
	}
	for f := range dst.subs {
		names[f] = true
	}
	for f := range names {
		a.copyObj(a.sub(src, f), a.sub(dst, f))
	}
}

func isAggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// load: dst receives what the cells in addr hold.
func (a *ptrAnalysis) load(addr, dst *pnode, t types.Type) {
	if isAggregate(t) {
		a.flow(addr, dst) // a struct value is represented by the places it was read from
		return
	}
	a.each(addr, func(o *pobj) { a.flow(o.cont, dst) })
}

func (a *ptrAnalysis) storeTo(addr, v *pnode, t types.Type) {
	a.each(addr, func(o *pobj) {
		if a.docLike(o) {
			return
		}
		if isAggregate(t) {
			a.each(v, func(s *pobj) { a.copyObj(s, o) })
			return
		}
		a.flow(v, o.cont)
	})
}

func (a *ptrAnalysis) field(addr, dst *pnode, f string) {
	a.each(addr, func(o *pobj) { a.add(dst, a.sub(o, f)) })
}

func (a *ptrAnalysis) val(v ssa.Value) *pnode {
	switch v := v.(type) {
	case *ssa.Function:
		n := a.node(v)
		o := a.obj(v, v.String())
		o.fn = v
		a.add(n, o)
		return n
	case *ssa.Global:
		n := a.node(v)
		a.add(n, a.obj(v, v.String()))
		return n
	}
	return a.node(v)
}

func (a *ptrAnalysis) fresh(v any, name string) *pobj { return a.obj(v, name) }

type tupleKey struct {
	v ssa.Value
	i int
}

type auxKey struct{ v any }

func ptrAnalysed(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	p := fnPkg(fn)
	if strings.HasPrefix(p, repoModule) || strings.HasPrefix(p, "github.com/vektah/") {
		return true
	}
	switch p {
	case "slices", "maps", "cmp", "iter", "sort", "":
		return fn.Name() != "Slice" && fn.Name() != "SliceStable"
	}
	return false
}

func (a *ptrAnalysis) run(roots ...*ssa.Function) {
	for _, f := range roots {
		a.function(f)
	}
	for len(a.work) > 0 {
		w := a.work[len(a.work)-1]
		a.work = a.work[:len(a.work)-1]
		w()
	}
	sort.Slice(a.fns, func(i, j int) bool { return a.fns[i].String() < a.fns[j].String() })
}

func (a *ptrAnalysis) function(fn *ssa.Function) {
	if a.done[fn] {
		return
	}
	a.done[fn] = true
	if !a.seenFn[fn] {
		a.seenFn[fn] = true
		a.fns = append(a.fns, fn)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			a.instr(fn, in)
		}
	}
}

func (a *ptrAnalysis) write(fn *ssa.Function, p token.Pos, what string, where *pnode, grow bool) {
	a.writes = append(a.writes, pwrite{fn, p, what, where, grow})
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isZero(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return false
	}
	k, ok := constant.Int64Val(c.Value)
	return ok && k == 0
}

func fieldAt(t types.Type, i int) string {
	return deref(t).Underlying().(*types.Struct).Field(i).Name()
}

func (a *ptrAnalysis) instr(fn *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		a.add(a.val(x), a.fresh(x, "a variable at "+pos(x.Pos())))
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		a.add(a.val(v), a.fresh(v, "made at "+pos(v.Pos())))
	case *ssa.MakeClosure:
		o := a.fresh(x, "closure")
		o.fn = x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			a.flow(a.val(b), a.val(o.fn.FreeVars[i]))
		}
		a.add(a.val(x), o)
	case *ssa.FieldAddr:
		a.field(a.val(x.X), a.val(x), fieldAt(x.X.Type(), x.Field))
	case *ssa.Field:
		t := a.node(auxKey{x})
		a.field(a.val(x.X), t, fieldAt(x.X.Type(), x.Field))
		a.load(t, a.val(x), x.Type())
	case *ssa.IndexAddr:
		a.field(a.val(x.X), a.val(x), "[]")
	case *ssa.Index:
		t := a.node(auxKey{x})
		a.field(a.val(x.X), t, "[]")
		a.load(t, a.val(x), x.Type())
	case *ssa.Lookup:
		t := a.node(auxKey{x})
		a.field(a.val(x.X), t, "v")
		dst := a.val(x)
		et := x.Type()
		if x.CommaOk {
			dst = a.node(tupleKey{x, 0})
			et = et.(*types.Tuple).At(0).Type()
		}
		a.load(t, dst, et)
	case *ssa.MapUpdate:
		k, v := a.node(auxKey{x}), a.node(auxKey{[2]any{x, 1}})
		a.field(a.val(x.Map), k, "k")
		a.field(a.val(x.Map), v, "v")
		a.storeTo(k, a.val(x.Key), x.Key.Type())
		a.storeTo(v, a.val(x.Value), x.Value.Type())
		a.write(fn, x.Pos(), "map assignment", a.val(x.Map), false)
	case *ssa.Range:
		a.flow(a.val(x.X), a.val(x))
	case *ssa.Next:
		if x.IsString {
			return
		}
		tt := x.Type().(*types.Tuple)
		for i, f := range []string{"k", "v"} {
			t := a.node(auxKey{[2]any{x, i}})
			a.field(a.val(x.Iter), t, f)
			a.load(t, a.node(tupleKey{x, i + 1}), tt.At(i+1).Type())
		}
	case *ssa.Store:
		a.storeTo(a.val(x.Addr), a.val(x.Val), x.Val.Type())
		a.write(fn, x.Pos(), "assignment", a.val(x.Addr), false)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a.load(a.val(x.X), a.val(x), x.Type())
		case token.ARROW:
			dst := a.val(x)
			a.each(a.val(x.X), func(o *pobj) { a.flow(o.cont, dst) })
		}
	case *ssa.Send:
		a.each(a.val(x.Chan), func(o *pobj) { a.flow(a.val(x.X), o.cont) })
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.flow(a.val(e), a.val(x))
		}
	case *ssa.Slice:
		dst := a.val(x)
		a.each(a.val(x.X), func(o *pobj) {
			if !a.docLike(o) {
				a.add(dst, o)
				return
			}
			switch {
			case x.Max != nil && isZero(x.Max):
			case x.Max != nil && x.Max == x.High:
				a.add(dst, a.clip)
			case x.High != nil && o != a.clip:
				a.add(dst, a.view)
			default:
				a.add(dst, o)
			}
		})
	case *ssa.ChangeType:
		a.flow(a.val(x.X), a.val(x))
	case *ssa.Convert:
		a.flow(a.val(x.X), a.val(x))
	case *ssa.MultiConvert:
		a.flow(a.val(x.X), a.val(x))
	case *ssa.SliceToArrayPointer:
		a.flow(a.val(x.X), a.val(x))
	case *ssa.ChangeInterface:
		a.flow(a.val(x.X), a.val(x))
	case *ssa.MakeInterface:
		o := a.fresh(x, "interface value")
		o.typ = x.X.Type()
		a.flow(a.val(x.X), o.cont)
		if isAggregate(o.typ) {
			a.each(a.val(x.X), func(s *pobj) { a.copyObj(s, o) })
		}
		a.add(a.val(x), o)
	case *ssa.TypeAssert:
		dst := a.val(x)
		if x.CommaOk {
			dst = a.node(tupleKey{x, 0})
		}
		if types.IsInterface(x.AssertedType) {
			a.flow(a.val(x.X), dst)
			return
		}
		a.each(a.val(x.X), func(o *pobj) {
			switch {
			case o.typ == nil:
				a.add(dst, o)
			case types.Identical(o.typ, x.AssertedType):
				if isAggregate(o.typ) {
					a.add(dst, o)
				} else {
					a.flow(o.cont, dst)
				}
			}
		})
	case *ssa.Extract:
		a.flow(a.node(tupleKey{x.Tuple, x.Index}), a.val(x))
	case *ssa.Return:
		for i, r := range x.Results {
			a.flow(a.val(r), a.node(retKey{fn, i}))
		}
	case *ssa.Call:
		a.call(fn, x, x.Common(), x)
	case *ssa.Defer:
		a.call(fn, x, x.Common(), nil)
	case *ssa.Go:
		a.call(fn, x, x.Common(), nil)
	}
}

type retKey struct {
	fn *ssa.Function
	i  int
}

func (a *ptrAnalysis) result(v ssa.Value, i int) *pnode {
	if v == nil {
		return newPnode()
	}
	if _, ok := v.Type().(*types.Tuple); ok {
		return a.node(tupleKey{v, i})
	}
	return a.val(v)
}

func (a *ptrAnalysis) call(fn *ssa.Function, in ssa.Instruction, cc *ssa.CallCommon, v ssa.Value) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		a.builtin(fn, in, b.Name(), cc.Args, v)
		return
	}
	if cc.IsInvoke() {
		bound := map[*ssa.Function]bool{}
		a.each(a.val(cc.Value), func(o *pobj) {
			if o.typ == nil {
				return
			}
			m := prg.prog.LookupMethod(o.typ, cc.Method.Pkg(), cc.Method.Name())
			if m == nil {
				return
			}
			if len(m.Params) > 0 {
				if isAggregate(o.typ) {
					a.add(a.val(m.Params[0]), o)
				} else {
					a.flow(o.cont, a.val(m.Params[0]))
				}
			}
			if !bound[m] {
				bound[m] = true
				a.bind(fn, in, m, nil, cc.Args, 1, v)
			}
		})
		return
	}
	bound := map[*ssa.Function]bool{}
	a.each(a.val(cc.Value), func(o *pobj) {
		if o.fn != nil && !bound[o.fn] {
			bound[o.fn] = true
			a.bind(fn, in, o.fn, nil, cc.Args, 0, v)
		}
	})
}

func (a *ptrAnalysis) bind(caller *ssa.Function, in ssa.Instruction, fn *ssa.Function, _ any, args []ssa.Value, skip int, v ssa.Value) {
	if fnPkg(fn) == strings.TrimSuffix(parserPrefix, ".") {
		a.add(a.result(v, 0), a.doc)
		return
	}
	if !ptrAnalysed(fn) {
		a.library(caller, in, fn, args, v)
		return
	}
	var from, to []*pnode
	for i, x := range args {
		if i+skip < len(fn.Params) {
			from = append(from, a.val(x))
		}
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		to = append(to, a.result(v, i))
	}
	if isLookup(fn) && skip == 0 {
		if a.inst[in] == nil {
			a.inst[in] = map[*ssa.Function]bool{}
		}
		a.ctx = in
		if !a.inst[in][fn] {
			a.inst[in][fn] = true
			if !a.seenFn[fn] {
				a.seenFn[fn] = true
				a.fns = append(a.fns, fn)
			}
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					a.instr(fn, i)
				}
			}
		}
	} else {
		a.function(fn)
	}
	for i, n := range from {
		a.flow(n, a.val(fn.Params[i+skip]))
	}
	for i, n := range to {
		a.flow(a.node(retKey{fn, i}), n)
	}
	a.ctx = nil
}

// library: a function outside the analysed packages. It may return (parts of)
// what it is given and call the functions it is given; only the sorting
// functions of package sort write into their argument.
func (a *ptrAnalysis) library(caller *ssa.Function, in ssa.Instruction, fn *ssa.Function, args []ssa.Value, v ssa.Value) {
	a.libs = append(a.libs, pcall{caller, in, fn, args})
	if fnPkg(fn) == "sort" && (fn.Name() == "Slice" || fn.Name() == "SliceStable") && len(args) > 0 {
		t := a.node(auxKey{in})
		a.each(a.val(args[0]), func(o *pobj) {
			if o.typ != nil {
				a.flow(o.cont, t)
			} else {
				a.add(t, o)
			}
		})
		a.write(caller, in.Pos(), "sorting in place", t, false)
	}
	var vs []*pnode
	for _, x := range args {
		n := a.val(x)
		vs = append(vs, n)
		a.each(n, func(o *pobj) {
			if o.fn != nil {
				a.function(o.fn)
			}
		})
	}
	if v == nil {
		return
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if pointerFree(fn.Signature.Results().At(i).Type()) {
			continue
		}
		for _, n := range vs {
			a.flow(n, a.result(v, i))
		}
	}
}

func pointerFree(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok || types.TypeString(t, nil) == "error"
}

func (a *ptrAnalysis) builtin(fn *ssa.Function, in ssa.Instruction, name string, args []ssa.Value, v ssa.Value) {
	switch name {
	case "append":
		if len(args) < 2 {
			if len(args) == 1 {
				a.flow(a.val(args[0]), a.val(v))
			}
			return
		}
		some := false // certainly appends something
		if sl, ok := args[1].(*ssa.Slice); ok {
			if al, ok := sl.X.(*ssa.Alloc); ok {
				if arr, ok := deref(al.Type()).Underlying().(*types.Array); ok {
					some = arr.Len() > 0
				}
			}
		}
		o := a.fresh(in, "list grown at "+pos(in.Pos()))
		a.add(a.val(v), o)
		cell := a.sub(o, "[]")
		et := v.Type().Underlying().(*types.Slice).Elem()
		for i, x := range args {
			src := a.node(auxKey{[2]any{in, i}})
			a.field(a.val(x), src, "[]")
			if isAggregate(et) {
				a.each(src, func(s *pobj) { a.copyObj(s, cell) })
			} else {
				a.each(src, func(s *pobj) { a.flow(s.cont, cell.cont) })
			}
		}
		a.each(a.val(args[0]), func(b *pobj) {
			if b == a.clip && some {
				return
			}
			a.add(a.val(v), b)
			if !a.docLike(b) {
				// appended in place
				if isAggregate(et) {
					a.copyObj(cell, a.sub(b, "[]"))
				} else {
					a.flow(cell.cont, a.sub(b, "[]").cont)
				}
			}
		})
		a.write(fn, in.Pos(), "append", a.val(args[0]), true)
	case "copy":
		if len(args) == 2 {
			src, dst := a.node(auxKey{[2]any{in, 0}}), a.node(auxKey{[2]any{in, 1}})
			a.field(a.val(args[1]), src, "[]")
			a.field(a.val(args[0]), dst, "[]")
			t := types.Type(types.Typ[types.String])
			if sl, ok := args[0].Type().Underlying().(*types.Slice); ok {
				t = sl.Elem()
			}
			tmp := a.node(auxKey{[2]any{in, 2}})
			a.load(src, tmp, t)
			a.storeTo(dst, tmp, t)
			a.write(fn, in.Pos(), "copy", a.val(args[0]), false)
		}
	case "delete", "clear":
		a.write(fn, in.Pos(), name, a.val(args[0]), false)
	case "ssa:wrapnilchk":
		a.flow(a.val(args[0]), a.val(v))
	}
}

// hits: the write can change the document.
func (a *ptrAnalysis) hits(w pwrite) bool {
	if w.grow {
		return w.where.objs[a.view]
	}
	for o := range w.where.objs {
		if a.docLike(o) {
			return true
		}
	}
	return false
}

func (a *ptrAnalysis) targets(w pwrite) string {
	var l []string
	for o := range w.where.objs {
		l = append(l, fmt.Sprint(o.name))
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}
