package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func init() {
	checks["C30"] = checkFn{40, func(c *Check) { c.c30() }, "Over the SSA form of every function of the module: (1) each natural loop has a ranking function: a range statement over something it does not extend, an index that moves towards a bound fixed for the loop, a text or list that gets shorter, a scanner position that has moved on within its text on every way round (found by path-wise symbolic execution of one turn, callees included), a descent to a part of a schema node, or a reader that is asked again only while it reports neither error nor end. " +
		"(2) Each recursive call passes a strict part of the parameter it recurs on, and no way through the function recurs twice on the same part. (3) No text or list is combined with itself from one turn of a loop to the next, and no size or bound is a number read from the input. (4) Nothing waits for another goroutine."}
}

// ---- parts of nodes

type partAt struct {
	of     ssa.Value // the parameter or phi
	path   string
	strict bool
	varies bool // depends on the turn of a loop
}

// fields of schema nodes that lead back up or across
var crossLinks = map[string]bool{"Definition": true, "ParentDefinition": true, "ObjectDefinition": true, "VariableDefinition": true, "Location": true, "ExpectedType": true, "ExpectedTypeHasDefault": true}

// partOf: v as a part of root; nil when it is none.
func partOf(v, root ssa.Value, seen map[ssa.Value]bool) *partAt {
	if v == root {
		return &partAt{of: root}
	}
	if seen[v] {
		return nil
	}
	seen[v] = true
	defer delete(seen, v)
	ext := func(x ssa.Value, step string, strict, varies bool) *partAt {
		p := partOf(x, root, seen)
		if p == nil {
			return nil
		}
		return &partAt{root, p.path + step, p.strict || strict, p.varies || varies}
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch x.X.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr:
				return ext(x.X, "", false, false)
			case *ssa.Alloc:
				// a local variable assigned once
				var only ssa.Value
				for _, r := range *x.X.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == x.X {
						if only != nil {
							return nil
						}
						only = st.Val
					}
				}
				if only != nil {
					return ext(only, "", false, false)
				}
			}
		}
	case *ssa.FieldAddr:
		f := fieldAt(x.X.Type(), x.Field)
		if crossLinks[f] {
			return nil
		}
		return ext(x.X, "."+f, true, false)
	case *ssa.Field:
		f := fieldAt(x.X.Type(), x.Field)
		if crossLinks[f] {
			return nil
		}
		return ext(x.X, "."+f, true, false)
	case *ssa.IndexAddr:
		_, c := x.Index.(*ssa.Const)
		return ext(x.X, "[]", true, !c)
	case *ssa.Index:
		_, c := x.Index.(*ssa.Const)
		return ext(x.X, "[]", true, !c)
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok && x.Index == 2 {
			if r, ok := n.Iter.(*ssa.Range); ok {
				return ext(r.X, "[]", true, true)
			}
		}
	case *ssa.Slice:
		if x.High == nil || x.Low != nil {
			strict := false
			if c, ok := x.Low.(*ssa.Const); ok && c.Value != nil {
				if i, ok := constant.Int64Val(c.Value); ok && i > 0 {
					strict = true
				}
			}
			if b, ok := x.Low.(*ssa.BinOp); ok && stepsUp(b) {
				strict = true
			}
			return ext(x.X, "[:]", strict, false)
		}
	case *ssa.ChangeType:
		return ext(x.X, "", false, false)
	case *ssa.ChangeInterface:
		return ext(x.X, "", false, false)
	case *ssa.TypeAssert:
		return ext(x.X, "", false, false)
	case *ssa.Phi:
		var r *partAt
		for _, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value == nil {
				continue
			}
			p := partOf(e, root, seen)
			if p == nil {
				if seen[e] {
					continue
				}
				return nil
			}
			if r == nil {
				r = p
			} else {
				r = &partAt{root, r.path, r.strict && p.strict, r.varies && p.varies}
			}
		}
		return r
	}
	return nil
}

// ---- call graph

type termCall struct {
	from, to *ssa.Function
	in       ssa.CallInstruction
	dyn      bool
}

func (c *Check) c30() {
	t := &termAn{pkgs: map[*ssa.Function]bool{}, heads: map[*ssa.BasicBlock]*tloop{}, loops: map[*ssa.Function][]*tloop{}, effects: map[*tloop]*teffect{}, rel: map[*ssa.Function]int{}}
	var fns []*ssa.Function
	for fn := range ssautil.AllFunctions(prg.prog) {
		p := fnPkg(fn)
		if !strings.HasPrefix(p, repoModule) || p == pkgSpec || fn.Synthetic != "" && !strings.Contains(fn.Synthetic, "package init") && fn.Origin() == nil {
			continue
		}
		if len(fn.Blocks) == 0 {
			continue
		}
		t.pkgs[fn] = true
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	anon := map[*ssa.Function]string{}
	for _, fn := range fns {
		anon[fn] = strings.TrimPrefix(fn.String(), repoModule+"/")
	}
	for _, fn := range fns {
		name := anon[fn]
		c.analysed[fn.String()] = true
		c.guarded(name, func() {
			_, irr := loopsOf(fn)
			t.loopAt(fn.Blocks[0])
			ls := t.loops[fn]
			c.ob(!irr, name+": control flow", "%s has a cycle that is not a loop", name)
			for i, l := range ls {
				why := t.terminates(fn, l)
				c.ob(why == "", fmt.Sprintf("%s: loop %d", name, i+1), "the loop of %s at %s may go round for ever: %s", name, blockPos(l), why)
			}
			for i, l := range ls {
				why := t.growth(fn, l)
				c.ob(why == "", fmt.Sprintf("%s: loop %d growth", name, i+1), "in the loop of %s at %s %s", name, blockPos(l), why)
			}
			why := t.waits(fn)
			c.ob(why == "", name+": waits", "%s %s", name, why)
			why = t.sizes(fn)
			c.ob(why == "", name+": sizes", "%s %s", name, why)
		})
	}
	c.guarded("recursion", func() { c.recursion(t, fns, anon) })
}

func blockPos(l *tloop) string {
	for _, b := range append([]*ssa.BasicBlock{l.head}, l.head.Succs...) {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return pos(in.Pos())
			}
		}
	}
	return "?"
}

func (c *Check) recursion(t *termAn, fns []*ssa.Function, name map[*ssa.Function]string) {
	taken := map[*ssa.Function]bool{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cc, call := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if mc, isC := (*op).(*ssa.MakeClosure); isC {
						g, ok = mc.Fn.(*ssa.Function), true
					}
					if ok && t.pkgs[g] && !(call && cc.Common().StaticCallee() == g && *op == cc.Common().Value) {
						taken[g] = true
					}
				}
			}
		}
	}
	var calls []termCall
	succ := map[*ssa.Function][]*ssa.Function{}
	add := func(k termCall) {
		calls = append(calls, k)
		succ[k.from] = append(succ[k.from], k.to)
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if g := cc.StaticCallee(); g != nil {
					if t.pkgs[g] {
						add(termCall{fn, g, ci, false})
					} else {
						// the library may call what it is given
						for _, a := range cc.Args {
							for _, g := range funcsIn(a) {
								if t.pkgs[g] {
									add(termCall{fn, g, ci, true})
								}
							}
						}
					}
					continue
				}
				if _, ok := cc.Value.(*ssa.Builtin); ok {
					continue
				}
				if cc.IsInvoke() {
					for _, g := range fns {
						if g.Signature.Recv() != nil && g.Name() == cc.Method.Name() && types.Implements(g.Signature.Recv().Type(), cc.Value.Type().Underlying().(*types.Interface)) {
							add(termCall{fn, g, ci, true})
						}
					}
					continue
				}
				for g := range taken {
					if types.Identical(g.Signature, cc.Value.Type().Underlying()) {
						add(termCall{fn, g, ci, false})
					}
				}
			}
		}
	}
	reach := func(a *ssa.Function) map[*ssa.Function]bool {
		r := map[*ssa.Function]bool{}
		work := append([]*ssa.Function{}, succ[a]...)
		for len(work) > 0 {
			f := work[0]
			work = work[1:]
			if !r[f] {
				r[f] = true
				work = append(work, succ[f]...)
			}
		}
		return r
	}
	n := 0
	for _, fn := range fns {
		r := reach(fn)
		if !r[fn] {
			continue
		}
		n++
		var own []termCall
		for _, k := range calls {
			if k.from == fn && (k.to == fn || r[fn] && reachHas(succ, k.to, fn)) {
				own = append(own, k)
			}
		}
		why := ""
		ok := false
		for j := range fn.Params {
			why2 := recursOn(fn, j, own)
			if why2 == "" {
				ok = true
				break
			}
			if why == "" || strings.Contains(why2, "twice") {
				why = why2
			}
		}
		if len(fn.Params) == 0 {
			why = "it calls itself without a parameter"
		}
		c.ob(ok, name[fn]+": recursion", "%s: %s", name[fn], why)
	}
	c.ob(true, "call graph", "%d recursive functions", n)
}

func reachHas(succ map[*ssa.Function][]*ssa.Function, a, b *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	work := []*ssa.Function{a}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if f == b {
			return true
		}
		if !seen[f] {
			seen[f] = true
			work = append(work, succ[f]...)
		}
	}
	return false
}

func funcsIn(v ssa.Value) []*ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{x}
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}
	case *ssa.MakeInterface:
		return funcsIn(x.X)
	case *ssa.ChangeType:
		return funcsIn(x.X)
	}
	return nil
}

// recursOn: why the recursion of fn is not justified by parameter j.
func recursOn(fn *ssa.Function, j int, own []termCall) string {
	parts := map[ssa.CallInstruction]*partAt{}
	for _, k := range own {
		if k.dyn {
			return "it is called back by what it calls"
		}
		args := k.in.Common().Args
		// in mutual recursion the node may sit at another position
		var at *partAt
		if k.to.Signature == fn.Signature || k.to == fn {
			if j < len(args) {
				at = partOf(args[j], fn.Params[j], map[ssa.Value]bool{})
			}
		} else {
			for _, a := range args {
				if p := partOf(a, fn.Params[j], map[ssa.Value]bool{}); p != nil && types.Identical(a.Type(), fn.Params[j].Type()) {
					at = p
				}
			}
		}
		if at == nil || !at.strict {
			return fmt.Sprintf("the call of %s at %s does not pass a part of %s", k.to.Name(), pos(k.in.Pos()), fn.Params[j].Name())
		}
		parts[k.in] = at
	}
	for a, x := range own {
		p := parts[x.in]
		if inCycle(x.in.Block()) && !p.varies {
			return fmt.Sprintf("the call at %s may recur on the same part twice", pos(x.in.Pos()))
		}
		for b, y := range own {
			if a == b || x.in == y.in {
				continue
			}
			q := parts[y.in]
			if !disjointParts(p, q) && blockReaches(x.in, y.in) {
				return fmt.Sprintf("the calls at %s and %s may recur on the same part twice", pos(x.in.Pos()), pos(y.in.Pos()))
			}
		}
	}
	return ""
}

// disjointParts: the two are in different fields.
func disjointParts(p, q *partAt) bool {
	a, b := strings.Split(p.path, "."), strings.Split(q.path, ".")
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return strings.TrimSuffix(a[i], "[]") != strings.TrimSuffix(b[i], "[]")
		}
	}
	return false
}

func inCycle(b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if blockTo(s, b) {
			return true
		}
	}
	return false
}

func blockTo(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{a}
	for len(work) > 0 {
		w := work[0]
		work = work[1:]
		if w == b {
			return true
		}
		if !seen[w] {
			seen[w] = true
			work = append(work, w.Succs...)
		}
	}
	return false
}

func blockReaches(x, y ssa.CallInstruction) bool {
	if x.Block() == y.Block() {
		return true
	}
	for _, s := range x.Block().Succs {
		if blockTo(s, y.Block()) {
			return true
		}
	}
	return false
}

// ---- growth

// growth: why the size of something may be multiplied in every turn.
func (t *termAn) growth(fn *ssa.Function, l *tloop) string {
	carried := map[any]string{} // phi or cell -> name
	type upd struct {
		key any
		val ssa.Value
	}
	var upds []upd
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !sized(p.Type()) {
			continue
		}
		carried[p] = p.Comment
		for i, q := range l.head.Preds {
			if l.body[q] {
				upds = append(upds, upd{p, p.Edges[i]})
			}
		}
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && sized(s.Val.Type()) {
				if k := cellKey(s.Addr); k != "" {
					carried[k] = k
					upds = append(upds, upd{k, s.Val})
				}
			}
		}
	}
	occ := func(v ssa.Value) map[any]int { return occurrences(v, l, carried, map[ssa.Value]bool{}) }
	edge := map[any]map[any]int{}
	for _, u := range upds {
		m := occ(u.val)
		if edge[u.key] == nil {
			edge[u.key] = map[any]int{}
		}
		for k, n := range m {
			if n > edge[u.key][k] {
				edge[u.key][k] = n
			}
		}
	}
	// within one cycle of dependences each may be used once only
	var reach func(a any, seen map[any]bool)
	reach = func(a any, seen map[any]bool) {
		for b := range edge[a] {
			if !seen[b] {
				seen[b] = true
				reach(b, seen)
			}
		}
	}
	for k := range edge {
		total := 0
		for b, n := range edge[k] {
			s := map[any]bool{b: true}
			reach(b, s)
			if b == k || s[k] {
				total += n
			}
		}
		if total >= 2 {
			return fmt.Sprintf("%s is made of itself twice over in every turn", carried[k])
		}
	}
	return ""
}

func sized(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

func cellKey(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.Alloc:
		return "v:" + x.Parent().String() + x.Name()
	case *ssa.FieldAddr:
		return fmt.Sprintf("field %s of %s in %s", fieldAt(x.X.Type(), x.Field), x.X.Name(), x.Parent())
	case *ssa.FreeVar:
		return "c:" + x.Name()
	case *ssa.Global:
		return "g:" + x.String()
	}
	return ""
}

// occurrences: how often the content of what the loop carries goes into v.
func occurrences(v ssa.Value, l *tloop, carried map[any]string, seen map[ssa.Value]bool) map[any]int {
	out := map[any]int{}
	if _, ok := carried[v]; ok {
		if _, isPhi := v.(*ssa.Phi); isPhi {
			out[v] = 1
			return out
		}
	}
	in, ok := v.(ssa.Instruction)
	if !ok || !l.body[in.Block()] || seen[v] {
		return out
	}
	seen[v] = true
	defer delete(seen, v)
	sum := func(vs ...ssa.Value) {
		for _, x := range vs {
			for k, n := range occurrences(x, l, carried, seen) {
				out[k] += n
			}
		}
	}
	max := func(vs ...ssa.Value) {
		for _, x := range vs {
			for k, n := range occurrences(x, l, carried, seen) {
				if n > out[k] {
					out[k] = n
				}
			}
		}
	}
	switch x := v.(type) {
	case *ssa.Phi:
		max(x.Edges...)
	case *ssa.BinOp:
		if x.Op == token.ADD {
			sum(x.X, x.Y)
		}
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			// the list of a variadic call: its elements
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, q := range *ia.Referrers() {
						if st, ok := q.(*ssa.Store); ok && st.Addr == ia {
							if mi, ok := st.Val.(*ssa.MakeInterface); ok {
								sum(mi.X)
							} else {
								sum(st.Val)
							}
						}
					}
				}
			}
			break
		}
		sum(x.X)
	case *ssa.ChangeType:
		sum(x.X)
	case *ssa.Convert:
		sum(x.X)
	case *ssa.MakeInterface:
		sum(x.X)
	case *ssa.Extract:
		sum(x.Tuple)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if k := cellKey(x.X); k != "" {
				if _, ok := carried[k]; ok {
					out[k] = 1
				}
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				if sl, ok := x.Call.Args[1].(*ssa.Slice); ok {
					if _, fixed := sl.X.(*ssa.Alloc); fixed && !sized(elemType(x.Call.Args[0].Type())) {
						sum(x.Call.Args[0])
						break
					}
				}
				a, ok1 := x.Call.Args[0].(*ssa.Slice)
				b, ok2 := x.Call.Args[1].(*ssa.Slice)
				if ok1 && ok2 && a.X == b.X && a.Low == nil && a.High != nil && b.Low != nil && b.High == nil {
					// the same list without some of its elements
					sum(a.X)
					break
				}
				sum(x.Call.Args...)
			}
			break
		}
		if g := x.Call.StaticCallee(); g != nil {
			switch {
			case strings.HasPrefix(g.String(), "strings.Trim"), strings.HasPrefix(g.String(), "strings.Cut"), g.String() == "strings.ToLower", g.String() == "strings.ToUpper", strings.HasPrefix(g.String(), "strings.Split"), g.String() == "strings.Fields":
				sum(x.Call.Args[0])
				return out
			}
		}
		if sized(x.Type()) {
			for _, a := range x.Call.Args {
				if sized(a.Type()) {
					sum(a)
				}
			}
		}
	}
	return out
}

// ---- waiting, sizes

func (t *termAn) waits(fn *ssa.Function) string {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Select:
				if x.Blocking {
					return "waits for another goroutine at " + pos(x.Pos())
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return "waits for another goroutine at " + pos(x.Pos())
				}
			case *ssa.Send:
				return "waits for another goroutine at " + pos(x.Pos())
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil {
					switch n := g.String(); {
					case n == "time.Sleep", strings.HasPrefix(n, "net."), strings.HasPrefix(n, "net/http."), strings.HasPrefix(n, "(*os/exec.Cmd)"), n == "(*sync.Cond).Wait":
						return "calls " + n + " at " + pos(x.Pos())
					}
				}
			}
		}
	}
	return ""
}

// sizes: numbers read from the input that decide how much is made or done.
func (t *termAn) sizes(fn *ssa.Function) string {
	why := ""
	check := func(v ssa.Value, what string, at token.Pos) {
		if why == "" && fromText(v, map[ssa.Value]bool{}) {
			why = fmt.Sprintf("lets a number written in the input decide %s at %s", what, pos(at))
		}
	}
	loops, _ := loopsOf(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MakeSlice:
				check(x.Len, "a size", x.Pos())
				check(x.Cap, "a size", x.Pos())
			case *ssa.If:
				for _, l := range loops {
					if l.body[b] && (!l.body[b.Succs[0]] || !l.body[b.Succs[1]]) {
						if c, ok := x.Cond.(*ssa.BinOp); ok && c.Op != token.EQL && c.Op != token.NEQ {
							check(c.X, "how often a loop runs", c.Pos())
							check(c.Y, "how often a loop runs", c.Pos())
						}
					}
				}
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && (g.String() == "strings.Repeat" || g.String() == "bytes.Repeat" || g.String() == "slices.Repeat") {
					check(x.Call.Args[1], "a size", x.Pos())
				}
			}
		}
	}
	return why
}

func fromText(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil {
			switch g.String() {
			case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat":
				return true
			}
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() != "len" && b.Name() != "cap" {
			for _, a := range x.Call.Args {
				if fromText(a, seen) {
					return true
				}
			}
		}
	case *ssa.Extract:
		return fromText(x.Tuple, seen)
	case *ssa.BinOp:
		return fromText(x.X, seen) || fromText(x.Y, seen)
	case *ssa.Convert:
		return fromText(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if fromText(e, seen) {
				return true
			}
		}
	}
	return false
}
