package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// C32: the analyses keep no state between calls. An effect analysis: the memory
// that outlives a call is that of the package-level variables and everything
// reachable from them; nothing an analysis reaches may write into it.

// stateRoots are the functions whose results must depend on nothing but what
// they are given.
func stateRoots() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(prg.prog) {
		p := fnPkg(f)
		if !strings.HasPrefix(p, repoModule) || p == pkgSpec || len(f.Blocks) == 0 || f.Synthetic != "" || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		rel := strings.TrimPrefix(p, repoModule)
		if strings.HasPrefix(rel, "/pkg/") || rel == "/utils" || strings.HasPrefix(rel, "/cmd/linter") && !makesCommand(f) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// makesCommand: the function builds a command; the variables behind its options
// are the command line, not state of an analysis.
func makesCommand(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if p, ok := f.Signature.Results().At(i).Type().(*types.Pointer); ok && strings.HasSuffix(p.Elem().String(), "cobra.Command") {
			return true
		}
	}
	return false
}

func isInit(f *ssa.Function) bool {
	return f.Parent() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) && f.Signature.Recv() == nil
}

// onceOnly: functions that run at most once and depend on nothing: package
// initialisers, functions only called by them, and closures without variables
// of their own that are only given to sync.Once and its relatives.
func onceOnly() map[*ssa.Function]bool {
	if onceFns == nil {
		onceFns = findOnceOnly()
	}
	return onceFns
}

var onceFns map[*ssa.Function]bool

func findOnceOnly() map[*ssa.Function]bool {
	uses := map[*ssa.Function][]struct {
		by   *ssa.Function
		once bool
	}{}
	all := ssautil.AllFunctions(prg.prog)
	for f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				var viaOnce ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					callee = cc.StaticCallee()
					if callee != nil && fnPkg(callee) == "sync" && (callee.Name() == "Do" || strings.HasPrefix(callee.Name(), "Once")) && len(cc.Args) > 0 {
						viaOnce = cc.Args[len(cc.Args)-1]
					}
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					_, isCall := in.(*ssa.Call)
					once := viaOnce == *op
					direct := isCall && callee == g && in.(*ssa.Call).Call.Value == *op
					by := f
					if !once && !direct {
						by = nil // used as a value
					}
					uses[g] = append(uses[g], struct {
						by   *ssa.Function
						once bool
					}{by, once})
				}
			}
		}
	}
	out := map[*ssa.Function]bool{}
	for f := range all {
		if isInit(f) {
			out[f] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for f, us := range uses {
			if out[f] || f.Object() != nil && f.Object().Exported() {
				continue
			}
			ok := true
			for _, u := range us {
				ok = ok && (u.once && len(f.Params) == 0 && len(f.FreeVars) == 0 || u.by != nil && out[u.by])
			}
			if ok {
				out[f], changed = true, true
			}
		}
	}
	return out
}

// sharedSafe: values of these types are made to be used by several calls; their
// methods do not change what other calls see.
func sharedSafe(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "regexp.Regexp", "strings.Replacer", "sync.Once", "sync.Mutex", "sync.RWMutex", "os.File", "text/template.Template", "unicode.RangeTable", "unicode.SpecialCase", "log.Logger":
		return true
	}
	return false
}

// moduleFunctions are all functions of the module.
func moduleFunctions() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(prg.prog) {
		if p := fnPkg(rootFn(f)); strings.HasPrefix(p, repoModule) && p != pkgSpec && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// A globalUse is a place that writes, or may write, into memory; globals are
// the package variables that hold it.
type globalUse struct {
	fn      *ssa.Function
	in      string
	pos     token.Pos
	call    *ssa.Function
	arg     int
	globals []*ssa.Global
}

// stateEffects finds the writes made by the given functions and what they call,
// with the package variables whose memory they may change.
func stateEffects(roots []*ssa.Function) (*ptrAnalysis, []globalUse, []*ssa.Global) {
	once := onceOnly()
	a := newPtrAnalysis()
	var inits []*ssa.Function
	for f := range ssautil.AllFunctions(prg.prog) {
		if isInit(f) && strings.HasPrefix(fnPkg(f), repoModule) && fnPkg(f) != pkgSpec {
			inits = append(inits, f)
		}
	}
	sort.Slice(inits, func(i, j int) bool { return inits[i].String() < inits[j].String() })
	a.run(append(append([]*ssa.Function{}, inits...), roots...)...)
	// the memory that outlives a call
	var keys []*ssa.Global
	for k := range a.objs {
		if g, ok := k.(*ssa.Global); ok {
			keys = append(keys, g)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
	owners := map[*pobj][]*ssa.Global{}
	for _, g := range keys {
		seen := map[*pobj]bool{}
		var mark func(o *pobj)
		mark = func(o *pobj) {
			if a.docLike(o) || seen[o] {
				return
			}
			seen[o] = true
			owners[o] = append(owners[o], g)
			for _, s := range o.subs {
				mark(s)
			}
			for t := range o.cont.objs {
				mark(t)
			}
			if o.fn != nil {
				for _, fv := range o.fn.FreeVars {
					for t := range a.val(fv).objs {
						mark(t)
					}
				}
			}
		}
		mark(a.objs[g])
	}
	hit := func(n *pnode) []*ssa.Global {
		set := map[*ssa.Global]bool{}
		for o := range n.objs {
			for _, g := range owners[o] {
				set[g] = true
			}
		}
		var out []*ssa.Global
		for _, g := range keys {
			if set[g] {
				out = append(out, g)
			}
		}
		return out
	}
	var uses []globalUse
	for _, w := range a.writes {
		if !once[w.fn] {
			uses = append(uses, globalUse{fn: w.fn, in: w.what, pos: w.pos, globals: hit(w.where)})
		}
	}
	for _, l := range a.libs {
		if once[l.caller] {
			continue
		}
		for i, x := range l.args {
			switch x.Type().Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Map, *types.Chan:
			default:
				continue
			}
			if sharedSafe(x.Type()) {
				continue
			}
			n := a.val(x)
			if _, ok := x.Type().Underlying().(*types.Interface); ok {
				t := newPnode()
				for o := range n.objs {
					if o.typ == nil {
						t.objs[o] = true
						continue
					}
					if _, ok := o.typ.Underlying().(*types.Pointer); ok && !sharedSafe(o.typ) {
						for q := range o.cont.objs {
							t.objs[q] = true
						}
					}
				}
				if len(t.objs) == 0 {
					continue
				}
				n = t
			}
			uses = append(uses, globalUse{fn: l.caller, in: "call of " + l.fn.Name(), pos: l.in.Pos(), call: l.fn, arg: i + 1, globals: hit(n)})
		}
	}
	for _, f := range a.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Send); ok && !once[f] {
					uses = append(uses, globalUse{fn: f, in: "send", pos: in.Pos(), globals: hit(a.val(s.Chan))})
				}
			}
		}
	}
	return a, uses, keys
}

func changedGlobals(roots []*ssa.Function) map[*ssa.Global]bool {
	_, uses, _ := stateEffects(roots)
	out := map[*ssa.Global]bool{}
	for _, u := range uses {
		for _, g := range u.globals {
			out[g] = true
		}
	}
	return out
}

func (c *Check) c32() {
	roots := stateRoots()
	c.ob(len(roots) >= 15, "functions", "only %d exported functions of the analyses were found", len(roots))
	a, uses, keys := stateEffects(roots)
	for _, f := range a.fns {
		c.analysed[f.String()] = true
	}
	var names []string
	for _, g := range keys {
		if strings.HasPrefix(g.Pkg.Pkg.Path(), repoModule) {
			names = append(names, g.String())
		}
	}
	c.notes = append(c.notes, "package-level variables: "+strings.Join(names, ", "))
	seen := map[string]bool{}
	for _, u := range uses {
		key := u.fn.String() + ", " + u.in + " at " + pos(u.pos)
		if len(u.globals) == 0 {
			c.ob(true, key, "")
			continue
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		if u.call != nil {
			c.ob(false, key, "argument %d of %s is %s, or memory it holds, which outlives the call and may be changed", u.arg, u.call.String(), u.globals[0].String())
			continue
		}
		c.ob(false, key, "this %s changes %s, or memory it holds, which outlives the call", u.in, u.globals[0].String())
	}
}

func init() {
	checks["C32"] = checkFn{60, func(c *Check) { c.c32() }, "An inclusion-based points-to analysis (field-sensitive, over the SSA form of everything reachable from the exported functions of pkg/, utils and the lint command, and from the package initialisers) computes the memory reachable from package-level variables. No assignment, map assignment, append, copy, delete or in-place sort that an analysis can reach, and no library call that may change its argument, may have that memory as its target. Initialisers and functions that run once and depend on nothing are exempt."}
}
