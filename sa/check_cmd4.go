package main

import (
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"sort"
	"strings"
)

// ---- every opened file is closed

// opened lists, in order, what one level of a trace does with files; loops are
// entered with a fresh element.
func (c *Check) closedAgain(where string, x *cmdExit) int {
	n := 0
	var level func(segs []*Node, outer B, vars []*Node)
	level = func(list []*Node, outer B, vars []*Node) {
		for i, s := range list {
			switch s.op {
			case OList:
				level(s.args, outer, vars)
			case OFor:
				v, o := open(s)
				v.typ = elemType(s.args[0].typ)
				varDom[v] = s.args[0]
				level(bodySegs(o.args[1]), outer, append(vars[:len(vars):len(vars)], v))
			case OEmit:
				for _, l := range leaves(s.args[0]) {
					if l.v.op != OEvent {
						continue
					}
					switch {
					case l.v.sym == "call:open":
						n++
						f := mkCall("open", l.v.args, nil, nil)
						g := and(s.conds[0], l.g, nilB(mkCall("openerr", l.v.args, nil, nil)))
						closed := False
						for _, t := range list[i+1:] {
							if t.op != OEmit {
								continue
							}
							for _, m := range leaves(t.args[0]) {
								if m.v.op == OEvent && m.v.sym == "call:close" && m.v.args[0] == f {
									closed = or(closed, and(t.conds[0], m.g))
								}
							}
						}
						ok := impliesT(and(x.cond, g), closed, exitFacts(x, vars)...)
						c.ob(ok, where+": "+short(f.String()), "the file %s is opened when {%s}, and closed again before anything else is opened only when {%s}", short(l.v.args[0].String()), short(showB(g, 0)), short(showB(closed, 0)))
					case strings.HasPrefix(l.v.sym, "defer:") && len(l.v.args) > 0 && isCall(l.v.args[0], "open"):
						c.ob(false, where+": deferred", "files opened in a loop stay open until the function ends (%s)", l.v.sym)
					}
				}
			}
		}
	}
	level(x.trace, True, nil)
	return n
}

func (c *Check) c27() {
	n := 0
	c.eachRun(func(r *cmdRun) {
		for _, x := range r.exits {
			if x.crash {
				continue
			}
			k := c.closedAgain(r.name()+", "+x.describe(), x)
			n += k
			for _, w := range x.rows {
				if isEvent(w, "call:readfile") {
					n++ // opens and closes by itself
				}
			}
		}
	})
	c.ob(n > 0, "files", "no file is opened")
}

func init() {
	checks["C27"] = checkFn{1, func(c *Check) { c.c27() }, cmdText + "Every event that opens a file must be followed, within the same iteration and under every condition in which the file is open, by the event that closes it."}
	checks["C26"] = checkFn{60, func(c *Check) { c.c26() }, "An inclusion-based points-to analysis (field-sensitive, over the SSA form of everything reachable from FindChangesInSchemas and from each of the nine rules, including the parts of the schema library, slices, maps and sort they call) treats the given documents as one object that contains itself. No assignment, map assignment, copy, delete, clear or in-place sort may have that object as its target, and no append may grow a shortened view of one of its lists."}
}

// c26: nothing reachable from the comparison or from a rule writes into the
// documents they are given.
func (c *Check) c26() {
	report := func(name string, a *ptrAnalysis) {
		bad := 0
		for _, w := range a.writes {
			where := name + ": " + w.fn.Name() + ", " + w.what + " at " + pos(w.pos)
			if !c.ob(!a.hits(w), where, "this %s can change a document that is only to be read", w.what) {
				bad++
			}
		}
		for _, f := range a.fns {
			c.analysed[f.String()] = true
		}
		c.ob(bad == 0 && len(a.fns) > 0, name, "%d of the %d writes reachable from here can reach a document", bad, len(a.writes))
	}
	one := func(fn *ssa.Function) {
		a := newPtrAnalysis()
		for _, p := range fn.Params {
			a.add(a.val(p), a.doc)
		}
		a.run(fn)
		report(fn.Name(), a)
	}
	c.guarded("comparison", func() { one(c.anchor(pkgCompare, "FindChangesInSchemas")) })
	for _, r := range lintRules {
		c.guarded(r.name, func() { one(c.anchor(pkgLinter, r.fn)) })
	}
	// what the commands do with the documents they have parsed
	c.guarded("commands", func() {
		a := newPtrAnalysis()
		var roots []*ssa.Function
		for f := range ssautil.AllFunctions(prg.prog) {
			if p := fnPkg(f); strings.HasPrefix(p, repoModule) && p != pkgSpec && len(f.Blocks) > 0 {
				roots = append(roots, f)
			}
		}
		sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
		a.run(roots...)
		n := 0
		for _, o := range a.nodes {
			if o.objs[a.doc] {
				n++
			}
		}
		c.ob(n > 0, "commands: documents", "no parsed document is found in the commands")
		report("commands", a)
	})
}
