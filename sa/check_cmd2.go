package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- determinism

// orderUses walks everything a value depends on and reports where the order of
// a map iteration is not erased again.
func orderUses(roots []*Node, bad func(what string, n *Node)) int {
	seen := map[*Node]bool{}
	visited := 0
	var walk func(n *Node)
	walkB := func(b B) {
		for _, a := range supportAtoms(b) {
			walk(a)
		}
	}
	walk = func(n *Node) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		visited++
		switch n.op {
		case OOpaque:
			if !strings.HasPrefix(n.sym, "nil.") { // fields of nil are not reached
				bad("a value the analysis does not follow", n)
			}
		case OMapElems:
			bad("the iteration order of a map", n)
			walk(n.args[0])
			return
		case OSorted:
			if s, ok := n.args[1].strVal(); ok && s == "natural" {
				skip(n.args[0], walk)
				return
			}
			if sortedByKey(n) {
				skip(n.args[0], walk)
				return
			}
		case OExists, OSum, OLen:
			skip(n.args[0], walk)
			for _, a := range n.args[1:] {
				walk(a)
			}
			for _, c := range n.conds {
				walkB(c)
			}
			return
		case OFmt:
			if n.sym == "%p" {
				bad("a memory address", n)
			}
		case OCall:
			if why := randomCall(n.sym); why != "" {
				bad(why, n)
			}
		}
		for _, a := range n.args {
			walk(a)
		}
		for _, c := range n.conds {
			walkB(c)
		}
	}
	for _, r := range roots {
		walk(r)
	}
	return visited
}

// sortedByKey: a list made by iterating a map, sorted by something that tells
// any two entries apart, because their keys differ.
func sortedByKey(n *Node) bool {
	less := n.args[1]
	if less.op == OConst {
		return false
	}
	ss := segs(n.args[0])
	if len(ss) != 1 || ss[0].op != OFor || ss[0].args[0].op != OMapElems {
		return false
	}
	m := ss[0].args[0]
	w, o := open(ss[0])
	body := bodySegs(o.args[1])
	if len(body) != 1 || body[0].op != OEmit {
		return false
	}
	a, b := freshVar("k", w.typ, m), freshVar("k", w.typ, m)
	item := func(v *Node) *Node { return subst1(body[0].args[0], w, v) }
	key := func(v *Node) *Node { return mkCall("mapkey", []*Node{v}, types.Typ[types.String], nil) }
	ca, cb := cmpVar(0, elemType(n.typ)), cmpVar(1, elemType(n.typ))
	lt := func(x, y *Node) B { return substB(cond(less), map[*Node]*Node{ca: item(x), cb: item(y)}) }
	return impliesT(True, xor(lt(a, b), lt(b, a)), not(eqB(key(a), key(b))))
}

// skip walks below a list whose order does not matter here.
func skip(d *Node, walk func(*Node)) {
	switch d.op {
	case OMapElems:
		walk(d.args[0])
	case OSorted, ORev:
		skip(d.args[0], walk)
	case OList:
		for _, s := range d.args {
			skip(s, walk)
		}
	case OFor:
		skip(d.args[0], walk)
		skip(d.args[1], walk)
	default:
		walk(d)
	}
}

var randomPkgs = []string{"time.", "math/rand", "crypto/rand", "runtime", "(time.", "(*math/rand", "hash/maphash", "(*time."}
var randomFns = []string{"os.Getenv", "os.LookupEnv", "os.Environ", "os.Getpid", "os.Getppid", "os.Hostname", "os.Getuid", "os.Getwd", "os.MkdirTemp", "os.CreateTemp", "os.TempDir", "os.UserHomeDir"}

func randomCall(sym string) string {
	for _, p := range randomPkgs {
		if strings.HasPrefix(sym, p) {
			return "the result of " + sym
		}
	}
	for _, p := range randomFns {
		if strings.HasPrefix(sym, p) {
			return "the result of " + sym
		}
	}
	return ""
}

func (c *Check) noOrder(where string, roots []*Node) {
	found := map[string]bool{}
	n := orderUses(roots, func(what string, m *Node) {
		k := what + " " + short(m.String())
		if !found[k] {
			found[k] = true
			c.ob(false, where+": "+what, "the outcome depends on %s: %s", what, short(m.String()))
		}
	})
	c.ob(n > 0, where, "nothing to analyse")
}

func (c *Check) c14() {
	c.eachRun(func(r *cmdRun) {
		for _, x := range r.exits {
			roots := append([]*Node{}, x.trace...)
			for _, l := range x.codes {
				roots = append(roots, l.v, boolNode(l.g))
			}
			roots = append(roots, boolNode(x.cond))
			c.noOrder(r.name()+", "+x.describe(), roots)
		}
	})
	c.guarded("comparison", func() {
		fn, s := c.wholeComparison()
		c.noOrder(fn.Name(), []*Node{s.result(0)})
	})
	c.eachRule(func(fn *ssa.Function, s *summary) {
		c.noOrder(fn.Name(), []*Node{s.result(0)})
	})
}

func (c *Check) wholeComparison() (*ssa.Function, *summary) {
	fn := c.anchor(pkgCompare, "FindChangesInSchemas")
	if len(fn.Params) != 2 {
		panic(undecided("FindChangesInSchemas does not take two documents"))
	}
	o, n := param("old", fn.Params[0].Type()), param("new", fn.Params[1].Type())
	nonNilParams[o], nonNilParams[n] = true, true
	distinctA, distinctB = o, n
	return fn, eval(fn, o, n)
}

func (c *Check) eachRule(f func(fn *ssa.Function, s *summary)) {
	for _, r := range lintRules {
		c.guarded(r.name, func() {
			fn := c.anchor(pkgLinter, r.fn)
			if len(fn.Params) != 1 {
				panic(undecided("rule function " + r.fn + " does not take one document"))
			}
			doc := param("doc", fn.Params[0].Type())
			nonNilParams[doc] = true
			f(fn, eval(fn, doc))
		})
	}
}

// ---- lint errors and the lines printed for them

// sourceOf: the name and the text of the document a rule is applied to.
func sourceOf(app *Node) (name, input *Node) {
	if len(app.args) != 2 {
		panic(undecided("rule application " + short(app.String())))
	}
	d := app.args[1]
	if d.op != OCall || !strings.HasPrefix(d.sym, parserPrefix+"ParseSchema") || len(d.args) != 1 {
		panic(undecided("document " + short(d.String())))
	}
	s := stripIface(d.args[0])
	if s.op == OBox {
		s = s.args[0]
	}
	if s.op == OList {
		if items, ok := staticItems(s); ok && len(items) == 1 {
			s = items[0]
		}
	}
	return mkField(s, "Name", nil), mkField(s, "Input", nil)
}

type lintLine struct {
	row
	file *Node // element of the list of files, nil for standard input
	err  *Node // the lint error
	app  *Node // the rule application it comes from
}

// lintLines: what is printed once per lint error.
func (x *cmdExit) lintLines() []lintLine {
	var out []lintLine
	for _, p := range x.prints() {
		var l lintLine
		for _, v := range p.vars {
			d := varDom[v]
			if isCall(d, "apply") {
				if l.err != nil {
					panic(undecided("printing for pairs of errors"))
				}
				l.err, l.app = v, d
			} else if isCall(d, "glob") {
				l.file = v
			}
		}
		if l.err != nil {
			l.row = p
			out = append(out, l)
		}
	}
	return out
}

func (c *Check) hidden() func(name, input, rule, line *Node) B {
	fn := c.anchor(pkgSpec, "Hidden")
	cutCommands = true
	defer func() { cutCommands = false }()
	var ps []*Node
	for _, p := range fn.Params {
		ps = append(ps, param("spec."+p.Name(), p.Type()))
	}
	h := cond(eval(fn, ps...).result(0))
	return func(name, input, rule, line *Node) B {
		return substB(h, map[*Node]*Node{ps[0]: name, ps[1]: input, ps[2]: rule, ps[3]: line})
	}
}

func (c *Check) c22() {
	hidden := c.hidden()
	c.eachRegular(func(r *cmdRun, x *cmdExit, reg B, lines []lintLine) {
		c.ob(len(lines) > 0, r.name()+": lines", "no line is printed for a lint error")
		done := map[*Node]bool{}
		for _, l := range lines {
			if done[l.err] {
				continue
			}
			done[l.err] = true
			printed := False
			for _, m := range lines {
				if m.err == l.err {
					printed = or(printed, m.guard)
				}
			}
			name, input := sourceOf(l.app)
			h := hidden(name, input, mkField(l.err, "Rule", nil), mkField(l.err, "Line", nil))
			want := and(x.cond, not(h))
			g := witnessed(and(x.cond, printed), l.vars)
			ok := g == want || equivalent(and(reg, g), and(reg, want), exitFacts(x, l.vars)...)
			c.ob(ok, r.name()+": "+ruleText(l.app), "an error is printed exactly when {%s}, which is not when no suppression comment hides it: {%s}", short(showB(minimize(printed, x.cond), 0)), short(showB(not(h), 0)))
		}
	})
}

// witnessed replaces statements that some element exists by their truth
// where one of the given elements is such an element.
func witnessed(g B, vars []*Node) B {
	for _, a := range supportAtoms(g) {
		if a.op != OExists {
			continue
		}
		for _, v := range vars {
			if d := varDom[v]; d != nil && a.args[0] == baseDom(d) {
				_, o := openWith(a, v)
				w := witnessed(o.conds[0], vars)
				g = or(and(w, restrictAtom(g, a, true)), and(not(w), g))
				break
			}
		}
	}
	return g
}

func ruleText(app *Node) string {
	f := app.args[0]
	if fn, ok := f.aux.(*ssa.Function); ok {
		return fn.Name()
	}
	return "requested rule"
}

func init() {
	checks["C14"] = checkFn{20, func(c *Check) { c.c14() }, cmdText + "Every value that reaches an event, a status or the list of changes or errors is walked; the iteration order of a map may only occur below a total order or where order does not matter."}
	checks["C22"] = checkFn{20, func(c *Check) { c.c22() }, cmdText + "The guard under which the line of an error is printed is compared with the negated reference model of suppression comments, evaluated on the same token stream."}
}

const parserPrefix = "github.com/vektah/gqlparser/v2/parser."
