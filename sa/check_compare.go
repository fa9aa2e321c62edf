package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
)

// The comparison is decided against the model in spec/compare.go.txt.

type chRow struct {
	row
	kind  string
	block string // schema definitions or schema extensions
	level int64
	alt   int64
}

func splitChanges(rs []row, kindF, levelF, altF string) []chRow {
	var out []chRow
	for _, r := range rs {
		for _, k := range leaves(fieldOf(r.item, kindF)) {
			ks, ok := k.v.strVal()
			if !ok {
				if and(r.guard, k.g) == False || refute(and(r.guard, k.g), chainFacts(r.vars)...) {
					continue
				}
				panic(undecided("kind of a change is not a constant: " + k.v.String()))
			}
			for _, l := range leaves(fieldOf(r.item, levelF)) {
				g := and(r.guard, k.g, l.g)
				if g == False {
					continue
				}
				lv, ok := l.v.intVal()
				if !ok {
					if refute(g, chainFacts(r.vars)...) {
						continue
					}
					panic(undecided("severity of a change is not a constant: " + l.v.String()))
				}
				if altF == "" {
					out = append(out, chRow{row{r.vars, g, r.item}, ks, "", lv, lv})
					continue
				}
				for _, a := range leaves(fieldOf(r.item, altF)) {
					g := and(g, a.g)
					if g == False {
						continue
					}
					av, _ := a.v.intVal()
					out = append(out, chRow{row{r.vars, g, r.item}, ks, "", lv, av})
				}
			}
		}
	}
	return out
}

type chGroup struct {
	kind, text string
	vars       []*Node
	code, spec []chRow
}

func (g *chGroup) applied() bool {
	for _, v := range g.vars {
		if d := baseDom(varDom[v]); d.op == OField && d.sym == "Directives" && namedOf(elemType(d.typ)) == "Directive" {
			return true
		}
	}
	return false
}

func (g *chGroup) facts() []B {
	var f []B
	for _, r := range append(append([]chRow{}, g.code...), g.spec...) {
		f = append(f, chainFacts(r.vars)...)
	}
	return f
}

func (c *Check) compareGroups() []*chGroup {
	fn := c.anchor(pkgCompare, "FindChangesInSchemas")
	sf := c.anchor(pkgSpec, "Changes")
	if len(fn.Params) != 2 {
		panic(undecided("FindChangesInSchemas does not take two documents"))
	}
	o, n := param("old", fn.Params[0].Type()), param("new", fn.Params[1].Type())
	nonNilParams[o], nonNilParams[n] = true, true
	distinctA, distinctB = o, n
	spec := splitChanges(rowsOf(eval(sf, o, n).result(0)), "Kind", "Level", "Alt")
	code := splitChanges(rowsOf(eval(fn, o, n).result(0)), "changeType", "criticalityLevel", "")
	groups := map[string]*chGroup{}
	var order []*chGroup
	get := func(r chRow) *chGroup {
		k := r.kind + " " + chainKey(r.vars)
		b := r.block
		k += b
		g := groups[k]
		if g == nil {
			t := chainText(r.vars)
			if t == "" {
				t = "the document" + b
			}
			g = &chGroup{kind: r.kind, text: r.kind + " for " + t, vars: r.vars}
			groups[k] = g
			order = append(order, g)
		}
		return g
	}
	spec, code = byBlock(spec, "Pos"), byBlock(code, "position")
	for _, r := range spec {
		g := get(r)
		g.spec = append(g.spec, r)
	}
	for _, r := range code {
		g := get(r)
		g.code = append(g.code, r)
	}
	return order
}

func orCh(rs []chRow, f func(chRow) bool) B {
	g := False
	for _, r := range rs {
		if f == nil || f(r) {
			g = or(g, r.guard)
		}
	}
	return g
}

var levelName = []string{"NonBreaking", "Dangerous", "Breaking"}

// existence: changes of the group appear exactly when the model says so.
func (c *Check) existence(g *chGroup) bool {
	cg, sg := orCh(g.code, nil), orCh(g.spec, nil)
	facts := g.facts()
	miss := and(sg, not(cg))
	if !impliesT(sg, cg, facts...) {
		debugModel(g.text)
		return c.ob(false, g.text, "no %s is reported although {%s}", g.kind, short(showB(miss, 0)))
	}
	extra := and(cg, not(sg))
	if !impliesT(cg, sg, facts...) {
		debugModel(g.text)
		return c.ob(false, g.text, "%s is reported although nothing of the kind happened, when {%s}", g.kind, short(showB(extra, 0)))
	}
	return c.ob(true, g.text, "")
}

func (c *Check) severity(g *chGroup) {
	facts := g.facts()
	for lv := int64(0); lv < 3; lv++ {
		cg := orCh(g.code, func(r chRow) bool { return r.level == lv })
		if cg == False {
			continue
		}
		sg := orCh(g.spec, func(r chRow) bool { return r.level == lv || r.alt == lv })
		c.ob(impliesT(cg, sg, facts...), g.text+" "+levelName[lv], "a %s is %s although {%s}", g.kind, levelName[lv], short(showB(and(cg, not(sg)), 0)))
	}
}

var changeKinds = map[string]string{}

func init() {
	sets := map[string]string{
		"C01": "FIELD_ARGUMENT_REMOVED ENUM_VALUE_REMOVED FIELD_REMOVED INPUT_FIELD_REMOVED OBJECT_TYPE_INTERFACE_REMOVED TYPE_REMOVED UNION_MEMBER_REMOVED DIRECTIVE_REMOVED DIRECTIVE_ARGUMENT_REMOVED DIRECTIVE_LOCATION_REMOVED DIRECTIVE_REPEATABLE_REMOVED",
		"C02": "FIELD_ARGUMENT_ADDED ENUM_VALUE_ADDED FIELD_ADDED INPUT_FIELD_ADDED OBJECT_TYPE_INTERFACE_ADDED TYPE_ADDED UNION_MEMBER_ADDED DIRECTIVE_ADDED DIRECTIVE_ARGUMENT_ADDED DIRECTIVE_LOCATION_ADDED DIRECTIVE_REPEATABLE_ADDED",
		"C03": "FIELD_TYPE_CHANGED",
		"C04": "FIELD_ARGUMENT_TYPE_CHANGED INPUT_FIELD_TYPE_CHANGED DIRECTIVE_ARGUMENT_TYPE_CHANGED",
		"C05": "SCHEMA_QUERY_TYPE_CHANGED SCHEMA_MUTATION_TYPE_CHANGED SCHEMA_SUBSCRIPTION_TYPE_CHANGED",
		"C08": "FIELD_ARGUMENT_DEFAULT_CHANGED INPUT_FIELD_DEFAULT_VALUE_CHANGED DIRECTIVE_ARGUMENT_DEFAULT_VALUE_CHANGED FIELD_DEPRECATION_ADDED FIELD_DEPRECATION_REMOVED FIELD_DEPRECATION_REASON_CHANGED INPUT_FIELD_DEPRECATION_ADDED INPUT_FIELD_DEPRECATION_REMOVED INPUT_FIELD_DEPRECATION_REASON_CHANGED ENUM_VALUE_DEPRECATION_ADDED ENUM_VALUE_DEPRECATION_REMOVED ENUM_VALUE_DEPRECATION_REASON_CHANGED TYPE_DESCRIPTION_CHANGED FIELD_DESCRIPTION_CHANGED INPUT_FIELD_DESCRIPTION_CHANGED FIELD_ARGUMENT_DESCRIPTION_CHANGED ENUM_VALUE_DESCRIPTION_CHANGED DIRECTIVE_DESCRIPTION_CHANGED DIRECTIVE_ARGUMENT_DESCRIPTION_CHANGED",
		"C09": "DIRECTIVE_REMOVED DIRECTIVE_CHANGED DIRECTIVE_ADDED DIRECTIVE_ARGUMENT_ADDED DIRECTIVE_ARGUMENT_REMOVED DIRECTIVE_ARGUMENT_VALUE_CHANGED",
	}
	floors := map[string]int{"C01": 20, "C02": 20, "C03": 2, "C04": 6, "C05": 6, "C08": 20, "C09": 10}
	for id, ks := range sets {
		set := map[string]bool{}
		for _, k := range strings.Fields(ks) {
			set[k] = true
		}
		id := id
		checks[id] = checkFn{floors[id], func(c *Check) {
			for _, g := range c.compareGroups() {
				g := g
				if !set[g.kind] {
					continue
				}
				// changes of applied directives belong to C09 only
				if g.applied() != (id == "C09") && strings.HasPrefix(g.kind, "DIRECTIVE_") {
					continue
				}
				c.guarded(g.text, func() {
					if c.existence(g) {
						c.severity(g)
					}
				})
			}
		}, compareRuleText}
	}
	checks["C06"] = checkFn{60, func(c *Check) {
		for _, g := range c.compareGroups() {
			g := g
			c.guarded(g.text, func() {
				c.existence(g)
				if g.kind == "TYPE_KIND_CHANGED" {
					c.severity(g)
				}
			})
		}
	}, compareRuleText}
}

const compareRuleText = "FindChangesInSchemas and its reference model are turned into value-dependence graphs (interprocedural gated SSA over go/ssa). Both lists of changes are flattened into rows (kind, severity, enclosing elements, control-dependence guard). " +
	"Per kind and chain of enclosing elements the guards under which a change is produced must be equal, and every row's severity must be one the model allows under its guard."

var _ = fmt.Sprint
var _ = sort.Ints

func debugModel(t string) {
	if os.Getenv("SA_MODEL") == "" {
		return
	}
	fmt.Println("MODEL", t)
	x := lastModel
	for x > 1 {
		n := bm.nodes[x]
		a := bm.atoms[n.v].String()
		if n.hi != False {
			fmt.Println("   ", a)
			x = n.hi
		} else {
			fmt.Println("   !", a)
			x = n.lo
		}
	}
}

func init() {
	checks["C07"] = checkFn{40, func(c *Check) {
		fn := c.anchor(pkgCompare, "FindChangesInSchemas")
		if len(fn.Params) != 2 {
			panic(undecided("FindChangesInSchemas does not take two documents"))
		}
		o := param("doc", fn.Params[0].Type())
		nonNilParams[o] = true
		// two identical documents need not be one object: no element of one may be compared by address with one of the other
		od, nd := param("old", fn.Params[0].Type()), param("new", fn.Params[1].Type())
		nonNilParams[od], nonNilParams[nd] = true, true
		distinctA, distinctB = od, nd
		two := eval(fn, od, nd).result(0)
		distinctA, distinctB = nil, nil
		var rows []chRow
		if comparedByAddress {
			rows = splitChanges(rowsOf(two), "changeType", "criticalityLevel", "")
		} else {
			rows = splitChanges(rowsOf(eval(fn, o, o).result(0)), "changeType", "criticalityLevel", "")
		}
		for _, r := range rows {
			r := r
			if comparedByAddress {
				sub := map[*Node]*Node{od: o, nd: o}
				var vars []*Node
				for _, v := range r.vars {
					w := freshVar("m", v.typ, subst(varDom[v], sub))
					sub[v] = w
					vars = append(vars, w)
				}
				r.vars, r.guard = vars, substB(r.guard, sub)
				if ofNothing(vars) {
					continue // elements of a list of an absent node
				}
			}
			t := r.kind + " for " + chainText(r.vars)
			c.guarded(t, func() {
				g := identify(r.guard, r.vars)
				ok := refute(g, chainFacts(r.vars)...)
				if !ok {
					debugModel(t)
				}
				c.ob(ok, t, "comparing a document with itself yields %s when {%s}", r.kind, short(showB(r.guard, 0)))
			})
		}
	}, compareRuleText}
}

func ofNothing(vars []*Node) bool {
	none := false
	for _, v := range vars {
		collectNodes([]*Node{varDom[v]}, func(n *Node) {
			none = none || n.op == OOpaque && strings.HasPrefix(n.sym, "nil.")
		})
	}
	return none
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// twoRoots: a and b are addresses taken from the two documents.
func twoRoots(a, b, x, y *Node) bool {
	if !isPtr(a.typ) && !isPtr(b.typ) && (a.op != OBox || b.op != OBox) {
		return false
	}
	ra, rb := valueRoot(a), valueRoot(b)
	return ra == x && rb == y || ra == y && rb == x
}

// elements of these two documents are never the same object
var (
	distinctA, distinctB *Node
	comparedByAddress    bool
)

// valueRoot is the parameter out of which the value is taken.
func valueRoot(n *Node) *Node {
	for i := 0; i < 100; i++ {
		if d, ok := varDom[n]; ok {
			n = d
			continue
		}
		if n.op == OParam {
			return n
		}
		if len(n.args) == 0 {
			return nil
		}
		n = n.args[0]
	}
	return nil
}

// identify replaces search results by the enclosing elements they must be
// equal to: an element that satisfies the search condition, when at most one
// can.
func identify(g B, vars []*Node) B {
	facts := chainFacts(vars)
	for round := 0; round < 20 && g != False; round++ {
		var cand []*Node
		seen := map[*Node]bool{}
		roots := supportAtoms(g)
		for _, v := range vars {
			roots = append(roots, varDom[v])
		}
		collectNodes(roots, func(n *Node) {
			if n.op == OFirst && closed(n) && !seen[n] {
				seen[n] = true
				cand = append(cand, n)
			}
		})
		sort.Slice(cand, func(i, j int) bool { return cand[i].id < cand[j].id })
		var from, to *Node
		for _, f := range cand {
			for _, m := range vars {
				if baseDom(varDom[m]) != f.args[0] {
					continue
				}
				if entails(g, eqB(m, f)) {
					from, to = f, m
					break
				}
				_, o := openWith(f, m)
				v, ov := open(f)
				if !impliesT(g, renorm(o.conds[0]), facts...) {
					continue
				}
				if uniqueAcross(f.args[0], v, ov.conds[0]) || uniqueByCount(g, f.args[0], v, ov.conds[0], vars) {
					from, to = f, m
					break
				}
			}
			if from != nil {
				break
			}
		}
		if from == nil {
			return g
		}
		sub := map[*Node]*Node{from: to}
		g = substB(g, sub)
		// elements of a list inside the search result are elements of it
		vars = append([]*Node{}, vars...)
		for i, v := range vars {
			if d := subst(varDom[v], sub); d != varDom[v] {
				vars[i] = freshVar("s", v.typ, d)
				g = subst1B(g, v, vars[i])
				for j := i + 1; j < len(vars); j++ {
					if dj := subst1(varDom[vars[j]], v, vars[i]); dj != varDom[vars[j]] {
						w := freshVar("s", vars[j].typ, dj)
						g = subst1B(g, vars[j], w)
						vars[j] = w
					}
				}
			}
		}
		facts = chainFacts(vars)
	}
	return g
}

// renorm re-establishes normal forms after a raw renaming.
func renorm(c B) B {
	return rewriteB(c, func(a *Node) (B, bool) {
		return cond(rebuildDeep(a)), true
	})
}

func rebuildDeep(n *Node) *Node {
	z := opaque("renorm")
	return subst(n, map[*Node]*Node{z: z})
}

// uniqueAcross: one element with this name in all extension blocks of a type.
func uniqueAcross(d, v *Node, c B) bool {
	if d.op != OField || d.sym != "Extensions" || pinnedBy(v, c, "Name") == nil {
		return false
	}
	for _, a := range supportAtoms(c) {
		if a.op == OExists && a.args[0].op == OField && a.args[0].args[0] == v && entails(c, bm.atomVar(a)) {
			if k := uniqueKey(a.args[0]); k != "" {
				w, o := open(a)
				if pinnedBy(w, o.conds[0], k) != nil {
					return true
				}
			}
		}
	}
	return false
}

// uniqueByCount: g bounds a count of the elements with c by one.
func uniqueByCount(g B, d, v *Node, c B, vars []*Node) bool {
	var sums []*Node
	for _, a := range supportAtoms(g) {
		if a.op == OLt && a.args[0].op == OSum && a.args[1].isConst() && a.sym == "2" && entails(g, bm.atomVar(a)) {
			sums = append(sums, a.args[0])
		}
	}
	for i := 0; i < len(sums); i++ {
		s := sums[i]
		w, o := openWith(s, freshVar("c", elemType(s.args[0].typ), s.args[0]))
		if s.args[0] == d {
			cw := subst1B(c, v, w)
			if impliesT(and(g, cw), and(o.conds[0], not(ltB(o.args[1], constInt(1), 0)))) {
				return true
			}
		}
		// what one known element contributes is bounded as well
		if nonNeg(o.args[1]) {
			for _, m := range vars {
				if baseDom(varDom[m]) == s.args[0] && impliesT(g, subst1B(o.conds[0], w, m)) {
					if t := subst1(o.args[1], w, m); t.op == OSum {
						sums = append(sums, t)
					} else if t.op == OChoice {
						for _, l := range leaves(t) {
							if l.v.op == OSum && impliesT(g, l.g) {
								sums = append(sums, l.v)
							}
						}
					}
				}
			}
		}
	}
	return false
}

// ---- C28: text, path and position of a change

// possibleG returns the values n may have when g holds, each with its guard.
// Reading through nil yields no value.
func possibleG(n *Node, g B, facts []B) []leaf {
	var out []leaf
	for _, l := range leaves(assumeLite(n, g)) {
		h := and(g, l.g)
		if h == False || ofNil(l.v) {
			continue
		}
		v := assumeLite(l.v, h)
		if v.op == OChoice {
			out = append(out, possibleG(v, h, facts)...)
			continue
		}
		if ofNil(v) || refute(h, facts...) {
			continue
		}
		out = append(out, leaf{h, v})
	}
	return out
}

func possible(n *Node, g B, facts []B) []*Node {
	var out []*Node
	seen := map[*Node]bool{}
	for _, l := range possibleG(n, g, facts) {
		if !seen[l.v] {
			seen[l.v] = true
			out = append(out, l.v)
		}
	}
	return out
}

func ofNil(n *Node) bool {
	for n.op == OField {
		n = n.args[0]
	}
	return n.op == OOpaque && strings.HasPrefix(n.sym, "nil.")
}

func pieceIndex(m *Node, x *Node, from int) int {
	want, isC := x.strVal()
	for i, p := range pieces(m) {
		if i < from {
			continue
		}
		if p == x || p.op == OCall && p.sym == "strconv.Quote" && p.args[0] == x {
			return i
		}
		if s, ok := p.strVal(); ok && isC && strings.Contains(s, want) {
			return i
		}
	}
	return -1
}

func onlyPunct(s string) bool {
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return false
		}
	}
	return true
}

func (c *Check) describes(g *chGroup) {
	facts := g.facts()
	for ri, r := range g.code {
		key := g.text
		if ri > 0 {
			key += fmt.Sprintf(" #%d", ri+1)
		}
		if refute(r.guard, facts...) {
			continue
		}
		matched := False
		for _, s := range g.spec {
			gg := and(r.guard, s.guard)
			if gg == False || refute(gg, facts...) {
				continue
			}
			matched = or(matched, s.guard)
			var want []*Node
			for _, f := range []string{"Elem", "Owner", "Field"} {
				for _, w := range possible(fieldOf(s.item, f), gg, facts) {
					if w != emptyStr {
						want = append(want, w)
					}
				}
			}
			for _, m := range possible(fieldOf(r.item, "message"), gg, facts) {
				for _, w := range want {
					c.ob(pieceIndex(m, w, 0) >= 0, key+" names "+w.String(), "the text %s does not name %s", short(m.String()), w)
				}
				for _, o := range possible(fieldOf(s.item, "Old"), gg, facts) {
					for _, n := range possible(fieldOf(s.item, "New"), gg, facts) {
						if o == emptyStr && n == emptyStr {
							continue
						}
						i := pieceIndex(m, o, 0)
						c.ob(i >= 0 && pieceIndex(m, n, i+1) > i, key+" old before new", "the text %s does not give the old value %s before the new one %s", short(m.String()), o, n)
					}
				}
			}
			for _, k := range possibleG(fieldOf(s.item, "Mark"), gg, facts) {
				if k.v == emptyStr {
					continue
				}
				dep := k.v == constStr("deprecated")
				for _, m := range possible(fieldOf(r.item, "message"), k.g, facts) {
					says := pieceIndex(m, constStr("deprecated"), 0) >= 0
					c.ob(says == dep, key+" deprecated", "the text %s says the wrong thing about whether the removed element was deprecated", short(m.String()))
				}
			}
			for _, p := range possibleG(fieldOf(r.item, "path"), gg, facts) {
				ok := false
				var wantP []string
				for _, wl := range possibleG(fieldOf(s.item, "Path"), p.g, facts) {
					ws, st := staticItems(wl.v)
					if !st {
						panic(undecided("path of the model: " + wl.v.String()))
					}
					for _, w := range resolveAll(ws, wl.g, facts) {
						wantP = append(wantP, strings.Join(mapStr(w, 0), " "))
						ok = ok || samePieces(p.v, w)
					}
				}
				c.ob(ok, key+" path", "the path %s is not made of the names %s", p.v, strings.Join(wantP, " or "))
			}
			for _, p := range possible(fieldOf(r.item, "position"), gg, facts) {
				ok := false
				var at []string
				for _, f := range []string{"Pos", "Pos2"} {
					for _, w := range possible(fieldOf(s.item, f), gg, facts) {
						at = append(at, w.String())
						ok = ok || w == p
					}
				}
				c.ob(ok, key+" position", "the change lies at %s instead of %s", p, strings.Join(at, " or "))
			}
		}
		c.ob(matched != False, key, "no element of the model corresponds to this %s", g.kind)
	}
}

// resolveAll resolves every item of a static list under g.
func resolveAll(ws []*Node, g B, facts []B) [][]*Node {
	if len(ws) == 0 {
		return [][]*Node{nil}
	}
	var out [][]*Node
	for _, l := range possibleG(ws[0], g, facts) {
		for _, rest := range resolveAll(ws[1:], l.g, facts) {
			out = append(out, append([]*Node{l.v}, rest...))
		}
	}
	return out
}

func samePieces(p *Node, ws []*Node) bool {
	var dyn []*Node
	for _, x := range pieces(p) {
		if s, ok := x.strVal(); ok {
			if !onlyPunct(s) {
				return false
			}
			continue
		}
		dyn = append(dyn, x)
	}
	if len(dyn) != len(ws) {
		return false
	}
	for i := range dyn {
		if dyn[i] != ws[i] {
			return false
		}
	}
	return true
}

func init() {
	checks["C28"] = checkFn{300, func(c *Check) {
		for _, g := range c.compareGroups() {
			g := g
			c.guarded(g.text, func() { c.describes(g) })
		}
	}, compareRuleText + " For every row of the code the text, path and position are compared with the element of the model's row whose guard overlaps."}
}

// byBlock tells changes of schema definitions from those of schema extensions,
// which no enclosing element distinguishes.
func byBlock(rs []chRow, posF string) []chRow {
	var out []chRow
	for _, r := range rs {
		if len(r.vars) > 0 {
			out = append(out, r)
			continue
		}
		for _, l := range leaves(fieldOf(r.item, posF)) {
			g := and(r.guard, l.g)
			if g == False {
				continue
			}
			q := r
			q.guard = g
			collectNodes([]*Node{l.v}, func(n *Node) {
				if n.op == OField && (n.sym == "Schema" || n.sym == "SchemaExtension") && namedOf(n.args[0].typ) == "SchemaDocument" {
					q.block = "." + n.sym
				}
			})
			out = append(out, q)
		}
	}
	return out
}
