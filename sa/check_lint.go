package main

import (
	"fmt"
	"strings"
)

type lintRule struct{ name, fn, spec string }

var lintRules = []lintRule{
	{"type-desc", "TypesHaveDescription", "TypeDesc"},
	{"args-desc", "ArgumentsHaveDescription", "ArgsDesc"},
	{"field-desc", "FieldsHaveDescription", "FieldDesc"},
	{"enum-caps", "EnumValuesAreAllCaps", "EnumCaps"},
	{"enum-desc", "EnumValuesHaveDescriptions", "EnumDesc"},
	{"field-camel", "FieldsAreCamelCased", "FieldCamel"},
	{"type-caps", "TypesAreCapitalized", "TypeCaps"},
	{"relay-conn-type", "RelayConnectionTypesSpec", "RelayConnType"},
	{"relay-conn-args", "RelayConnectionArgumentsSpec", "RelayConnArgs"},
}

const lintRuleText = "Both the rule function and its reference model are turned into value-dependence graphs (interprocedural gated SSA over go/ssa; every loop is summarised by the list it ranges over). " +
	"The returned error lists are flattened into rows (enclosing elements, control-dependence guard, item) and compared per element: for every k the guard under which at least k errors are produced must be the same on both sides. "

func init() {
	only := func(names ...string) func(c *Check) {
		return func(c *Check) {
			for _, r := range lintRules {
				for _, n := range names {
					if r.name == n {
						c.guarded(r.name, func() { c.lintRule(r) })
					}
				}
			}
		}
	}
	checks["C16"] = checkFn{7, only("type-desc", "field-desc", "args-desc", "enum-desc"), lintRuleText}
	checks["C17"] = checkFn{6, only("type-caps", "field-camel", "enum-caps"), lintRuleText}
	checks["C18"] = checkFn{3, only("relay-conn-type"), lintRuleText}
	checks["C19"] = checkFn{6, only("relay-conn-args"), lintRuleText}
	checks["C20"] = checkFn{23, func(c *Check) {
		for _, r := range lintRules {
			c.guarded(r.name, func() { c.lintItems(r) })
		}
	}, lintRuleText + "For every row the item's Rule, Line, Column and text are compared with the element the model names."}
}

// lintRows evaluates a rule function and its model on the same document.
func (c *Check) lintRows(r lintRule) (code, spec []row) {
	fn := c.anchor(pkgLinter, r.fn)
	sf := c.anchor(pkgSpec, r.spec)
	if len(fn.Params) != 1 {
		panic(undecided("rule function " + r.fn + " does not take one document"))
	}
	doc := param("doc", fn.Params[0].Type())
	nonNilParams[doc] = true
	code = rowsOf(eval(fn, doc).result(0))
	spec = rowsOf(eval(sf, doc).result(0))
	return code, spec
}

// elementOf: the element whose position the node belongs to.
func elementOf(pos *Node) *Node {
	if pos.op == OField && pos.sym == "Position" {
		pos = pos.args[0]
		if pos.op == OField && pos.sym == "Type" {
			pos = pos.args[0]
		}
		return pos
	}
	return nil
}

// splitPos resolves the position of an error item: it returns one entry per
// value the line may take.
type posRow struct {
	row
	line, col *Node
}

func splitErr(rs []row) []posRow {
	var out []posRow
	for _, r := range rs {
		l, c := fieldOf(r.item, "Line"), fieldOf(r.item, "Column")
		for _, ll := range leaves(l) {
			for _, cl := range leaves(c) {
				g := and(r.guard, ll.g, cl.g)
				if g != False {
					out = append(out, posRow{row{r.vars, g, r.item}, ll.v, cl.v})
				}
			}
		}
	}
	return out
}

func elemKey(line, col *Node) string {
	for _, x := range []*Node{line, col} {
		if x.op == OField && (x.sym == "Line" || x.sym == "Column") {
			if e := elementOf(x.args[0]); e != nil {
				return fmt.Sprint(e.id)
			}
		}
	}
	return fmt.Sprintf("?%d/%d", line.id, col.id)
}

func (c *Check) lintRule(r lintRule) {
	code, spec := c.lintRows(r)
	type group struct {
		code, spec []row
		text       string
	}
	groups := map[string]*group{}
	var order []string
	get := func(k, text string) *group {
		g := groups[k]
		if g == nil {
			g = &group{text: text}
			groups[k] = g
			order = append(order, k)
		}
		return g
	}
	for _, s := range spec {
		at := fieldOf(s.item, "At")
		e := elementOf(at)
		if e == nil {
			panic(undecided("model position " + at.String()))
		}
		g := get(chainKey(s.vars)+"@"+fmt.Sprint(e.id), chainText(s.vars)+" at "+e.String())
		g.spec = append(g.spec, s)
	}
	for _, p := range splitErr(code) {
		g := get(chainKey(p.vars)+"@"+elemKey(p.line, p.col), chainText(p.vars)+" at "+p.line.String())
		g.code = append(g.code, p.row)
	}
	for _, k := range order {
		g := groups[k]
		var facts []B
		for _, x := range append(append([]row{}, g.spec...), g.code...) {
			facts = append(facts, chainFacts(x.vars)...)
		}
		ok, diff := sameCount(guardsOf(g.code), guardsOf(g.spec), facts)
		c.ob(ok, r.fn+": "+g.text, "%s (rule %s) flags {%s} as often as {%s} demands, except when {%s}", r.fn, r.name,
			short(showB(orAll(g.code), 0)), short(showB(orAll(g.spec), 0)), short(showB(diff, 0)))
	}
}

// textHas: the text mentions x in every case in which g holds.
func textHas(msg, x *Node, g B) bool {
	for _, l := range leaves(msg) {
		if and(g, l.g) == False {
			continue
		}
		if !pieceOf(l.v, x) {
			return false
		}
	}
	return true
}

func pieces(m *Node) []*Node {
	if m.op == OConcat {
		return m.args
	}
	return []*Node{m}
}

func pieceOf(m, x *Node) bool {
	want, isC := x.strVal()
	for _, p := range pieces(m) {
		if p == x {
			return true
		}
		if s, ok := p.strVal(); ok && isC && strings.Contains(s, want) {
			return true
		}
		if p.op == OCall && p.sym == "strconv.Quote" && p.args[0] == x {
			return true
		}
	}
	return false
}

func errText(n *Node) *Node {
	return lift(n, func(e *Node) *Node {
		if e.op == OCall && e.sym == "error" {
			return e.args[0]
		}
		return e
	})
}

// strayPiece looks for a part of the text which is neither fixed, nor the name
// of the element or of one that encloses it (outermost first), nor the line
// and column of the error.
func strayPiece(msg *Node, g B, p posRow, at *Node) string {
	depth := map[*Node]int{}
	for _, v := range p.vars {
		d := 0
		for _, w := range p.vars {
			if w != v && mentionsNode(varDom[v], w) {
				d++
			}
		}
		depth[v] = d
	}
	if e := elementOf(at); e != nil && depth[e] == 0 {
		if _, in := depth[e]; !in {
			depth[e] = len(p.vars)
		}
	}
	for _, l := range leaves(msg) {
		if and(g, l.g) == False {
			continue
		}
		last, nums := -1, 0
		for _, x := range pieces(l.v) {
			if _, ok := x.strVal(); ok {
				continue
			}
			if x.op == OCall && x.sym == "strconv.Quote" {
				x = x.args[0]
			}
			if x.op == OField && x.sym == "Name" {
				d, ok := depth[x.args[0]]
				if !ok {
					return x.String() + ", the name of another element"
				}
				if d < last {
					return x.String() + " after the name of an element it encloses"
				}
				last = d
				continue
			}
			if x == mkFmt("%d", p.line) && nums == 0 || x == mkFmt("%d", p.col) && nums == 1 {
				nums++
				continue
			}
			return x.String() + ", which is no name and not the position of the error"
		}
	}
	return ""
}

func (c *Check) lintItems(r lintRule) {
	code, spec := c.lintRows(r)
	seen := map[string]int{}
	for _, p := range splitErr(code) {
		key := r.fn + ": " + chainText(p.vars) + " at " + p.line.String()
		seen[key]++
		if n := seen[key]; n > 1 {
			key += fmt.Sprintf(" #%d", n)
		}
		var match []row
		atG, anyG := False, False
		for _, s := range spec {
			if chainKey(s.vars) != chainKey(p.vars) {
				continue
			}
			at := fieldOf(s.item, "At")
			anyG = or(anyG, s.guard)
			if mkField(at, "Line", nil) == p.line && mkField(at, "Column", nil) == p.col {
				match = append(match, s)
				atG = or(atG, s.guard)
			}
		}
		facts := chainFacts(p.vars)
		if !c.ob(len(match) > 0, key, "%s reports an error at line %s, column %s, which is not the position of the element the error is about", r.fn, p.line, p.col) {
			continue
		}
		if impliesT(p.guard, anyG, facts...) && !impliesT(p.guard, atG, facts...) {
			c.ob(false, key, "%s reports an error of another element at %s", r.fn, p.line)
			continue
		}
		lab := fieldOf(p.item, "Rule")
		good := true
		for _, l := range leaves(lab) {
			if s, ok := l.v.strVal(); and(l.g, p.guard) != False && (!ok || s != r.name) {
				good = false
			}
		}
		c.ob(good, key+" rule", "%s labels the error %s instead of %s", r.fn, lab, r.name)
		msg := errText(fieldOf(p.item, "Err"))
		for _, s := range match {
			g := and(p.guard, s.guard)
			if g == False || refute(g, facts...) {
				continue
			}
			nm := fieldOf(s.item, "Name")
			c.ob(textHas(msg, nm, g), key+" names "+nm.String(), "the text %s of %s does not name %s", msg, r.fn, nm)
			bad := strayPiece(msg, g, p, fieldOf(s.item, "At"))
			c.ob(bad == "", key+" text", "the text %s of %s contains %s", msg, r.fn, bad)
		}
	}
}
