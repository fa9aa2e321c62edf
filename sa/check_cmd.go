package main

import (
	"fmt"
	"go/constant"
	"strings"
)

// The properties of the two commands, decided on the summary of main.

const cmdText = "main is summarised for the selected sub command (interprocedural gated SSA over go/ssa from main through the command line framework's documented hook order; every exit with its condition, status and the events before it). "

// exitFacts: what is known at a row of an exit.
func exitFacts(x *cmdExit, vars []*Node) []B {
	out := []B{x.cond}
	for _, v := range vars {
		w := freshVar("m", v.typ, varDom[v])
		out = append(out, mkExists(w, varDom[v], True))
		if isCall(varDom[v], "changes") {
			out = append(out, levelFact(v))
		}
	}
	return append(out, chainFacts(vars)...)
}

var levelNames = []string{"Breaking", "Dangerous", "NonBreaking"}

func levelConst(name string) *Node {
	p := prg.byID[pkgCompare]
	if p == nil || p.Const(name) == nil {
		panic(undecided("severity " + name + " not found"))
	}
	k, _ := constant.Int64Val(p.Const(name).Value.Value)
	return constInt(k)
}

func levelOf(v *Node) *Node { return mkField(v, "criticalityLevel", nil) }

func levelFact(v *Node) B {
	r := False
	for _, n := range levelNames {
		r = or(r, eqB(levelOf(v), levelConst(n)))
	}
	return r
}

// theChanges: the comparison made before the exit.
func (x *cmdExit) theChanges() *Node {
	es := x.events("changes")
	if len(es) == 0 {
		return nil
	}
	if len(es) > 1 || len(es[0].vars) > 0 {
		panic(undecided("more than one comparison in one run"))
	}
	return es[0].item.args[0]
}

func existsBreaking(ch *Node) B {
	v := freshVar("c", elemType(ch.typ), ch)
	return mkExists(v, ch, eqB(levelOf(v), levelConst("Breaking")))
}

// countRows: a number as a sum of ones over elements.
func countRows(n *Node) []row {
	var out []row
	var walk func(n *Node, vars []*Node, g B)
	walk = func(n *Node, vars []*Node, g B) {
		if g == False {
			return
		}
		switch n.op {
		case OConst:
			k, ok := n.intVal()
			if !ok || k < 0 || k > 64 {
				panic(undecided("number " + n.String()))
			}
			for ; k > 0; k-- {
				out = append(out, row{vars, g, n})
			}
		case OAdd:
			for _, a := range n.args {
				walk(a, vars, g)
			}
			if n.sym != "" && n.sym != "0" {
				panic(undecided("number " + short(n.String())))
			}
		case OChoice:
			for i, a := range n.args {
				walk(a, vars, and(g, n.conds[i]))
			}
		case OSum, OLen:
			dom := orderFree(n.args[0])
			if n.op == OSum && (dom.op == OList || dom.op == OChoice) {
				w, o := open(n)
				walk(mkSum(w, dom, o.conds[0], o.args[1]), vars, g)
				return
			}
			k := 0
			for _, v := range vars {
				if varDom[v] == dom {
					k++
				}
			}
			v := sharedVar(dom, k)
			vs := append(append([]*Node{}, vars...), v)
			if n.op == OLen {
				if dom.op == OList || dom.op == OChoice {
					for _, r := range rowsOf(dom) {
						out = append(out, row{append(append([]*Node{}, vars...), r.vars...), and(g, r.guard), n})
					}
					return
				}
				out = append(out, row{vs, g, n})
				return
			}
			_, o := openWith(n, v)
			walk(o.args[1], vs, and(g, o.conds[0]))
		default:
			panic(undecided("number " + short(n.String())))
		}
	}
	walk(n, nil, True)
	return out
}

// sameBag compares two collections of rows chain by chain.
func sameBag(a, b []row, facts func(vars []*Node) []B) (bool, string) {
	keys := map[string][]*Node{}
	var order []string
	ga, gb := map[string][]B{}, map[string][]B{}
	add := func(rs []row, m map[string][]B) {
		for _, r := range rs {
			k := chainKey(r.vars)
			if keys[k] == nil {
				keys[k] = append([]*Node{}, r.vars...)
				order = append(order, k)
			}
			m[k] = append(m[k], r.guard)
		}
	}
	add(a, ga)
	add(b, gb)
	for _, k := range order {
		if ok, d := sameCount(ga[k], gb[k], facts(keys[k])); !ok {
			return false, chainText(keys[k]) + " when {" + short(showB(d, 0)) + "}"
		}
	}
	return true, ""
}

// numbersIn returns the numbers formatted in a text.
func numbersIn(text *Node) []*Node {
	var out []*Node
	for _, p := range pieces(text) {
		if p.op == OFmt && (p.sym == "%d" || p.sym == "%v") {
			out = append(out, p.args[0])
		}
	}
	return out
}

func hasNode(n, m *Node) bool {
	return mentionsAny(n, func(x *Node) bool { return x == m })
}

func isNumber(n *Node) bool {
	switch n.op {
	case OSum, OLen, OAdd:
		return true
	}
	_, ok := n.intVal()
	return ok
}

func (c *Check) c10() {
	r := c.runCmd("compare", "")
	n := 0
	for _, x := range r.exits {
		ch := x.theChanges()
		if ch == nil {
			continue
		}
		n++
		x.resolveCrash(c)
		any := existsBreaking(ch)
		f := exitFacts(x, nil)
		one, zero := x.status(func(n int64) bool { return n == 1 }), x.status(func(n int64) bool { return n == 0 })
		c.ob(equivalent(one, and(x.cond, any), f...), x.describe()+": status 1",
			"after the comparison the status is 1 when {%s}, which differs from the existence of a breaking change", short(showB(one, 0)))
		c.ob(equivalent(zero, and(x.cond, not(any)), f...), x.describe()+": status 0",
			"after the comparison the status is 0 when {%s}, which differs from the absence of breaking changes", short(showB(zero, 0)))
		// the printed number
		v := sharedVar(ch, 0)
		want := []row{{[]*Node{v}, eqB(levelOf(v), levelConst("Breaking")), v}}
		printed := False
		for _, p := range x.prints() {
			if len(p.vars) > 0 {
				continue
			}
			for _, num := range numbersIn(p.item) {
				if !hasNode(num, ch) || !isNumber(num) {
					continue
				}
				ok, why := sameBag(countRows(num), want, func(vs []*Node) []B { return append(exitFacts(x, vs), p.guard) })
				if c.ob(ok, x.describe()+": number", "the printed number %s is not the number of breaking changes: %s", short(num.String()), why) {
					printed = or(printed, p.guard)
				}
			}
		}
		c.ob(impliesT(and(x.cond, any), printed, f...), x.describe()+": number printed", "the number of breaking changes is not printed in every case in which there are some")
	}
	c.ob(n > 0, "comparison reached", "the compare command never compares the two schemas")
	c.flagDefaults(r, "breaking-change-only", "exclude-print-filepath")
}

// resolveCrash: a crash after this point is decided by the check of crashes.
func (x *cmdExit) resolveCrash(c *Check) {
	if x.crash {
		panic(undecided("a run ends in a panic: " + x.describe()))
	}
}

// flagDefaults: the options exist under their names and are off by default.
func (c *Check) flagDefaults(r *cmdRun, names ...string) {
	for _, n := range names {
		found, zeroed := false, true
		for _, x := range r.exits {
			for _, w := range x.rows {
				if w.item.op != OEvent || !strings.HasPrefix(w.item.sym, "flag:") {
					continue
				}
				if s, ok := w.item.args[0].strVal(); !ok || s != n {
					continue
				}
				found = true
				switch d := w.item.args[2]; {
				case d == nilNode, d == emptyList, d == constStr(""), d == constInt(0):
				case d.op == OBool && d.conds[0] == False:
				default:
					zeroed = false
				}
			}
		}
		c.ob(found && zeroed, "option "+n, "the option %s is not registered, or is on by default", n)
	}
}

// ---- texts printed for one element

type scenario struct {
	name string
	g    B
}

// textUnder concatenates what the rows print in a case.  Guards that the case
// does not decide are split; every part must give the same text.
func textUnder(rs []row, g B, facts []B) (*Node, string) {
	var cat func(rs []row, g B, ps []*Node, depth int) (*Node, string)
	cat = func(rs []row, g B, ps []*Node, depth int) (*Node, string) {
		for i, r := range rs {
			if refute(and(g, r.guard), facts...) {
				continue
			}
			if impliesT(g, r.guard, facts...) {
				ps = append(ps[:len(ps):len(ps)], r.item)
				continue
			}
			if depth == 0 {
				return nil, "whether " + short(r.item.String()) + " is printed also depends on {" + short(showB(minimize(r.guard, g), 0)) + "}"
			}
			a, why := cat(rs[i:], and(g, r.guard), ps, depth-1)
			if a == nil {
				return nil, why
			}
			b, why := cat(rs[i+1:], and(g, not(r.guard)), ps, depth-1)
			if b == nil {
				return nil, why
			}
			if a != b {
				return nil, "whether " + short(a.String()) + " or " + short(b.String()) + " is printed depends on {" + short(showB(minimize(r.guard, g), 0)) + "}"
			}
			return a, ""
		}
		if len(ps) == 0 {
			return constStr(""), ""
		}
		return mkConcat(ps), ""
	}
	return cat(rs, g, nil, 6)
}

func (c *Check) c11() {
	r := c.runCmd("compare", "")
	n := 0
	type after struct {
		x     *cmdExit
		none  B
		texts map[*Node]B
	}
	var ends []after
	for _, x := range r.exits {
		ch := x.theChanges()
		if ch == nil {
			continue
		}
		n++
		x.resolveCrash(c)
		v := sharedVar(ch, 0)
		var lines []row
		for _, p := range x.prints() {
			uses := false
			for _, w := range p.vars {
				if varDom[w] == ch {
					uses = true
				} else if hasNode(varDom[w], ch) {
					panic(undecided("lines printed for " + short(varDom[w].String())))
				}
			}
			if !uses {
				continue
			}
			if !c.ob(len(p.vars) == 1, "one line per change", "a line is printed several times: for every %s", short(chainText(p.vars))) {
				continue
			}
			lines = append(lines, p)
		}
		c.changeLines(x, ch, v, lines)
		c.changeOrder(x, ch)
		// nothing found
		none := and(x.cond, not(nonEmpty(ch)))
		texts := map[*Node]B{}
		for _, p := range x.prints() {
			if len(p.vars) == 0 {
				if s, ok := p.item.strVal(); ok && strings.TrimSpace(s) != "" {
					if _, old := texts[p.item]; !old {
						texts[p.item] = False
					}
					texts[p.item] = or(texts[p.item], p.guard)
				}
			}
		}
		ends = append(ends, after{x, none, texts})
	}
	said := false // some text is printed exactly when nothing was found
	for _, e := range ends {
		for t := range e.texts {
			exact := true
			for _, o := range ends {
				g, f := o.texts[t], exitFacts(o.x, nil)
				if _, used := o.texts[t]; !used {
					g = False
				}
				exact = exact && equivalent(and(o.x.cond, g), o.none, f...)
			}
			said = said || exact
		}
	}
	c.ob(said || n == 0, "no changes", "no message is printed exactly when there is no change")
	c.ob(n > 0, "comparison reached", "the compare command never compares the two schemas")
	c.flagDefaults(r, "breaking-change-only", "exclude-print-filepath")
}

var markers = map[string]string{"Breaking": "❌", "Dangerous": "✋", "NonBreaking": "✅"}

func (c *Check) changeLines(x *cmdExit, ch, v *Node, lines []row) {
	only, excl := flagNode("breaking-change-only"), flagNode("exclude-print-filepath")
	if only == nil || excl == nil {
		c.ob(false, "options", "an output option is not used")
		return
	}
	pos := mkField(v, "position", nil)
	name := mkField(mkField(pos, "Src", nil), "Name", nil)
	line := mkFmt("%d", mkField(pos, "Line", nil))
	msg := mkField(v, "message", nil)
	noName := eqB(name, constStr(""))
	facts := exitFacts(x, []*Node{v})
	both := func(b B) []scenario { return []scenario{{"", b}, {"no ", not(b)}} }
	for _, lv := range levelNames {
		lg := eqB(levelOf(v), levelConst(lv))
		for _, o := range both(cond(only)) {
			for _, nn := range both(noName) {
				var withPos *Node
				for _, e := range both(not(cond(excl))) {
					g := and(x.cond, lg, o.g, e.g, nn.g)
					if refute(g, facts...) {
						continue
					}
					key := fmt.Sprintf("%s, %sbreaking-only, %sposition, %sempty file name", lv, o.name, e.name, nn.name)
					t, why := textUnder(lines, g, facts)
					if !c.ob(t != nil, key, "the lines of the report: %s", why) {
						continue
					}
					if o.name == "" && lv != "Breaking" {
						c.ob(t == constStr(""), key, "a %s change is printed as %s although only breaking ones are wanted", lv, t)
						continue
					}
					ps := pieces(t)
					at := -1
					cnt := 0
					for i, p := range ps {
						if p == msg {
							cnt++
							at = i
						}
					}
					if !c.ob(cnt == 1, key+": once", "a %s change is printed as %s, which does not contain its text exactly once", lv, t) {
						continue
					}
					head := ""
					if s, ok := ps[0].strVal(); ok {
						head = s
					}
					good := strings.Contains(head, markers[lv])
					for l, m := range markers {
						if l != lv && strings.Contains(head, m) {
							good = false
						}
					}
					c.ob(good, key+": marker", "a %s change is printed as %s, without its marker at the start", lv, t)
					last, _ := ps[len(ps)-1].strVal()
					c.ob(strings.HasSuffix(last, "\n"), key+": line", "a %s change is printed as %s, which does not end its line", lv, t)
					in := func(q *Node) bool {
						for _, p := range ps {
							if p == q {
								return true
							}
						}
						return false
					}
					if e.name == "" {
						withPos = t
						c.ob((nn.name == "" || in(name)) && in(line), key+": position", "a %s change is printed as %s, without the file and line of its position", lv, t)
					} else {
						bad := false
						for _, p := range ps {
							if hasNode(p, pos) {
								bad = true
							}
						}
						c.ob(!bad, key+": position", "a %s change is printed as %s, with a position although it is not wanted", lv, t)
						if withPos != nil {
							c.ob(samePlain(ps, at, pieces(withPos), msg), key+": rest of the line", "leaving out the position changes more of the line: %s instead of %s", t, withPos)
						}
					}
				}
			}
		}
	}
}

// changeOrder: the lines of one group follow the file names and, in one file,
// the line numbers.
func (c *Check) changeOrder(x *cmdExit, ch *Node) {
	type printLoop struct {
		seg  *Node
		rows []row
	}
	var loops []printLoop
	var walk func(s *Node)
	walk = func(s *Node) {
		switch s.op {
		case OList:
			for _, y := range s.args {
				walk(y)
			}
		case OFor:
			var mine []row
			for _, w := range rowsOf(mkList([]*Node{s}, nil)) {
				if isPrint(w) && len(w.vars) == 1 && varDom[w.vars[0]] == ch {
					mine = append(mine, w)
				}
			}
			if len(mine) > 0 {
				loops = append(loops, printLoop{s, mine})
			}
		}
	}
	for _, s := range x.trace {
		walk(s)
	}
	v := sharedVar(ch, 0)
	et := elemType(ch.typ)
	a, b := param("change.a", et), param("change.b", et)
	pa, pb := mkField(a, "position", nil), mkField(b, "position", nil)
	na, nb := mkField(mkField(pa, "Src", nil), "Name", nil), mkField(mkField(pb, "Src", nil), "Name", nil)
	la, lb := mkField(pa, "Line", nil), mkField(pb, "Line", nil)
	lex := or(strLt(na, nb), and(eqB(na, nb), ltB(la, lb, 0)))
	for _, n := range []*Node{pa, pb, mkField(pa, "Src", nil), mkField(pb, "Src", nil)} {
		lex = and(lex, not(eqB(n, nilNode)))
	}
	facts := exitFacts(x, []*Node{v})
	for _, lv := range levelNames {
		g := and(x.cond, eqB(levelOf(v), levelConst(lv)))
		key := lv + " lines"
		inGroup := and(lex, eqB(levelOf(a), levelConst(lv)), eqB(levelOf(b), levelConst(lv)))
		var seen []B
		for _, l := range loops {
			any := False
			for _, w := range l.rows {
				any = or(any, w.guard)
			}
			if refute(and(g, any), facts...) {
				continue
			}
			for _, o := range seen {
				c.ob(refute(and(g, any, o), facts...), key+": one list", "%s changes are printed by several loops, so that they are not ordered as a whole", lv)
			}
			seen = append(seen, any)
			d := l.seg.args[0]
			ab, ok := before(d, a, b)
			ba, _ := before(d, b, a)
			if c.ob(ok, key+": sorted", "%s changes are printed in the order of %s", lv, short(d.String())) {
				c.ob(impliesT(inGroup, and(ab, not(ba)), facts...), key+": order", "%s changes are ordered by {%s} instead of by file and line", lv, short(showB(ab, 0)))
			}
		}
	}
}

// samePlain: what follows the message is the same, and what precedes it starts
// the same.
func samePlain(ps []*Node, at int, qs []*Node, msg *Node) bool {
	bt := -1
	for i, q := range qs {
		if q == msg {
			bt = i
		}
	}
	if bt < 0 || len(ps)-at != len(qs)-bt {
		return false
	}
	for i := range ps[at:] {
		if ps[at+i] != qs[bt+i] {
			return false
		}
	}
	if at != 1 {
		return false
	}
	a, ok := ps[0].strVal()
	b, ok2 := qs[0].strVal()
	return ok && ok2 && strings.HasPrefix(b, strings.TrimSpace(a))
}

// ---- reading

func (c *Check) c12() {
	r := c.runCmd("compare", "")
	var l1, l2 *Node
	n := 0
	old, new := flagNode("oldversion"), flagNode("newversion")
	if old == nil || new == nil {
		c.ob(false, "options", "a schema option is not used")
		return
	}
	side := func(n *Node) (o, w bool) {
		return mentionsAny(n, isFlag("oldversion")), mentionsAny(n, isFlag("newversion"))
	}
	bad := or(eqB(old, constStr("")), eqB(new, constStr("")), eqB(old, new))
	for _, x := range r.exits {
		ch := x.theChanges()
		if ch != nil {
			n++
			o, w := side(ch.args[0])
			c.ob(o && !w, x.describe()+": old side", "the old side of the comparison is %s", short(ch.args[0].String()))
			o, w = side(ch.args[1])
			c.ob(w && !o, x.describe()+": new side", "the new side of the comparison is %s", short(ch.args[1].String()))
			c.ob(refute(and(x.cond, bad)), x.describe()+": paths checked", "the comparison is reached although a path is missing or both are the same")
			l1, l2 = ch.args[0], ch.args[1]
		}
		if s := and(x.success(), bad); s != False {
			c.ob(refute(s), x.describe()+": status", "a missing path or the same path twice ends with status 0")
		}
	}
	c.ob(n > 0, "comparison reached", "the compare command never compares the two schemas")
	if n == 0 {
		return
	}
	// error texts
	isOld, isNew := isFlag("oldversion"), isFlag("newversion")
	_, _ = l1, l2
	failed := func(x *cmdExit, me, other func(*Node) bool) bool {
		// some failure of this side is certain, and none of the other side possible
		for _, a := range supportAtoms(x.cond) {
			if mentionsAny(a, me) && !mentionsAny(a, other) && isFailure(a, x.cond) {
				return true
			}
		}
		return false
	}
	for _, x := range r.exits {
		if x.crash || x.theChanges() != nil {
			continue
		}
		fo, fn := failed(x, isOld, isNew), failed(x, isNew, isOld)
		if fo == fn {
			continue
		}
		other, what := isNew, "old"
		if fn {
			other, what = isOld, "new"
		}
		for _, p := range x.prints() {
			if len(p.vars) > 0 {
				continue
			}
			c.ob(!mentionsAny(p.item, other), x.describe()+": error text", "reading the %s schema failed, but the text printed is about the other one: %s", what, short(p.item.String()))
		}
	}
	c.flagDefaults(r, "oldversion", "newversion")
}

// isFailure: a is an atom about a failing step, and c demands the failure.
func isFailure(a *Node, c B) bool {
	ab := bm.atomVar(a)
	switch {
	case a.op == ONilP && isErrNode(a.args[0]):
		return and(c, ab) == False
	case a.op == OExists && isCall(a.args[0], "glob"):
		_, o := open(a)
		if o.conds[0] == True {
			return and(c, ab) == False // no file
		}
		return and(c, not(ab)) == False // some file fails
	}
	return false
}

func isErrNode(n *Node) bool {
	return n.op == OCall && (strings.HasSuffix(n.sym, "err") || strings.HasPrefix(n.sym, parserPrefix) && strings.HasSuffix(n.sym, "#1"))
}

// eachRun calls f for the compare command and for the lint command in all
// cases of its two options.
func (c *Check) eachRun(f func(r *cmdRun)) {
	c.guarded("compare", func() { f(c.runCmd("compare", "")) })
	c.eachLint(f)
}

func (c *Check) eachLint(f func(r *cmdRun)) {
	for _, l := range lintCases {
		c.guarded("lint "+l, func() { f(c.runCmd("lint", l)) })
	}
}

func (c *Check) c13() {
	c.eachRun(func(r *cmdRun) {
		for _, x := range r.exits {
			if x.crash {
				continue
			}
			key := r.name() + ", " + x.describe()
			s := x.success()
			if s == False || refute(s) {
				printed := False
				for _, p := range x.prints() {
					if len(p.vars) == 0 {
						if t, ok := p.item.strVal(); !ok || strings.TrimSpace(t) != "" {
							printed = or(printed, p.guard)
						}
					}
				}
				c.ob(impliesT(x.cond, printed), key+": message", "the run fails without printing anything")
				continue
			}
			steps := 0
			for _, st := range x.steps() {
				steps++
				c.ob(refute(and(s, st.guard, st.bad), exitFacts(x, st.vars)...), key+": "+st.what+" "+chainText(st.vars),
					"status 0 is possible although %s fails", st.what)
			}
			c.ob(steps >= 2, key+": steps", "only %d reading steps were found before a successful end", steps)
			if strings.Contains(r.flags, "+rules") {
				c.ob(refute(and(s, unknownRule())), key+": unknown rule", "status 0 is possible although an unknown rule is requested")
			}
		}
	})
}

// A step is something a run does that may fail.
type step struct {
	row
	what string
	bad  B
}

func (x *cmdExit) steps() []step {
	var out []step
	for _, w := range x.rows {
		if w.item.op != OEvent || !strings.HasPrefix(w.item.sym, "call:") {
			continue
		}
		need := func(what string, bad B) { out = append(out, step{w, what, bad}) }
		a := w.item.args
		switch w.item.sym {
		case "call:glob":
			need("listing "+short(a[0].String()), not(nilB(mkCall("globerr", a, nil, nil))))
			need("finding a file for "+short(a[0].String()), not(nonEmpty(mkCall("glob", a, nil, nil))))
		case "call:open":
			need("opening "+short(a[0].String()), not(nilB(mkCall("openerr", a, nil, nil))))
		case "call:readall":
			need("reading "+short(a[0].String()), not(nilB(mkCall("readerr", a, nil, nil))))
		case "call:readfile":
			need("opening "+short(a[0].String()), not(nilB(mkCall("openerr", a, nil, nil))))
			need("reading "+short(a[0].String()), not(nilB(mkCall("readerr", []*Node{mkCall("open", a, nil, nil)}, nil, nil))))
		case "call:parse":
			t := a[0]
			if t.op != OTuple || len(t.args) != 2 {
				panic(undecided("parser call " + short(t.String())))
			}
			need("parsing "+short(t.args[1].String()), not(nilB(t.args[1])))
		case "call:close", "call:apply", "call:(*os.File).Name":
		default:
			panic(undecided("call of " + w.item.sym))
		}
	}
	return out
}

// existsRow: the guard holds for some elements of the row's lists.
func existsRow(vars []*Node, g B) B {
	for i := len(vars) - 1; i >= 0; i-- {
		g = mkExists(vars[i], varDom[vars[i]], g)
	}
	return g
}

// regular: the part of the exit's condition in which nothing failed.
func (x *cmdExit) regular() B {
	g := x.cond
	if strings.Contains(flagText(), "+rules") {
		g = and(g, not(unknownRule()))
	}
	for _, s := range x.steps() {
		g = and(g, not(existsRow(s.vars, and(s.guard, s.bad))))
	}
	if refute(g) {
		return False
	}
	return g
}

func flagText() string {
	t := ""
	for _, n := range sortedKeys(flagCase) {
		if flagCase[n] {
			t += "+" + n + " "
		} else {
			t += "-" + n + " "
		}
	}
	return t
}

// unknownRule: some requested rule has none of the documented names.
func unknownRule() B {
	d := flagNode("rules")
	if d == nil {
		panic(undecided("the option rules is not used"))
	}
	v := freshVar("r", elemType(d.typ), d)
	_, ok := ruleNamed(v)
	return mkExists(v, d, not(ok))
}

func ruleNamed(v *Node) (*Node, B) {
	fn := prg.fn(pkgSpec, "RuleNamed")
	s := eval(fn, v)
	return s.result(0), cond(s.result(1))
}

func init() {
	checks["C10"] = checkFn{5, func(c *Check) { c.c10() }, cmdText + "The status guards and the printed number are compared with the existence and the number of breaking changes."}
	checks["C11"] = checkFn{40, func(c *Check) { c.c11() }, cmdText + "For every severity and option combination the concatenated text printed for a change is inspected."}
	checks["C12"] = checkFn{6, func(c *Check) { c.c12() }, cmdText + "The data dependences of both sides of the comparison and of the error texts are inspected."}
	checks["C13"] = checkFn{40, func(c *Check) { c.c13() }, cmdText + "For every reading, parsing and selection step the condition of a status 0 must exclude its failure, and every failing exit must print."}
}
