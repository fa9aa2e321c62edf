package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- which errors the lint command prints

// fileOf: the chain of enclosing elements of a line must be exactly the file
// (if files are listed), the requested rule (if rules are), and the error.
func (l *lintLine) chain(r *cmdRun) (file, rule *Node, why string) {
	for _, v := range l.vars {
		d := varDom[v]
		switch {
		case v == l.err:
		case isCall(d, "glob") && file == nil:
			file = v
		case d == flagNode("rules") && rule == nil:
			rule = v
		default:
			return nil, nil, "for every " + short(d.String())
		}
	}
	if (file != nil) != flagCase["filepath"] || (rule != nil) != flagCase["rules"] {
		return nil, nil, "for " + short(chainText(l.vars))
	}
	return file, rule, ""
}

// eachRegular calls f for the ends of a lint run in which nothing failed.
func (c *Check) eachRegular(f func(r *cmdRun, x *cmdExit, reg B, lines []lintLine)) {
	c.eachLint(func(r *cmdRun) {
		n := 0
		for _, x := range r.exits {
			reg := x.regular()
			if reg == False {
				continue
			}
			x.resolveCrash(c)
			n++
			f(r, x, reg, x.lintLines())
		}
		c.ob(n > 0, r.name(), "no run of the lint command reaches a regular end")
	})
}

// readInput: the source for the file, or for the standard input.
func (c *Check) ownSource(key string, file, name, input *Node) {
	if file == nil {
		in := input
		ok := in.op == OCall && isCall(in, "string") && isCall(in.args[0], "readall") && in.args[0].args[0].String() == "glob:os.Stdin"
		c.ob(ok, key+": content", "instead of the standard input, %s is analysed", short(input.String()))
		return
	}
	c.ob(name == file, key+": name", "a file is analysed under the name %s", short(name.String()))
	want := mkCall("string", []*Node{mkCall("file", []*Node{file}, nil, nil)}, nil, nil)
	c.ob(input == want, key+": content", "instead of the content of the file, %s is analysed", short(input.String()))
}

func (c *Check) c15() {
	c.eachRegular(func(r *cmdRun, x *cmdExit, reg B, lines []lintLine) {
		key := r.name()
		c.ob(len(lines) > 0, key+": lines", "a run in which nothing fails ends without a line for a lint error")
		for _, l := range lines {
			key := key + ", " + ruleText(l.app)
			file, _, why := l.chain(r)
			if !c.ob(why == "", key+": lists", "lines are printed %s, not for every file", why) {
				continue
			}
			name, input := sourceOf(l.app)
			c.ownSource(key, file, name, input)
		}
	})
	c.guarded("compare", func() { c.compareSources() })
}

// compareSources: both sides of the comparison consist of one document per
// matching file.
func (c *Check) compareSources() {
	r := c.runCmd("compare", "")
	n := 0
	for _, x := range r.exits {
		ch := x.theChanges()
		if ch == nil {
			continue
		}
		n++
		for i, flag := range []string{"oldversion", "newversion"} {
			key := x.describe() + ": " + flag
			d := ch.args[i]
			if !c.ob(d.op == OCall && strings.HasPrefix(d.sym, parserPrefix+"ParseSchemas#0") && len(d.args) >= 1, key, "this side is %s, which is not the document parsed from the files", short(d.String())) {
				continue
			}
			fl := flagNode(flag)
			rows := rowsOf(sourcesArg(d))
			want := mkCall("glob", []*Node{fl}, nil, nil)
			if !c.ob(len(rows) == 1, key+": files", "the files of this side are taken from %d lists instead of the one of the matching files", len(rows)) {
				continue
			}
			w := rows[0]
			if !c.ob(len(w.vars) == 1 && varDom[w.vars[0]] == want, key+": files", "the files of this side are taken %s", short(chainText(w.vars))) {
				continue
			}
			c.ob(impliesT(x.cond, w.guard, exitFacts(x, w.vars)...), key+": every file", "a file takes part only when {%s}", short(showB(w.guard, 0)))
			s := w.item
			c.ownSource(key, w.vars[0], mkField(s, "Name", nil), mkField(s, "Input", nil))
		}
	}
	c.ob(n > 0, "comparison reached", "the compare command never compares the two schemas")
}

func (c *Check) c21() {
	c.eachRegular(func(r *cmdRun, x *cmdExit, reg B, lines []lintLine) {
		key := r.name()
		apps := map[string]int{}
		for _, l := range lines {
			_, rule, why := l.chain(r)
			if !c.ob(why == "", key+": "+ruleText(l.app), "the rule is applied %s", why) {
				continue
			}
			if rule == nil {
				fn, _ := l.app.args[0].aux.(*ssa.Function)
				if !c.ob(l.app.args[0].op == OFunc && fn != nil, key+": rule", "instead of a rule, %s is applied", short(l.app.args[0].String())) {
					continue
				}
				if !sameElement(lines, l) {
					apps[fn.Name()]++
				}
				continue
			}
			apps["requested"]++
			c.selected(key, rule, l.app.args[0], reg)
		}
		if flagCase["rules"] {
			c.ob(apps["requested"] > 0, key+": requested rules", "the requested rules are not applied")
			return
		}
		for _, lr := range lintRules {
			c.ob(apps[lr.fn] > 0, key+": "+lr.name, "without a selection the rule %s is not applied", lr.name)
			delete(apps, lr.fn)
		}
		for _, f := range sortedKeys(apps) {
			c.ob(false, key+": "+f, "without a selection %s is applied, which is none of the nine rules", f)
		}
	})
	// unknown names
	for _, l := range []string{"+rules -filepath", "+rules +filepath"} {
		c.guarded("unknown "+l, func() {
			r := c.runCmd("lint", l)
			for _, x := range r.exits {
				if s := x.success(); s != False {
					c.ob(refute(and(s, unknownRule())), r.name()+", "+x.describe()+": unknown rule", "status 0 is possible although an unknown rule is requested")
				}
				for _, ln := range x.lintLines() {
					c.ob(refute(and(x.cond, ln.guard, unknownRule()), exitFacts(x, ln.vars)...), r.name()+", "+x.describe()+": rejected", "the schema is checked although an unknown rule is requested")
				}
			}
		})
	}
	c.guarded("option", func() { c.flagDefaults(c.runCmd("lint", "-rules +filepath"), "rules", "filepath") })
}

// sameElement: an earlier line is for the same element.
func sameElement(lines []lintLine, l lintLine) bool {
	for _, m := range lines {
		if m.err == l.err {
			return m.item != l.item || m.guard != l.guard
		}
	}
	return false
}

// selected: the function applied for a requested rule is the documented one.
func (c *Check) selected(key string, rule, f *Node, reg B) {
	w, ok := ruleNamed(rule)
	facts := []B{reg, mkExists(freshVar("m", rule.typ, varDom[rule]), varDom[rule], True)}
	for _, sl := range leaves(w) {
		if and(sl.g, ok) == False {
			continue
		}
		for _, l := range leaves(f) {
			if l.v == sl.v {
				continue
			}
			name := sl.v.String()
			if fn, _ := sl.v.aux.(*ssa.Function); fn != nil {
				name = fn.Name()
			}
			c.ob(refute(and(ok, sl.g, l.g), facts...), key+": "+name, "a name for %s selects %s", name, short(l.v.String()))
		}
		c.ob(true, key+": "+sl.v.String()+" selected", "")
	}
}

// ---- the printed lines, their order and their number

type errLoop struct {
	seg  *Node
	dom  *Node // the list as it is ordered
	vars []*Node
}

// errLoops finds the loops of a trace that visit lint errors and print.
func (x *cmdExit) errLoops() []errLoop {
	var out []errLoop
	var walk func(s *Node, vars []*Node)
	walk = func(s *Node, vars []*Node) {
		switch s.op {
		case OList:
			for _, y := range s.args {
				walk(y, vars)
			}
		case OFor:
			dom := orderFree(s.args[0])
			if isCall(dom, "glob") || dom == flagNode("rules") {
				v := sharedVar(dom, 0)
				_, o := openWith(s, v)
				for _, b := range bodySegs(o.args[1]) {
					walk(b, append(vars[:len(vars):len(vars)], v))
				}
				return
			}
			for _, w := range rowsOf(mkList([]*Node{s}, nil)) {
				if isPrint(w) {
					out = append(out, errLoop{s, s.args[0], vars})
					return
				}
			}
		}
	}
	for _, s := range x.trace {
		walk(s, nil)
	}
	return out
}

// before: element a comes before element b in an ordered list, as far as its
// sorting says.
func before(d, a, b *Node) (B, bool) {
	switch d.op {
	case OList:
		// what is left out of a list does not change the order of the rest
		if len(d.args) == 1 && d.args[0].op == OFor {
			v, o := open(d.args[0])
			if e := o.args[1]; e.op == OEmit && e.args[0] == v {
				return before(o.args[0], a, b)
			}
		}
	case ORev:
		return before(d.args[0], b, a)
	case OSorted:
		less := d.args[1]
		if less.op == OConst {
			return False, false
		}
		ca, cb := cmpVar(0, elemType(d.typ)), cmpVar(1, elemType(d.typ))
		return substB(cond(less), map[*Node]*Node{ca: a, cb: b}), true
	}
	return False, false
}

func (c *Check) c24() {
	c.eachRegular(func(r *cmdRun, x *cmdExit, reg B, lines []lintLine) {
		key := r.name() + ", " + x.describe()
		if !c.ob(len(lines) > 0, key+": lines", "a run in which nothing fails ends without a line for a lint error") {
			return
		}
		// one text per error
		var want []row
		done := map[*Node]bool{}
		for _, l := range lines {
			if done[l.err] {
				continue
			}
			done[l.err] = true
			k := key + ", " + ruleText(l.app)
			name, input := sourceOf(l.app)
			_ = input
			printed := False
			var mine []row
			for _, m := range lines {
				if m.err == l.err {
					if !c.ob(len(m.vars) == len(l.vars), k+": lists", "the line of an error is printed for %s and for %s", short(chainText(m.vars)), short(chainText(l.vars))) {
						return
					}
					q := m.row
					q.guard = witnessed(q.guard, m.vars)
					mine = append(mine, q)
					printed = or(printed, q.guard)
				}
			}
			facts := exitFacts(x, l.vars)
			g := witnessed(and(reg, printed), l.vars)
			want = append(want, row{vars: l.vars, guard: printed, item: l.err})
			t, why := textUnder(mine, g, facts)
			if !c.ob(t != nil, k+": text", "the line of an error: %s", why) {
				continue
			}
			c.lineText(k, t, name, l.err)
		}
		// order
		loops := x.errLoops()
		if c.ob(len(loops) == 1, key+": one list", "the lines of one file are printed by %d loops, so that they are not ordered as a whole", len(loops)) {
			d := loops[0].dom
			et := elemType(d.typ)
			a, b := param("err.a", et), param("err.b", et)
			la, lb, ca, cb := mkField(a, "Line", nil), mkField(b, "Line", nil), mkField(a, "Column", nil), mkField(b, "Column", nil)
			lex := or(ltB(la, lb, 0), and(eqB(la, lb), ltB(ca, cb, 0)))
			ab, ok := before(d, a, b)
			ba, _ := before(d, b, a)
			if c.ob(ok, key+": sorted", "the errors of a file are printed in the order of %s", short(d.String())) {
				c.ob(impliesT(lex, and(ab, not(ba))), key+": order", "the errors are ordered by {%s} instead of by line and column", short(showB(ab, 0)))
			}
			for _, v := range loops[0].vars {
				c.ob(varDom[v] != flagNode("rules"), key+": across rules", "the errors of one file are printed rule by rule, not ordered as a whole")
			}
		}
		// number
		n := False
		for _, p := range x.prints() {
			if len(p.vars) > 0 {
				continue
			}
			for _, num := range numbersIn(p.item) {
				if !isNumber(num) {
					continue
				}
				counted := countRows(num)
				for i := range counted {
					counted[i].guard = witnessed(counted[i].guard, counted[i].vars)
				}
				ok, why := sameBag(counted, want, func(vs []*Node) []B { return append(exitFacts(x, vs), p.guard) })
				if c.ob(ok, key+": number", "the printed number %s is not the number of errors printed: %s", short(num.String()), why) {
					n = or(n, p.guard)
				}
			}
		}
		// status
		any := False
		for _, w := range want {
			any = or(any, existsRow(w.vars, w.guard))
		}
		one, zero := x.status(func(n int64) bool { return n == 1 }), x.status(func(n int64) bool { return n == 0 })
		c.ob(impliesT(and(reg, any), n), key+": number printed", "the number of errors is not printed in every case in which there are some")
		c.ob(impliesT(and(reg, any), one), key+": status 1", "errors are printed but the status is not 1")
		c.ob(impliesT(and(reg, not(any)), zero), key+": status 0", "no error is printed but the status is not 0")
	})
}

// lineText: file:line:column, then the text of the error, in one line.
func (c *Check) lineText(k string, t, name, err *Node) {
	line, col := mkFmt("%d", mkField(err, "Line", nil)), mkFmt("%d", mkField(err, "Column", nil))
	ps := pieces(t)
	head := pieces(mkConcat([]*Node{name, constStr(":"), line, constStr(":"), col, constStr(" ")}))
	ok := len(ps) > len(head)-1
	for i := 0; ok && i < len(head)-1; i++ {
		ok = ps[i] == head[i]
	}
	if !c.ob(ok, k+": position", "an error is printed as %s, not starting with file:line:column", short(t.String())) {
		return
	}
	rest := ps[len(head)-1:]
	sep, _ := rest[0].strVal()
	last, _ := rest[len(rest)-1].strVal()
	msg := mkField(err, "Err", nil)
	texts := 0
	for _, p := range rest {
		if hasNode(p, msg) {
			texts++
		} else if _, ok := p.strVal(); !ok {
			texts = 9
		}
	}
	good := texts == 1 && sep != "" && !startsDigit(sep) && strings.HasSuffix(last, "\n") && strings.Count(sep+last, "\n") == 1
	c.ob(good, k+": text", "an error is printed as %s, not as its position followed by its text in one line", short(t.String()))
}

func startsDigit(s string) bool { return s[0] >= '0' && s[0] <= '9' }

func init() {
	checks["C15"] = checkFn{20, func(c *Check) { c.c15() }, cmdText + "The source (name and text) of every parsed document is traced back; it must be the matching file itself, for every element of the list of matching files, or the whole of standard input."}
	checks["C21"] = checkFn{20, func(c *Check) { c.c21() }, cmdText + "The rule functions applied are read off the printed errors; without a selection they must be the nine rules once each, with one the documented function for every name."}
	checks["C24"] = checkFn{20, func(c *Check) { c.c24() }, cmdText + "For every error the concatenated text printed in the case that nothing hides it is inspected; the loop printing it must visit a list sorted by line and column; the printed number and the status guards are compared with the number and existence of such errors."}
}

// sourcesArg is the list of sources given to the parser.
func sourcesArg(d *Node) *Node {
	s := d.args[0]
	for s.op == OBox {
		s = s.args[0]
	}
	return s
}
