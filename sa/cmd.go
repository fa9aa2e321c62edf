package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Whole commands: main is summarised for one selected sub command and one case
// of the command line.

type cmdExit struct {
	e     *Edge
	cond  B
	codes []leaf // exit status
	crash bool   // ends in a panic
	rows  []row  // what happens before, each with enclosing elements and guard
	trace []*Node
	obs   []row
}

type cmdRun struct {
	cmd, flags string
	exits      []*cmdExit
}

func (r *cmdRun) name() string {
	if r.flags == "" {
		return r.cmd
	}
	return r.cmd + " (" + r.flags + ")"
}

var lintCases = []string{"-rules -filepath", "-rules +filepath", "+rules -filepath", "+rules +filepath"}

// runCmd analyses main with the given sub command and flag case.
func (c *Check) runCmd(cmd, flags string) *cmdRun {
	selectedCmd, cutCommands, pruning = cmd, true, true
	for k := range flagCase {
		delete(flagCase, k)
	}
	for _, f := range strings.Fields(flags) {
		flagCase[f[1:]] = f[0] == '+'
	}
	fs := ev.funcs
	ev = newEvaluator(prg)
	for f := range fs {
		ev.funcs[f] = true
	}
	fn := c.anchor(repoModule, "main")
	_, outs := evalBody(nil, fn, nil, nil, newState())
	selectedCmd, cutCommands, pruning = "", false, false
	r := &cmdRun{cmd: cmd, flags: flags}
	for _, e := range outs {
		r.addExit(e, e.cond)
	}
	return r
}

// addExit adds the part of an exit that lies in the given condition; it is
// divided further until the steps made before it are the same in every case.
func (r *cmdRun) addExit(e *Edge, c B) {
	if refute(c) {
		return
	}
	x := &cmdExit{e: e, cond: c}
	switch {
	case e.kind == eReturn:
		x.codes = []leaf{{True, constInt(0)}}
	case e.code != nil && e.code.op == OEvent:
		x.crash = true
		x.codes = []leaf{{True, constInt(2)}}
	case e.code != nil:
		for _, l := range leaves(e.code) {
			if and(l.g, c) != False {
				x.codes = append(x.codes, l)
			}
		}
	default:
		panic(undecided("end of the program without a status"))
	}
	prunedSegs := func(n *Node) []*Node {
		var out []*Node
		for _, s := range segs(n) {
			if q := pruneSeg(s, c); q != nil {
				out = append(out, q)
			}
		}
		return out
	}
	x.trace = prunedSegs(e.st.trace)
	x.rows = rowsOf(mkList(x.trace, nil))
	for _, w := range x.rows {
		if len(w.vars) > 0 || w.item.op != OEvent || w.item.sym != "changes" && !strings.HasPrefix(w.item.sym, "call:") {
			continue
		}
		if in, no := and(c, w.guard), and(c, not(w.guard)); in != False && no != False && !refute(in) && !refute(no) {
			r.addExit(e, in)
			r.addExit(e, no)
			return
		}
	}
	x.obs = rowsOf(mkList(prunedSegs(e.st.obs), nil))
	r.exits = append(r.exits, x)
}

// status returns the guard under which the exit has a status satisfying ok.
func (x *cmdExit) status(ok func(int64) bool) B {
	g := False
	for _, l := range x.codes {
		n, known := l.v.intVal()
		if !known {
			panic(undecided("exit status " + l.v.String()))
		}
		if ok(n & 255) {
			g = or(g, l.g)
		}
	}
	return and(g, x.cond)
}

func (x *cmdExit) success() B { return x.status(func(n int64) bool { return n == 0 }) }
func (x *cmdExit) failure() B { return x.status(func(n int64) bool { return n != 0 }) }

func isEvent(r row, kind string) bool { return r.item.op == OEvent && r.item.sym == kind }

func isPrint(r row) bool {
	return r.item.op == OEvent && (strings.HasPrefix(r.item.sym, "print:") || r.item.sym == "stderr" || strings.HasPrefix(r.item.sym, "builtin.print"))
}

func (x *cmdExit) events(kind string) []row {
	var out []row
	for _, r := range x.rows {
		if isEvent(r, kind) {
			out = append(out, r)
		}
	}
	return out
}

// prints returns the printed texts, one row per alternative.
func (x *cmdExit) prints() []row {
	var out []row
	for _, r := range x.rows {
		if !isPrint(r) {
			continue
		}
		for _, l := range leaves(r.item.args[0]) {
			if g := and(r.guard, l.g); g != False && and(g, x.cond) != False {
				out = append(out, row{r.vars, g, l.v})
			}
		}
	}
	return out
}

func (x *cmdExit) describe() string {
	var cs []string
	for _, l := range x.codes {
		cs = append(cs, l.v.String())
	}
	where := ""
	if x.e.pos.IsValid() {
		where = " at " + pos(x.e.pos)
	}
	return fmt.Sprintf("exit %s%s", strings.Join(cs, "/"), where)
}

func mentionsAny(n *Node, pred func(*Node) bool) bool {
	found := false
	collectNodes([]*Node{n}, func(m *Node) {
		if pred(m) {
			found = true
		}
	})
	return found
}

func mentionsAnyB(g B, pred func(*Node) bool) bool {
	for _, a := range supportAtoms(g) {
		if mentionsAny(a, pred) {
			return true
		}
	}
	return false
}

func isFlag(name string) func(*Node) bool {
	return func(n *Node) bool {
		if n.op != OCall || n.sym != "flag" {
			return false
		}
		s, ok := n.args[0].strVal()
		return ok && s == name
	}
}

func flagNode(name string) *Node {
	for _, n := range nodes {
		if isFlag(name)(n) {
			return n
		}
	}
	return nil
}

func isCall(n *Node, sym string) bool { return n.op == OCall && n.sym == sym }

// dumpCmd prints a readable summary, for development.
func dumpCmd(cmd, flags string) int {
	if err := loadAll(); err != nil {
		fmt.Println(err)
		return 1
	}
	c := &Check{}
	r := c.runCmd(cmd, flags)
	nameNodes(r)
	for _, x := range r.exits {
		fmt.Printf("=== %s\n  cond %s\n", x.describe(), showB(x.cond, 1))
		for _, l := range x.codes {
			fmt.Printf("  code %s if %s\n", l.v, showB(minimize(l.g, x.cond), 1))
		}
		for _, w := range x.rows {
			if strings.HasPrefix(w.item.sym, "flag:") {
				continue
			}
			fmt.Printf("  - %s | if %s | %s\n", chainText(w.vars), showB(w.guard, 1), show(w.item, 1))
		}
		for _, w := range x.obs {
			fmt.Printf("  ob %s | if %s | %s\n", chainText(w.vars), showB(w.guard, 1), show(w.item, 1))
		}
	}
	for n, s := range nodeName {
		fmt.Printf("%s := %s\n", s, show(n, 0))
	}
	fmt.Println("nodes", len(nodes), "bdd", len(bm.nodes))
	return 0
}

func nameNodes(r *cmdRun) {
	k := 0
	seen := map[*Node]bool{}
	var reg func(n *Node)
	reg = func(n *Node) {
		if seen[n] {
			return
		}
		seen[n] = true
		for _, a := range n.args {
			reg(a)
		}
		for _, b := range n.conds {
			for _, a := range supportAtoms(b) {
				reg(a)
			}
		}
		if nodeName[n] != "" || !closed(n) {
			return
		}
		switch n.op {
		case OCall, OExists, OFirst, OSorted, OList:
			if len(show(n, 1)) > 60 {
				k++
				nodeName[n] = fmt.Sprintf("$%d", k)
			}
		}
	}
	for _, x := range r.exits {
		for _, a := range supportAtoms(x.cond) {
			reg(a)
		}
		for _, w := range append(append([]row{}, x.rows...), x.obs...) {
			for _, a := range supportAtoms(w.guard) {
				reg(a)
			}
			reg(w.item)
			for _, v := range w.vars {
				reg(varDom[v])
			}
		}
	}
}

var _ *ssa.Function
