package main

import (
	"strings"
)

// The documented command line: which commands and options exist, under which
// names, with which kind and default; anything else is refused.

type option struct {
	command, long, short string
	kinds                string
	off                  string
}

var options = []option{
	{"lint", "filepath", "f", "String", "empty"},
	{"lint", "rules", "r", "StringSlice", "empty"},
	{"compare", "oldversion", "o", "String", "empty"},
	{"compare", "newversion", "n", "String", "empty"},
	{"compare", "breaking-change-only", "b", "Bool", "off"},
	{"compare", "exclude-print-filepath", "e", "Bool", "off"},
}

func zeroDefault(d *Node) bool {
	switch {
	case d == nilNode, d == emptyList, d == constStr(""), d == constInt(0):
		return true
	case d.op == OBool && d.conds[0] == False:
		return true
	}
	return false
}

func (c *Check) c31() {
	r := c.runCmd(badUsage, "")
	n := 0
	for _, x := range r.exits {
		if x.crash {
			continue
		}
		n++
		key := "command line that cannot be understood, " + x.describe()
		c.ob(refute(x.success()), key+": status", "a command line that cannot be understood ends with status 0")
		// the framework prints the error itself unless told not to
		printed := False
		for _, p := range x.prints() {
			if len(p.vars) == 0 {
				if t, ok := p.item.strVal(); !ok || strings.TrimSpace(t) != "" {
					printed = or(printed, p.guard)
				}
			}
		}
		for _, w := range x.events("command") {
			if w.item.args[1] == nilNode {
				printed = or(printed, and(w.guard, not(cond(trait(w.item, "SilenceErrors")))))
			}
		}
		c.ob(impliesT(x.cond, printed), key+": message", "nothing is printed about a command line that cannot be understood")
		c.commandTree(x)
	}
	c.ob(n > 0, "command line that cannot be understood: end", "the run does not end")
}

func trait(e *Node, name string) *Node {
	for i, t := range commandTraits {
		if t == name {
			return e.args[3+i]
		}
	}
	panic("no trait " + name)
}

func (c *Check) commandTree(x *cmdExit) {
	cmds := x.events("command")
	parent := map[*Node]*Node{}
	byUse := map[string][]row{}
	for _, w := range cmds {
		e := w.item
		parent[e.args[0]] = e.args[1]
		use, ok := e.args[2].strVal()
		f := strings.Fields(use)
		if !ok || len(f) == 0 {
			panic(undecided("name of a command: " + short(e.args[2].String())))
		}
		key := "command " + f[0]
		byUse[f[0]] = append(byUse[f[0]], w)
		off := func(tr string) bool {
			v := trait(e, tr)
			return zeroDefault(v) || cond(v) == False
		}
		c.ob(off("DisableFlagParsing"), key+": options", "the options of the command %s are not read", f[0])
		wl := trait(e, "FParseErrWhitelist")
		lax := wl != nilNode && mentionsAny(wl, func(n *Node) bool { return n.op == OBool && n.conds[0] != False })
		c.ob(!lax, key+": unknown options", "the command %s accepts unknown options", f[0])
		if e.args[1] == nilNode {
			a := trait(e, "Args")
			ok := a == nilNode || strings.HasSuffix(a.String(), "NoArgs") || strings.HasSuffix(a.String(), "OnlyValidArgs")
			c.ob(ok, key+": unknown commands", "unknown commands are accepted: the arguments of the root command are checked by %s", short(a.String()))
		}
	}
	for _, name := range []string{"lint", "compare"} {
		l := byUse[name]
		if !c.ob(len(l) == 1 && impliesT(x.cond, l[0].guard), "command "+name+": registered", "the command %s is registered %d times", name, len(l)) {
			continue
		}
		e := l[0].item
		c.ob(parent[e.args[0]] != nil && parent[e.args[0]] != nilNode && parent[parent[e.args[0]]] == nilNode, "command "+name+": place", "the command %s is not a command of the program itself", name)
		c.ob(trait(e, "Run") != nilNode || trait(e, "RunE") != nilNode, "command "+name+": function", "the command %s does nothing", name)
		for _, o := range options {
			if o.command == name {
				c.option(x, o, e.args[0], parent)
			}
		}
		// short names are unique, -h stays the help
		seen := map[string]string{"h": "help"}
		for _, w := range x.flags() {
			if !reaches(e.args[0], w.item, parent) {
				continue
			}
			ln, _ := w.item.args[0].strVal()
			s, _ := w.item.args[1].strVal()
			if s != "" {
				c.ob(seen[s] == "", "command "+name+": -"+s, "-%s stands for both %s and %s", s, seen[s], ln)
				seen[s] = ln
			}
		}
	}
}

func (x *cmdExit) flags() []row {
	var out []row
	for _, w := range x.rows {
		if w.item.op == OEvent && strings.HasPrefix(w.item.sym, "flag:") {
			out = append(out, w)
		}
	}
	return out
}

// reaches: an option registered with this event is understood after the command.
func reaches(cmd, ev *Node, parent map[*Node]*Node) bool {
	set := ev.args[3]
	if !isCall(set, "flagset") {
		return false
	}
	for p := cmd; p != nil && p != nilNode; p = parent[p] {
		if set.args[0] == p {
			// options of an ancestor are inherited only from its persistent set
			return p == cmd || set.args[1] == constStr("PersistentFlags")
		}
	}
	return false
}

func (c *Check) option(x *cmdExit, o option, cmd *Node, parent map[*Node]*Node) {
	key := "option --" + o.long
	var found []row
	for _, w := range x.flags() {
		if s, ok := w.item.args[0].strVal(); ok && s == o.long && reaches(cmd, w.item, parent) {
			found = append(found, w)
		}
	}
	if !c.ob(len(found) == 1 && len(found[0].vars) == 0 && impliesT(x.cond, found[0].guard), key+": registered", "%s %s is registered %d times", o.command, key, len(found)) {
		return
	}
	e := found[0].item
	s, _ := e.args[1].strVal()
	c.ob(s == o.short, key+": short name", "the short name of %s is %q, not %q", key, s, o.short)
	kind := strings.TrimPrefix(e.sym, "flag:")
	c.ob(kind == o.kinds, key+": kind", "%s is read as %s, not as %s", key, kind, o.kinds)
	c.ob(zeroDefault(e.args[2]), key+": default", "%s defaults to %s instead of %s", key, short(e.args[2].String()), o.off)
	if o.command == "lint" {
		for _, w := range x.events("required") {
			if n, ok := w.item.args[1].strVal(); !ok || n == o.long {
				c.ob(false, key+": optional", "the option --%s of %s must be given", o.long, o.command)
			}
		}
	}
	if o.long != "rules" {
		return
	}
	text := e.args[4].String()
	for _, r := range lintRules {
		c.ob(strings.Contains(text, r.name+" =>"), key+": help for "+r.name, "the help text of %s does not name the rule %s: %s", key, r.name, short(text))
	}
}

func init() {
	checks["C31"] = checkFn{40, func(c *Check) { c.c31() }, cmdText + "The run is one in which the framework refuses the command line; the tree of commands and the option registrations that reach it are compared with the documented ones."}
}
