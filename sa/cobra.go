package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The command line framework: which sub command is selected is a parameter of
// the analysis; Execute runs its hooks in the documented order.

const pkgCobra = "github.com/spf13/cobra"

var selectedCmd string

// badUsage in place of a sub command's name stands for a command line that
// cannot be understood: Execute runs no function and returns an error.
const badUsage = "?"

func cobraType(fn *ssa.Function) types.Type {
	r := fn.Signature.Recv()
	if r == nil {
		return nil
	}
	p, ok := r.Type().(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Name() != "Command" {
		return nil
	}
	return r.Type()
}

func cmdField(st *State, cmd *Node, t types.Type, name string) *Node {
	s := derefStructType(t)
	i := fieldIndex(s, name)
	if i < 0 {
		return nilNode
	}
	return st.load(addrField(cmd, name, types.NewPointer(s.Field(i).Type())), s.Field(i).Type())
}

func (fr *Frame) cobra(st *State, c B, fn *ssa.Function, args []*Node, cc *ssa.CallCommon, in ssa.Instruction) (*Node, B, *State, []*Edge, bool) {
	no := func() (*Node, B, *State, []*Edge, bool) { return nil, c, st, nil, false }
	if fnPkg(fn) != pkgCobra {
		return no()
	}
	t := cobraType(fn)
	if t == nil || len(args) == 0 {
		return no()
	}
	cmd := args[0]
	switch fn.Name() {
	case "AddCommand":
		items, ok := staticItems(st.content(args[1]))
		if !ok || !st.tracked(cmd) {
			panic(undecided("unknown sub commands"))
		}
		st = st.clone()
		l := cmdField(st, cmd, t, "commands")
		if l == nilNode {
			l = emptyList
		}
		st.put(addrField(cmd, "commands", nil), appendList(st.content(l), listOf(items...)))
		return nilNode, c, st, nil, true
	case "PersistentFlags", "Flags", "LocalFlags", "InheritedFlags", "LocalNonPersistentFlags":
		return mkCall("flagset", []*Node{cmd, constStr(fn.Name())}, fn.Signature.Results().At(0).Type(), nil), c, st, nil, true
	case "SetArgs", "SetOut", "SetErr", "SetVersionTemplate", "MarkFlagFilename", "MarkPersistentFlagFilename", "SetHelpTemplate", "SetUsageTemplate":
		if fn.Name() == "SetArgs" {
			panic(undecided("the command line is replaced at " + pos(in.Pos())))
		}
		return nilNode, c, st, nil, true
	case "MarkFlagRequired", "MarkPersistentFlagRequired":
		st = st.clone()
		e := intern(OEvent, "required", []*Node{cmd, args[1]}, nil, nil)
		addEvent(st, e)
		return nilNode, c, st, nil, true
	case "Context", "Root", "Parent", "CommandPath", "Name":
		return mkCall("cobra:"+fn.Name(), []*Node{cmd}, fn.Signature.Results().At(0).Type(), nil), c, st, nil, true
	case "Execute", "ExecuteC", "ExecuteContext":
	default:
		if selectedCmd == badUsage {
			panic(undecided("the call of " + fn.Name() + " at " + pos(in.Pos()) + " may change which command lines are accepted"))
		}
		return no()
	}
	// Execute
	if !st.tracked(cmd) {
		panic(undecided("unknown root command"))
	}
	if selectedCmd == badUsage {
		st = st.clone()
		describeCommand(st, cmd, nilNode, t, 0)
		r := mkCall("usageerr", nil, types.Universe.Lookup("error").Type(), nil)
		if fn.Name() == "ExecuteC" {
			r = intern(OTuple, "", []*Node{param("refused", t), r}, nil, nil)
		}
		return r, and(c, not(nilB(r))), st, nil, true
	}
	chain := []*Node{cmd}
	subs, ok := staticItems(st.content(cmdField(st, cmd, t, "commands")))
	if !ok {
		panic(undecided("unknown sub commands"))
	}
	found := false
	for _, s := range subs {
		use, ok := cmdField(st, s, t, "Use").strVal()
		if !ok {
			panic(undecided("unknown name of a sub command"))
		}
		if f := strings.Fields(use); len(f) > 0 && f[0] == selectedCmd {
			chain = append(chain, s)
			found = true
			break
		}
	}
	if !found {
		panic(undecided("command " + selectedCmd + " is not registered"))
	}
	sel := chain[len(chain)-1]
	// persistent hooks: the nearest one applies
	near := func(n string) *Node {
		for i := len(chain) - 1; i >= 0; i-- {
			for _, nm := range []string{n + "E", n} {
				if f := cmdField(st, chain[i], t, nm); f != nilNode {
					return f
				}
			}
		}
		return nilNode
	}
	own := func(n string) *Node {
		for _, nm := range []string{n + "E", n} {
			if f := cmdField(st, sel, t, nm); f != nilNode {
				return f
			}
		}
		return nilNode
	}
	var hooks []*Node
	if a := cmdField(st, sel, t, "Args"); a.op == OFunc || a.op == OClosure {
		if f, ok := a.aux.(*ssa.Function); ok && strings.HasPrefix(fnPkg(rootFn(f)), repoModule) {
			hooks = append(hooks, a)
		}
	}
	for _, h := range []*Node{near("PersistentPreRun"), own("PreRun"), own("Run"), own("PostRun"), near("PersistentPostRun")} {
		if h != nilNode {
			hooks = append(hooks, h)
		}
	}
	posArgs := param("positional", types.NewSlice(types.Typ[types.String]))
	var terms, done []*Edge
	var errs []leaf
	cur, cs := c, st.clone()
	for _, h := range hooks {
		if h.op == OChoice {
			panic(undecided("more than one function for a command"))
		}
		hf, _ := h.aux.(*ssa.Function)
		if hf == nil {
			panic(undecided("unknown function of a command"))
		}
		r, c2, st2, ts := fr.invoke(cs, cur, h, []*Node{sel, posArgs}, nil, in)
		terms = append(terms, ts...)
		cur, cs = c2, st2
		if cur == False {
			break
		}
		if hf.Signature.Results().Len() == 1 {
			bad := not(nilB(r))
			if g := and(cur, bad); g != False {
				es := cs.clone()
				if cond(cmdField(es, sel, t, "SilenceErrors")) == False && cond(cmdField(es, cmd, t, "SilenceErrors")) == False {
					emitPrint(es, "Stderr", mkConcat([]*Node{constStr("Error: "), mkFmt("%v", r), constStr("\n")}), in)
				}
				done = append(done, &Edge{cond: g, st: es})
				errs = append(errs, leaf{g, r})
			}
			cur = and(cur, not(bad))
			if cur == False {
				break
			}
		}
	}
	if cur != False {
		done = append(done, &Edge{cond: cur, st: cs})
		errs = append(errs, leaf{cur, nilNode})
	}
	c2, st2, _ := mergeEdges(done)
	if c2 == False {
		return opaque("noreturn"), False, st, terms, true
	}
	for i := range errs {
		errs[i].g = minimize(errs[i].g, c2)
	}
	r := choice(errs)
	if fn.Name() == "ExecuteC" {
		r = intern(OTuple, "", []*Node{sel, r}, nil, nil)
	}
	return r, c2, st2, terms, true
}

// commandTraits are the fields of a command that decide which command lines
// are accepted and how they are answered.
var commandTraits = []string{"DisableFlagParsing", "FParseErrWhitelist", "Args", "Hidden", "Deprecated", "Version", "Run", "RunE", "SilenceErrors"}

// describeCommand records a command with its traits and its sub commands.
func describeCommand(st *State, cmd, parent *Node, t types.Type, depth int) {
	if depth > 4 || !st.tracked(cmd) {
		panic(undecided("unknown sub commands"))
	}
	args := []*Node{cmd, parent, cmdField(st, cmd, t, "Use")}
	for _, f := range commandTraits {
		args = append(args, cmdField(st, cmd, t, f))
	}
	e := intern(OEvent, "command", args, nil, nil)
	e.pos = curPos
	addEvent(st, e)
	l := cmdField(st, cmd, t, "commands")
	if l == nilNode {
		return
	}
	subs, ok := staticItems(st.content(l))
	if !ok {
		panic(undecided("unknown sub commands"))
	}
	for _, s := range subs {
		describeCommand(st, s, cmd, t, depth+1)
	}
}
