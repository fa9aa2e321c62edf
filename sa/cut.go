package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const pkgLexer = repoModule + "/cmd/linter/lexer"
const pkgLexerOrig = "github.com/vektah/gqlparser/v2/lexer"

var (
	lexTokenType types.Type
	lexEOFVal    *Node
)

func lexEOF() *Node {
	if lexEOFVal == nil {
		panic(undecided("the end-of-file token kind of the comment scanner was not found"))
	}
	return lexEOFVal
}

func initLexFacts(p *Program) {
	sp := p.byID[pkgLexer]
	if sp == nil {
		return
	}
	if t := sp.Type("Token"); t != nil {
		lexTokenType = t.Type()
	}
	if c := sp.Const("EOF"); c != nil {
		lexEOFVal = constNode(c.Value)
	}
}

// lexField is the field of the scanner that holds its source.
func lexCell(st *State, x *Node) *Node {
	c := st.load(x, nil)
	if c.op == OStruct && c.sym == "lexstate" {
		return c
	}
	return nil
}

// cutFn replaces calls that other obligations cover by what those establish.
// The comment scanner (decided by its own check against the parser's scanner)
// is a stream of tokens of its source; it reports no error on a document the
// parser accepted.
func cutFn(fn *ssa.Function, args []*Node, st *State) (*Node, bool) {
	if cutCommands {
		if n, ok := cutCmdFn(fn, args, st); ok {
			return n, true
		}
	}
	p := fnPkg(fn)
	if p != pkgLexer {
		return nil, false
	}
	recv := fn.Signature.Recv()
	if recv == nil {
		res := fn.Signature.Results()
		if fn.Name() == "New" && res.Len() == 1 && len(args) == 1 {
			s := structNode("lexstate", []*Node{freeze(args[0], st, 0), constInt(0)}, nil)
			t := res.At(0).Type()
			if _, ptr := t.Underlying().(*types.Pointer); ptr {
				r := newRef(t, "lexer")
				st.cells[r] = s
				return r, true
			}
			return s, true
		}
		return nil, false
	}
	if fn.Name() == "ReadToken" && len(args) == 1 {
		c := lexCell(st, args[0])
		if c == nil {
			return nil, false
		}
		pos := c.args[1]
		tok := mkCall("tok", []*Node{c.args[0], pos}, lexTokenType, nil)
		st.put(args[0], structNode("lexstate", []*Node{c.args[0], mkAdd(pos, constInt(1))}, nil))
		return intern(OTuple, "", []*Node{tok, nilNode}, nil, nil), true
	}
	if strings.HasPrefix(fn.String(), "(") {
		return nil, false
	}
	return nil, false
}

// cutCommands: while a command is analysed, rule functions and the comparison
// of two documents are single pure applications (their content is decided by
// the checks of the rules and of the comparison).
var cutCommands bool

func isDocPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && namedOf(p.Elem()) == "SchemaDocument"
}

func cutCmdFn(fn *ssa.Function, args []*Node, st *State) (*Node, bool) {
	if !strings.HasPrefix(fnPkg(rootFn(fn)), repoModule) || fn.Signature.Recv() != nil {
		return nil, false
	}
	ps, rs := fn.Signature.Params(), fn.Signature.Results()
	if rs.Len() != 1 {
		return nil, false
	}
	for i := 0; i < ps.Len(); i++ {
		if !isDocPtr(ps.At(i).Type()) {
			return nil, false
		}
	}
	et := elemType(rs.At(0).Type())
	if et == nil {
		return nil, false
	}
	as := make([]*Node, len(args))
	for i, a := range args {
		as[i] = stripIface(freeze(st.content(a), st, 0))
	}
	switch {
	case ps.Len() == 1 && namedOf(et) == "LintErrorWithMetadata":
		return mkCall("apply", append([]*Node{funcNode(fn)}, as...), rs.At(0).Type(), nil), true
	case ps.Len() == 2:
		p, ok := et.Underlying().(*types.Pointer)
		if ok && namedOf(p.Elem()) == "Change" || namedOf(et) == "Change" {
			r := mkCall("changes", as, rs.At(0).Type(), nil)
			e := intern(OEvent, "changes", []*Node{r}, nil, nil)
			e.pos = curPos
			addEvent(st, e)
			return r, true
		}
	}
	return nil, false
}

// ruleChoice: applying one of several rule functions to a document is one
// application of the choice.
func ruleChoice(f *Node, args []*Node, st *State) *Node {
	if !cutCommands {
		return nil
	}
	var first *Node
	for _, g := range f.args {
		fn, _ := g.aux.(*ssa.Function)
		if g.op != OFunc || fn == nil {
			return nil
		}
		r, ok := cutCmdFn(fn, args, st.clone())
		if !ok || !isCall(r, "apply") {
			return nil
		}
		if first == nil {
			first = r
		}
	}
	return mkCall("apply", append([]*Node{f}, first.args[1:]...), first.typ, nil)
}
