package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func isValueText(sym string) bool { return strings.HasSuffix(sym, "ast.Value).String") }

// mkCall builds a pure application, with the algebraic facts about the library
// functions this code base uses.
func mkCall(sym string, args []*Node, typ types.Type, aux any) *Node {
	for i, a := range args {
		if a.op == OChoice && liftable(sym, i) {
			i := i
			return lift(a, func(x *Node) *Node {
				as := append([]*Node{}, args...)
				as[i] = x
				return mkCall(sym, as, typ, aux)
			})
		}
	}
	if isValueText(sym) && args[0].op == ONil {
		return constStr("<nil>")
	}
	str := func(i int) (string, bool) {
		if i < len(args) {
			return args[i].strVal()
		}
		return "", false
	}
	b := func(v bool) *Node {
		if v {
			return boolNode(True)
		}
		return boolNode(False)
	}
	switch sym {
	case "strings.EqualFold":
		x, xo := str(0)
		y, yo := str(1)
		if xo && yo {
			return b(strings.EqualFold(x, y))
		}
		if args[0] == args[1] {
			return b(true)
		}
		// folding one side to lower case first changes nothing
		for i := range args {
			if args[i].op == OCall && (args[i].sym == "strings.ToLower" || args[i].sym == "strings.ToUpper") {
				args = append([]*Node{}, args...)
				args[i] = args[i].args[0]
				return mkCall(sym, args, typ, aux)
			}
		}
		if args[0].id > args[1].id || args[0].isConst() {
			if !(args[1].isConst()) {
				args = []*Node{args[1], args[0]}
			}
		}
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.TrimPrefix", "strings.TrimSuffix":
		x, xo := str(0)
		y, yo := str(1)
		if yo && y == "" && !strings.HasPrefix(sym, "strings.Trim") {
			return b(true)
		}
		if xo && yo {
			switch sym {
			case "strings.HasPrefix":
				return b(strings.HasPrefix(x, y))
			case "strings.HasSuffix":
				return b(strings.HasSuffix(x, y))
			case "strings.Contains":
				return b(strings.Contains(x, y))
			case "strings.TrimPrefix":
				return constStr(strings.TrimPrefix(x, y))
			case "strings.TrimSuffix":
				return constStr(strings.TrimSuffix(x, y))
			}
		}
	case "strings.TrimSpace":
		if x, ok := str(0); ok {
			return constStr(strings.TrimSpace(x))
		}
		if args[0].op == OCall && args[0].sym == sym {
			return args[0]
		}
	case "unicode.IsUpper", "unicode.IsLower", "unicode.IsLetter", "unicode.IsDigit", "unicode.IsNumber", "unicode.IsSpace":
		if k, ok := args[0].intVal(); ok {
			f := map[string]func(rune) bool{"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsLetter": unicode.IsLetter,
				"unicode.IsDigit": unicode.IsDigit, "unicode.IsNumber": unicode.IsNumber, "unicode.IsSpace": unicode.IsSpace}[sym]
			return boolNode(map[bool]B{true: True, false: False}[f(rune(k))])
		}
	case "unicode.ToUpper", "unicode.ToLower":
		if k, ok := args[0].intVal(); ok {
			if sym == "unicode.ToUpper" {
				return constInt(int64(unicode.ToUpper(rune(k))))
			}
			return constInt(int64(unicode.ToLower(rune(k))))
		}
	case "strings.ToUpper":
		if x, ok := str(0); ok {
			return constStr(strings.ToUpper(x))
		}
	case "strings.ToLower":
		if x, ok := str(0); ok {
			return constStr(strings.ToLower(x))
		}
	case "string":
		if args[0].op == OCall && args[0].sym == "bytes" {
			return args[0].args[0]
		}
	case "bytes":
		if args[0].op == OCall && args[0].sym == "string" {
			return args[0].args[0]
		}
	case "strings.Join":
		if items, ok := staticItems(args[0]); ok {
			var ps []*Node
			for i, it := range items {
				if i > 0 {
					ps = append(ps, args[1])
				}
				ps = append(ps, it)
			}
			return mkConcat(ps)
		}
	case "mapkey", "mapval":
		v := args[0]
		if v.op == OTuple && v.sym == "kv" {
			if sym == "mapkey" {
				return v.args[0]
			}
			return v.args[1]
		}
	case "mapget":
		if args[0].op == OMap || args[0].op == ONil || args[0].op == OChoice {
			var z *Node = nilNode
			if typ != nil {
				z = zero(typ)
			}
			v, _ := lookup(args[0], args[1], z)
			return v
		}
	case "mapok":
		if args[0].op == OMap || args[0].op == ONil || args[0].op == OChoice {
			_, ok := lookup(args[0], args[1], nilNode)
			return boolNode(ok)
		}
	case "(*regexp.Regexp).MatchString", "(*regexp.Regexp).Match":
		if args[1].op == OCall && args[1].sym == "bytes" {
			return mkCall("(*regexp.Regexp).MatchString", []*Node{args[0], args[1].args[0]}, typ, aux)
		}
	case "regexp":
		if p, ok := str(0); ok {
			if q := canonPattern(p); q != p {
				return mkCall(sym, []*Node{constStr(q)}, typ, aux)
			}
		}
	case "range":
		// the indices of a list
		if args[0].op == OLen && args[0].args[0].op != OPrefix {
			l := args[0].args[0]
			if !isStringType(l.typ) && l.op != OMapElems && !isMapType(l.typ) {
				v := freshVar("ix", elemType(l.typ), l)
				return mkList(mkFor(v, l, emit(True, mkIdx(v))), types.NewSlice(types.Typ[types.Int]))
			}
		}
	case "readall":
		// contents of an opened file
		if len(args) == 1 && args[0].op == OCall && args[0].sym == "open" {
			return mkCall("file", args[0].args, typ, nil)
		}
	}
	n := intern(OCall, sym, args, nil, typ)
	if n.aux == nil {
		n.aux = aux
	}
	return n
}

func liftable(sym string, i int) bool {
	if sym == "apply" && i == 0 && cutCommands {
		return false
	}
	if strings.HasPrefix(sym, "rec:") || sym == "apply" {
		return true
	}
	switch sym {
	case "zeros", "setidx", "strings.Join", "ext:merge":
		return false
	}
	return true
}

// ---- snapshots of heap references

// freeze replaces references created since mark by their contents.
func freeze(n *Node, st *State, mark int) *Node {
	if !n.hasRef {
		return n
	}
	return subst(n, freezeMap(st, mark, []*Node{n}, nil))
}

func freezeB(c B, st *State, mark int) B {
	if !refB(c) {
		return c
	}
	return substB(c, freezeMap(st, mark, nil, []B{c}))
}

func freezeMap(st *State, mark int, ns []*Node, bs []B) map[*Node]*Node {
	sub := map[*Node]*Node{}
	busy := map[*Node]bool{}
	var visit func(n *Node)
	seen := map[*Node]bool{}
	visit = func(n *Node) {
		if !n.hasRef || seen[n] {
			return
		}
		seen[n] = true
		if n.op == ORef {
			if k, ok := n.aux.(int); ok && k < mark {
				return
			}
			if busy[n] {
				return
			}
			busy[n] = true
			c, ok := st.cells[n]
			if !ok {
				sub[n] = opaque("lost reference")
				return
			}
			visit(c)
			c2 := c
			if c.hasRef {
				c2 = subst(c, sub)
			}
			switch {
			case isMapType(n.typ), isSliceType(n.typ):
				sub[n] = c2
			default:
				b := mkBox(c2)
				b.typ = n.typ
				b.pos = n.pos
				sub[n] = b
			}
			return
		}
		for _, a := range n.args {
			visit(a)
		}
		for _, c := range n.conds {
			for _, a := range supportAtoms(c) {
				visit(a)
			}
		}
	}
	for _, n := range ns {
		visit(n)
	}
	for _, b := range bs {
		for _, a := range supportAtoms(b) {
			visit(a)
		}
	}
	return sub
}

func snapAll(st *State, args []*Node) []*Node {
	out := make([]*Node, len(args))
	for i, a := range args {
		out[i] = freeze(st.content(a), st, 0)
	}
	return out
}

// ---- builtins

func (fr *Frame) builtin(st *State, name string, args []*Node, cc *ssa.CallCommon, in ssa.Instruction) *Node {
	switch name {
	case "append":
		a := st.content(args[0])
		b := emptyList
		if len(args) > 1 {
			b = st.content(args[1])
			if isStringType(cc.Args[1].Type()) {
				b = mkCall("bytes", []*Node{b}, cc.Args[0].Type(), nil)
			}
		}
		r := appendList(a, b)
		if r != emptyList && r.typ == nil {
			r.typ = cc.Args[0].Type()
		}
		if a.op == OChoice && a == r && r.typ == nil {
			r.typ = cc.Args[0].Type()
		}
		return r
	case "len":
		x := st.content(args[0])
		if _, ok := cc.Args[0].Type().Underlying().(*types.Pointer); ok {
			x = st.load(x, nil)
		}
		if isMapType(cc.Args[0].Type()) {
			return mkMapLen(x)
		}
		return mkLen(x)
	case "cap":
		return mkCall("cap", []*Node{st.content(args[0])}, types.Typ[types.Int], nil)
	case "copy":
		src := st.content(args[1])
		dst := st.content(args[0])
		if dst.op == OCall && dst.sym == "zeros" && dst.args[0] == mkLen(src) {
			fr.assignSlice(st, cc.Args[0], src)
		} else if dst == src {
		} else {
			fr.assignSlice(st, cc.Args[0], mkCall("copied", []*Node{dst, src}, dst.typ, nil))
		}
		return mkLen(src)
	case "delete":
		m := args[0]
		if c, ok := st.cells[m]; ok && m.op == ORef {
			st.cells[m] = mkCall("mapdel", []*Node{c, args[1]}, m.typ, nil)
		} else {
			addObs(st, "mutate", True, in.Pos(), m)
		}
		return nilNode
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			x := r
			lt := ltB(x, y, 0)
			if name == "min" {
				r = ifte(lt, x, y)
			} else {
				r = ifte(lt, y, x)
			}
		}
		return r
	case "print", "println":
		e := intern(OEvent, "builtin."+name, snapAll(st, args), nil, nil)
		addEvent(st, e)
		return nilNode
	case "ssa:wrapnilchk":
		return args[0]
	case "clear":
		fr.clearValue(st, args[0], cc)
		return nilNode
	case "recover":
		panic(undecided("recover is not modelled: " + pos(in.Pos())))
	}
	return opaque("builtin " + name)
}

func (fr *Frame) clearValue(st *State, x *Node, cc *ssa.CallCommon) {
	if x.op == ORef && isMapType(x.typ) {
		st.cells[x] = mkMap(nil, x.typ)
		return
	}
	fr.assignSlice(st, cc.Args[0], opaque("cleared"))
}

// mkMapLen: the number of distinct keys.
func mkMapLen(m *Node) *Node {
	if m.op == OChoice {
		return lift(m, mkMapLen)
	}
	if m.op == ONil || m.op == OMap && len(m.args) == 0 {
		return constInt(0)
	}
	if m.op == OMap {
		return intern(OCall, "maplen", []*Node{m}, nil, types.Typ[types.Int])
	}
	return mkLen(m)
}

// ---- library functions with a model

var pureExact = map[string]bool{
	"fmt.Sprint": true, "errors.New": true, "errors.Is": true, "errors.As": true, "errors.Unwrap": true, "errors.Join": true,
	"os.Getenv": false,
}

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "regexp": true, "path": true,
	"slices": true, "maps": true, "sort": true, "bytes": true, "math": true, "cmp": true, "regexp/syntax": true,
	"text/template": false, "reflect": true,
}

func isPure(fn *ssa.Function, name string) bool {
	if v, ok := pureExact[name]; ok {
		return v
	}
	if fn == nil {
		return name == "invoke:Error" || name == "invoke:String"
	}
	p := fnPkg(fn)
	if purePkgs[p] {
		return true
	}
	if p == "path/filepath" {
		switch fn.Name() {
		case "Glob", "Walk", "WalkDir", "Abs", "EvalSymlinks":
			return false
		}
		return true
	}
	if strings.HasPrefix(p, "github.com/vektah/gqlparser/v2/") {
		return true
	}
	return false
}

func fnPkg(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

func fullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (fr *Frame) external(st *State, c B, name string, fn *ssa.Function, args []*Node, cc *ssa.CallCommon, in ssa.Instruction) (*Node, B, *State, []*Edge) {
	if fn != nil {
		name = fullName(fn)
		if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 0 {
			return nilNode, c, st, nil
		}
	}
	as := snapAll(st, args)
	for i, a := range as {
		as[i] = stripIface(a)
	}
	var rt types.Type
	nres := 0
	if cc != nil {
		sig := cc.Signature()
		rt = resultType(sig)
		nres = sig.Results().Len()
	}
	mk := func(sym string, as []*Node) *Node {
		if nres <= 1 {
			if nres == 0 {
				return nilNode
			}
			return mkCall(sym, as, rt, nil)
		}
		var vs []*Node
		tup := rt.(*types.Tuple)
		for i := 0; i < nres; i++ {
			vs = append(vs, mkCall(sym+"#"+strconv.Itoa(i), as, tup.At(i).Type(), nil))
		}
		return intern(OTuple, "", vs, nil, nil)
	}
	switch name {
	case "os.Exit":
		return opaque("noreturn"), False, st, []*Edge{{kind: eTerm, cond: c, st: st.clone(), code: as[0], pos: in.Pos()}}
	case "log.Fatal", "log.Fatalf", "log.Fatalln":
		e := intern(OEvent, "stderr", as, nil, nil)
		s2 := st.clone()
		addEvent(s2, e)
		return opaque("noreturn"), False, st, []*Edge{{kind: eTerm, cond: c, st: s2, code: constInt(1), pos: in.Pos()}}
	}
	if name == "apply" {
		r := mk("apply", as)
		e := intern(OEvent, "call:apply", as, nil, nil)
		_ = e
		return r, c, st, nil
	}
	if r, ok := flagCall(st, fn, name, args, as, rt); ok {
		return r, c, st, nil
	}
	if isPure(fn, name) {
		if fn != nil && fn.Signature.Recv() == nil && (name == "regexp.Compile" || name == "regexp.MustCompile") {
			re := mkCall("regexp", as, rt, nil)
			if name == "regexp.Compile" {
				return intern(OTuple, "", []*Node{mkCall("regexp", as, rt.(*types.Tuple).At(0).Type(), nil), nilNode}, nil, nil), c, st, nil
			}
			return re, c, st, nil
		}
		r := mk(name, as)
		if fn != nil && fnPkg(fn) == "github.com/vektah/gqlparser/v2/parser" {
			st = st.clone()
			e := intern(OEvent, "call:parse", []*Node{r}, nil, nil)
			e.pos = in.Pos()
			addEvent(st, e)
		}
		return r, c, st, nil
	}
	st = st.clone()
	e := intern(OEvent, "call:"+name, as, nil, nil)
	e.pos = in.Pos()
	addEvent(st, e)
	return mk(name, as), c, st, nil
}

func stripIface(n *Node) *Node {
	if n.op == OChoice {
		return lift(n, stripIface)
	}
	if n.op == OCall && strings.HasPrefix(n.sym, "iface:") {
		return n.args[0]
	}
	return n
}

// flagCase restricts the analysis to command lines on which a flag is empty
// (not given) or not.
var flagCase = map[string]bool{}

var assumedNonEmpty = map[*Node]bool{}

func flagValue(name *Node, t types.Type) *Node {
	fv := mkCall("flag", []*Node{name}, t, nil)
	if s, ok := name.strVal(); ok {
		if given, ok := flagCase[s]; ok {
			if given {
				assumedNonEmpty[fv] = true
			} else {
				return zeroFlag(t)
			}
		}
	}
	return fv
}

func zeroFlag(t types.Type) *Node {
	if isSliceType(t) {
		return emptyList
	}
	return zero(t)
}

// flagCall models the registration and reading of command line flags.
func flagCall(st *State, fn *ssa.Function, name string, args, as []*Node, rt types.Type) (*Node, bool) {
	if fn == nil {
		return nil, false
	}
	p := fnPkg(fn)
	if p != "github.com/spf13/pflag" && p != "flag" {
		return nil, false
	}
	nm := fn.Name()
	base := strings.TrimSuffix(nm, "P")
	isVar := strings.HasSuffix(base, "Var")
	base = strings.TrimSuffix(base, "Var")
	off := 0
	if fn.Signature.Recv() != nil {
		off = 1
	}
	if strings.HasPrefix(nm, "Get") && len(args) == off+1 {
		return intern(OTuple, "", []*Node{flagValue(args[off], rt.(*types.Tuple).At(0).Type()), nilNode}, nil, nil), true
	}
	switch base {
	case "String", "Bool", "StringSlice", "StringArray", "Int", "Count":
	default:
		return nil, false
	}
	if isVar {
		off++
	}
	if len(args) <= off {
		return nil, false
	}
	t := types.Type(nil)
	sig := fn.Signature
	if isVar {
		pt := sig.Params().At(0).Type().(*types.Pointer)
		t = pt.Elem()
	} else {
		if sig.Results().Len() != 1 {
			return nil, false
		}
		t = sig.Results().At(0).Type().(*types.Pointer).Elem()
	}
	short := constStr("")
	def := off + 1
	if strings.HasSuffix(nm, "P") {
		short = args[off+1]
		def++
	}
	fv := flagValue(args[off], t)
	dv := nilNode
	if def < len(as) {
		dv = as[def]
	}
	set, usage := nilNode, nilNode
	if sig.Recv() != nil {
		set = args[0]
	}
	if def+1 < len(as) {
		usage = as[def+1]
	}
	e := intern(OEvent, "flag:"+base, []*Node{args[off], short, dv, set, usage}, nil, nil)
	e.pos = curPos
	addEvent(st, e)
	if isVar {
		st.put(args[off-1], fv)
		return nilNode, true
	}
	r := newRef(sig.Results().At(0).Type(), "flag")
	st.cells[r] = fv
	return r, true
}

// ---- printf

// format canonicalises a format string with its arguments to a concatenation.
func format(f *Node, items []*Node) (*Node, bool) {
	if f.op == OChoice {
		return lift(f, func(x *Node) *Node {
			r, ok := format(x, items)
			if !ok {
				return mkCall("sprintf", append([]*Node{x}, items...), types.Typ[types.String], nil)
			}
			return r
		}), true
	}
	s, ok := f.strVal()
	if !ok {
		return nil, false
	}
	var parts []*Node
	k := 0
	lit := ""
	flush := func() {
		if lit != "" {
			parts = append(parts, constStr(lit))
			lit = ""
		}
	}
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			lit += s[i : i+1]
			continue
		}
		j := i + 1
		for j < len(s) && strings.ContainsRune("+-# 0123456789.", rune(s[j])) {
			j++
		}
		if j >= len(s) {
			lit += s[i:]
			break
		}
		if s[j] == '%' {
			lit += "%"
			i = j
			continue
		}
		if s[j] == '[' || s[j] == '*' {
			return nil, false
		}
		verb := s[i : j+1]
		i = j
		if k >= len(items) {
			lit += "%!" + verb[len(verb)-1:] + "(MISSING)"
			continue
		}
		flush()
		if verb == "%w" {
			verb = "%v"
		}
		parts = append(parts, mkFmt(verb, items[k]))
		k++
	}
	flush()
	if k < len(items) {
		parts = append(parts, constStr("%!(EXTRA)"))
	}
	return mkConcat(parts), true
}

func (fr *Frame) fmtArgs(st *State, l *Node) ([]*Node, bool) {
	l = st.content(l)
	items, ok := staticItems(l)
	if !ok {
		return nil, false
	}
	out := make([]*Node, len(items))
	for i, it := range items {
		it = freeze(st.content(it), st, 0)
		out[i] = it
	}
	return out, true
}

// stringerOf applies String()/Error() methods of repo types used in %s/%v.
func (fr *Frame) sprint(st *State, f *Node, l *Node) *Node {
	items, ok := fr.fmtArgs(st, l)
	if !ok {
		return mkCall("sprintf*", []*Node{f, freeze(st.content(l), st, 0)}, types.Typ[types.String], nil)
	}
	r, ok := format(f, items)
	if !ok {
		return mkCall("sprintf", append([]*Node{f}, items...), types.Typ[types.String], nil)
	}
	return r
}

func (fr *Frame) sprintln(st *State, l *Node, sep, end string) *Node {
	items, ok := fr.fmtArgs(st, l)
	if !ok {
		return mkCall("sprint*", []*Node{freeze(st.content(l), st, 0)}, types.Typ[types.String], nil)
	}
	var ps []*Node
	for i, it := range items {
		if i > 0 && sep != "" {
			ps = append(ps, constStr(sep))
		}
		ps = append(ps, mkFmt("%v", it))
	}
	ps = append(ps, constStr(end))
	return mkConcat(ps)
}

func emitPrint(st *State, stream string, x *Node, in ssa.Instruction) {
	ev := func(t *Node) *Node {
		e := intern(OEvent, "print:"+stream, []*Node{t}, nil, nil)
		e.pos = in.Pos()
		return e
	}
	if !mentionsAny(x, isJoined) {
		addEvent(st, ev(x))
		return
	}
	st.trace = mkList(append(append([]*Node{}, segs(st.trace)...), printSegs(x, True, ev)...), nil)
}

func isJoined(n *Node) bool { return isCall(n, "concatall") || isCall(n, "strings.Join") }

// printSegs: printing the texts of a list joined together prints each of them.
func printSegs(x *Node, g B, ev func(*Node) *Node) []*Node {
	var out []*Node
	for _, l := range leaves(x) {
		g := and(g, l.g)
		if g == False {
			continue
		}
		var run []*Node
		flush := func() {
			if t := mkConcat(run); t != constStr("") {
				out = append(out, emit(g, ev(t)))
			}
			run = nil
		}
		ps := []*Node{l.v}
		if l.v.op == OConcat {
			ps = l.v.args
		}
		for i := 0; i < len(ps); i++ {
			p := ps[i]
			if isCall(p, "concatall") {
				flush()
				for _, s := range eachText(segs(p.args[0]), nil, ev) {
					out = append(out, guardSeg(g, s))
				}
				continue
			}
			if isCall(p, "strings.Join") && i+1 < len(ps) {
				// a, b, ... and then one more separator: each with a separator
				sep, ok := p.args[1].strVal()
				next, ok2 := ps[i+1].strVal()
				if ok && ok2 && sep != "" && strings.HasPrefix(next, sep) {
					flush()
					some := nonEmpty(p.args[0])
					for _, s := range eachText(segs(p.args[0]), constStr(sep), ev) {
						out = append(out, guardSeg(g, s))
					}
					rest := append([]*Node{}, ps[i+1:]...)
					out = append(out, printSegs(mkConcat(rest), and(g, not(some)), ev)...)
					rest[0] = constStr(next[len(sep):])
					out = append(out, printSegs(mkConcat(rest), and(g, some), ev)...)
					return append([]*Node{}, out...)
				}
			}
			run = append(run, p)
		}
		flush()
	}
	return out
}

func eachText(ss []*Node, sep *Node, ev func(*Node) *Node) []*Node {
	var out []*Node
	for _, s := range ss {
		switch s.op {
		case OEmit:
			t := s.args[0]
			if sep != nil {
				t = mkConcat([]*Node{t, sep})
			}
			out = append(out, printSegs(t, s.conds[0], ev)...)
		case OFor:
			w, o := open(s)
			out = append(out, mkForAll(w, s.args[0], eachText(bodySegs(o.args[1]), sep, ev))...)
		default:
			panic(undecided("text of " + short(s.String())))
		}
	}
	return out
}

func streamOf(w *Node) string {
	w = stripIface(w)
	if w.op == OParam && strings.HasPrefix(w.sym, "glob:os.") {
		return strings.TrimPrefix(w.sym, "glob:os.")
	}
	return ""
}

func errNode(msg *Node) *Node {
	return lift(msg, func(m *Node) *Node { return intern(OCall, "error", []*Node{m}, nil, nil) })
}

func (fr *Frame) intrinsic(st *State, fn *ssa.Function, args []*Node, cc *ssa.CallCommon, in ssa.Instruction) (*Node, bool) {
	name := fullName(fn)
	nret := intern(OTuple, "", []*Node{constInt(0), nilNode}, nil, nil)
	switch name {
	case "fmt.Sprintf":
		return fr.sprint(st, args[0], args[1]), true
	case "strconv.Itoa":
		return mkFmt("%d", args[0]), true
	case "fmt.Errorf":
		return errNode(fr.sprint(st, args[0], args[1])), true
	case "errors.New":
		return errNode(args[0]), true
	case "fmt.Sprint":
		if items, ok := fr.fmtArgs(st, args[0]); ok && len(items) == 1 {
			return mkFmt("%v", items[0]), true
		}
	case "fmt.Sprintln":
		return fr.sprintln(st, args[0], " ", "\n"), true
	case "fmt.Printf":
		emitPrint(st, "Stdout", fr.sprint(st, args[0], args[1]), in)
		return nret, true
	case "fmt.Println":
		emitPrint(st, "Stdout", fr.sprintln(st, args[0], " ", "\n"), in)
		return nret, true
	case "fmt.Print":
		emitPrint(st, "Stdout", fr.sprintln(st, args[0], "", ""), in)
		return nret, true
	case "fmt.Fprintf":
		if s := streamOf(args[0]); s != "" {
			emitPrint(st, s, fr.sprint(st, args[1], args[2]), in)
			return nret, true
		}
		if fr.builderWrite(st, args[0], func() *Node { return fr.sprint(st, args[1], args[2]) }) {
			return nret, true
		}
	case "fmt.Fprintln":
		if s := streamOf(args[0]); s != "" {
			emitPrint(st, s, fr.sprintln(st, args[1], " ", "\n"), in)
			return nret, true
		}
		if fr.builderWrite(st, args[0], func() *Node { return fr.sprintln(st, args[1], " ", "\n") }) {
			return nret, true
		}
	case "fmt.Fprint":
		if s := streamOf(args[0]); s != "" {
			emitPrint(st, s, fr.sprintln(st, args[1], "", ""), in)
			return nret, true
		}
		if fr.builderWrite(st, args[0], func() *Node { return fr.sprintln(st, args[1], "", "") }) {
			return nret, true
		}
	case "(*os.File).WriteString", "io.WriteString":
		if s := streamOf(args[0]); s != "" {
			emitPrint(st, s, args[1], in)
			return nret, true
		}
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString":
		if fr.builderWrite(st, args[0], func() *Node { return args[1] }) {
			return nret, true
		}
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		if fr.builderWrite(st, args[0], func() *Node { return convert(st, args[1], types.Typ[types.Int], types.Typ[types.String]) }) {
			if strings.HasSuffix(name, "WriteByte") {
				return nilNode, true
			}
			return nret, true
		}
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		if st.tracked(args[0]) {
			return st.load(args[0], nil), true
		}
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		if st.tracked(args[0]) {
			return mkLen(st.load(args[0], nil)), true
		}
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return nilNode, true
	case "strings.Compare", "cmp.Compare", "cmp.Less":
		var lt B
		switch b, _ := cc.Args[0].Type().Underlying().(*types.Basic); {
		case b == nil:
			return nil, false
		case b.Info()&types.IsString != 0:
			lt = strLt(args[0], args[1])
		case b.Info()&types.IsInteger != 0:
			lt = ltB(args[0], args[1], 0)
		default:
			return nil, false
		}
		if name == "cmp.Less" {
			return boolNode(lt), true
		}
		eq := eqB(args[0], args[1])
		return choice([]leaf{{and(lt, not(eq)), constInt(-1)}, {eq, constInt(0)}, {and(not(lt), not(eq)), constInt(1)}}), true
	case "sort.Slice", "sort.SliceStable":
		fr.sortSlice(st, args, cc, in, true)
		return nilNode, true
	case "sort.Strings", "slices.Sort", "sort.Ints":
		fr.sortTo(st, cc.Args[0], args[0], constStr("natural"), in)
		return nilNode, true
	case "slices.SortFunc", "slices.SortStableFunc":
		fr.sortSlice(st, args, cc, in, false)
		return nilNode, true
	case "sort.Sort", "sort.Stable":
		x := args[0]
		if x.op == OCall && strings.HasPrefix(x.sym, "iface:") {
			t := x.aux.(types.Type)
			fr.sortIface(st, x, t, cc, in)
			return nilNode, true
		}
	case "slices.Reverse":
		fr.assignSlice(st, cc.Args[0], mkRev(st.content(args[0])))
		return nilNode, true
	case "sort.StringsAreSorted":
		return mkCall(name, snapAll(st, args), types.Typ[types.Bool], nil), true
	case "slices.Clip", "slices.Grow":
		return st.content(args[0]), true
	case "slices.Clone":
		return st.content(args[0]), true
	case "slices.Sorted", "slices.Collect":
		x := args[0]
		if x.op == OList || x.op == OChoice || x.op == OCall && x.sym == "seq" {
			if x.op == OCall {
				x = x.args[0]
			}
			if name == "slices.Sorted" {
				return mkSorted(x, constStr("natural")), true
			}
			return x, true
		}
	case "maps.Keys", "maps.Values":
		m := st.content(args[0])
		mt := cc.Args[0].Type()
		d := mkMapElems(m)
		v := freshVar("kv", nil, d)
		var it *Node
		var et types.Type
		u := mt.Underlying().(*types.Map)
		if fn.Name() == "Keys" || name == "maps.Keys" {
			it, et = mapKey(v, mt), u.Key()
		} else {
			it, et = mapVal(v, mt), u.Elem()
		}
		l := mkList(mkFor(v, d, emit(True, it)), types.NewSlice(et))
		return mkCall("seq", []*Node{l}, nil, nil), true
	case "slices.Concat":
		if items, ok := staticItems(st.content(args[0])); ok {
			r := emptyList
			for _, it := range items {
				r = appendList(r, st.content(it))
			}
			return r, true
		}
	case "slices.Contains":
		l := st.content(args[0])
		v := freshVar("e", elemType(cc.Args[0].Type()), l)
		return boolNode(mkExists(v, l, eqB(v, args[1]))), true
	case "io.ReadAll", "io/ioutil.ReadAll":
		r := stripIface(args[0])
		r = freeze(r, st, 0)
		e := intern(OEvent, "call:readall", []*Node{r}, nil, nil)
		e.pos = in.Pos()
		addEvent(st, e)
		bt := types.NewSlice(types.Typ[types.Byte])
		return intern(OTuple, "", []*Node{mkCall("readall", []*Node{r}, bt, nil), mkCall("readerr", []*Node{r}, nil, nil)}, nil, nil), true
	case "os.Open":
		e := intern(OEvent, "call:open", args, nil, nil)
		e.pos = in.Pos()
		addEvent(st, e)
		sig := fn.Signature.Results()
		return intern(OTuple, "", []*Node{mkCall("open", args, sig.At(0).Type(), nil), mkCall("openerr", args, nil, nil)}, nil, nil), true
	case "os.ReadFile", "io/ioutil.ReadFile":
		e := intern(OEvent, "call:readfile", args, nil, nil)
		e.pos = in.Pos()
		addEvent(st, e)
		bt := types.NewSlice(types.Typ[types.Byte])
		f := mkCall("open", args, nil, nil)
		oe, re := mkCall("openerr", args, nil, nil), mkCall("readerr", []*Node{f}, nil, nil)
		err := ifte(nilB(oe), re, oe)
		return intern(OTuple, "", []*Node{mkCall("file", args, bt, nil), err}, nil, nil), true
	case "(*os.File).Close":
		e := intern(OEvent, "call:close", args, nil, nil)
		e.pos = in.Pos()
		addEvent(st, e)
		return mkCall("closeerr", args, nil, nil), true
	case "(*os.File).Name":
		if streamOf(args[0]) == "" && args[0].op == OCall && args[0].sym == "open" {
			return args[0].args[0], true
		}
	case "path/filepath.Glob":
		e := intern(OEvent, "call:glob", args, nil, nil)
		e.pos = in.Pos()
		addEvent(st, e)
		lt := types.NewSlice(types.Typ[types.String])
		return intern(OTuple, "", []*Node{mkCall("glob", args, lt, nil), mkCall("globerr", args, nil, nil)}, nil, nil), true
	}
	return nil, false
}

func (fr *Frame) builderWrite(st *State, a *Node, f func() *Node) bool {
	a = stripIface(a)
	if !st.tracked(a) {
		return false
	}
	if a.typ != nil {
		t := a.typ
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if !isBuilderType(t) {
			return false
		}
	}
	cur := st.load(a, nil)
	st.put(a, mkConcat([]*Node{cur, f()}))
	return true
}

// ---- sorting

func cmpVar(i int, t types.Type) *Node {
	n := intern(OParam, "cmp."+strconv.Itoa(i), nil, nil, nil)
	n.typ = t
	return n
}

// callPure evaluates a function value on arguments, for its result only.
func (fr *Frame) callPure(st *State, f *Node, args []*Node, sig *types.Signature, in ssa.Instruction) *Node {
	fn, _ := f.aux.(*ssa.Function)
	if fn == nil || len(fn.Blocks) == 0 {
		return opaque("unknown function value")
	}
	r, _, _, _ := fr.callFn(st.clone(), True, fn, f.args, args, nil, in)
	return r
}

func (fr *Frame) sortSlice(st *State, args []*Node, cc *ssa.CallCommon, in ssa.Instruction, byIndex bool) {
	base := cc.Args[0]
	if mi, ok := base.(*ssa.MakeInterface); ok {
		base = mi.X
	}
	l := fr.val(st, base)
	et := elemType(base.Type())
	a, b := cmpVar(0, et), cmpVar(1, et)
	f := args[1]
	var less *Node
	if f.op != OFunc && f.op != OClosure {
		less = opaque("unknown comparison")
	} else if byIndex {
		less = fr.callPure(st, f, []*Node{mkIdx(a), mkIdx(b)}, nil, in)
	} else {
		r := fr.callPure(st, f, []*Node{a, b}, nil, in)
		less = boolNode(ltB(r, constInt(0), 0))
	}
	fr.sortTo(st, base, l, less, in)
}

func (fr *Frame) sortIface(st *State, x *Node, t types.Type, cc *ssa.CallCommon, in ssa.Instruction) {
	m := ev.prog.LookupMethod(t, nil, "Less")
	l := x.args[0]
	et := elemType(t)
	if et == nil || m == nil {
		addObs(st, "mutate", True, in.Pos(), l)
		return
	}
	a, b := cmpVar(0, et), cmpVar(1, et)
	less := fr.callPure(st, funcNode(m), []*Node{st.content(l), mkIdx(a), mkIdx(b)}, nil, in)
	base := cc.Args[0]
	fr.sortTo(st, base, l, less, in)
}

func (fr *Frame) sortTo(st *State, v ssa.Value, l, less *Node, in ssa.Instruction) {
	for {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
			continue
		}
		break
	}
	if et := elemType(v.Type()); less.op != OConst && et != nil && naturalLess(less, et) {
		less = constStr("natural")
	}
	c := st.content(l)
	s := lift(c, func(x *Node) *Node { return mkSorted(x, less) })
	fr.assignSlice(st, v, s)
}

// naturalLess: the comparison of the elements themselves.
func naturalLess(less *Node, et types.Type) bool {
	u, _ := et.Underlying().(*types.Basic)
	if u == nil {
		return false
	}
	a, b := cmpVar(0, et), cmpVar(1, et)
	switch {
	case u.Info()&types.IsString != 0:
		return equivalent(cond(less), strLt(a, b))
	case u.Info()&types.IsInteger != 0:
		return equivalent(cond(less), ltB(a, b, 0))
	}
	return false
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
