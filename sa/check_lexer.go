package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pkgRefLexer = pkgLexerOrig
)

func init() {
	checks["C23"] = checkFn{40, func(c *Check) { c.c23() }, "The scanner of the lint command and the scanner of the schema parser are run side by side over their SSA, with every helper inlined, from loop header to loop header (product construction). The relation between their states at each pair of program points is an inductive invariant found by optimistic partition refinement (affine equalities, equal texts, bounds, sets of possible bytes). Each pair of exits must agree on the token and the error; a comment, which the parser skips, must be yielded with its text and line."}
}

func flatten(v bval, t types.Type, name string, out map[string]bval) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		if a, ok := v.(bAgg); ok {
			for i := 0; i < st.NumFields(); i++ {
				flatten(a[i], st.Field(i).Type(), name+"."+st.Field(i).Name(), out)
			}
			return
		}
	}
	out[name] = v
}

func sameVal(f *facts, a, b bval) bool {
	switch x := a.(type) {
	case *tm:
		y, ok := b.(*tm)
		return ok && f.same(x, y)
	case bIface:
		y, ok := b.(bIface)
		return ok && types.Identical(x.t, y.t) && sameVal(f, x.v, y.v)
	case bAgg:
		y, ok := b.(bAgg)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(f, x[i], y[i]) {
				return false
			}
		}
		return true
	case bNil, bPtr, bool:
		return a == b
	}
	return false
}

func showVal(f *facts, v bval) string {
	switch x := v.(type) {
	case *tm:
		return f.norm(x).String()
	case bNil:
		return "nil"
	case bIface:
		return showVal(f, x.v)
	case bAgg:
		s := ""
		for _, y := range x {
			s += " " + showVal(f, y)
		}
		return "{" + s + "}"
	}
	return fmt.Sprint(v)
}

func (c *Check) c23() {
	e := &bisim{inPkg: map[*ssa.Package]bool{}, fns: map[*ssa.Function]bool{}}
	defer func() {
		for f := range e.fns {
			c.analysed[f.String()] = true
		}
	}()
	g := &prod{e: e, pairs: map[string]*bPair{}}
	var kinds [2]map[int64]string
	var start [2]*bState
	input := tmSym("Input", 's')
	for k, id := range []string{pkgRefLexer, pkgLexer} {
		p := prg.byID[id]
		if p == nil {
			panic(undecided("package " + id + " not found"))
		}
		e.inPkg[p] = true
		d := &bSide{pkg: p, eng: e, heads: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}}
		g.sides[k] = d
		kinds[k] = kindNames(p)
		d.entry = prg.fn(id, "Lexer.ReadToken")
		mk := prg.fn(id, "New")
		if d.entry == nil || mk == nil || len(mk.Params) != 1 {
			panic(undecided("the scanner of " + id + " has no New or ReadToken"))
		}
		d.runInit()
		d.recv = bPtr{"lexer", ""}
		st := &bState{side: d, mem: map[string]*bObj{}, f: newFacts(), steps: map[*ssa.BasicBlock]int{}}
		srcT := mk.Params[0].Type().Underlying().(*types.Pointer).Elem()
		src := bAgg{}
		ss := srcT.Underlying().(*types.Struct)
		for i := 0; i < ss.NumFields(); i++ {
			switch f := ss.Field(i); {
			case f.Name() == "Input":
				src = append(src, input)
			case isStringType(f.Type()):
				src = append(src, tmSym(f.Name(), 's'))
			default:
				src = append(src, tmSym(f.Name(), 'o'))
			}
		}
		st.mem["rigid:src"] = &bObj{src, srcT}
		d.prepare(mk)
		st.frames = []*bFrame{{fn: mk, block: mk.Blocks[0], env: map[ssa.Value]bval{mk.Params[0]: bPtr{"rigid:src", ""}}}}
		rs := e.run(st)
		if len(rs) != 1 || rs[0].exit != "return" {
			panic(undecided("New of " + id + " takes several paths"))
		}
		r := rs[0]
		switch v := r.ret[0].(type) {
		case bAgg:
			r.mem["lexer"] = &bObj{v, mk.Signature.Results().At(0).Type()}
		case bPtr:
			d.recv = v
		default:
			panic(undecided("New of " + id))
		}
		start[k] = r
	}
	g.rigid = []*tm{tmLen(input)}
	g.entry = func(k int, s *bState) *bState {
		d := g.sides[k]
		t := s.clone()
		d.prepare(d.entry)
		t.ret = nil
		t.exit = "entry"
		t.frames = []*bFrame{{fn: d.entry, block: d.entry.Blocks[0], env: map[ssa.Value]bval{d.entry.Params[0]: d.recv}}}
		return t
	}
	done := map[string]bool{}
	bad := func(b *bState, key, format string, a ...any) {
		at := prg.prog.Fset.Position(b.at)
		f := at.Filename
		if r, err := filepath.Rel(repoDir, f); err == nil && !strings.HasPrefix(r, "..") {
			f = r
		}
		key = fmt.Sprintf("%s:%d: %s", f, at.Line, key)
		if !done[key] {
			done[key] = true
			c.ob(false, key, "%s, when {%s}", fmt.Sprintf(format, a...), short(b.f.String()))
		}
	}
	good := map[string]bool{}
	okay := func(key string) {
		if !good[key] {
			good[key] = true
			c.ob(true, key, "")
		}
	}
	token := func(k int, s *bState) (map[string]bval, string, bval) {
		rt := g.sides[k].entry.Signature.Results()
		if len(s.ret) != 2 || rt.Len() != 2 {
			panic(undecided("ReadToken does not return a token and an error"))
		}
		m := map[string]bval{}
		flatten(s.ret[0], rt.At(0).Type(), "", m)
		kind := ""
		if t, ok := m[".Kind"].(*tm); ok {
			t = s.f.norm(t)
			if v, ok := t.isInt(); ok {
				kind = kinds[k][v]
			}
		}
		if kind == "" {
			panic(undecided("the kind of a token is not known at an exit"))
		}
		return m, kind, s.ret[1]
	}
	g.exits = func(a, b *bState) bool {
		a.f = b.f
		f := b.f
		switch {
		case a.exit == "panic" || b.exit == "panic":
			if a.exit != b.exit {
				bad(b, "panic", "the parser's scanner ends with %s, this scanner with %s", a.exit, b.exit)
			}
			return false
		case a.exit == "restart" && b.exit == "return":
			m, kind, err := token(1, b)
			lx := map[string]bval{}
			o := a.obj("lexer")
			flatten(o.v, o.t, "", lx)
			s0, ok1 := lx[".start"].(*tm)
			s1, ok2 := lx[".end"].(*tm)
			ln, ok3 := lx[".line"].(*tm)
			if !ok1 || !ok2 || !ok3 {
				panic(undecided("state of the parser's scanner"))
			}
			want := tmSlice(input, s0, s1)
			if kind != "Comment" || err != bval(bNil{}) {
				bad(b, "comment", "a comment is yielded as %s %s", kind, showVal(f, err))
				return false
			}
			if !sameVal(f, want, m[".Value"]) {
				bad(b, "comment text", "the text of a comment is %s instead of %s", showVal(f, m[".Value"]), want)
			}
			if !sameVal(f, ln, m[".Pos.Line"]) {
				bad(b, "comment line", "the line of a comment is %s instead of %s", showVal(f, m[".Pos.Line"]), ln)
			}
			okay("comment: text")
			okay("comment: line")
			return true
		case a.exit == "restart":
			bad(b, "comment skipped", "no token is yielded for a comment")
			return true
		case b.exit == "restart":
			bad(b, "token skipped", "a token is skipped")
			return false
		}
		ma, ka, ea := token(0, a)
		mb, kb, eb := token(1, b)
		if ka != kb {
			bad(b, "kind", "the parser's scanner yields %s, this scanner %s", ka, kb)
			return false
		}
		if !sameVal(f, ea, eb) {
			bad(b, ka+" error", "the parser's scanner ends with the error %s, this scanner with %s", showVal(f, ea), showVal(f, eb))
			return false
		}
		at := prg.prog.Fset.Position(a.at)
		for _, n := range sortedKeys(ma) {
			if n == ".Kind" {
				continue
			}
			if !sameVal(f, ma[n], mb[n]) {
				bad(b, ka+n, "%s of a %s is %s instead of %s", n[1:], ka, showVal(f, mb[n]), showVal(f, ma[n]))
				continue
			}
			okay(fmt.Sprintf("%s %s of the exit at %s:%d", ka, n[1:], filepath.Base(at.Filename), at.Line))
		}
		okay("kind and error of " + ka)
		_, noErr := ea.(bNil)
		return noErr && ka != "EOF" && ka != "Invalid"
	}
	g.arrive(g.entry(0, start[0]), g.entry(1, start[1]))
	g.explore()
	for _, p := range g.list {
		debugf("pair %d %s cand %d bytes %d\n", p.id, p.key, len(p.cand), len(p.cbyte))
		okay("pair " + short(p.key))
	}
	c.notes = append(c.notes, fmt.Sprintf("%d pairs of program points, %d explorations, %d joint paths", len(g.list), g.runs, g.paths))
}
