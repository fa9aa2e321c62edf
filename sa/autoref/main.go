// autoref DIR OUTFILE-LIST: applies one mechanical, behaviour-preserving
// transformation to every place of the non-test files of the module in DIR
// where it fits, and writes the files back.
//
//	autoref DIR TRANSFORM [FILE-SUFFIX]
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
)

var (
	info  *types.Info
	fset  *token.FileSet
	count int
	pkg   *types.Package
)

func fresh(s string) *ast.Ident { count++; return ast.NewIdent(fmt.Sprintf("%s%d", s, count)) }

func main() {
	dir, tr := os.Args[1], os.Args[2]
	suffix := ""
	if len(os.Args) > 3 {
		suffix = os.Args[3]
	}
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps, Dir: dir}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	total := 0
	for _, p := range ps {
		info, fset, pkg = p.TypesInfo, p.Fset, p.Types
		for _, f := range p.Syntax {
			name := fset.File(f.Pos()).Name()
			if !strings.HasPrefix(name, dir) || !strings.HasSuffix(name, suffix) {
				continue
			}
			newDecls = nil
			n := 0
			if strings.HasPrefix(tr, "forname") {
				n = forName(f, tr)
			} else {
				n = apply(f, tr)
			}
			f.Decls = append(f.Decls, newDecls...)
			if n == 0 {
				continue
			}
			total += n
			// comments are dropped: they have no place any more
			doc := f.Comments
			f.Comments = nil
			_ = doc
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					d.Doc = nil
				}
			}
			var b bytes.Buffer
			if err := format.Node(&b, fset, f); err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			if err := os.WriteFile(name, b.Bytes(), 0o644); err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
		}
	}
	fmt.Println(tr, total, "places")
	if total == 0 {
		os.Exit(3)
	}
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func define(l *ast.Ident, r ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.DEFINE, Rhs: []ast.Expr{r}}
}

func isSlice(e ast.Expr) bool {
	t := info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// stable: an expression that may be evaluated again.
func stable(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return stable(e.X)
	}
	return false
}

func neg(e ast.Expr) ast.Expr {
	if b, ok := e.(*ast.BinaryExpr); ok {
		m := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL}
		if o, ok := m[b.Op]; ok {
			return &ast.BinaryExpr{X: b.X, Op: o, Y: b.Y}
		}
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT {
		return u.X
	}
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

// leaves: there is a jump out of the statements, other than those inside of
// nested functions.
func jumps(n ast.Node, cont bool) bool {
	found := false
	var walk func(n ast.Node, loop, sw bool)
	walk = func(n ast.Node, loop, sw bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n {
				return true
			}
			switch m := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt:
				found = true
			case *ast.BranchStmt:
				switch {
				case m.Label != nil || m.Tok == token.GOTO:
					found = true
				case m.Tok == token.BREAK && !loop && !sw:
					found = true
				case m.Tok == token.CONTINUE && !loop && !cont:
					found = true
				}
			case *ast.ForStmt, *ast.RangeStmt:
				walk(m, true, true)
				return false
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				walk(m, loop, true)
				return false
			}
			return true
		})
	}
	walk(n, false, false)
	return found
}

func continueToReturn(n ast.Node) {
	var walk func(l []ast.Stmt)
	var one func(s ast.Stmt) ast.Stmt
	one = func(s ast.Stmt) ast.Stmt {
		switch s := s.(type) {
		case *ast.BranchStmt:
			if s.Tok == token.CONTINUE {
				return &ast.ReturnStmt{}
			}
		case *ast.BlockStmt:
			walk(s.List)
		case *ast.IfStmt:
			walk(s.Body.List)
			if s.Else != nil {
				s.Else = one(s.Else)
			}
		case *ast.SwitchStmt:
			walk(s.Body.List)
		case *ast.TypeSwitchStmt:
			walk(s.Body.List)
		case *ast.CaseClause:
			walk(s.Body)
		}
		return s
	}
	walk = func(l []ast.Stmt) {
		for i := range l {
			l[i] = one(l[i])
		}
	}
	walk(n.(*ast.BlockStmt).List)
}

func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch s := l[len(l)-1].(type) {
	case *ast.ReturnStmt, *ast.BranchStmt:
		return true
	case *ast.IfStmt:
		if e, ok := s.Else.(*ast.BlockStmt); ok {
			return terminates(s.Body.List) && terminates(e.List)
		}
	}
	return false
}

func declares(l []ast.Stmt) bool {
	for _, s := range l {
		switch s := s.(type) {
		case *ast.DeclStmt:
			return true
		case *ast.AssignStmt:
			if s.Tok == token.DEFINE {
				return true
			}
		}
	}
	return false
}

// apply rewrites all statement lists, innermost first.
func apply(f *ast.File, tr string) int {
	n := 0
	var list func(l []ast.Stmt, kind string) []ast.Stmt
	var inner func(s ast.Stmt)
	funcs := func(s ast.Node) {
		ast.Inspect(s, func(m ast.Node) bool {
			switch m := m.(type) {
			case *ast.FuncLit:
				m.Body.List = list(m.Body.List, "func")
				return false
			case *ast.BlockStmt:
				return m == s
			}
			return true
		})
	}
	inner = func(s ast.Stmt) {
		switch s := s.(type) {
		case *ast.BlockStmt:
			s.List = list(s.List, "")
		case *ast.IfStmt:
			if s.Init != nil {
				funcs(s.Init)
			}
			funcs(s.Cond)
			s.Body.List = list(s.Body.List, "")
			if s.Else != nil {
				inner(s.Else)
			}
		case *ast.ForStmt:
			s.Body.List = list(s.Body.List, "loop")
		case *ast.RangeStmt:
			s.Body.List = list(s.Body.List, "loop")
		case *ast.SwitchStmt:
			for _, c := range s.Body.List {
				c := c.(*ast.CaseClause)
				c.Body = list(c.Body, "")
			}
		case *ast.TypeSwitchStmt:
			for _, c := range s.Body.List {
				c := c.(*ast.CaseClause)
				c.Body = list(c.Body, "")
			}
		default:
			funcs(s)
		}
	}
	list = func(l []ast.Stmt, kind string) []ast.Stmt {
		for _, s := range l {
			inner(s)
		}
		var out []ast.Stmt
		for i := 0; i < len(l); i++ {
			s := l[i]
			var r []ast.Stmt
			ok := false
			if tr == "swap" {
				if i+1 < len(l) && swappable(s, l[i+1]) {
					r, ok = []ast.Stmt{l[i+1], s}, true
					i++
				}
			} else if tr == "nest" || tr == "nest-else" || tr == "unnest" {
				if tr == "unnest" {
					r, ok = unnest(s, kind, i == len(l)-1)
				} else {
					r, ok = nest(l, i, tr, kind)
					if ok {
						n++
						return append(out, r...)
					}
				}
			} else if kind == "" || kind == "loop" || kind == "func" {
				r, ok = one(s, tr, kind)
			}
			if ok {
				n++
				out = append(out, r...)
			} else {
				out = append(out, s)
			}
		}
		return out
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				if tr == "named" {
					n += named(d)
					continue
				}
				d.Body.List = list(d.Body.List, "func")
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				funcs(d)
			}
		}
	}
	return n
}

// nest: if c { …; continue } rest  ->  if !c { rest } or if c {…} else { rest }
func nest(l []ast.Stmt, i int, tr, kind string) ([]ast.Stmt, bool) {
	s, ok := l[i].(*ast.IfStmt)
	if !ok || s.Else != nil || i == len(l)-1 {
		return nil, false
	}
	b := s.Body.List
	last, ok := b[len(b)-1].(*ast.BranchStmt)
	rest := l[i+1:]
	if ok && last.Tok == token.CONTINUE && last.Label == nil && kind == "loop" {
		if len(b) == 1 && tr == "nest" && s.Init == nil {
			return []ast.Stmt{&ast.IfStmt{Cond: neg(s.Cond), Body: &ast.BlockStmt{List: rest}}}, true
		}
		if tr == "nest-else" {
			s.Body.List = b[:len(b)-1]
			s.Else = &ast.BlockStmt{List: rest}
			return []ast.Stmt{s}, true
		}
		return nil, false
	}
	if tr == "nest-else" && kind == "func" && terminates(b) && terminates(rest) {
		if _, isRet := b[len(b)-1].(*ast.ReturnStmt); isRet {
			s.Else = &ast.BlockStmt{List: rest}
			return []ast.Stmt{s}, true
		}
	}
	return nil, false
}

// swappable: two appends to the same list of things that do not use it.
func swappable(a, b ast.Stmt) bool {
	list := func(s ast.Stmt) (types.Object, *ast.CallExpr) {
		a, ok := s.(*ast.AssignStmt)
		if !ok || a.Tok != token.ASSIGN || len(a.Rhs) != 1 {
			return nil, nil
		}
		c, ok := a.Rhs[0].(*ast.CallExpr)
		if !ok || len(c.Args) != 2 {
			return nil, nil
		}
		f, _ := c.Fun.(*ast.Ident)
		v, _ := a.Lhs[0].(*ast.Ident)
		if f == nil || v == nil || f.Name != "append" {
			return nil, nil
		}
		return info.Uses[v], c
	}
	u, c := list(a)
	w, d := list(b)
	if u == nil || u != w {
		return false
	}
	ok := true
	for _, e := range []ast.Expr{c.Args[1], d.Args[1]} {
		ast.Inspect(e, func(m ast.Node) bool {
			if i, is := m.(*ast.Ident); is && info.Uses[i] == u {
				ok = false
			}
			return true
		})
	}
	return ok
}

// unnest: the last if of a loop body becomes a guard.
func unnest(s ast.Stmt, kind string, last bool) ([]ast.Stmt, bool) {
	f, ok := s.(*ast.IfStmt)
	if !ok || f.Else != nil || f.Init != nil || !last || kind != "loop" {
		return nil, false
	}
	g := &ast.IfStmt{Cond: neg(f.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}}
	return append([]ast.Stmt{g}, f.Body.List...), true
}

func named(d *ast.FuncDecl) int {
	r := d.Type.Results
	if r == nil || len(r.List) != 1 || len(r.List[0].Names) != 0 {
		return 0
	}
	bad := false
	ast.Inspect(d.Body, func(m ast.Node) bool {
		if _, ok := m.(*ast.FuncLit); ok {
			return false
		}
		return true
	})
	var walk func(l []ast.Stmt) []ast.Stmt
	var in func(s ast.Stmt) ast.Stmt
	n := 0
	in = func(s ast.Stmt) ast.Stmt {
		switch s := s.(type) {
		case *ast.BlockStmt:
			s.List = walk(s.List)
		case *ast.IfStmt:
			s.Body.List = walk(s.Body.List)
			if s.Else != nil {
				s.Else = in(s.Else)
			}
		case *ast.ForStmt:
			s.Body.List = walk(s.Body.List)
		case *ast.RangeStmt:
			s.Body.List = walk(s.Body.List)
		case *ast.SwitchStmt:
			for _, c := range s.Body.List {
				c := c.(*ast.CaseClause)
				c.Body = walk(c.Body)
			}
		}
		return s
	}
	walk = func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			if r, ok := s.(*ast.ReturnStmt); ok && len(r.Results) == 1 {
				n++
				out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id("result")}, Tok: token.ASSIGN, Rhs: r.Results}, &ast.ReturnStmt{Results: []ast.Expr{id("result")}})
				continue
			}
			out = append(out, in(s))
		}
		return out
	}
	d.Body.List = walk(d.Body.List)
	if bad {
		return 0
	}
	if n > 0 {
		r.List[0].Names = []*ast.Ident{id("result")}
	}
	return n
}

func one(s ast.Stmt, tr, kind string) ([]ast.Stmt, bool) {
	switch tr {
	case "range-index", "range-for", "range-while":
		r, ok := s.(*ast.RangeStmt)
		if !ok || r.Tok != token.DEFINE || r.Value == nil || !isSlice(r.X) {
			return nil, false
		}
		var pre []ast.Stmt
		x := r.X
		if !stable(x) {
			v := fresh("items")
			pre = append(pre, define(v, x))
			x = v
		}
		i, _ := r.Key.(*ast.Ident)
		if i == nil || i.Name == "_" {
			i = fresh("idx")
		}
		v := r.Value.(*ast.Ident)
		if v.Name == "_" {
			return nil, false
		}
		body := append([]ast.Stmt{define(v, &ast.IndexExpr{X: x, Index: i})}, r.Body.List...)
		if tr == "range-index" {
			return append(pre, &ast.RangeStmt{Key: i, Tok: token.DEFINE, X: x, Body: &ast.BlockStmt{List: body}}), true
		}
		n := &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{x}}
		less := &ast.BinaryExpr{X: i, Op: token.LSS, Y: n}
		inc := &ast.IncDecStmt{X: i, Tok: token.INC}
		if tr == "range-for" {
			return append(pre, &ast.ForStmt{Init: define(i, &ast.BasicLit{Kind: token.INT, Value: "0"}), Cond: less, Post: inc, Body: &ast.BlockStmt{List: body}}), true
		}
		// i starts before the first and is advanced first
		body = append([]ast.Stmt{body[0], inc}, body[1:]...)
		return append(pre, &ast.ForStmt{Init: define(i, &ast.BasicLit{Kind: token.INT, Value: "0"}), Cond: less, Body: &ast.BlockStmt{List: body}}), r.Key.(*ast.Ident).Name == "_"
	case "negate":
		f, ok := s.(*ast.IfStmt)
		if !ok || f.Else == nil {
			return nil, false
		}
		e, ok := f.Else.(*ast.BlockStmt)
		if !ok {
			e = &ast.BlockStmt{List: []ast.Stmt{f.Else}}
		}
		return []ast.Stmt{&ast.IfStmt{Init: f.Init, Cond: neg(f.Cond), Body: e, Else: f.Body}}, true
	case "cond-var":
		f, ok := s.(*ast.IfStmt)
		if !ok {
			return nil, false
		}
		v := fresh("cond")
		d := define(v, f.Cond)
		f.Cond = v
		if f.Init != nil {
			in := f.Init
			f.Init = nil
			return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{in, d, f}}}, !terminates([]ast.Stmt{f})
		}
		return []ast.Stmt{d, f}, true
	case "body-closure":
		r, ok := s.(*ast.RangeStmt)
		if !ok || jumps(r.Body, true) {
			return nil, false
		}
		continueToReturn(r.Body)
		r.Body.List = []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: r.Body.List}}}}}
		return []ast.Stmt{r}, true
	case "visit":
		r, ok := s.(*ast.RangeStmt)
		if !ok || r.Tok != token.DEFINE || r.Value == nil || jumps(r.Body, true) {
			return nil, false
		}
		if k, _ := r.Key.(*ast.Ident); k == nil || k.Name != "_" {
			return nil, false
		}
		v := r.Value.(*ast.Ident)
		t := typeExpr(info.TypeOf(v))
		if t == nil {
			return nil, false
		}
		continueToReturn(r.Body)
		f := fresh("visit")
		fn := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{v}, Type: t}}}}, Body: &ast.BlockStmt{List: r.Body.List}}
		w := fresh("elem")
		r.Value = w
		r.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: f, Args: []ast.Expr{w}}}}}
		return []ast.Stmt{define(f, fn), r}, true
	case "append-tmp":
		a, ok := s.(*ast.AssignStmt)
		if !ok || len(a.Rhs) != 1 {
			return nil, false
		}
		c, ok := a.Rhs[0].(*ast.CallExpr)
		if !ok || len(c.Args) != 2 {
			return nil, false
		}
		if f, _ := c.Fun.(*ast.Ident); f == nil || f.Name != "append" {
			return nil, false
		}
		v := fresh("item")
		d := define(v, c.Args[1])
		c.Args[1] = v
		return []ast.Stmt{d, a}, true
	case "append-loop":
		a, ok := s.(*ast.AssignStmt)
		if !ok || len(a.Rhs) != 1 {
			return nil, false
		}
		c, ok := a.Rhs[0].(*ast.CallExpr)
		if !ok || len(c.Args) != 2 || !c.Ellipsis.IsValid() {
			return nil, false
		}
		v := fresh("item")
		app := &ast.CallExpr{Fun: c.Fun, Args: []ast.Expr{c.Args[0], v}}
		return []ast.Stmt{&ast.RangeStmt{Key: id("_"), Value: v, Tok: token.DEFINE, X: c.Args[1], Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: a.Lhs, Tok: a.Tok, Rhs: []ast.Expr{app}}}}}}, true
	case "field-assign":
		a, ok := s.(*ast.AssignStmt)
		if !ok || len(a.Rhs) != 1 {
			return nil, false
		}
		var out []ast.Stmt
		split := func(e *ast.Expr) {
			u, _ := (*e).(*ast.UnaryExpr)
			lit, _ := (*e).(*ast.CompositeLit)
			if u != nil && u.Op == token.AND {
				lit, _ = u.X.(*ast.CompositeLit)
			}
			if lit == nil || len(lit.Elts) == 0 {
				return
			}
			for _, x := range lit.Elts {
				kv, ok := x.(*ast.KeyValueExpr)
				if !ok {
					return
				}
				if _, ok := kv.Key.(*ast.Ident); !ok {
					return
				}
			}
			if _, ok := info.TypeOf(lit).Underlying().(*types.Struct); !ok {
				return
			}
			v := fresh("made")
			elts := lit.Elts
			lit.Elts = nil
			out = append(out, define(v, *e))
			for _, x := range elts {
				kv := x.(*ast.KeyValueExpr)
				out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: v, Sel: kv.Key.(*ast.Ident)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
			}
			*e = v
		}
		if c, ok := a.Rhs[0].(*ast.CallExpr); ok {
			for i := range c.Args {
				split(&c.Args[i])
			}
		} else {
			split(&a.Rhs[0])
		}
		return append(out, a), len(out) > 0
	case "switch":
		f, ok := s.(*ast.IfStmt)
		if !ok || f.Else == nil || f.Init != nil || jumpsBreak(f) {
			return nil, false
		}
		body := &ast.BlockStmt{}
		for {
			body.List = append(body.List, &ast.CaseClause{List: []ast.Expr{f.Cond}, Body: f.Body.List})
			if e, ok := f.Else.(*ast.IfStmt); ok && e.Init == nil {
				f = e
				continue
			}
			if f.Else != nil {
				b := []ast.Stmt{f.Else}
				if e, ok := f.Else.(*ast.BlockStmt); ok {
					b = e.List
				}
				body.List = append(body.List, &ast.CaseClause{Body: b})
			}
			return []ast.Stmt{&ast.SwitchStmt{Body: body}}, true
		}
	case "if-chain":
		w, ok := s.(*ast.SwitchStmt)
		if !ok || w.Init != nil || jumpsBreak(w) {
			return nil, false
		}
		var def []ast.Stmt
		var first, last *ast.IfStmt
		var pre []ast.Stmt
		tag := w.Tag
		if tag != nil && !stable(tag) {
			v := fresh("tag")
			pre = append(pre, define(v, tag))
			tag = v
		}
		for _, c := range w.Body.List {
			c := c.(*ast.CaseClause)
			if c.List == nil {
				def = c.Body
				if def == nil {
					def = []ast.Stmt{}
				}
				continue
			}
			var cond ast.Expr
			for _, e := range c.List {
				var t ast.Expr = e
				if tag != nil {
					t = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: e}
				}
				if cond == nil {
					cond = t
				} else {
					cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: t}
				}
			}
			i := &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: c.Body}}
			if first == nil {
				first = i
			} else {
				last.Else = i
			}
			last = i
		}
		if first == nil {
			return nil, false
		}
		if def != nil {
			last.Else = &ast.BlockStmt{List: def}
		}
		return append(pre, first), true
	case "flip":
		n := 0
		flipIn(s, &n)
		return []ast.Stmt{s}, n > 0
	case "split-and":
		f, ok := s.(*ast.IfStmt)
		if !ok || f.Else != nil || f.Init != nil {
			return nil, false
		}
		b, ok := f.Cond.(*ast.BinaryExpr)
		if !ok || b.Op != token.LAND {
			return nil, false
		}
		return []ast.Stmt{&ast.IfStmt{Cond: b.X, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: f.Body}}}}}, true
	case "init-out":
		f, ok := s.(*ast.IfStmt)
		if !ok || f.Init == nil {
			return nil, false
		}
		i := f.Init
		f.Init = nil
		return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{i, f}}}, !terminates([]ast.Stmt{f})
	case "args-tmp":
		// arguments that are calls get names first
		var call *ast.CallExpr
		switch s := s.(type) {
		case *ast.ExprStmt:
			call, _ = s.X.(*ast.CallExpr)
		case *ast.AssignStmt:
			if len(s.Rhs) == 1 {
				call, _ = s.Rhs[0].(*ast.CallExpr)
			}
		case *ast.ReturnStmt:
			if len(s.Results) == 1 {
				call, _ = s.Results[0].(*ast.CallExpr)
			}
		}
		if call == nil {
			return nil, false
		}
		var pre []ast.Stmt
		for i, a := range call.Args {
			if c, ok := a.(*ast.CallExpr); ok {
				if tv, ok := info.Types[c]; !ok || tv.Value != nil || tv.IsVoid() {
					continue
				}
				if _, ok := info.TypeOf(c).(*types.Tuple); ok {
					return nil, false
				}
				v := fresh("arg")
				pre = append(pre, define(v, c))
				call.Args[i] = v
			}
		}
		return append(pre, s), len(pre) > 0
	case "iife":
		// a run of code without jumps becomes a function called at once
		f, ok := s.(*ast.IfStmt)
		if !ok || jumps(f.Body, false) || len(f.Body.List) == 0 {
			return nil, false
		}
		f.Body.List = []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: f.Body.List}}}}}
		return []ast.Stmt{f}, true
	case "cond-func":
		f, ok := s.(*ast.IfStmt)
		if !ok || f.Init != nil {
			return nil, false
		}
		v := fresh("test")
		fn := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: id("bool")}}}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{f.Cond}}}}}
		f.Cond = &ast.CallExpr{Fun: v}
		return []ast.Stmt{define(v, fn), f}, true
	case "dead":
		return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}}, s}, true
	case "count":
		// for k := 0 … with a copy of the list's length taken first
		r, ok := s.(*ast.RangeStmt)
		if !ok || r.Tok != token.DEFINE || r.Value == nil || !isSlice(r.X) {
			return nil, false
		}
		x, n, i := fresh("items"), fresh("n"), fresh("i")
		pre := []ast.Stmt{define(x, r.X), define(n, &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{x}})}
		body := []ast.Stmt{define(r.Value.(*ast.Ident), &ast.IndexExpr{X: x, Index: i})}
		if k := r.Key.(*ast.Ident); k.Name != "_" {
			body = append(body, define(k, i))
		}
		body = append(body, r.Body.List...)
		return append(pre, &ast.ForStmt{Init: define(i, &ast.BasicLit{Kind: token.INT, Value: "0"}), Cond: &ast.BinaryExpr{X: i, Op: token.NEQ, Y: n}, Post: &ast.IncDecStmt{X: i, Tok: token.INC}, Body: &ast.BlockStmt{List: body}}), true
	case "guard-len":
		r, ok := s.(*ast.RangeStmt)
		if !ok || !isSlice(r.X) || !stable(r.X) {
			return nil, false
		}
		zero := &ast.BasicLit{Kind: token.INT, Value: "0"}
		return []ast.Stmt{&ast.IfStmt{Cond: &ast.BinaryExpr{X: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{r.X}}, Op: token.GTR, Y: zero}, Body: &ast.BlockStmt{List: []ast.Stmt{r}}}}, true
	case "empty-lit", "make-cap":
		d, ok := s.(*ast.DeclStmt)
		if !ok {
			return nil, false
		}
		g := d.Decl.(*ast.GenDecl)
		if g.Tok != token.VAR || len(g.Specs) != 1 {
			return nil, false
		}
		v := g.Specs[0].(*ast.ValueSpec)
		if len(v.Names) != 1 || len(v.Values) != 0 || v.Type == nil {
			return nil, false
		}
		if _, ok := v.Type.(*ast.ArrayType); !ok {
			return nil, false
		}
		if tr == "empty-lit" {
			return []ast.Stmt{define(v.Names[0], &ast.CompositeLit{Type: v.Type})}, true
		}
		return []ast.Stmt{define(v.Names[0], &ast.CallExpr{Fun: id("make"), Args: []ast.Expr{v.Type, &ast.BasicLit{Kind: token.INT, Value: "0"}, &ast.BasicLit{Kind: token.INT, Value: "8"}}})}, true
	case "sprintf-plus":
		n := 0
		ast.Inspect(s, func(m ast.Node) bool {
			switch m := m.(type) {
			case *ast.BlockStmt, *ast.FuncLit:
				return false
			case *ast.KeyValueExpr:
				if e := plus(m.Value); e != nil {
					m.Value = e
					n++
				}
			case *ast.AssignStmt:
				for i := range m.Rhs {
					if e := plus(m.Rhs[i]); e != nil {
						m.Rhs[i] = e
						n++
					}
				}
			case *ast.CallExpr:
				for i := range m.Args {
					if e := plus(m.Args[i]); e != nil {
						m.Args[i] = e
						n++
					}
				}
			}
			return true
		})
		return []ast.Stmt{s}, n > 0
	case "extract", "extract-if":
		return extract(s, tr)
	case "rest-slice":
		// for rest := xs; len(rest) > 0; rest = rest[1:] { x := rest[0] … }
		r, ok := s.(*ast.RangeStmt)
		if !ok || r.Tok != token.DEFINE || r.Value == nil || !isSlice(r.X) || r.Key.(*ast.Ident).Name != "_" {
			return nil, false
		}
		x := fresh("rest")
		zero := &ast.BasicLit{Kind: token.INT, Value: "0"}
		body := append([]ast.Stmt{define(r.Value.(*ast.Ident), &ast.IndexExpr{X: x, Index: zero})}, r.Body.List...)
		return []ast.Stmt{&ast.ForStmt{Init: define(x, r.X), Cond: &ast.BinaryExpr{X: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{x}}, Op: token.GTR, Y: zero},
			Post: &ast.AssignStmt{Lhs: []ast.Expr{x}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.SliceExpr{X: x, Low: &ast.BasicLit{Kind: token.INT, Value: "1"}}}}, Body: &ast.BlockStmt{List: body}}}, true
	}
	return nil, false
}

// plus: a formatted text of strings as a sum.
func plus(e ast.Expr) ast.Expr {
	c, ok := e.(*ast.CallExpr)
	if !ok || len(c.Args) == 0 {
		return nil
	}
	f, ok := c.Fun.(*ast.SelectorExpr)
	if !ok || f.Sel.Name != "Sprintf" {
		return nil
	}
	l, ok := c.Args[0].(*ast.BasicLit)
	if !ok || strings.Contains(l.Value, "%%") {
		return nil
	}
	parts := strings.Split(strings.Trim(l.Value, "\""), "%")
	if len(parts) != len(c.Args) {
		return nil
	}
	lit := func(s string) ast.Expr { return &ast.BasicLit{Kind: token.STRING, Value: "\"" + s + "\""} }
	sum := lit(parts[0])
	for i, a := range c.Args[1:] {
		p := parts[i+1]
		b, _ := info.TypeOf(a).Underlying().(*types.Basic)
		if b == nil || b.Kind() != types.String || len(p) == 0 || p[0] != 's' {
			return nil
		}
		if _, named := info.TypeOf(a).(*types.Named); named {
			a = &ast.CallExpr{Fun: id("string"), Args: []ast.Expr{a}}
		}
		sum = &ast.BinaryExpr{X: sum, Op: token.ADD, Y: a}
		if len(p) > 1 {
			sum = &ast.BinaryExpr{X: sum, Op: token.ADD, Y: lit(p[1:])}
		}
	}
	return sum
}

var newDecls []ast.Decl

func qualify(p *types.Package) string {
	if p == pkg {
		return ""
	}
	return p.Name()
}

func parsed(text string) ast.Decl {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", "package x\n"+text, 0)
	if err != nil {
		panic(err)
	}
	clear := func(n ast.Node) bool { return true }
	ast.Inspect(f, clear)
	return f.Decls[0]
}

var forNameText = map[string]string{
	"forname-while": `func %[1]s(list %[2]s, name string) %[3]s {
	i := 0
	for i < len(list) && list[i].Name != name {
		i++
	}
	if i == len(list) {
		return nil
	}
	return list[i]
}`,
	"forname-index": `func %[1]s(list %[2]s, name string) %[3]s {
	at := -1
	for i := range list {
		if list[i].Name == name {
			at = i
			break
		}
	}
	if at < 0 {
		return nil
	}
	return list[at]
}`,
	"forname-slices": `func %[1]s(list %[2]s, name string) %[3]s {
	if i := slices.IndexFunc(list, func(x %[3]s) bool { return x.Name == name }); i >= 0 {
		return list[i]
	}
	return nil
}`,
	"forname-filter": `func %[1]s(list %[2]s, name string) %[3]s {
	var same %[2]s
	for _, x := range list {
		if x.Name == name {
			same = append(same, x)
		}
	}
	if len(same) == 0 {
		return nil
	}
	return same[0]
}`,
	"forname-set": `func %[1]s(list %[2]s, name string) (found %[3]s) {
	byName := map[string]int{}
	for i, x := range list {
		if _, ok := byName[x.Name]; ok {
			continue
		}
		byName[x.Name] = i
	}
	if i, ok := byName[name]; ok {
		found = list[i]
	}
	return
}`,
}

// forName: look-ups by name with a function of this package.
func forName(f *ast.File, tr string) int {
	n := 0
	made := map[string]*ast.Ident{}
	imported := false
	ast.Inspect(f, func(m ast.Node) bool {
		c, ok := m.(*ast.CallExpr)
		if !ok || len(c.Args) != 1 {
			return true
		}
		s, ok := c.Fun.(*ast.SelectorExpr)
		if !ok || s.Sel.Name != "ForName" || !isSlice(s.X) {
			return true
		}
		lt := info.TypeOf(s.X)
		if tr == "forname-generic" {
			e := typeExpr(lt.Underlying().(*types.Slice).Elem())
			if made[""] == nil {
				made[""] = fresh("find")
				newDecls = append(newDecls, parsed("func "+made[""].Name+`[E any](list []E, same func(E) bool) E {
	for _, x := range list {
		if same(x) {
			return x
		}
	}
	var none E
	return none
}`))
			}
			same := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{id("x")}, Type: e}}}, Results: &ast.FieldList{List: []*ast.Field{{Type: id("bool")}}}},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{&ast.BinaryExpr{X: &ast.SelectorExpr{X: id("x"), Sel: id("Name")}, Op: token.EQL, Y: c.Args[0]}}}}}}
			c.Args = []ast.Expr{s.X, same}
			c.Fun = made[""]
			n++
			return true
		}
		if text := forNameText[tr]; text != "" {
			l, e := types.TypeString(lt, qualify), types.TypeString(lt.Underlying().(*types.Slice).Elem(), qualify)
			if made[l] == nil {
				made[l] = fresh("find")
				newDecls = append(newDecls, parsed(fmt.Sprintf(text, made[l].Name, l, e)))
				if strings.Contains(text, "slices.") && !imported {
					imported = true
					f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: "\"slices\""}}}}}, f.Decls...)
				}
			}
			c.Args = append([]ast.Expr{s.X}, c.Args...)
			c.Fun = made[l]
			n++
			return true
		}
		t, e := typeExpr(lt), typeExpr(lt.Underlying().(*types.Slice).Elem())
		key := lt.String()
		h := made[key]
		if h == nil {
			h = fresh("find")
			made[key] = h
			x, list, name := id("x"), id("list"), id("name")
			same := &ast.BinaryExpr{X: &ast.SelectorExpr{X: x, Sel: id("Name")}, Op: token.EQL, Y: name}
			var body []ast.Stmt
			loop := func(b ...ast.Stmt) ast.Stmt {
				return &ast.RangeStmt{Key: id("_"), Value: x, Tok: token.DEFINE, X: list, Body: &ast.BlockStmt{List: b}}
			}
			set := func(l, r ast.Expr) ast.Stmt {
				return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{r}}
			}
			varOf := func(n string, t ast.Expr) ast.Stmt {
				return &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(n)}, Type: t}}}}
			}
			ret := func(e ast.Expr) ast.Stmt { return &ast.ReturnStmt{Results: []ast.Expr{e}} }
			then := func(c ast.Expr, b ...ast.Stmt) ast.Stmt {
				return &ast.IfStmt{Cond: c, Body: &ast.BlockStmt{List: b}}
			}
			switch tr {
			case "forname-return":
				body = []ast.Stmt{loop(then(same, ret(x))), ret(id("nil"))}
			case "forname-break":
				body = []ast.Stmt{varOf("found", e), loop(then(same, set(id("found"), x), &ast.BranchStmt{Tok: token.BREAK})), ret(id("found"))}
			case "forname-first":
				body = []ast.Stmt{varOf("found", e), loop(then(&ast.BinaryExpr{X: same, Op: token.LAND, Y: &ast.BinaryExpr{X: id("found"), Op: token.EQL, Y: id("nil")}}, set(id("found"), x))), ret(id("found"))}
			case "forname-map":
				mt := &ast.MapType{Key: id("string"), Value: e}
				at := func(k ast.Expr) ast.Expr { return &ast.IndexExpr{X: id("byName"), Index: k} }
				nm := &ast.SelectorExpr{X: x, Sel: id("Name")}
				body = []ast.Stmt{define(id("byName"), &ast.CallExpr{Fun: id("make"), Args: []ast.Expr{mt}}),
					loop(then(&ast.BinaryExpr{X: at(nm), Op: token.EQL, Y: id("nil")}, set(at(nm), x))), ret(at(name))}
			}
			newDecls = append(newDecls, &ast.FuncDecl{Name: h, Type: &ast.FuncType{
				Params:  &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{list}, Type: t}, {Names: []*ast.Ident{name}, Type: id("string")}}},
				Results: &ast.FieldList{List: []*ast.Field{{Type: e}}}}, Body: &ast.BlockStmt{List: body}})
		}
		c.Args = append([]ast.Expr{s.X}, c.Args...)
		c.Fun = h
		n++
		return true
	})
	return n
}

func use(v *types.Var) *ast.Ident {
	i := ast.NewIdent(v.Name())
	info.Uses[i] = v
	return i
}

// extract: the body of a loop (or of an if) becomes a function of the package.
func extract(s ast.Stmt, tr string) ([]ast.Stmt, bool) {
	var body *ast.BlockStmt
	switch s := s.(type) {
	case *ast.RangeStmt:
		if tr != "extract" || s.Tok != token.DEFINE {
			return nil, false
		}
		body = s.Body
	case *ast.IfStmt:
		if tr != "extract-if" {
			return nil, false
		}
		body = s.Body
	default:
		return nil, false
	}
	if jumps(body, tr == "extract") || len(body.List) == 0 {
		return nil, false
	}
	defs := map[types.Object]bool{}
	ast.Inspect(body, func(m ast.Node) bool {
		if i, ok := m.(*ast.Ident); ok && info.Defs[i] != nil {
			defs[info.Defs[i]] = true
		}
		return true
	})
	local := func(e ast.Expr) *types.Var {
		i, ok := e.(*ast.Ident)
		if !ok {
			return nil
		}
		v, _ := info.Uses[i].(*types.Var)
		if v == nil || v.IsField() || v.Parent() == nil || v.Parent() == pkg.Scope() || v.Parent() == types.Universe || defs[v] {
			return nil
		}
		return v
	}
	var free []*types.Var
	seen := map[*types.Var]bool{}
	set := map[*types.Var]bool{}
	bad := false
	ast.Inspect(body, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.Ident:
			if v := local(m); v != nil && !seen[v] {
				seen[v] = true
				free = append(free, v)
			}
		case *ast.AssignStmt:
			if m.Tok != token.DEFINE {
				for _, l := range m.Lhs {
					if v := local(l); v != nil {
						set[v] = true
					}
				}
			} else {
				for _, l := range m.Lhs {
					if v := local(l); v != nil && v.Name() != "_" {
						set[v] = true
					}
				}
			}
		case *ast.IncDecStmt:
			if v := local(m.X); v != nil {
				set[v] = true
			}
		case *ast.UnaryExpr:
			if m.Op == token.AND && local(m.X) != nil {
				bad = true
			}
		}
		return true
	})
	if bad || len(set) > 1 {
		return nil, false
	}
	params := &ast.FieldList{}
	call := &ast.CallExpr{}
	for _, v := range free {
		t := typeExpr(v.Type())
		if t == nil {
			return nil, false
		}
		params.List = append(params.List, &ast.Field{Names: []*ast.Ident{id(v.Name())}, Type: t})
		call.Args = append(call.Args, use(v))
	}
	name := fresh("helper")
	call.Fun = name
	ft := &ast.FuncType{Params: params}
	list := body.List
	if tr == "extract" {
		continueToReturn(body)
	}
	if len(set) == 1 {
		for v := range set {
			ft.Results = &ast.FieldList{List: []*ast.Field{{Type: typeExpr(v.Type())}}}
			fillReturns(list, v.Name())
			list = append(list, &ast.ReturnStmt{Results: []ast.Expr{id(v.Name())}})
			body.List = []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{use(v)}, Tok: token.ASSIGN, Rhs: []ast.Expr{call}}}
		}
	} else {
		body.List = []ast.Stmt{&ast.ExprStmt{X: call}}
	}
	newDecls = append(newDecls, &ast.FuncDecl{Name: name, Type: ft, Body: &ast.BlockStmt{List: list}})
	return []ast.Stmt{s}, true
}

func fillReturns(l []ast.Stmt, v string) {
	for _, s := range l {
		ast.Inspect(s, func(m ast.Node) bool {
			switch m := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt:
				if len(m.Results) == 0 {
					m.Results = []ast.Expr{id(v)}
				}
			}
			return true
		})
	}
}

func jumpsBreak(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.FuncLit, *ast.ForStmt, *ast.RangeStmt:
			return false
		case *ast.BranchStmt:
			if m.Tok == token.BREAK || m.Tok == token.FALLTHROUGH {
				found = true
			}
		}
		return true
	})
	return found
}

func flipIn(s ast.Stmt, n *int) {
	flip := func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.BinaryExpr:
			back := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
			if o, ok := back[m.Op]; ok {
				m.X, m.Y, m.Op = m.Y, m.X, o
				*n++
			}
		}
		return true
	}
	switch s := s.(type) {
	case *ast.IfStmt:
		ast.Inspect(s.Cond, flip)
		if e, ok := s.Else.(*ast.IfStmt); ok {
			flipIn(e, n)
		}
	case *ast.ReturnStmt, *ast.AssignStmt:
		ast.Inspect(s, flip)
	}
}

func typeExpr(t types.Type) ast.Expr {
	switch t := t.(type) {
	case *types.Basic:
		return id(t.Name())
	case *types.Pointer:
		if e := typeExpr(t.Elem()); e != nil {
			return &ast.StarExpr{X: e}
		}
	case *types.Named:
		o := t.Obj()
		if t.TypeArgs().Len() > 0 {
			return nil
		}
		if o.Pkg() == nil || o.Pkg() == pkg {
			return id(o.Name())
		}
		return &ast.SelectorExpr{X: id(o.Pkg().Name()), Sel: id(o.Name())}
	case *types.Slice:
		if e := typeExpr(t.Elem()); e != nil {
			return &ast.ArrayType{Elt: e}
		}
	}
	return nil
}
