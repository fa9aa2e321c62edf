package main

import (
	"fmt"
	"sort"
	"strings"
)

// A list value is flattened into rows: under which elements (one variable per
// enclosing list) and which guard an item is produced.

type row struct {
	vars  []*Node
	guard B
	item  *Node
}

var sharedVars = map[string]*Node{}

// sharedVar is the element variable for the k-th use of a list in a chain; the
// same for every list value, so that chains can be compared.
func sharedVar(dom *Node, k int) *Node {
	key := fmt.Sprintf("%d/%d", dom.id, k)
	if v := sharedVars[key]; v != nil {
		return v
	}
	v := freshVar("s", elemType(dom.typ), dom)
	sharedVars[key] = v
	return v
}

func orderFree(d *Node) *Node {
	for d.op == ORev || d.op == OSorted {
		d = d.args[0]
	}
	return bagDom(d)
}

func rowsOf(l *Node) []row {
	var out []row
	var walk func(s *Node, vars []*Node)
	walk = func(s *Node, vars []*Node) {
		switch s.op {
		case OEmit:
			for _, lf := range leaves(s.args[0]) {
				g := and(s.conds[0], lf.g)
				for _, v := range vars {
					// its list is not empty
					if a, pos, ok := literal(nonEmpty(varDom[v])); ok && pos {
						g = restrictAtom(g, a, true)
					}
				}
				if g = tidy(g); g != False {
					out = append(out, row{vars, g, lf.v})
				}
			}
		case OFor:
			dom := orderFree(s.args[0])
			k := 0
			for _, v := range vars {
				if varDom[v] == dom {
					k++
				}
			}
			if dom.op == OList || dom.op == OChoice || dom.op == ONil {
				// the elements of an ordered list are those of the list
				w, o := open(s)
				for _, x := range mkFor(w, dom, o.args[1]) {
					walk(x, vars)
				}
				return
			}
			if s.args[1].op == OList {
				// the order of what is produced for one element is of no account
				w, o := open(s)
				for _, b := range bodySegs(o.args[1]) {
					for _, x := range mkFor(w, dom, b) {
						walk(x, vars)
					}
				}
				return
			}
			v := sharedVar(dom, k)
			_, o := openWith(s, v)
			body := o.args[1]
			walk(body, append(append([]*Node{}, vars...), v))
		case OList:
			for _, x := range s.args {
				walk(x, vars)
			}
		case ONil:
		default:
			panic(undecided("unexpected list segment " + short(s.String())))
		}
	}
	for _, s := range segs(l) {
		walk(s, nil)
	}
	return out
}

func chainKey(vars []*Node) string {
	ids := make([]int, len(vars))
	for i, v := range vars {
		ids[i] = v.id
	}
	sort.Ints(ids)
	return fmt.Sprint(ids)
}

func chainText(vars []*Node) string {
	var p []string
	for _, v := range vars {
		p = append(p, fmt.Sprintf("%s in %s", v, varDom[v]))
	}
	return strings.Join(p, ", ")
}

func chainFacts(vars []*Node) []B {
	var out []B
	for _, v := range vars {
		out = append(out, memberFacts(v, varDom[v])...)
	}
	return out
}

// atLeast returns, for k = 1..n, the guard under which at least k of gs hold.
func atLeast(gs []B, n int) []B {
	t := make([]B, n+1)
	t[0] = True
	for i := 1; i <= n; i++ {
		t[i] = False
	}
	for _, g := range gs {
		for i := n; i >= 1; i-- {
			t[i] = or(t[i], and(g, t[i-1]))
		}
	}
	return t[1:]
}

// sameCount decides that the two collections of guards hold equally often.
func sameCount(a, b []B, facts []B) (bool, B) {
	n := max(len(a), len(b))
	ta, tb := atLeast(a, n), atLeast(b, n)
	for i := range ta {
		if !equivalent(ta[i], tb[i], facts...) {
			return false, xor(ta[i], tb[i])
		}
	}
	return true, False
}

func guardsOf(rs []row) []B {
	var out []B
	for _, r := range rs {
		out = append(out, r.guard)
	}
	return out
}

func orAll(rs []row) B {
	g := False
	for _, r := range rs {
		g = or(g, r.guard)
	}
	return g
}

// fieldOf reads a field of a struct-valued item.
func fieldOf(item *Node, name string) *Node {
	if item.op == OBox {
		item = item.args[0]
	}
	return mkField(item, name, nil)
}

func short(s string) string {
	if len(s) > 600 {
		return s[:600] + "…"
	}
	return s
}
