package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Facts about the program domain that relate atoms to each other.  They are
// used only when two guards are compared.

var kindValues = []string{"SCALAR", "OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT"}

// memberKinds: which kinds of definition can have members in the given list.
var memberKinds = map[string][]string{
	"Fields":     {"OBJECT", "INTERFACE", "INPUT_OBJECT"},
	"EnumValues": {"ENUM"},
	"Types":      {"UNION"},
	"Interfaces": {"OBJECT", "INTERFACE"},
}

func namedOf(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

var theoryDepth int

const maxTheoryDepth = 3

// equivalent decides f == g under the domain facts.
func equivalent(f, g B, facts ...B) bool {
	if f == g {
		return true
	}
	return refute(xor(f, g), facts...)
}

// impliesT decides f => g under the domain facts.
func impliesT(f, g B, facts ...B) bool {
	d := and(f, not(g))
	if d == False {
		return true
	}
	return refute(d, facts...)
}

// refute reports whether d contradicts the domain facts.
func refute(d B, facts ...B) bool {
	if d == False {
		return true
	}
	for _, f := range facts {
		d = and(d, f)
		if d == False {
			return true
		}
	}
	if theoryDepth >= maxTheoryDepth {
		return false
	}
	theoryDepth++
	defer func() { theoryDepth-- }()
	seen := map[B]bool{}
	for round := 0; round < 4; round++ {
		ax := axioms(supportAtoms(d))
		progress := false
		for _, a := range ax {
			if a == True || seen[a] {
				continue
			}
			seen[a] = true
			nd := and(d, a)
			if nd != d {
				progress = true
				d = nd
			}
			if d == False {
				return true
			}
		}
		if !progress {
			break
		}
	}
	if theoryDepth == 1 {
		lastModel = d
	}
	return false
}

// lastModel: what was left of the last guard that could not be refuted.
var lastModel B

func collectNodes(atoms []*Node, f func(*Node)) {
	seen := map[*Node]bool{}
	var walk func(n *Node)
	walk = func(n *Node) {
		if seen[n] {
			return
		}
		seen[n] = true
		f(n)
		for _, a := range n.args {
			walk(a)
		}
		for _, c := range n.conds {
			for _, a := range supportAtoms(c) {
				walk(a)
			}
		}
	}
	for _, a := range atoms {
		walk(a)
	}
}

func closed(n *Node) bool { // no dangling bound variables
	for _, id := range n.fv {
		if strings.HasPrefix(nodes[id].sym, "B") {
			return false
		}
	}
	return true
}

func axioms(atoms []*Node) []B {
	var out []B
	av := func(n *Node) B { return bm.atomVar(n) }
	// 1. integer chains
	type ab struct{ a, b *Node }
	lts := map[ab][]*Node{}
	var abKeys []ab
	eqs := map[*Node][]*Node{} // term -> eq atoms with constants
	var eqKeys []*Node
	var neq []*Node // eq atoms between terms
	exs := map[*Node][]*Node{}
	var exKeys []*Node
	for _, n := range atoms {
		switch n.op {
		case OLt:
			k := ab{n.args[0], n.args[1]}
			if lts[k] == nil {
				abKeys = append(abKeys, k)
			}
			lts[k] = append(lts[k], n)
		case OEq:
			if n.args[1].isConst() {
				if eqs[n.args[0]] == nil {
					eqKeys = append(eqKeys, n.args[0])
				}
				eqs[n.args[0]] = append(eqs[n.args[0]], n)
			} else {
				neq = append(neq, n)
			}
		case OExists:
			if exs[n.args[0]] == nil {
				exKeys = append(exKeys, n.args[0])
			}
			exs[n.args[0]] = append(exs[n.args[0]], n)
		}
	}
	dOf := func(n *Node) int64 { d, _ := strconv.ParseInt(n.sym, 10, 64); return d }
	for _, k := range abKeys {
		l := append([]*Node{}, lts[k]...)
		sort.Slice(l, func(i, j int) bool { return dOf(l[i]) < dOf(l[j]) })
		for i := 0; i+1 < len(l); i++ {
			out = append(out, implies(av(l[i]), av(l[i+1])))
		}
		if k.a.op == OLen && k.b.isConst() {
			for _, n := range l {
				if dOf(n) >= 1 {
					out = append(out, implies(ltConst(k.a, 1), av(n)))
				}
			}
		}
	}
	// a < b+d is the same as not (b < a+1-d)
	for _, k := range abKeys {
		for _, n := range lts[ab{k.b, k.a}] {
			for _, m := range lts[k] {
				switch d, e := dOf(m), 1-dOf(n); {
				case d <= e:
					out = append(out, implies(av(m), not(av(n))))
					if d == e {
						out = append(out, or(av(m), av(n)))
					}
				case d > e:
					out = append(out, or(av(m), av(n)))
				}
			}
		}
	}
	// a<b+d chains against reversed / shared terms: a < b, b < c
	for _, k1 := range abKeys {
		for _, k2 := range abKeys {
			if k1.b == k2.a && !k1.b.isConst() && !k2.b.isConst() {
				for _, n1 := range lts[k1] {
					for _, n2 := range lts[k2] {
						// a < b+d1, b < c+d2  => a < c + d1+d2-1 (integers)
						out = append(out, implies(and(av(n1), av(n2)), ltB(k1.a, k2.b, dOf(n1)+dOf(n2)-1)))
					}
				}
			}
		}
	}
	out = append(out, languageFacts(atoms)...)
	// the order of strings is total
	for _, n := range atoms {
		if !isCall(n, "strlt") {
			continue
		}
		a, b := n.args[0], n.args[1]
		eq := eqB(a, b)
		out = append(out, not(and(av(n), eq)))
		for _, m := range atoms {
			switch {
			case !isCall(m, "strlt") || m == n:
			case m.args[0] == b && m.args[1] == a:
				out = append(out, not(and(av(n), av(m))), or(av(n), av(m), eq))
			case m.args[0] == b:
				out = append(out, implies(and(av(n), av(m)), strLt(a, m.args[1])))
			}
		}
	}
	// 2. constants exclude each other
	for _, t := range eqKeys {
		l := eqs[t]
		for i := range l {
			for j := i + 1; j < len(l); j++ {
				out = append(out, not(and(av(l[i]), av(l[j]))))
			}
		}
		if t.op == OField && t.sym == "Kind" && len(l) == len(kindValues) {
			r := False
			for _, n := range l {
				r = or(r, av(n))
			}
			out = append(out, r)
		}
		for _, n := range l {
			if s, ok := n.args[1].strVal(); ok {
				for _, k := range abKeys {
					if k.a.op == OLen && k.a.args[0] == t {
						for _, m := range lts[k] {
							if int64(len(s)) < dOf(m) {
								out = append(out, implies(av(n), av(m)))
							} else {
								out = append(out, implies(av(n), not(av(m))))
							}
						}
					}
				}
				// prefix/suffix tests on a term known to be a constant
				for _, m := range atoms {
					if m.op == OCall && len(m.args) == 2 && m.args[0] == t {
						if c, ok := m.args[1].strVal(); ok {
							var v, known bool
							switch m.sym {
							case "strings.HasPrefix":
								v, known = strings.HasPrefix(s, c), true
							case "strings.HasSuffix":
								v, known = strings.HasSuffix(s, c), true
							}
							if known {
								if v {
									out = append(out, implies(av(n), av(m)))
								} else {
									out = append(out, implies(av(n), not(av(m))))
								}
							}
						}
					}
				}
			}
		}
	}
	// equality between terms is transitive
	for _, n := range neq {
		a, b := n.args[0], n.args[1]
		cs := map[*Node]bool{}
		for _, m := range append(append([]*Node{}, eqs[a]...), eqs[b]...) {
			cs[m.args[1]] = true
		}
		for c := range cs {
			ea, eb := eqB(a, c), eqB(b, c)
			out = append(out, implies(av(n), iff(ea, eb)), implies(and(ea, eb), av(n)))
		}
		for _, m := range neq {
			if m == n {
				continue
			}
			for i := 0; i < 2; i++ {
				for j := 0; j < 2; j++ {
					if n.args[i] == m.args[j] {
						x, y := n.args[1-i], m.args[1-j]
						out = append(out, implies(and(av(n), av(m)), eqB(x, y)))
					}
				}
			}
		}
	}
	// 3. types
	typeTerms := map[*Node]bool{}
	for _, n := range atoms {
		if n.op == OEq {
			for _, a := range n.args {
				if a.op == OField && (a.sym == "NamedType") {
					typeTerms[a.args[0]] = true
				}
				if a.op == OCall && isTypeName(a.sym) {
					typeTerms[a.args[0]] = true
				}
			}
			if isTypeStr(n.args[0]) && isTypeStr(n.args[1]) {
				a, b := n.args[0].args[0], n.args[1].args[0]
				na, nb := cond(mkField(a, "NonNull", types.Typ[types.Bool])), cond(mkField(b, "NonNull", types.Typ[types.Bool]))
				ta, tb := mkField(a, "NamedType", types.Typ[types.String]), mkField(b, "NamedType", types.Typ[types.String])
				la, lb := eqB(ta, constStr("")), eqB(tb, constStr(""))
				same := and(iff(na, nb), iff(la, lb), eqB(ta, tb))
				out = append(out, implies(av(n), same))
				out = append(out, implies(and(same, not(la)), av(n)))
			}
		}
		if n.op == ONilP && n.args[0].op == OField && n.args[0].sym == "Elem" {
			typeTerms[n.args[0].args[0]] = true
		}
	}
	for _, k := range eqKeys {
		if !isTypeStr(k) {
			continue
		}
		for _, n := range eqs[k] {
			if c, ok := n.args[1].strVal(); ok {
				if is, ok := typeSpelled(k.args[0], c); ok {
					out = append(out, iff(av(n), is))
				}
			}
		}
	}
	for t := range typeTerms {
		if !closed(t) {
			continue
		}
		nt := mkField(t, "NamedType", types.Typ[types.String])
		el := mkField(t, "Elem", nil)
		isList := eqB(nt, constStr(""))
		out = append(out, iff(isList, not(nilB(el))))
		for _, k := range eqKeys {
			if k.op == OCall && isTypeName(k.sym) && k.args[0] == t {
				for _, n := range eqs[k] {
					c := n.args[1]
					out = append(out, implies(not(isList), iff(av(n), eqB(nt, c))))
				}
			}
		}
		for _, n := range eqs[nt] {
			if s, _ := n.args[1].strVal(); s != "" {
				out = append(out, implies(av(n), not(isList)))
				nm := intern(OCall, typeNameSym, []*Node{t}, nil, types.Typ[types.String])
				out = append(out, implies(av(n), eqB(nm, n.args[1])))
			}
		}
		// suffix tests on Name() versus NamedType
		for _, n := range atoms {
			if n.op == OCall && (n.sym == "strings.HasSuffix" || n.sym == "strings.HasPrefix") {
				x := n.args[0]
				if x.op == OCall && isTypeName(x.sym) && x.args[0] == t {
					o := cond(mkCall(n.sym, []*Node{nt, n.args[1]}, n.typ, nil))
					out = append(out, implies(not(isList), iff(av(n), o)))
				}
			}
		}
	}
	// 4. quantified atoms
	members := map[*Node][]*Node{} // domain -> known member terms
	seenM := map[*Node]bool{}
	collectNodes(atoms, func(n *Node) {
		if !closed(n) || seenM[n] {
			return
		}
		if n.op == OVar {
			if d := varDom[n]; d != nil {
				seenM[n] = true
				members[baseDom(d)] = append(members[baseDom(d)], n)
				if d.op == OPrefix {
					members[d.args[0]] = append(members[d.args[0]], n)
				}
				out = append(out, memberFacts(n, d)...)
			}
		}
		if n.op == OFirst || n.op == OLast {
			seenM[n] = true
			members[n.args[0]] = append(members[n.args[0]], n)
			v, o := open(n)
			ex := not(nilB(n))
			out = append(out, implies(ex, subst1B(o.conds[0], v, n)))
			for _, f := range memberFacts(n, n.args[0]) {
				out = append(out, implies(ex, f))
			}
		}
	})
	for _, d := range exKeys {
		for _, e := range exs[d] {
			v, o := open(e)
			for _, m := range members[d] {
				pres := True
				if m.op != OVar {
					pres = not(nilB(m))
				}
				out = append(out, implies(and(pres, subst1B(o.conds[0], v, m)), av(e)))
			}
			// prefix
			if d.op == OPrefix {
				w := freshVar("x", v.typ, d.args[0])
				out = append(out, implies(av(e), mkExists(w, d.args[0], subst1B(o.conds[0], v, w))))
			}
			for _, f := range memberFacts(v, d) {
				// facts about the owner follow from non-emptiness
				if !hasB(f, v) {
					out = append(out, implies(av(e), f))
				}
			}
			for _, e2 := range exs[d] {
				if e == e2 {
					continue
				}
				_, o2 := openWith(e2, v)
				if impliesT(o.conds[0], o2.conds[0]) {
					out = append(out, implies(av(e), av(e2)))
				}
			}
		}
	}
	return out
}

// typeSpelled: the type is the one with the given spelling.
func typeSpelled(t *Node, c string) (B, bool) {
	nn := cond(mkField(t, "NonNull", types.Typ[types.Bool]))
	if d, ok := strings.CutSuffix(c, "!"); ok {
		c = d
	} else {
		nn = not(nn)
	}
	nt := mkField(t, "NamedType", types.Typ[types.String])
	if d, ok := strings.CutPrefix(c, "["); ok {
		d, ok = strings.CutSuffix(d, "]")
		if !ok {
			return False, true
		}
		in, ok := typeSpelled(mkField(t, "Elem", t.typ), d)
		return and(nn, eqB(nt, constStr("")), in), ok
	}
	if c == "" || strings.ContainsAny(c, "[]! ") {
		return False, false
	}
	return and(nn, eqB(nt, constStr(c))), true
}

func openWith(n, v *Node) (*Node, *Node) {
	w, o := open(n)
	sub := map[*Node]*Node{w: v}
	cs := make([]B, len(o.conds))
	for i, c := range o.conds {
		cs[i] = substRawB(c, sub)
	}
	as := append([]*Node{}, o.args...)
	for i := 1; i < len(as); i++ {
		as[i] = substRaw(as[i], sub)
	}
	return v, &Node{op: o.op, sym: o.sym, args: as, conds: cs, typ: o.typ}
}

// memberFacts: what membership of m in d says about the owner of d.
func memberFacts(m, d *Node) []B {
	for d.op == OPrefix || d.op == OSlice || d.op == ORev || d.op == OSorted {
		d = d.args[0]
	}
	var out []B
	if d.op == OField && namedOf(d.args[0].typ) == "Definition" {
		if ks, ok := memberKinds[d.sym]; ok {
			k := mkField(d.args[0], "Kind", nil)
			r := False
			for _, c := range ks {
				r = or(r, eqB(k, constStr(c)))
			}
			out = append(out, r)
		}
	}
	return out
}

const typeNameSym = "(*github.com/vektah/gqlparser/v2/ast.Type).Name"

func isTypeName(s string) bool { return s == typeNameSym }
func isTypeStr(n *Node) bool {
	return n.op == OCall && n.sym == "(*github.com/vektah/gqlparser/v2/ast.Type).String"
}

// ---- canonical representatives of quantified nodes modulo the facts

var canonReg = map[string][]*Node{}

func canonKey(n *Node) string { return strconv.Itoa(int(n.op)) + "/" + strconv.Itoa(n.args[0].id) }

func canonExists(n *Node) *Node { return canonQ(n) }
func canonFL(n *Node) *Node     { return canonQ(n) }

var canonBusy int

func canonQ(n *Node) *Node {
	k := canonKey(n)
	for _, r := range canonReg[k] {
		if r == n {
			return n
		}
	}
	if canonBusy < 0 {
		canonBusy++
		defer func() { canonBusy-- }()
		v, o := open(n)
		for _, r := range canonReg[k] {
			_, o2 := openWith(r, v)
			if equivalent(o.conds[0], o2.conds[0]) {
				return r
			}
		}
	}
	canonReg[k] = append(canonReg[k], n)
	return n
}
