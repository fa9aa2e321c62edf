package main

import (
	"go/types"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"
)

// Tests of a string against constant patterns are memberships in regular
// languages; which combinations of them are possible is decided by the product
// of their automata.

// canonPattern rewrites a pattern to a canonical spelling.
func canonPattern(p string) string {
	re, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return p
	}
	s := re.Simplify().String()
	if _, err := regexp.Compile(s); err != nil {
		return p
	}
	return s
}

// patternOf: the pattern of a compiled regular expression.
func patternOf(n *Node) (string, bool) {
	if !isCall(n, "regexp") || len(n.args) == 0 {
		return "", false
	}
	return n.args[0].strVal()
}

// matchLen: the length of the result of a search with sub matches.
func matchLen(x *Node) *Node {
	if x.op != OCall || !strings.HasPrefix(x.sym, "(*regexp.Regexp).Find") || len(x.args) != 2 {
		return nil
	}
	k := 0
	p, ok := patternOf(x.args[0])
	if !ok {
		return nil
	}
	re, err := regexp.Compile(p)
	if err != nil {
		return nil
	}
	switch strings.TrimPrefix(x.sym, "(*regexp.Regexp).") {
	case "FindStringSubmatch", "FindSubmatch":
		k = re.NumSubexp() + 1
	case "FindStringSubmatchIndex", "FindSubmatchIndex":
		k = 2 * (re.NumSubexp() + 1)
	case "FindStringIndex", "FindIndex":
		k = 2
	default:
		return nil
	}
	return ifte(matchB(x.args[0], x.args[1]), constInt(int64(k)), constInt(0))
}

func matchB(re, s *Node) B {
	return cond(mkCall("(*regexp.Regexp).MatchString", []*Node{re, s}, types.Typ[types.Bool], nil))
}

// nameLang: what the parser accepts as a name.
const nameLang = "^[_A-Za-z][_0-9A-Za-z]*$"

// isName: the term is the name of something the parser read.
func isName(t *Node) bool {
	if t.op != OField || t.sym != "Name" || len(t.args) != 1 || t.args[0].typ == nil {
		return false
	}
	switch strings.TrimPrefix(types.TypeString(t.args[0].typ, nil), "*") {
	case pkgAst + ".Definition", pkgAst + ".FieldDefinition", pkgAst + ".EnumValueDefinition",
		pkgAst + ".ArgumentDefinition", pkgAst + ".DirectiveDefinition", pkgAst + ".Directive":
		return true
	}
	return false
}

type nameUse struct {
	term *Node
	pat  string
}

var nameUses = map[*Node]nameUse{}

// nameLanguage: a test of the characters of a name as a pattern.
func nameLanguage(a *Node) (term *Node, pat string) {
	if u, ok := nameUses[a]; ok {
		return u.term, u.pat
	}
	term, pat = nameLanguage1(a)
	nameUses[a] = nameUse{term, pat}
	return
}

func nameLanguage1(a *Node) (*Node, string) {
	switch a.op {
	case OEq, OLt:
		// the name against its upper or lower case form
		if a.op == OEq {
			for i := 0; i < 2; i++ {
				t, o := a.args[i], a.args[1-i]
				if o.op == OCall && len(o.args) == 1 && o.args[0] == t && isName(t) {
					switch o.sym {
					case "strings.ToUpper":
						return t, "^[^a-z]*$"
					case "strings.ToLower":
						return t, "^[^A-Z]*$"
					}
				}
			}
		}
	}
	switch a.op {
	case OEq, OLt, OCall:
		// the first character
		var at *Node
		bad := false
		var find func(n *Node, depth int)
		find = func(n *Node, depth int) {
			if t := firstChar(n); t != nil {
				if at != nil && at != n {
					bad = true
				}
				at = n
				return
			}
			if depth < 4 && (n.op == OCall || n.op == OEq || n.op == OLt || n.op == OAdd) {
				for _, x := range n.args {
					find(x, depth+1)
				}
			}
		}
		find(a, 0)
		if at == nil || bad {
			return nil, ""
		}
		if cl, ok := classOf(bm.atomVar(a), map[*Node]int{at: 0}, nil, 0); ok {
			return firstChar(at), "^" + cl
		}
	case OExists:
		d := a.args[0]
		v, o := open(a)
		c := o.conds[0]
		switch {
		case isCall(d, "range") && len(d.args) == 1:
			n, off := linear(d.args[0])
			if n == nil || n.op != OLen || !isName(n.args[0]) || off > 0 {
				return nil, ""
			}
			t := n.args[0]
			return t, quantified(c, map[*Node]int{mkIndex(t, mkAdd(v, constInt(-off)), types.Typ[types.Uint8]): 0}, v, int(-off))
		case isCall(d, "runes") && len(d.args) == 1:
			t, off := d.args[0], int64(0)
			if t.op == OSlice && t.args[2] == nilNode {
				k, ok := t.args[1].intVal()
				if !ok || k < 0 {
					return nil, ""
				}
				t, off = t.args[0], k
			}
			if !isName(t) {
				return nil, ""
			}
			return t, quantified(c, map[*Node]int{v: 0}, mkCall("runeoff", []*Node{v}, types.Typ[types.Int], nil), int(off))
		}
	}
	return nil, ""
}

// firstChar: the name whose first character n is.
func firstChar(n *Node) *Node {
	switch {
	case n.op == OIndex && n.args[1] == constInt(0) && isName(n.args[0]):
		return n.args[0]
	case n.op == OSlice && isName(n.args[0]) && n.args[2] == constInt(1) && (n.args[1] == nilNode || n.args[1] == constInt(0)):
		return n.args[0]
	case isCall(n, "unicode/utf8.DecodeRuneInString#0") && isName(n.args[0]):
		return n.args[0]
	}
	return nil
}

// quantified: some character from the off-th on, at place pos, satisfies c.
func quantified(c B, ch map[*Node]int, pos *Node, off int) string {
	first, ok1 := classOf(c, ch, pos, 0)
	rest, ok2 := classOf(c, ch, pos, 1)
	rest2, ok3 := classOf(c, ch, pos, 2)
	if !ok1 || !ok2 || !ok3 || rest != rest2 {
		return ""
	}
	skip := strings.Repeat("(?s:.)", off)
	return "^" + skip + "(?:" + first + "|(?s:.+)" + rest + ")"
}

// classOf: the characters that satisfy c, which must depend on nothing else.
func classOf(c B, ch map[*Node]int, pos *Node, at int64) (string, bool) {
	var sb strings.Builder
	n := 0
	for b := 0; b < 128; b++ {
		sub := map[*Node]*Node{}
		for x := range ch {
			if isStringType(x.typ) {
				sub[x] = constStr(string(rune(b)))
			} else {
				sub[x] = constInt(int64(b))
			}
		}
		if pos != nil {
			sub[pos] = constInt(at)
		}
		switch newSubst(sub).b(c) {
		case True:
			n++
			sb.WriteString("\\x{" + hex(b) + "}")
		case False:
		default:
			return "", false
		}
	}
	if n == 0 {
		return "[^\\x00-\\x{10FFFF}]", true
	}
	return "[" + sb.String() + "]", true
}

func hex(b int) string {
	const d = "0123456789abcdef"
	return string([]byte{d[b>>4], d[b&15]})
}

// language: the atom as a pattern on a term.
func language(a *Node) (term *Node, pat string) {
	if t, p := nameLanguage(a); t != nil && p != "" {
		return t, p
	}
	switch {
	case a.op == OEq && isStringType(a.args[0].typ):
		if s, ok := a.args[1].strVal(); ok {
			return a.args[0], "^(?:" + regexp.QuoteMeta(s) + ")$"
		}
	case a.op == OCall && len(a.args) == 2:
		s, ok := a.args[1].strVal()
		q := regexp.QuoteMeta(s)
		switch a.sym {
		case "strings.EqualFold":
			if ok {
				return a.args[0], "(?i)^(?:" + q + ")$"
			}
			if t, ok := a.args[0].strVal(); ok {
				return a.args[1], "(?i)^(?:" + regexp.QuoteMeta(t) + ")$"
			}
		case "strings.HasPrefix":
			if ok {
				return a.args[0], "^" + q
			}
		case "strings.HasSuffix":
			if ok {
				return a.args[0], q + "$"
			}
		case "strings.Contains":
			if ok {
				return a.args[0], q
			}
		case "(*regexp.Regexp).MatchString":
			if p, ok := patternOf(a.args[0]); ok {
				return a.args[1], p
			}
		}
	}
	return nil, ""
}

type langUse struct {
	a *Node
	p string
}

// languageFacts: the possible combinations of the atoms about one term, when
// at least one of them is a regular expression.
func languageFacts(atoms []*Node) []B {
	by := map[*Node][]langUse{}
	hasRe := map[*Node]bool{}
	var order []*Node
	for _, a := range atoms {
		t, p := language(a)
		if t == nil {
			continue
		}
		if by[t] == nil {
			order = append(order, t)
		}
		by[t] = append(by[t], langUse{a, p})
		if a.op == OCall && (strings.HasPrefix(a.sym, "(*regexp") || a.sym == "strings.EqualFold") {
			hasRe[t] = true
		}
		if nt, np := nameLanguage(a); nt != nil && np != "" {
			hasRe[t] = true
		}
	}
	var out []B
	for _, t := range order {
		us := by[t]
		if !hasRe[t] || len(us) < 2 {
			continue
		}
		sort.Slice(us, func(i, j int) bool { return us[i].p < us[j].p })
		if isName(t) {
			us = append(us, langUse{nil, nameLang})
		}
		if len(us) > 6 {
			for i := range us {
				for j := i + 1; j < len(us); j++ {
					out = append(out, languageFact(us[i:i+1:i+1], us[j]))
				}
			}
			continue
		}
		out = append(out, languageFact(us[:len(us)-1:len(us)-1], us[len(us)-1]))
	}
	return out
}

// languageFact: the possible combinations of some tests of one string.
func languageFact(us []langUse, more ...langUse) B {
	us = append(us, more...)
	{
		ps := make([]string, len(us))
		for i, u := range us {
			ps[i] = u.p
		}
		combos := combinations(ps)
		if combos == nil {
			return True
		}
		g := False
		for _, c := range combos {
			b := True
			for i, u := range us {
				v := True
				if u.a != nil {
					v = bm.atomVar(u.a)
				}
				if c&(1<<i) == 0 {
					v = not(v)
				}
				b = and(b, v)
			}
			g = or(g, b)
		}
		return g
	}
}

var comboCache = map[string][]int{}

func combinations(ps []string) []int {
	key := strings.Join(ps, "\x00")
	if c, ok := comboCache[key]; ok {
		return c
	}
	c := productCombos(ps)
	comboCache[key] = c
	return c
}

// productCombos explores the product of the automata of the patterns and
// returns the sets of patterns some string matches exactly.
func productCombos(ps []string) []int {
	var progs []*syntax.Prog
	bounds := map[rune]bool{0: true}
	for _, p := range ps {
		re, err := syntax.Parse(p, syntax.Perl)
		if err != nil {
			return nil
		}
		pr, err := syntax.Compile(re.Simplify())
		if err != nil {
			return nil
		}
		for _, in := range pr.Inst {
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1:
				for i := 0; i+1 < len(in.Rune); i += 2 {
					bounds[in.Rune[i]], bounds[in.Rune[i+1]+1] = true, true
				}
				if len(in.Rune) == 1 {
					for r := in.Rune[0]; ; {
						bounds[r], bounds[r+1] = true, true
						if r = unicode.SimpleFold(r); r == in.Rune[0] {
							break
						}
					}
				}
			case syntax.InstRuneAnyNotNL:
				bounds['\n'], bounds['\n'+1] = true, true
			case syntax.InstEmptyWidth:
				if syntax.EmptyOp(in.Arg)&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
					return nil // line and word boundaries are not followed
				}
			}
		}
		progs = append(progs, pr)
	}
	var alphabet []rune
	for r := range bounds {
		if r <= unicode.MaxRune {
			alphabet = append(alphabet, r)
		}
	}
	sort.Slice(alphabet, func(i, j int) bool { return alphabet[i] < alphabet[j] })
	// a state: per pattern the sorted set of places before following empty
	// moves, or "matched"
	type state struct {
		pcs  [][]uint32
		done int
	}
	name := func(s state) string {
		var sb strings.Builder
		for _, q := range s.pcs {
			for _, pc := range q {
				sb.WriteRune(rune(pc + 1))
			}
			sb.WriteByte(0)
		}
		sb.WriteRune(rune(s.done))
		return sb.String()
	}
	closure := func(pr *syntax.Prog, pcs []uint32, begin, end bool) (set []uint32, matched bool) {
		seen := map[uint32]bool{}
		var add func(pc uint32)
		add = func(pc uint32) {
			if seen[pc] {
				return
			}
			seen[pc] = true
			in := &pr.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				add(in.Out)
				add(in.Arg)
			case syntax.InstCapture, syntax.InstNop:
				add(in.Out)
			case syntax.InstEmptyWidth:
				e := syntax.EmptyOp(in.Arg)
				if e&syntax.EmptyBeginText != 0 && !begin || e&syntax.EmptyEndText != 0 && !end {
					return
				}
				add(in.Out)
			case syntax.InstMatch:
				matched = true
			case syntax.InstFail:
			default:
				set = append(set, pc)
			}
		}
		for _, pc := range pcs {
			add(pc)
		}
		return
	}
	start := state{}
	for _, pr := range progs {
		start.pcs = append(start.pcs, []uint32{uint32(pr.Start)})
	}
	seen := map[string]bool{name(start): true}
	type item struct {
		s     state
		begin bool
	}
	work := []item{{start, true}}
	found := map[int]bool{}
	for len(work) > 0 {
		it := work[0]
		work = work[1:]
		acc := it.s.done
		mid := make([][]uint32, len(progs))
		done := it.s.done
		for i, pr := range progs {
			if it.s.done&(1<<i) != 0 {
				continue
			}
			if _, m := closure(pr, it.s.pcs[i], it.begin, true); m {
				acc |= 1 << i
			}
			set, m := closure(pr, it.s.pcs[i], it.begin, false)
			if m {
				done |= 1 << i
			}
			mid[i] = set
		}
		found[acc] = true
		for _, r := range alphabet {
			n := state{done: done, pcs: make([][]uint32, len(progs))}
			for i, pr := range progs {
				if done&(1<<i) != 0 {
					continue
				}
				next := map[uint32]bool{uint32(pr.Start): true}
				for _, pc := range mid[i] {
					if pr.Inst[pc].MatchRune(r) {
						next[pr.Inst[pc].Out] = true
					}
				}
				for pc := range next {
					n.pcs[i] = append(n.pcs[i], pc)
				}
				sort.Slice(n.pcs[i], func(a, b int) bool { return n.pcs[i][a] < n.pcs[i][b] })
			}
			if k := name(n); !seen[k] {
				if len(seen) > 20000 {
					return nil
				}
				seen[k] = true
				work = append(work, item{n, false})
			}
		}
	}
	var out []int
	for c := range found {
		out = append(out, c)
	}
	sort.Ints(out)
	return out
}
