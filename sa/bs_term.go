package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Terms of the bisimulation engine (bs_*.go): integers are linear combinations
// of atoms, a function of one input byte is a table, strings are slices of a
// base, text under construction is a sequence of pieces.

type tm struct {
	id   int
	op   string // const lin byte tab str sub seq sym call len select store ...
	sym  string
	k    int64
	args []*tm
	cf   []int64    // lin: coefficients of args
	tab  [256]int64 // tab: value per byte
	sort byte       // i: integer, s: text, a: array, o: opaque
}

type byteSet [4]uint64

func (b byteSet) has(i int) bool { return b[i>>6]>>(i&63)&1 == 1 }
func (b *byteSet) add(i int)     { b[i>>6] |= 1 << (i & 63) }
func (b byteSet) empty() bool    { return b == byteSet{} }
func (b byteSet) and(c byteSet) byteSet {
	for i := range b {
		b[i] &= c[i]
	}
	return b
}
func (b byteSet) or(c byteSet) byteSet {
	for i := range b {
		b[i] |= c[i]
	}
	return b
}
func (b byteSet) not() byteSet {
	for i := range b {
		b[i] = ^b[i]
	}
	return b
}
func (b byteSet) only() (int, bool) {
	r, n := 0, 0
	for i := 0; i < 256; i++ {
		if b.has(i) {
			r = i
			n++
		}
	}
	return r, n == 1
}

var allBytes = byteSet{}.not()

var tmTable = map[string]*tm{}

func tmMk(t tm) *tm {
	var b strings.Builder
	fmt.Fprintf(&b, "%s|%s|%d|%c", t.op, t.sym, t.k, t.sort)
	for i, a := range t.args {
		fmt.Fprintf(&b, "|%d", a.id)
		if t.cf != nil {
			fmt.Fprintf(&b, "*%d", t.cf[i])
		}
	}
	if t.op == "tab" {
		fmt.Fprintf(&b, "|%v", t.tab)
	}
	s := b.String()
	if r := tmTable[s]; r != nil {
		return r
	}
	t.id = len(tmTable) + 1
	r := &t
	tmTable[s] = r
	return r
}

func tmInt(k int64) *tm                { return tmMk(tm{op: "const", k: k, sort: 'i'}) }
func tmStr(s string) *tm               { return tmMk(tm{op: "str", sym: s, sort: 's'}) }
func tmSym(name string, sort byte) *tm { return tmMk(tm{op: "sym", sym: name, sort: sort}) }
func tmCall(name string, sort byte, args ...*tm) *tm {
	return tmMk(tm{op: "call", sym: name, args: args, sort: sort})
}

func (t *tm) isInt() (int64, bool) { return t.k, t.op == "const" }

// ---- linear combinations

type lin struct {
	m map[*tm]int64
	c int64
}

func linOf(t *tm) lin {
	switch t.op {
	case "const":
		return lin{nil, t.k}
	case "lin":
		l := lin{map[*tm]int64{}, t.k}
		for i, a := range t.args {
			l.m[a] = t.cf[i]
		}
		return l
	}
	return lin{map[*tm]int64{t: 1}, 0}
}

func (l lin) tm() *tm {
	var as []*tm
	for a, k := range l.m {
		if k != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return tmInt(l.c)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.m[as[0]] == 1 && l.c == 0 {
		return as[0]
	}
	if len(as) == 1 && (as[0].op == "byte" || as[0].op == "tab") {
		return tabMap(as[0], func(v int64) int64 { return l.m[as[0]]*v + l.c })
	}
	t := tm{op: "lin", k: l.c, args: as, sort: 'i'}
	for _, a := range as {
		t.cf = append(t.cf, l.m[a])
	}
	return tmMk(t)
}

func (l lin) add(o lin, f int64) lin {
	r := lin{map[*tm]int64{}, l.c + f*o.c}
	for a, k := range l.m {
		r.m[a] = k
	}
	for a, k := range o.m {
		r.m[a] += f * k
		if r.m[a] == 0 {
			delete(r.m, a)
		}
	}
	return r
}

func (l lin) scale(f int64) lin { return lin{}.add(l, f) }

func (l lin) constant() bool { return len(l.m) == 0 }

func tmAdd(a, b *tm) *tm        { return linOf(a).add(linOf(b), 1).tm() }
func tmSub(a, b *tm) *tm        { return linOf(a).add(linOf(b), -1).tm() }
func tmAddK(a *tm, k int64) *tm { return tmAdd(a, tmInt(k)) }

// ---- functions of one byte

func isTab(t *tm) bool { return t.op == "byte" || t.op == "tab" }

func tabAtom(t *tm) *tm {
	if t.op == "tab" {
		return t.args[0]
	}
	return t
}

func tabVal(t *tm, i int) int64 {
	if t.op == "tab" {
		return t.tab[i]
	}
	return int64(i)
}

func tabMap(t *tm, f func(int64) int64) *tm {
	r := tm{op: "tab", args: []*tm{tabAtom(t)}, sort: 'i'}
	same, id := true, true
	for i := range r.tab {
		r.tab[i] = f(tabVal(t, i))
		same = same && r.tab[i] == r.tab[0]
		id = id && r.tab[i] == int64(i)
	}
	if same {
		return tmInt(r.tab[0])
	}
	if id {
		return tabAtom(t)
	}
	return tmMk(r)
}

func tabSet(t *tm, f func(int64) bool) byteSet {
	var s byteSet
	for i := 0; i < 256; i++ {
		if f(tabVal(t, i)) {
			s.add(i)
		}
	}
	return s
}

// ---- texts

// base, lo, hi of a text
func parts(t *tm) (base, lo, hi *tm) {
	if t.op == "sub" {
		return t.args[0], t.args[1], t.args[2]
	}
	return t, tmInt(0), tmLen(t)
}

func tmLen(t *tm) *tm {
	switch t.op {
	case "str":
		return tmInt(int64(len(t.sym)))
	case "sub":
		return tmSub(t.args[2], t.args[1])
	case "seq":
		r := tmInt(0)
		for _, p := range t.args {
			if p.sort == 'i' {
				r = tmAdd(r, pieceLen(p))
			} else {
				r = tmAdd(r, tmLen(p))
			}
		}
		return r
	}
	return tmMk(tm{op: "len", args: []*tm{t}, sort: 'i'})
}

// pieceLen: the length of one character of a sequence.
func pieceLen(p *tm) *tm {
	if p.op == "call" && p.sym == "raw" {
		return tmInt(1)
	}
	if k, ok := p.isInt(); ok {
		return tmInt(int64(len(string(rune(k)))))
	}
	if isTab(p) {
		return tabMap(p, func(v int64) int64 { return int64(len(string(rune(v)))) })
	}
	return tmCall("runelen", 'i', p)
}

func tmSlice(t, lo, hi *tm) *tm {
	b, l, _ := parts(t)
	nl, nh := tmAdd(l, lo), tmAdd(l, hi)
	if b.op == "str" {
		x, ok1 := nl.isInt()
		y, ok2 := nh.isInt()
		if ok1 && ok2 && 0 <= x && x <= y && y <= int64(len(b.sym)) {
			return tmStr(b.sym[x:y])
		}
	}
	if k, ok := nl.isInt(); ok && k == 0 && nh == tmLen(b) {
		return b
	}
	if nl == nh {
		return tmStr("")
	}
	return tmMk(tm{op: "sub", args: []*tm{b, nl, nh}, sort: 's'})
}

// tmByte: the byte of t at i.
func tmByte(t, i *tm) *tm {
	b, l, _ := parts(t)
	i = tmAdd(l, i)
	if k, ok := i.isInt(); ok && b.op == "str" && k >= 0 && k < int64(len(b.sym)) {
		return tmInt(int64(b.sym[k]))
	}
	return tmMk(tm{op: "byte", args: []*tm{b, i}, sort: 'i'})
}

func tmSeq(ps ...*tm) *tm {
	var out []*tm
	var add func(p *tm)
	add = func(p *tm) {
		switch {
		case p.op == "seq":
			for _, q := range p.args {
				add(q)
			}
		case p.op == "str":
			for i := 0; i < len(p.sym); i++ {
				if p.sym[i] < 0x80 {
					out = append(out, tmInt(int64(p.sym[i])))
				} else {
					out = append(out, tmCall("raw", 'i', tmInt(int64(p.sym[i]))))
				}
			}
		case p.op == "const" && (p.k >= 0x80 || p.k < 0):
			s := string(rune(p.k))
			for i := 0; i < len(s); i++ {
				out = append(out, tmCall("raw", 'i', tmInt(int64(s[i]))))
			}
		default:
			out = append(out, p)
		}
	}
	for _, p := range ps {
		add(p)
	}
	if len(out) == 1 && out[0].sort == 's' {
		return out[0]
	}
	if len(out) == 0 {
		return tmStr("")
	}
	all := make([]byte, 0, len(out))
	for _, p := range out {
		k, ok := p.isInt()
		if !ok && p.op == "call" && p.sym == "raw" {
			k, ok = p.args[0].isInt()
		}
		if !ok {
			return tmMk(tm{op: "seq", args: out, sort: 's'})
		}
		all = append(all, byte(k))
	}
	return tmStr(string(all))
}

func (t *tm) String() string {
	switch t.op {
	case "const":
		return fmt.Sprint(t.k)
	case "str":
		return fmt.Sprintf("%q", t.sym)
	case "sym":
		return t.sym
	case "lin":
		s := ""
		for i, a := range t.args {
			switch {
			case t.cf[i] == 1:
				s += "+" + a.String()
			case t.cf[i] == -1:
				s += "-" + a.String()
			default:
				s += fmt.Sprintf("%+d*%s", t.cf[i], a)
			}
		}
		if t.k != 0 {
			s += fmt.Sprintf("%+d", t.k)
		}
		return strings.TrimPrefix(s, "+")
	case "byte":
		return fmt.Sprintf("%s[%s]", t.args[0], t.args[1])
	case "tab":
		return fmt.Sprintf("tab(%s)", t.args[0])
	case "sub":
		return fmt.Sprintf("%s[%s:%s]", t.args[0], t.args[1], t.args[2])
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.String())
	}
	n := t.op
	if t.op == "call" {
		n = t.sym
	}
	return n + "(" + strings.Join(as, ",") + ")"
}

// ---- facts of a path

type facts struct {
	ge    []lin // each >= 0
	ne    []lin // each != 0
	bytes map[*tm]byteSet
	opq   map[*tm]bool
}

func newFacts() *facts { return &facts{bytes: map[*tm]byteSet{}, opq: map[*tm]bool{}} }

func (f *facts) clone() *facts {
	g := &facts{ge: append([]lin{}, f.ge...), ne: append([]lin{}, f.ne...), bytes: map[*tm]byteSet{}, opq: map[*tm]bool{}}
	for k, v := range f.bytes {
		g.bytes[k] = v
	}
	for k, v := range f.opq {
		g.opq[k] = v
	}
	return g
}

func (f *facts) set(a *tm) byteSet {
	if s, ok := f.bytes[a]; ok {
		return s
	}
	return allBytes
}

// norm replaces bytes with one possible value by it.
func (f *facts) norm(t *tm) *tm {
	return tmRewrite(t, func(x *tm) *tm {
		if isTab(x) {
			s := f.set(tabAtom(x))
			if k, ok := s.only(); ok {
				return tmInt(tabVal(x, k))
			}
			v, first, same := int64(0), true, true
			for i := 0; i < 256 && same; i++ {
				if s.has(i) {
					w := tabVal(x, i)
					if first {
						v, first = w, false
					} else if w != v {
						same = false
					}
				}
			}
			if same && !first {
				return tmInt(v)
			}
		}
		return x
	})
}

// tmRewrite rebuilds t bottom up with f applied to every sub term.
func tmRewrite(t *tm, f func(*tm) *tm) *tm {
	memo := map[*tm]*tm{}
	var rec func(t *tm) *tm
	rec = func(t *tm) *tm {
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*tm, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = rec(a)
			ch = ch || as[i] != a
		}
		r := t
		if ch {
			r = tmRebuild(t, as)
		}
		r = f(r)
		memo[t] = r
		return r
	}
	return rec(t)
}

func tmRebuild(t *tm, as []*tm) *tm {
	switch t.op {
	case "lin":
		l := lin{nil, t.k}
		for i, a := range as {
			l = l.add(linOf(a), t.cf[i])
		}
		return l.tm()
	case "byte":
		return tmByte(as[0], as[1])
	case "tab":
		if k, ok := as[0].isInt(); ok {
			if k >= 0 && k < 256 {
				return tmInt(t.tab[k])
			}
		}
		if isTab(as[0]) {
			return tabMap(as[0], func(v int64) int64 { return t.tab[v&255] })
		}
	case "sub":
		return tmSlice(as[0], as[1], as[2])
	case "len":
		return tmLen(as[0])
	case "seq":
		return tmSeq(as...)
	case "call":
		switch t.sym {
		case "runelen":
			return pieceLen(as[0])
		}
	case "select":
		return tmSelect(as[0], as[1])
	}
	c := *t
	c.args = as
	return tmMk(c)
}

func tmSelect(arr, i *tm) *tm {
	return tmMk(tm{op: "select", args: []*tm{arr, i}, sort: 's'})
}

// maxText: no text is longer (documents are smaller than two gigabytes).
const maxText = 1<<31 - 2

// tmAxioms: bounds that hold of every atom
func tmAxioms(a *tm) []lin {
	one := lin{map[*tm]int64{a: 1}, 0}
	neg := func(k int64) lin { return lin{map[*tm]int64{a: -1}, k} }
	switch a.op {
	case "len":
		return []lin{one, neg(maxText)}
	case "byte":
		return []lin{one, neg(255)}
	case "tab":
		lo, hi := a.tab[0], a.tab[0]
		for _, v := range a.tab {
			lo, hi = min(lo, v), max(hi, v)
		}
		return []lin{one.add(lin{nil, lo}, -1), neg(hi)}
	case "call":
		switch a.sym {
		case "rune":
			return []lin{one.add(lin{nil, 0x80}, -1), neg(0x10ffff)}
		case "width":
			// off + w <= end
			l := linOf(a.args[2]).add(linOf(a.args[1]), -1).add(linOf(a), -1)
			return []lin{one.add(lin{nil, 1}, -1), neg(4), l}
		case "nsplit", "runelen":
			return []lin{one.add(lin{nil, 1}, -1)}
		case "off":
			return []lin{one}
		}
	}
	return nil
}

// infeasible: no integers satisfy all of cs (each >= 0).  Fourier-Motzkin over
// the constraints connected with the last one; gives up (false) when it grows.
func infeasible(cs []lin, focus lin) bool {
	seen := map[*tm]bool{}
	use := []lin{focus}
	done := make([]bool, len(cs))
	var todo []*tm
	visit := func(l lin) {
		for a := range l.m {
			if !seen[a] {
				seen[a] = true
				todo = append(todo, a)
			}
		}
	}
	visit(focus)
	for len(todo) > 0 {
		a := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, x := range tmAxioms(a) {
			use = append(use, x)
			visit(x)
		}
		for i, c := range cs {
			if !done[i] && c.m[a] != 0 {
				done[i] = true
				use = append(use, c)
				visit(c)
			}
		}
	}
	for _, c := range cs {
		if c.constant() && c.c < 0 {
			return true
		}
	}
	var vars []*tm
	for a := range seen {
		vars = append(vars, a)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].id < vars[j].id })
	for len(vars) > 0 {
		// eliminate the cheapest variable
		best, cost := -1, 0
		for i, v := range vars {
			p, n := 0, 0
			for _, c := range use {
				if c.m[v] > 0 {
					p++
				} else if c.m[v] < 0 {
					n++
				}
			}
			if best < 0 || p*n-p-n < cost {
				best, cost = i, p*n-p-n
			}
		}
		v := vars[best]
		vars = append(vars[:best:best], vars[best+1:]...)
		var next, pos, neg []lin
		for _, c := range use {
			switch {
			case c.m[v] > 0:
				pos = append(pos, c)
			case c.m[v] < 0:
				neg = append(neg, c)
			default:
				next = append(next, c)
			}
		}
		if len(pos)*len(neg)+len(next) > 1500 {
			return false
		}
		for _, p := range pos {
			for _, n := range neg {
				next = append(next, p.scale(-n.m[v]).add(n, p.m[v]))
			}
		}
		use = dedupLin(next)
		for _, c := range use {
			if c.constant() && c.c < 0 {
				return true
			}
		}
	}
	for _, c := range use {
		if c.constant() && c.c < 0 {
			return true
		}
	}
	return false
}

func dedupLin(ls []lin) []lin {
	best := map[string]int{}
	var out []lin
	for _, l := range ls {
		var g int64
		for _, k := range l.m {
			g = gcd(g, k)
		}
		if g > 1 {
			n := lin{map[*tm]int64{}, floorDiv(l.c, g)}
			for a, k := range l.m {
				n.m[a] = k / g
			}
			l = n
		}
		if l.constant() {
			if l.c < 0 {
				return []lin{l}
			}
			continue
		}
		k := linKey(l)
		if i, ok := best[k]; ok {
			if l.c < out[i].c {
				out[i] = l
			}
			continue
		}
		best[k] = len(out)
		out = append(out, l)
	}
	return out
}

func linKey(l lin) string {
	var ids []int
	by := map[int]int64{}
	for a, k := range l.m {
		ids = append(ids, a.id)
		by[a.id] = k
	}
	sort.Ints(ids)
	var b strings.Builder
	for _, i := range ids {
		fmt.Fprintf(&b, "%d*%d ", by[i], i)
	}
	return b.String()
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func (f *facts) lins() []lin {
	out := append([]lin{}, f.ge...)
	for a, s := range f.bytes {
		lo, hi := int64(-1), int64(0)
		for i := 0; i < 256; i++ {
			if s.has(i) {
				if lo < 0 {
					lo = int64(i)
				}
				hi = int64(i)
			}
		}
		out = append(out, lin{map[*tm]int64{a: 1}, -lo}, lin{map[*tm]int64{a: -1}, hi})
	}
	return out
}

// entails l >= 0
func (f *facts) entails(l lin) bool {
	if l.constant() {
		return l.c >= 0
	}
	return infeasible(f.lins(), l.scale(-1).add(lin{nil, 1}, -1))
}

func (f *facts) feasibleGe(l lin) bool {
	if l.constant() {
		return l.c >= 0
	}
	return !infeasible(f.lins(), l)
}

// atom is a condition on which paths split.
type bAtom struct {
	kind byte // 'g': l >= 0, 'z': l == 0, 'b': byte in set, 'o': opaque
	l    lin
	t    *tm
	set  byteSet
}

// decide: 1 true, 0 false, -1 open
func (f *facts) decide(a bAtom) int {
	switch a.kind {
	case 'b':
		s := f.set(a.t)
		if s.and(a.set).empty() {
			return 0
		}
		if s.and(a.set.not()).empty() {
			return 1
		}
	case 'g':
		if f.entails(a.l) {
			return 1
		}
		if f.entails(a.l.scale(-1).add(lin{nil, 1}, -1)) {
			return 0
		}
	case 'z':
		if a.l.constant() {
			if a.l.c == 0 {
				return 1
			}
			return 0
		}
		ge, le := f.entails(a.l), f.entails(a.l.scale(-1))
		if ge && le {
			return 1
		}
		if f.entails(a.l.add(lin{nil, 1}, -1)) || f.entails(a.l.scale(-1).add(lin{nil, 1}, -1)) {
			return 0
		}
		k := linKey(a.l)
		for _, n := range f.ne {
			if linKey(n) == k && n.c == a.l.c {
				return 0
			}
			m := n.scale(-1)
			if linKey(m) == k && m.c == a.l.c {
				return 0
			}
		}
	case 'o':
		if v, ok := f.opq[a.t]; ok {
			if v {
				return 1
			}
			return 0
		}
	}
	return -1
}

// assume adds the atom or its negation; the caller knows it is open.
func (f *facts) assume(a bAtom, v bool) {
	switch a.kind {
	case 'b':
		s := a.set
		if !v {
			s = s.not()
		}
		f.bytes[a.t] = f.set(a.t).and(s)
	case 'g':
		if v {
			f.ge = append(f.ge, a.l)
		} else {
			f.ge = append(f.ge, a.l.scale(-1).add(lin{nil, 1}, -1))
		}
	case 'z':
		if v {
			f.ge = append(f.ge, a.l, a.l.scale(-1))
		} else {
			// one sided when the other side is excluded
			if f.entails(a.l) {
				f.ge = append(f.ge, a.l.add(lin{nil, 1}, -1))
			} else if f.entails(a.l.scale(-1)) {
				f.ge = append(f.ge, a.l.scale(-1).add(lin{nil, 1}, -1))
			} else {
				f.ne = append(f.ne, a.l)
			}
		}
	case 'o':
		f.opq[a.t] = v
	}
}

func (f *facts) String() string {
	var out []string
	for _, l := range f.ge {
		out = append(out, l.tm().String()+">=0")
	}
	for _, l := range f.ne {
		out = append(out, l.tm().String()+"!=0")
	}
	var bs []string
	for a, s := range f.bytes {
		bs = append(bs, a.String()+" in "+s.text())
	}
	sort.Strings(bs)
	out = append(out, bs...)
	for a, v := range f.opq {
		out = append(out, fmt.Sprintf("%s=%v", a, v))
	}
	return strings.Join(out, ", ")
}

func (b byteSet) text() string {
	n := b
	neg := ""
	c := 0
	for i := 0; i < 256; i++ {
		if b.has(i) {
			c++
		}
	}
	if c > 128 {
		n, neg = b.not(), "^"
	}
	s := ""
	for i := 0; i < 256; i++ {
		if !n.has(i) {
			continue
		}
		j := i
		for j < 255 && n.has(j+1) {
			j++
		}
		q := func(i int) string { return strings.Trim(fmt.Sprintf("%q", rune(i)), "'") }
		if i >= 0x80 {
			q = func(i int) string { return fmt.Sprintf("\\x%02x", i) }
		}
		if j > i+1 {
			s += q(i) + "-" + q(j)
			i = j
		} else {
			s += q(i)
		}
	}
	return neg + "[" + s + "]"
}

// same decides that two terms have the same value on the path.
func (f *facts) same(a, b *tm) bool {
	a, b = f.norm(a), f.norm(b)
	if a == b {
		return true
	}
	if a.sort != b.sort {
		return false
	}
	if a.sort == 'i' {
		if isTab(a) && isTab(b) && tabAtom(a) == tabAtom(b) {
			s := f.set(tabAtom(a))
			for i := 0; i < 256; i++ {
				if s.has(i) && tabVal(a, i) != tabVal(b, i) {
					return false
				}
			}
			return true
		}
		d := linOf(a).add(linOf(b), -1)
		if d.constant() {
			return d.c == 0
		}
		if f.decide(bAtom{kind: 'z', l: d}) == 1 {
			return true
		}
	}
	if a.sort == 's' {
		la, lb := tmLen(a), tmLen(b)
		if !f.same(la, lb) {
			return false
		}
		if k, ok := f.constLen(la); ok && k <= 16 {
			good := true
			for i := int64(0); i < k && good; i++ {
				x, ok1 := byteAt(a, i)
				y, ok2 := byteAt(b, i)
				good = ok1 && ok2 && f.same(x, y)
			}
			if good {
				return true
			}
		}
		b1, l1, h1 := parts(a)
		b2, l2, h2 := parts(b)
		if b1 == b2 && (a.op == "sub" || b.op == "sub") {
			return f.same(l1, l2) && f.same(h1, h2)
		}
	}
	if a.op == b.op && a.sym == b.sym && a.k == b.k && len(a.args) == len(b.args) && len(a.args) > 0 && a.op != "lin" && a.op != "tab" && a.op != "len" {
		for i := range a.args {
			if !f.same(a.args[i], b.args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func (f *facts) constLen(l *tm) (int64, bool) {
	if k, ok := l.isInt(); ok {
		return k, true
	}
	for k := int64(0); k < 3; k++ {
		if f.decide(bAtom{kind: 'z', l: linOf(l).add(lin{nil, k}, -1)}) == 1 {
			return k, true
		}
	}
	return 0, false
}

// byteAt: byte i of a text when it is known structurally.
func byteAt(t *tm, i int64) (*tm, bool) {
	switch t.op {
	case "str":
		return tmInt(int64(t.sym[i])), true
	case "seq":
		for _, p := range t.args {
			if p.sort != 'i' {
				return nil, false
			}
		}
		for _, p := range t.args {
			k, ok := pieceLen(p).isInt()
			if !ok || k != 1 {
				return nil, false
			}
			if i == 0 {
				return p, true
			}
			i--
		}
		return nil, false
	}
	return tmByte(t, tmInt(i)), true
}

var _ = types.Typ
