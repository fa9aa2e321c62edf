package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The product of two scanners: pairs of program points at which both stand,
// each with an inductive relation between the two states (affine equalities of
// integers, equality of texts, bounds, sets of possible input bytes).  The
// relation starts from what holds on the first way to reach the pair and is
// weakened until it holds on every way; the two are equal in behaviour when no
// pair of exits disagrees under the final relations.

type bPair struct {
	id    int
	key   string
	st    [2]*bState
	keys  []string // integer components: rigid, lengths, first scanner, second scanner
	force int      // the first so many are never expressed by others
	p0    []*big.Rat
	dirs  [][]*big.Rat // reduced echelon form
	piv   []int
	hkeys []string
	hcls  []int
	hfix  []*tm // rigid term of the component, nil if it varies
	nCls  int
	cand  []cLin
	cbyte []cByte
	init  bool
	queue bool
}

type cLin struct {
	m map[int]int64
	c int64
}

type cByte struct {
	base int // index of the text component
	idx  cLin
	set  byteSet
}

type arrival struct {
	ints map[string]*tm
	herb map[string]*tm
	f    *facts
}

// walk visits the leaves of a state, rebuilding it.
func (s *bState) walk(side string, leaf func(key string, t *tm) *tm, shape *strings.Builder) {
	p := func(f string, a ...any) {
		if shape != nil {
			fmt.Fprintf(shape, f, a...)
		}
	}
	var val func(key string, v bval) bval
	val = func(key string, v bval) bval {
		switch v := v.(type) {
		case *tm:
			if v.sort == 'i' {
				p("i")
				return leaf(key, v)
			}
			if v.sort != 's' {
				p("o")
				return leaf(key, v)
			}
			p("s")
			b, lo, hi := parts(v)
			nb := leaf(key+".base", b)
			nl := leaf(key+".lo", lo)
			nh := leaf(key+".hi", hi)
			return tmSlice(nb, nl, nh)
		case bool:
			p("%v", v)
			return v
		case bNil:
			p("nil")
			return v
		case bPtr:
			p("&%s%s", v.obj, v.path)
			return v
		case bAgg:
			r := make(bAgg, len(v))
			p("{")
			for i, x := range v {
				r[i] = val(fmt.Sprintf("%s/%d", key, i), x)
			}
			p("}")
			return r
		case bSlice:
			p("[]%s", v.obj)
			return bSlice{v.obj, leaf(key+".lo", v.lo), leaf(key+".len", v.len)}
		case bIface:
			p("<%s>", typeText(v.t))
			return bIface{v.t, val(key+".v", v.v)}
		case bFunc:
			p("fn %s(", v.fn)
			r := bFunc{fn: v.fn}
			for i, x := range v.bind {
				r.bind = append(r.bind, val(fmt.Sprintf("%s.b%d", key, i), x))
			}
			p(")")
			return r
		case bBytes:
			p("bytes")
			return bBytes{val(key, v.seq).(*tm)}
		case bMap:
			p("map %s", v.obj)
			return v
		case bElem:
			p("elem %s", v.obj)
			return bElem{v.obj, leaf(key+".i", v.i)}
		case bTabElem:
			p("tab %s", v.p.obj)
			return bTabElem{v.p, leaf(key+".i", v.i)}
		}
		panic(bUnd("component %T", v))
	}
	p("%s:", s.exit)
	for i, f := range s.frames {
		p("%s@%d.%d(", f.fn.Name(), f.block.Index, f.idx)
		var vs []ssa.Value
		for v := range f.env {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			p("%s=", v.Name())
			f.env[v] = val(fmt.Sprintf("%s.f%d.%s", side, i, v.Name()), f.env[v])
			p(",")
		}
		p(")")
	}
	for i := range s.ret {
		p("ret")
		s.ret[i] = val(fmt.Sprintf("%s.ret%d", side, i), s.ret[i])
	}
	for _, n := range sortedKeys(s.mem) {
		if strings.HasPrefix(n, "rigid") {
			continue
		}
		p("%s:", n)
		o := s.mem[n]
		s.mem[n] = &bObj{val(side+"."+n, o.v), o.t}
	}
}

func isRigid(t *tm) bool {
	if t.op == "sym" && strings.HasPrefix(t.sym, "@") {
		return false
	}
	for _, a := range t.args {
		if !isRigid(a) {
			return false
		}
	}
	return true
}

type prod struct {
	e     *bisim
	sides [2]*bSide
	pairs map[string]*bPair
	list  []*bPair
	work  []*bPair
	rigid []*tm // rigid integer atoms
	entry func(k int, s *bState) *bState
	exits func(a, b *bState) bool // compares two exits; true: go on with the next token
	runs  int
	paths int
}

func (g *prod) arrive(a, b *bState) {
	a, b = a.clone(), b.clone()
	b.f = b.f.clone()
	f := b.f
	for _, s := range []*bState{a, b} {
		s.prune()
		s.steps = map[*ssa.BasicBlock]int{}
	}
	sub := equalities(f)
	fix := func(t *tm) *tm {
		t = f.norm(t)
		if len(sub) > 0 {
			t = tmRewrite(t, func(x *tm) *tm {
				if r, ok := sub[x]; ok {
					return r
				}
				return x
			})
		}
		return t
	}
	ar := &arrival{map[string]*tm{}, map[string]*tm{}, f}
	var order [2][]string
	var hs, ls []string
	var key strings.Builder
	for k, s := range []*bState{a, b} {
		k := k
		s.walk("AB"[k:k+1], func(key string, t *tm) *tm {
			t = fix(t)
			if t.sort == 'i' {
				ar.ints[key] = t
				order[k] = append(order[k], key)
			} else {
				ar.herb[key] = t
				hs = append(hs, key)
				if strings.HasSuffix(key, ".base") {
					ar.ints[key+"#len"] = fix(tmLen(t))
					ls = append(ls, key+"#len")
				}
			}
			return t
		}, &key)
		key.WriteString(" || ")
	}
	for i, r := range g.rigid {
		ar.ints[fmt.Sprint("rigid", i)] = r
	}
	p := g.pairs[key.String()]
	if p == nil {
		if len(g.list) > 3000 {
			panic(bUnd("the two scanners reach too many pairs of program points"))
		}
		p = &bPair{id: len(g.list), key: key.String()}
		p.st[0], p.st[1] = a, b
		for i := range g.rigid {
			p.keys = append(p.keys, fmt.Sprint("rigid", i))
		}
		p.keys = append(p.keys, ls...)
		p.force = len(p.keys)
		p.keys = append(append(p.keys, order[0]...), order[1]...)
		p.hkeys = hs
		g.pairs[p.key] = p
		g.list = append(g.list, p)
	}
	if p.join(ar, len(order[0])) && !p.queue {
		p.queue = true
		g.work = append(g.work, p)
	}
}

// equalities that the path conditions impose on state symbols
func equalities(f *facts) map[*tm]*tm {
	sub := map[*tm]*tm{}
	for i, l := range f.ge {
		for _, m := range f.ge[:i] {
			if !l.add(m, 1).constant() || l.add(m, 1).c != 0 {
				continue
			}
			for a, k := range l.m {
				if a.op == "sym" && (k == 1 || k == -1) && sub[a] == nil {
					// k*a + rest == 0
					r := l.add(lin{map[*tm]int64{a: 1}, 0}, -k).scale(-k).tm()
					if len(sub) == 0 {
						sub[a] = r
					}
					break
				}
			}
		}
	}
	return sub
}

func rat(k int64) *big.Rat { return new(big.Rat).SetInt64(k) }

// join weakens the relation so that it holds of the arrival too.
func (p *bPair) join(ar *arrival, nA int) bool {
	n := len(p.keys)
	ch := false
	// affine part
	pt := make([]*big.Rat, n)
	byAtom := map[*tm][]*big.Rat{}
	var atoms []*tm
	for i, k := range p.keys {
		t := ar.ints[k]
		if t == nil {
			panic(bUnd("component %s", k))
		}
		l := linOf(t)
		pt[i] = rat(l.c)
		for a, c := range l.m {
			if byAtom[a] == nil {
				byAtom[a] = zeroVec(n)
				atoms = append(atoms, a)
			}
			byAtom[a][i] = rat(c)
		}
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	var dropped []cLin
	old := p.relations()
	if !p.init {
		p.p0 = pt
	} else {
		d := make([]*big.Rat, n)
		for i := range d {
			d[i] = new(big.Rat).Sub(pt[i], p.p0[i])
		}
		ch = p.addDir(d) || ch
	}
	for _, a := range atoms {
		r := p.addDir(byAtom[a])
		ch = r || ch
	}
	// texts
	cls := map[string]int{}
	newCls := make([]int, len(p.hkeys))
	for i, k := range p.hkeys {
		o := 0
		if p.init {
			o = p.hcls[i]
		}
		s := fmt.Sprintf("%d/%d", o, ar.herb[k].id)
		if _, ok := cls[s]; !ok {
			cls[s] = len(cls)
		}
		newCls[i] = cls[s]
	}
	if !p.init {
		p.hfix = make([]*tm, len(p.hkeys))
		for i, k := range p.hkeys {
			if isRigid(ar.herb[k]) {
				p.hfix[i] = ar.herb[k]
			}
		}
	} else {
		for i, k := range p.hkeys {
			if p.hfix[i] != nil && p.hfix[i] != ar.herb[k] {
				p.hfix[i] = nil
				ch = true
			}
		}
		ch = ch || len(cls) > p.nCls
	}
	p.hcls, p.nCls = newCls, len(cls)
	if p.init && ch {
		now := map[string]bool{}
		for _, r := range p.relations() {
			now[r.key()] = true
		}
		for _, r := range old {
			if !now[r.key()] {
				dropped = append(dropped, r)
			}
		}
	}
	// bounds
	if !p.init {
		p.candidates(ar, nA)
		p.init = true
		ch = true
	} else {
		keep := p.cand[:0]
		for _, c := range p.cand {
			if ar.f.entails(p.linAt(c, ar)) {
				keep = append(keep, c)
			} else {
				ch = true
			}
		}
		p.cand = keep
		for _, r := range dropped {
			for _, sg := range []int64{1, -1} {
				c := r.scale(sg)
				if ar.f.entails(p.linAt(c, ar)) {
					p.cand = append(p.cand, c)
				}
			}
		}
		kb := p.cbyte[:0]
		for _, c := range p.cbyte {
			b := tmByte(ar.herb[p.hkeys[c.base]], p.linAt(c.idx, ar).tm())
			var s byteSet
			switch {
			case b.op == "const":
				s.add(int(b.k & 255))
			default:
				s = ar.f.set(b)
			}
			if s.and(c.set.not()).empty() {
				kb = append(kb, c)
				continue
			}
			ch = true
			c.set = c.set.or(s)
			if !c.set.not().empty() {
				kb = append(kb, c)
			}
		}
		p.cbyte = kb
	}
	return ch
}

func zeroVec(n int) []*big.Rat {
	v := make([]*big.Rat, n)
	for i := range v {
		v[i] = new(big.Rat)
	}
	return v
}

// addDir adds a direction to the span; false when it is there already.
func (p *bPair) addDir(d []*big.Rat) bool {
	v := make([]*big.Rat, len(d))
	for i := range d {
		v[i] = new(big.Rat).Set(d[i])
	}
	for j, e := range p.dirs {
		subMul(v, e, new(big.Rat).Set(v[p.piv[j]]))
	}
	at := -1
	for i := range v {
		if v[i].Sign() != 0 {
			at = i
			break
		}
	}
	if at < 0 {
		return false
	}
	inv := new(big.Rat).Inv(v[at])
	for i := range v {
		v[i].Mul(v[i], inv)
	}
	for _, e := range p.dirs {
		subMul(e, v, new(big.Rat).Set(e[at]))
	}
	p.dirs = append(p.dirs, v)
	p.piv = append(p.piv, at)
	return true
}

func subMul(v, e []*big.Rat, k *big.Rat) {
	if k.Sign() == 0 {
		return
	}
	for i := range v {
		if e[i].Sign() != 0 {
			v[i].Sub(v[i], new(big.Rat).Mul(k, e[i]))
		}
	}
}

// express: every component in terms of free ones: nil for a free component.
func (p *bPair) express() []*cLin {
	n := len(p.keys)
	out := make([]*cLin, n)
	// rows of the direction matrix; incremental elimination remembering the
	// combination of chosen components
	type rowT struct {
		v    []*big.Rat
		comb map[int]*big.Rat
		piv  int
	}
	var basis []rowT
	k := len(p.dirs)
	for i := 0; i < n; i++ {
		v := make([]*big.Rat, k)
		for j := range p.dirs {
			v[j] = new(big.Rat).Set(p.dirs[j][i])
		}
		comb := map[int]*big.Rat{}
		for _, b := range basis {
			c := new(big.Rat).Set(v[b.piv])
			if c.Sign() == 0 {
				continue
			}
			subMul(v, b.v, c)
			for a, x := range b.comb {
				if comb[a] == nil {
					comb[a] = new(big.Rat)
				}
				comb[a].Add(comb[a], new(big.Rat).Mul(c, x))
			}
		}
		piv := -1
		for j := range v {
			if v[j].Sign() != 0 {
				piv = j
				break
			}
		}
		if piv >= 0 {
			// v = row_i - sum comb; normalise
			inv := new(big.Rat).Inv(v[piv])
			for j := range v {
				v[j].Mul(v[j], inv)
			}
			nc := map[int]*big.Rat{i: new(big.Rat).Set(inv)}
			for a, x := range comb {
				y := new(big.Rat).Mul(x, inv)
				y.Neg(y)
				if nc[a] == nil {
					nc[a] = y
				} else {
					nc[a].Add(nc[a], y)
				}
			}
			basis = append(basis, rowT{v, nc, piv})
			continue
		}
		if i < p.force {
			continue
		}
		l := &cLin{m: map[int]int64{}}
		c := new(big.Rat).Set(p.p0[i])
		good := true
		for a, x := range comb {
			if x.Sign() == 0 {
				continue
			}
			if !x.IsInt() || !x.Num().IsInt64() {
				good = false
				break
			}
			l.m[a] = x.Num().Int64()
			c.Sub(c, new(big.Rat).Mul(x, p.p0[a]))
		}
		if !good || !c.IsInt() || !c.Num().IsInt64() {
			continue
		}
		l.c = c.Num().Int64()
		out[i] = l
	}
	return out
}

func (c cLin) scale(k int64) cLin {
	r := cLin{map[int]int64{}, c.c * k}
	for i, x := range c.m {
		r.m[i] = x * k
	}
	return r
}

func (c cLin) key() string {
	var is []int
	for i, k := range c.m {
		if k != 0 {
			is = append(is, i)
		}
	}
	sort.Ints(is)
	s := fmt.Sprint(c.c)
	for _, i := range is {
		s += fmt.Sprintf(" %d*%d", c.m[i], i)
	}
	return s
}

// relations: the affine equalities as expressions that are zero.
func (p *bPair) relations() []cLin {
	if !p.init {
		return nil
	}
	var out []cLin
	for i, l := range p.express() {
		if l != nil {
			r := l.scale(-1)
			r.m[i]++
			out = append(out, r)
		}
	}
	return out
}

func (p *bPair) linAt(c cLin, ar *arrival) lin {
	l := lin{nil, c.c}
	for i, k := range c.m {
		l = l.add(linOf(ar.ints[p.keys[i]]), k)
	}
	return l
}

// candidates: bounds that hold on the first arrival.
func (p *bPair) candidates(ar *arrival, nA int) {
	seen := map[string]bool{}
	try := func(c cLin) {
		if seen[c.key()] {
			return
		}
		seen[c.key()] = true
		if ar.f.entails(p.linAt(c, ar)) {
			p.cand = append(p.cand, c)
		}
	}
	n := len(p.keys)
	for i := 0; i < n; i++ {
		if i >= p.force {
			try(cLin{map[int]int64{i: 1}, 0})
			try(cLin{map[int]int64{i: 1}, -1})
		}
		if i > 0 && len(p.keys) > 0 {
			try(cLin{map[int]int64{0: 1, i: -1}, 0})
		}
	}
	for i := 0; i < p.force+nA; i++ {
		for j := p.force; j < p.force+nA; j++ {
			if i != j {
				try(cLin{map[int]int64{i: 1, j: -1}, 0})
				if i < p.force {
					try(cLin{map[int]int64{i: -1, j: 1}, 0})
				}
			}
		}
	}
	// conditions of the path
	at := map[*tm]cLin{}
	for i, k := range p.keys {
		l := linOf(ar.ints[k])
		if len(l.m) != 1 {
			continue
		}
		for a, c := range l.m {
			if _, ok := at[a]; !ok && (c == 1 || c == -1) {
				at[a] = cLin{map[int]int64{i: c}, -c * l.c}
			}
		}
	}
	tr := func(l lin) (cLin, bool) {
		r := cLin{map[int]int64{}, l.c}
		for a, k := range l.m {
			x, ok := at[a]
			if !ok {
				return r, false
			}
			for i, c := range x.m {
				r.m[i] += k * c
			}
			r.c += k * x.c
		}
		return r, true
	}
	for _, l := range ar.f.ge {
		if c, ok := tr(l); ok {
			try(c)
		}
	}
	for b, s := range ar.f.bytes {
		if b.op != "byte" {
			continue
		}
		for i, k := range p.hkeys {
			if ar.herb[k] == b.args[0] {
				if c, ok := tr(linOf(b.args[1])); ok {
					p.cbyte = append(p.cbyte, cByte{i, c, s})
				}
				break
			}
		}
	}
	sort.Slice(p.cbyte, func(i, j int) bool { return p.cbyte[i].idx.key() < p.cbyte[j].idx.key() })
}

// states: the two states standing for all those that satisfy the relation.
func (g *prod) states(p *bPair) (*bState, *bState) {
	ex := p.express()
	herb := map[string]*tm{}
	for i, k := range p.hkeys {
		if p.hfix[i] != nil {
			herb[k] = p.hfix[i]
			continue
		}
		so := byte('o')
		if strings.HasSuffix(k, ".base") {
			so = 's'
		}
		herb[k] = tmSym(fmt.Sprintf("@%d.t%d", p.id, p.hcls[i]), so)
	}
	ints := make([]*tm, len(p.keys))
	for i, k := range p.keys {
		if ex[i] != nil {
			continue
		}
		switch {
		case i < len(g.rigid):
			ints[i] = g.rigid[i]
		case i < p.force:
			ints[i] = tmLen(herb[strings.TrimSuffix(k, "#len")])
		default:
			ints[i] = tmSym(fmt.Sprintf("@%d.%s", p.id, k), 'i')
		}
	}
	at := func(c cLin) lin {
		l := lin{nil, c.c}
		for i, k := range c.m {
			l = l.add(linOf(ints[i]), k)
		}
		return l
	}
	for i := range p.keys {
		if ex[i] != nil {
			ints[i] = at(*ex[i]).tm()
		}
	}
	by := map[string]*tm{}
	for i, k := range p.keys {
		by[k] = ints[i]
	}
	f := newFacts()
	for _, c := range p.cand {
		l := at(c)
		if !l.constant() {
			f.ge = append(f.ge, l)
		}
	}
	f.ge = dedupLin(f.ge)
	for _, c := range p.cbyte {
		b := tmByte(herb[p.hkeys[c.base]], at(c.idx).tm())
		if b.op == "byte" {
			f.bytes[b] = f.set(b).and(c.set)
		}
	}
	var out [2]*bState
	for k, s := range p.st {
		t := s.clone()
		t.f = f
		t.walk("AB"[k:k+1], func(key string, _ *tm) *tm {
			if r := by[key]; r != nil {
				return r
			}
			if r := herb[key]; r != nil {
				return r
			}
			panic(bUnd("component %s", key))
		}, nil)
		out[k] = t
	}
	return out[0], out[1]
}

func (g *prod) explore() {
	for len(g.work) > 0 {
		p := g.work[0]
		g.work = g.work[1:]
		p.queue = false
		g.runs++
		if g.runs > 4000 {
			panic(bUnd("the relation between the two scanners does not settle"))
		}
		a0, b0 := g.states(p)
		as := []*bState{a0}
		if a0.exit == "cut" || a0.exit == "entry" {
			a0.top().fresh = a0.exit == "cut"
			a0.exit = ""
			a0.f = a0.f.clone()
			as = g.e.run(a0)
		}
		for _, a := range as {
			b := b0.clone()
			b.f = a.f.clone()
			bs := []*bState{b}
			if b.exit == "cut" || b.exit == "entry" {
				b.top().fresh = b.exit == "cut"
				b.exit = ""
				bs = g.e.run(b)
			}
			for _, b := range bs {
				g.paths++
				if a.exit == "cut" || b.exit == "cut" {
					for _, s := range []*bState{a, b} {
						if s.exit != "cut" {
							s.frames = nil
						}
					}
					g.arrive(a, b)
					continue
				}
				if g.exits(a, b) {
					g.arrive(g.entry(0, a), g.entry(1, b))
				}
			}
		}
	}
}

// ---- the two scanners

func kindNames(p *ssa.Package) map[int64]string {
	out := map[int64]string{}
	for _, n := range p.Pkg.Scope().Names() {
		if c, ok := p.Pkg.Scope().Lookup(n).(*types.Const); ok && namedOf(c.Type()) == "Type" {
			if k, ok := constant.Int64Val(c.Val()); ok {
				out[k] = n
			}
		}
	}
	return out
}

// runInit evaluates the package-level variables.
func (d *bSide) runInit() {
	fn := d.pkg.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	s := &bState{side: d, mem: map[string]*bObj{}, f: newFacts(), steps: map[*ssa.BasicBlock]int{}}
	for n, m := range d.pkg.Members {
		if v, ok := m.(*ssa.Global); ok && !strings.HasPrefix(n, "init$") {
			t := v.Type().Underlying().(*types.Pointer).Elem()
			func() {
				defer func() { recover() }()
				s.mem["glob:"+v.String()] = &bObj{zeroOf(t), t}
			}()
		} else if ok {
			s.mem["glob:"+v.String()] = &bObj{false, nil}
		}
	}
	// the body after the guard, without the initialisation of other packages
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(undecided); !ok {
					panic(r)
				}
			}
		}()
		fr := &bFrame{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]bval{}}
		s.frames = []*bFrame{fr}
		d.prepare(fn)
		for s.exit == "" {
			t := s.top()
			if c, ok := t.block.Instrs[t.idx].(*ssa.Call); ok {
				if f, ok := c.Call.Value.(*ssa.Function); ok && f.Name() == "init" && f.Pkg != d.pkg {
					t.idx++
					continue
				}
			}
			if sp := d.eng.step(s); sp != nil {
				return
			}
		}
	}()
	written := map[string]bool{}
	for f := range pkgFns(d.pkg) {
		if f == fn || f.Synthetic == "package initializer" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Global); ok {
						if u, ok := in.(*ssa.UnOp); ok && u.X == g {
							continue
						}
						if _, ok := in.(*ssa.IndexAddr); ok {
							continue
						}
						written["glob:"+g.String()] = true
					}
				}
			}
		}
	}
	d.globals = map[string]*bObj{}
	for n, o := range s.mem {
		if !written[n] {
			d.globals[n] = o
		}
	}
}

func pkgFns(p *ssa.Package) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || out[f] {
			return
		}
		out[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range p.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := p.Prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := p.Prog.MethodValue(ms.At(i))
					if f != nil && f.Pkg == p {
						add(f)
					}
				}
			}
		}
	}
	return out
}
