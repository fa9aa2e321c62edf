package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C25: no crash.  Every operation that can panic contributes an obligation
// under the predicate on which it is control dependent and fails; each must be
// refutable from what the parser guarantees.

func (c *Check) crashFree(where string, cond B, obs []row, facts func(r row) []B) {
	n := 0
	for _, r := range obs {
		if r.item.op != OEvent {
			continue
		}
		kind, at, _ := strings.Cut(r.item.sym, "@")
		if kind == "mutate" {
			continue
		}
		if strings.HasPrefix(kind, "recpre:") {
			// the unfolding of a recursion assumes that its pointer parameters are not nil
			for _, a := range r.item.args {
				if !isPtr(a.typ) {
					continue
				}
				g := and(cond, r.guard, nilB(a))
				ok := refute(g, facts(r)...)
				if !ok {
					debugModel(where + " " + kind)
				}
				c.ob(ok, where+": recursive call of "+kind[len("recpre:"):], "nil can be passed for %s, when {%s}", short(a.String()), short(showB(g, 0)))
			}
			continue
		}
		n++
		key := where + ": " + kind + " " + at
		what := map[string]string{"nil": "a nil pointer can be followed", "bounds": "an index can be out of range", "slice": "slice bounds can be out of range", "panic": "a panic can be reached", "nilmap": "a write into a nil map is possible", "assert": "a type assertion can fail"}[kind]
		if what == "" {
			what = "an operation that cannot be judged: " + kind
		}
		args := ""
		for _, a := range r.item.args {
			args += " " + short(a.String())
		}
		g := and(cond, r.guard)
		ok := refute(g, facts(r)...)
		if !ok {
			debugModel(key)
		}
		c.ob(ok, key, "%s:%s, when {%s}", what, args, short(showB(g, 0)))
	}
}

func init() {
	checks["C25"] = checkFn{60, func(c *Check) { c.c25() }, cmdText + "Every dereference, index, slice, assertion, map write and panic is an obligation under its control dependence; each must be refuted from the guarantees of the parser."}
}

// setFields: fields of the elements of a reported list which are never nil, by
// type and field.  Established by fieldsSet for every list before they are used.
var setFields = map[string]bool{}

// fieldsSet looks at every element of a list of pointers or structs: which of
// its nilable fields are never nil.
func (c *Check) fieldsSet(where string, list *Node, never map[string]bool) {
	for _, r := range rowsOf(list) {
		it := r.item
		facts := chainFacts(r.vars)
		if isPtr(it.typ) {
			c.ob(refute(and(r.guard, nilB(it)), facts...), where+": element of the result", "a nil element is returned when {%s}", short(showB(and(r.guard, nilB(it)), 0)))
		}
		t := it.typ
		if t == nil {
			continue
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if _, isI := f.Type().Underlying().(*types.Interface); !isI && !isPtrType(f.Type()) {
				continue
			}
			name := namedOf(t) + "." + f.Name()
			g := and(r.guard, nilB(fieldOf(it, f.Name())))
			ok := refute(g, facts...)
			if !ok {
				never[name] = false
			} else if _, seen := never[name]; !seen {
				never[name] = true
			}
			if nonNilFields[f.Name()] && isPtrType(f.Type()) {
				c.ob(ok, where+": "+name, "%s can be nil when {%s}", name, short(showB(g, 0)))
			}
		}
	}
}

func (c *Check) c25() {
	never := map[string]bool{}
	defer func() { setFields = map[string]bool{} }()
	c.guarded("FindChangesInSchemas", func() {
		_, s := c.wholeComparison()
		c.fieldsSet("FindChangesInSchemas", s.result(0), never)
		for _, e := range s.exits {
			c.crashFree("FindChangesInSchemas", e.cond, rowsOf(e.st.obs), func(r row) []B { return chainFacts(r.vars) })
		}
	})
	c.eachRule(func(fn *ssa.Function, s *summary) {
		c.fieldsSet(fn.Name(), s.result(0), never)
		for _, e := range s.exits {
			c.crashFree(fn.Name(), e.cond, rowsOf(e.st.obs), func(r row) []B { return chainFacts(r.vars) })
		}
	})
	for k, v := range never {
		if v {
			setFields[k] = true
		}
	}
	c.eachRun(func(r *cmdRun) {
		for _, x := range r.exits {
			x := x
			c.crashFree(r.name(), x.cond, x.obs, func(w row) []B { return exitFacts(x, w.vars) })
		}
	})
}

func elemName(list *Node) string {
	t := elemType(list.typ)
	if t == nil {
		return ""
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return namedOf(t)
}
