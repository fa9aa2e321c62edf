package main

import (
	"embed"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

//go:embed spec/*.txt
var specFS embed.FS

const (
	pkgSpec = repoModule + "/verifspec"
)

// Check is one run of the analysis for one property.
type Check struct {
	id, tier    string
	viol        []violation
	obligations int
	samples     []string
	analysed    map[string]bool
	notes       []string
}

type violation struct {
	Key    string `json:"key"`
	Detail string `json:"detail"`
}

func (c *Check) fail(key, format string, a ...any) {
	c.viol = append(c.viol, violation{key, fmt.Sprintf(format, a...)})
}

// ob counts a decided obligation; ok=false is a violation.
func (c *Check) ob(ok bool, key, format string, a ...any) bool {
	c.obligations++
	if !ok {
		c.fail(key, format, a...)
		return false
	}
	if len(c.samples) < 12 {
		c.samples = append(c.samples, key)
	}
	return true
}

type checkFn struct {
	floor int // least number of obligations that must have been found
	run   func(c *Check)
	rule  string
}

var checks = map[string]checkFn{}

func specOverlay() map[string][]byte {
	out := map[string][]byte{}
	ents, _ := specFS.ReadDir("spec")
	for _, e := range ents {
		b, _ := specFS.ReadFile("spec/" + e.Name())
		out[filepath.Join(repoDir, "verifspec", strings.TrimSuffix(e.Name(), ".txt"))] = b
	}
	return out
}

func loadAll() error {
	p, err := loadProgram(specOverlay(), "./...", "./verifspec")
	if err != nil {
		return err
	}
	prg = p
	ev = newEvaluator(p)
	initLexFacts(p)
	return nil
}

func runCheck(id, tier string) int {
	start := time.Now()
	cf, ok := checks[id]
	if !ok {
		fmt.Println("unknown property", id)
		return 2
	}
	c := &Check{id: id, tier: tier, analysed: map[string]bool{}}
	c.guarded("load", func() {
		if err := loadAll(); err != nil {
			c.fail("load", "%v", err)
			return
		}
		cf.run(c)
	})
	if len(c.viol) == 0 && c.obligations < cf.floor {
		c.fail("floor", "only %d obligations found, at least %d expected: the anchors no longer match the code", c.obligations, cf.floor)
	}
	return c.report(cf, time.Since(start).Seconds())
}

// guarded turns an analysis that cannot decide into a violation.
func (c *Check) guarded(key string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("SA_PANIC") != "" {
				panic(r)
			}
			c.obligations++
			c.fail("undecided:"+key, "the analysis cannot decide this: %v", r)
		}
	}()
	f()
}

func (c *Check) report(cf checkFn, wall float64) int {
	root := os.Getenv("SA_ROOT")
	if root == "" {
		root = "."
	}
	var fns []string
	for f := range ev0().funcs {
		if p := fnPkg(f); strings.HasPrefix(p, repoModule) && p != pkgSpec {
			fns = append(fns, strings.TrimPrefix(f.String(), repoModule+"/"))
		}
	}
	seen := map[string]bool{}
	for _, f := range fns {
		seen[f] = true
	}
	for f := range c.analysed {
		if f = strings.Replace(f, repoModule+"/", "", 1); !seen[f] {
			fns = append(fns, f)
		}
	}
	sort.Strings(fns)
	rule := cf.rule
	cov := map[string]any{
		"explanation":        rule,
		"obligations":        c.obligations,
		"discharged":         c.obligations - len(c.viol),
		"functions_analysed": len(fns),
		"functions":          fns,
		"value_graph_nodes":  len(nodes),
		"guard_nodes":        len(bm.nodes),
		"samples":            c.samples,
		"blocks_interpreted": ev0().nBlocks,
	}
	if prg != nil {
		cov["source_files"] = prg.files
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	e := map[string]any{"property": c.id, "tier": c.tier, "seed": seed(), "level": "other",
		"coverage": cov, "wall_s": wall, "violations": len(c.viol), "assumptions": assumptions}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(e, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", c.id+".json"), b, 0o644)
	if len(c.viol) == 0 {
		fmt.Printf("ok property=%s obligations=%d functions=%d wall=%.1fs\n", c.id, c.obligations, len(fns), wall)
		return 0
	}
	os.MkdirAll(filepath.Join(root, "replay"), 0o755)
	rp := filepath.Join("replay", c.id+".json")
	rb, _ := json.MarshalIndent(map[string]any{"property": c.id, "violations": c.viol}, "", " ")
	os.WriteFile(filepath.Join(root, rp), rb, 0o644)
	for i, v := range c.viol {
		if i == 8 {
			fmt.Printf("  … and %d more\n", len(c.viol)-i)
			break
		}
		fmt.Printf("  %s: %s\n", v.Key, short(v.Detail))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rp)
	return 1
}

func ev0() *Evaluator {
	if ev == nil {
		return &Evaluator{}
	}
	return ev
}

func seed() int {
	n := 0
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &n)
	return n
}

var assumptions = []string{
	"documents come from the gqlparser version pinned in go.mod: names are non-empty, Type/Position nodes are present, members occur only in definitions of the kinds that can have them",
	"names are unique within one member list of one document (fields, arguments, values, definitions), as validity of a schema demands",
	"the two documents of a comparison come from separate parses, so no node of one is the same object as a node of the other",
	"the standard library, cobra and gqlparser behave as documented",
}

// summary evaluates a function on symbolic arguments.
type summary struct {
	fn    *ssa.Function
	args  []*Node
	exits []*Edge
}

func eval(fn *ssa.Function, args ...*Node) *summary {
	if len(args) == 0 {
		for _, q := range fn.Params {
			a := param(q.Name(), q.Type())
			nonNilParams[a] = true
			args = append(args, a)
		}
	}
	st := newState()
	_, outs := evalBody(nil, fn, nil, args, st)
	return &summary{fn, args, outs}
}

// result is the value returned in position i over all normal exits, with
// references resolved.
func (s *summary) result(i int) *Node {
	var ls []leaf
	for _, e := range s.exits {
		if e.kind == eReturn && i < len(e.ret) {
			ls = append(ls, leaf{e.cond, freeze(e.ret[i], e.st, 0)})
		}
	}
	return choice(ls)
}

func (c *Check) anchor(pkg, name string) *ssa.Function {
	fn := prg.fn(pkg, name)
	if fn == nil {
		panic(undecided("anchor " + pkg + "." + name + " not found"))
	}
	return fn
}

var _ types.Type
