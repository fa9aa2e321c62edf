package main

import (
	"fmt"
	"os"
	"strings"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: sa dump PKG FUNC | check ID TIER")
		os.Exit(2)
	}
	var err error
	tmpDir, err = os.MkdirTemp("", "sa-")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	code := run()
	os.RemoveAll(tmpDir)
	os.Exit(code)
}

var devCmds = map[string]func() int{}

func run() int {
	if d := os.Getenv("SA_REPO"); d != "" {
		repoDir = d
	}
	switch os.Args[1] {
	case "dump":
		return dump(os.Args[2], os.Args[3])
	case "specdump":
		return specDump(os.Args[2])
	case "cmd":
		return dumpCmd(os.Args[2], strings.Join(os.Args[3:], " "))
	case "check":
		return runCheck(os.Args[2], os.Args[3])
	}
	if f := devCmds[os.Args[1]]; f != nil {
		return f()
	}
	return 2
}

func dump(pkg, name string) int {
	p, err := loadProgram(nil, "./...")
	if err != nil {
		fmt.Println(err)
		return 1
	}
	if !strings.Contains(pkg, "/") {
		pkg = map[string]string{"compare": pkgCompare, "linter": pkgLinter, "utils": pkgUtils, "clint": pkgCmd + "/linter", "ccompare": pkgCmd + "/compare", "cmd": pkgCmd, "root": repoModule}[pkg]
	}
	ev = newEvaluator(p)
	initLexFacts(p)
	selectedCmd = os.Getenv("SA_CMD")
	cutCommands = selectedCmd != ""
	pruning = cutCommands && os.Getenv("SA_NOPRUNE") == ""
	for _, f := range strings.Fields(os.Getenv("SA_FLAGS")) {
		flagCase[f[1:]] = f[0] == '+'
	}
	fn := p.fn(pkg, name)
	if fn == nil {
		fmt.Println("no such function")
		return 1
	}
	var args []*Node
	for _, q := range fn.Params {
		a := param(q.Name(), q.Type())
		nonNilParams[a] = true
		args = append(args, a)
	}
	_, outs := evalBody(nil, fn, nil, args, newState())
	for _, e := range outs {
		fmt.Printf("--- exit kind %d cond %s\n", e.kind, showB(e.cond, 0))
		for _, r := range e.ret {
			fmt.Println("  ret", freeze(r, e.st, 0))
		}
		if e.code != nil {
			fmt.Println("  code", e.code)
		}
		for _, s := range segs(e.st.trace) {
			fmt.Println("  trace", s)
		}
		for _, s := range segs(e.st.obs) {
			fmt.Println("  ob", s)
		}
	}
	fmt.Println("nodes", len(nodes), "bdd", len(bm.nodes), "blocks", ev.nBlocks)
	return 0
}

func specDump(name string) int {
	if err := loadAll(); err != nil {
		fmt.Println(err)
		return 1
	}
	s := eval(prg.fn(pkgSpec, name))
	for _, r := range rowsOf(s.result(0)) {
		fmt.Printf("%s\n   if %s\n   %s\n", chainText(r.vars), showB(r.guard, 0), r.item)
	}
	fmt.Println("nodes", len(nodes), "bdd", len(bm.nodes))
	return 0
}

func init() {
	devCmds["hidden"] = func() int {
		if err := loadAll(); err != nil {
			fmt.Println(err)
			return 1
		}
		c := &Check{}
		cutCommands = true
		for _, f := range []string{"Hidden", "RuleNamed"} {
			s := eval(c.anchor(pkgSpec, f))
			fmt.Println(s.result(0))
		}
		return 0
	}
}

func diffAtoms(f, g B) {
	fa, ga := map[*Node]bool{}, map[*Node]bool{}
	for _, a := range supportAtoms(f) {
		fa[a] = true
	}
	for _, a := range supportAtoms(g) {
		ga[a] = true
		if !fa[a] {
			fmt.Println("  only 2nd", a.String())
		}
	}
	for a := range fa {
		if !ga[a] {
			fmt.Println("  only 1st", a.String())
		}
	}
}
