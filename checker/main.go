package main

import (
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"verif/checker/engine"
	"verif/checker/rules"
)

func main() {
	switch os.Args[1] {
	case "dump":
		dump(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2:]))
	case "q":
		if d := os.Getenv("VERIF_REPO"); d != "" {
			engine.RepoDir = d
		}
		p, err := engine.Load(engine.RepoDir)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		if n, err := strconv.Atoi(os.Getenv("CUBES")); err == nil {
			engine.MaxCubes, engine.MaxStr = n, 60000
		}
		rules.Query(p, os.Args[2:])
	case "list":
		for _, id := range rules.IDs() {
			fmt.Println(id)
		}
	}
}

// checkAll: all checks, P23 in a process of its own: P31 needs the bits it decides on to be created in its own order.
func checkAll(args []string) int {
	cmd := exec.Command(os.Args[0], append([]string{"check", "P23"}, args...)...)
	done := make(chan []byte)
	go func() {
		out, _ := cmd.Output()
		done <- out
	}()
	var ids []string
	for _, id := range rules.IDs() {
		if id != "P23" {
			ids = append(ids, id)
		}
	}
	rc := checkIDs(ids, args)
	os.Stdout.Write(<-done)
	return max(rc, cmd.ProcessState.ExitCode())
}

// check <id>|all [-v]
func check(args []string) int {
	if args[0] == "all" {
		return checkAll(args[1:])
	}
	return checkIDs(args[:1], args[1:])
}

func checkIDs(ids, args []string) int {
	t0 := time.Now()
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	verbose := len(args) > 0 && args[0] == "-v"
	if d := os.Getenv("VERIF_REPO"); d != "" {
		engine.RepoDir = d
	}
	p, err := engine.Load(engine.RepoDir)
	rc := 0
	for _, id := range ids {
		if r := rules.Check(verif, p, err, id, tier, seed, t0, verbose); r > rc {
			rc = r
		}
		t0 = time.Now()
	}
	return rc
}

func find(p *engine.Program, spec string) *ssa.Function {
	// pkg:Func or pkg:Type.Method
	i := strings.Index(spec, ":")
	pkg, n := "", spec
	if i >= 0 {
		pkg, n = spec[:i], spec[i+1:]
	}
	if j := strings.Index(n, "."); j >= 0 {
		return p.Method(pkg, n[:j], n[j+1:])
	}
	return p.Func(pkg, n)
}

func dump(args []string) {
	p, err := engine.Load("/repo")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if os.Getenv("LIST") != "" {
		for _, k := range p.Pkgs {
			fmt.Println(k.PkgPath, len(k.Syntax))
		}
	}
	for _, a := range strings.Split(os.Getenv("OPAQUE"), ",") {
		if a != "" {
			p.OpaqueNames[a] = true
		}
	}
	for _, a := range args {
		fn := find(p, a)
		if fn == nil {
			fmt.Println("not found:", a)
			continue
		}
		e := engine.NewEval(p)
		e.StrictAssert = os.Getenv("STRICT") != ""
		o := e.Run(fn, nil, nil, engine.True)
		fmt.Println("=====", fn)
		for _, ex := range o.Exits {
			if os.Getenv("SUCC") != "" {
				break
			}
			k := "return"
			if ex.Panic {
				k = "PANIC"
			}
			pos := p.SSA.Fset.Position(ex.Pos)
			fmt.Printf("--- %s %s:%d\n", k, pos.Filename, pos.Line)
			for _, c := range engine.Cubes(ex.G, 10) {
				fmt.Println("    if", c)
			}
		}
		n := fn.Signature.Results().Len()
		if os.Getenv("SUCC") == "1" {
			n = 0
		}
		for i := 0; i < n; i++ {
			fmt.Printf("result %d:\n", i)
			for _, a := range o.Result(i) {
				fmt.Println("    ", a.T)
				for _, c := range engine.Cubes(a.G, 6) {
					fmt.Println("          if", c)
				}
			}
		}
		fmt.Println("success:")
		for _, c := range engine.Cubes(o.Succ(), 12) {
			fmt.Println("     *", strings.ReplaceAll(c, " && ", "\n        && "))
		}
	}
}
