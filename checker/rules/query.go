package rules

import (
	"fmt"
	"os"
	"strings"

	"verif/checker/engine"
)

// Query prints a summary (development aid): anchor, assumption, comma separated names, comma separated opaque functions.
func init() {
	Queries = map[string]func(*engine.Program){
		"schema":    func(p *engine.Program) { DumpSchema(p, engine.RepoMod, engine.RepoMod+"/merklehasher") },
		"apischema": func(p *engine.Program) { DumpSchema(p, engine.RepoMod+"/api") },
	}
}

var Queries map[string]func(*engine.Program)

func Query(p *engine.Program, args []string) {
	if f := Queries[args[0]]; f != nil {
		f(p)
		return
	}
	c := NewCtx(p, "Q")
	o := Opt{Fns: vmFns, Opaque: timeOpaque}
	if len(args) > 1 {
		o.Assume = args[1]
	}
	if len(args) > 2 && args[2] != "" {
		o.Names = strings.Split(args[2], ",")
	}
	if len(args) > 3 {
		o.Opaque = append(o.Opaque, strings.Split(args[3], ",")...)
	}
	o.Events = os.Getenv("EV") != ""
	o.Strict = os.Getenv("STRICT") != ""
	if l := os.Getenv("LENS"); l != "" {
		o.Lens = map[string]int{}
		for _, kv := range strings.Split(l, ",") {
			k, v, _ := strings.Cut(kv, "=")
			n := 0
			fmt.Sscan(v, &n)
			o.Lens[k] = n
		}
	}
	if l := os.Getenv("LISTS"); l != "" { // path=a,b;path=c
		o.Lists = map[string][]string{}
		for _, kv := range strings.Split(l, ";") {
			k, v, _ := strings.Cut(kv, "=")
			o.Lists[k] = nil
			if v != "" {
				o.Lists[k] = strings.Split(v, ",")
			}
		}
	}
	s := c.Sum(args[0], o)
	if s.Err != "" {
		fmt.Println("ERR", s.Err)
		return
	}
	fmt.Println("=====", s.Fn, s.pos())
	nl := func(c string) string { return strings.ReplaceAll(c, " && ", "\n        && ") }
	if os.Getenv("EX") != "" {
		for _, ex := range s.Out.Exits {
			if ok, _, _ := engine.Sat(p, engine.And(s.Assume, ex.G)); !ok {
				continue
			}
			k := "return"
			if ex.Panic {
				k = "PANIC"
			}
			fmt.Println("---", k, c.Pos(ex.Pos))
			for _, q := range engine.Cubes(engine.And(s.Assume, ex.G), 6) {
				fmt.Println("    if", nl(q))
			}
		}
	}
	if os.Getenv("EV") != "" {
		for _, ev := range s.Out.E.Events {
			if ev.Kind == "call" {
				fmt.Println("call", ev.T, "args", ev.Args)
			}
		}
	}
	if os.Getenv("RES") != "" {
		for i := 0; i < s.Fn.Signature.Results().Len(); i++ {
			fmt.Println("result", i)
			for _, a := range s.Out.Result(i) {
				if ok, _, _ := engine.Sat(p, engine.AndAll(s.Assume, a.G)); !ok {
					continue
				}
				fmt.Println("   ", a.T)
				for _, q := range engine.Cubes(engine.And(s.Assume, a.G), 4) {
					fmt.Println("        if", nl(q))
				}
			}
		}
	}
	if f := os.Getenv("FIN"); f != "" {
		for _, x := range strings.Split(f, ";") {
			fmt.Println("final", x, "=", s.Scope.Term("final("+x+")"))
		}
	}
	fmt.Println("success:")
	for _, q := range engine.Cubes(engine.And(s.Assume, s.Out.Succ()), 8) {
		fmt.Println("     *", nl(q))
	}
}
