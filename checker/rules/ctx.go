// Package rules holds the property rules and the machinery that decides them.
package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/engine"
)

// Obl is one decided obligation.
type Obl struct {
	Key    string // rule|construct : stable identity
	Anchor string // file:line of the construct
	OK     bool
	Detail string // for failures: what was violated and where
}

// Ctx collects the obligations of one property.
type Ctx struct {
	P     *engine.Program
	ID    string
	Obls  []Obl
	Funcs map[string]bool
	Notes []string
	sums  map[string]*Sum
	sch   *Schema
}

// NewCtx starts a property.
func NewCtx(p *engine.Program, id string) *Ctx {
	return &Ctx{P: p, ID: id, Funcs: map[string]bool{}, sums: map[string]*Sum{}}
}

// Fail is raised inside an obligation.
type Fail struct{ Msg string }

// Failf aborts the current obligation.
func Failf(f string, a ...any) { panic(Fail{fmt.Sprintf(f, a...)}) }

// Ob runs one obligation; a panic of any kind fails it.
func (c *Ctx) Ob(key, anchor string, f func()) {
	o := Obl{Key: key, Anchor: anchor, OK: true}
	func() {
		defer func() {
			if r := recover(); r != nil {
				o.OK = false
				switch v := r.(type) {
				case Fail:
					o.Detail = v.Msg
				case engine.SpecError:
					o.Detail = "rule cannot be resolved against the current source: " + string(v)
				default:
					o.Detail = fmt.Sprintf("undecided: analysis failed: %v", r)
					if os.Getenv("VDEBUG") != "" {
						o.Detail += "\n" + string(debug.Stack())
					}
				}
			}
		}()
		f()
	}()
	c.Obls = append(c.Obls, o)
}

// Pos renders a position relative to the repository.
func (c *Ctx) Pos(p token.Pos) string {
	q := c.P.SSA.Fset.Position(p)
	if r, err := filepath.Rel(engine.RepoDir, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		return fmt.Sprintf("%s:%d", r, q.Line)
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// Opt configures a summary.
type Opt struct {
	Names    []string // parameter names used by the specification, by position
	Made     string   // the receiver is what this function returns for the arguments Outer
	Outer    []string // for a returned closure: names of the enclosing function's parameters
	Assume   string
	Opaque   []string // function short names kept uninterpreted
	Ident    []string // opaque functions that stand for their only argument
	Strict   bool     // unchecked type assertions panic
	Bounds   bool
	Optional []string // fields that may be nil (NilSafe)
	NoOvf    bool     // consider only inputs on which checked arithmetic does not overflow
	Events   bool     // record calls for AtCall
	Case     string   // label
	Defs     map[string]string
	Fns      map[string]engine.Macro
	Types    map[string]string   // refine a parameter: name -> dynamic type "pkg.T" or "*pkg.T"
	Fields   map[string]string   // invariants: "pkg.Type.field" -> its value in terms of "self" (the constructor establishes it, see Invariant)
	Args     map[string]string   // parameters with the value of a specification expression
	Lists    map[string][]string // members holding a list of these symbolic elements
	Lens     map[string]int      // slice parameters of a fixed length, with symbolic elements
}

// Sum is a function summary together with the scope its specification is read in.
type Sum struct {
	C      *Ctx
	Name   string
	Fn     *ssa.Function
	Out    *engine.Outcome
	Scope  *engine.Scope
	Assume engine.B
	Err    string
	Bounds int // accesses checked by InBounds
	opt    Opt
}

// Find resolves an anchor: pkg:Func, pkg:Type.Method, pkg:Func() (the function value it returns).
func (c *Ctx) Find(anchor string) *ssa.Function {
	pkg, n := "", anchor
	if i := strings.Index(anchor, ":"); i >= 0 {
		pkg, n = anchor[:i], anchor[i+1:]
	}
	n = strings.TrimSuffix(n, "()")
	if r := strings.TrimSuffix(n, "~"); r != n {
		return recursive(c.Find(pkg + ":" + r))
	}
	if j := strings.Index(n, "."); j >= 0 {
		return c.P.Method(pkg, n[:j], n[j+1:])
	}
	return c.P.Func(pkg, n)
}

// recursive finds the self-recursive function that fn is or uses.
func recursive(fn *ssa.Function) *ssa.Function {
	seen := map[*ssa.Function]bool{}
	todo := []*ssa.Function{fn}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		if f == nil || seen[f] || f.Pkg != nil && !strings.HasPrefix(f.Pkg.Pkg.Path(), engine.RepoMod) {
			continue
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok {
					if t := call.Common().StaticCallee(); t == f {
						return f
					} else if t != nil {
						todo = append(todo, t)
					}
				}
			}
		}
	}
	return nil
}

// Sum evaluates an anchor once per option set.
func (c *Ctx) Sum(anchor string, opt Opt) *Sum {
	key := fmt.Sprint(anchor, opt)
	if s, ok := c.sums[key]; ok {
		return s
	}
	s := &Sum{C: c, Name: anchor, opt: opt}
	if opt.Case != "" {
		s.Name += "[" + opt.Case + "]"
	}
	c.sums[key] = s
	func() {
		if len(opt.Fields) > 0 {
			engine.FieldDef = c.fieldDefs(opt.Fields)
		}
		defer func() {
			engine.FieldDef = nil
			if r := recover(); r != nil {
				switch v := r.(type) {
				case Fail:
					s.Err = v.Msg
				case engine.SpecError:
					s.Err = "rule cannot be resolved against the current source: " + string(v)
				default:
					s.Err = fmt.Sprintf("analysis failed: %v", r)
					if os.Getenv("VDEBUG") != "" {
						s.Err += "\n" + string(debug.Stack())
					}
				}
			}
		}()
		fn := c.Find(anchor)
		if fn == nil {
			Failf("function %s not found", anchor)
		}
		s.Fn = fn
		s.run(fn, strings.HasSuffix(anchor, "()"))
	}()
	return s
}

func (s *Sum) run(fn *ssa.Function, returned bool) {
	s.evaluate(s.prepare(), fn, returned)
}

func (s *Sum) prepare() *engine.Eval {
	c := s.C
	opaque := map[string]bool{}
	hide := map[string]map[int]bool{}
	for _, o := range s.opt.Opaque { // name!i!j leaves arguments i and j out of the call term
		ps := strings.Split(o, "!")
		opaque[ps[0]] = true
		for _, p := range ps[1:] {
			if hide[ps[0]] == nil {
				hide[ps[0]] = map[int]bool{}
			}
			k, _ := strconv.Atoi(p)
			hide[ps[0]][k] = true
		}
	}
	newEval := func() *engine.Eval {
		e := engine.NewEval(c.P)
		e.StrictAssert = s.opt.Strict
		e.Bounds = s.opt.Bounds
		e.Optional = map[string]bool{}
		for _, o := range s.opt.Optional {
			e.Optional[o] = true
		}
		e.NoOverflow = s.opt.NoOvf
		e.RecordEvents = s.opt.Events
		e.Hide = hide
		for _, n := range s.opt.Ident {
			opaque[n] = true
			if e.Ident == nil {
				e.Ident = map[string]bool{}
			}
			e.Ident[n] = true
		}
		if len(opaque) > 0 {
			e.Opaque = func(f *ssa.Function) bool { return opaque[engine.FuncName(f)] }
		}
		return e
	}
	s.Scope = &engine.Scope{P: c.P, Vars: map[string]*engine.Term{}, Defs: s.opt.Defs, Fns: s.opt.Fns}
	s.Assume = engine.True
	return newEval()
}

// SumTerm evaluates a function value that another function made.
func (c *Ctx) SumTerm(name string, t *engine.Term, made *engine.Outcome, opt Opt) *Sum {
	s := &Sum{C: c, Name: name, opt: opt}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch v := r.(type) {
				case Fail:
					s.Err = v.Msg
				case engine.SpecError:
					s.Err = "rule cannot be resolved against the current source: " + string(v)
				default:
					s.Err = fmt.Sprintf("analysis failed: %v", r)
				}
			}
		}()
		if t != nil && t.Op == "global" {
			t = c.P.InitValue(t.Sym)
		}
		if t == nil || t.Op != "fn" && t.Op != "closure" || c.P.FnOf(t) == nil {
			Failf("%s: function not resolved", name)
		}
		e := s.prepare()
		s.closure(e, t, made)
		s.finish(e)
	}()
	return s
}

func (s *Sum) closure(e *engine.Eval, clo *engine.Term, made *engine.Outcome) {
	target := s.C.P.FnOf(clo)
	args := engine.SymParams(target, s.opt.Names)
	s.bind(target, args)
	s.Out = e.RunClosureOutcome(clo, args, made, s.Assume)
	s.Fn = target
}

func (s *Sum) evaluate(e *engine.Eval, fn *ssa.Function, returned bool) {
	if returned {
		oargs := engine.SymParams(fn, s.opt.Outer)
		for i, a := range oargs {
			if i < len(s.opt.Outer) {
				s.Scope.Vars[s.opt.Outer[i]] = engine.Box(a)
			}
		}
		o := e.Run(fn, nil, engine.ArgMap(oargs), engine.True)
		var clo *engine.Term
		for _, a := range o.Result(0) {
			if a.T.Op == "closure" || a.T.Op == "fn" {
				if clo != nil && clo != a.T {
					Failf("%s returns more than one function", s.Name)
				}
				clo = a.T
			}
		}
		if clo == nil {
			Failf("%s: returned function not resolved", s.Name)
		}
		s.closure(e, clo, o)
	} else {
		args := engine.SymParams(fn, s.opt.Names)
		if s.opt.Made != "" {
			args[0] = s.made(e)
		}
		for i := range args {
			n := fn.Params[i].Name()
			if i < len(s.opt.Names) && s.opt.Names[i] != "" {
				n = s.opt.Names[i]
			}
			if k, ok := s.opt.Lens[n]; ok {
				args[i] = engine.SymList(n, fn.Params[i].Type(), k)
			}
			if a, ok := s.opt.Args[n]; ok {
				args[i] = engine.Unbox(s.Scope.Term(a))
			}
		}
		s.bindVars(fn, args)
		for m, els := range s.opt.Lists {
			s.Scope.SeedList(e, m, els)
		}
		s.bind(fn, args)
		s.Out = e.Run(fn, nil, engine.ArgMap(args), s.Assume)
	}
	s.finish(e)
}

// made is the object the function Made returns; its memory becomes the memory at the entry.
func (s *Sum) made(e *engine.Eval) engine.GVal {
	fn := s.C.Find(s.opt.Made)
	if fn == nil {
		Failf("function %s not found", s.opt.Made)
	}
	args := engine.SymParams(fn, s.opt.Outer)
	s.bindVarsNamed(fn, args, s.opt.Outer)
	assume := engine.True
	if s.opt.Assume != "" {
		assume = s.Scope.Bool(s.opt.Assume)
	}
	o := e.Run(fn, nil, engine.ArgMap(args), assume)
	e.Events = nil
	r := o.Made(engine.And(assume, o.Succ()))
	if r == nil {
		Failf("%s: the object it makes is not resolved", s.opt.Made)
	}
	return r
}

func (s *Sum) bindVarsNamed(fn *ssa.Function, args []engine.GVal, names []string) {
	for i, a := range args {
		if i < len(names) {
			s.Scope.Vars[names[i]] = engine.Box(a)
		}
	}
}

func (s *Sum) finish(e *engine.Eval) {
	c := s.C
	s.Scope.Out = s.Out
	for i := 0; i < s.Fn.Signature.Results().Len(); i++ {
		if r := s.Out.Result(i); len(r) > 0 {
			s.Scope.Vars[fmt.Sprintf("ret%d", i)] = engine.Box(r)
		}
	}
	for f := range e.Reached {
		c.Funcs[f.String()] = true
	}
}

func (s *Sum) bindVars(fn *ssa.Function, args []engine.GVal) {
	for i, a := range args {
		n := fn.Params[i].Name()
		if i < len(s.opt.Names) && s.opt.Names[i] != "" {
			n = s.opt.Names[i]
		}
		s.Scope.Vars[n] = engine.Box(a)
	}
}

func (s *Sum) bind(fn *ssa.Function, args []engine.GVal) {
	s.bindVars(fn, args)
	if s.opt.Assume != "" {
		s.Assume = s.Scope.Bool(s.opt.Assume)
	}
}

func (s *Sum) pos() string {
	if s.Fn == nil {
		return ""
	}
	return s.C.Pos(s.Fn.Pos())
}

func (s *Sum) ob(label string, f func()) {
	s.C.Ob(s.Name+"|"+label, s.pos(), func() {
		if s.Err != "" {
			Failf("%s", s.Err)
		}
		f()
	})
}

func showModel(pos, neg []*engine.Term) string {
	var ss []string
	for _, t := range pos {
		ss = append(ss, "    "+clip(t.String(), 400))
	}
	for _, t := range neg {
		ss = append(ss, "    NOT "+clip(t.String(), 400))
	}
	sort.Strings(ss)
	if len(ss) > 24 {
		ss = append(ss[:24], "    ...")
	}
	return strings.Join(ss, "\n")
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// exitsFor lists the exits whose guard is compatible with b.
func (s *Sum) exitsFor(b engine.B, okOnly bool) string {
	seen := map[string]bool{}
	var out []string
	for _, ex := range s.Out.Exits {
		if ok, _, _ := engine.Sat(s.C.P, engine.And(ex.G, b)); !ok {
			continue
		}
		k := "return"
		if ex.Panic {
			k = "panic"
		}
		t := k + " at " + s.C.Pos(ex.Pos)
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	if len(out) > 6 {
		out = append(out[:6], "...")
	}
	return strings.Join(out, ", ")
}

// Require: whenever the function succeeds (under the assumption) the specification holds.
func (s *Sum) Require(label, spec string) *Sum { return s.RequireIf(label, "", spec) }

// RequireIf: as Require with an additional premise.
func (s *Sum) RequireIf(label, premise, spec string) *Sum {
	s.ob(label, func() {
		pre := engine.And(s.Assume, s.Out.Succ())
		if premise != "" {
			pre = engine.And(pre, s.Scope.Bool(premise))
		}
		if ok, _, _ := engine.Sat(s.C.P, pre); !ok {
			Failf("the premise is never satisfied: the accepting path this rule is about has disappeared")
		}
		want := s.Scope.Bool(spec)
		if ok, pos, neg := engine.Entails(s.C.P, pre, want); !ok {
			Failf("accepts although NOT (%s)\n  accepting exits: %s\n  accepted state:\n%s", spec, s.exitsFor(engine.And(pre, engine.Not(want)), true), showModel(pos, neg))
		}
	})
	return s
}

// Always: whenever the function returns, successfully or not, the specification holds.
func (s *Sum) Always(label, premise, spec string) *Sum {
	s.ob(label, func() {
		pre := engine.False
		for _, ex := range s.Out.Exits {
			if !ex.Panic {
				pre = engine.Or(pre, ex.G)
			}
		}
		pre = engine.And(pre, s.Assume)
		if premise != "" {
			pre = engine.And(pre, s.Scope.Bool(premise))
		}
		if ok, _, _ := engine.Sat(s.C.P, pre); !ok {
			Failf("the premise is never satisfied: the path this rule is about has disappeared")
		}
		if ok, pos, neg := engine.Entails(s.C.P, pre, s.Scope.Bool(spec)); !ok {
			Failf("returns although NOT (%s)\n  state:\n%s", spec, showModel(pos, neg))
		}
	})
	return s
}

// Exact: under the premise the function succeeds exactly if the specification holds.
func (s *Sum) Exact(label, premise, spec string) *Sum {
	s.ob(label, func() {
		pre := s.Assume
		if premise != "" {
			pre = engine.And(pre, s.Scope.Bool(premise))
		}
		succ := s.Out.Succ()
		want := s.Scope.Bool(spec)
		if ok, pos, neg := engine.Entails(s.C.P, engine.And(pre, succ), want); !ok {
			Failf("accepts although NOT (%s)\n  accepting exits: %s\n  accepted state:\n%s", spec, s.exitsFor(engine.AndAll(pre, succ, engine.Not(want)), true), showModel(pos, neg))
		}
		if ok, pos, neg := engine.Entails(s.C.P, engine.And(pre, want), engine.And(succ, engine.Not(s.Out.Fail()))); !ok {
			Failf("rejects although (%s)\n  rejecting exits: %s\n  rejected state:\n%s", spec, s.exitsFor(engine.AndAll(pre, want, s.Out.Fail()), false), showModel(pos, neg))
		}
		if ok, _, _ := engine.Sat(s.C.P, engine.And(pre, want)); !ok {
			Failf("vacuous rule: specification is unsatisfiable")
		}
	})
	return s
}

// Accepts: under the premise the function cannot fail.
func (s *Sum) Accepts(label, premise string) *Sum {
	s.ob(label, func() {
		pre := engine.And(s.Assume, s.Scope.Bool(premise))
		if ok, pos, neg := engine.Entails(s.C.P, pre, engine.And(s.Out.Succ(), engine.Not(s.Out.Fail()))); !ok {
			Failf("rejects although (%s)\n  rejecting exits: %s\n  rejected state:\n%s", premise, s.exitsFor(engine.And(pre, s.Out.Fail()), false), showModel(pos, neg))
		}
	})
	return s
}

// Rejects: under the premise the function never succeeds.
func (s *Sum) Rejects(label, premise string) *Sum {
	s.ob(label, func() {
		pre := engine.AndAll(s.Assume, s.Scope.Bool(premise))
		if ok, pos, neg := engine.Sat(s.C.P, engine.And(pre, s.Out.Succ())); ok {
			Failf("accepts although (%s)\n  accepting exits: %s\n  accepted state:\n%s", premise, s.exitsFor(engine.And(pre, s.Out.Succ()), true), showModel(pos, neg))
		}
	})
	return s
}

// Result: on success (under the premise) result i is the specified value.
func (s *Sum) Result(label string, i int, premise, spec string) *Sum {
	s.ob(label, func() {
		pre := engine.And(s.Assume, s.Out.Succ())
		if premise != "" {
			pre = engine.And(pre, s.Scope.Bool(premise))
		}
		if ok, _, _ := engine.Sat(s.C.P, pre); !ok {
			Failf("the premise is never satisfied: the path this rule is about has disappeared")
		}
		got := s.Out.Result(i)
		want := s.Scope.Term(spec)
		bad := engine.False
		desc := ""
		for _, a := range got {
			neq := engine.AndAll(pre, a.G, engine.Not(engine.SameB(a.T, want)))
			if ok, pos, neg := engine.Sat(s.C.P, neq); ok {
				bad = engine.Or(bad, neq)
				if desc == "" {
					desc = fmt.Sprintf("result %d is %s\n  instead of %s\n  when\n%s", i, clip(a.T.String(), 900), clip(want.String(), 900), showModel(pos, neg))
				}
			}
		}
		if len(got) == 0 {
			Failf("no result")
		}
		if bad != engine.False {
			Failf("%s\n  exits: %s", desc, s.exitsFor(bad, true))
		}
	})
	return s
}

// ResultAny: result i is one of the given (equivalent) forms of the specification.
func (s *Sum) ResultAny(label string, i int, specs ...string) *Sum {
	s.ob(label, func() {
		pre := engine.And(s.Assume, s.Out.Succ())
		got := s.Out.Result(i)
		if len(got) == 0 {
			Failf("no result")
		}
		for _, a := range got {
			neq := engine.And(pre, a.G)
			for _, sp := range specs {
				neq = engine.And(neq, engine.Not(engine.SameB(a.T, s.Scope.Term(sp))))
			}
			if ok, pos, neg := engine.Sat(s.C.P, neq); ok {
				Failf("result %d is %s\n  instead of %s\n  when\n%s\n  exits: %s", i, clip(a.T.String(), 900), specs[0], showModel(pos, neg), s.exitsFor(neq, true))
			}
		}
	})
	return s
}

// ResultB: boolean result i is exactly the specification (no success premise).
func (s *Sum) ResultB(label string, i int, premise, spec string) *Sum {
	s.ob(label, func() {
		pre := s.Assume
		if premise != "" {
			pre = engine.And(pre, s.Scope.Bool(premise))
		}
		got := engine.TruthB(engine.Box(s.Out.Result(i)))
		pre = engine.And(pre, s.Out.Returns())
		want := s.Scope.Bool(spec)
		if ok, pos, neg := engine.Entails(s.C.P, engine.And(pre, got), want); !ok {
			Failf("true although NOT (%s)\n  when\n%s", spec, showModel(pos, neg))
		}
		if ok, pos, neg := engine.Entails(s.C.P, engine.And(pre, want), got); !ok {
			Failf("false although (%s)\n  when\n%s", spec, showModel(pos, neg))
		}
	})
	return s
}

// NoPanic: no explicit panic (and, with Strict, no failing unchecked assertion) is reachable under the premise.
func (s *Sum) NoPanic(label, premise string) *Sum {
	s.ob(label, func() {
		pre := s.Assume
		if premise != "" {
			pre = engine.And(pre, s.Scope.Bool(premise))
		}
		b := engine.And(pre, s.Out.Panics())
		if ok, pos, neg := engine.Sat(s.C.P, b); ok {
			Failf("can panic: %s\n  when\n%s", s.exitsFor(b, false), showModel(pos, neg))
		}
	})
	return s
}

// InBounds: every index, slice and slice-to-array conversion reached under the premise is within its operand.
// The summary must have been made with Bounds.
func (s *Sum) InBounds(label, premise string) *Sum {
	s.ob(label, func() {
		pre := s.Assume
		if premise != "" {
			pre = engine.And(pre, s.Scope.Bool(premise))
		}
		n, bad := 0, ""
		for _, ev := range s.Out.E.Events {
			if !ev.IsBound() {
				continue
			}
			n++
			ok, pos, neg := engine.Entails(s.C.P, engine.And(pre, ev.G), ev.BoundB())
			if !ok && bad == "" {
				bad = fmt.Sprintf("%s of %s at %s may be out of range\n  when\n%s", ev.Kind, clip(ev.T.String(), 300), s.C.Pos(ev.Pos), showModel(pos, neg))
			}
		}
		if bad != "" {
			Failf("%s", bad)
		}
		s.Bounds += n
	})
	return s
}

// NilSafe: no pointer is dereferenced where it is nil: an absent map entry, an explicit nil or an optional field.
// The summary must have been made with Bounds.
func (s *Sum) NilSafe(label, premise string) *Sum {
	s.ob(label, func() {
		pre := s.Assume
		if premise != "" {
			pre = engine.And(pre, s.Scope.Bool(premise))
		}
		for _, ev := range s.Out.E.Events {
			if ev.Kind != "nilderef" {
				continue
			}
			if ok, pos, neg := engine.Entails(s.C.P, engine.And(pre, ev.G), engine.False); !ok {
				Failf("%s may be nil at %s\n  when\n%s", clip(ev.T.String(), 300), s.C.Pos(ev.Pos), showModel(pos, neg))
			}
		}
	})
	return s
}

// AtCall: whenever the opaque function callee is called, spec holds; arg0, arg1, ... are the call's arguments and
// now(x.f) is the content of a field at the time of the call.
func (s *Sum) AtCall(label, callee, spec string) *Sum {
	s.ob(label, func() {
		n := 0
		for _, ev := range s.Out.E.Events {
			if ev.Kind != "call" {
				continue
			}
			hit := false
			for _, a := range engine.Unbox(ev.T) {
				hit = hit || a.T.Op == "call" && a.T.Sym == callee
			}
			if !hit {
				continue
			}
			n++
			sc := &engine.Scope{P: s.Scope.P, Vars: map[string]*engine.Term{}, Defs: s.Scope.Defs, Fns: s.Scope.Fns, Out: s.Out, At: ev.Mem}
			for k, v := range s.Scope.Vars {
				sc.Vars[k] = v
			}
			for i, a := range ev.Args {
				sc.Vars[fmt.Sprintf("arg%d", i)] = engine.Box(a)
			}
			if ok, pos, neg := engine.Entails(s.C.P, engine.And(s.Assume, ev.G), sc.Bool(spec)); !ok {
				Failf("%s is called at %s although NOT (%s)\n%s", callee, s.C.Pos(ev.Pos), spec, showModel(pos, neg))
			}
		}
		if n == 0 {
			Failf("no call of %s found", callee)
		}
	})
	return s
}

// Called: under the premise, success needs a call of callee with the given properties ("call" is the call, "arg0", ... its arguments).
func (s *Sum) Called(label, callee, premise, spec string) *Sum {
	s.ob(label, func() {
		pre := engine.And(s.Assume, s.Out.Succ())
		if premise != "" {
			pre = engine.And(pre, s.Scope.Bool(premise))
		}
		if ok, _, _ := engine.Sat(s.C.P, pre); !ok {
			Failf("the premise is never satisfied: the accepting path this rule is about has disappeared")
		}
		want := engine.False
		n := 0
		for _, ev := range s.Out.E.Events {
			if ev.Kind != "call" {
				continue
			}
			hit := false
			for _, a := range engine.Unbox(ev.T) {
				hit = hit || a.T.Op == "call" && a.T.Sym == callee
			}
			if !hit {
				continue
			}
			n++
			sc := &engine.Scope{P: s.Scope.P, Vars: map[string]*engine.Term{}, Defs: s.Scope.Defs, Fns: s.Scope.Fns, Out: s.Out, At: ev.Mem}
			for k, v := range s.Scope.Vars {
				sc.Vars[k] = v
			}
			sc.Vars["call"] = ev.T
			for i, a := range ev.Args {
				sc.Vars[fmt.Sprintf("arg%d", i)] = engine.Box(a)
			}
			want = engine.Or(want, engine.And(ev.G, sc.Bool(spec)))
		}
		if n == 0 {
			Failf("no call of %s found", callee)
		}
		if ok, pos, neg := engine.Entails(s.C.P, pre, want); !ok {
			Failf("succeeds without a call of %s with (%s)\n  accepting exits: %s\n%s", callee, spec, s.exitsFor(engine.And(pre, engine.Not(want)), true), showModel(pos, neg))
		}
	})
	return s
}

// fieldDefs reads the invariants of Opt.Fields.
func (c *Ctx) fieldDefs(defs map[string]string) func(f string, owner *engine.Term) *engine.Term {
	return func(f string, owner *engine.Term) *engine.Term {
		t := owner.Typ
		if t == nil {
			return nil
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Pkg() == nil {
			return nil
		}
		spec, ok := defs[n.Obj().Pkg().Name()+"."+n.Obj().Name()+"."+f]
		if !ok {
			return nil
		}
		sc := &engine.Scope{P: c.P, Vars: map[string]*engine.Term{"self": owner}}
		return sc.Term(spec)
	}
}

// Frozen: the fields of a struct are written only while the given constructors build it.
func (c *Ctx) Frozen(typ string, fields []string, constructors ...string) {
	c.Ob(typ+"|written by its constructors only", "", func() {
		pkg, name, _ := strings.Cut(typ, ".")
		ok := map[*ssa.Function]bool{}
		for _, a := range constructors {
			f := c.Find(a)
			if f == nil {
				Failf("constructor %s not found", a)
			}
			calledFrom(f, ok)
		}
		want := map[string]bool{}
		for _, f := range fields {
			want[f] = true
		}
		n := 0
		for _, fn := range c.P.RepoFns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					fa, isFA := in.(*ssa.FieldAddr)
					if !isFA {
						continue
					}
					nt, isN := fa.X.Type().Underlying().(*types.Pointer).Elem().(*types.Named)
					if !isN || nt.Obj().Name() != name || nt.Obj().Pkg() == nil || nt.Obj().Pkg().Name() != pkg {
						continue
					}
					st := nt.Underlying().(*types.Struct)
					if !want[st.Field(fa.Field).Name()] {
						continue
					}
					for _, r := range *fa.Referrers() {
						if st, isStore := r.(*ssa.Store); isStore && st.Addr == ssa.Value(fa) {
							n++
							if !ok[fn] && !ok[fn.Parent()] {
								Failf("%s.%s is written by %s at %s", typ, fa.Name(), fn, c.Pos(st.Pos()))
							}
							continue
						}
						if u, isLoad := r.(*ssa.UnOp); isLoad && u.X == ssa.Value(fa) {
							continue
						}
						if _, dbg := r.(*ssa.DebugRef); dbg {
							continue
						}
						if _, sub := r.(*ssa.FieldAddr); sub {
							continue
						}
						if cl, isCall := r.(*ssa.Call); isCall && cl.Call.StaticCallee() != nil && cl.Call.StaticCallee().Signature.Recv() != nil {
							continue // a method of the field's own type
						}
						Failf("the address of %s.%s is taken by %s at %s", typ, st.Field(fa.Field).Name(), fn, c.Pos(r.Pos()))
					}
				}
			}
		}
		if n == 0 {
			Failf("no construction of %s found", typ)
		}
	})
}

// calledFrom adds fn and the repository functions it statically calls.
func calledFrom(fn *ssa.Function, in map[*ssa.Function]bool) {
	if fn == nil || in[fn] {
		return
	}
	in[fn] = true
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				calledFrom(c.Common().StaticCallee(), in)
			}
		}
	}
}

// Error renders the message.
func (f Fail) Error() string { return f.Msg }
