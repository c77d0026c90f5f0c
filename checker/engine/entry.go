package engine

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Outcome summarises a function's behaviour.
type Outcome struct {
	Exits  []Exit
	Params []GVal
	E      *Eval
	Fn     *ssa.Function
}

// EmptyMem returns an empty store.
func EmptyMem() *Mem { return &Mem{map[*Term]GVal{}} }

// ParamTerm is the symbolic value of a named parameter.
func ParamTerm(fn *ssa.Function, i int) *Term {
	p := fn.Params[i]
	return paramTerm(p.Name(), p.Type())
}

func paramTerm(name string, t types.Type) *Term {
	return mkTyped(t, "param", name+"\x00"+types.TypeString(unalias(t), nil))
}

// Run evaluates fn on symbolic parameters under an assumption. names overrides parameter names.
func (e *Eval) Run(fn *ssa.Function, names []string, args map[int]GVal, assume B) *Outcome {
	var as []GVal
	for i, p := range fn.Params {
		if a, ok := args[i]; ok {
			as = append(as, a)
			continue
		}
		n := p.Name()
		if i < len(names) && names[i] != "" {
			n = names[i]
		}
		as = append(as, gv1(paramTerm(n, p.Type())))
	}
	e.assumeIs(assume)
	e.ctx = assume
	mem := EmptyMem()
	if e.Mem0 != nil {
		mem = e.Mem0
	}
	exits := e.Call(fn, as, nil, State{True, mem}, fn.String())
	e.ctx = True
	return &Outcome{Exits: exits, Params: as, E: e, Fn: fn}
}

// RunClosure evaluates a function value.
func (e *Eval) RunClosure(t *Term, args []GVal, mem *Mem, assume B) []Exit {
	fn := e.Prog.fnOf(t)
	var free []GVal
	for _, a := range t.Args {
		free = append(free, unbox(a))
	}
	e.ctx = assume
	ex := e.Call(fn, args, free, State{True, mem}, fn.String())
	e.ctx = True
	return ex
}

// Succ is the condition under which the function returns with a nil last result.
func (o *Outcome) Succ() B {
	r := False
	for _, ex := range o.Exits {
		if ex.Panic {
			continue
		}
		g := ex.G
		if n := len(ex.Vals); n > 0 {
			if sig := o.Fn.Signature.Results(); isErrorType(sig.At(sig.Len() - 1).Type()) {
				g = And(g, predB(ex.Vals[n-1], func(t *Term) B { return EqB(t, NilT) }))
			}
		}
		r = Or(r, g)
	}
	return r
}

// Fail is the condition under which some exit panics or returns a non-nil last result.
func (o *Outcome) Fail() B {
	r := o.Panics()
	sig := o.Fn.Signature.Results()
	if sig.Len() == 0 || !isErrorType(sig.At(sig.Len()-1).Type()) {
		return r
	}
	for _, ex := range o.Exits {
		if ex.Panic || len(ex.Vals) == 0 {
			continue
		}
		r = Or(r, And(ex.G, predB(ex.Vals[len(ex.Vals)-1], func(t *Term) B { return Not(EqB(t, NilT)) })))
	}
	return r
}

// Panics is the condition under which the function panics explicitly.
func (o *Outcome) Panics() B {
	r := False
	for _, ex := range o.Exits {
		if ex.Panic {
			r = Or(r, ex.G)
		}
	}
	return r
}

// Result merges result i over all non-panic exits.
func (o *Outcome) Result(i int) GVal {
	var gs []B
	var vs []GVal
	g := False
	for _, ex := range o.Exits {
		if ex.Panic || i >= len(ex.Vals) {
			continue
		}
		gs = append(gs, ex.G)
		fz := map1(ex.Vals[i], func(t *Term) *Term { return o.E.Freeze(ex.Mem, t, 0) })
		vs = append(vs, fz)
		g = Or(g, ex.G)
	}
	if len(vs) == 0 {
		return nil
	}
	return mergeGV(gs, vs, g)
}

// Cubes renders at most n cubes of b.
func Cubes(b B, n int) []string { return cubes(b, n) }

// Box turns a guarded value into a term.
func Box(v GVal) *Term { return boxGV(v) }

// SymParams makes one symbolic value per parameter; names override the source names by position.
func SymParams(fn *ssa.Function, names []string) []GVal {
	var as []GVal
	for i, p := range fn.Params {
		n := p.Name()
		if i < len(names) && names[i] != "" {
			n = names[i]
		}
		as = append(as, gv1(paramTerm(n, p.Type())))
	}
	return as
}

// SymList is a slice of n symbolic elements.
func SymList(name string, t types.Type, n int) GVal {
	el := elemType(t)
	if el == nil {
		panic(SpecError("not a slice: " + t.String()))
	}
	var xs []*Term
	for i := 0; i < n; i++ {
		xs = append(xs, paramTerm(fmt.Sprintf("%s.%d", name, i), el))
	}
	return gv1(mkTyped(t, "list", "", xs...))
}

// ArgMap indexes arguments by position.
func ArgMap(as []GVal) map[int]GVal {
	m := map[int]GVal{}
	for i, a := range as {
		m[i] = a
	}
	return m
}

// Returns is the condition under which the function returns normally.
func (o *Outcome) Returns() B {
	r := False
	for _, ex := range o.Exits {
		if !ex.Panic {
			r = Or(r, ex.G)
		}
	}
	return r
}

// RunClosureOutcome evaluates a function value in the memory its creator left.
func (e *Eval) RunClosureOutcome(t *Term, args []GVal, made *Outcome, assume B) *Outcome {
	mem := EmptyMem()
	for _, ex := range made.Exits {
		if !ex.Panic {
			mem = ex.Mem
		}
	}
	fn := e.Prog.fnOf(t)
	e.assumeIs(assume)
	exits := e.RunClosure(t, args, mem, assume)
	return &Outcome{Exits: exits, Params: args, E: e, Fn: fn}
}

func (e *Eval) assumeIs(assume B) {
	for _, a := range Support(assume) {
		if a.Op == "is" {
			e.isAtoms[a.Args[0]] = append(e.isAtoms[a.Args[0]], a)
		}
	}
}

// Len is the length of a sequence.
func Len(t *Term) *Term { return mkLen(t) }

// IsBound reports whether the event is an access that must be within its operand.
func (ev *Event) IsBound() bool {
	switch ev.Kind {
	case "index", "slice", "arr", "minlen", "hexdst", "len32":
		return true
	}
	return false
}

// BoundB is the condition under which the access does not panic.
func (ev *Event) BoundB() B {
	each := func(f func(x, lo, hi *Term) B) B {
		r := True
		los, his := ev.Args[0], gv1(mkT("none", ""))
		if len(ev.Args) > 1 {
			his = ev.Args[1]
		}
		for _, x := range unbox(ev.T) {
			for _, l := range los {
				for _, h := range his {
					if g := AndAll(x.G, l.G, h.G); g != False {
						r = And(r, Implies(g, f(x.T, l.T, h.T)))
					}
				}
			}
		}
		return r
	}
	neg := func(t *Term) B { return LtB(t, mkI(0)) }
	length := func(x *Term) *Term {
		if p := x.Typ; p != nil {
			if pt, ok := p.Underlying().(*types.Pointer); ok {
				if a, ok := pt.Elem().Underlying().(*types.Array); ok {
					return mkI(a.Len())
				}
			}
		}
		return mkLen(x)
	}
	switch ev.Kind {
	case "len32":
		return each(func(x, n, _ *Term) B { return EqB(mkLen(x), n) })
	case "hexdst": // two digits per byte of the destination
		return each(func(x, src, _ *Term) B {
			return Not(LtB(Add(Add(length(x), length(x)), mkI(1)), mkLen(src)))
		})
	case "arr", "minlen":
		return each(func(x, n, _ *Term) B { return Not(LtB(mkLen(x), n)) })
	case "index":
		return each(func(x, i, _ *Term) B { return And(Not(neg(i)), LtB(i, length(x))) })
	}
	return each(func(x, lo, hi *Term) B {
		if hi.Op == "none" {
			hi = length(x)
		}
		return AndAll(Not(neg(lo)), Not(LtB(hi, lo)), Not(LtB(length(x), hi)))
	})
}

// Made is the object returned under the condition; the memory it lives in becomes the memory at the next entry.
func (o *Outcome) Made(cond B) GVal {
	var r GVal
	for _, ex := range o.Exits {
		if ex.Panic || len(ex.Vals) == 0 {
			continue
		}
		g := And(ex.G, cond)
		if ok, _, _ := Sat(o.E.Prog, g); !ok {
			continue
		}
		for _, a := range ex.Vals[0] {
			if ok, _, _ := Sat(o.E.Prog, And(g, a.G)); !ok || a.T == NilT {
				continue
			}
			if r != nil && (r[0].T != a.T || o.E.Mem0 != ex.Mem) {
				return nil
			}
			r = gv1(a.T)
			o.E.Mem0 = ex.Mem
		}
	}
	return r
}
