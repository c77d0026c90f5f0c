package engine

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Mem is the flow-sensitive store: address term -> value.
type Mem struct{ m map[*Term]GVal }

func (m *Mem) set(k *Term, v GVal) *Mem {
	n := make(map[*Term]GVal, len(m.m)+1)
	for a, b := range m.m {
		n[a] = b
	}
	n[k] = v
	return &Mem{n}
}

func (m *Mem) setAll(del func(*Term) bool, k *Term, v GVal) *Mem {
	n := make(map[*Term]GVal, len(m.m)+1)
	for a, b := range m.m {
		if !del(a) {
			n[a] = b
		}
	}
	if k != nil {
		n[k] = v
	}
	return &Mem{n}
}

// State is the analysis state at a program point.
type State struct {
	G   B
	Mem *Mem
}

// Exit is a way to leave a function.
type Exit struct {
	Panic bool
	G     B
	Vals  []GVal
	Mem   *Mem
	Pos   token.Pos
	Fn    *ssa.Function
}

// Event is a recorded effect.
type Event struct {
	Kind string // "call", "store", "index", "slice", "panic"
	G    B      // guard including context
	T    *Term  // call term or address
	V    GVal
	Args []GVal
	Pos  token.Pos
	Fn   *ssa.Function
	Doms []*Term
	Inst ssa.Instruction
	Mem  *Mem
}

// Eval runs the analysis.
type Eval struct {
	Mem0       *Mem // memory at the entry, when some of it is given
	Prog       *Program
	NoOverflow bool                        // consider only inputs on which checked arithmetic does not overflow
	Init       bool                        // evaluating package initialisation
	Opaque     func(fn *ssa.Function) bool // extra opaque functions
	Ident      map[string]bool             // opaque functions that return their only argument
	Hide       map[string]map[int]bool     // arguments of opaque functions left out of their call terms
	Inline     func(fn *ssa.Function) bool // force inlining
	// StrictAssert makes unchecked type assertions a panic exit.
	StrictAssert bool
	RecordEvents bool
	Optional     map[string]bool // fields that may be nil
	Bounds       bool            // record index/slice bound obligations
	Events       []Event
	ctx          B
	doms         []*Term
	stack        []*ssa.Function
	Reached      map[*ssa.Function]int
	steps        int
	MaxSteps     int
	isAtoms      map[*Term][]*Term
	newAllocs    map[*Term]bool
	AtomPos      map[*Term]token.Pos
}

// NewEval returns an evaluator.
func NewEval(p *Program) *Eval {
	return &Eval{Prog: p, ctx: True, Reached: map[*ssa.Function]int{}, MaxSteps: 4_000_000, isAtoms: map[*Term][]*Term{}, newAllocs: map[*Term]bool{}, AtomPos: map[*Term]token.Pos{}}
}

type frame struct {
	e     *Eval
	fn    *ssa.Function
	env   map[ssa.Value]GVal
	free  []GVal
	path  string
	exits []Exit
	info  *fnInfo
	phis  map[ssa.Value]bool

	deferred []deferred
}

// deferred is a call of a repository function or closure that runs when the function returns.
type deferred struct {
	at         *ssa.Defer
	g          B
	fn         *ssa.Function
	args, free []GVal
}

type edge struct {
	from, to *ssa.BasicBlock
	g        B
	mem      *Mem
	phi      []GVal
}

// Call evaluates fn on args.
func (e *Eval) Call(fn *ssa.Function, args []GVal, free []GVal, st State, path string) []Exit {
	fr := &frame{e: e, fn: fn, env: map[ssa.Value]GVal{}, free: free, path: path, info: infoOf(fn)}
	e.Reached[fn]++
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = gv1(paramTerm(p.Name(), p.Type()))
		}
	}
	in := map[*ssa.BasicBlock][]edge{fn.Blocks[0]: {{to: fn.Blocks[0], g: st.G, mem: st.Mem}}}
	fr.region(fr.info.rpo, nil, nil, in)
	return fr.exits
}

func sameMem(a, b *Mem) bool { return a == b }

// merge combines incoming edges; returns guard, memory and phi values.
func (f *frame) merge(b *ssa.BasicBlock, es []edge) (B, *Mem, []GVal) {
	if len(es) == 1 {
		return es[0].g, es[0].mem, es[0].phi
	}
	live := es[:0:0]
	for _, e := range es {
		if e.g != False {
			live = append(live, e)
		}
	}
	es = live
	if len(es) == 0 {
		return False, &Mem{map[*Term]GVal{}}, nil
	}
	if len(es) == 1 {
		return es[0].g, es[0].mem, es[0].phi
	}
	g := False
	for _, e := range es {
		g = Or(g, e.g)
	}
	gs := make([]B, len(es))
	for i, e := range es {
		gs[i] = e.g
	}
	var phis []GVal
	for i := range es[0].phi {
		vs := make([]GVal, len(es))
		for j := range es {
			vs[j] = es[j].phi[i]
		}
		phis = append(phis, mergeGV(gs, vs, g))
	}
	mems := make([]*Mem, len(es))
	for i, e := range es {
		mems[i] = e.mem
	}
	return g, f.e.mergeMem(gs, mems, g), phis
}

func mergeGV(gs []B, vs []GVal, care B) GVal {
	same := true
	for i := 1; i < len(vs); i++ {
		if !gvEq(vs[0], vs[i]) {
			same = false
			break
		}
	}
	if same {
		return vs[0]
	}
	var out GVal
	for i := range vs {
		for _, a := range vs[i] {
			if gg := And(gs[i], a.G); gg != False {
				out = append(out, GE{gg, a.T})
			}
		}
	}
	out = normGV(out)
	if len(out) > 1 {
		for i := range out {
			out[i].G = restrict(out[i].G, care)
		}
		out = normGV(out)
	} else if len(out) == 1 && out[0].T.Op == "bool" {
		out = boolV(restrict(out[0].T.B, care))
	}
	return capGV(out)
}

func (e *Eval) mergeMem(gs []B, mems []*Mem, care B) *Mem {
	same := true
	for _, m := range mems[1:] {
		if m != mems[0] {
			same = false
		}
	}
	if same {
		return mems[0]
	}
	keys := map[*Term]bool{}
	for _, m := range mems {
		for k := range m.m {
			keys[k] = true
		}
	}
	n := make(map[*Term]GVal, len(keys))
	for k := range keys {
		vs := make([]GVal, 0, len(mems))
		gg := make([]B, 0, len(mems))
		for i, m := range mems {
			v, ok := m.m[k]
			if !ok {
				if root := rootOf(k); root.Op == "alloc" {
					if _, has := m.m[root]; !has && rootMissing(m, root) {
						continue // object not created on this path
					}
				}
				v = e.load(m, k, k.Typ)
			}
			vs = append(vs, v)
			gg = append(gg, gs[i])
		}
		n[k] = mergeGV(gg, vs, care)
	}
	return &Mem{n}
}

func rootOf(k *Term) *Term {
	for len(k.Args) > 0 && (k.Op == "&field" || k.Op == "&index" || k.Op == "content" || k.Op == "bigval") {
		k = k.Args[0]
	}
	return k
}

func rootMissing(m *Mem, root *Term) bool {
	_, ok := m.m[mkT("born", "", root)]
	return !ok
}

// region evaluates blocks (in rpo order) restricted to set; header (if any) is the loop
// header whose back edges are collected. It returns edges leaving the set and back edges.
func (f *frame) region(order []*ssa.BasicBlock, set map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, in map[*ssa.BasicBlock][]edge) (outs, backs []edge) {
	done := map[*ssa.BasicBlock]bool{}
	put := func(es []edge) {
		for _, ed := range es {
			if ed.g == False {
				continue
			}
			switch {
			case header != nil && ed.to == header:
				backs = append(backs, ed)
			case set != nil && !set[ed.to]:
				outs = append(outs, ed)
			default:
				in[ed.to] = append(in[ed.to], ed)
			}
		}
	}
	for _, b := range order {
		if set != nil && !set[b] || done[b] {
			continue
		}
		es := in[b]
		if len(es) == 0 {
			continue
		}
		if lp := f.info.loops[b]; lp != nil && b != header {
			put(f.loop(lp, es))
			for x := range lp.ext {
				done[x] = true
			}
			continue
		}
		done[b] = true
		g, mem, phis := f.merge(b, es)
		if g == False {
			continue
		}
		put(f.block(b, State{g, mem}, phis))
	}
	return outs, backs
}

// block evaluates one basic block and returns its outgoing edges.
func (f *frame) block(b *ssa.BasicBlock, st State, phis []GVal) []edge {
	pi := 0
	for _, ins := range b.Instrs {
		if phi, ok := ins.(*ssa.Phi); ok {
			if pi < len(phis) {
				f.env[phi] = phis[pi]
			}
			pi++
			continue
		}
		f.e.steps++
		if f.e.steps > f.e.MaxSteps {
			panic("engine: step limit exceeded in " + f.fn.String())
		}
		switch x := ins.(type) {
		case *ssa.Jump:
			return []edge{f.mkEdge(b, b.Succs[0], st.G, st.Mem)}
		case *ssa.If:
			c := truth(f.val(x.Cond))
			c = f.simpl(c, st.G)
			g1, g0 := And(st.G, c), And(st.G, Not(c))
			var es []edge
			if g1 != False {
				es = append(es, f.mkEdge(b, b.Succs[0], g1, st.Mem))
			}
			if g0 != False {
				es = append(es, f.mkEdge(b, b.Succs[1], g0, st.Mem))
			}
			return es
		case *ssa.Return:
			vals := make([]GVal, len(x.Results))
			for i, r := range x.Results {
				vals[i] = f.val(r)
			}
			f.exits = append(f.exits, Exit{G: st.G, Vals: vals, Mem: st.Mem, Pos: x.Pos(), Fn: f.fn})
			return nil
		case *ssa.Panic:
			f.exits = append(f.exits, Exit{Panic: true, G: st.G, Vals: []GVal{f.val(x.X)}, Mem: st.Mem, Pos: x.Pos(), Fn: f.fn})
			return nil
		default:
			st = f.instr(ins, st)
			if st.G == False {
				return nil
			}
		}
	}
	return nil
}

// simpl prunes a condition to a constant if the context decides it.
func (f *frame) simpl(c, g B) B {
	if c <= True {
		return c
	}
	full := And(f.e.ctx, g)
	if And(full, c) == False {
		return False
	}
	if And(full, Not(c)) == False {
		return True
	}
	return c
}

func (f *frame) mkEdge(from, to *ssa.BasicBlock, g B, mem *Mem) edge {
	ed := edge{from: from, to: to, g: g, mem: mem}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		v := f.val(phi.Edges[pi])
		if len(v) == 1 && v[0].T.Op == "bool" {
			v = boolV(restrict(v[0].T.B, g))
		}
		ed.phi = append(ed.phi, v)
	}
	return ed
}

func (f *frame) val(v ssa.Value) GVal {
	switch x := v.(type) {
	case *ssa.Const:
		return gv1(mkConst(x.Value, x.Type()))
	case *ssa.Function:
		return gv1(f.e.Prog.fnTerm(x))
	case *ssa.Global:
		return gv1(mkTyped(x.Type(), "&global", globalName(x)))
	case *ssa.Builtin:
		return gv1(mkT("builtin", x.Name()))
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == x && i < len(f.free) {
				return f.free[i]
			}
		}
		return gv1(mkTyped(x.Type(), "param", x.Name()))
	}
	if r, ok := f.env[v]; ok {
		return r
	}
	return gv1(mkTyped(v.Type(), "undef", f.fn.String()+"."+v.Name()))
}

func globalName(g *ssa.Global) string {
	if g.Pkg != nil {
		return g.Pkg.Pkg.Name() + "." + g.Name()
	}
	return g.Name()
}

// ---------------------------------------------------------------- memory

func isAncestor(anc, k *Term) bool {
	for k.Op == "&field" || k.Op == "&index" {
		k = k.Args[0]
		if k == anc {
			return true
		}
	}
	return false
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.Typ[types.Byte]
		}
	}
	return nil
}

// load reads the value at address addr.
func (e *Eval) load(m *Mem, addr *Term, typ types.Type) GVal {
	v := e.load0(m, addr, typ)
	if typ != nil {
		switch u := typ.Underlying().(type) {
		case *types.Struct:
			over := false
			for k := range m.m {
				if isAncestor(addr, k) {
					over = true
					break
				}
			}
			if over {
				args := make([]*Term, u.NumFields())
				for i := range args {
					ft := u.Field(i).Type()
					args[i] = boxGV(e.load(m, mkTyped(types.NewPointer(ft), "&field", u.Field(i).Name(), addr), ft))
				}
				return gv1(mkTyped(typ, "struct", typeName(typ), args...))
			}
		case *types.Array:
			var ks []*Term
			for k := range m.m {
				if k.Op == "&index" && k.Args[0] == addr {
					ks = append(ks, k)
				}
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
			for _, k := range ks {
				w := e.load(m, k, u.Elem())
				v = gv1(mkTyped(typ, "upd", "", boxGV(v), k.Args[1], boxGV(w)))
			}
		}
	}
	return v
}

func (e *Eval) load0(m *Mem, addr *Term, typ types.Type) GVal {
	if v, ok := m.m[addr]; ok {
		return v
	}
	switch addr.Op {
	case "content":
		return gv1(addr.Args[0])
	case "born":
		return gv1(NilT)
	case "bigval":
		if addr.Args[0].Op == "alloc" {
			return gv1(mkI(0))
		}
		return gv1(addr.Args[0])
	case "gv":
		return map1(addr.GV, func(a *Term) *Term { return boxGV(e.load(m, a, typ)) })
	case "&field":
		base := e.load0(m, addr.Args[0], nil)
		return map1(base, func(b *Term) *Term { return project(b, addr.Sym, typ) })
	case "&index":
		base := e.load0(m, addr.Args[0], nil)
		return map1(base, func(b *Term) *Term { return mkIndex(b, addr.Args[1], typ) })
	case "alloc":
		if addr.Typ != nil {
			if p, ok := addr.Typ.Underlying().(*types.Pointer); ok {
				return gv1(zeroOf(p.Elem()))
			}
		}
	case "&global":
		return gv1(e.Prog.globalValue(addr.Sym, typ))
	case "sliceof":
		return e.load0(m, addr.Args[0], nil)
	case "subof":
		return gv1(e.Freeze(m, addr, 0))
	case "makeslice":
		if isByteSeq(addr.Typ) && addr.Args[0].Op == "int" && addr.Args[0].Big.IsInt64() {
			return gv1(retype(addr.Typ, zeros(addr.Args[0].Big.Int64())))
		}
	case "&struct":
		return gv1(addr.Args[0])
	}
	if typ != nil && addr.Op == "elem" {
		return gv1(addr)
	}
	if typ != nil && addr.Typ != nil && types.IsInterface(typ) {
		if p, ok := addr.Typ.Underlying().(*types.Pointer); ok && types.IsInterface(p.Elem()) {
			return gv1(mkDeref(addr, typ))
		}
	}
	return gv1(addr)
}

func (e *Eval) store(st State, addr GVal, v GVal, typ types.Type) State {
	addr = normGV(addr)
	if len(addr) == 1 {
		a := addr[0].T
		st.Mem = st.Mem.setAll(func(k *Term) bool { return k == a || isAncestor(a, k) }, a, v)
		return st
	}
	for _, x := range addr {
		old := e.load(st.Mem, x.T, typ)
		nv := mergeGV([]B{x.G, Not(x.G)}, []GVal{v, old}, True)
		a := x.T
		st.Mem = st.Mem.setAll(func(k *Term) bool { return k == a || isAncestor(a, k) }, a, nv)
	}
	return st
}

// mapContent returns the abstract content of map value m.
func (e *Eval) mapContent(mem *Mem, m *Term) GVal {
	if v, ok := mem.m[mkT("content", "", m)]; ok {
		return v
	}
	return gv1(m)
}

// ---------------------------------------------------------------- instructions

func (f *frame) instr(ins ssa.Instruction, st State) State {
	e := f.e
	switch x := ins.(type) {
	case *ssa.DebugRef:
		return st
	case *ssa.RunDefers:
		for i := len(f.deferred) - 1; i >= 0; i-- {
			st = f.runDeferred(f.deferred[i], st)
		}
		return st
	case *ssa.Alloc:
		a := mkTyped(x.Type(), "alloc", f.path+"/"+x.Name())
		e.newAllocs[a] = true
		st.Mem = st.Mem.setAll(func(k *Term) bool { return k == a || rootOf(k) == a }, mkT("born", "", a), gv1(NilT))
		f.env[x] = gv1(a)
		if n, ok := x.Type().(*types.Pointer).Elem().(*types.Named); ok && n.String() == "strings.Builder" && onlyBuilt(x) {
			st.Mem = st.Mem.set(mkTyped(types.Typ[types.String], "content", "sink", mkT("sink", "builder", a)), gv1(mkTyped(types.Typ[types.String], "list", "")))
		}
	case *ssa.Phi:
	case *ssa.BinOp:
		f.env[x] = f.binop(x.Op, f.val(x.X), f.val(x.Y), x.X.Type(), x.Type())
	case *ssa.UnOp:
		if x.Op == token.MUL {
			v := f.val(x.X)
			f.deref(v, &st, x)
			if len(v) > 1 {
				f.env[x.X] = f.notNil(v, &st)
			}
		}
		f.env[x] = f.unop(x, st)
	case *ssa.ChangeType:
		f.env[x] = map1(f.val(x.X), func(t *Term) *Term {
			if t.Op == "zero" {
				return zeroOf(x.Type())
			}
			return t
		})
	case *ssa.ChangeInterface:
		f.env[x] = f.val(x.X)
	case *ssa.Convert:
		f.env[x] = map1(f.val(x.X), func(t *Term) *Term { return convert(e.viewed(st.Mem, t), x.X.Type(), x.Type()) })
	case *ssa.MultiConvert:
		f.env[x] = f.val(x.X)
	case *ssa.SliceToArrayPointer:
		v := f.val(x.X)
		if e.Bounds {
			at := elemType(x.Type()).Underlying().(*types.Array)
			e.Events = append(e.Events, Event{Kind: "arr", G: And(e.ctx, st.G), T: boxGV(v), Args: []GVal{gv1(mkI(at.Len()))}, Pos: x.Pos(), Fn: f.fn, Inst: x})
		}
		f.env[x] = v
	case *ssa.MakeInterface:
		if c, ok := x.X.(*ssa.Const); ok && c.IsNil() && !types.IsInterface(x.X.Type()) { // a typed nil is not the nil interface
			f.env[x] = gv1(mkTyped(x.X.Type(), "iface", typeName(x.X.Type()), NilT))
			break
		}
		f.env[x] = map1(f.val(x.X), func(t *Term) *Term { return mkIface(t, x.X.Type()) })
	case *ssa.TypeAssert:
		st = f.typeAssert(x, st)
	case *ssa.Extract:
		tv := f.val(x.Tuple)
		f.env[x] = map1(tv, func(t *Term) *Term {
			if t.Op == "tuple" {
				return t.Args[x.Index]
			}
			return mkTyped(x.Type(), "res", fmt.Sprint(x.Index), t)
		})
	case *ssa.Field:
		s := x.X.Type().Underlying().(*types.Struct)
		f.env[x] = map1(f.val(x.X), func(t *Term) *Term { return project(t, s.Field(x.Field).Name(), x.Type()) })
	case *ssa.FieldAddr:
		s := elemType(x.X.Type()).Underlying().(*types.Struct)
		f.deref(f.val(x.X), &st, x)
		f.env[x] = map1(f.notNil(f.val(x.X), &st), func(t *Term) *Term { return mkTyped(x.Type(), "&field", s.Field(x.Field).Name(), t) })
	case *ssa.Index:
		v := f.val(x.X)
		if e.Bounds {
			e.Events = append(e.Events, Event{Kind: "index", G: And(e.ctx, st.G), T: boxGV(v), Args: []GVal{f.val(x.Index)}, Pos: x.Pos(), Fn: f.fn, Inst: x})
		}
		f.env[x] = map2(v, f.val(x.Index), func(a, i *Term) *Term { return mkIndex(a, i, x.Type()) })
	case *ssa.IndexAddr:
		if e.Bounds {
			e.Events = append(e.Events, Event{Kind: "index", G: And(e.ctx, st.G), T: boxGV(f.val(x.X)), Args: []GVal{f.val(x.Index)}, Pos: x.Pos(), Fn: f.fn, Inst: x})
		}
		f.env[x] = map2(f.val(x.X), f.val(x.Index), func(a, i *Term) *Term {
			if a.Op == "sliceof" {
				a = a.Args[0]
			}
			if a.Op == "subof" {
				a, i = a.Args[0], Add(a.Args[1], i)
			}
			for a.Op == "slice" && a.Args[1].Op == "int" && i.Op == "int" && i.Big.Sign() >= 0 { // x[lo:hi][i] is x[lo+i]
				if bt := a.Args[0].Typ; bt == nil {
					break
				} else if _, ok := bt.Underlying().(*types.Slice); !ok {
					break
				}
				a, i = a.Args[0], Add(a.Args[1], i)
			}
			return mkTyped(x.Type(), "&index", "", a, i)
		})
	case *ssa.Lookup:
		f.lookup(x, st)
	case *ssa.MakeMap:
		t := mkTyped(x.Type(), "alloc", f.path+"/"+x.Name())
		e.newAllocs[t] = true
		st.Mem = st.Mem.set(mkT("born", "", t), gv1(NilT))
		st.Mem = st.Mem.set(mkT("content", "", t), gv1(mkTyped(x.Type(), "makemap", "")))
		f.env[x] = gv1(t)
	case *ssa.MakeSlice:
		n := boxGV(narrow([]GVal{f.val(x.Len)}, st.G)[0])
		t := mkTyped(x.Type(), "makeslice", "", n)
		if n.Op == "int" && n.Big.Sign() == 0 {
			f.env[x] = gv1(mkTyped(x.Type(), "list", ""))
			break
		}
		t = mkTyped(x.Type(), "makeslice", f.path+"/"+x.Name(), t.Args...)
		f.env[x] = gv1(t)
	case *ssa.MakeChan:
		f.env[x] = gv1(mkTyped(x.Type(), "alloc", f.path+"/"+x.Name()))
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		args := make([]*Term, len(x.Bindings))
		for i, b := range x.Bindings {
			args[i] = boxGV(f.val(b))
		}
		f.env[x] = gv1(e.Prog.closureTerm(fn, args))
	case *ssa.MapUpdate:
		m, k, v := f.val(x.Map), f.val(x.Key), f.val(x.Value)
		if x.Value.Type().String() == "*math/big.Int" {
			v = bigVal(st.Mem, v) // maps hold numbers: later in-place updates are written through (model of big.Int)
		}
		for _, me := range normGV(m) {
			c := e.mapContent(st.Mem, me.T)
			nc := map1(c, func(ct *Term) *Term { return mkMapset(ct, boxGV(k), boxGV(v)) })
			if me.G != True {
				nc = mergeGV([]B{me.G, Not(me.G)}, []GVal{nc, c}, True)
			}
			ck := mkT("content", "", me.T)
			if ck.Typ == nil {
				ck.Typ = x.Map.Type()
			}
			st.Mem = st.Mem.set(ck, nc)
		}
		if e.RecordEvents {
			e.event(Event{Kind: "mapset", G: st.G, T: boxGV(m), Args: []GVal{k, v}, Pos: x.Pos(), Fn: f.fn, Inst: x, Mem: st.Mem})
		}
	case *ssa.Store:
		if e.RecordEvents {
			e.event(Event{Kind: "store", G: st.G, T: boxGV(f.val(x.Addr)), V: f.val(x.Val), Pos: x.Pos(), Fn: f.fn, Inst: x, Mem: st.Mem})
		}
		v := f.val(x.Val)
		if g, ok := x.Addr.(*ssa.Global); ok && e.Init && isErrorType(elemType(g.Type())) { // errors are known by name
			v = gv1(mkTyped(errType, "global", globalName(g)))
		}
		st = e.store(st, f.val(x.Addr), v, x.Val.Type())
	case *ssa.Slice:
		st = f.slice(x, st)
	case *ssa.Range:
		f.env[x] = map1(f.val(x.X), func(t *Term) *Term { return boxGV(e.mapContent(st.Mem, t)) })
	case *ssa.Next:
		// handled by the loop evaluator through env; default: opaque
		if _, ok := f.env[x]; !ok {
			f.env[x] = gv1(mkTyped(x.Type(), "next", f.path+"/"+x.Name()))
		}
	case *ssa.Call:
		return f.call(x, st)
	case *ssa.Defer:
		if e.RecordEvents {
			e.event(Event{Kind: "defer", G: st.G, T: mkT("call", calleeName(&x.Call)), Pos: x.Pos(), Fn: f.fn, Inst: x})
		}
		f.deferCall(x, st)
	case *ssa.Go:
		if e.RecordEvents {
			e.event(Event{Kind: "go", G: st.G, T: mkT("call", calleeName(&x.Call)), Pos: x.Pos(), Fn: f.fn, Inst: x})
		}
	case *ssa.Send:
	case *ssa.Select:
		f.env[x] = gv1(mkTyped(x.Type(), "select", f.path+"/"+x.Name()))
	default:
		if v, ok := ins.(ssa.Value); ok {
			f.env[v] = gv1(mkTyped(v.Type(), "op", fmt.Sprintf("%T", ins)))
		}
	}
	return st
}

// deferCall records the call for the return of the function; its arguments are evaluated now.
func (f *frame) deferCall(x *ssa.Defer, st State) {
	if x.Call.IsInvoke() || st.G == False {
		return
	}
	for i := range f.deferred {
		if f.deferred[i].at == x {
			f.deferred[i].g = Or(f.deferred[i].g, st.G)
			return
		}
	}
	d := deferred{at: x, g: st.G}
	if fn, ok := x.Call.Value.(*ssa.Function); ok {
		d.fn = fn
	} else if v := normGV(f.val(x.Call.Value)); len(v) == 1 && (v[0].T.Op == "closure" || v[0].T.Op == "fn") {
		d.fn = f.e.Prog.fnOf(v[0].T)
		for _, a := range v[0].T.Args {
			d.free = append(d.free, unbox(a))
		}
	}
	if d.fn == nil || d.fn.Blocks == nil || !f.e.Prog.inlinable(d.fn) {
		return
	}
	for _, a := range x.Call.Args {
		d.args = append(d.args, f.val(a))
	}
	f.deferred = append(f.deferred, d)
}

func (f *frame) runDeferred(d deferred, st State) State {
	g := And(st.G, d.g)
	if g == False {
		return st
	}
	n := 0
	for _, s := range f.e.stack {
		if s == d.fn {
			n++
		}
	}
	if n >= 2 || len(f.e.stack) > 60 {
		return st
	}
	var gs []B
	var ms []*Mem
	all := False
	add := func(g B, m *Mem) {
		if g != False {
			gs, ms, all = append(gs, g), append(ms, m), Or(all, g)
		}
	}
	add(And(st.G, Not(d.g)), st.Mem)
	for _, ex := range f.e.Call(d.fn, d.args, d.free, State{g, st.Mem}, f.path+"/defer:"+d.fn.Name()) {
		if ex.Panic {
			f.exits = append(f.exits, ex)
		} else {
			add(ex.G, ex.Mem)
		}
	}
	switch len(gs) {
	case 0:
		return State{False, st.Mem}
	case 1:
		return State{all, ms[0]}
	}
	return State{all, f.e.mergeMem(gs, ms, all)}
}

func (e *Eval) event(ev Event) {
	ev.G = And(e.ctx, ev.G)
	ev.Doms = append([]*Term{}, e.doms...)
	e.Events = append(e.Events, ev)
}

func mkIface(t *Term, typ types.Type) *Term {
	if t.Op == "gv" {
		return boxGV(map1(t.GV, func(x *Term) *Term { return mkIface(x, typ) }))
	}
	switch typ.Underlying().(type) {
	case *types.Pointer:
		if dt := dynType(t); dt == nil || types.Identical(dt, typ) {
			return t
		}
	case *types.Interface, *types.Signature:
		return t
	}
	if t.Op == "iface" {
		return t
	}
	return mkTyped(typ, "iface", typeName(typ), t)
}

// isB is IsB with context pruning.
func (f *frame) isB(x *Term, typ types.Type, g B) B {
	if x.Op == "gv" {
		r := False
		for _, en := range x.GV {
			r = Or(r, And(en.G, f.isB(en.T, typ, And(g, en.G))))
		}
		return r
	}
	if x.Op == "lookup" { // nothing is stored under a missing key
		has := HasB(x.Args[0], x.Args[1])
		return And(has, f.isAtom(x, typ, And(g, has)))
	}
	return f.isAtom(x, typ, g)
}

func (f *frame) isAtom(x *Term, typ types.Type, g B) B {
	b := isTypeB(x, typ)
	if b <= True {
		return b
	}
	e := f.e
	full := And(e.ctx, g)
	if full == False {
		return b
	}
	a := atoms[nodes[b].v]
	known := false
	for _, o := range e.isAtoms[x] {
		if o == a {
			known = true
			continue
		}
		if _, isI := o.Typ.Underlying().(*types.Interface); isI {
			// x is some I; a concrete type that does not implement I is impossible
			if _, isI2 := typ.Underlying().(*types.Interface); !isI2 {
				it := o.Typ.Underlying().(*types.Interface)
				if !types.Implements(typ, it) && And(full, Not(AtomVar(o))) == False {
					return False
				}
				if types.Implements(typ, it) && And(full, AtomVar(o)) == False {
					return False
				}
			}
			continue
		}
		if And(full, Not(AtomVar(o))) == False {
			if typeMatches(o.Typ, typ) {
				return True
			}
			return False
		}
	}
	if !known {
		e.isAtoms[x] = append(e.isAtoms[x], a)
	}
	// disjunction of known concrete types
	if d := e.concreteSet(x, full); d != nil {
		all, none := true, true
		for _, t := range d {
			if typeMatches(t, typ) {
				none = false
			} else {
				all = false
			}
		}
		if all {
			return True
		}
		if none {
			return False
		}
	}
	return b
}

// concreteSet returns the concrete types x may have if the context proves a finite set.
func (e *Eval) concreteSet(x *Term, full B) []types.Type {
	var ts []types.Type
	or := False
	for _, o := range e.isAtoms[x] {
		if _, isI := o.Typ.Underlying().(*types.Interface); isI {
			continue
		}
		v := AtomVar(o)
		if And(full, v) == False {
			continue
		}
		ts = append(ts, o.Typ)
		or = Or(or, v)
	}
	if len(ts) == 0 || And(full, Not(or)) != False {
		return nil
	}
	return ts
}

func (f *frame) typeAssert(x *ssa.TypeAssert, st State) State {
	v := normGV(f.val(x.X))
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	conv := func(t *Term) *Term {
		if t.Op == "iface" && !toIface {
			return t.Args[0]
		}
		if t.Op == "nil" || t.Op == "zero" {
			return zeroOf(x.AssertedType)
		}
		return t
	}
	ok := False
	for _, a := range v {
		ok = Or(ok, And(a.G, f.isB(a.T, x.AssertedType, And(st.G, a.G))))
	}
	ok = f.simpl(ok, st.G)
	if x.CommaOk {
		var out GVal
		for _, a := range v {
			out = append(out, GE{And(a.G, ok), conv(a.T)})
		}
		if ok != True {
			out = append(out, GE{Not(ok), zeroOf(x.AssertedType)})
		}
		f.env[x] = map1(normGV(out), func(t *Term) *Term { return mkT("tuple", "", t, MkBool(ok)) })
		if len(f.env[x]) > 1 {
			// keep ok exact
			nv := make(GVal, 0)
			for _, a := range normGV(out) {
				nv = append(nv, GE{a.G, mkT("tuple", "", a.T, MkBool(ok))})
			}
			f.env[x] = nv
		}
		return st
	}
	if f.e.StrictAssert && ok != True {
		if pg := And(st.G, Not(ok)); And(f.e.ctx, pg) != False {
			f.exits = append(f.exits, Exit{Panic: true, G: pg, Vals: []GVal{gv1(mkT("panicassert", typeName(x.AssertedType)))}, Mem: st.Mem, Pos: x.Pos(), Fn: f.fn})
		}
	}
	st.G = And(st.G, ok)
	f.env[x] = map1(v, conv)
	return st
}

func (f *frame) lookup(x *ssa.Lookup, st State) {
	e := f.e
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap {
		if e.Bounds {
			e.Events = append(e.Events, Event{Kind: "index", G: And(e.ctx, st.G), T: boxGV(f.val(x.X)), Args: []GVal{f.val(x.Index)}, Pos: x.Pos(), Fn: f.fn, Inst: x})
		}
		f.env[x] = map2(f.val(x.X), f.val(x.Index), func(a, i *Term) *Term { return mkIndex(a, i, x.Type()) })
		return
	}
	m := map1(f.val(x.X), func(t *Term) *Term { return boxGV(e.mapContent(st.Mem, t)) })
	k := f.val(x.Index)
	v := map2(m, k, func(a, b *Term) *Term { return boxGV(lookupV(a, b, mt.Elem())) })
	if !x.CommaOk {
		f.env[x] = v
		return
	}
	has := pred2(m, k, HasB)
	out := make(GVal, 0, len(v))
	for _, a := range v {
		out = append(out, GE{a.G, mkT("tuple", "", a.T, MkBool(has))})
	}
	f.env[x] = out
}

func (f *frame) slice(x *ssa.Slice, st State) State {
	e := f.e
	v := f.val(x.X)
	// array literal: snapshot
	if len(v) == 1 && v[0].T.Op == "alloc" {
		a := v[0].T
		if al, ok := x.X.(*ssa.Alloc); ok && x.Low == nil && x.High == nil && (al.Comment == "varargs" || al.Comment == "slicelit") {
			at := elemType(al.Type()).Underlying().(*types.Array)
			if at.Len() <= 256 {
				args := make([]*Term, at.Len())
				for i := range args {
					ad := mkTyped(types.NewPointer(at.Elem()), "&index", "", a, mkI(int64(i)))
					args[i] = boxGV(e.load(st.Mem, ad, at.Elem()))
				}
				f.env[x] = gv1(mkTyped(x.Type(), "list", "", args...))
				return st
			}
		}
	}
	var lo, hi GVal
	lo = gv1(mkI(0))
	hi = gv1(mkT("none", ""))
	if x.Low != nil {
		lo = f.val(x.Low)
	}
	if x.High != nil {
		hi = f.val(x.High)
	}
	if e.Bounds && (x.Low != nil || x.High != nil) {
		e.Events = append(e.Events, Event{Kind: "slice", G: And(e.ctx, st.G), T: boxGV(v), Args: []GVal{lo, hi}, Pos: x.Pos(), Fn: f.fn, Inst: x})
	}
	isArrPtr := false
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		_, isArrPtr = p.Elem().Underlying().(*types.Array)
	}
	base := map1(v, func(t *Term) *Term {
		if isArrPtr {
			return mkTyped(x.Type(), "sliceof", "", t)
		}
		return t
	})
	if x.Low == nil && x.High == nil {
		f.env[x] = base
		return st
	}
	l, h := boxGV(lo), boxGV(hi)
	f.env[x] = map1(base, func(t *Term) *Term {
		switch t.Op {
		case "sliceof", "subof":
			a, o, n := t.Args[0], mkI(0), mkLen(t)
			if t.Op == "subof" {
				o = t.Args[1]
			}
			end := n
			if h.Op != "none" {
				end = h
			}
			if l.Op == "int" && l.Big.Sign() == 0 && end == n {
				return t
			}
			return mkTyped(x.Type(), "subof", "", a, Add(o, l), Add(o, end))
		case "makeslice":
			if isByteSeq(x.Type()) && t.Sym != "" {
				end := h
				if h.Op == "none" {
					end = mkLen(t)
				}
				return mkTyped(x.Type(), "subof", "", t, l, end)
			}
		}
		return mkSlice(x.Type(), t, l, h)
	})
	return st
}

func (f *frame) unop(x *ssa.UnOp, st State) GVal {
	v := f.val(x.X)
	switch x.Op {
	case token.MUL:
		r := map1(v, func(t *Term) *Term { return boxGV(f.e.load(st.Mem, t, x.Type())) })
		return r
	case token.NOT:
		return boolV(Not(truth(v)))
	case token.SUB:
		return map1(v, func(t *Term) *Term { return Sub(mkI(0), t) })
	case token.XOR:
		return map1(v, func(t *Term) *Term { return mkTyped(x.Type(), "^", "", t) })
	case token.ARROW:
		return gv1(mkTyped(x.Type(), "recv", "", boxGV(v)))
	}
	return gv1(mkTyped(x.Type(), "unop", x.Op.String(), boxGV(v)))
}

// eqOf is == on operands of type t: pointers to objects that exist before the call are compared by identity,
// which says nothing about what they point to.
func eqOf(t types.Type) func(a, b *Term) B {
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		return EqB
	}
	return func(a, b *Term) B {
		if a == b || a.Op == "nil" || b.Op == "nil" || a.Op == "alloc" || b.Op == "alloc" || a.Op == "gv" || b.Op == "gv" {
			return EqB(a, b)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return AtomVar(mkT("samepointer", "", a, b))
	}
}

func (f *frame) binop(op token.Token, a, b GVal, at, rt types.Type) GVal {
	switch op {
	case token.EQL:
		return boolV(pred2(a, b, eqOf(at)))
	case token.NEQ:
		return boolV(Not(pred2(a, b, eqOf(at))))
	case token.LSS:
		return boolV(pred2(a, b, LtB))
	case token.GTR:
		return boolV(pred2(b, a, LtB))
	case token.LEQ:
		return boolV(Not(pred2(b, a, LtB)))
	case token.GEQ:
		return boolV(Not(pred2(a, b, LtB)))
	}
	_, _, isInt := intSize(at)
	return map2(a, b, func(x, y *Term) *Term {
		x, y = unphi(x), unphi(y)
		if !isInt {
			if op == token.ADD && isString(rt) {
				return mkStr(x, y)
			}
			t := mkTyped(rt, op.String(), "f", x, y)
			return t
		}
		return arith(op, x, y, rt)
	})
}

func unphi(t *Term) *Term {
	if t.Op == "gv" {
		return opaqueBox(t.GV)
	}
	return t
}

func arith(op token.Token, x, y *Term, rt types.Type) *Term {
	if x.Typ == nil {
		x.Typ = rt
	}
	var r *Term
	switch op {
	case token.ADD:
		r = Add(x, y)
	case token.SUB:
		r = Sub(x, y)
	case token.MUL:
		r = Mul(x, y)
	case token.SHL:
		if y.Op == "int" && x.Op == "int" && y.Big.IsInt64() && y.Big.Int64() < 128 {
			return MkInt(newLsh(x, uint(y.Big.Int64())))
		}
		if y.Op == "int" && y.Big.IsInt64() && y.Big.Int64() < 62 {
			r = mkTyped(rt, "<<", "", x, y)
		} else if y.Op != "int" && x != mkI(1) {
			r = Mul(x, pow2(y, rt))
		} else {
			r = mkTyped(rt, "<<", "", x, y)
		}
	default:
		if x.Op == "int" && y.Op == "int" {
			if v := constArith(op, x, y); v != nil {
				return v
			}
		}
		switch op {
		case token.AND, token.OR, token.XOR:
			if x.String() > y.String() {
				x, y = y, x
			}
		case token.SHR:
			if y == zeroInt() {
				return x
			}
		case token.REM:
			if isPow2(y) && uintType(rt) {
				return Sub(x, Mul(arith(token.SHR, x, y.Args[1], rt), y))
			}
		case token.QUO:
			if isPow2(y) && uintType(rt) {
				return arith(token.SHR, x, y.Args[1], rt)
			}
			if y.Op == "int" && y.Big.IsInt64() && y.Big.Int64() == 1 {
				return x
			}
		}
		r = mkTyped(rt, op.String(), "", x, y)
	}
	if r.Typ == nil {
		r.Typ = rt
	}
	return r
}

func uintType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, signed, ok := intSize(t)
	return ok && !signed
}

func debugf(format string, a ...any) {
	if os.Getenv("ENGINE_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
}

var _ = strings.Contains

// viewed replaces a view of a buffer by its current content.
func (e *Eval) viewed(m *Mem, t *Term) *Term {
	switch t.Op {
	case "sliceof", "subof":
		return e.Freeze(m, t, 0)
	case "makeslice":
		if isByteSeq(t.Typ) {
			return e.Freeze(m, t, 0)
		}
	}
	return t
}

// deref records an access through a pointer that may be nil: one with a nil alternative or a named optional field.
func (f *frame) deref(v GVal, st *State, x ssa.Instruction) {
	e := f.e
	if !e.Bounds {
		return
	}
	g := False
	for _, a := range v {
		if a.T.Op == "nil" {
			g = Or(g, a.G)
		} else if e.Optional[a.T.Sym] && a.T.Op == "field" {
			g = Or(g, And(a.G, EqB(a.T, NilT)))
		}
	}
	if g = And(st.G, g); g != False {
		e.Events = append(e.Events, Event{Kind: "nilderef", G: And(e.ctx, g), T: boxGV(v), Pos: x.Pos(), Fn: f.fn, Inst: x})
	}
}

// notNil drops the nil alternatives of a dereferenced pointer: the access panics there.
func (f *frame) notNil(v GVal, st *State) GVal {
	var keep GVal
	nilG := False
	for _, a := range v {
		if a.T.Op == "nil" {
			nilG = Or(nilG, a.G)
		} else {
			keep = append(keep, a)
		}
	}
	if nilG == False || len(keep) == 0 {
		return v
	}
	if f.e.StrictAssert {
		return v
	}
	st.G = And(st.G, Not(nilG))
	return keep
}
