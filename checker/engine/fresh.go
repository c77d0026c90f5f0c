package engine

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Flow-sensitive aliasing analysis: what memory of the caller does the result of a function still refer to, and what
// memory of the caller does the function write to? Objects made by the function are tracked one by one (the most
// recent object of an allocation site apart from the older ones), everything reachable from the parameters is one
// region named after the path it was loaded from. Calls are followed into their bodies.

// ref is a reference: into an object made here (o != nil) at a path, or into the caller's memory.
type ref struct {
	o    *fobj
	path string // within the object
	ext  string // description of the caller's memory
	fn   *ssa.Function
	free string // key of bound variables (functions)
}

type fobj struct {
	site string
	old  bool
}

type refs map[ref]bool

// fval is a value: the references held at each path inside it ("" for the value itself).
type fval map[string]refs

func (v fval) add(p string, r ref) {
	if v[p] == nil {
		v[p] = refs{}
	}
	v[p][r] = true
}

func (v fval) join(w fval) bool {
	ch := false
	for p, rs := range w {
		for r := range rs {
			if !v[p][r] {
				v.add(p, r)
				ch = true
			}
		}
	}
	return ch
}

func (v fval) clone() fval {
	w := fval{}
	w.join(v)
	return w
}

// sub is the part of the value below path p.
func (v fval) sub(p string) fval {
	w := fval{}
	for q, rs := range v {
		if strings.HasPrefix(q, p) {
			for r := range rs {
				w.add(q[len(p):], r)
			}
		}
	}
	return w
}

func (v fval) under(p string) fval {
	w := fval{}
	for q, rs := range v {
		for r := range rs {
			w.add(p+q, r)
		}
	}
	return w
}

// all references anywhere in the value, moved to one path
func (v fval) flat(p string) fval {
	w := fval{}
	for _, rs := range v {
		for r := range rs {
			w.add(p, r)
		}
	}
	return w
}

type fmem map[*fobj]fval

func (m fmem) clone() fmem {
	n := fmem{}
	for o, v := range m {
		n[o] = v.clone()
	}
	return n
}

func (m fmem) join(n fmem) bool {
	ch := false
	for o, v := range n {
		if m[o] == nil {
			m[o] = fval{}
			ch = true
		}
		if m[o].join(v) {
			ch = true
		}
	}
	return ch
}

type fstate struct {
	mem fmem
	env map[ssa.Value]fval
}

func (s *fstate) clone() *fstate {
	n := &fstate{s.mem.clone(), map[ssa.Value]fval{}}
	for k, v := range s.env {
		n.env[k] = v.clone()
	}
	return n
}

func (s *fstate) join(t *fstate) bool {
	ch := s.mem.join(t.mem)
	for k, v := range t.env {
		if s.env[k] == nil {
			s.env[k] = fval{}
			ch = true
		}
		if s.env[k].join(v) {
			ch = true
		}
	}
	return ch
}

// Fresh is one aliasing analysis.
type Fresh struct {
	P      *Program
	Pure   func(fn *ssa.Function) bool // results of these share nothing with their arguments
	PureM  map[string]bool             // the same for methods called through interfaces
	Writes map[string]token.Pos        // caller's memory written
	Funcs  map[*ssa.Function]bool
	objs   map[string]*fobj
	stack  []*ssa.Function
	depth  int
}

func NewFresh(p *Program) *Fresh {
	return &Fresh{P: p, Writes: map[string]token.Pos{}, Funcs: map[*ssa.Function]bool{}, objs: map[string]*fobj{}}
}

func holdsRefs(t types.Type) bool { return holds(t, map[types.Type]bool{}) }

func holds(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Array:
		return holds(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holds(u.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if holds(u.At(i).Type(), seen) {
				return true
			}
		}
		return false
	}
	return true
}

// extVal is a value of type t read from the caller's memory at the named place.
func extVal(t types.Type, name string) fval {
	v := fval{}
	extInto(v, t, name, "", 0)
	return v
}

func extInto(v fval, t types.Type, name, p string, d int) {
	if !holdsRefs(t) || d > 6 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		extInto(v, u.Elem(), name+"[]", p+"[]", d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			extInto(v, f.Type(), name+"."+f.Name(), p+"."+f.Name(), d+1)
		}
	default:
		v.add(p, ref{ext: name})
	}
}

// Run analyses fn with parameters in the caller's memory; it returns the state at the joined exits and the results.
func (a *Fresh) Run(fn *ssa.Function, names []string) (fval, fmem) {
	args := make([]fval, len(fn.Params))
	for i, p := range fn.Params {
		n := p.Name()
		if i < len(names) {
			n = names[i]
		}
		args[i] = extVal(p.Type(), n)
	}
	return a.call(fn, args, nil, fmem{}, fn.String())
}

func (a *Fresh) call(fn *ssa.Function, args []fval, free []fval, mem fmem, path string) (fval, fmem) {
	a.Funcs[fn] = true
	a.stack = append(a.stack, fn)
	defer func() { a.stack = a.stack[:len(a.stack)-1] }()
	in := make([]*fstate, len(fn.Blocks))
	first := &fstate{mem.clone(), map[ssa.Value]fval{}}
	for i, p := range fn.Params {
		if i < len(args) {
			first.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			first.env[p] = free[i]
		}
	}
	in[0] = first
	var ret fval
	var rmem fmem
	work := []int{0}
	for n := 0; len(work) > 0; n++ {
		if n > 2000 {
			panic("aliasing analysis does not settle")
		}
		sort.Ints(work)
		b := fn.Blocks[work[0]]
		work = work[1:]
		st := in[b.Index].clone()
		for _, ins := range b.Instrs {
			if r, ok := ins.(*ssa.Return); ok {
				v := fval{}
				for i, x := range r.Results {
					if len(r.Results) == 1 {
						v.join(a.val(st, x))
					} else {
						v.join(a.val(st, x).under(fmt.Sprintf("#%d", i)))
					}
				}
				if ret == nil {
					ret, rmem = v, st.mem.clone()
				} else {
					ret.join(v)
					rmem.join(st.mem)
				}
				continue
			}
			a.instr(fn, ins, st, path, b)
		}
		for _, s := range b.Succs {
			out := st.clone()
			// phis
			pi := -1
			for i, p := range s.Preds {
				if p == b {
					pi = i
				}
			}
			ph := map[ssa.Value]fval{}
			for _, ins := range s.Instrs {
				if p, ok := ins.(*ssa.Phi); ok {
					ph[p] = a.val(st, p.Edges[pi])
				}
			}
			for p, v := range ph {
				out.env[p] = v
			}
			if in[s.Index] == nil {
				in[s.Index] = out
				work = addWork(work, s.Index)
			} else if in[s.Index].join(out) {
				work = addWork(work, s.Index)
			}
		}
	}
	if ret == nil {
		return fval{}, mem
	}
	return ret, rmem
}

func addWork(w []int, i int) []int {
	for _, x := range w {
		if x == i {
			return w
		}
	}
	return append(w, i)
}

func (a *Fresh) val(st *fstate, x ssa.Value) fval {
	switch v := x.(type) {
	case *ssa.Const:
		return fval{}
	case *ssa.Global:
		w := fval{}
		w.add("", ref{ext: "global " + v.Name()})
		return w
	case *ssa.Function:
		w := fval{}
		w.add("", ref{fn: v})
		return w
	}
	if v := st.env[x]; v != nil {
		return v
	}
	return fval{}
}

// fresh makes a new object of an allocation site, retiring the site's previous one.
func (a *Fresh) fresh(st *fstate, site string) *fobj {
	o, old := a.objs[site], a.objs[site+"~"]
	if o == nil {
		o, old = &fobj{site: site}, &fobj{site: site, old: true}
		a.objs[site], a.objs[site+"~"] = o, old
	}
	if prev := st.mem[o]; prev != nil {
		if st.mem[old] == nil {
			st.mem[old] = fval{}
		}
		st.mem[old].join(prev)
		ren := func(v fval) fval {
			w := fval{}
			for p, rs := range v {
				for r := range rs {
					if r.o == o {
						r.o = old
					}
					w.add(p, r)
				}
			}
			return w
		}
		for k, v := range st.mem {
			st.mem[k] = ren(v)
		}
		for k, v := range st.env {
			st.env[k] = ren(v)
		}
	}
	st.mem[o] = fval{}
	return o
}

func newRef(o *fobj) fval {
	w := fval{}
	w.add("", ref{o: o})
	return w
}

// load reads a value of type t through the references.
func (a *Fresh) load(st *fstate, p fval, t types.Type) fval {
	w := fval{}
	for r := range p[""] {
		switch {
		case r.o != nil:
			w.join(st.mem[r.o].sub(r.path))
		case r.ext != "":
			w.join(extVal(t, r.ext))
		}
	}
	return w
}

func (a *Fresh) store(st *fstate, p fval, v fval, pos token.Pos, weak bool) {
	for r := range p[""] {
		switch {
		case r.o != nil:
			m := st.mem[r.o]
			if m == nil {
				m = fval{}
				st.mem[r.o] = m
			}
			if !weak && len(p[""]) == 1 && !r.o.old && !strings.Contains(r.path, "[]") {
				for q := range m {
					if strings.HasPrefix(q, r.path) {
						delete(m, q)
					}
				}
			}
			m.join(v.under(r.path))
		case r.ext != "":
			if _, ok := a.Writes[r.ext]; !ok {
				a.Writes[r.ext] = pos
			}
		}
	}
}

func step(v fval, s string) fval {
	w := fval{}
	for r := range v[""] {
		switch {
		case r.o != nil:
			r.path += s
		case r.ext != "":
			r.ext += s
		}
		w.add("", r)
	}
	return w
}

func elemsOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		return elemsOf(u.Elem())
	}
	return t
}

func (a *Fresh) instr(fn *ssa.Function, ins ssa.Instruction, st *fstate, path string, b *ssa.BasicBlock) {
	set := func(x ssa.Value, v fval) { st.env[x] = v }
	switch x := ins.(type) {
	case *ssa.Alloc:
		set(x, newRef(a.fresh(st, path+"/"+x.Name())))
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		set(x.(ssa.Value), newRef(a.fresh(st, path+"/"+x.(ssa.Value).Name())))
	case *ssa.FieldAddr:
		f := elemType(x.X.Type()).Underlying().(*types.Struct).Field(x.Field)
		set(x, step(a.val(st, x.X), "."+f.Name()))
	case *ssa.IndexAddr:
		set(x, step(a.val(st, x.X), "[]"))
	case *ssa.Field:
		f := x.X.Type().Underlying().(*types.Struct).Field(x.Field)
		set(x, a.val(st, x.X).sub("."+f.Name()))
	case *ssa.Index:
		set(x, a.val(st, x.X).sub("[]"))
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if holdsRefs(x.Type()) {
				set(x, a.load(st, a.val(st, x.X), x.Type()))
			}
		} else if x.Op == token.ARROW {
			set(x, a.val(st, x.X).flat(""))
		}
	case *ssa.Store:
		a.store(st, a.val(st, x.Addr), a.val(st, x.Val), x.Pos(), false)
	case *ssa.MapUpdate:
		m := step(a.val(st, x.Map), "[]")
		a.store(st, m, a.val(st, x.Value), x.Pos(), true)
		a.store(st, m, a.val(st, x.Key), x.Pos(), true)
	case *ssa.Lookup:
		if !holdsRefs(x.Type()) {
			break
		}
		v := a.load(st, step(a.val(st, x.X), "[]"), elemsOf(x.X.Type()))
		if x.CommaOk {
			v = v.under("#0")
		}
		set(x, v)
	case *ssa.Range:
		set(x, a.val(st, x.X))
	case *ssa.Next:
		if x.IsString {
			break
		}
		r := x.Iter.(*ssa.Range)
		m := r.X.Type().Underlying().(*types.Map)
		p := step(a.val(st, x.Iter), "[]")
		v := fval{}
		if holdsRefs(m.Key()) {
			v.join(a.load(st, p, m.Key()).under("#1"))
		}
		if holdsRefs(m.Elem()) {
			v.join(a.load(st, p, m.Elem()).under("#2"))
		}
		set(x, v)
	case *ssa.Extract:
		if holdsRefs(x.Type()) {
			set(x, a.val(st, x.Tuple).sub(fmt.Sprintf("#%d", x.Index)))
		}
	case *ssa.Slice:
		v := a.val(st, x.X)
		if c, ok := x.Max.(*ssa.Const); ok && c.Int64() == 0 {
			v = fval{} // no capacity: nothing is shared
		}
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok || true {
			set(x, v.clone())
		}
	case *ssa.SliceToArrayPointer:
		set(x, a.val(st, x.X))
	case *ssa.ChangeType:
		set(x, a.val(st, x.X))
	case *ssa.Convert:
		if holdsRefs(x.Type()) && holdsRefs(x.X.Type()) {
			set(x, a.val(st, x.X))
		} else if holdsRefs(x.Type()) {
			set(x, newRef(a.fresh(st, path+"/"+x.Name())))
		}
	case *ssa.MultiConvert:
		set(x, a.val(st, x.X))
	case *ssa.ChangeInterface:
		set(x, a.val(st, x.X))
	case *ssa.MakeInterface: // the boxed copy is immutable: only what it refers to matters
		set(x, a.val(st, x.X).clone())
	case *ssa.TypeAssert:
		v := a.val(st, x.X)
		if v[""] != nil && len(v) == 1 {
			if _, ok := x.AssertedType.Underlying().(*types.Struct); ok { // a struct read from the caller's memory
				w := fval{}
				for r := range v[""] {
					if r.ext != "" {
						w.join(extVal(x.AssertedType, r.ext))
					}
				}
				v = w
			}
		}
		if !holdsRefs(x.AssertedType) {
			v = fval{}
		}
		if x.CommaOk {
			v = v.under("#0")
		}
		set(x, v)
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		w := fval{}
		key := path + "/" + x.Name()
		w.add("", ref{fn: f, free: key})
		for i, bv := range x.Bindings {
			for _, rs := range a.val(st, bv) {
				for r := range rs {
					w.add(fmt.Sprintf("^%d", i), r)
				}
			}
		}
		set(x, w)
	case *ssa.Call:
		v := a.callInstr(x, st, path)
		if holdsRefs(x.Type()) {
			set(x, v)
		}
	case *ssa.Defer, *ssa.Go:
		// effects of deferred calls on the result are not modelled: treat what they are given as escaping
		com := ins.(ssa.CallInstruction).Common()
		for _, ar := range com.Args {
			_ = ar
		}
	}
}

func (a *Fresh) callInstr(x *ssa.Call, st *fstate, path string) fval {
	com := x.Common()
	site := path + "/" + x.Name()
	var args []fval
	for _, ar := range com.Args {
		args = append(args, a.val(st, ar))
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			o := a.fresh(st, site)
			v := newRef(o)
			v.join(a.val(st, com.Args[0]))
			src := a.val(st, com.Args[1])
			if et := elemsOf(com.Args[0].Type()); holdsRefs(et) {
				// the new array holds the old elements and the new ones; the old array may receive them too
				old := a.load(st, step(a.val(st, com.Args[0]), "[]"), et)
				a.store(st, step(newRef(o), "[]"), old, x.Pos(), true)
				more := a.load(st, step(src, "[]"), et)
				for r := range v[""] {
					if r.o != nil {
						a.store(st, step(fval{"": refs{r: true}}, "[]"), more, x.Pos(), true)
					}
				}
			}
			return v
		case "copy":
			if et := elemsOf(com.Args[0].Type()); holdsRefs(et) {
				a.store(st, step(a.val(st, com.Args[0]), "[]"), a.load(st, step(a.val(st, com.Args[1]), "[]"), et), x.Pos(), true)
			} else {
				a.store(st, step(a.val(st, com.Args[0]), "[]"), fval{}, x.Pos(), true)
			}
		case "clear":
			a.store(st, step(a.val(st, com.Args[0]), "[]"), fval{}, x.Pos(), true)
		}
		return fval{}
	}
	if com.IsInvoke() {
		recv := a.val(st, com.Value)
		if a.PureM[com.Method.Name()] {
			return newRef(a.fresh(st, site))
		}
		return a.unknown(append([]fval{recv}, args...))
	}
	var out fval
	callFn := func(fn *ssa.Function, free []fval) {
		v := a.static(fn, args, free, st, site)
		if out == nil {
			out = v
		} else {
			out.join(v)
		}
	}
	if fn := com.StaticCallee(); fn != nil {
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			var free []fval
			for _, bv := range mc.Bindings {
				free = append(free, a.val(st, bv))
			}
			callFn(fn, free)
			return out
		}
		callFn(fn, nil)
		return out
	}
	fv := a.val(st, com.Value)
	known := len(fv[""]) > 0
	for r := range fv[""] {
		if r.fn == nil {
			known = false
		}
	}
	if !known {
		return a.unknown(append([]fval{fv}, args...))
	}
	for r := range fv[""] {
		var free []fval
		for i := range r.fn.FreeVars {
			free = append(free, fval{"": fv[fmt.Sprintf("^%d", i)]})
		}
		callFn(r.fn, free)
	}
	return out
}

// unknown is the result of code that is not followed: it may refer to whatever it was given.
func (a *Fresh) unknown(args []fval) fval {
	w := fval{}
	for _, v := range args {
		w.join(v.flat(""))
		w.join(v.flat("#0"))
		w.join(v.flat("#1"))
	}
	return w
}

func (a *Fresh) static(fn *ssa.Function, args, free []fval, st *fstate, site string) fval {
	if a.Pure != nil && a.Pure(fn) {
		return newRef(a.fresh(st, site))
	}
	name := fn.String()
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		pkg = o.Pkg.Pkg.Path()
	}
	switch {
	case pkg == "math/big" && fn.Signature.Recv() != nil && len(args) > 0: // results are the receiver, operands are copied
		for r := range args[0][""] {
			if r.ext != "" && fn.Signature.Results().Len() > 0 && strings.HasSuffix(fn.Signature.Results().At(0).Type().String(), "big.Int") {
				if _, ok := a.Writes[r.ext]; !ok {
					a.Writes[r.ext] = fn.Pos()
				}
			}
		}
		return args[0].clone()
	case pkg == "math/big":
		return newRef(a.fresh(st, site))
	case strings.HasPrefix(name, "maps.clone") || strings.HasPrefix(name, "maps.Clone"):
		o := a.fresh(st, site)
		if len(args) > 0 {
			if et := elemsOf(fn.Signature.Params().At(0).Type()); holdsRefs(et) {
				a.store(st, step(newRef(o), "[]"), a.load(st, step(args[0], "[]"), et), fn.Pos(), true)
			}
		}
		return newRef(o)
	}
	n := 0
	for _, f := range a.stack {
		if f == fn {
			n++
		}
	}
	follow := fn.Blocks != nil && n < 2 && len(a.stack) < 12 && (a.P.inlinable(fn) || pkg == "slices" || pkg == "bytes" || pkg == "maps")
	if !follow {
		return a.unknown(args)
	}
	v, m := a.call(fn, args, free, st.mem, site+":"+fn.Name())
	st.mem = m
	return v
}

// Shared lists the places reachable from v (a value of type t) that refer to the caller's memory: path in the result ->
// the caller's memory. skip leaves out members by the type and name of their field.
func Shared(v fval, t types.Type, mem fmem, skip func(t types.Type, field string) bool) map[string]string {
	out := map[string]string{}
	seen := map[string]bool{}
	var walkV func(v fval, t types.Type, p string, d int)
	var walkR func(r ref, t types.Type, p string, d int)
	walkR = func(r ref, t types.Type, p string, d int) {
		switch {
		case r.ext != "":
			if out[p] == "" || out[p] > r.ext {
				out[p] = r.ext
			}
		case r.o != nil:
			k := fmt.Sprint(r.o.site, r.o.old, r.path, "@", p)
			if seen[k] || d > 12 {
				return
			}
			seen[k] = true
			et := t
			if t != nil {
				if pt, ok := t.Underlying().(*types.Pointer); ok {
					et = pt.Elem()
				} else if _, ok := t.Underlying().(*types.Interface); ok {
					et = nil
				}
			}
			walkV(mem[r.o].sub(r.path), et, p, d+1)
		}
	}
	walkV = func(v fval, t types.Type, p string, d int) {
		var ps []string
		for q := range v {
			ps = append(ps, q)
		}
		sort.Strings(ps)
		for _, q := range ps {
			if skipped(t, q, skip) {
				continue
			}
			for r := range v[q] {
				walkR(r, typeAt(t, q), p+q, d)
			}
		}
	}
	walkV(v, t, "", 0)
	return out
}

// typeAt follows a path of fields and elements; nil when the type is not known statically.
func typeAt(t types.Type, p string) types.Type {
	for p != "" && t != nil {
		switch {
		case strings.HasPrefix(p, "[]"):
			t, p = elemsOf(t), p[2:]
		case p[0] == '.':
			q := p[1:]
			if i := strings.IndexAny(q, ".[#"); i >= 0 {
				q = q[:i]
			}
			p = p[1+len(q):]
			s, ok := t.Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			var ft types.Type
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == q {
					ft = s.Field(i).Type()
				}
			}
			t = ft
		default:
			return nil
		}
	}
	return t
}

func skipped(t types.Type, p string, skip func(t types.Type, field string) bool) bool {
	for i := 0; i < len(p); i++ {
		if p[i] != '.' {
			continue
		}
		q := p[i+1:]
		if j := strings.IndexAny(q, ".[#"); j >= 0 {
			q = q[:j]
		}
		if ft := typeAt(t, p[:i+1+len(q)]); skip(ft, q) {
			return true
		}
	}
	return false
}
