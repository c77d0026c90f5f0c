package engine

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if fn := c.StaticCallee(); fn != nil {
		return FuncName(fn)
	}
	return "dynamic"
}

// FuncName is the canonical short name: Method or pkg.Func.
func FuncName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Signature.Recv() != nil {
		return strings.TrimSuffix(strings.TrimSuffix(fn.Name(), "$bound"), "$thunk")
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Name() + "." + fn.Name()
	}
	return fn.Name()
}

// QualName is pkgpath-qualified: pkg.(Type).Method.
func QualName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func tupleOf(ts ...*Term) *Term { return mkT("tuple", "", ts...) }

func (f *frame) call(x *ssa.Call, st State) State {
	c := &x.Call
	args := make([]GVal, 0, len(c.Args)+1)
	if c.IsInvoke() {
		recv := normGV(f.val(c.Value))
		for _, a := range c.Args {
			args = append(args, f.val(a))
		}
		return f.callAlts(x, st, recv, args, true)
	}
	for _, a := range c.Args {
		args = append(args, f.val(a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return f.builtin(x, b.Name(), narrow(args, st.G), st)
	}
	if fn, ok := c.Value.(*ssa.Function); ok {
		rs, st2 := f.static(fn, args, nil, st, x)
		f.env[x] = rs
		return st2
	}
	return f.callAlts(x, st, normGV(f.val(c.Value)), args, false)
}

// callAlts evaluates a call whose target depends on alternatives.
func (f *frame) callAlts(x *ssa.Call, st State, targets GVal, args []GVal, invoke bool) State {
	e := f.e
	type res struct {
		g B
		v GVal
		s State
	}
	var rs []res
	run := func(g B, fn *ssa.Function, a []GVal, free []GVal, s State) {
		s.G = And(s.G, g)
		if s.G == False || And(e.ctx, s.G) == False {
			return
		}
		v, s2 := f.static(fn, a, free, s, x)
		if s2.G != False {
			rs = append(rs, res{s2.G, v, s2})
		}
	}
	f.deref(targets, &st, x)
	for _, t := range targets {
		g := And(st.G, t.G)
		if g == False || And(e.ctx, g) == False {
			continue
		}
		if !invoke {
			switch t.T.Op {
			case "closure", "fn":
				fn := e.Prog.fnOf(t.T)
				var free []GVal
				for _, a := range t.T.Args {
					free = append(free, unbox(a))
				}
				run(t.G, fn, args, free, st)
				continue
			case "nil":
				continue
			}
			s := st
			s.G = g
			v, s2 := f.opaque("dyn:"+t.T.String(), x.Call.Signature(), append([]GVal{gv1(t.T)}, args...), s, x, "dyn")
			rs = append(rs, res{s2.G, v, s2})
			continue
		}
		// interface method
		recvT := t.T
		typs := []types.Type{}
		rest := g
		if recvT.Op == "nil" {
			continue // nil dereference
		}
		if recvT.Op == "sink" {
			s := st
			s.G = g
			if v, s2, ok := f.sinkInvoke(recvT, x.Call.Method.Name(), args, s, x); ok {
				rs = append(rs, res{s2.G, v, s2})
				continue
			}
		}
		if dt := dynType(recvT); dt != nil {
			typs = append(typs, dt)
		} else if ds := e.concreteSet(recvT, And(e.ctx, g)); ds != nil {
			typs = append(typs, ds...)
		} else if dt := ptrType(recvT); dt != nil {
			typs = append(typs, dt)
		}
		did := false
		for _, dt := range typs {
			fn := e.Prog.method(dt, x.Call.Method)
			if fn == nil || fn.Blocks == nil {
				continue
			}
			gg := t.G
			if len(typs) > 1 {
				gg = And(gg, IsB(recvT, dt))
			}
			r := recvT
			if r.Op == "iface" {
				r = r.Args[0]
			}
			run(gg, fn, append([]GVal{gv1(r)}, args...), nil, st)
			did = true
		}
		if did && len(typs) > 0 {
			_ = rest
			continue
		}
		if fn := f.symmetric(x, args); fn != nil {
			run(t.G, fn, []GVal{map1(args[0], func(a *Term) *Term {
				if a.Op == "iface" {
					return a.Args[0]
				}
				return a
			}), gv1(recvT)}, nil, st)
			continue
		}
		s := st
		s.G = g
		v, s2 := f.opaque(x.Call.Method.Name(), x.Call.Signature(), append([]GVal{gv1(recvT)}, args...), s, x, "invoke")
		rs = append(rs, res{s2.G, v, s2})
	}
	if len(rs) == 0 {
		st.G = False
		f.env[x] = gv1(zeroOf(x.Type()))
		return st
	}
	if len(rs) == 1 {
		f.env[x] = rs[0].v
		return rs[0].s
	}
	gs := make([]B, len(rs))
	vs := make([]GVal, len(rs))
	ms := make([]*Mem, len(rs))
	g := False
	for i, r := range rs {
		gs[i], vs[i], ms[i] = r.g, r.v, r.s.Mem
		g = Or(g, r.g)
	}
	f.env[x] = mergeGV(gs, vs, g)
	return State{g, e.mergeMem(gs, ms, g)}
}

// symmetric: comparing a value of unknown kind with a value of known kind is comparing the latter with the former
// (each Equal is false across kinds: rule P25).
func (f *frame) symmetric(x *ssa.Call, args []GVal) *ssa.Function {
	if x.Call.Method.Name() != "Equal" || len(args) != 1 {
		return nil
	}
	v := normGV(args[0])
	if len(v) != 1 {
		return nil
	}
	dt := dynType(v[0].T)
	if dt == nil {
		return nil
	}
	fn := f.e.Prog.method(dt, x.Call.Method)
	if fn == nil || fn.Blocks == nil || !strings.HasPrefix(fnPkg(fn).Path(), RepoMod) {
		return nil
	}
	return fn
}

// ptrType returns the static pointer-to-named type of a term, if it is a concrete one.
func ptrType(t *Term) types.Type {
	if t.Typ == nil {
		return nil
	}
	if p, ok := t.Typ.Underlying().(*types.Pointer); ok {
		if _, isI := p.Elem().Underlying().(*types.Interface); !isI {
			return t.Typ
		}
	}
	return nil
}

func (f *frame) static(fn *ssa.Function, args []GVal, free []GVal, st State, x *ssa.Call) (GVal, State) {
	e := f.e
	sig := fn.Signature
	if fn.Name() == "init" && fn.Synthetic != "" { // initialisation of another package
		return f.opaque(FuncName(fn), sig, args, st, x, fn)
	}
	if v, s, ok := f.model(fn, args, st, x); ok {
		return v, s
	}
	inline := fn.Blocks != nil && e.Prog.inlinable(fn)
	if e.Inline != nil && fn.Blocks != nil && e.Inline(fn) {
		inline = true
	}
	if inline && (e.Opaque != nil && e.Opaque(fn) || e.Prog.defaultOpaque(fn)) {
		inline = e.Inline != nil && e.Inline(fn)
	}
	if inline {
		n := 0
		for _, s := range e.stack {
			if s == fn {
				n++
			}
		}
		if n >= 2 || len(e.stack) > 60 {
			inline = false
		}
	}
	if !inline {
		return f.opaque(FuncName(fn), sig, args, st, x, fn)
	}
	path := f.path + "/" + x.Name() + ":" + fn.Name()
	exits := e.Call(fn, args, free, st, path)
	var rets []Exit
	for _, ex := range exits {
		if ex.Panic {
			f.exits = append(f.exits, ex)
		} else if ex.G != False {
			rets = append(rets, ex)
		}
	}
	if len(rets) == 0 {
		return gv1(zeroOf(x.Type())), State{False, st.Mem}
	}
	gs := make([]B, len(rets))
	ms := make([]*Mem, len(rets))
	g := False
	for i, r := range rets {
		gs[i], ms[i] = r.G, r.Mem
		g = Or(g, r.G)
	}
	nres := sig.Results().Len()
	vals := make([]GVal, nres)
	for k := 0; k < nres; k++ {
		vs := make([]GVal, len(rets))
		for i, r := range rets {
			vs[i] = r.Vals[k]
		}
		if len(rets) == 1 {
			vals[k] = vs[0]
		} else {
			vals[k] = mergeGV(gs, vs, g)
		}
	}
	mem := ms[0]
	if len(ms) > 1 {
		mem = e.mergeMem(gs, ms, g)
	}
	return packResults(vals), State{g, mem}
}

func packResults(vals []GVal) GVal {
	switch len(vals) {
	case 0:
		return gv1(NilT)
	case 1:
		return vals[0]
	}
	ts := make([]*Term, len(vals))
	for i, v := range vals {
		ts[i] = boxGV(v)
	}
	return gv1(tupleOf(ts...))
}

// Freeze replaces pointers to local objects by their current content.
func (e *Eval) Freeze(m *Mem, t *Term, depth int) *Term {
	if depth > 12 {
		return t
	}
	if w, ok := m.m[mkT("bigval", "", t)]; ok {
		if r := boxGV(w); r != t {
			return e.Freeze(m, r, depth+1)
		}
	}
	switch t.Op {
	case "gv":
		var out GVal
		for _, a := range t.GV {
			out = append(out, GE{a.G, e.Freeze(m, a.T, depth+1)})
		}
		return boxGV(normGV(out))
	case "alloc":
		if t.Typ != nil {
			if p, ok := t.Typ.Underlying().(*types.Pointer); ok {
				v := boxGV(e.load(m, t, p.Elem()))
				return mkTyped(t.Typ, "&struct", "", e.Freeze(m, v, depth+1))
			}
			if _, ok := t.Typ.Underlying().(*types.Map); ok {
				return e.Freeze(m, boxGV(e.mapContent(m, t)), depth+1)
			}
		}
	case "sliceof":
		if at := elemType(t.Args[0].Typ); at != nil {
			return e.Freeze(m, boxGV(e.load(m, t.Args[0], at)), depth+1)
		}
	case "subof":
		b := t.Args[0]
		if b.Op != "makeslice" {
			at := elemType(b.Typ)
			b = boxGV(e.load(m, b, at))
		} else {
			b = e.Freeze(m, b, depth+1)
		}
		return mkSlice(t.Typ, b, t.Args[1], t.Args[2])
	case "makeslice":
		// elements written one by one, over what fills the slice
		over := func(r *Term) *Term {
			var ks []*Term
			fixed := true
			for k := range m.m {
				if k.Op == "&index" && k.Args[0] == t && k.Args[1].Op != "idx" {
					ks = append(ks, k)
					fixed = fixed && k.Args[1].Op == "int"
				}
			}
			if len(ks) == 0 {
				return r
			}
			if !fixed && len(ks) > 1 { // the order matters
				return mkTyped(t.Typ, "makeslice", t.Sym+"/mixed", t.Args...)
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i].Args[1].Big.Cmp(ks[j].Args[1].Big) < 0 })
			if r.Op == "makeslice" && fixed && len(r.Args) > 0 && r.Args[0].Op == "int" && r.Args[0].Big.Cmp(bigInt(int64(len(ks)))) == 0 { // all of them
				var els []*Term
				for _, k := range ks {
					els = append(els, e.Freeze(m, boxGV(m.m[k]), depth+1))
				}
				return mkTyped(t.Typ, "list", "", els...)
			}
			for _, k := range ks {
				r = mkTyped(t.Typ, "upd", "", r, k.Args[1], e.Freeze(m, boxGV(m.m[k]), depth+1))
			}
			return r
		}
		// element-wise filled slices
		var r *Term
		for k, v := range m.m {
			if k.Op == "&index" && k.Args[0] == t {
				if i := k.Args[1]; i.Op == "idx" {
					r = mkGuarded("collect", i.Sym, True, t.Typ, mkTyped(t.Typ, "list", ""), i.Args[0], e.Freeze(m, boxGV(v), depth+1))
				}
			}
		}
		if r != nil {
			return over(r)
		}
		if v, ok := m.m[t]; ok {
			return over(e.Freeze(m, boxGV(v), depth+1))
		}
		if isByteSeq(t.Typ) && t.Args[0].Op == "int" && t.Args[0].Big.IsInt64() {
			return over(retype(t.Typ, zeros(t.Args[0].Big.Int64())))
		}
		return over(mkTyped(t.Typ, "makeslice", "", t.Args...))
	case "struct", "list", "iface", "tuple", "&struct", "append", "upd", "cat", "mapset", "collect", "mapfill", "mapsum", "last", "index", "lookup":
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = e.Freeze(m, a, depth+1)
		}
		if t.B != 0 || t.Op == "collect" || t.Op == "mapfill" || t.Op == "mapsum" || t.Op == "last" || strings.HasPrefix(t.Op, "first") {
			return mkGuarded(t.Op, t.Sym, t.B, t.Typ, args...)
		}
		n := mkT(t.Op, t.Sym, args...)
		if n.Typ == nil {
			n.Typ = t.Typ
		}
		return n
	}
	return t
}

func (f *frame) opaque(name string, sig *types.Signature, args []GVal, st State, x *ssa.Call, how any) (GVal, State) {
	e := f.e
	n := 1
	if e.Ident[name] && len(args) == 1 {
		return args[0], st
	}
	args = narrow(args, st.G)
	for _, a := range args {
		n *= len(normGV(a))
	}
	all := args
	if h := e.Hide[name]; h != nil {
		args, n = nil, 1
		for i, a := range all {
			if !h[i] {
				args = append(args, a)
				n *= len(normGV(a))
			}
		}
	}
	mk := func(ts []*Term) GVal {
		fz := make([]*Term, len(ts))
		for i, t := range ts {
			if t.Op == "iface" && !(len(t.Args) == 1 && t.Args[0].Op == "int") { // the width of a constant is part of the argument
				t = t.Args[0]
			}
			if t.Op == "&field" && t.Typ != nil { // embedded or plain field handed over by address: its content
				if p, ok := t.Typ.Underlying().(*types.Pointer); ok {
					t = boxGV(e.load(st.Mem, t, p.Elem()))
				}
			}
			fz[i] = e.Freeze(st.Mem, t, 0)
		}
		m := 1
		for _, t := range fz {
			m *= len(contents(t))
		}
		if m <= 1 || m > 8 {
			return gv1(mkTyped(nil, "call", name, fz...))
		}
		var out GVal // the content handed over depends on the path: one call each
		var rec func(i int, g B, ts []*Term)
		rec = func(i int, g B, ts []*Term) {
			if g == False {
				return
			}
			if i == len(fz) {
				out = append(out, GE{g, mkTyped(nil, "call", name, append([]*Term{}, ts...)...)})
				return
			}
			for _, a := range contents(fz[i]) {
				rec(i+1, And(g, a.G), append(ts, a.T))
			}
		}
		rec(0, True, nil)
		return normGV(out)
	}
	var alts GVal
	if n > 8 || n == 0 {
		ts := make([]*Term, len(args))
		for i, a := range args {
			ts[i] = opaqueBox(normGV(a))
		}
		alts = mk(ts)
	} else {
		var rec func(i int, g B, ts []*Term)
		rec = func(i int, g B, ts []*Term) {
			if g == False {
				return
			}
			if i == len(args) {
				for _, a := range mk(append([]*Term{}, ts...)) {
					if h := And(g, a.G); h != False {
						alts = append(alts, GE{h, a.T})
					}
				}
				return
			}
			for _, a := range normGV(args[i]) {
				rec(i+1, And(g, a.G), append(ts, a.T))
			}
		}
		rec(0, True, nil)
		alts = normGV(alts)
	}
	if e.RecordEvents {
		e.event(Event{Kind: "call", G: st.G, T: boxGV(alts), Args: args, Pos: x.Pos(), Fn: f.fn, Inst: x, Mem: st.Mem})
	}
	res := sig.Results()
	switch res.Len() {
	case 0:
	case 1:
		for _, a := range alts {
			if a.T.Typ == nil {
				a.T.Typ = res.At(0).Type()
			}
		}
	}
	// havoc local objects handed to code we do not look into
	impure := true
	if fn, ok := how.(*ssa.Function); ok && e.Prog.pure(fn) {
		impure = false
	}
	if s, ok := how.(string); ok && s == "invoke" && name != "Decode" && name != "JSONDecode" {
		impure = false
	}
	if impure {
		for i, a := range all {
			for _, al := range normGV(a) {
				r := al.T
				if r.Op == "sliceof" || r.Op == "subof" {
					r = r.Args[0]
				}
				root := rootOf(r)
				if root.Op == "alloc" {
					if _, isMap := root.Typ.Underlying().(*types.Map); isMap {
						continue
					}
					et := elemType(root.Typ)
					ct := map1(alts, func(t *Term) *Term { return mkTyped(et, "out", name+" "+typeName(et), t, mkI(int64(i))) })
					st.Mem = st.Mem.setAll(func(k *Term) bool { return k == r || isAncestor(r, k) }, r, ct)
				}
				if r.Op == "makeslice" && how != any("dyn") { // function values do not write the slices they are handed
					st.Mem = st.Mem.set(r, gv1(mkTyped(r.Typ, "out", name, alts[0].T, mkI(int64(i)))))
				}
			}
		}
	}
	if res.Len() > 1 {
		out := map1(alts, func(t *Term) *Term {
			ts := make([]*Term, res.Len())
			for i := range ts {
				ts[i] = mkTyped(res.At(i).Type(), "res", itoa(i), t)
			}
			return tupleOf(ts...)
		})
		return out, st
	}
	return alts, st
}

// isEmptyArray: make([]T, 0)
func isEmptyArray(t *Term) bool {
	if t.Op != "zero" || t.Typ == nil {
		return false
	}
	at, ok := t.Typ.Underlying().(*types.Array)
	return ok && at.Len() == 0
}

// contents are the values of an argument, through the address of a local object holding it.
func contents(t *Term) GVal {
	if t.Op == "&struct" && len(t.Args) == 1 && t.Args[0].Op == "gv" {
		var out GVal
		for _, a := range t.Args[0].GV {
			out = append(out, GE{a.G, mkTyped(t.Typ, t.Op, t.Sym, a.T)})
		}
		return out
	}
	return unbox(t)
}

func itoa(i int) string { return MkInt(bigInt(int64(i))).Sym }

func (f *frame) builtin(x *ssa.Call, name string, args []GVal, st State) State {
	e := f.e
	switch name {
	case "len", "cap":
		if _, isMap := x.Call.Args[0].Type().Underlying().(*types.Map); isMap {
			f.env[x] = map1(args[0], func(t *Term) *Term { return mkLen(boxGV(e.mapContent(st.Mem, t))) })
			return st
		}
		f.env[x] = map1(args[0], func(t *Term) *Term {
			if name == "cap" {
				return mkTyped(x.Type(), "cap", "", t)
			}
			return mkLen(t)
		})
	case "append":
		if len(args) < 2 {
			f.env[x] = args[0]
			return st
		}
		f.env[x] = map2(args[0], args[1], func(a, b *Term) *Term {
			if b.Op == "nil" || b.Op == "list" && len(b.Args) == 0 {
				return a
			}
			a, b = e.viewed(st.Mem, a), e.viewed(st.Mem, b)
			if isByteSeq(x.Type()) {
				return mkCat(x.Type(), a, b)
			}
			if a.Op == "nil" || a.Op == "list" && len(a.Args) == 0 || isEmptyArray(a) {
				if b.Op == "list" {
					return b
				}
			}
			if a.Op == "list" && b.Op == "list" && len(a.Args)+len(b.Args) < 300 {
				return mkTyped(x.Type(), "list", "", append(append([]*Term{}, a.Args...), b.Args...)...)
			}
			if a.Op == "append" && a.Args[1].Op == "list" && b.Op == "list" {
				return mkTyped(x.Type(), "append", "", a.Args[0], mkTyped(x.Type(), "list", "", append(append([]*Term{}, a.Args[1].Args...), b.Args...)...))
			}
			return mkTyped(x.Type(), "append", "", a, b)
		})
	case "copy":
		d := normGV(args[0])
		src := map1(args[1], func(t *Term) *Term { return e.viewed(st.Mem, t) })
		st = e.writeBytes(st, d, boxGV(src))
		if len(d) == 1 && d[0].T.Op != "sliceof" && d[0].T.Op != "subof" && d[0].T.Op != "makeslice" && e.RecordEvents {
			e.event(Event{Kind: "copy", G: st.G, T: d[0].T, Args: args, Pos: x.Pos(), Fn: f.fn, Inst: x})
		}
		f.env[x] = gv1(mkTyped(x.Type(), "ncopied", "", boxGV(args[1])))
	case "delete":
		for _, me := range normGV(args[0]) {
			c := e.mapContent(st.Mem, me.T)
			k := boxGV(args[1])
			nc := map1(c, func(t *Term) *Term { return mkTyped(t.Typ, "mapdel", "", t, k) })
			st.Mem = st.Mem.set(mkT("content", "", me.T), nc)
		}
		if e.RecordEvents {
			e.event(Event{Kind: "mapdel", G: st.G, T: boxGV(args[0]), Args: args, Pos: x.Pos(), Fn: f.fn, Inst: x, Mem: st.Mem})
		}
		f.env[x] = gv1(NilT)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			r = map2(r, a, func(p, q *Term) *Term {
				l := LtB(p, q)
				if name == "max" {
					l = LtB(q, p)
				}
				return boxGV(normGV(GVal{{l, p}, {Not(l), q}}))
			})
		}
		f.env[x] = r
	case "ssa:wrapnilchk":
		f.env[x] = args[0]
	default:
		f.env[x] = gv1(mkTyped(x.Type(), "builtin", name))
	}
	return st
}

var _ = token.NoPos

// writeBytes copies src into the view d.
func (e *Eval) writeBytes(st State, d GVal, src *Term) State {
	for _, de := range d {
		t := de.T
		var addr *Term
		var lo, hi *Term
		switch t.Op {
		case "sliceof":
			addr, lo, hi = t.Args[0], mkI(0), mkLen(t)
		case "subof":
			addr, lo, hi = t.Args[0], t.Args[1], t.Args[2]
		case "makeslice":
			addr, lo, hi = t, mkI(0), mkLen(t)
		default:
			continue
		}
		typ := elemType(addr.Typ)
		if addr.Op == "makeslice" {
			typ = addr.Typ
		}
		var old *Term
		if addr.Op == "makeslice" {
			old = e.Freeze(st.Mem, addr, 0)
		} else {
			old = boxGV(e.load(st.Mem, addr, typ))
		}
		nv := unbox(mkPart(typ, old, lo, hi, src))
		if de.G != True {
			nv = mergeGV([]B{de.G, Not(de.G)}, []GVal{nv, unbox(old)}, True)
		}
		st.Mem = st.Mem.setAll(func(k *Term) bool { return k == addr || isAncestor(addr, k) }, addr, nv)
	}
	return st
}

// narrow gives arguments the only value they can have on the path.
func narrow(args []GVal, g B) []GVal {
	if g == True {
		return args
	}
	out := append([]GVal{}, args...)
	for i, a := range args {
		if a = unbox(boxGV(a)); len(a) > 1 {
			var live GVal
			for _, al := range a {
				if And(al.G, g) != False {
					live = append(live, al)
				}
			}
			if len(live) == 1 {
				out[i] = gv1(live[0].T)
			}
		}
	}
	return out
}
