package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

// P40: a lockset analysis. Every function is walked from its callers' point of view (calls and closures are followed
// with the locks held at the call), and every access to a location of a type that has a lock, or to a package variable
// that is written after initialisation, is recorded with the locks held there.

// place names a memory location by the way it was reached: a root and the fields below it.
type place struct {
	base  *place
	step  string     // field name, "[]", or the name of the root
	owner types.Type // struct type the field belongs to
	fresh bool       // inside an object made in the current call that nothing else refers to yet
	glob  *ssa.Global
	clo   *cloRef
}

type cloRef struct {
	fn    *ssa.Function
	binds []*place
}

func (p *place) String() string {
	if p == nil {
		return "?"
	}
	if p.base == nil {
		return p.step
	}
	return p.base.String() + "." + p.step
}

func (p *place) field(owner types.Type, f string) *place {
	return &place{base: p, step: f, owner: owner, fresh: p.fresh}
}

func (p *place) root() *place {
	for p.base != nil {
		p = p.base
	}
	return p
}

const (
	readLock  = 1
	writeLock = 2
)

// held: the locks surely held and those possibly held.
type held struct {
	must, may map[string]int
	names     map[string]string // lock -> name of the lock by type
}

func newHeld() *held { return &held{map[string]int{}, map[string]int{}, map[string]string{}} }

func (h *held) clone() *held {
	n := newHeld()
	for k, v := range h.must {
		n.must[k] = v
	}
	for k, v := range h.may {
		n.may[k] = v
	}
	for k, v := range h.names {
		n.names[k] = v
	}
	return n
}

func (h *held) join(o *held) *held {
	n := newHeld()
	for k, v := range h.must {
		if w, ok := o.must[k]; ok {
			n.must[k] = min(v, w)
		}
	}
	for _, x := range []*held{h, o} {
		for k, v := range x.may {
			n.may[k] = max(n.may[k], v)
		}
		for k, v := range x.names {
			n.names[k] = v
		}
	}
	return n
}

func (h *held) same(o *held) bool {
	if len(h.must) != len(o.must) || len(h.may) != len(o.may) {
		return false
	}
	for k, v := range h.must {
		if o.must[k] != v {
			return false
		}
	}
	for k, v := range h.may {
		if o.may[k] != v {
			return false
		}
	}
	return true
}

type lockAccess struct {
	write bool
	locks map[string]int // locks of the same object ("self.f") and package locks
	pos   token.Pos
	fn    *ssa.Function
}

type lockWalk struct {
	c        *Ctx
	locked   map[string]bool // types having a lock
	globals  map[*ssa.Global]bool
	relevant map[*ssa.Function]bool
	visited  map[*ssa.Function]bool
	acc      map[string][]lockAccess
	problems map[string][]string // per function
	users    map[string]bool     // functions using locks
	order    map[[2]string]token.Pos
	seen     map[string]bool
	stack    []*ssa.Function
	rec      bool
	scan     bool // only look for package variables written after initialisation
	count    int
}

type lockFrame struct {
	w     *lockWalk
	fn    *ssa.Function
	bind  map[ssa.Value]*place
	rets  map[ssa.Value][]*place
	depth int
}

func typeKey(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Name() + "." + n.Obj().Name()
}

func isLockType(t types.Type) bool {
	switch typeKey(t) {
	case "sync.Mutex", "sync.RWMutex", "sync.Once":
		return true
	}
	return false
}

func (f *lockFrame) at(v ssa.Value) *place {
	if p, ok := f.bind[v]; ok {
		return p
	}
	p := f.compute(v)
	if p != nil {
		f.bind[v] = p
	}
	return p
}

func (f *lockFrame) unique(v ssa.Value) *place {
	return &place{step: fmt.Sprintf("%s/%s#%d", f.fn.String(), v.Name(), f.depth)}
}

func (f *lockFrame) compute(v ssa.Value) *place {
	switch x := v.(type) {
	case *ssa.Global:
		return &place{step: "package " + x.String(), glob: x}
	case *ssa.Parameter, *ssa.FreeVar:
		return &place{step: v.Name()}
	case *ssa.Alloc:
		p := f.unique(v)
		p.fresh = true
		return p
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		return f.at(x.X).field(st, st.Underlying().(*types.Struct).Field(x.Field).Name())
	case *ssa.Field:
		return f.at(x.X).field(x.X.Type(), x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name())
	case *ssa.IndexAddr:
		return f.at(x.X).field(nil, "[]")
	case *ssa.Index:
		return f.at(x.X).field(nil, "[]")
	case *ssa.Lookup:
		return f.at(x.X).field(nil, "[]")
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return f.unique(v)
		}
		var cell *ssa.Alloc
		switch a := x.X.(type) {
		case *ssa.Alloc:
			cell = a
		}
		if cell != nil {
			var val ssa.Value
			n := 0
			for _, r := range *cell.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(cell) {
					val = s.Val
					n++
				}
			}
			if n == 1 && val != ssa.Value(x) {
				return f.at(val)
			}
		}
		a := f.at(x.X)
		if a.clo != nil && a.clo.fn == nil && len(a.clo.binds) == 1 { // a captured variable
			return a.clo.binds[0]
		}
		p := *a
		p.fresh = a.fresh && !isPointerLike(x.Type())
		return &p
	case *ssa.MakeClosure:
		c := &cloRef{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			p := f.at(b)
			if al, ok := b.(*ssa.Alloc); ok { // the variable's value, if it is set once
				var val ssa.Value
				n := 0
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
						val = s.Val
						n++
					}
				}
				if n == 1 {
					q := *p
					q.clo = &cloRef{binds: []*place{f.at(val)}}
					p = &q
				}
			}
			c.binds = append(c.binds, p)
		}
		p := f.unique(v)
		p.clo = c
		return p
	case *ssa.Function:
		return &place{step: x.String(), clo: &cloRef{fn: x}}
	case *ssa.ChangeType:
		return f.at(x.X)
	case *ssa.ChangeInterface:
		return f.at(x.X)
	case *ssa.MakeInterface:
		return f.at(x.X)
	case *ssa.Convert:
		return f.at(x.X)
	case *ssa.Slice:
		return f.at(x.X)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return f.at(x.X)
		}
	case *ssa.Extract:
		if t, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return f.at(t.X)
		}
		if t, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			return f.at(t.X).field(nil, "[]")
		}
		if n, ok := x.Tuple.(*ssa.Next); ok && x.Index == 2 {
			if r, ok := n.Iter.(*ssa.Range); ok {
				return f.at(r.X).field(nil, "[]")
			}
		}
		if rs := f.rets[x.Tuple]; x.Index < len(rs) && rs[x.Index] != nil {
			return rs[x.Index]
		}
	case *ssa.Call:
		if rs := f.rets[v]; len(rs) == 1 && rs[0] != nil {
			return rs[0]
		}
		p := f.unique(v)
		f.bind[v] = nil
		delete(f.bind, v)
		return p
	case *ssa.Phi:
		f.bind[v] = f.unique(v)
		var one *place
		same := true
		for _, e := range x.Edges {
			if e == v {
				continue
			}
			p := f.at(e)
			if one == nil {
				one = p
			} else if one.String() != p.String() {
				same = false
			}
		}
		if same && one != nil {
			return one
		}
		return f.bind[v]
	}
	return f.unique(v)
}

func isPointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// lockName is the lock's name within its type or package.
func lockName(p *place) string {
	if p.owner != nil {
		if k := typeKey(p.owner); k != "" {
			return k + "." + p.step
		}
	}
	return p.String()
}

func (w *lockWalk) problem(fn *ssa.Function, pos token.Pos, format string, args ...any) {
	if !w.rec {
		return
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	k := fn.String()
	m := fmt.Sprintf(format, args...) + " at " + w.c.Pos(pos)
	if !w.seen[k+m] {
		w.seen[k+m] = true
		w.problems[k] = append(w.problems[k], m)
	}
}

func (f *lockFrame) access(p *place, write bool, h *held, pos token.Pos) {
	w := f.w
	if p == nil || p.fresh || !w.rec {
		return
	}
	loc, self := "", ""
	for q := p; q.base != nil; q = q.base {
		if q.owner != nil && w.locked[typeKey(q.owner)] {
			if s, ok := q.owner.Underlying().(*types.Struct); ok {
				for i := range s.NumFields() {
					if s.Field(i).Name() == q.step && isLockType(s.Field(i).Type()) {
						return
					}
				}
			}
			loc, self = typeKey(q.owner)+"."+q.step, q.base.String()
			break
		}
	}
	if loc == "" {
		g := p.root().glob
		if g == nil || isLockType(g.Type().Underlying().(*types.Pointer).Elem()) || !write && !w.scan && !w.globals[g] {
			return
		}
		if strings.HasPrefix(g.Name(), "init$") {
			return
		}
		if w.scan {
			if write {
				w.globals[g] = true
			}
			return
		}
		loc = "package variable " + strings.TrimPrefix(g.String(), engine.RepoMod)
	}
	if w.scan {
		return
	}
	w.count++
	a := lockAccess{write: write, locks: map[string]int{}, pos: pos, fn: f.fn}
	for k, m := range h.must {
		if strings.HasPrefix(k, "package ") {
			a.locks[k] = m
		} else if self != "" && strings.HasPrefix(k, self+".") && !strings.Contains(k[len(self)+1:], ".") {
			a.locks["self"+k[len(self):]] = m
		}
	}
	w.acc[loc] = append(w.acc[loc], a)
}

// call follows a call; it returns the places of the results.
func (f *lockFrame) call(cc *ssa.CallCommon, h *held, pos token.Pos, async bool) []*place {
	w := f.w
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete", "clear", "copy":
			f.access(f.at(cc.Args[0]), true, h, pos)
		}
		return nil
	}
	callee := cc.StaticCallee()
	if callee != nil && callee.Pkg != nil && callee.Pkg.Pkg.Path() == "sync" {
		f.sync(callee, cc, h, pos)
		return nil
	}
	var clo *cloRef
	if callee != nil {
		clo = &cloRef{fn: callee}
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			clo = f.at(mc).clo
		}
	} else if !cc.IsInvoke() {
		if p := f.at(cc.Value); p != nil && p.clo != nil && p.clo.fn != nil {
			clo = p.clo
		}
	}
	inRepo := false
	if clo != nil {
		inRepo = w.inRepo(clo.fn)
	}
	if clo != nil && !inRepo {
		if pk := clo.fn.Pkg; pk != nil {
			n := clo.fn.Name()
			if o := clo.fn.Origin(); o != nil {
				n = o.Name()
			}
			if path := pk.Pkg.Path(); (path == "sort" || path == "slices" && strings.HasPrefix(n, "Sort")) && len(cc.Args) > 0 {
				f.access(f.at(cc.Args[0]), true, h, pos)
			}
		}
		if o := clo.fn.Origin(); o != nil && o.Pkg != nil && o.Pkg.Pkg.Path() == "slices" && strings.HasPrefix(o.Name(), "Sort") {
			f.access(f.at(cc.Args[0]), true, h, pos)
		}
	}
	construct := callee != nil && callee.Origin() != nil && callee.Origin().Pkg != nil && strings.HasSuffix(callee.Origin().Pkg.Pkg.Path(), "runtime/options")
	if !inRepo && !construct { // an object handed to other code is read by it
		for _, a := range cc.Args {
			v := a
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			if pt, ok := v.Type().(*types.Pointer); ok && w.locked[typeKey(pt)] {
				st := pt.Elem().Underlying().(*types.Struct)
				for i := range st.NumFields() {
					f.access(f.at(v).field(pt.Elem(), st.Field(i).Name()), false, h, pos)
				}
			}
		}
	}
	if !inRepo { // a function value handed out is called with the locks held
		for _, a := range cc.Args {
			if p := f.at(a); p != nil && p.clo != nil && p.clo.fn != nil && w.inRepo(p.clo.fn) && !w.scan {
				if async {
					w.walk(p.clo, nil, newHeld(), f.depth+1)
				} else {
					var as []*place
					if construct { // options are applied to an object under construction
						as = []*place{{step: "new", fresh: true}}
					}
					r := w.walk(p.clo, as, h.clone(), f.depth+1)
					*h = *r.out
				}
			}
		}
		if construct && len(cc.Args) > 0 {
			return []*place{f.at(cc.Args[0])}
		}
		return nil
	}
	var args []*place
	global := false
	for _, a := range cc.Args {
		p := f.at(a)
		args = append(args, p)
		if p != nil && (p.clo != nil || isPointerLike(a.Type()) && (p.root().glob != nil || !w.scan && w.guarded(p))) {
			global = true
		}
	}
	if !w.relevant[clo.fn] && !global {
		return nil
	}
	if w.scan && !global {
		return nil
	}
	if async {
		w.walk(clo, args, newHeld(), f.depth+1)
		return nil
	}
	r := w.walk(clo, args, h.clone(), f.depth+1)
	*h = *r.out
	return r.rets
}

// guarded: the place lies inside an object that has a lock.
func (w *lockWalk) guarded(p *place) bool {
	for q := p; q.base != nil; q = q.base {
		if q.owner != nil && w.locked[typeKey(q.owner)] {
			return true
		}
	}
	return false
}

func (w *lockWalk) inRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	return o.Pkg != nil && strings.HasPrefix(o.Pkg.Pkg.Path(), engine.RepoMod) && len(fn.Blocks) > 0
}

func (f *lockFrame) sync(callee *ssa.Function, cc *ssa.CallCommon, h *held, pos token.Pos) {
	w := f.w
	if w.scan || callee.Signature.Recv() == nil {
		return
	}
	rt := typeKey(callee.Signature.Recv().Type())
	p := f.at(cc.Args[0])
	k := p.String()
	top := f.fn
	for top.Parent() != nil {
		top = top.Parent()
	}
	switch rt {
	case "sync.Once":
		if callee.Name() != "Do" {
			return
		}
		k = "once:" + k
		if strings.HasPrefix(k, "once:package ") {
			k = "package once:" + k[len("once:package "):]
		} else if p.base != nil {
			k = p.base.String() + ".once:" + p.step
		}
		if cl := f.at(cc.Args[1]); cl != nil && cl.clo != nil && cl.clo.fn != nil {
			in := h.clone()
			in.must[k] = writeLock
			w.walk(cl.clo, nil, in, f.depth+1)
		}
		h.must[k] = max(h.must[k], readLock)
		return
	case "sync.Mutex", "sync.RWMutex":
	default:
		return
	}
	if w.rec {
		w.users[top.String()] = true
	}
	mode := writeLock
	switch callee.Name() {
	case "RLock":
		mode = readLock
		fallthrough
	case "Lock":
		if h.may[k] != 0 {
			w.problem(f.fn, pos, "%s is locked although it may already be held", lockName(p))
		}
		for o := range h.may {
			if o != k && w.rec {
				w.order[[2]string{h.names[o], lockName(p)}] = pos
			}
		}
		h.must[k], h.may[k], h.names[k] = mode, mode, lockName(p)
	case "RUnlock":
		mode = readLock
		fallthrough
	case "Unlock":
		if h.must[k] != mode {
			w.problem(f.fn, pos, "%s is unlocked although it may not be held that way", lockName(p))
		}
		delete(h.must, k)
		delete(h.may, k)
	case "TryLock", "TryRLock":
		w.problem(f.fn, pos, "%s on %s is not analysed", callee.Name(), lockName(p))
	}
}

type walkResult struct {
	out  *held
	rets []*place
}

func (w *lockWalk) walk(clo *cloRef, args []*place, in *held, depth int) *walkResult {
	fn := clo.fn
	for _, s := range w.stack {
		if s == fn {
			return &walkResult{out: in}
		}
	}
	if depth > 12 || len(fn.Blocks) == 0 {
		return &walkResult{out: in}
	}
	w.visited[fn] = w.visited[fn] || w.rec
	w.stack = append(w.stack, fn)
	defer func() { w.stack = w.stack[:len(w.stack)-1] }()

	f := &lockFrame{w: w, fn: fn, bind: map[ssa.Value]*place{}, rets: map[ssa.Value][]*place{}, depth: depth}
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			f.bind[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(clo.binds) && clo.binds[i] != nil {
			f.bind[v] = clo.binds[i]
		}
	}
	if isOption(fn) && len(fn.Params) == 1 { // options are applied to an object under construction
		f.bind[fn.Params[0]] = &place{step: "new", fresh: true}
	}

	states := map[*ssa.BasicBlock]*held{fn.Blocks[0]: in}
	var result *held
	var rets [][]*place
	rec := w.rec
	run := func(b *ssa.BasicBlock) *held {
		h := states[b].clone()
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Call:
				f.rets[x] = f.call(&x.Call, h, x.Pos(), false)
				delete(f.bind, x)
			case *ssa.Go:
				f.call(&x.Call, h, x.Pos(), true)
			case *ssa.RunDefers:
				for i := len(fn.Blocks) - 1; i >= 0; i-- {
					db := fn.Blocks[i]
					for j := len(db.Instrs) - 1; j >= 0; j-- {
						d, ok := db.Instrs[j].(*ssa.Defer)
						if !ok {
							continue
						}
						if db.Dominates(b) {
							f.call(&d.Call, h, d.Pos(), false)
						} else if states[db] != nil && reaches(db, b) { // possibly deferred
							alt, was := h.clone(), w.rec
							w.rec = false
							f.call(&d.Call, alt, d.Pos(), false)
							w.rec = was
							if !alt.same(h) {
								w.problem(fn, d.Pos(), "a lock is released by a conditional defer")
							}
						}
					}
				}
			case *ssa.Store:
				f.access(f.at(x.Addr), true, h, x.Pos())
			case *ssa.MapUpdate:
				f.access(f.at(x.Map), true, h, x.Pos())
			case *ssa.UnOp:
				if x.Op == token.MUL {
					f.access(f.at(x.X), false, h, x.Pos())
				}
			case *ssa.Lookup:
				f.access(f.at(x.X), false, h, x.Pos())
			case *ssa.Range:
				f.access(f.at(x.X), false, h, x.Pos())
			case *ssa.Return:
				if result == nil {
					result = h.clone()
				} else {
					result = result.join(h)
				}
				var rs []*place
				for _, r := range x.Results {
					rs = append(rs, f.at(r))
				}
				rets = append(rets, rs)
			}
		}
		return h
	}
	w.rec = false
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for n := 0; len(work) > 0 && n < 4000; n++ {
		b := work[0]
		work = work[1:]
		out := run(b)
		for _, s := range b.Succs {
			if st := states[s]; st == nil {
				states[s] = out.clone()
				work = append(work, s)
			} else if j := st.join(out); !j.same(st) {
				states[s] = j
				work = append(work, s)
			}
		}
	}
	w.rec = rec
	result, rets = nil, nil
	for _, b := range fn.Blocks {
		if states[b] != nil {
			run(b)
		}
	}
	if result == nil {
		result = in
	}
	r := &walkResult{out: result}
	if len(rets) > 0 {
		r.rets = rets[0]
		for _, rs := range rets[1:] {
			for i := range rs {
				if r.rets[i] == nil || rs[i] == nil || r.rets[i].String() != rs[i].String() {
					r.rets[i] = nil
				}
			}
		}
	}
	return r
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if rec(s) {
				return true
			}
		}
		return false
	}
	return rec(a)
}

// isOption: the function configures an object before it is used.
func isOption(fn *ssa.Function) bool {
	p := fn.Parent()
	if p == nil {
		return false
	}
	rs := p.Signature.Results()
	for i := range rs.Len() {
		if n, ok := rs.At(i).Type().(*types.Named); ok && strings.HasSuffix(n.Obj().Name(), "Option") {
			return true
		}
	}
	return false
}

func isInit(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Synthetic == "package initializer" || strings.HasPrefix(fn.Name(), "init#") || fn.Name() == "init" && fn.Signature.Recv() == nil
}

func newLockWalk(c *Ctx) *lockWalk {
	w := &lockWalk{c: c, locked: map[string]bool{}, globals: map[*ssa.Global]bool{}, relevant: map[*ssa.Function]bool{}, visited: map[*ssa.Function]bool{},
		acc: map[string][]lockAccess{}, problems: map[string][]string{}, users: map[string]bool{}, order: map[[2]string]token.Pos{}, seen: map[string]bool{}}
	for _, p := range c.P.Pkgs {
		for _, n := range p.Types.Scope().Names() {
			if tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName); ok {
				if st, ok := tn.Type().Underlying().(*types.Struct); ok {
					for i := range st.NumFields() {
						if isLockType(st.Field(i).Type()) {
							w.locked[typeKey(tn.Type())] = true
						}
					}
				}
			}
		}
	}
	return w
}

func (w *lockWalk) fns() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range w.c.P.RepoFns {
		if !w.inRepo(fn) || isInit(fn) || fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "instance") {
			continue
		}
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		if top.Origin() != nil {
			top = top.Origin()
		}
		if strings.HasSuffix(top.Pkg.Pkg.Path(), "/tpkg") {
			continue
		}
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (w *lockWalk) run() {
	fns := w.fns()
	// which package variables are written after initialisation
	w.rec, w.scan = true, true
	for _, fn := range fns {
		w.walk(&cloRef{fn: fn}, nil, newHeld(), 0)
	}
	w.scan = false
	w.visited = map[*ssa.Function]bool{}
	// what matters: functions touching such variables, locks, or types with locks
	callers := map[*ssa.Function][]*ssa.Function{}
	escapes := map[*ssa.Function]bool{}
	called := map[*ssa.Function]bool{}
	var mark func(fn *ssa.Function)
	mark = func(fn *ssa.Function) {
		if w.relevant[fn] {
			return
		}
		w.relevant[fn] = true
		for _, c := range callers[fn] {
			mark(c)
		}
		if fn.Parent() != nil {
			mark(fn.Parent())
		}
	}
	var seeds []*ssa.Function
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if t := ci.Common().StaticCallee(); t != nil {
						callers[t] = append(callers[t], fn)
						called[t] = true
						if t.Pkg != nil && t.Pkg.Pkg.Path() == "sync" {
							seeds = append(seeds, fn)
						}
					}
				}
				if fa, ok := ins.(*ssa.FieldAddr); ok && w.locked[typeKey(fa.X.Type().Underlying().(*types.Pointer).Elem())] {
					seeds = append(seeds, fn)
				}
				for _, op := range ins.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Global:
						if w.globals[v] {
							seeds = append(seeds, fn)
						}
					case *ssa.Function:
						if ci, ok := ins.(ssa.CallInstruction); !ok || ci.Common().Value != ssa.Value(v) {
							escapes[v] = true
						}
					}
				}
			}
		}
	}
	for _, fn := range seeds {
		mark(fn)
	}
	root := func(fn *ssa.Function, in *held) {
		r := w.walk(&cloRef{fn: fn}, nil, in, 0)
		for k := range r.out.may {
			w.problem(fn, fn.Pos(), "%s may still be held on return", r.out.names[k])
		}
	}
	for _, fn := range fns {
		if !w.relevant[fn] || fn.Parent() != nil {
			continue
		}
		if token.IsExported(fn.Name()) || !called[fn] || escapes[fn] || fn.Name() == "main" {
			root(fn, newHeld())
		}
	}
	for _, fn := range fns { // closures and helpers that no walk met
		if w.relevant[fn] && !w.visited[fn] {
			root(fn, newHeld())
		}
	}
}

func init() {
	register(&Prop{ID: "P40", Min: 20, Note: "locks", Run: func(c *Ctx) {
		w := newLockWalk(c)
		w.run()
		var locs []string
		for l := range w.acc {
			locs = append(locs, l)
		}
		sort.Strings(locs)
		for _, l := range locs {
			as := w.acc[l]
			written := false
			for _, a := range as {
				written = written || a.write
			}
			if !written {
				continue
			}
			c.Ob(l+"|guarded by one lock", "", func() {
				cover := func(lock string, a lockAccess) bool {
					return a.locks[lock] == writeLock || !a.write && a.locks[lock] == readLock
				}
				best, bestBad := "", []string{}
				cand := map[string]bool{}
				for _, a := range as {
					for k := range a.locks {
						cand[k] = true
					}
				}
				var cs []string
				for k := range cand {
					cs = append(cs, k)
				}
				sort.Strings(cs)
				if len(cs) == 0 {
					cs = []string{"(none)"}
				}
				for i, k := range cs {
					bad := map[string]bool{}
					for _, a := range as {
						if !cover(k, a) {
							kind := "read"
							if a.write {
								kind = "written"
							}
							bad[fmt.Sprintf("%s in %s at %s", kind, a.fn.RelString(nil), c.Pos(a.pos))] = true
						}
					}
					var bl []string
					for b := range bad {
						bl = append(bl, b)
					}
					sort.Strings(bl)
					if i == 0 || len(bl) < len(bestBad) {
						best, bestBad = k, bl
					}
				}
				if len(bestBad) > 0 {
					Failf("%s is written after construction, but without %s held it is\n  %s", l, best, strings.Join(bestBad[:min(len(bestBad), 6)], "\n  "))
				}
			})
		}
		var us []string
		for u := range w.users {
			us = append(us, u)
		}
		for u := range w.problems {
			if !w.users[u] {
				us = append(us, u)
			}
		}
		sort.Strings(us)
		for _, u := range us {
			c.Ob(strings.ReplaceAll(u, engine.RepoMod, "")+"|locks taken once and released", "", func() {
				if ps := w.problems[u]; len(ps) > 0 {
					Failf("%s", strings.Join(ps, "\n"))
				}
			})
		}
		w.atomics()
		w.captures()
		c.Ob("lock order|no cycle", "", func() {
			next := map[string][]string{}
			for p := range w.order {
				next[p[0]] = append(next[p[0]], p[1])
			}
			for p, pos := range w.order {
				seen := map[string]bool{}
				var rec func(x string) bool
				rec = func(x string) bool {
					if x == p[0] {
						return true
					}
					if seen[x] {
						return false
					}
					seen[x] = true
					for _, n := range next[x] {
						if rec(n) {
							return true
						}
					}
					return false
				}
				if rec(p[1]) {
					Failf("%s is locked while holding %s at %s, and the other way round elsewhere", p[1], p[0], c.Pos(pos))
				}
			}
		})
	}})
}

// cell identifies a variable: an allocation, a captured variable, a pointer parameter, or a field of a type.
func cellOf(v ssa.Value) any {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.FreeVar, *ssa.Parameter, *ssa.Global:
		return x
	case *ssa.FieldAddr:
		if k := typeKey(x.X.Type()); k != "" {
			return k + "." + x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field).Name()
		}
	}
	return nil
}

// atomics: a variable that is accessed atomically somewhere is accessed atomically everywhere.
func (w *lockWalk) atomics() {
	fns := w.fns()
	atomic := map[any]bool{}
	links := map[any][]any{}
	link := func(a, b any) {
		if a != nil && b != nil {
			links[a] = append(links[a], b)
			links[b] = append(links[b], a)
		}
	}
	isAtomic := func(cc *ssa.CallCommon) bool {
		t := cc.StaticCallee()
		return t != nil && t.Pkg != nil && t.Pkg.Pkg.Path() == "sync/atomic" && t.Signature.Recv() == nil
	}
	var work []any
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					for i, x := range mc.Bindings {
						link(cellOf(x), any(mc.Fn.(*ssa.Function).FreeVars[i]))
					}
				}
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if isAtomic(cc) {
					if c := cellOf(cc.Args[0]); c != nil {
						work = append(work, c)
					}
					continue
				}
				if t := cc.StaticCallee(); t != nil && w.inRepo(t) {
					for i, a := range cc.Args {
						if _, ok := a.Type().Underlying().(*types.Pointer); ok && i < len(t.Params) {
							link(cellOf(a), any(t.Params[i]))
						}
					}
				}
			}
		}
	}
	for len(work) > 0 {
		c := work[0]
		work = work[1:]
		if atomic[c] {
			continue
		}
		atomic[c] = true
		work = append(work, links[c]...)
	}
	uses, bad := map[string]bool{}, map[string][]string{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && isAtomic(ci.Common()) {
					uses[fn.String()] = true
				}
				switch x := ins.(type) {
				case *ssa.Store:
					if atomic[cellOf(x.Addr)] {
						if a, ok := x.Addr.(*ssa.Alloc); ok && a.Block() == b {
							if _, isC := x.Val.(*ssa.Const); isC && !usedBefore(a, x) {
								continue // its first value
							}
						}
						bad[fn.String()] = append(bad[fn.String()], fmt.Sprintf("%s, which is accessed atomically elsewhere, is written at %s", x.Addr.Name(), w.c.Pos(x.Pos())))
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && atomic[cellOf(x.X)] {
						bad[fn.String()] = append(bad[fn.String()], fmt.Sprintf("%s, which is accessed atomically elsewhere, is read at %s", x.X.Name(), w.c.Pos(x.Pos())))
					}
				}
			}
		}
	}
	for fn := range bad {
		uses[fn] = true
	}
	w.report(uses, bad, "atomic variables are accessed atomically")
}

func usedBefore(a *ssa.Alloc, at ssa.Instruction) bool {
	for _, ins := range a.Block().Instrs {
		if ins == at {
			return false
		}
		for _, op := range ins.Operands(nil) {
			if *op == ssa.Value(a) {
				return true
			}
		}
	}
	return true
}

func (w *lockWalk) report(uses map[string]bool, bad map[string][]string, rule string) {
	var us []string
	for u := range uses {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		w.c.Ob(strings.ReplaceAll(u, engine.RepoMod, "")+"|"+rule, "", func() {
			if ps := bad[u]; len(ps) > 0 {
				Failf("%s", strings.Join(ps, "\n"))
			}
		})
	}
}

// captures: a plain variable captured by a new goroutine is not assigned while both sides may use it.
func (w *lockWalk) captures() {
	uses, bad := map[string]bool{}, map[string][]string{}
	for _, fn := range w.fns() {
		for _, b := range fn.Blocks {
			for i, ins := range b.Instrs {
				g, ok := ins.(*ssa.Go)
				if !ok {
					continue
				}
				top := fn
				for top.Parent() != nil {
					top = top.Parent()
				}
				uses[top.String()] = true
				mc, ok := g.Call.Value.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				for k, bind := range mc.Bindings {
					cell, ok := bind.(*ssa.Alloc)
					if !ok {
						continue
					}
					inner := accessesOf(mc.Fn.(*ssa.Function).FreeVars[k])
					outer := accessesOf(cell)
					var innerWrites []ssa.Instruction
					for _, a := range inner {
						if _, ok := a.(*ssa.Store); ok {
							innerWrites = append(innerWrites, a)
						}
					}
					for _, a := range outer {
						_, write := a.(*ssa.Store)
						if !write && len(innerWrites) == 0 || write && len(inner) == 0 {
							continue
						}
						if a.Parent() == fn && before(a, b, i) || a.Parent() == fn && afterWait(a, g) {
							continue
						}
						kind := "read"
						if write {
							kind = "written"
						}
						bad[top.String()] = append(bad[top.String()], fmt.Sprintf("%s is shared with the goroutine started at %s and %s at %s without synchronisation", cell.Comment, w.c.Pos(g.Pos()), kind, w.c.Pos(a.Pos())))
					}
					if len(innerWrites) > 0 && reaches2(b) && (cell.Block() != b && !cell.Block().Dominates(b) || !reaches2(cell.Block())) {
						bad[top.String()] = append(bad[top.String()], fmt.Sprintf("%s is written by several goroutines started at %s", cell.Comment, w.c.Pos(g.Pos())))
					}
				}
			}
		}
	}
	w.report(uses, bad, "variables of started goroutines are not assigned concurrently")
}

// reaches2: the block lies on a cycle.
func reaches2(b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if reaches(s, b) {
			return true
		}
	}
	return false
}

// accessesOf lists the plain reads and writes of a variable, in its function and in closures capturing it that are
// not goroutines of their own.
func accessesOf(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == v {
				out = append(out, x)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				out = append(out, x)
			}
		case *ssa.MakeClosure:
			goes := false
			for _, u := range *x.Referrers() {
				if _, ok := u.(*ssa.Go); ok {
					goes = true
				}
			}
			if goes {
				continue
			}
			for i, b := range x.Bindings {
				if b == v {
					out = append(out, accessesOf(x.Fn.(*ssa.Function).FreeVars[i])...)
				}
			}
		}
	}
	return out
}

// before: a is executed before instruction i of b starts the goroutine, and not again afterwards on the same variable.
func before(a ssa.Instruction, b *ssa.BasicBlock, i int) bool {
	if a.Block() == b {
		for j, x := range b.Instrs {
			if x == a {
				return j < i
			}
		}
	}
	return a.Block().Dominates(b)
}

// afterWait: a wait for other goroutines lies between the start of the goroutine and a.
func afterWait(a ssa.Instruction, g *ssa.Go) bool {
	for _, b := range a.Parent().Blocks {
		if b != a.Block() && !b.Dominates(a.Block()) {
			continue
		}
		for _, ins := range b.Instrs {
			if ins == a {
				break
			}
			waits := false
			switch x := ins.(type) {
			case *ssa.Call:
				t := x.Call.StaticCallee()
				waits = t != nil && t.Name() == "Wait" && t.Pkg != nil && t.Pkg.Pkg.Path() == "sync"
			case *ssa.UnOp:
				waits = x.Op == token.ARROW
			case *ssa.Select:
				waits = true
			}
			if waits && (g.Block() == b || reaches(g.Block(), b)) {
				return true
			}
		}
	}
	return false
}
