package engine

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"slices"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	h          *ssa.BasicBlock
	nat        map[*ssa.BasicBlock]bool
	ext        map[*ssa.BasicBlock]bool
	normalExit *ssa.BasicBlock // successor of header outside the loop, if any
}

type fnInfo struct {
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loopInfo
}

var infoCache = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := infoCache[fn]; ok {
		return i
	}
	fi := &fnInfo{loops: map[*ssa.BasicBlock]*loopInfo{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := fi.loops[s]
				if lp == nil {
					lp = &loopInfo{h: s, nat: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = lp
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if lp.nat[x] {
						return
					}
					lp.nat[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							add(p)
						}
					}
				}
				add(b)
			}
		}
	}
	for _, lp := range fi.loops {
		for _, s := range lp.h.Succs {
			if !lp.nat[s] && len(lp.h.Succs) == 2 {
				lp.normalExit = s
			}
		}
		lp.ext = map[*ssa.BasicBlock]bool{}
		for b := range lp.nat {
			lp.ext[b] = true
		}
		if lp.normalExit != nil {
			reach := map[*ssa.BasicBlock]bool{}
			var r func(b *ssa.BasicBlock)
			r = func(b *ssa.BasicBlock) {
				if reach[b] {
					return
				}
				reach[b] = true
				for _, s := range b.Succs {
					if s != lp.h {
						r(s)
					}
				}
			}
			r(lp.normalExit)
			for _, b := range fi.rpo {
				if !lp.nat[b] && !reach[b] && lp.h.Dominates(b) && b != lp.h {
					lp.ext[b] = true
				}
			}
		}
	}
	infoCache[fn] = fi
	return fi
}

func (f *frame) loop(lp *loopInfo, es []edge) []edge {
	g0, mem0, phis := f.merge(lp.h, es)
	if g0 == False {
		return nil
	}
	if outs, ok := f.unroll(lp, g0, mem0, phis); ok {
		return outs
	}
	return f.generic(lp, g0, mem0, phis)
}

// headerCond evaluates the header and returns the truth of its branch.
func (f *frame) unroll(lp *loopInfo, g0 B, mem0 *Mem, phis []GVal) ([]edge, bool) {
	if lp.normalExit == nil {
		return nil, false
	}
	ifi, ok := lp.h.Instrs[len(lp.h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	savedExits, savedEvents := len(f.exits), len(f.e.Events)
	savedEnv := map[ssa.Value]GVal{}
	for k, v := range f.env {
		savedEnv[k] = v
	}
	abort := func() ([]edge, bool) {
		f.exits = f.exits[:savedExits]
		f.e.Events = f.e.Events[:savedEvents]
		f.env = savedEnv
		return nil, false
	}
	savedPath := f.path
	defer func() { f.path = savedPath }()
	next, entries := f.seededMap(lp)
	var outs []edge
	g, mem := g0, mem0
	for it := 0; it < 300; it++ {
		f.path = fmt.Sprintf("%s@%d.%d", savedPath, lp.h.Index, it)
		if next != nil {
			tup := next.Type().(*types.Tuple)
			if it < len(entries) {
				f.env[next] = gv1(mkT("tuple", "", MkBool(True), entries[it][0], entries[it][1]))
			} else {
				f.env[next] = gv1(mkT("tuple", "", MkBool(False), zeroOf(tup.At(1).Type()), zeroOf(tup.At(2).Type())))
			}
		}
		hes := f.block(lp.h, State{g, mem}, phis)
		c := truth(f.val(ifi.Cond))
		if c > True {
			c = f.simpl(c, g)
		}
		if c > True && (it > 64 || !f.constBound(lp, phis)) {
			return abort()
		}
		in := map[*ssa.BasicBlock][]edge{}
		exit := false
		for _, ed := range hes {
			if ed.to == lp.normalExit {
				outs = append(outs, ed)
				exit = true
			} else {
				in[ed.to] = append(in[ed.to], ed)
			}
		}
		if exit && c <= True || len(in) == 0 {
			return outs, true
		}
		order := f.loopOrder(lp)
		o, backs := f.region(order, f.without(lp), lp.h, in)
		for _, ed := range o {
			outs = append(outs, ed)
		}
		if len(backs) == 0 {
			return outs, true
		}
		g, mem, phis = f.merge(lp.h, backs)
		if g == False {
			return outs, true
		}
	}
	return abort()
}

// seededMap are the entries of the map a loop ranges over, when the case under analysis names them.
func (f *frame) seededMap(lp *loopInfo) (*ssa.Next, [][2]*Term) {
	for _, ins := range lp.h.Instrs {
		n, ok := ins.(*ssa.Next)
		if !ok {
			continue
		}
		it := normGV(f.val(n.Iter))
		if len(it) != 1 {
			return nil, nil
		}
		var es [][2]*Term
		m := it[0].T
		for ; m.Op == "mapset"; m = m.Args[0] {
			es = append([][2]*Term{{m.Args[1], m.Args[2]}}, es...)
		}
		if m.Op == "makemap" && m.Sym == "seed" {
			return n, es
		}
	}
	return nil, nil
}

// constBound: the loop counts up to one of finitely many constants.
func (f *frame) constBound(lp *loopInfo, phis []GVal) bool {
	ind := f.findInduction(lp, phis)
	if ind == nil {
		return false
	}
	for _, a := range normGV(f.val(ind.bound)) {
		if a.T.Op != "int" || !a.T.Big.IsInt64() || a.T.Big.Int64() > 64 {
			return false
		}
	}
	return true
}

// without returns the extended region minus the header.
func (f *frame) without(lp *loopInfo) map[*ssa.BasicBlock]bool {
	s := map[*ssa.BasicBlock]bool{}
	for b := range lp.ext {
		if b != lp.h {
			s[b] = true
		}
	}
	return s
}

func (f *frame) loopOrder(lp *loopInfo) []*ssa.BasicBlock {
	var o []*ssa.BasicBlock
	for _, b := range f.info.rpo {
		if lp.ext[b] && b != lp.h {
			o = append(o, b)
		}
	}
	return o
}

type induction struct {
	phi    *ssa.Phi
	pos    int
	off    int64 // idx = phi + off
	start  *Term // first idx
	bound  ssa.Value
	boundP int64 // add to bound (1 for <=)
}

// findDescent recognises a loop counting down over a whole sequence, from its last position to its first.
func (f *frame) findDescent(lp *loopInfo, phis []GVal) (pos int, start, seq *Term) {
	ifi, ok := lp.h.Instrs[len(lp.h.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	x, y, op := cmp.X, cmp.Y, cmp.Op
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.NEQ: token.NEQ, token.EQL: token.EQL}[op]
	}
	if lp.normalExit == lp.h.Succs[0] {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.EQL: token.NEQ}[op]
	}
	c, ok := y.(*ssa.Const)
	if !ok || c.Value == nil || !isSignedInt(c.Type()) {
		return
	}
	floor := c.Int64() // the loop goes on while the counter is above the floor
	switch op {
	case token.GTR, token.NEQ:
	case token.GEQ:
		floor--
	default:
		return
	}
	for i, ins := range lp.h.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			return
		}
		if ssa.Value(phi) != x {
			continue
		}
		for j, p := range lp.h.Preds {
			if !lp.nat[p] {
				continue
			}
			bo, ok := phi.Edges[j].(*ssa.BinOp)
			if !ok || bo.X != ssa.Value(phi) {
				return
			}
			k, ok := bo.Y.(*ssa.Const)
			if !ok || k.Value == nil || !(bo.Op == token.SUB && k.Int64() == 1 || bo.Op == token.ADD && k.Int64() == -1) {
				return
			}
		}
		s := unphi(boxGV(phis[i]))
		if q := isLenOf(Sub(s, mkI(floor))); q != nil && (q.Typ == nil || !isMapType(q.Typ)) {
			return i, s, q
		}
		return
	}
	return
}

func isSignedInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func unrev(d *Term) *Term {
	if d.Op == "rev" {
		return d.Args[0]
	}
	return d
}

// isSink: the content of a buffer or hash.
func isSink(v GVal) bool {
	for _, a := range v {
		if a.T.Op != "sink" && !(a.T.Op == "cat" && a.T.Args[0].Op == "sink") {
			return false
		}
	}
	return len(v) > 0
}

func isMapType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (f *frame) findInduction(lp *loopInfo, phis []GVal) *induction {
	ifi, ok := lp.h.Instrs[len(lp.h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	x, y, op := cmp.X, cmp.Y, cmp.Op
	if lp.normalExit == lp.h.Succs[0] { // loop continues on false
		switch op {
		case token.GEQ:
			op = token.LSS
		case token.GTR:
			op = token.LEQ
		case token.EQL:
			op = token.NEQ
		default:
			return nil
		}
	}
	try := func(x, y ssa.Value, op token.Token) *induction {
		var add int64
		switch op {
		case token.LSS, token.NEQ:
		case token.LEQ:
			add = 1
		default:
			return nil
		}
		for {
			if c, ok := x.(*ssa.Convert); ok {
				x = c.X
				continue
			}
			break
		}
		pi := 0
		for _, ins := range lp.h.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			// all back edges must be phi+1
			var upd ssa.Value
			good := true
			for i, p := range lp.h.Preds {
				if lp.nat[p] {
					bo, ok := phi.Edges[i].(*ssa.BinOp)
					if !ok || bo.Op != token.ADD || bo.X != ssa.Value(phi) {
						good = false
						break
					}
					c, ok := bo.Y.(*ssa.Const)
					if !ok || c.Value == nil || c.Value.ExactString() != "1" {
						good = false
						break
					}
					upd = bo
				}
			}
			if good && upd != nil {
				switch x {
				case ssa.Value(phi):
					return &induction{phi: phi, pos: pi, off: 0, bound: y, boundP: add}
				case upd:
					if upd.(*ssa.BinOp).Block() == lp.h {
						return &induction{phi: phi, pos: pi, off: 1, bound: y, boundP: add}
					}
				}
			}
			pi++
		}
		return nil
	}
	if in := try(x, y, op); in != nil {
		return in
	}
	flip := map[token.Token]token.Token{token.GTR: token.LSS, token.GEQ: token.LEQ, token.NEQ: token.NEQ}
	if fo, ok := flip[op]; ok {
		return try(y, x, fo)
	}
	return nil
}

func isLenOf(n *Term) *Term {
	if n.Op == "len" {
		return n.Args[0]
	}
	return nil
}

// lenOfCat: the concatenations whose length v is, by length.
func (f *frame) lenOfCat(v ssa.Value) map[*Term]*Term {
	for {
		c, ok := v.(*ssa.Convert)
		if !ok {
			break
		}
		v = c.X
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return nil
	}
	if _, ok := f.env[c.Call.Args[0]]; !ok {
		return nil
	}
	r := map[*Term]*Term{}
	for _, a := range f.val(c.Call.Args[0]) {
		if a.T.Op == "append" {
			r[mkLen(a.T)] = a.T
		}
	}
	return r
}

func (f *frame) generic(lp *loopInfo, g0 B, mem0 *Mem, phis []GVal) []edge {
	e := f.e
	savedPath := f.path
	f.path = fmt.Sprintf("%s@%d", savedPath, lp.h.Index)
	defer func() { f.path = savedPath }()

	// domain
	var dom *Term
	var tag string
	var idxT *Term
	ind := f.findInduction(lp, phis)
	var nextIns *ssa.Next
	for _, ins := range lp.h.Instrs {
		if n, ok := ins.(*ssa.Next); ok {
			nextIns = n
		}
	}
	mkTag := func(d *Term) string {
		t := ""
		for _, x := range e.doms {
			if unrev(x) == unrev(d) {
				t += "'"
			}
		}
		return t
	}
	var boundGV GVal
	var downPos int
	var downFrom, downSeq *Term
	switch {
	case nextIns != nil:
		rv := f.val(nextIns.Iter)
		dom = boxGV(rv)
	case ind != nil:
		// the bound may be computed in the header (i < len(x))
		if bi, ok := ind.bound.(ssa.Instruction); ok && bi.Block() == lp.h {
			// evaluate header once with placeholder phis to get the bound
			sv := map[ssa.Value]GVal{}
			for k, v := range f.env {
				sv[k] = v
			}
			pl := append([]GVal{}, phis...)
			pl[ind.pos] = gv1(mkTyped(ind.phi.Type(), "lv", f.path+"/ind"))
			ex, ev := len(f.exits), len(e.Events)
			f.block(lp.h, State{g0, mem0}, pl)
			f.exits, e.Events = f.exits[:ex], e.Events[:ev]
			boundGV = f.val(ind.bound)
			f.env = sv
		} else {
			boundGV = f.val(ind.bound)
		}
		if ind.boundP != 0 {
			boundGV = map1(boundGV, func(t *Term) *Term { return Add(t, mkI(ind.boundP)) })
		}
		start := boxGV(phis[ind.pos])
		start = Add(unphi(start), mkI(ind.off))
		var d GVal
		cats := f.lenOfCat(ind.bound)
		for _, b := range normGV(boundGV) {
			if x := cats[b.T]; x != nil {
				d = append(d, GE{b.G, x})
			} else if x := isLenOf(b.T); x != nil {
				d = append(d, GE{b.G, x})
			} else {
				d = append(d, GE{b.G, mkT("upto", "", b.T)})
			}
		}
		dom = boxGV(careGV(g0, normGV(d)))
		if !(start.Op == "int" && start.Big.Sign() == 0) {
			dom = mkT("from", "", start, dom)
		}
		ind.start = start
	default:
		if downPos, downFrom, downSeq = f.findDescent(lp, phis); downSeq != nil {
			dom = mkTyped(downSeq.Typ, "rev", "", downSeq)
		} else {
			dom = mkT("while", f.path)
		}
	}
	tag = mkTag(dom)
	idxT = mkTyped(types.Typ[types.Uint64], "idx", tag, dom)

	order := f.loopOrder(lp)
	set := f.without(lp)
	e.doms = append(e.doms, dom)
	var loopAllocs map[*Term]bool
	savedCtx := e.ctx
	e.ctx = And(e.ctx, g0)
	defer func() {
		e.doms = e.doms[:len(e.doms)-1]
		e.ctx = savedCtx
	}()

	var hphis []*ssa.Phi
	for _, ins := range lp.h.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			hphis = append(hphis, p)
		} else {
			break
		}
	}
	variantPhi := map[int]bool{}
	variantMem := map[*Term]bool{}
	lvPhi := func(i int) *Term { return mkTyped(hphis[i].Type(), "lv", f.path+"/"+hphis[i].Name()) }
	lvMem := func(k *Term) *Term {
		t := mkT("lv", f.path+"/mem:"+fmt.Sprint(k.id))
		if t.Typ == nil && k.Typ != nil {
			t.Typ = elemType(k.Typ)
			if k.Op == "content" {
				t.Typ = k.Typ
			}
		}
		return t
	}

	var outs, backs []edge
	var bodyExits []Exit
	var gBack B
	var memBack *Mem
	var phiBack []GVal
	evStart := len(e.Events)
	exStart := len(f.exits)
	var memStart *Mem
	headerMemOut := mem0
	for pass := 0; pass < 6; pass++ {
		f.exits = f.exits[:exStart]
		e.Events = e.Events[:evStart]
		cur := make([]GVal, len(phis))
		for i := range phis {
			switch {
			case ind != nil && i == ind.pos:
				cur[i] = gv1(Sub(idxT, mkI(ind.off)))
			case downSeq != nil && i == downPos:
				cur[i] = gv1(Sub(downFrom, idxT))
			case variantPhi[i]:
				cur[i] = gv1(lvPhi(i))
			default:
				cur[i] = phis[i]
			}
		}
		memStart = mem0
		if len(variantMem) > 0 {
			n := make(map[*Term]GVal, len(mem0.m)+len(variantMem))
			for k, v := range mem0.m {
				n[k] = v
			}
			for k := range variantMem {
				n[k] = gv1(lvMem(k))
			}
			memStart = &Mem{n}
		}
		allocsBefore := e.newAllocs
		e.newAllocs = map[*Term]bool{}
		if nextIns != nil {
			tup := nextIns.Type().(*types.Tuple)
			k := mkTyped(tup.At(1).Type(), "key", tag, dom)
			var v *Term
			if rt, ok := nextIns.Iter.(*ssa.Range); ok && rt.X.Type() != nil {
				switch u := rt.X.Type().Underlying().(type) {
				case *types.Map:
					k = mkTyped(u.Key(), "key", tag, dom)
					v = mkTyped(u.Elem(), "elem", tag, dom)
				default:
					v = mkTyped(tup.At(2).Type(), "elem", tag, dom)
				}
			}
			if v == nil {
				v = mkTyped(tup.At(2).Type(), "elem", tag, dom)
			}
			f.env[nextIns] = gv1(mkT("tuple", "", MkBool(True), k, v))
		}
		hes := f.headerBody(lp, State{True, memStart}, cur, ind != nil || nextIns != nil || downSeq != nil)
		in := map[*ssa.BasicBlock][]edge{}
		outs, backs = nil, nil
		for _, ed := range hes {
			switch {
			case ed.to == lp.normalExit && lp.normalExit != nil:
				// condition-driven exit (no recognised domain): treated as normal exit
			case ed.to == lp.h:
				backs = append(backs, ed)
			default:
				in[ed.to] = append(in[ed.to], ed)
			}
		}
		o, bk := f.region(order, set, lp.h, in)
		outs = o
		backs = append(backs, bk...)
		bodyExits = append([]Exit{}, f.exits[exStart:]...)
		loopAllocs = e.newAllocs
		e.newAllocs = allocsBefore
		for a := range loopAllocs {
			e.newAllocs[a] = true
		}
		if len(backs) == 0 {
			gBack, memBack, phiBack = False, memStart, cur
		} else {
			gBack, memBack, phiBack = f.merge(lp.h, backs)
		}
		changed := false
		for i := range hphis {
			if ind != nil && i == ind.pos || downSeq != nil && i == downPos || variantPhi[i] || gBack == False {
				continue
			}
			if !gvEq(phiBack[i], cur[i]) {
				variantPhi[i] = true
				changed = true
			}
		}
		if gBack != False {
			for k, v := range memBack.m {
				if variantMem[k] || k.Op == "born" {
					continue
				}
				root := rootOf(k)
				if loopAllocs[root] || root.Op == "makeslice" && len(root.Sym) > len(f.path) && root.Sym[:len(f.path)] == f.path {
					continue
				}
				old, ok := memStart.m[k]
				if !ok {
					old = e.load(memStart, k, elemTypeOfKey(k))
				}
				if !gvEq(v, old) && !dependsOnDom(k, dom, tag) {
					variantMem[k] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	e.ctx = savedCtx
	f.exits = f.exits[:exStart]

	// final values of loop-carried variables
	final := map[*Term]*Term{} // lv -> final term (boxed)
	type fin struct {
		lv *Term
		v  GVal
	}
	var fins []fin
	if gBack == False {
		// the body never repeats; values after normal exit = initial
		for i := range hphis {
			if variantPhi[i] {
				fins = append(fins, fin{lvPhi(i), phis[i]})
			}
		}
		for k := range variantMem {
			fins = append(fins, fin{lvMem(k), e.load(mem0, k, elemTypeOfKey(k))})
		}
	} else {
		// objects created by an iteration and kept for the next one: their content
		own := func(v GVal) GVal {
			return map1(v, func(t *Term) *Term {
				if t.Op == "alloc" && loopAllocs[t] {
					if p, ok := t.Typ.Underlying().(*types.Pointer); ok {
						return mkTyped(t.Typ, "&struct", "", e.Freeze(memBack, boxGV(e.load(memBack, t, p.Elem())), 0))
					}
				}
				return t
			})
		}
		for i := range hphis {
			if variantPhi[i] {
				phiBack[i] = own(phiBack[i])
				fins = append(fins, fin{lvPhi(i), f.finalValue(dom, tag, lvPhi(i), phis[i], phiBack[i], gBack)})
			}
		}
		var ks []*Term
		for k := range variantMem {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		for _, k := range ks {
			v, ok := memBack.m[k]
			if !ok {
				v = gv1(lvMem(k))
			}
			v = own(v)
			fins = append(fins, fin{lvMem(k), f.finalValue(dom, tag, lvMem(k), e.load(mem0, k, elemTypeOfKey(k)), v, gBack)})
		}
	}
	sm := map[*Term]*Term{}
	for _, x := range fins {
		final[x.lv] = boxGV(x.v)
		sm[x.lv] = mkTyped(x.lv.Typ, "pre", "", final[x.lv])
		if t := previous(dom, tag, x.v); t != nil {
			sm[x.lv] = t
		}
	}
	sub := NewSubst(sm)
	if len(sm) == 0 {
		sub = nil
	}
	sB := func(b B) B {
		if sub == nil {
			return b
		}
		return sub.BDD(b)
	}
	sV := func(v GVal) GVal {
		if sub == nil {
			return v
		}
		return sub.GV(v)
	}
	sM := func(m *Mem) *Mem {
		if sub == nil {
			return m
		}
		n := make(map[*Term]GVal, len(m.m))
		for k, v := range m.m {
			n[k] = sV(v)
		}
		return &Mem{n}
	}
	// second substitution for final values that mention other lvs
	for lv, t := range final {
		if sub != nil {
			final[lv] = sub.T(t)
		}
	}

	// values leaving an iteration: keep what the iteration's own guard says about them
	known := func(g B, v GVal) GVal {
		var r GVal
		for _, a := range v {
			ag := And(g, a.G)
			if ag == False {
				continue
			}
			t := a.T
			if t.Typ != nil && isErrorType(t.Typ) && t.Op != "err" && t.Op != "nil" && And(ag, EqB(t, NilT)) == False {
				t = errTerm(t)
			}
			r = append(r, GE{a.G, t})
		}
		if len(r) == 1 {
			r[0].G = True
		}
		return normGV(r)
	}
	// memory on an early exit: what only the leaving iteration stores belongs to the first element it happens for
	leaving := func(g B, m *Mem) *Mem {
		n := sM(m)
		if g == False {
			return n
		}
		var r *Mem
		for k, v := range n.m {
			if variantMem[k] {
				continue
			}
			if o, ok := mem0.m[k]; ok && sameGV(o, v) {
				continue
			}
			if gBack != False {
				if _, ok := memBack.m[k]; ok {
					continue
				}
			}
			nk, nv := k, v
			if dependsOnDom(k, dom, tag) {
				nk = chosen(dom, tag, sB(g), gv1(k))[0].T
			}
			nv = chosen(dom, tag, sB(g), v)
			if nk == k && sameGV(nv, v) {
				continue
			}
			if r == nil {
				r = &Mem{make(map[*Term]GVal, len(n.m))}
				for k, v := range n.m {
					r.m[k] = v
				}
			}
			delete(r.m, k)
			r.m[nk] = nv
		}
		if r != nil {
			return r
		}
		return n
	}
	gx := False
	wrap := func(g B) B { return And(g0, existsRaw(dom, tag, sB(g))) }
	var res []edge
	for _, ex := range bodyExits {
		gx = Or(gx, ex.G)
		ne := ex
		ne.G = wrap(ex.G)
		for i := range ne.Vals {
			ne.Vals = append([]GVal{}, ne.Vals...)
			ne.Vals[i] = chosen(dom, tag, sB(ex.G), sV(known(ex.G, ne.Vals[i])))
		}
		ne.Mem = leaving(ex.G, ex.Mem)
		if ne.G != False {
			f.exits = append(f.exits, ne)
		}
	}
	for _, ed := range outs {
		gx = Or(gx, ed.g)
		ne := ed
		ne.g = wrap(ed.g)
		ne.mem = leaving(ed.g, ed.mem)
		ne.phi = append([]GVal{}, ed.phi...)
		for i := range ne.phi {
			ne.phi[i] = chosen(dom, tag, sB(ed.g), sV(known(ed.g, ne.phi[i])))
		}
		if ne.g != False {
			res = append(res, ne)
		}
	}
	for i := evStart; i < len(e.Events); i++ {
		e.Events[i].G = And(e.ctx, And(g0, sB(e.Events[i].G)))
		if sub != nil {
			if e.Events[i].T != nil {
				e.Events[i].T = sub.T(e.Events[i].T)
			}
			if e.Events[i].V != nil {
				e.Events[i].V = sV(e.Events[i].V)
			}
			if e.Events[i].Args != nil {
				na := make([]GVal, len(e.Events[i].Args))
				for j, a := range e.Events[i].Args {
					na[j] = sV(a)
				}
				e.Events[i].Args = na
			}
		}
	}
	if lp.normalExit == nil {
		return res
	}
	// normal exit
	ng := And(g0, Not(existsRaw(dom, tag, sB(gx))))
	nm := mem0
	{
		n := make(map[*Term]GVal, len(mem0.m))
		for k, v := range mem0.m {
			n[k] = v
		}
		if gBack != False {
			for k, v := range memBack.m {
				if _, ok := n[k]; !ok && !variantMem[k] {
					n[k] = sV(v) // objects created in the loop, per-element stores
				} else if dependsOnDom(k, dom, tag) {
					n[k] = sV(v)
				}
			}
		}
		for k := range variantMem {
			n[k] = normGV(unbox(final[lvMem(k)]))
		}
		nm = &Mem{n}
	}
	_ = headerMemOut
	fp := make([]GVal, len(phis))
	for i := range phis {
		switch {
		case ind != nil && i == ind.pos:
			fp[i] = map1(boundGV, func(t *Term) *Term { return Sub(t, mkI(ind.off)) })
		case downSeq != nil && i == downPos:
			fp[i] = gv1(Sub(downFrom, mkLen(downSeq)))
		case variantPhi[i]:
			fp[i] = normGV(unbox(final[lvPhi(i)]))
		default:
			fp[i] = phis[i]
		}
	}
	if nextIns != nil {
		tup := nextIns.Type().(*types.Tuple)
		f.env[nextIns] = gv1(mkT("tuple", "", MkBool(False), zeroOf(tup.At(1).Type()), zeroOf(tup.At(2).Type())))
	}
	exN, evN := len(f.exits), len(e.Events)
	hes := f.headerExit(lp, State{ng, nm}, fp)
	f.exits, e.Events = f.exits[:exN], e.Events[:evN]
	for _, ed := range hes {
		ed.g = ng
		if ng != False {
			res = append(res, ed)
		}
	}
	return res
}

// previous recognises a variable that every iteration over a sequence sets from its own element: at the start of an
// iteration it holds the initial value for the first element and what the element before it gave otherwise.
func previous(dom *Term, tag string, final GVal) *Term {
	if dom.Typ == nil {
		return nil
	}
	switch dom.Typ.Underlying().(type) {
	case *types.Slice, *types.Array:
	default:
		return nil
	}
	if len(final) == 1 && final[0].T.Op == "bool" {
		ix := mkTyped(types.Typ[types.Uint64], "idx", tag, dom)
		switch final[0].T.B { // "there has been an element"
		case Not(EqB(mkLen(dom), mkI(0))):
			return MkBool(Not(EqB(ix, mkI(0))))
		case EqB(mkLen(dom), mkI(0)):
			return MkBool(EqB(ix, mkI(0)))
		}
		return nil
	}
	var last *Term
	var init GVal
	for _, a := range final {
		if a.T.Op == "last" && a.T.B == True && a.T.Args[0] == dom && last == nil {
			last = a.T.Args[1]
			continue
		}
		init = append(init, a)
	}
	if last == nil || len(init) != 1 {
		return nil
	}
	ix := mkTyped(types.Typ[types.Uint64], "idx", tag, dom)
	before := Sub(ix, mkI(1))
	el := mkT("elem", tag, dom)
	v := NewSubst(map[*Term]*Term{el: mkIndex(dom, before, el.Typ), ix: before}).T(last)
	first := EqB(ix, mkI(0))
	return boxGV(normGV(GVal{{first, init[0].T}, {Not(first), v}}))
}

func dependsOnDom(k, dom *Term, tag string) bool {
	return mentions(k, domVars(dom, tag), map[*Term]bool{})
}

func elemTypeOfKey(k *Term) types.Type {
	if k.Op == "content" {
		return k.Typ
	}
	return elemType(k.Typ)
}

// headerBody evaluates the header for a generic iteration, forcing the loop condition if force.
func (f *frame) headerBody(lp *loopInfo, st State, phis []GVal, force bool) []edge {
	es := f.blockForce(lp.h, st, phis, lp, force, true)
	return es
}

func (f *frame) headerExit(lp *loopInfo, st State, phis []GVal) []edge {
	return f.blockForce(lp.h, st, phis, lp, true, false)
}

func (f *frame) blockForce(b *ssa.BasicBlock, st State, phis []GVal, lp *loopInfo, force, body bool) []edge {
	if !force || lp.normalExit == nil {
		return f.block(b, st, phis)
	}
	// evaluate all but the terminator
	pi := 0
	for _, ins := range b.Instrs {
		switch x := ins.(type) {
		case *ssa.Phi:
			f.env[x] = phis[pi]
			pi++
		case *ssa.If:
			for _, s := range b.Succs {
				if (s != lp.normalExit) == body {
					return []edge{f.mkEdge(b, s, st.G, st.Mem)}
				}
			}
		case *ssa.Next:
			// preset
		default:
			st = f.instr(ins, st)
		}
	}
	return nil
}

// finalValue solves the recurrence lv := upd under continue-guard gc.
func (f *frame) finalValue(dom *Term, tag string, lv *Term, init, upd GVal, gc B) GVal {
	upd = normGV(upd)
	// simplify guards
	self := map[*Term]bool{lv: true}
	nu := make(GVal, 0, len(upd))
	for _, a := range upd {
		g := And(a.G, gc)
		if g == False {
			continue
		}
		g = canon(a.G, gc, func(t *Term) bool { return mentions(t, self, map[*Term]bool{}) })
		nu = append(nu, GE{g, a.T})
	}
	upd = nu
	if len(upd) == 1 && upd[0].T.Op == "bool" {
		// boolean flag: lv' = F(lv, elem)
		t := upd[0].T.B
		lvb := TruthB(lv)
		if lvb > True {
			v := nodes[lvb].v
			h, l := setVar(t, v, true), setVar(t, v, false)
			if h == True { // sticky true
				return boolV(Or(truth(init), existsRaw(dom, tag, l)))
			}
			if l == False { // sticky false
				return boolV(And(truth(init), Not(existsRaw(dom, tag, Not(h)))))
			}
		}
		return gv1(mkGuarded("fold", tag, t, lv.Typ, boxGV(init), dom))
	}
	set := map[*Term]bool{lv: true}
	has := func(t *Term) bool { return mentions(t, set, map[*Term]bool{}) }
	prune := true
	kind := ""
classify:
	kind = ""
	for _, a := range upd {
		k := ""
		switch {
		case a.T == lv:
			continue
		case !has(a.T):
			k = "flag"
		case a.T.Op == "lin" && coefOf(a.T, lv) == 1 && !has(Sub(a.T, lv)):
			k = "sum"
		case a.T.Op == "append" && a.T.Args[0] == lv && !has(a.T.Args[1]):
			k = "collect"
		case a.T.Op == "cat" && a.T.Args[0] == lv && !has(mkCat(nil, a.T.Args[1:]...)) && (isTextOrBytes(lv.Typ) || isSink(init)) && dom.Op != "while":
			k = "cat"
		case a.T.Op == "mapset":
			base := a.T
			for base.Op == "mapset" {
				base = base.Args[0]
			}
			if base == lv {
				k = "mapset"
			} else {
				k = "fold"
			}
		default:
			k = "fold"
		}
		if bMentions(a.G, set, map[*Term]bool{}) && k != "mapset" && k != "flag" {
			k = "fold"
		}
		if kind == "" {
			kind = k
		} else if kind != k {
			kind = "fold"
		}
	}
	if kind == "fold" && prune {
		// alternatives of abandoned iterations, recognised with quantifier reasoning
		var keep GVal
		for _, a := range upd {
			if a.T != lv {
				if ok, _, _ := Sat(nil, And(a.G, gc)); !ok {
					continue
				}
			}
			keep = append(keep, a)
		}
		if len(keep) < len(upd) {
			prune, upd = false, keep
			goto classify
		}
	}
	ini := boxGV(init)
	switch kind {
	case "":
		return init
	case "flag":
		var out GVal
		anyG := False
		dv, memo := domVars(dom, tag), map[*Term]bool{}
		varying, nset := False, 0
		var vals GVal
		dep := false
		for _, a := range upd {
			if a.T != lv {
				nset++
				varying = Or(varying, a.G)
				vals = append(vals, a)
				dep = dep || mentions(a.T, dv, memo)
			}
		}
		if nset > 1 || dep { // the value of the last element that sets it
			if nset == 1 {
				vals[0].G = True
			}
			g := existsRaw(dom, tag, varying)
			out = GVal{{g, boxGV(lastChosen(dom, tag, varying, lv.Typ, vals))}}
			for _, i := range init {
				out = append(out, GE{And(i.G, Not(g)), i.T})
			}
			return normGV(out)
		}
		for _, a := range upd {
			if a.T == lv {
				continue
			}
			g := existsRaw(dom, tag, a.G)
			out = append(out, GE{And(g, Not(anyG)), a.T})
			anyG = Or(anyG, g)
		}
		for _, i := range init {
			out = append(out, GE{And(i.G, Not(anyG)), i.T})
		}
		return normGV(out)
	case "sum":
		r := unphi(ini)
		narrow := false
		for _, a := range upd {
			if a.T == lv {
				continue
			}
			amount := Sub(a.T, lv)
			if dom.Op == "append" {
				if ps, ok := domParts(dom, tag, a.G, amount); ok {
					for _, p := range ps {
						g, t := p.sub.BDD(a.G), p.sub.T(amount)
						if p.dom != nil {
							r = Add(r, sumTerm(p.dom, tag, g, t, lv.Typ))
						} else {
							r = Add(r, boxGV(GVal{{g, t}, {Not(g), mkI(0)}}))
						}
					}
					continue
				}
			}
			r = Add(r, sumTerm(dom, tag, a.G, amount, lv.Typ))
			narrow = narrow || narrowFor(lv.Typ, amount)
		}
		if narrow { // the accumulator is as narrow as what it adds up
			r = mkTyped(lv.Typ, fmt.Sprintf("trunc%d", bitsOf(lv.Typ)), "", r)
		}
		return gv1(r)
	case "cat": // the parts one after the other
		g, exts := False, GVal(nil)
		for _, a := range upd {
			if a.T != lv {
				g, exts = Or(g, a.G), append(exts, GE{a.G, careT(And(gc, a.G), mkCat(nil, a.T.Args[1:]...))})
			}
		}
		arg := exts[0].T
		if len(exts) > 1 {
			arg = boxGV(normGV(exts))
		}
		if arg.Op == "list" && len(arg.Args) == 1 {
			arg = arg.Args[0]
		} else {
			arg = mkT("spread", "", arg)
		}
		parts := mkGuarded("collect", tag, g, lv.Typ, mkTyped(lv.Typ, "list", ""), dom, arg)
		return map1(init, func(i *Term) *Term { return mkCat(lv.Typ, i, parts) })
	case "collect":
		r := ini
		for _, a := range upd {
			if a.T == lv {
				continue
			}
			arg := careT(And(gc, a.G), a.T.Args[1])
			if arg.Op == "list" && len(arg.Args) == 1 {
				arg = arg.Args[0]
			} else {
				arg = mkT("spread", "", arg)
			}
			r = mkGuarded("collect", tag, a.G, lv.Typ, r, dom, arg)
		}
		return gv1(r)
	case "mapset":
		acc := mkTyped(lv.Typ, "acc", "")
		s := NewSubst(map[*Term]*Term{lv: acc})
		r := ini
		type entry struct {
			g   B
			key *Term
			val GVal
		}
		var ents []entry
		for _, a := range upd {
			if a.T == lv {
				continue
			}
			seen := map[*Term]bool{}
			for base := a.T; base.Op == "mapset"; base = base.Args[0] {
				key := boxGV(careGV(And(gc, a.G), unbox(base.Args[1])))
				if seen[key] {
					continue // overwritten in the same iteration
				}
				seen[key] = true
				var val GVal
				for _, v := range careGV(And(gc, a.G), unbox(base.Args[2])) {
					val = append(val, GE{And(a.G, v.G), v.T})
				}
				found := false
				for k := range ents {
					if ents[k].key == key {
						ents[k].g = Or(ents[k].g, a.G)
						ents[k].val = append(ents[k].val, val...)
						found = true
						break
					}
				}
				if !found {
					ents = append(ents, entry{a.G, key, val})
				}
			}
		}
		for _, en := range ents {
			g := canon(en.g, gc, nil)
			if g2 := And(en.g, gc); g != True && bMentions(g, set, map[*Term]bool{}) && !bMentions(g2, set, map[*Term]bool{}) {
				g = g2
			}
			val := boxGV(careGV(And(gc, en.g), normGV(en.val)))
			if amount := accumulates(lv, g, en.key, val, gc); amount != nil {
				r = mkGuarded("mapsum", tag, g, lv.Typ, r, dom, en.key, amount)
				continue
			}
			fg, fk, fv := s.BDD(g), s.T(en.key), s.T(val)
			if dom.Op == "append" {
				if ps, ok := domParts(dom, tag, fg, fk, fv); ok && !slices.ContainsFunc(ps, func(p domPart) bool { return p.dom == nil }) {
					for _, p := range ps {
						r = mkGuarded("mapfill", tag, p.sub.BDD(fg), lv.Typ, r, p.dom, p.sub.T(fk), p.sub.T(fv))
					}
					continue
				}
			}
			r = mkGuarded("mapfill", tag, fg, lv.Typ, r, dom, fk, fv)
		}
		return gv1(r)
	}
	acc := mkTyped(lv.Typ, "acc", "")
	s := NewSubst(map[*Term]*Term{lv: acc})
	return gv1(mkGuarded("fold", tag, True, lv.Typ, ini, dom, boxGV(s.GV(upd))))
}

// lastChosen is the value given by the last element meeting g: the first one met when walking backwards.
func lastChosen(dom *Term, tag string, g B, typ types.Type, vals GVal) GVal {
	if g == True || dom.Typ == nil || dom.Op == "from" || dom.Op == "rev" || isMapType(dom.Typ) {
		return gv1(mkGuarded("last", tag, g, typ, dom, boxGV(vals)))
	}
	if _, ok := dom.Typ.Underlying().(*types.Slice); !ok {
		return gv1(mkGuarded("last", tag, g, typ, dom, boxGV(vals)))
	}
	s := NewSubst(reversed(dom, tag))
	return chosen(mkTyped(dom.Typ, "rev", "", dom), tag, s.BDD(g), s.GV(vals))
}

// reversed maps the variables of a walk over x to those of a walk over its reversal.
func reversed(x *Term, tag string) map[*Term]*Term {
	r := mkTyped(x.Typ, "rev", "", x)
	el, ix := mkT("elem", tag, x), mkT("idx", tag, x)
	ri := mkTyped(types.Typ[types.Uint64], "idx", tag, r)
	return map[*Term]*Term{
		el: mkTyped(el.Typ, "elem", tag, r),
		ix: Sub(Sub(mkLen(x), mkI(1)), ri),
	}
}

// forward maps the variables of a walk over the reversal r of x to those of a walk over x.
func forward(r *Term, tag string) map[*Term]*Term {
	x := r.Args[0]
	el := mkT("elem", tag, r)
	ix := mkTyped(types.Typ[types.Uint64], "idx", tag, x)
	return map[*Term]*Term{
		el:                 mkTyped(el.Typ, "elem", tag, x),
		mkT("idx", tag, r): Sub(Sub(mkLen(x), mkI(1)), ix),
	}
}

// chosen names the element at which a loop was left: the first one meeting g.
func chosen(dom *Term, tag string, g B, v GVal) GVal {
	dv := domVars(dom, tag)
	memo := map[*Term]bool{}
	dep := false
	for _, a := range v {
		if a.T.Op == "err" {
			continue
		}
		dep = dep || mentions(a.T, dv, memo) || bMentions(a.G, dv, memo)
	}
	if !dep {
		return v
	}
	m := map[*Term]*Term{}
	for _, op := range []string{"elem", "idx", "key"} {
		o := mkT(op, tag, dom)
		m[o] = mkGuarded("first"+op, tag, g, o.Typ, dom)
	}
	return NewSubst(m).GV(v)
}

func coefOf(t, x *Term) int64 {
	for i, a := range t.Args {
		if a == x {
			return t.Coef[i]
		}
	}
	return 0
}

func bitsOf(t types.Type) int {
	if t == nil {
		return 64
	}
	b, _, ok := intSize(t)
	if !ok {
		return 64
	}
	return b
}

// narrowFor tells whether adding up amounts can exceed an accumulator of type t of at most 16 bits for a few of them.
func narrowFor(t types.Type, amount *Term) bool {
	w := bitsOf(t)
	if w > 16 {
		return false
	}
	for x := range toLin(amount).m {
		if x.Typ != nil && bitsOf(x.Typ) >= w && x.Op != "len" && x.Op != "sum" {
			return true
		}
	}
	return false
}

// sumTerm builds sum(dom | g : t), splitting linear summands.
func sumTerm(dom *Term, tag string, g B, t *Term, typ types.Type) *Term {
	if dom.Op == "rev" {
		s := NewSubst(forward(dom, tag))
		return sumTerm(dom.Args[0], tag, s.BDD(g), s.T(t), typ)
	}
	l := toLin(t)
	r := lin{map[*Term]int64{}, new(big.Int)}
	for x, c := range l.m {
		if g == True && dom.Op != "upto" && !dependsOnDom(x, dom, tag) {
			r = r.add(toLin(Mul(mkLen(dom), x)), c)
			continue
		}
		r = r.add(toLin(mkGuarded("sum", tag, g, typ, dom, x)), c)
	}
	if l.c.Sign() != 0 {
		one := mkGuarded("sum", tag, g, typ, dom, mkI(1))
		if g == True {
			one = mkLen(dom)
			if dom.Op == "upto" {
				one = dom.Args[0]
			}
		}
		if l.c.IsInt64() {
			r = r.add(toLin(one), l.c.Int64())
		}
	}
	return r.term()
}

// careGV keeps the alternatives possible under g.
func careGV(g B, v GVal) GVal {
	var r GVal
	for _, a := range v {
		if And(g, a.G) == False {
			continue
		}
		r = append(r, GE{canon(a.G, g, nil), a.T})
	}
	if len(r) == 1 {
		r[0].G = True
	}
	return normGV(r)
}

// accumulates recognises m[k] = m[k] + amount where an absent entry counts as zero; it returns the amount.
// careT simplifies the alternatives of the parts of t given g.
func careT(g B, t *Term) *Term {
	switch t.Op {
	case "gv":
		v := careGV(g, t.GV)
		for i := range v {
			v[i].T = careT(And(g, v[i].G), v[i].T)
		}
		return boxGV(v)
	case "cat", "list", "spread":
		args := slices.Clone(t.Args)
		same := true
		for i, a := range args {
			args[i] = careT(g, a)
			same = same && args[i] == a
		}
		if same {
			return t
		}
		if t.Op == "cat" {
			return mkCat(t.Typ, args...)
		}
		return mkTyped(t.Typ, t.Op, t.Sym, args...)
	}
	return t
}

func accumulates(m *Term, g B, key, val *Term, care B) *Term {
	if key.Op == "gv" { // one of several keys
		var out GVal
		for _, k := range key.GV {
			kg := And(g, k.G)
			if kg == False {
				continue
			}
			a := accumulates(m, kg, k.T, boxGV(careGV(kg, unbox(val))), care)
			if a == nil {
				return nil
			}
			for _, x := range unbox(a) {
				out = append(out, GE{And(k.G, x.G), x.T})
			}
		}
		return boxGV(careGV(g, normGV(out)))
	}
	set := map[*Term]bool{m: true}
	if bMentions(g, set, map[*Term]bool{}) || mentions(key, set, map[*Term]bool{}) {
		return nil
	}
	h := HasB(m, key)
	if h <= True {
		return nil
	}
	hv := nodes[h].v
	side := func(present bool) *Term {
		var out GVal
		for _, a := range unbox(val) {
			ag := setVar(a.G, hv, present)
			if And(g, ag) == False {
				continue
			}
			t := a.T
			if present {
				if t.Typ == nil {
					return nil
				}
				cur := unbox(boxGV(lookupV(m, key, t.Typ)))
				var l *Term
				for _, c := range cur {
					if c.T.Op == "lookup" {
						l = c.T
					}
				}
				if l == nil || t.Op != "lin" && t != l || coefOf(t, l) != 1 {
					return nil
				}
				t = Sub(t, l)
			}
			ag = canon(ag, setVar(And(g, care), hv, present), nil)
			if mentions(t, set, map[*Term]bool{}) || bMentions(ag, set, map[*Term]bool{}) {
				return nil
			}
			out = append(out, GE{ag, t})
		}
		return boxGV(careGV(g, normGV(out)))
	}
	a, b := side(true), side(false)
	if a == nil || a != b {
		return nil
	}
	return a
}

func isTextOrBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()&types.IsString != 0
	}
	return isByteSeq(t)
}

func sameGV(a, b GVal) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].G != b[i].G || a[i].T != b[i].T {
			return false
		}
	}
	return true
}
