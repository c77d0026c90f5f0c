package engine

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// sameB: a and b have the same content.
func sameB(a, b *Term) B {
	switch {
	case a == b:
		return True
	case a.Op == "gv" || b.Op == "gv":
		r := True // states covered by no alternative do not occur
		for _, x := range unbox(a) {
			for _, y := range unbox(b) {
				if g := And(x.G, y.G); g != False {
					r = And(r, Implies(g, sameB(x.T, y.T)))
				}
			}
		}
		return r
	case a.Op == b.Op && a.Sym == b.Sym && len(a.Args) == len(b.Args) && (a.Op == "struct" || a.Op == "&struct" || a.Op == "list" || a.Op == "iface"):
		r := True
		for i := range a.Args {
			r = And(r, sameB(a.Args[i], b.Args[i]))
		}
		return r
	case a.Op == "iface" && b.Op != "iface" && b.Op != "nil":
		return sameB(a.Args[0], b)
	case b.Op == "iface" && a.Op != "iface" && a.Op != "nil":
		return sameB(a, b.Args[0])
	case (a.Op == "struct" && b.Op == "zero" || b.Op == "struct" && a.Op == "zero") && len(a.Args) == 0 && len(b.Args) == 0:
		return True
	case a.Op == "&struct" && b.Op != "nil" && a.Args[0].Op != "struct":
		return sameB(a.Args[0], b)
	case b.Op == "&struct" && a.Op != "nil" && b.Args[0].Op != "struct":
		return sameB(a, b.Args[0])
	}
	return EqB(a, b)
}

// SameB: a and b have the same content.
func SameB(a, b *Term) B { return sameB(a, b) }

func isByteSeqOrString(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	if b, ok := t.Typ.Underlying().(*types.Basic); ok {
		return b.Info()&types.IsString != 0
	}
	return isByteSeq(t.Typ)
}

// distributeCat turns a concatenation with alternative parts into alternative concatenations.
func distributeCat(t *Term) *Term {
	if t.Op != "cat" {
		return t
	}
	n := 1
	for _, a := range t.Args {
		n *= len(unbox(a))
	}
	if n == 1 || n > 64 {
		return t
	}
	var out GVal
	var rec func(i int, g B, ts []*Term)
	rec = func(i int, g B, ts []*Term) {
		if i == len(t.Args) {
			out = append(out, GE{g, mkCat(t.Typ, append([]*Term{}, ts...)...)})
			return
		}
		for _, a := range unbox(t.Args[i]) {
			if h := And(g, a.G); h != False {
				rec(i+1, h, append(ts, a.T))
			}
		}
	}
	rec(0, True, nil)
	return boxGV(out)
}

// Axioms returns the conjunction of background facts relating the given atoms.
func Axioms(p *Program, as []*Term) []B {
	var r []B
	byArg := map[*Term][]*Term{}
	isBy := map[*Term][]*Term{}
	eqs := map[[2]*Term]*Term{}
	lts := map[[2]*Term]*Term{}
	for _, a := range as {
		switch a.Op {
		case "is":
			isBy[a.Args[0]] = append(isBy[a.Args[0]], a)
		case "eq":
			eqs[[2]*Term{a.Args[0], a.Args[1]}] = a
			eqs[[2]*Term{a.Args[1], a.Args[0]}] = a
			byArg[a.Args[0]] = append(byArg[a.Args[0]], a)
			byArg[a.Args[1]] = append(byArg[a.Args[1]], a)
		case "lt":
			lts[[2]*Term{a.Args[0], a.Args[1]}] = a
			byArg[a.Args[0]] = append(byArg[a.Args[0]], a)
			byArg[a.Args[1]] = append(byArg[a.Args[1]], a)
		}
	}
	add := func(b B) { r = append(r, b) }
	// collections taken over the same elements are equal unless some element contributes differently
	for _, a := range as {
		if a.Op != "eq" {
			continue
		}
		x, y := a.Args[0], a.Args[1]
		if dx, dy := distributeCat(x), distributeCat(y); dx != x || dy != y {
			add(Or(AtomVar(a), Not(sameB(dx, dy))))
			continue
		}
		if x.Op != y.Op || x.Sym != y.Sym || len(x.Args) != len(y.Args) {
			continue
		}
		di := 1
		switch x.Op {
		case "sum":
			di = 0
		case "collect", "mapfill", "mapsum":
			if x.Args[0] != y.Args[0] {
				continue
			}
		case "call", "res", "cat", "slice", "part", "upd", "le", "unle", "fit", "field", "wrap":
			// functions of equal arguments are equal
			same := True
			for i := range x.Args {
				same = And(same, sameB(x.Args[i], y.Args[i]))
			}
			add(Or(AtomVar(a), Not(same)))
			continue
		default:
			continue
		}
		if x.Args[di] != y.Args[di] {
			continue
		}
		same := True
		for i := di + 1; i < len(x.Args); i++ {
			same = And(same, sameB(x.Args[i], y.Args[i]))
		}
		add(Or(AtomVar(a), existsRaw(x.Args[di], x.Sym, Or(And(x.B, Not(y.B)), Or(And(y.B, Not(x.B)), And(x.B, Not(same)))))))
	}
	// x == y and x == y + c exclude each other
	type offset struct {
		c *big.Int
		a *Term
	}
	shapes := map[string][]offset{}
	hasLin := false
	for _, a := range as {
		hasLin = hasLin || a.Op == "eq" && (a.Args[0].Op == "lin" || a.Args[1].Op == "lin")
	}
	for _, a := range as {
		if !hasLin || a.Op != "eq" || a.Args[0].Op == "gv" || a.Args[1].Op == "gv" || a.Args[1] == NilT || a.Args[0].Op == "str" {
			continue
		}
		d := toLin(a.Args[0]).add(toLin(a.Args[1]), -1)
		ts := d.sorted()
		if len(ts) < 2 {
			continue
		}
		if d.m[ts[0]] < 0 {
			d = lin{map[*Term]int64{}, new(big.Int)}.add(d, -1)
		}
		k := ""
		for _, t := range ts {
			k += fmt.Sprint(t.id, ":", d.m[t], " ")
		}
		for _, o := range shapes[k] {
			if o.c.Cmp(d.c) != 0 {
				add(Not(And(AtomVar(o.a), AtomVar(a))))
			}
		}
		shapes[k] = append(shapes[k], offset{d.c, a})
	}
	// containers: something inside means neither nil nor empty
	for _, a := range as {
		if a.Op != "has" && a.Op != "exists" {
			continue
		}
		d := a.Args[0]
		if e, ok := eqs[[2]*Term{d, NilT}]; ok {
			add(Not(And(AtomVar(a), AtomVar(e))))
		}
		l := mkLen(d)
		if e, ok := eqs[[2]*Term{l, mkI(0)}]; ok {
			add(Not(And(AtomVar(a), AtomVar(e))))
		}
	}
	// dynamic types
	for x, is := range isBy {
		for i, a := range is {
			va := AtomVar(a)
			if e, ok := eqs[[2]*Term{x, NilT}]; ok {
				add(Not(And(va, AtomVar(e))))
			}
			_, ai := a.Typ.Underlying().(*types.Interface)
			for j, b := range is {
				if i == j {
					continue
				}
				vb := AtomVar(b)
				bit, bi := b.Typ.Underlying().(*types.Interface)
				switch {
				case !ai && !bi && j > i:
					add(Not(And(va, vb)))
				case !ai && bi:
					if types.Implements(a.Typ, bit) {
						add(Implies(va, vb))
					} else {
						add(Not(And(va, vb)))
					}
				case ai && bi:
					if types.Implements(a.Typ, bit) {
						add(Implies(va, vb))
					}
				}
			}
			// Type() agreement
			if !ai && p != nil {
				for _, e := range as {
					if e.Op != "eq" {
						continue
					}
					for k := 0; k < 2; k++ {
						c := e.Args[k]
						if c.Op == "call" && (c.Sym == "Type" || c.Sym == "PayloadType") && len(c.Args) == 1 && c.Args[0] == x && e.Args[1-k].Op == "int" {
							if tc := p.TypeCode(a.Typ, c.Sym); tc != nil {
								if tc == e.Args[1-k] {
									add(Xnor(va, AtomVar(e)))
								} else {
									add(Not(And(va, AtomVar(e))))
								}
							}
						}
					}
				}
			}
		}
	}
	// membership among (a prefix of) the same elements under different conditions
	member := map[string][]*Term{}
	for _, a := range as {
		if m, d, k := memberParts(a); m != nil {
			kk := fmt.Sprint(a.Op, a.Args[0].Op, d.id, k)
			member[kk] = append(member[kk], a)
		}
	}
	for _, ms := range member {
		for i, a := range ms {
			for j, b := range ms {
				ma, d, _ := memberParts(a)
				mb, _, _ := memberParts(b)
				if i != j && ma != mb && len(ms) < 8 {
					add(OrAll(Not(AtomVar(a)), existsRaw(d, ma.Sym, And(ma.B, Not(mb.B))), AtomVar(b)))
				}
			}
		}
	}
	// the element at which a loop was left met the condition for leaving it
	seen := map[*Term]bool{}
	for _, a := range as {
		for _, t := range firstTerms(a) {
			if seen[t] {
				continue
			}
			seen[t] = true
			d := t.Args[0]
			m := map[*Term]*Term{}
			for _, op := range []string{"elem", "idx", "key"} {
				o := mkT(op, t.Sym, d)
				m[o] = mkGuarded("first"+op, t.Sym, t.B, o.Typ, d)
			}
			add(Implies(existsRaw(d, t.Sym, t.B), NewSubst(m).BDD(t.B)))
		}
	}
	// first positions: at least 0, and equal only if an element meets both conditions
	for t := range seen {
		if t.Op == "firstidx" || t.Op == "firstkey" && isByteSeqOrString(t.Args[0]) {
			add(Not(LtB(t, zeroInt())))
		}
	}
	bothFirst := func(same B, x, y *Term) {
		if x.id < y.id && x.Op == y.Op && (x.Op == "firstidx" || x.Op == "firstkey") && x.Args[0] == y.Args[0] && x.Sym == y.Sym {
			d := x.Args[0]
			add(OrAll(Not(same), Not(existsRaw(d, x.Sym, x.B)), Not(existsRaw(d, x.Sym, y.B)), existsRaw(d, x.Sym, And(x.B, y.B))))
		}
	}
	for k, a := range eqs {
		bothFirst(AtomVar(a), k[0], k[1])
	}
	for k, a := range lts {
		if b, ok := lts[[2]*Term{k[1], k[0]}]; ok {
			bothFirst(And(Not(AtomVar(a)), Not(AtomVar(b))), k[0], k[1])
		}
	}
	// three-way comparison
	for x := range byArg {
		if x.Op == "call" && (x.Sym == "Compare" || x.Sym == "bytes.Compare" || x.Sym == "strings.Compare") {
			add(OrAll(EqB(x, mkI(-1)), EqB(x, mkI(0)), EqB(x, mkI(1))))
		}
	}
	// small natural numbers below a constant are one of the numbers below it
	for x, list := range byArg {
		if !isUnsigned(x) && x.Op != "len" {
			continue
		}
		for _, a := range list {
			if a.Op == "lt" && a.Args[0] == x && a.Args[1].Op == "int" && a.Args[1].Big.IsInt64() {
				if n := a.Args[1].Big.Int64(); n >= 2 && n <= 4 {
					r := Not(AtomVar(a))
					for k := int64(0); k < n; k++ {
						r = Or(r, EqB(x, mkI(k)))
					}
					add(r)
				}
			}
		}
	}
	// equality with distinct constants; lt/eq interplay
	seenPair := map[[2]*Term]bool{}
	for x, list := range byArg {
		for i := 0; i < len(list); i++ {
			for j := 0; j < len(list); j++ {
				if i == j {
					continue
				}
				a, b := list[i], list[j]
				if a.id > b.id || seenPair[[2]*Term{a, b}] {
					continue
				}
				if a.Op == "eq" && b.Op == "eq" {
					oa, ob := other(a, x), other(b, x)
					if isConstT(oa) && isConstT(ob) && oa != ob {
						add(Not(And(AtomVar(a), AtomVar(b))))
					}
					if e, ok := eqs[[2]*Term{oa, ob}]; ok {
						va, vb, vc := AtomVar(a), AtomVar(b), AtomVar(e)
						add(Implies(And(va, vb), vc))
						add(Implies(And(va, vc), vb))
						add(Implies(And(vb, vc), va))
					}
				}
			}
		}
		// constant ordering on x
		for _, a := range list {
			for _, b := range list {
				if a == b {
					continue
				}
				// x < c1, x < c2
				if a.Op == "lt" && b.Op == "lt" && a.Args[0] == x && b.Args[0] == x && a.Args[1].Op == "int" && b.Args[1].Op == "int" {
					if a.Args[1].Big.Cmp(b.Args[1].Big) <= 0 {
						add(Implies(AtomVar(a), AtomVar(b)))
					}
					// c <= x < c+1
					if e, ok := eqs[[2]*Term{x, b.Args[1]}]; ok && Sub(a.Args[1], b.Args[1]) == mkI(1) {
						add(Implies(And(AtomVar(a), Not(AtomVar(b))), AtomVar(e)))
					}
				}
				if a.Op == "lt" && b.Op == "eq" && a.Args[0] == x && a.Args[1].Op == "int" {
					o := other(b, x)
					if o.Op == "int" {
						if o.Big.Cmp(a.Args[1].Big) < 0 {
							add(Implies(AtomVar(b), AtomVar(a)))
						} else {
							add(Not(And(AtomVar(a), AtomVar(b))))
						}
					}
				}
				// transitivity: a<b, b<c  => a<c when present
				for _, ab := range [][2]*Term{{a, b}, {b, a}} {
					a, b := ab[0], ab[1]
					if a.Op == "lt" && b.Op == "lt" && a.Args[1] == x && b.Args[0] == x {
						if c, ok := lts[[2]*Term{a.Args[0], b.Args[1]}]; ok {
							add(Implies(And(AtomVar(a), AtomVar(b)), AtomVar(c)))
						}
					}
					// i < x and x == c  => i < c
					if a.Op == "lt" && b.Op == "eq" && a.Args[1] == x {
						o := b.Args[0]
						if o == x {
							o = b.Args[1]
						}
						if c, ok := lts[[2]*Term{a.Args[0], o}]; ok {
							add(Implies(And(AtomVar(a), AtomVar(b)), AtomVar(c)))
						}
					}
				}
			}
		}
	}
	// unsigned subtractions that do not wrap may be done in any order: m >= x and m-x >= y  =>  m >= y and m-y >= x
	for k, a := range lts {
		if k[0].Op != "lin" || !isUnsigned(k[1]) {
			continue
		}
		for x, c := range toLin(k[0]).m {
			if c != -1 || !isUnsigned(x) {
				continue
			}
			m := Add(k[0], x)
			if b, ok := lts[[2]*Term{m, x}]; ok && x != k[1] {
				add(OrAll(AtomVar(b), AtomVar(a), And(Not(LtB(m, k[1])), Not(LtB(Sub(m, k[1]), x)))))
			}
		}
	}
	for k, a := range lts {
		va := AtomVar(a)
		if b, ok := lts[[2]*Term{k[1], k[0]}]; ok && a.id < b.id {
			add(Not(And(va, AtomVar(b))))
			if e, ok := eqs[k]; ok {
				add(OrAll(va, AtomVar(b), AtomVar(e)))
			}
		}
		if e, ok := eqs[k]; ok {
			add(Not(And(va, AtomVar(e))))
		}
		// integers: !(x < y) with equal offsets: lt(x, y+1) == !lt(y, x)
		if y := k[1]; y.Op == "lin" {
			y1 := Sub(y, mkI(1))
			if b, ok := lts[[2]*Term{y1, k[0]}]; ok {
				add(Xnor(va, Not(AtomVar(b))))
			}
		}
	}
	return r
}

func other(e, x *Term) *Term {
	if e.Args[0] == x {
		return e.Args[1]
	}
	return e.Args[0]
}

func isConstT(t *Term) bool {
	switch t.Op {
	case "int", "str", "nil", "float":
		return true
	}
	return false
}

var typeCodes = map[string]*Term{}

// TypeCode returns the constant that the Type() (or PayloadType()) method of a concrete type yields.
func (p *Program) TypeCode(t types.Type, method string) *Term {
	k := method + "|" + t.String()
	if c, ok := typeCodes[k]; ok {
		return c
	}
	c := p.typeCode(t, method)
	typeCodes[k] = c
	return c
}

func (p *Program) typeCode(t types.Type, method string) *Term {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == method {
			fn := p.SSA.MethodValue(ms.At(i))
			if fn == nil || fn.Blocks == nil || len(fn.Signature.String()) == 0 || fn.Signature.Params().Len() != 0 {
				return nil
			}
			e := NewEval(p)
			o := e.Run(fn, nil, nil, True)
			v := o.Result(0)
			if len(v) == 1 && v[0].T.Op == "int" {
				return v[0].T
			}
			return nil
		}
	}
	return nil
}

// Witness makes the Skolem element of an exists atom.
func witness(ex *Term) (el, ix, ky *Term) {
	dom := ex.Args[0]
	id := itoa(ex.id)
	var et types.Type
	if e0 := mkT("elem", ex.Sym, dom); e0.Typ != nil {
		et = e0.Typ
	}
	return mkTyped(et, "wit", id, dom), mkTyped(types.Typ[types.Uint64], "witidx", id, dom), mkT("witkey", id, dom)
}

func instantiate(ex *Term, el, ix, ky *Term) B {
	dom := ex.Args[0]
	s := NewSubst(map[*Term]*Term{
		mkT("elem", ex.Sym, dom): el,
		mkT("idx", ex.Sym, dom):  ix,
		mkT("key", ex.Sym, dom):  ky,
	})
	return s.BDD(ex.B)
}

// Sat decides whether f is satisfiable modulo the background facts and returns a model cube.
//
// Background facts are kept as separate small lemmas; a candidate cube of f is checked against them by unit
// propagation, and only the lemmas that refute it are conjoined to f.
func Sat(p *Program, f B) (bool, []*Term, []*Term) {
	if f == False {
		return false, nil, nil
	}
	var lemmas []B
	have := map[B]bool{}
	addLemma := func(b B) bool {
		if b == True || have[b] {
			return false
		}
		have[b] = true
		lemmas = append(lemmas, b)
		return true
	}
	known := map[*Term]bool{}
	var all []*Term
	grow := func(b B) {
		ch := false
		for _, a := range Support(b) {
			if !known[a] {
				known[a] = true
				all = append(all, a)
				ch = true
			}
		}
		for ch {
			ch = false
			for _, l := range Axioms(p, all) {
				if addLemma(l) {
					for _, a := range Support(l) {
						if !known[a] {
							known[a] = true
							all = append(all, a)
							ch = true
						}
					}
				}
			}
		}
	}
	grow(f)
	type inst struct{ s, w *Term }
	didInst := map[inst]bool{}
	wits := map[*Term][3]*Term{}
	var witOrder []*Term
	for iter := 0; iter < 4000; iter++ {
		if f == False {
			return false, nil, nil
		}
		pos, neg, _ := AnySat(f)
		as := map[int32]bool{}
		why := map[int32]int{}
		for _, t := range pos {
			as[atomIdx[t]] = true
			why[atomIdx[t]] = -1
		}
		for _, t := range neg {
			as[atomIdx[t]] = false
			why[atomIdx[t]] = -1
		}
		core := propagate(lemmas, as, why)
		if core != nil {
			c := True
			for _, i := range core {
				c = And(c, lemmas[i])
			}
			g := And(f, c)
			if g == f {
				// the cube is refuted but the lemmas do not change f: block the literals involved
				g = f
				cl := False
				for _, t := range pos {
					cl = Or(cl, Not(AtomVar(t)))
				}
				for _, t := range neg {
					cl = Or(cl, AtomVar(t))
				}
				g = And(f, cl)
			}
			f = g
			continue
		}
		grew := false
		// witnesses for existential atoms that hold in this cube
		for v, val := range as {
			if !val {
				continue
			}
			x := atoms[v]
			if x.Op != "exists" || len(wits) > 80 {
				continue
			}
			if _, ok := wits[x]; ok {
				continue
			}
			el, ix, ky := witness(x)
			wits[x] = [3]*Term{el, ix, ky}
			witOrder = append(witOrder, x)
			l := Implies(AtomVar(x), And(instantiate(x, el, ix, ky), existsAtom(x.Args[0], x.Sym, True)))
			if addLemma(l) {
				grew = true
				grow(l)
			}
		}
		// instantiate the other quantified facts at the witnesses and at looked-up keys
		for _, s := range append([]*Term{}, all...) {
			if s.Op != "exists" {
				continue
			}
			if as[atomIdx[s]] { // open atoms count as false
				continue
			}
			for _, wx := range witOrder {
				if wx == s || wx.Args[0] != s.Args[0] || didInst[inst{s, wx}] {
					continue
				}
				didInst[inst{s, wx}] = true
				w := wits[wx]
				l := Implies(And(AtomVar(wx), instantiate(s, w[0], w[1], w[2])), AtomVar(s))
				if addLemma(l) {
					grew = true
					grow(l)
				}
			}
			for _, a := range append([]*Term{}, all...) {
				for _, t := range firstTerms(a) {
					if unrev(t.Args[0]) != s.Args[0] || didInst[inst{s, t}] {
						continue
					}
					didInst[inst{s, t}] = true
					var v [3]*Term
					for i, op := range []string{"elem", "idx", "key"} {
						v[i] = mkGuarded("first"+op, t.Sym, t.B, mkT(op, t.Sym, t.Args[0]).Typ, t.Args[0])
					}
					if t.Args[0] != s.Args[0] { // found walking backwards
						v[1] = Sub(Sub(mkLen(s.Args[0]), mkI(1)), v[1])
					}
					l := Implies(And(existsRaw(t.Args[0], t.Sym, t.B), instantiate(s, v[0], v[1], v[2])), AtomVar(s))
					if addLemma(l) {
						grew = true
						grow(l)
					}
				}
			}
			for _, a := range append([]*Term{}, all...) {
				for _, t := range freeElems(a) { // the element a loop is at
					if unrev(t.Args[0]) != s.Args[0] || didInst[inst{s, t}] {
						continue
					}
					var v [3]*Term
					for i, op := range []string{"elem", "idx", "key"} {
						v[i] = mkT(op, t.Sym, t.Args[0])
						didInst[inst{s, v[i]}] = true
					}
					if t.Args[0] != s.Args[0] { // walking backwards
						v[1] = Sub(Sub(mkLen(s.Args[0]), mkI(1)), v[1])
					}
					l := Implies(instantiate(s, v[0], v[1], v[2]), AtomVar(s))
					if addLemma(l) {
						grew = true
						grow(l)
					}
				}
			}
			for _, a := range append([]*Term{}, all...) {
				if a.Op != "has" || a.Args[0] != s.Args[0] || didInst[inst{s, a}] {
					continue
				}
				if val, ok := as[atomIdx[a]]; !ok || !val {
					continue
				}
				didInst[inst{s, a}] = true
				el := mkLookup(a.Args[0], a.Args[1], elemTypeOfMap(a.Args[0]))
				l := Implies(And(AtomVar(a), instantiate(s, el, mkT("noidx", ""), a.Args[1])), AtomVar(s))
				if addLemma(l) {
					grew = true
					grow(l)
				}
			}
		}
		if !grew {
			// lemmas the cube leaves open: complete it with false and conjoin those that fail then
			g := f
			for _, l := range lemmas {
				if r := assign(l, as); r > True {
					for r > True {
						r = nodes[r].lo
					}
					if r == False {
						g = And(g, l)
					}
				}
			}
			if g != f {
				f = g
				continue
			}
			pos, neg = pos[:0:0], neg[:0:0]
			for v, val := range as {
				if val {
					pos = append(pos, atoms[v])
				} else {
					neg = append(neg, atoms[v])
				}
			}
			return true, pos, neg
		}
	}
	panic("query: refinement limit exceeded")
}

// propagate extends a partial assignment by unit propagation over the lemmas; on conflict it returns the lemmas used.
func propagate(lemmas []B, as map[int32]bool, why map[int32]int) []int {
	used := func(i int) []int {
		seen := map[int]bool{}
		var out []int
		var rec func(i int)
		rec = func(i int) {
			if i < 0 || seen[i] {
				return
			}
			seen[i] = true
			out = append(out, i)
			for _, t := range Support(lemmas[i]) {
				if r, ok := why[atomIdx[t]]; ok {
					rec(r)
				}
			}
		}
		rec(i)
		return out
	}
	doneL := make([]bool, len(lemmas))
	for changed := true; changed; {
		changed = false
		for i, l := range lemmas {
			if doneL[i] {
				continue
			}
			r := assign(l, as)
			switch {
			case r == True:
				doneL[i] = true
			case r == False:
				return used(i)
			default:
				// implied literals
				for n := nodes[r]; ; {
					if n.lo == False {
						if _, ok := as[n.v]; !ok {
							as[n.v] = true
							why[n.v] = i
							changed = true
						}
						if n.hi <= True {
							break
						}
						n = nodes[n.hi]
					} else if n.hi == False {
						if _, ok := as[n.v]; !ok {
							as[n.v] = false
							why[n.v] = i
							changed = true
						}
						if n.lo <= True {
							break
						}
						n = nodes[n.lo]
					} else {
						break
					}
				}
			}
		}
	}
	return nil
}

// assign restricts f by a partial assignment.
func assign(f B, as map[int32]bool) B {
	memo := map[B]B{}
	var rec func(f B) B
	rec = func(f B) B {
		if f <= True {
			return f
		}
		if r, ok := memo[f]; ok {
			return r
		}
		n := nodes[f]
		var r B
		if v, ok := as[n.v]; ok {
			if v {
				r = rec(n.hi)
			} else {
				r = rec(n.lo)
			}
		} else {
			r = mk(n.v, rec(n.lo), rec(n.hi))
		}
		memo[f] = r
		return r
	}
	return rec(f)
}

func elemTypeOfMap(m *Term) types.Type {
	if m.Typ != nil {
		return elemType(m.Typ)
	}
	return nil
}

// Entails checks a => b modulo background facts.
func Entails(p *Program, a, b B) (bool, []*Term, []*Term) {
	sat, pos, neg := Sat(p, And(a, Not(b)))
	return !sat, pos, neg
}

var _ = big.NewInt

// Unbox lists the guarded alternatives of a term.
func Unbox(t *Term) GVal { return unbox(t) }

// SymTerm is a fresh symbol.
func SymTerm(name string) *Term { return mkT("sym", name) }

// memberParts: has(pre?(mapfill(dom, key | g)), k) and pre(exists(dom: g)); the binder, its domain and what else must agree.
func memberParts(a *Term) (m, dom *Term, rest string) {
	switch a.Op {
	case "has":
		m = a.Args[0]
		if m.Op == "pre" {
			m = m.Args[0]
		}
		if m.Op == "mapfill" && m.Args[0].Op == "makemap" {
			return m, m.Args[1], fmt.Sprint(m.Sym, m.Args[2].id, ":", m.Args[3].id, ":", a.Args[1].id)
		}
	case "true":
		if p := a.Args[0]; p.Op == "pre" && p.Args[0].Op == "bool" {
			if s := Support(p.Args[0].B); len(s) == 1 && s[0].Op == "exists" && p.Args[0].B == AtomVar(s[0]) {
				return s[0], s[0].Args[0], s[0].Sym
			}
		}
	}
	return nil, nil, ""
}

var firstMemo = map[*Term][]*Term{}

// firstTerms lists the first-element terms inside an atom, one per loop exit.
// freeElems: the current elements of loops an atom mentions outside of quantified parts.
func freeElems(t *Term) []*Term {
	if r, ok := freeMemo[t]; ok {
		return r
	}
	freeMemo[t] = nil
	var r []*Term
	switch {
	case (t.Op == "elem" || t.Op == "idx" || t.Op == "key") && len(t.Args) == 1:
		r = append(r, t)
	case t.B > True: // binds the elements of its domain
	default:
		for _, a := range t.Args {
			r = append(r, freeElems(a)...)
		}
		for _, e := range t.GV {
			r = append(r, freeElems(e.T)...)
		}
	}
	if len(r) > 6 {
		r = r[:6]
	}
	freeMemo[t] = r
	return r
}

var freeMemo = map[*Term][]*Term{}

func firstTerms(t *Term) []*Term {
	if r, ok := firstMemo[t]; ok {
		return r
	}
	firstMemo[t] = nil
	var r []*Term
	if strings.HasPrefix(t.Op, "first") {
		r = append(r, t)
	}
	for _, a := range t.Args {
		r = append(r, firstTerms(a)...)
	}
	for _, e := range t.GV {
		r = append(r, firstTerms(e.T)...)
	}
	if len(r) > 6 {
		r = r[:6]
	}
	firstMemo[t] = r
	return r
}
