package engine

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- lifting

func map1(v GVal, f func(*Term) *Term) GVal {
	if len(v) == 1 && v[0].T.Op != "gv" {
		return GVal{{True, f(v[0].T)}}.flat()
	}
	v = normGV(v)
	out := make(GVal, 0, len(v))
	for _, e := range v {
		out = append(out, GE{e.G, f(e.T)})
	}
	return normGV(out)
}

func (v GVal) flat() GVal {
	if len(v) == 1 && v[0].T.Op == "gv" {
		return v[0].T.GV
	}
	return v
}

const maxAlts = 24

func map2(a, b GVal, f func(x, y *Term) *Term) GVal {
	a, b = normGV(a), normGV(b)
	if len(a)*len(b) > maxAlts*4 {
		return gv1(f(opaqueBox(a), opaqueBox(b)))
	}
	var out GVal
	for _, x := range a {
		for _, y := range b {
			if g := And(x.G, y.G); g != False {
				out = append(out, GE{g, f(x.T, y.T)})
			}
		}
	}
	return normGV(out)
}

// opaqueBox hides alternatives behind a term no operation looks into.
func opaqueBox(v GVal) *Term {
	if len(v) == 1 {
		return v[0].T
	}
	return mkT("phi", "", boxGV(v))
}

func capGV(v GVal) GVal {
	if len(v) > maxAlts { // one alternative for all errors
		var out GVal
		g := False
		for _, e := range v {
			if e.T.Op == "err" || e.T.Op == "sentinel" || e.T.Op == "global" && nonNil(e.T) {
				g = Or(g, e.G)
			} else {
				out = append(out, e)
			}
		}
		if g != False {
			v = append(out, GE{g, mkT("err", "one of several")})
		}
	}
	if len(v) > 2*maxAlts {
		return gv1(opaqueBox(v))
	}
	return v
}

func truth(v GVal) B {
	r := False
	for _, e := range v {
		r = Or(r, And(e.G, TruthB(e.T)))
	}
	return r
}

func predB(v GVal, f func(*Term) B) B {
	r := False
	for _, e := range v {
		if e.T.Op == "gv" {
			r = Or(r, And(e.G, predB(e.T.GV, f)))
			continue
		}
		r = Or(r, And(e.G, f(e.T)))
	}
	return r
}

func pred2(a, b GVal, f func(x, y *Term) B) B {
	r := False
	for _, x := range a {
		for _, y := range b {
			if g := And(x.G, y.G); g != False {
				r = Or(r, And(g, f(x.T, y.T)))
			}
		}
	}
	return r
}

// ---------------------------------------------------------------- constructors

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return MkBool(False)
		case u.Info()&types.IsInteger != 0:
			return mkI(0)
		case u.Info()&types.IsString != 0:
			return mkT("str", `""`)
		case u.Info()&types.IsFloat != 0:
			return mkT("float", "0")
		}
		return NilT
	case *types.Array: // one zero per shape, whatever the name of the type
		return mkTyped(t, "zero", typeName(u))
	case *types.Struct:
		return mkTyped(t, "zero", typeName(t))
	case *types.Tuple:
		return mkTyped(t, "zero", typeName(t))
	}
	return NilT
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	u := t.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	s, _ := u.(*types.Struct)
	return s
}

// project reads field f from struct value t.
func project(t *Term, f string, ft types.Type) *Term {
	switch t.Op {
	case "gv":
		return boxGV(map1(t.GV, func(x *Term) *Term { return project(x, f, ft) }))
	case "zero":
		if ft == nil {
			if s := structOf(t.Typ); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == f {
						ft = s.Field(i).Type()
					}
				}
			}
			if ft == nil {
				return mkT("field", f, t)
			}
		}
		return zeroOf(ft)
	case "iface":
		return project(t.Args[0], f, ft)
	case "struct":
		if s := structOf(t.Typ); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == f && i < len(t.Args) {
					return t.Args[i]
				}
			}
		}
	case "&struct":
		return project(t.Args[0], f, ft)
	}
	if FieldDef != nil {
		if v := FieldDef(f, t); v != nil {
			return v
		}
	}
	return mkTyped(ft, "field", f, t)
}

// FieldDef gives fields whose value is known from an invariant of their owner.
var FieldDef func(f string, owner *Term) *Term

func mkIndex(x, i *Term, typ types.Type) *Term {
	if x.Op == "gv" {
		return boxGV(map1(x.GV, func(a *Term) *Term { return mkIndex(a, i, typ) }))
	}
	if i.Op == "gv" {
		return boxGV(map1(i.GV, func(a *Term) *Term { return mkIndex(x, a, typ) }))
	}
	if dom, val := mapped(x); dom != nil {
		s := map[*Term]*Term{mkT("idx", x.Sym, dom): i}
		if i.Op == "idx" && i.Args[0] == dom {
			for f, t := range map[string]string{"elem": "elem", "key": "key"} {
				o := mkT(f, x.Sym, dom)
				s[o] = mkTyped(o.Typ, t, i.Sym, dom)
			}
			return NewSubst(s).T(val)
		}
		if dom.Typ != nil {
			if _, isMap := dom.Typ.Underlying().(*types.Map); !isMap {
				o := mkT("elem", x.Sym, dom)
				s[o] = mkIndex(dom, i, o.Typ)
				return NewSubst(s).T(val)
			}
		}
	}
	if i.Op == "idx" && i.Args[0] == x {
		return mkTyped(typ, "elem", i.Sym, x)
	}
	if r := backIdx(x, i); r != nil {
		return mkTyped(typ, "elem", r.Sym, r.Args[0])
	}
	if i.Op == "int" && i.Big.IsInt64() {
		n := i.Big.Int64()
		switch x.Op {
		case "list":
			if n >= 0 && n < int64(len(x.Args)) {
				return x.Args[n]
			}
		case "upd":
			if x.Args[1] == i {
				return x.Args[2]
			}
			if x.Args[1].Op == "int" {
				return mkIndex(x.Args[0], i, typ)
			}
		case "fit":
			in := LtB(i, mkLen(x.Args[0]))
			return boxGV(normGV(GVal{{in, mkIndex(x.Args[0], i, typ)}, {Not(in), mkI(0)}}))
		case "zero":
			if typ == nil {
				typ = elemType(x.Typ)
			}
			return zeroOf(typ)
		}
	}
	if i.Op == "idx" && x.Op == "list" && i.Args[0] == x {
		return mkTyped(typ, "elem", i.Sym, x)
	}
	return mkTyped(typ, "index", "", x, i)
}

// backIdx recognises len(x)-1-i for a position i of a walk over x from its end.
func backIdx(x, i *Term) *Term {
	for _, a := range i.Args {
		if a.Op == "idx" && a.Args[0].Op == "rev" && a.Args[0].Args[0] == x && Sub(Sub(mkLen(x), mkI(1)), a) == i {
			return a
		}
	}
	return nil
}

func mkLookup(m, k *Term, typ types.Type) *Term {
	if m.Op == "gv" || k.Op == "gv" {
		return boxGV(map2(unbox(m), unbox(k), func(a, b *Term) *Term { return mkLookup(a, b, typ) }))
	}
	switch m.Op {
	case "nil", "zero", "makemap":
		return zeroOf(typ)
	case "mapset":
		e := EqB(m.Args[1], k)
		if e == True {
			return m.Args[2]
		}
		rest := mkLookup(m.Args[0], k, typ)
		if e == False {
			return rest
		}
		return boxGV(GVal{{e, m.Args[2]}, {Not(e), rest}})
	}
	if k.Op == "key" && k.Args[0] == m {
		return mkTyped(typ, "elem", k.Sym, m)
	}
	return mkTyped(typ, "lookup", "", m, k)
}

// lookupV is the value of m[k] incl. the zero value for absent keys.
func lookupV(m, k *Term, typ types.Type) GVal {
	if m.Op == "gv" || k.Op == "gv" {
		return map2(unbox(m), unbox(k), func(a, b *Term) *Term { return boxGV(lookupV(a, b, typ)) })
	}
	h := HasB(m, k)
	v := mkLookup(m, k, typ)
	z := zeroOf(typ)
	if z == NilT { // eq(lookup,nil) is canonicalised to !has
		return unbox(v)
	}
	if h == True {
		return unbox(v)
	}
	return normGV(GVal{{h, v}, {Not(h), z}})
}

func mkLen(x *Term) *Term {
	switch x.Op {
	case "gv":
		return boxGV(map1(x.GV, mkLen))
	case "nil", "makemap":
		return mkI(0)
	case "list":
		return mkI(int64(len(x.Args)))
	case "mapset": // entries under keys that differ
		n := int64(0)
		var keys []*Term
		b := x
		if x.Args[0].Op == "gv" {
			return boxGV(map1(x.Args[0].GV, func(a *Term) *Term { return mkLen(mkTyped(x.Typ, "mapset", "", a, x.Args[1], x.Args[2])) }))
		}
		for ; b.Op == "mapset"; b = b.Args[0] {
			dup := false
			for _, k := range keys {
				switch EqB(k, b.Args[1]) {
				case True:
					dup = true
				case False:
				default:
					return mkT("len", "", x)
				}
			}
			if !dup {
				n++
				keys = append(keys, b.Args[1])
			}
		}
		if b.Op == "makemap" || b.Op == "nil" {
			return mkI(n)
		}
	case "str":
		if s, err := strconv.Unquote(x.Sym); err == nil {
			return mkI(int64(len(s)))
		}
	case "makeslice":
		return x.Args[0]
	case "rev":
		return mkLen(x.Args[0])
	case "collect":
		if dom, _ := mapped(x); dom != nil {
			return mkLen(dom)
		}
	case "zeros", "fit":
		n, _ := new(big.Int).SetString(x.Sym, 10)
		return MkInt(n)
	case "le":
		n, _ := new(big.Int).SetString(x.Sym, 10)
		return MkInt(n.Rsh(n, 3))
	case "cat":
		n := mkI(0)
		for _, a := range x.Args {
			n = Add(n, mkLen(a))
		}
		return n
	case "subof":
		return Sub(x.Args[2], x.Args[1])
	case "iface":
		return mkLen(x.Args[0])
	case "append":
		if x.Args[1].Op == "list" {
			return Add(mkLen(x.Args[0]), mkI(int64(len(x.Args[1].Args))))
		}
		return Add(mkLen(x.Args[0]), mkLen(x.Args[1]))
	case "slice":
		// slice(x, lo, hi)
		if x.Args[2].Op != "none" {
			return Sub(x.Args[2], x.Args[1])
		}
		return Sub(mkLen(x.Args[0]), x.Args[1])
	case "sliceof":
		if x.Args[0].Typ != nil {
			if a, ok := x.Args[0].Typ.Underlying().(*types.Pointer); ok {
				if at, ok := a.Elem().Underlying().(*types.Array); ok {
					return mkI(at.Len())
				}
			}
		}
	}
	if x.Typ != nil {
		u := x.Typ.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			u = p.Elem().Underlying()
		}
		if a, ok := u.(*types.Array); ok {
			return mkI(a.Len())
		}
	}
	return mkTyped(types.Typ[types.Int], "len", "", x)
}

func mkConst(v constant.Value, t types.Type) *Term {
	if v == nil {
		return zeroOf(t)
	}
	switch v.Kind() {
	case constant.Bool:
		if constant.BoolVal(v) {
			return MkBool(True)
		}
		return MkBool(False)
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return mkT("float", v.ExactString())
		}
		bi, _ := new(big.Int).SetString(v.ExactString(), 10)
		return MkInt(bi)
	case constant.String:
		return mkT("str", strconv.Quote(constant.StringVal(v)))
	}
	return mkT("float", v.ExactString())
}

func intSize(t types.Type) (bits int, signed, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	signed = b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, signed, true
	case types.Int16, types.Uint16:
		return 16, signed, true
	case types.Int32, types.Uint32:
		return 32, signed, true
	}
	return 64, signed, true
}

func convert(x *Term, from, to types.Type) *Term {
	if x.Op == "gv" {
		return boxGV(map1(x.GV, func(a *Term) *Term { return convert(a, from, to) }))
	}
	fb, fs, ok1 := intSize(from)
	tb, ts, ok2 := intSize(to)
	if ok1 && ok2 {
		if x.Op == "int" {
			m := new(big.Int).Lsh(big.NewInt(1), uint(tb))
			v := new(big.Int).Mod(x.Big, m)
			if ts && v.Bit(tb-1) == 1 {
				v.Sub(v, m)
			}
			return MkInt(v)
		}
		if tb < fb {
			if x.Op == "idx" {
				return x // indexes are bounded by the domain, whose size is checked elsewhere
			}
			if x.Op == "len" && tb >= 32 {
				return x // nothing in memory is that long
			}
			return mkTyped(to, fmt.Sprintf("trunc%d", tb), "", x)
		}
		if fs != ts && x.Op == "lin" {
			return mkTyped(to, "wrap", "", x)
		}
		if fs && !ts && x.Typ == nil {
			x.Typ = to
		}
		return x
	}
	ff := isFloatT(from)
	tf := isFloatT(to)
	if ff != tf {
		if x.Op == "int" && tf {
			return mkT("float", x.Sym)
		}
		return mkTyped(to, "conv", typeName(to), x)
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if ok1 {
			return mkTyped(to, "conv", "string", x)
		}
	}
	return x // string <-> []byte etc.
}

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// mentions reports whether t contains any of the terms in set.
func mentions(t *Term, set map[*Term]bool, memo map[*Term]bool) bool {
	if set[t] {
		return true
	}
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = false
	r := false
	if bound(t, func(v *Term) bool { return set[v] }) {
		for _, a := range t.Args[:binderDom(t.Op)+1] {
			r = r || mentions(a, set, memo)
		}
		memo[t] = r
		return r
	}
	for _, a := range t.Args {
		if mentions(a, set, memo) {
			r = true
			break
		}
	}
	if !r && (t.Op == "bool" || t.B > True) {
		r = bMentions(t.B, set, memo)
	}
	if !r {
		for _, e := range t.GV {
			if mentions(e.T, set, memo) || bMentions(e.G, set, memo) {
				r = true
				break
			}
		}
	}
	memo[t] = r
	return r
}

func bMentions(b B, set, memo map[*Term]bool) bool {
	for _, a := range Support(b) {
		if mentions(a, set, memo) {
			return true
		}
	}
	return false
}

// Subst rebuilds terms under a replacement map.
type Subst struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
	bm   map[B]B
}

func NewSubst(m map[*Term]*Term) *Subst {
	return &Subst{m: m, memo: map[*Term]*Term{}, bm: map[B]B{}}
}

func (s *Subst) BDD(b B) B {
	if b <= True {
		return b
	}
	if r, ok := s.bm[b]; ok {
		return r
	}
	r := mapAtoms(b, func(a *Term) B { return s.atom(a) })
	s.bm[b] = r
	return r
}

func (s *Subst) atom(a *Term) B {
	switch a.Op {
	case "eq":
		return EqB(s.T(a.Args[0]), s.T(a.Args[1]))
	case "lt":
		return LtB(s.T(a.Args[0]), s.T(a.Args[1]))
	case "has":
		return HasB(s.T(a.Args[0]), s.T(a.Args[1]))
	case "true":
		return TruthB(s.T(a.Args[0]))
	case "is":
		return IsB(s.T(a.Args[0]), a.Typ)
	case "exists":
		return existsRaw(s.T(a.Args[0]), a.Sym, s.under(a).BDD(a.B))
	}
	changed := false
	args := make([]*Term, len(a.Args))
	for i, x := range a.Args {
		args[i] = s.T(x)
		changed = changed || args[i] != x
	}
	if !changed {
		return AtomVar(a)
	}
	n := mkT(a.Op, a.Sym, args...)
	if n.Typ == nil {
		n.Typ = a.Typ
	}
	return AtomVar(n)
}

// under is the substitution inside a binding term: its own variables are not replaced.
func (s *Subst) under(t *Term) *Subst {
	if !bound(t, func(v *Term) bool { _, ok := s.m[v]; return ok }) {
		return s
	}
	own := domVars(t.Args[binderDom(t.Op)], t.Sym)
	m := map[*Term]*Term{}
	for k, v := range s.m {
		if !own[k] {
			m[k] = v
		}
	}
	return NewSubst(m)
}

func (s *Subst) GV(v GVal) GVal {
	out := make(GVal, 0, len(v))
	for _, e := range v {
		out = append(out, GE{s.BDD(e.G), s.T(e.T)})
	}
	return normGV(out)
}

func (s *Subst) T(t *Term) *Term {
	if r, ok := s.m[t]; ok {
		return r
	}
	if len(t.Args) == 0 && t.B <= True && t.GV == nil {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	r := s.rebuild(t)
	s.memo[t] = r
	return r
}

func (s *Subst) rebuild(t *Term) *Term {
	switch t.Op {
	case "bool":
		return MkBool(s.BDD(t.B))
	case "gv":
		return boxGV(s.GV(t.GV))
	case "exists":
		return MkBool(s.atom(t))
	}
	changed := false
	args := make([]*Term, len(t.Args))
	in, d := s.under(t), binderDom(t.Op)
	for i, x := range t.Args {
		if i > d {
			args[i] = in.T(x)
		} else {
			args[i] = s.T(x)
		}
		changed = changed || args[i] != x
	}
	nb := t.B
	if t.B > True {
		nb = in.BDD(t.B)
		changed = changed || nb != t.B
	}
	if !changed {
		return t
	}
	switch t.Op {
	case "eq", "lt", "has", "true", "is":
		return MkBool(s.atom(t))
	case "lin":
		r := lin{map[*Term]int64{}, new(big.Int).Set(t.Big)}
		for i, a := range args {
			if a.Op == "gv" {
				a = opaqueBox(a.GV)
			}
			r = r.add(toLin(a), t.Coef[i])
		}
		return r.term()
	case "*":
		return Mul(args[0], args[1])
	case "field":
		return project(args[0], t.Sym, t.Typ)
	case "index":
		return mkIndex(args[0], args[1], t.Typ)
	case "lookup":
		return mkLookup(args[0], args[1], t.Typ)
	case "len":
		return mkLen(args[0])
	case "sum", "mapfill", "mapsum", "collect", "fold", "last", "firstelem", "firstidx", "firstkey":
		return mkGuarded(t.Op, t.Sym, nb, t.Typ, args...)
	case "elem", "key", "idx":
		if args[0].Op == "gv" {
			return boxGV(map1(args[0].GV, func(x *Term) *Term { return mkTyped(t.Typ, t.Op, t.Sym, x) }))
		}
	case "deref":
		return boxGV(map1(unbox(args[0]), func(x *Term) *Term { return mkDeref(x, t.Typ) }))
	case "call", "res":
		k := 1
		for i, a := range args {
			if a.Op == "gv" && t.Args[i].Op != "gv" {
				k *= len(a.GV)
			}
		}
		if k > 1 && k <= 16 { // alternatives that arose in an argument become alternatives of the result
			var out GVal
			var rec func(i int, g B, as []*Term)
			rec = func(i int, g B, as []*Term) {
				if g == False {
					return
				}
				if i == len(args) {
					n := mkT(t.Op, t.Sym, as...)
					if n.Typ == nil {
						n.Typ = t.Typ
					}
					out = append(out, GE{g, n})
					return
				}
				if args[i].Op == "gv" && t.Args[i].Op != "gv" {
					for _, x := range args[i].GV {
						rec(i+1, And(g, x.G), append(append([]*Term{}, as...), x.T))
					}
					return
				}
				rec(i+1, g, append(append([]*Term{}, as...), args[i]))
			}
			rec(0, True, nil)
			return boxGV(out)
		}
	}
	n := mkT(t.Op, t.Sym, args...)
	if n.Typ == nil {
		n.Typ = t.Typ
	}
	return n
}

// mkGuarded builds a term with a guard payload.
func mkGuarded(op, sym string, g B, typ types.Type, args ...*Term) *Term {
	if op == "collect" && args[0].Op == "nil" { // a nil slice and an empty one hold the same elements
		args = append([]*Term{mkTyped(typ, "list", "")}, args[1:]...)
	}
	g = tidyTypes(g)
	if sym != "" {
		sym, g, args = alpha(op, sym, g, args)
	}
	if g == True && identity(op, sym, args) {
		return args[1]
	}
	k := termKey(op, sym, args, fmt.Sprintf("|g%d", g))
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{id: termCnt, Op: op, Sym: sym, Args: args, B: g, Typ: typ}
	termCnt++
	termTab[k] = t
	return t
}

// rebuilt is e for a new object made of all fields of e, else t itself.
func rebuilt(t *Term) *Term {
	s := t
	if s.Op == "&struct" {
		s = s.Args[0]
	}
	if s.Op != "struct" || len(s.Args) == 0 || s.Typ == nil {
		return t
	}
	st, ok := s.Typ.Underlying().(*types.Struct)
	if !ok || st.NumFields() != len(s.Args) {
		return t
	}
	for i, a := range s.Args {
		if a.Op != "field" || a.Sym != st.Field(i).Name() || a.Args[0] != s.Args[0].Args[0] {
			return t
		}
	}
	e := s.Args[0].Args[0]
	if e.Typ == nil || !types.Identical(e.Typ, s.Typ) && !types.Identical(e.Typ, types.NewPointer(s.Typ)) {
		return t
	}
	return e
}

// identity reports whether a new container is filled with exactly what dom contains.
func identity(op, sym string, args []*Term) bool {
	if op != "collect" && op != "mapfill" {
		return false
	}
	dom, v := args[1], rebuilt(args[len(args)-1])
	if dom.Typ == nil || v.Op != "elem" || v.Sym != sym || v.Args[0] != dom {
		return false
	}
	switch dom.Typ.Underlying().(type) {
	case *types.Slice:
		return op == "collect" && args[0].Op == "list" && len(args[0].Args) == 0
	case *types.Map:
		k := args[2]
		return op == "mapfill" && args[0].Op == "makemap" && k.Op == "key" && k.Sym == sym && k.Args[0] == dom
	}
	return false
}

// binderDom is the argument holding the domain of a binding term.
func binderDom(op string) int {
	switch op {
	case "exists", "sum", "last", "firstelem", "firstidx", "firstkey":
		return 0
	case "mapfill", "mapsum", "collect", "fold":
		return 1
	}
	return -1
}

// alpha gives the bound variable the shortest tag that is free in the body.
func alpha(op, sym string, g B, args []*Term) (string, B, []*Term) {
	d := binderDom(op)
	if d < 0 || !strings.HasSuffix(sym, "'") {
		return sym, g, args
	}
	dom := args[d]
	for strings.HasSuffix(sym, "'") {
		short := sym[:len(sym)-1]
		vars, memo := domVars(dom, short), map[*Term]bool{}
		if bMentions(g, vars, memo) {
			return sym, g, args
		}
		for _, a := range args[d+1:] {
			if mentions(a, vars, memo) {
				return sym, g, args
			}
		}
		m := map[*Term]*Term{}
		for _, op := range []string{"elem", "idx", "key"} {
			from := mkT(op, sym, dom)
			m[from] = mkTyped(from.Typ, op, short, dom)
		}
		sub := NewSubst(m)
		g = sub.BDD(g)
		args = append([]*Term{}, args...)
		for i := d + 1; i < len(args); i++ {
			args[i] = sub.T(args[i])
		}
		sym = short
	}
	return sym, g, args
}

// bound tells whether t binds one of the variables.
func bound(t *Term, vars func(*Term) bool) bool {
	d := binderDom(t.Op)
	if d < 0 || d >= len(t.Args) {
		return false
	}
	for v := range domVars(t.Args[d], t.Sym) {
		if vars(v) {
			return true
		}
	}
	return false
}

// existsRaw builds exists(dom: body) factoring out what does not depend on the element.
func existsRaw(dom *Term, tag string, body B) B {
	if body == False {
		return False
	}
	if dom.Op == "gv" {
		r := False
		for _, e := range dom.GV {
			s := NewSubst(domSubst(dom, e.T, tag))
			r = Or(r, And(e.G, existsRaw(e.T, tag, s.BDD(body))))
		}
		return r
	}
	switch dom.Op {
	case "rev": // whatever the order
		return existsRaw(dom.Args[0], tag, NewSubst(forward(dom, tag)).BDD(body))
	case "nil", "makemap":
		return False
	case "list":
		if len(dom.Args) <= 16 {
			if ps, ok := domParts(dom, tag, body); ok {
				r := False
				for _, p := range ps {
					r = Or(r, p.sub.BDD(body))
				}
				return r
			}
		}
	case "append":
		if ps, ok := domParts(dom, tag, body); ok {
			r := False
			for _, p := range ps {
				b := p.sub.BDD(body)
				if p.dom != nil {
					b = existsRaw(p.dom, tag, b)
				}
				r = Or(r, b)
			}
			return r
		}
	}
	vars := domVars(dom, tag)
	memo := map[*Term]bool{}
	var inv []*Term
	for _, a := range Support(body) {
		if !mentions(a, vars, memo) && !hasLV(a) {
			inv = append(inv, a)
		}
	}
	if len(inv) > 14 {
		inv = inv[:14]
	}
	cache := map[[2]int]B{}
	var rec func(i int, b B) B
	rec = func(i int, b B) B {
		if b == False {
			return False
		}
		if i == len(inv) || b == True {
			return existsAtom(dom, tag, b)
		}
		k := [2]int{i, int(b)}
		if r, ok := cache[k]; ok {
			return r
		}
		v := atomIdx[inv[i]]
		r := Ite(AtomVar(inv[i]), rec(i+1, setVar(b, v, true)), rec(i+1, setVar(b, v, false)))
		cache[k] = r
		return r
	}
	return rec(0, body)
}

// tidyTypes drops type tests decided by other type tests: a value has one dynamic type.
func tidyTypes(g B) B {
	if g <= True {
		return g
	}
	if r, ok := tidyCache[g]; ok {
		return r
	}
	by := map[*Term][]*Term{}
	var subj []*Term
	for _, a := range Support(g) {
		if a.Op != "is" || a.Typ == nil || types.IsInterface(a.Typ) {
			continue
		}
		if by[a.Args[0]] == nil {
			subj = append(subj, a.Args[0])
		}
		by[a.Args[0]] = append(by[a.Args[0]], a)
	}
	care := True
	for _, x := range subj {
		l := by[x]
		for i := range l {
			for j := range l[:i] {
				care = And(care, Not(And(AtomVar(l[i]), AtomVar(l[j]))))
			}
		}
	}
	r := g
	if care != True {
		r = canon(g, care, nil)
	}
	tidyCache[g] = r
	return r
}

var tidyCache = map[B]B{}

func existsAtom(dom *Term, tag string, b B) B {
	if b = tidyTypes(b); b == False {
		return False
	}
	if b == True {
		switch dom.Op {
		case "upto":
			return LtB(mkI(0), dom.Args[0])
		case "from", "while":
			return AtomVar(mkT("nonempty", "", dom))
		}
		return Not(EqB(mkLen(dom), mkI(0)))
	}
	if h := existsHook; h != nil {
		return h(dom, tag, b)
	}
	return AtomVar(mkGuarded("exists", tag, b, nil, dom))
}

var existsHook func(dom *Term, tag string, b B) B

// domPart is a piece of a concatenation: a collection, or (dom == nil) a single element.
type domPart struct {
	dom *Term
	sub *Subst
}

// domParts splits a walk over a concatenation into walks over its pieces, provided that what is computed depends on the
// elements only, not on their position or on the elements before.
func domParts(dom *Term, tag string, g B, ts ...*Term) ([]domPart, bool) {
	el := mkT("elem", tag, dom)
	pos := map[*Term]bool{mkT("idx", tag, dom): true, mkT("key", tag, dom): true}
	memo := map[*Term]bool{}
	if bMentions(g, pos, memo) || bHasLV(g) {
		return nil, false
	}
	for _, t := range ts {
		if mentions(t, pos, memo) || hasLV(t) {
			return nil, false
		}
	}
	var out []domPart
	var walk func(d *Term)
	walk = func(d *Term) {
		switch d.Op {
		case "append":
			walk(d.Args[0])
			walk(d.Args[1])
		case "list":
			for _, x := range d.Args {
				out = append(out, domPart{nil, NewSubst(map[*Term]*Term{el: x})})
			}
		case "nil":
		default:
			out = append(out, domPart{d, NewSubst(map[*Term]*Term{el: mkTyped(el.Typ, "elem", tag, d)})})
		}
	}
	walk(dom)
	return out, true
}

func bHasLV(g B) bool {
	for _, a := range Support(g) {
		if hasLV(a) {
			return true
		}
	}
	return false
}

func domVars(dom *Term, tag string) map[*Term]bool {
	return map[*Term]bool{
		mkT("elem", tag, dom): true,
		mkT("idx", tag, dom):  true,
		mkT("key", tag, dom):  true,
	}
}

func domSubst(from, to *Term, tag string) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, op := range []string{"elem", "idx", "key"} {
		f := mkT(op, tag, from)
		m[f] = mkTyped(f.Typ, op, tag, to)
	}
	return m
}

func hasLV(t *Term) bool {
	if t.hasLV != 0 {
		return t.hasLV == 1
	}
	r := t.Op == "lv" || t.Op == "pre"
	if !r {
		for _, a := range t.Args {
			if hasLV(a) {
				r = true
				break
			}
		}
	}
	if !r && t.B > True {
		for _, a := range Support(t.B) {
			if hasLV(a) {
				r = true
				break
			}
		}
	}
	if !r {
		for _, e := range t.GV {
			if hasLV(e.T) {
				r = true
				break
			}
			for _, a := range Support(e.G) {
				if hasLV(a) {
					r = true
					break
				}
			}
		}
	}
	if r {
		t.hasLV = 1
	} else {
		t.hasLV = 2
	}
	return r
}

// mapped recognises a list holding exactly one value per element of a domain, in its order.
func mapped(x *Term) (dom, val *Term) {
	if x.Op != "collect" || x.B != True {
		return nil, nil
	}
	if i := x.Args[0]; i.Op != "nil" && !(i.Op == "list" && len(i.Args) == 0) {
		return nil, nil
	}
	return x.Args[1], x.Args[2]
}

// mkDeref is the content of a pointer to a pointer-like value (structs and arrays are identified with their address).
func mkDeref(p *Term, typ types.Type) *Term {
	if p.Op == "&struct" {
		return p.Args[0]
	}
	return mkTyped(typ, "deref", "", p)
}

// hasOp reports whether a term of that kind occurs in t.
func hasOp(t *Term, op string) bool { return hasOpM(t, op, map[*Term]bool{}) }

func bHasOp(g B, op string) bool {
	for _, a := range Support(g) {
		if hasOp(a, op) {
			return true
		}
	}
	return false
}

func hasOpM(t *Term, op string, memo map[*Term]bool) bool {
	if t.Op == op {
		return true
	}
	if memo[t] {
		return false
	}
	memo[t] = true
	for _, a := range t.Args {
		if hasOpM(a, op, memo) {
			return true
		}
	}
	if t.B > True {
		for _, a := range Support(t.B) {
			if hasOpM(a, op, memo) {
				return true
			}
		}
	}
	for _, e := range t.GV {
		if hasOpM(e.T, op, memo) {
			return true
		}
		for _, a := range Support(e.G) {
			if hasOpM(a, op, memo) {
				return true
			}
		}
	}
	return false
}
