package engine

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

// Scope evaluates specification expressions (Go expression syntax).
type Scope struct {
	P    *Program
	Vars map[string]*Term
	Defs map[string]string // macro name -> expression
	Fns  map[string]Macro
	Out  *Outcome // summarised function, for final(x)
	At   *Mem     // memory for now(x)
}

// Macro is a parameterised definition.
type Macro struct {
	Params []string
	Body   string
}

func (s *Scope) fail(format string, a ...any) {
	panic(SpecError(fmt.Sprintf(format, a...)))
}

// SpecError is raised for malformed or unresolvable specifications.
type SpecError string

func (s SpecError) Error() string { return string(s) }

// Bool evaluates a boolean specification.
func (s *Scope) Bool(src string) B {
	return TruthB(s.Term(src))
}

var parseCache = map[string]ast.Expr{}

// Term evaluates a specification expression.
func (s *Scope) Term(src string) *Term {
	x, ok := parseCache[src]
	if !ok {
		var err error
		x, err = parser.ParseExpr(strings.TrimSpace(src))
		if err != nil {
			s.fail("spec %q: %v", src, err)
		}
		parseCache[src] = x
	}
	return s.eval(x)
}

func (s *Scope) with(vars map[string]*Term) *Scope {
	n := &Scope{P: s.P, Vars: map[string]*Term{}, Defs: s.Defs, Fns: s.Fns, Out: s.Out, At: s.At}
	for k, v := range s.Vars {
		n.Vars[k] = v
	}
	for k, v := range vars {
		n.Vars[k] = v
	}
	return n
}

func (s *Scope) pkgOf(name string) *types.Package {
	if path := strings.ReplaceAll(name, "_", "/"); path != name { // crypto_ed25519: the package by its path
		for _, pk := range s.P.SSA.AllPackages() {
			if pk.Pkg.Path() == path {
				return pk.Pkg
			}
		}
	}
	for _, pk := range s.P.SSA.AllPackages() {
		if pk.Pkg.Name() == name && (strings.HasPrefix(pk.Pkg.Path(), RepoMod) || strings.HasPrefix(pk.Pkg.Path(), hivePrefix)) {
			return pk.Pkg
		}
	}
	for _, pk := range s.P.SSA.AllPackages() {
		if pk.Pkg.Name() == name {
			return pk.Pkg
		}
	}
	return nil
}

// pkgWith prefers a package of that name which declares the object.
func (s *Scope) pkgWith(name, obj string) *types.Package {
	pk := s.pkgOf(name)
	if pk != nil && pk.Scope().Lookup(obj) != nil {
		return pk
	}
	var best *types.Package
	for _, q := range s.P.SSA.AllPackages() {
		if q.Pkg.Name() == name && q.Pkg.Scope().Lookup(obj) != nil && (best == nil || q.Pkg.Path() < best.Path()) {
			best = q.Pkg
		}
	}
	if best != nil {
		return best
	}
	return pk
}

func (s *Scope) typ(x ast.Expr) types.Type {
	switch t := x.(type) {
	case *ast.StarExpr:
		return types.NewPointer(s.typ(t.X))
	case *ast.ParenExpr:
		return s.typ(t.X)
	case *ast.SelectorExpr:
		if id, ok := t.X.(*ast.Ident); ok {
			if pk := s.pkgOf(id.Name); pk != nil {
				if o, ok := pk.Scope().Lookup(t.Sel.Name).(*types.TypeName); ok {
					return o.Type()
				}
			}
		}
	case *ast.IndexExpr:
		if r, err := types.Instantiate(nil, s.typ(t.X), []types.Type{s.typ(t.Index)}, false); err == nil {
			return r
		}
	case *ast.Ident:
		if o, ok := types.Universe.Lookup(t.Name).(*types.TypeName); ok {
			return o.Type()
		}
	}
	s.fail("unknown type in spec")
	return nil
}

func fieldPath(t types.Type, name string) (path []*types.Var) {
	obj, index, _ := types.LookupFieldOrMethod(t, true, nil, name)
	if obj == nil {
		// unexported: search with the package of the type
		if n, ok := derefNamed(t); ok {
			obj, index, _ = types.LookupFieldOrMethod(t, true, n.Obj().Pkg(), name)
		}
	}
	v, ok := obj.(*types.Var)
	if !ok || v == nil {
		return nil
	}
	cur := t
	for _, i := range index {
		st := structOf(cur)
		if st == nil {
			return nil
		}
		path = append(path, st.Field(i))
		cur = st.Field(i).Type()
	}
	return path
}

func derefNamed(t types.Type) (*types.Named, bool) {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return n, ok
}

func (s *Scope) field(x *Term, name string) *Term {
	if x.Op == "gv" {
		return boxGV(map1(x.GV, func(t *Term) *Term { return s.field(t, name) }))
	}
	if x.Typ != nil {
		if p := fieldPath(x.Typ, name); p != nil {
			for _, v := range p {
				x = project(x, v.Name(), v.Type())
			}
			return x
		}
	}
	return project(x, name, nil)
}

// FieldAs projects a field assuming x has the given struct type.
func (s *Scope) fieldAs(x *Term, typ types.Type, name string) *Term {
	p := fieldPath(typ, name)
	if p == nil {
		s.fail("no field %s", name)
	}
	for _, v := range p {
		x = project(x, v.Name(), v.Type())
	}
	return x
}

func (s *Scope) eval(x ast.Expr) *Term {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return s.eval(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			return mkConst(constant.MakeFromLiteral(n.Value, token.INT, 0), types.Typ[types.Int])
		case token.STRING:
			v, _ := strconv.Unquote(n.Value)
			return mkT("str", strconv.Quote(v))
		}
	case *ast.Ident:
		switch n.Name {
		case "nil":
			return NilT
		case "true":
			return MkBool(True)
		case "false":
			return MkBool(False)
		case "makemap":
			return mkT("makemap", "")
		}
		if t, ok := s.Vars[n.Name]; ok {
			return t
		}
		if d, ok := s.Defs[n.Name]; ok {
			return s.Term(d)
		}
		s.fail("unknown identifier %s", n.Name)
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			_, isVar := s.Vars[id.Name]
			_, isDef := s.Defs[id.Name]
			if !isVar && !isDef {
				pk := s.pkgWith(id.Name, n.Sel.Name)
				if pk == nil {
					s.fail("unknown identifier %s.%s", id.Name, n.Sel.Name)
				}
				switch o := pk.Scope().Lookup(n.Sel.Name).(type) {
				case *types.Const:
					return mkConst(o.Val(), o.Type())
				case *types.Var:
					return s.P.globalValue(pk.Name()+"."+o.Name(), o.Type())
				default:
					s.fail("unknown %s.%s", id.Name, n.Sel.Name)
				}
			}
		}
		return s.field(s.eval(n.X), n.Sel.Name)
	case *ast.TypeAssertExpr: // x.(T) gives x viewed as T for field access
		t := s.eval(n.X)
		ty := s.typ(n.Type)
		v := mkTyped(ty, "viewas", typeName(ty), t)
		return v
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return MkBool(Not(TruthB(s.eval(n.X))))
		case token.SUB:
			return Sub(mkI(0), s.eval(n.X))
		case token.AND:
			if cl, ok := n.X.(*ast.CompositeLit); ok {
				return boxGV(map1(unbox(s.eval(cl)), func(x *Term) *Term { return mkTyped(types.NewPointer(x.Typ), "&struct", "", x) }))
			}
			if _, ok := n.X.(*ast.SelectorExpr); ok { // the address of a member
				return boxGV(map1(unbox(s.eval(n.X)), func(x *Term) *Term {
					if x.Op != "field" || x.Typ == nil {
						s.fail("not a member of an object")
					}
					return memberAddr(x)
				}))
			}
		}
	case *ast.CompositeLit:
		ty := s.typ(n.Type)
		st, ok := ty.Underlying().(*types.Struct)
		if !ok {
			s.fail("composite literal of %s", ty)
		}
		args := make([]*Term, st.NumFields())
		for i := range args {
			args[i] = zeroOf(st.Field(i).Type())
		}
		for _, el := range n.Elts {
			kv := el.(*ast.KeyValueExpr)
			k := kv.Key.(*ast.Ident).Name
			found := false
			for i := range args {
				if st.Field(i).Name() == k {
					args[i], found = s.eval(kv.Value), true
				}
			}
			if !found {
				s.fail("%s has no field %s", ty, k)
			}
		}
		return mkTyped(ty, "struct", typeName(ty), args...)
	case *ast.BinaryExpr:
		a := s.eval(n.X)
		switch n.Op {
		case token.LAND:
			return MkBool(And(TruthB(a), TruthB(s.eval(n.Y))))
		case token.LOR:
			return MkBool(Or(TruthB(a), TruthB(s.eval(n.Y))))
		}
		b := s.eval(n.Y)
		switch n.Op {
		case token.EQL:
			return MkBool(EqB(a, b))
		case token.NEQ:
			return MkBool(Not(EqB(a, b)))
		case token.LSS:
			return MkBool(LtB(a, b))
		case token.GTR:
			return MkBool(LtB(b, a))
		case token.LEQ:
			return MkBool(Not(LtB(b, a)))
		case token.GEQ:
			return MkBool(Not(LtB(a, b)))
		}
		return boxGV(map2(unbox(a), unbox(b), func(p, q *Term) *Term { return arith(n.Op, p, q, p.Typ) }))
	case *ast.IndexExpr:
		m := s.eval(n.X)
		if m.Typ != nil {
			if _, ok := m.Typ.Underlying().(*types.Map); ok {
				return mkLookup(m, s.eval(n.Index), elemType(m.Typ))
			}
		}
		return mkIndex(m, s.eval(n.Index), nil)
	case *ast.SliceExpr:
		lo, hi := mkI(0), mkT("none", "")
		if n.Low != nil {
			lo = s.eval(n.Low)
		}
		if n.High != nil {
			hi = s.eval(n.High)
		}
		return mkSlice(nil, s.eval(n.X), lo, hi)
	case *ast.CallExpr:
		return s.call(n)
	}
	s.fail("unsupported spec expression %T", x)
	return nil
}

func (s *Scope) call(n *ast.CallExpr) *Term {
	name := ""
	switch f := n.Fun.(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if _, isVar := s.Vars[id.Name]; !isVar {
				name = id.Name + "." + f.Sel.Name
			}
		}
		if name == "" { // method syntax x.M(args)
			args := []*Term{s.eval(f.X)}
			for _, a := range n.Args {
				args = append(args, s.eval(a))
			}
			return s.callTerm(f.Sel.Name, args)
		}
	}
	if m, ok := s.Fns[name]; ok {
		vars := map[string]*Term{}
		for i, p := range m.Params {
			if i >= len(n.Args) {
				s.fail("macro %s: missing argument", name)
			}
			vars[p] = s.eval(n.Args[i])
		}
		return s.with(vars).Term(m.Body)
	}
	arg := func(i int) *Term {
		if i >= len(n.Args) {
			s.fail("%s: missing argument %d", name, i)
		}
		return s.eval(n.Args[i])
	}
	switch name {
	case "final":
		return s.final(n.Args[0])
	case "now":
		if s.At == nil || s.Out == nil {
			s.fail("now: no memory")
		}
		return boxGV(map1(unbox(s.now(n.Args[0])), func(t *Term) *Term {
			if t.Typ != nil {
				if _, ok := t.Typ.Underlying().(*types.Map); ok {
					t = boxGV(s.Out.E.mapContent(s.At, t))
				}
			}
			return s.Out.E.Freeze(s.At, t, 0)
		}))
	case "len":
		return mkLen(arg(0))
	case "has":
		return MkBool(HasB(arg(0), arg(1)))
	case "at":
		m := arg(0)
		var et types.Type
		if m.Typ != nil {
			et = elemType(m.Typ)
		}
		return mkLookup(m, arg(1), et)
	case "is":
		return MkBool(IsB(arg(0), s.typ(n.Args[1])))
	case "as": // as(x, T, field)
		t := s.typ(n.Args[1])
		x := arg(0)
		f := n.Args[2].(*ast.Ident).Name
		return boxGV(map1(unbox(x), func(y *Term) *Term { return s.fieldAs(y, t, f) }))
	case "bit": // bit(x, n): bit n of x is set
		n := arg(1)
		if n.Op != "int" {
			s.fail("bit: constant number expected")
		}
		k := int(n.Big.Int64())
		return MkBool(Bits(arg(0), k+1)[k])
	case "biteq": // biteq(x, y, n): the lowest n bits agree
		return MkBool(BitsEq(arg(0), arg(1), int(arg(2).Big.Int64())))
	case "cmp": // three-way comparison
		return boxGV(map2(unbox(arg(0)), unbox(arg(1)), func(a, b *Term) *Term { return mkT("cmp", "", a, b) }))
	case "res":
		k := n.Args[1].(*ast.BasicLit).Value
		return boxGV(map1(unbox(arg(0)), func(t *Term) *Term { return s.result(t, k) }))
	case "ok":
		x := arg(0)
		if len(n.Args) > 1 {
			k := n.Args[1].(*ast.BasicLit).Value
			x = boxGV(map1(unbox(x), func(t *Term) *Term { return mkT("res", k, t) }))
		}
		return MkBool(EqB(x, NilT))
	case "all", "some", "sum", "mapsum", "collect", "mapfill", "first", "concat":
		v := n.Args[0].(*ast.Ident).Name
		dom := arg(1)
		rest := n.Args[2:]
		build := func(d *Term) *Term {
			tag := ""
			if _, used := s.Vars["#"+itoa(unrev(d).id)]; used {
				tag = "'"
			}
			el := mkT("elem", tag, d)
			if el.Typ == nil && d.Typ != nil {
				el.Typ = elemType(d.Typ)
			}
			ky := mkT("key", tag, d)
			ix := mkTyped(types.Typ[types.Uint64], "idx", tag, d)
			if els, ok := elements(d); ok && (name == "all" || name == "some") { // a list known element by element
				r := name == "all"
				b := False
				if r {
					b = True
				}
				for i, x := range els {
					vars := map[string]*Term{v: x, v + "_i": MkInt(bigInt(int64(i)))}
					c := TruthB(s.with(vars).eval(rest[0]))
					if r {
						b = And(b, c)
					} else {
						b = Or(b, c)
					}
				}
				return MkBool(b)
			}
			in := s.with(map[string]*Term{v: el, v + "_k": ky, v + "_i": ix, "#" + itoa(unrev(d).id): NilT})
			switch name {
			case "all":
				return MkBool(Not(existsRaw(d, tag, Not(TruthB(in.eval(rest[0]))))))
			case "some":
				return MkBool(existsRaw(d, tag, TruthB(in.eval(rest[0]))))
			}
			g := TruthB(in.eval(rest[0]))
			if name == "first" { // first(v, dom, cond, value): the value at the first element meeting cond
				return boxGV(chosen(d, tag, g, unbox(in.eval(rest[1]))))
			}
			if name == "concat" { // concat(v, dom, guard, bytes): the bytes one after the other
				return mkGuarded("collect", tag, g, nil, mkT("list", ""), d, mkT("spread", "", in.eval(rest[1])))
			}
			if name == "mapsum" { // mapsum(v, dom, guard, key, amount): the map key -> sum of amounts
				return mkGuarded("mapsum", tag, g, nil, mkT("makemap", ""), d, in.eval(rest[1]), in.eval(rest[2]))
			}
			if name == "mapfill" { // mapfill(v, dom, guard, key, value): the map key -> value
				return mkGuarded("mapfill", tag, g, nil, mkT("makemap", ""), d, in.eval(rest[1]), in.eval(rest[2]))
			}
			if name == "collect" { // collect(v, dom, guard, value): the list of values; collect(v, dom, guard, value, base): appended to base
				if len(rest) > 2 {
					return mkGuarded("collect", tag, g, nil, s.eval(rest[2]), d, in.eval(rest[1]))
				}
				return mkGuarded("collect", tag, g, nil, mkT("list", ""), d, in.eval(rest[1]))
			}
			return sumTerm(d, tag, g, in.eval(rest[1]), nil)
		}
		return boxGV(map1(unbox(dom), build))
	case "ifte":
		c := TruthB(arg(0))
		return boxGV(normGV(GVal{{c, arg(1)}, {Not(c), arg(2)}}))
	case "same": // the same content
		return MkBool(sameB(arg(0), arg(1)))
	case "iff":
		return MkBool(Xnor(TruthB(arg(0)), TruthB(arg(1))))
	case "implies":
		return MkBool(Implies(TruthB(arg(0)), TruthB(arg(1))))
	case "zero": // x holds the zero value of its type
		x := arg(0)
		if x.Typ == nil {
			s.fail("zero(%s): type unknown", x)
		}
		return MkBool(EqB(x, zeroOf(x.Typ)))
	case "ovfadd":
		return MkBool(ovfB("+", arg(0)))
	case "ovfmul":
		return MkBool(ovfB("*", arg(0)))
	case "trunc8", "trunc16", "trunc32", "next", "wrap", "pre":
		if a := arg(0); a.Op == "int" && strings.HasPrefix(name, "trunc") {
			bits, _ := strconv.Atoi(name[5:])
			return MkInt(new(big.Int).Mod(a.Big, new(big.Int).Lsh(big.NewInt(1), uint(bits))))
		}
		if arg(0).Op == "len" && name == "trunc32" {
			return arg(0)
		}
		return boxGV(map1(unbox(arg(0)), func(a *Term) *Term { return mkT(name, "", a) }))
	case "cat":
		ts := make([]*Term, len(n.Args))
		for i := range n.Args {
			ts[i] = s.eval(n.Args[i])
		}
		return mkCat(nil, ts...)
	case "out": // what the call left in the object passed as argument i, of type T
		T := s.typ(n.Args[2])
		return mkTyped(T, "out", arg(0).Sym+" "+typeName(T), arg(0), arg(1))
	case "isErr": // the error is or wraps the given one
		return MkBool(lift2(arg(0), arg(1), func(a, b *Term) B {
			if a == b {
				return True
			}
			if a.Op == "nil" {
				return False
			}
			for _, x := range a.Args {
				if a.Op == "err" && x == b {
					return True
				}
			}
			if a.Op == "err" || a.Op == "global" {
				return False
			}
			return TruthB(mkTyped(types.Typ[types.Bool], "call", "ierrors.Is", a, b))
		}))
	case "decimal":
		return boxGV(map1(unbox(arg(0)), decimal))
	case "zeroval":
		return zeroOf(s.typ(n.Args[0]))
	case "query": // the encoded query with the given parameters
		m := mkT("makemap", "")
		for i := 0; i+1 < len(n.Args); i += 2 {
			m = mkEntry(m, s.eval(n.Args[i]), mkT("list", "", s.eval(n.Args[i+1])))
		}
		return mkT("call", "Encode", m)
	case "strcat":
		ts := make([]*Term, len(n.Args))
		for i := range n.Args {
			ts[i] = s.eval(n.Args[i])
		}
		return mkStr(ts...)
	case "bytelist": // literal bytes
		ts := make([]*Term, len(n.Args))
		for i := range n.Args {
			ts[i] = s.eval(n.Args[i])
		}
		return mkT("list", "", ts...)
	case "le16", "le32", "le64":
		return mkT("le", name[2:], arg(0))
	case "unle16", "unle32", "unle64":
		return boxGV(map1(unbox(arg(0)), func(a *Term) *Term { return mkT("unle", name[4:], a) }))
	case "digest": // digest(alg, bytes)
		return mkHash(arg(0), arg(1))
	case "content": // what an address or interface holds
		return boxGV(map1(unbox(arg(0)), func(t *Term) *Term {
			if t.Op == "iface" {
				t = t.Args[0]
			}
			if s.At != nil {
				t = s.Out.E.Freeze(s.At, t, 0)
			}
			if t.Op == "&struct" {
				t = t.Args[0]
			}
			return t
		}))
	case "fit64", "fit32", "fit36", "fit38", "fit40":
		return mkT("fit", name[3:], arg(0))
	case "list": // list(x, ...): a list literal
		ts := make([]*Term, len(n.Args))
		for i := range n.Args {
			ts[i] = s.eval(n.Args[i])
		}
		return mkT("list", "", ts...)
	case "append":
		return boxGV(map2(unbox(arg(0)), unbox(arg(1)), func(a, b *Term) *Term { return mkTyped(a.Typ, "append", "", a, b) }))
	case "dyn": // dyn(f, args...): the call of a function value
		f := arg(0)
		as := []*Term{f}
		for _, a := range n.Args[1:] {
			as = append(as, s.eval(a))
		}
		return s.callTerm("dyn:"+f.String(), as)
	case "upto":
		return mkT("upto", "", arg(0))
	case "rev":
		return boxGV(map1(unbox(arg(0)), func(a *Term) *Term { return mkTyped(a.Typ, "rev", "", a) }))
	case "iface":
		return mkTyped(s.typ(n.Args[1]), "iface", typeName(s.typ(n.Args[1])), arg(0))
	}
	args := make([]*Term, len(n.Args))
	for i := range n.Args {
		args[i] = s.eval(n.Args[i])
	}
	return s.callTerm(name, args)
}

// elements are the elements of a list literal, or of such lists appended.
func elements(d *Term) ([]*Term, bool) {
	switch d.Op {
	case "list":
		return d.Args, true
	case "append":
		a, ok := elements(d.Args[0])
		b, ok2 := elements(d.Args[1])
		return append(append([]*Term{}, a...), b...), ok && ok2
	}
	return nil, false
}

// result is the k-th result of a call, typed when the call is a method of a typed receiver.
func (s *Scope) result(t *Term, k string) *Term {
	r := mkT("res", k, t)
	if r.Typ == nil && t.Op == "call" && len(t.Args) > 0 && t.Args[0].Typ != nil && !strings.Contains(t.Sym, ".") {
		obj, _, _ := types.LookupFieldOrMethod(t.Args[0].Typ, true, nil, t.Sym)
		if f, ok := obj.(*types.Func); ok {
			i := int(k[0] - '0')
			if rs := f.Type().(*types.Signature).Results(); i < rs.Len() {
				r.Typ = rs.At(i).Type()
			}
		}
	}
	return r
}

func (s *Scope) callTerm(name string, args []*Term) *Term {
	n := 1
	for _, a := range args {
		n *= len(unbox(a))
	}
	var out GVal
	var rec func(i int, g B, ts []*Term)
	rec = func(i int, g B, ts []*Term) {
		if g == False {
			return
		}
		if i == len(args) {
			t := mkT("call", name, append([]*Term{}, ts...)...)
			if t.Typ == nil && len(ts) > 0 && ts[0].Typ != nil && !strings.Contains(name, ".") {
				obj, _, _ := types.LookupFieldOrMethod(ts[0].Typ, true, nil, name)
				if f, ok := obj.(*types.Func); ok {
					if r := f.Type().(*types.Signature).Results(); r.Len() == 1 {
						t.Typ = r.At(0).Type()
					}
				}
			}
			out = append(out, GE{g, t})
			return
		}
		for _, a := range unbox(args[i]) {
			x := a.T
			if x.Op == "iface" {
				x = x.Args[0]
			}
			rec(i+1, And(g, a.G), append(ts, x))
		}
	}
	rec(0, True, nil)
	return boxGV(normGV(out))
}

// final is the value of x (a field path or a map) when the function returns.
func (s *Scope) final(x ast.Expr) *Term {
	if s.Out == nil {
		s.fail("final: no summary")
	}
	e := s.Out.E
	now := s.eval(x)
	var bases GVal
	sel, isSel := x.(*ast.SelectorExpr)
	if isSel {
		bases = unbox(s.eval(sel.X))
	}
	ix, isIx := x.(*ast.IndexExpr)
	if isIx {
		bases = unbox(s.eval(ix.X))
	}
	var member *types.Var // final(as(x, T, f)): the field of x holding a T
	if as, ok := x.(*ast.CallExpr); ok && len(as.Args) == 3 {
		if id, ok := as.Fun.(*ast.Ident); ok && id.Name == "as" {
			if p := fieldPath(s.typ(as.Args[1]), as.Args[2].(*ast.Ident).Name); len(p) == 1 {
				member, bases = p[0], unbox(s.eval(as.Args[0]))
			}
		}
	}
	var out GVal
	for _, ex := range s.Out.Exits {
		if ex.Panic || ex.G == False {
			continue
		}
		v := unbox(now)
		if member != nil {
			v = map1(bases, func(b *Term) *Term {
				return boxGV(e.load(ex.Mem, mkTyped(types.NewPointer(member.Type()), "&field", member.Name(), b), member.Type()))
			})
		}
		if isIx {
			i := s.eval(ix.Index)
			v = map1(bases, func(b *Term) *Term {
				et := elemType(b.Typ)
				if et == nil {
					return mkIndex(b, i, nil)
				}
				if _, isMap := b.Typ.Underlying().(*types.Map); isMap {
					return mkLookup(b, i, et)
				}
				return boxGV(e.load(ex.Mem, mkTyped(types.NewPointer(et), "&index", "", b, i), et))
			})
		}
		if isSel {
			v = map1(bases, func(b *Term) *Term {
				t := s.field(b, sel.Sel.Name)
				if b.Typ != nil && b.Op == "field" { // a member of a member
					if _, ok := b.Typ.Underlying().(*types.Struct); ok {
						b = memberAddr(b)
					}
				}
				ad := mkT("&field", sel.Sel.Name, b)
				if t.Typ != nil {
					ad = mkTyped(types.NewPointer(t.Typ), "&field", sel.Sel.Name, b)
				}
				return boxGV(e.load(ex.Mem, ad, t.Typ))
			})
		}
		v = map1(v, func(t *Term) *Term {
			if t.Typ != nil {
				if _, ok := t.Typ.Underlying().(*types.Map); ok {
					t = boxGV(e.mapContent(ex.Mem, t))
				}
			}
			return e.Freeze(ex.Mem, t, 0)
		})
		for _, a := range v {
			if g := And(ex.G, a.G); g != False {
				out = append(out, GE{g, a.T})
			}
		}
	}
	return boxGV(out)
}

// now is the value of a field path in the memory s.At.
// memberAddr is the address of the member x of an object.
func memberAddr(x *Term) *Term {
	b := x.Args[0]
	if b.Op == "field" && b.Typ != nil {
		if _, ok := b.Typ.Underlying().(*types.Struct); ok {
			b = memberAddr(b)
		}
	}
	return mkTyped(types.NewPointer(x.Typ), "&field", x.Sym, b)
}

func (s *Scope) now(x ast.Expr) *Term {
	sel, ok := x.(*ast.SelectorExpr)
	if !ok {
		return s.eval(x)
	}
	return boxGV(map1(unbox(s.now(sel.X)), func(b *Term) *Term {
		for b.Op == "iface" {
			b = b.Args[0]
		}
		var vt types.Type
		if b.Typ != nil {
			if p := fieldPath(b.Typ, sel.Sel.Name); len(p) == 1 {
				vt = p[0].Type()
			}
		}
		if vt == nil {
			s.fail("now: no field %s", sel.Sel.Name)
		}
		ad := mkTyped(types.NewPointer(vt), "&field", sel.Sel.Name, b)
		return boxGV(s.Out.E.load(s.At, ad, vt))
	}))
}

// SeedList lets the member path hold a list of the named symbolic elements at the entry; the names become variables.
func (s *Scope) SeedList(e *Eval, path string, names []string) {
	x, err := parser.ParseExpr(path)
	if err != nil {
		s.fail("%v", err)
	}
	sel, ok := x.(*ast.SelectorExpr)
	if !ok {
		s.fail("%s is no member", path)
	}
	bases := unbox(s.eval(sel.X))
	if len(bases) != 1 {
		s.fail("%s is ambiguous", path)
	}
	b := bases[0].T
	t := s.field(b, sel.Sel.Name)
	if t.Typ == nil || t.Op != "field" {
		s.fail("%s is no member", path)
	}
	if b != t.Args[0] {
		b = t.Args[0]
	}
	if e.Mem0 == nil {
		e.Mem0 = EmptyMem()
	}
	if mt, ok := t.Typ.Underlying().(*types.Map); ok { // entries "key=value"
		m := mkTyped(t.Typ, "makemap", "seed")
		for _, n := range names {
			k, v, _ := strings.Cut(n, "=")
			s.Vars[k], s.Vars[v] = paramTerm(k, mt.Key()), paramTerm(v, mt.Elem())
			m = mkTyped(t.Typ, "mapset", "", m, s.Vars[k], s.Vars[v])
		}
		e.Mem0 = e.Mem0.set(mkT("content", "", t), gv1(m))
		return
	}
	et := elemType(t.Typ)
	var els []*Term
	for _, n := range names {
		v := paramTerm(n, et)
		s.Vars[n] = v
		els = append(els, v)
	}
	ad := mkTyped(types.NewPointer(t.Typ), "&field", sel.Sel.Name, b)
	e.Mem0 = e.Mem0.setAll(func(k *Term) bool { return k == ad }, ad, gv1(mkTyped(t.Typ, "list", "", els...)))
}
