package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/engine"
)

// P25: clones hold the same content and share nothing with the original; equality is equality of all fields.

// named types of the analysed packages with the method
func (c *Ctx) allMethodTypes(methods ...string) []*types.Named {
	var r []*types.Named
	for _, m := range methods {
		r = append(r, c.methodTypes(m)...)
	}
	return r
}

func deref(t types.Type) types.Type {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return types.Unalias(p.Elem())
	}
	return t
}

func isBig(t types.Type) bool { return deref(t).String() == "math/big.Int" }

func eqMethod(t types.Type) string {
	for _, m := range []string{"Equal", "Equals"} {
		if hasMethod(t, m) {
			return m
		}
	}
	return ""
}

type eqSpec struct {
	n      int
	premis []string
}

func (q *eqSpec) v() string {
	q.n++
	return "q" + strings.Repeat("x", q.n)
}

// body is content equality of a and b of type t, member by member.
func (q *eqSpec) body(t types.Type, a, b string) string {
	switch u := deref(t).Underlying().(type) {
	case *types.Slice:
		if isByte(u.Elem()) {
			return "(" + a + " == " + b + ")"
		}
		v := q.v()
		return "(len(" + a + ") == len(" + b + ") && all(" + v + ", " + a + ", " + q.eq(u.Elem(), v, b+"["+v+"_i]") + "))"
	case *types.Map:
		v := q.v()
		return "(len(" + a + ") == len(" + b + ") && all(" + v + ", " + a + ", has(" + b + ", " + v + "_k) && " + q.eq(u.Elem(), v, b+"["+v+"_k]") + "))"
	case *types.Struct:
		var parts []string
		for _, f := range fields(u) {
			parts = append(parts, q.eq(f.Var.Type(), a+"."+f.Var.Name(), b+"."+f.Var.Name()))
		}
		if len(parts) == 0 {
			for i := 0; i < u.NumFields(); i++ {
				parts = append(parts, q.eq(u.Field(i).Type(), a+"."+u.Field(i).Name(), b+"."+u.Field(i).Name()))
			}
		}
		if len(parts) == 0 {
			return "true"
		}
		return "(" + strings.Join(parts, " && ") + ")"
	}
	return "(" + a + " == " + b + ")"
}

// eq is equality of two members of type t.
func (q *eqSpec) eq(t types.Type, a, b string) string {
	if isBig(t) {
		return a + " == " + b
	}
	m := eqMethod(t)
	if m == "" {
		return q.body(t, a, b)
	}
	e := m + "(" + a + ", " + b + ")"
	if _, ok := t.Underlying().(*types.Interface); !ok && !strings.Contains(a, "q") {
		if _, ptr := t.Underlying().(*types.Pointer); !ptr {
			q.premis = append(q.premis, "iff("+e+", "+q.body(t, a, b)+")")
		}
	}
	return e
}

func init() {
	register(&Prop{ID: "P25", Min: 60, Note: "clones and equality", Run: func(c *Ctx) {
		clones := append(c.methodTypes("Clone"), c.typesWith(engine.RepoMod, "Clone", true)...)
		clones = append(clones, c.typesWith(engine.RepoMod+"/builder", "Clone", false)...)
		for _, nt := range clones {
			n, pk := nt.Obj().Name(), nt.Obj().Pkg()
			anchor := strings.TrimPrefix(strings.TrimPrefix(pk.Path(), engine.RepoMod), "/") + ":" + n + ".Clone"
			s := c.Sum(anchor, Opt{Names: []string{"x"}, Ident: []string{"Clone"}, Bounds: true})
			spec := "x"
			if st, ok := nt.Underlying().(*types.Struct); ok {
				var parts []string
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i).Name()
					parts = append(parts, f+": x."+f)
				}
				spec = "&" + pk.Name() + "." + n + "{" + strings.Join(parts, ", ") + "}"
			}
			s.Result("same content", 0, "", spec)
			s.NoPanic("never fails", "")
			s.InBounds("accesses in range", "")
			s.ob("shares nothing with the original", func() { c.independent(s.Fn) })
		}
		for _, nt := range append(c.allMethodTypes("Equal", "Equals"), c.typesWith(engine.RepoMod, "Equal", true)...) {
			n := nt.Obj().Name()
			if n == "v3api" { // P34
				continue
			}
			m := eqMethod(nt)
			q := &eqSpec{}
			s := c.Sum(":"+n+"."+m, Opt{Names: []string{"x", "y"}, Opaque: []string{"Equal", "Equals", "MustID"}})
			spec := q.body(nt, "x", "y")
			switch n {
			case "MultiAddress": // address identifiers name the address completely (P28)
				q.premis = append(q.premis, "all(q, x.Addresses, iff(Equal(q.Address, y.Addresses[q_i].Address), ID(q.Address) == ID(y.Addresses[q_i].Address)))")
			case "Commitment": // equal fields have equal identifiers
				q.premis = append(q.premis, "implies("+spec+", MustID(x) == MustID(y))")
			}
			if s.Fn != nil {
				if _, ok := s.Fn.Params[1].Type().Underlying().(*types.Pointer); ok {
					q.premis = append(q.premis, "x != nil && y != nil")
				}
				if _, ok := s.Fn.Params[1].Type().Underlying().(*types.Interface); ok {
					spec = "is(y, *iotago." + n + ") && " + spec
				}
			}
			s.ResultB("all fields", 0, strings.Join(q.premis, " && "), spec)
		}
	}})
	_ = engine.RepoMod
}

// independent: the result of a clone refers to none of the original's memory and the original is left alone.
func (c *Ctx) independent(fn *ssa.Function) {
	a := engine.NewFresh(c.P)
	a.Pure = func(f *ssa.Function) bool { return f.Name() == "Clone" && f.Signature.Recv() != nil } // obligations of their own
	a.PureM = map[string]bool{"Clone": true}
	v, mem := a.Run(fn, []string{"x"})
	for w, pos := range a.Writes {
		Failf("the original is modified: %s is written at %s", w, c.Pos(pos))
	}
	sh := engine.Shared(v, fn.Signature.Results().At(0).Type(), mem, func(t types.Type, field string) bool {
		if t == nil {
			return field == "API"
		}
		switch t.String() {
		case engine.RepoMod + ".API", engine.RepoMod + ".AddressSigner", "error": // immutable, shared on purpose
			return true
		}
		return false
	})
	for _, p := range keysOf(sh) {
		Failf("member %s of the copy still refers to %s of the original", strings.TrimPrefix(p, "."), sh[p])
	}
}
