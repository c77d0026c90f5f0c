package rules

import (
	"fmt"
	"go/types"
	"strings"

	"verif/checker/engine"
)

// P24: the size a type declares is the size of its encoding, which follows from the schema.

var prefixSize = map[string]int{"u8": 1, "u16": 2, "u32": 4, "u64": 8}

type layout struct {
	s *Schema
	n int // fresh variables
}

func (l *layout) setting(t types.Type) *Setting {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if st := l.s.Settings[tname(types.Unalias(t))]; st != nil {
		return st
	}
	return l.s.Settings[tname(t)]
}

// size is the encoded size of expression e of type t; prefix overrides the length prefix of the type.
func (l *layout) size(t types.Type, e, prefix string) string {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		if nt, ok := p.Elem().(*types.Named); ok && nt.Obj().Name() == "Int" && nt.Obj().Pkg().Path() == "math/big" {
			return "32"
		}
		return l.size(p.Elem(), e, prefix)
	}
	if nt, ok := types.Unalias(t).(*types.Named); ok && nt.Obj().Name() == "Time" && nt.Obj().Pkg().Path() == "time" {
		return "8"
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return "Size(" + e + ")"
	}
	var parts []string
	if st := l.setting(t); st != nil {
		switch {
		case strings.HasPrefix(st.Code, "u8:"):
			parts = append(parts, "1")
		case strings.HasPrefix(st.Code, "u32:"):
			parts = append(parts, "4")
		}
		if prefix == "" {
			prefix = st.Prefix
		}
	}
	pre := func() {
		if prefixSize[prefix] == 0 {
			Failf("%s (%s) has no length prefix", tname(t), e)
		}
		parts = append(parts, fmt.Sprint(prefixSize[prefix]))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			pre()
			parts = append(parts, "len("+e+")")
		case u.Info()&types.IsInteger != 0 && u.Kind() != types.Int && u.Kind() != types.Uint:
			parts = append(parts, fmt.Sprint(types.SizesFor("gc", "amd64").Sizeof(u)))
		case u.Kind() == types.Bool:
			parts = append(parts, "1")
		default:
			Failf("no encoding known for %s", tname(t))
		}
	case *types.Array:
		if !isByte(u.Elem()) {
			Failf("no encoding known for %s", tname(t))
		}
		parts = append(parts, fmt.Sprint(u.Len()))
	case *types.Slice:
		pre()
		if isByte(u.Elem()) {
			parts = append(parts, "len("+e+")")
			break
		}
		l.n++
		v := fmt.Sprintf("v%d", l.n)
		parts = append(parts, fmt.Sprintf("sum(%s, %s, true, %s)", v, e, l.size(u.Elem(), v, "")))
	case *types.Map:
		pre()
		l.n++
		v := fmt.Sprintf("v%d", l.n)
		parts = append(parts, fmt.Sprintf("sum(%s, %s, true, %s + %s)", v, e, l.size(u.Key(), v+"_k", ""), l.size(u.Elem(), v, "")))
	case *types.Struct:
		for _, f := range fields(u) {
			x := e + "." + f.Var.Name()
			if f.Optional {
				parts = append(parts, "4", "ifte("+x+" == nil, 0, "+l.size(f.Var.Type(), x, f.Prefix)+")")
				continue
			}
			parts = append(parts, l.size(f.Var.Type(), x, f.Prefix))
		}
		if len(parts) == 0 {
			Failf("no encoding known for %s", tname(t))
		}
	default:
		Failf("no encoding known for %s", tname(t))
	}
	return "(" + strings.Join(parts, " + ") + ")"
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// methodTypes lists the named types of the root package with a method of their own.
func (c *Ctx) methodTypes(method string) []*types.Named {
	return c.typesWith(engine.RepoMod, method, false)
}

func (c *Ctx) typesWith(path, method string, generic bool) []*types.Named {
	var r []*types.Named
	for _, pk := range c.P.Pkgs {
		if pk.PkgPath != path {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nt) || nt.TypeParams().Len() > 0 != generic {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				if nt.Method(i).Name() == method {
					r = append(r, nt)
				}
			}
		}
	}
	return r
}

func init() {
	register(&Prop{ID: "P24", Min: 50, Note: "declared sizes equal the encoded sizes of the schema", Run: func(c *Ctx) {
		s := c.schema()
		for _, nt := range c.methodTypes("Size") {
			if nt.Obj().Name() == "MultiAddressReference" {
				continue // never serialized
			}
			if _, ok := nt.Underlying().(*types.Struct); !ok && s.Settings[tname(nt)] == nil {
				continue // has no encoding of its own, only as part of another type
			}
			l := &layout{s: s}
			spec := ""
			c.Ob("layout|"+nt.Obj().Name(), c.Pos(nt.Obj().Pos()), func() { spec = l.size(nt, "x", "") })
			if spec != "" {
				c.Sum(":"+nt.Obj().Name()+".Size", Opt{Names: []string{"x"}}).Result("encoded size", 0, "", spec)
			}
		}
	}})
}
