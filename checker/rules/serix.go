package rules

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"verif/checker/engine"
)

// The serialization schema: what the API constructors register with the serializer, and the struct tags.

// Setting is how one type is serialized.
type Setting struct {
	Type   types.Type
	Pos    string
	Code   string // type code, "" for none
	Prefix string // length prefix
	Rules  string // array rules, "" for none
	Min    int
	Max    int
	Must   []string
	Key    string
}

// Schema collects the registrations of an API.
type Schema struct {
	c        *Ctx
	Settings map[string]*Setting
	Valid    map[string]*engine.Term
	Ifaces   map[string]map[string]string // interface -> concrete type -> position
	IfaceT   map[string]types.Type
	ConcT    map[string]types.Type
	Dups     []string
	by       map[string]*engine.Outcome // the API constructor that made a validator
}

var prefixName = map[string]string{"200": "u8", "201": "u16", "202": "u32", "203": "u64"}

func tname(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (c *Ctx) schema() *Schema {
	if c.sch != nil {
		return c.sch
	}
	s := &Schema{c: c, Settings: map[string]*Setting{}, Valid: map[string]*engine.Term{}, Ifaces: map[string]map[string]string{}, IfaceT: map[string]types.Type{}, ConcT: map[string]types.Type{}, by: map[string]*engine.Outcome{}}
	for _, a := range []string{":CommonSerixAPI", ":V3API"} {
		sum := c.Sum(a, Opt{Events: true})
		if sum.Err != "" {
			Failf("%s: %s", a, sum.Err)
		}
		for _, ev := range sum.Out.E.Events {
			if ev.Kind == "call" {
				s.event(sum, ev)
			}
		}
	}
	c.sch = s
	return s
}

func (s *Schema) event(sum *Sum, ev engine.Event) {
	if ev.T.Op != "call" || len(ev.Args) < 3 {
		return
	}
	pos := s.c.Pos(ev.Pos)
	arg := func(i int) *engine.Term { return sum.Out.E.Freeze(ev.Mem, engine.Box(ev.Args[i]), 0) }
	// a registration that is not made on every path is none
	always := func() {
		if ok, _, _ := engine.Entails(s.c.P, engine.And(sum.Assume, sum.Out.Succ()), ev.G); !ok {
			Failf("%s: registered on some paths only", pos)
		}
	}
	switch ev.T.Sym {
	case "RegisterTypeSettings":
		always()
		t := engine.Box(ev.Args[1]).Typ
		if t == nil {
			Failf("%s: type settings for an unknown type", pos)
		}
		n := tname(t)
		if o := s.Settings[n]; o != nil {
			s.Dups = append(s.Dups, fmt.Sprintf("%s: type settings of %s are registered again (first %s)", pos, n, o.Pos))
		}
		st := &Setting{Type: t, Pos: pos}
		s.settings(st, arg(2))
		s.Settings[n] = st
	case "RegisterValidator":
		always()
		t := engine.Box(ev.Args[1]).Typ
		if t == nil {
			Failf("%s: validator for an unknown type", pos)
		}
		n := tname(t)
		if s.Valid[n] != nil {
			s.Dups = append(s.Dups, fmt.Sprintf("%s: second validator for %s", pos, n))
		}
		s.Valid[n] = arg(2)
		s.by[n] = sum.Out
	case "RegisterInterfaceObjects":
		always()
		it := engine.Box(ev.Args[1]).Typ
		if it == nil {
			Failf("%s: unknown interface", pos)
		}
		p, ok := it.Underlying().(*types.Pointer)
		if !ok {
			Failf("%s: %s is no pointer to an interface", pos, it)
		}
		in := tname(p.Elem())
		s.IfaceT[in] = p.Elem()
		if s.Ifaces[in] == nil {
			s.Ifaces[in] = map[string]string{}
		}
		l := arg(2)
		if l.Op != "list" {
			Failf("%s: objects of %s cannot be resolved: %s", pos, in, clip(l.String(), 100))
		}
		for _, o := range l.Args {
			if o.Typ == nil {
				Failf("%s: object of %s of unknown type", pos, in)
			}
			cn := tname(o.Typ)
			if q, ok := s.Ifaces[in][cn]; ok {
				s.Dups = append(s.Dups, fmt.Sprintf("%s: %s is registered for %s again (first %s)", pos, cn, in, q))
			}
			s.Ifaces[in][cn] = pos
			s.ConcT[cn] = o.Typ
		}
	}
}

// settings reads a chain of WithX calls.
func (s *Schema) settings(st *Setting, t *engine.Term) {
	switch {
	case t.Op == "zero" || t.Op == "struct":
		return
	case t.Op == "call" && strings.HasPrefix(t.Sym, "With") && len(t.Args) == 2:
		s.settings(st, t.Args[0])
		v := t.Args[1]
		switch t.Sym {
		case "WithObjectType":
			w := ""
			if v.Op == "iface" && v.Typ != nil {
				if b, ok := v.Typ.Underlying().(*types.Basic); ok {
					w = map[types.BasicKind]string{types.Uint8: "u8:", types.Uint32: "u32:"}[b.Kind()]
				}
			}
			for v.Op == "iface" {
				v = v.Args[0]
			}
			if w == "" || v.Op != "int" {
				Failf("%s: type code %s (%s %v) of %s is no constant byte or word", st.Pos, clip(v.String(), 100), t.Args[1].Op, t.Args[1].Typ, tname(st.Type))
			}
			st.Code = w + v.String()
			return
		case "WithLengthPrefixType":
			st.Prefix = prefixName[v.String()]
			if st.Prefix == "" {
				st.Prefix = "?" + v.String()
			}
			return
		case "WithFieldKey":
			st.Key = strings.Trim(v.String(), `"`)
			return
		case "WithMaxLen", "WithMinLen":
			if v.Op == "int" {
				if t.Sym == "WithMaxLen" {
					st.Max = int(v.Big.Int64())
				} else {
					st.Min = int(v.Big.Int64())
				}
				return
			}
		case "WithArrayRules":
			s.arrayRules(st, v)
			return
		}
	}
	Failf("%s: type settings %s cannot be resolved", st.Pos, clip(t.String(), 200))
}

func (s *Schema) arrayRules(st *Setting, v *engine.Term) {
	if v.Op == "global" {
		if w := s.c.P.InitValue(v.Sym); w != nil {
			v = w
		}
	}
	if v.Op == "&struct" {
		v = v.Args[0]
	}
	if v.Op != "struct" || len(v.Args) != 5 {
		Failf("%s: array rules %s cannot be resolved", st.Pos, clip(v.String(), 200))
	}
	if v.Args[0].Op != "int" || v.Args[1].Op != "int" || v.Args[4].Op != "int" {
		Failf("%s: array rules %s are not constant", st.Pos, clip(v.String(), 200))
	}
	st.Min, st.Max = int(v.Args[0].Big.Int64()), int(v.Args[1].Big.Int64())
	m := v.Args[2]
	for m.Op == "mapset" {
		st.Must = append(st.Must, m.Args[1].String())
		m = m.Args[0]
	}
	sort.Strings(st.Must)
	if m.Op != "nil" && m.Op != "makemap" && m.Op != "zero" {
		Failf("%s: mandatory elements %s cannot be resolved", st.Pos, clip(m.String(), 200))
	}
	st.Rules = "rules"
	if v.Args[3].Op != "zero" {
		st.Rules += " guard=" + v.Args[3].String()
	}
	if v.Args[4].Big.Sign() != 0 {
		st.Rules += " mode=" + v.Args[4].String()
	}
}

// String is the line of a type in the schema.
func (st *Setting) String() string {
	r := tname(st.Type)
	if st.Code != "" {
		r += " code=" + st.Code
	}
	if st.Prefix != "" {
		r += " prefix=" + st.Prefix
	}
	if st.Min != 0 || st.Max != 0 || st.Rules != "" {
		r += fmt.Sprintf(" len=%d..%d", st.Min, st.Max)
	}
	if len(st.Must) > 0 {
		r += " must=" + strings.Join(st.Must, ",")
	}
	if st.Key != "" {
		r += " key=" + st.Key
	}
	return r
}

// Field is one serialized field of a struct.
type Field struct {
	Var      *types.Var
	Key      string
	Embedded bool
	Inlined  bool
	Optional bool
	Omit     bool
	Prefix   string
	Min, Max string
}

// fields lists the serialized fields of a struct in order, those of embedded structs in place.
func fields(st *types.Struct) []Field {
	var r []Field
	for i := 0; i < st.NumFields(); i++ {
		tag, ok := reflect.StructTag(st.Tag(i)).Lookup("serix")
		if !ok {
			continue
		}
		f := Field{Var: st.Field(i), Embedded: st.Field(i).Embedded()}
		ps := strings.Split(tag, ",")
		f.Key = ps[0]
		for _, p := range ps[1:] {
			kv := strings.SplitN(p, "=", 2)
			v := ""
			if len(kv) == 2 {
				v = kv[1]
			}
			switch kv[0] {
			case "inlined":
				f.Inlined = true
			case "optional":
				f.Optional = true
			case "omitempty":
				f.Omit = true
			case "lenPrefix":
				f.Prefix = map[string]string{"byte": "u8", "uint8": "u8", "uint16": "u16", "uint32": "u32", "uint64": "u64"}[v]
			case "minLen":
				f.Min = v
			case "maxLen":
				f.Max = v
			}
		}
		r = append(r, f)
	}
	return r
}

func (f Field) String() string {
	r := f.Var.Name()
	if f.Key != "" {
		r += "(" + f.Key + ")"
	}
	r += " " + tname(f.Var.Type())
	if f.Embedded {
		r += " embedded"
	}
	if f.Inlined {
		r += " inlined"
	}
	if f.Optional {
		r += " optional"
	}
	if f.Omit {
		r += " omitempty"
	}
	if f.Prefix != "" {
		r += " prefix=" + f.Prefix
	}
	if f.Min != "" {
		r += " min=" + f.Min
	}
	if f.Max != "" {
		r += " max=" + f.Max
	}
	return r
}

// structs lists the struct types of a package with serialized fields.
func (c *Ctx) structs(path string) map[string]*types.Named {
	r := map[string]*types.Named{}
	for _, pk := range c.P.Pkgs {
		if pk.PkgPath != path {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			st, ok := nt.Underlying().(*types.Struct)
			if !ok || len(fields(st)) == 0 {
				continue
			}
			r[tname(nt)] = nt
		}
	}
	return r
}

// Line is one statement of the schema.
type Line struct{ Key, Val, Pos string }

// effective JSON key of a field
func (f Field) key() string {
	if f.Key != "" {
		return f.Key
	}
	n := f.Var.Name()
	return strings.ToLower(n[:1]) + n[1:]
}

func (f Field) line() string {
	r := f.key() + ":" + tname(f.Var.Type())
	for _, x := range []struct {
		b bool
		s string
	}{{f.Embedded && f.Inlined, " flattened"}, {f.Embedded && !f.Inlined, " embedded"}, {f.Inlined && !f.Embedded, " inlined"}, {f.Optional, " optional"}, {f.Omit, " omitempty"}, {f.Prefix != "", " prefix=" + f.Prefix}} {
		if x.b {
			r += x.s
		}
	}
	if f.Min != "" || f.Max != "" {
		r += fmt.Sprintf(" len=%s..%s", f.Min, f.Max)
	}
	return r
}

// lines renders the schema, the fields of the structs of the given packages included.
func (s *Schema) lines(pkgs ...string) []Line {
	var l []Line
	for n, st := range s.Settings {
		l = append(l, Line{"type " + n, strings.TrimSpace(strings.TrimPrefix(st.String(), n)), st.Pos})
	}
	for i, m := range s.Ifaces {
		var cs []string
		pos := ""
		for k, p := range m {
			cs = append(cs, k)
			if pos == "" || p < pos {
				pos = p
			}
		}
		sort.Strings(cs)
		l = append(l, Line{"interface " + i, strings.Join(cs, " "), pos})
	}
	for n := range s.Valid {
		l = append(l, Line{"validated " + n, "", ""})
	}
	for _, pk := range pkgs {
		for n, t := range s.c.structs(pk) {
			var fs []string
			for _, f := range fields(t.Underlying().(*types.Struct)) {
				fs = append(fs, f.line())
			}
			l = append(l, Line{"struct " + n, strings.Join(fs, "; "), s.c.Pos(t.Obj().Pos())})
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Key < l[j].Key })
	return l
}

// golden compares lines with the reviewed schema, one obligation per statement.
func (c *Ctx) golden(have []Line, want string) {
	exp := map[string]string{}
	for _, l := range strings.Split(strings.TrimSpace(want), "\n") {
		k, v, ok := strings.Cut(l, " = ")
		if !ok {
			k = strings.TrimSuffix(l, " =")
		}
		exp[k] = v
	}
	seen := map[string]bool{}
	for _, l := range have {
		l := l
		seen[l.Key] = true
		w, ok := exp[l.Key]
		if !ok && (strings.HasPrefix(l.Key, "struct ") || strings.HasPrefix(l.Key, "type ")) {
			continue // an additional type changes nothing that is serialized today unless something refers to it
		}
		c.Ob("schema|"+l.Key, l.Pos, func() {
			if !ok {
				Failf("%s: not part of the protocol's schema", l.Key)
			}
			if w != l.Val {
				Failf("%s: %s\n  is     %s\n  expected %s", l.Pos, l.Key, l.Val, w)
			}
		})
	}
	for k := range exp {
		k := k
		if !seen[k] {
			c.Ob("schema|"+k, "", func() { Failf("%s: missing", k) })
		}
	}
}

// DumpSchema prints the schema (development aid).
func DumpSchema(p *engine.Program, pkgs ...string) {
	c := NewCtx(p, "Q")
	s := c.schema()
	for _, l := range s.lines(pkgs...) {
		fmt.Println(l.Key + " = " + l.Val)
	}
	for _, d := range s.Dups {
		fmt.Println("#", d)
	}
}
