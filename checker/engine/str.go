package engine

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var stringType = types.Typ[types.String]

func strLit(s string) *Term { return mkT("str", strconv.Quote(s)) }

func litOf(t *Term) (string, bool) {
	if t.Op != "str" {
		return "", false
	}
	s, err := strconv.Unquote(t.Sym)
	return s, err == nil
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// mkStr is the concatenation of strings: constants are joined, nested concatenations flattened.
func mkStr(parts ...*Term) *Term {
	for i, p := range parts {
		if p.Op == "gv" {
			return boxGV(map1(p.GV, func(a *Term) *Term {
				q := append([]*Term{}, parts...)
				q[i] = a
				return mkStr(q...)
			}))
		}
	}
	var out []*Term
	add := func(p *Term) {
		if l, ok := litOf(p); ok {
			if l == "" {
				return
			}
			if n := len(out); n > 0 {
				if m, ok := litOf(out[n-1]); ok {
					out[n-1] = strLit(m + l)
					return
				}
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		if p.Op == "strcat" {
			for _, q := range p.Args {
				add(q)
			}
			continue
		}
		add(p)
	}
	switch len(out) {
	case 0:
		return strLit("")
	case 1:
		return out[0]
	}
	return mkTyped(stringType, "strcat", "", out...)
}

// sprintf resolves constant formats that only insert strings.
func sprintf(args []GVal) *Term {
	if len(args) != 2 {
		return nil
	}
	format, ok := litOf(boxGV(args[0]))
	l := boxGV(args[1])
	if !ok || l.Op != "list" && l.Op != "nil" {
		return nil
	}
	var parts []*Term
	n := 0
	var verbs []byte
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' && (format[i+1] == 's' || format[i+1] == 'd') {
			verbs = append(verbs, format[i+1])
		}
	}
	for i, p := range strings.Split(strings.ReplaceAll(format, "%d", "%s"), "%s") {
		if strings.Contains(p, "%") {
			return nil
		}
		if i > 0 {
			if n >= len(l.Args) {
				return nil
			}
			a := l.Args[n]
			n++
			v := formatted(a, verbs[i-1])
			if v == nil {
				return nil
			}
			parts = append(parts, v)
		}
		parts = append(parts, strLit(p))
	}
	if n != len(l.Args) {
		return nil
	}
	return mkStr(parts...)
}

// strReplace is strings.Replace with a constant pattern: an occurrence in a constant part is replaced if
// nothing unknown comes before it.
func strReplace(s, old, nw *Term, n int64) *Term {
	o, ok := litOf(old)
	if !ok || o == "" {
		return nil
	}
	parts := []*Term{s}
	if s.Op == "strcat" {
		parts = s.Args
	}
	if len(parts) > 1 && n == 1 && strings.HasPrefix(o, "{") && strings.HasSuffix(o, "}") { // values put into a pattern hold no placeholders
		for k, q := range parts {
			if l, ok := litOf(q); ok {
				if i := strings.Index(l, o); i >= 0 {
					out := append(append([]*Term{}, parts[:k]...), strLit(l[:i]), nw, strLit(l[i+len(o):]))
					return mkStr(append(out, parts[k+1:]...)...)
				}
			}
		}
		return s
	}
	l, ok := litOf(parts[0])
	if !ok {
		return nil
	}
	if n < 0 || n > 1 {
		if len(parts) > 1 || strings.Count(l, o) > 1 {
			return nil
		}
	}
	i := strings.Index(l, o)
	if n == 0 || i < 0 {
		if len(parts) > 1 {
			return nil
		}
		return s
	}
	return mkStr(append([]*Term{strLit(l[:i]), nw, strLit(l[i+len(o):])}, parts[1:]...)...)
}

// isErrorTable: tables of errors are written by initialisation only (a rule of P40).
func isErrorTable(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isErrorType(m.Elem())
}

func (p *Program) stringGlobal(name string, g *ssa.Global) *Term {
	if t, ok := p.gconst[name]; ok {
		return t
	}
	p.gconst[name] = mkTyped(elemType(g.Type()), "global", name) // while it is being initialised
	if v := p.InitValue(name); v != nil && (v.Op == "str" || v.Op == "mapset") {
		p.gconst[name] = v
	}
	return p.gconst[name]
}

// plainPath: a path that parsing and printing leaves as it is (the identifiers inserted are hex or bech32).
func plainPath(t *Term) bool {
	parts := []*Term{t}
	if t.Op == "strcat" {
		parts = t.Args
	}
	if l, ok := litOf(parts[0]); !ok || !strings.HasPrefix(l, "/") {
		return false
	}
	for _, p := range parts {
		l, ok := litOf(p)
		if !ok {
			if p.Op != "call" || p.Sym != "ToHex" && p.Sym != "Bech32" {
				return false
			}
			continue
		}
		for _, c := range l {
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("/-_.", c)) {
				return false
			}
		}
	}
	return true
}

// mkEntry is m with an entry, in the order of the keys.
func mkEntry(m, k, v *Term) *Term {
	if m.Op == "gv" {
		return boxGV(map1(m.GV, func(a *Term) *Term { return mkEntry(a, k, v) }))
	}
	if m.Op == "mapset" && k.Op == "str" && m.Args[1].Op == "str" && k.Sym < m.Args[1].Sym {
		return mkMapset(mkEntry(m.Args[0], k, v), m.Args[1], m.Args[2])
	}
	return mkMapset(m, k, v)
}

// decimal is the decimal representation of a number.
func decimal(t *Term) *Term {
	if t.Op == "int" {
		return strLit(t.Big.String())
	}
	return mkTyped(stringType, "call", "decimal", t)
}

// formatted is an argument of a format as a string, nil if unknown.
func formatted(a *Term, verb byte) *Term {
	if a.Op == "gv" {
		for _, x := range a.GV {
			if formatted(x.T, verb) == nil {
				return nil
			}
		}
		return boxGV(map1(a.GV, func(x *Term) *Term { return formatted(x, verb) }))
	}
	if a.Op != "iface" {
		return nil
	}
	x := a.Args[0]
	t := a.Typ
	if x.Op == "gv" {
		for _, y := range x.GV {
			if y.T.Typ != nil {
				t = y.T.Typ
			}
		}
	} else if x.Typ != nil {
		t = x.Typ
	}
	if verb == 'd' {
		if _, _, ok := intSize(t); !ok {
			return nil
		}
		return boxGV(map1(unbox(x), decimal))
	}
	if nt, ok := t.(*types.Named); ok && nt.NumMethods() > 0 {
		return nil
	}
	if !isString(t) && x.Op != "str" {
		return nil
	}
	return x
}
