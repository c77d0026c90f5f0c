// Package engine implements a guarded value-flow analysis over go/ssa.
package engine

import (
	"hash/fnv"
	"os"
	"sort"
	"strconv"
)

// B is a reference to a reduced ordered BDD node. Variables are atoms (see term.go).
type B int32

const (
	False B = 0
	True  B = 1
)

type bddNode struct {
	v      int32
	lo, hi B
}

type bddKey struct {
	v      int32
	lo, hi B
}

type iteKey struct{ f, g, h B }

var (
	nodes    = []bddNode{{v: 1 << 30}, {v: 1 << 30}}
	uniq     = map[bddKey]B{}
	iteCache = map[iteKey]B{}
	// atoms[i] is the term for BDD variable i.
	atoms   = map[int32]*Term{}
	atomIdx = map[*Term]int32{}
)

var shuffle = os.Getenv("VERIF_SHUFFLE")

func mk(v int32, lo, hi B) B {
	if lo == hi {
		return lo
	}
	k := bddKey{v, lo, hi}
	if n, ok := uniq[k]; ok {
		return n
	}
	n := B(len(nodes))
	nodes = append(nodes, bddNode{v, lo, hi})
	uniq[k] = n
	if len(nodes) > 20_000_000 {
		panic("bdd: node limit exceeded")
	}
	return n
}

// AtomVar returns the BDD for a boolean atom term.
func AtomVar(t *Term) B {
	i, ok := atomIdx[t]
	if !ok {
		i = int32(len(atoms))
		if shuffle != "" { // development aid: results must not depend on the variable order
			h := fnv.New32a()
			h.Write([]byte(shuffle + strconv.Itoa(len(atoms))))
			for i = int32(16*len(atoms)) + int32(h.Sum32()%256); atoms[i] != nil; i++ {
			}
		}
		atoms[i] = t
		atomIdx[t] = i
	}
	return mk(i, False, True)
}

func cof(f B, v int32, hi bool) B {
	n := nodes[f]
	if n.v != v {
		return f
	}
	if hi {
		return n.hi
	}
	return n.lo
}

func Ite(f, g, h B) B {
	switch {
	case f == True:
		return g
	case f == False:
		return h
	case g == h:
		return g
	case g == True && h == False:
		return f
	}
	k := iteKey{f, g, h}
	if r, ok := iteCache[k]; ok {
		return r
	}
	v := nodes[f].v
	if x := nodes[g].v; x < v {
		v = x
	}
	if x := nodes[h].v; x < v {
		v = x
	}
	r := mk(v, Ite(cof(f, v, false), cof(g, v, false), cof(h, v, false)), Ite(cof(f, v, true), cof(g, v, true), cof(h, v, true)))
	iteCache[k] = r
	return r
}

func Not(f B) B        { return Ite(f, False, True) }
func And(f, g B) B     { return Ite(f, g, False) }
func Or(f, g B) B      { return Ite(f, True, g) }
func Implies(f, g B) B { return Ite(f, g, True) }
func Xnor(f, g B) B    { return Ite(f, g, Not(g)) }

func AndAll(fs ...B) B {
	r := True
	for _, f := range fs {
		r = And(r, f)
	}
	return r
}

func OrAll(fs ...B) B {
	r := False
	for _, f := range fs {
		r = Or(r, f)
	}
	return r
}

// restrict simplifies f using care set c (Coudert-Madre restrict).
func restrict(f, c B) B {
	memo := map[[2]B]B{}
	var rec func(f, c B) B
	rec = func(f, c B) B {
		if c == False {
			return False
		}
		if f <= True || c == True {
			return f
		}
		k := [2]B{f, c}
		if r, ok := memo[k]; ok {
			return r
		}
		var r B
		fv, cv := nodes[f].v, nodes[c].v
		switch {
		case cv < fv:
			r = rec(f, Or(nodes[c].lo, nodes[c].hi))
		default:
			v := fv
			c0, c1 := cof(c, v, false), cof(c, v, true)
			switch {
			case c0 == False:
				r = rec(nodes[f].hi, c1)
			case c1 == False:
				r = rec(nodes[f].lo, c0)
			default:
				r = mk(v, rec(nodes[f].lo, c0), rec(nodes[f].hi, c1))
			}
		}
		memo[k] = r
		return r
	}
	return rec(f, c)
}

type canonKey struct{ f, c B }

var canonCache = map[canonKey]B{}

// canon rewrites f, within the care set c, to mention as few atoms as possible. The result does not depend on the variable
// order: atoms are dropped in the order of their text, those of first before the others.
func canon(f, c B, first func(*Term) bool) B {
	if c == False {
		return False
	}
	fc := And(f, c)
	switch fc {
	case False:
		return False
	case c:
		return True
	}
	if first == nil {
		if r, ok := canonCache[canonKey{f, c}]; ok {
			return r
		}
	}
	sup := Support(fc)
	txt := make(map[*Term]string, len(sup))
	for _, a := range sup {
		txt[a] = a.String()
		if first != nil && first(a) {
			txt[a] = "" + "\x00" + txt[a]
		}
	}
	sort.SliceStable(sup, func(i, j int) bool { return txt[sup[i]] < txt[sup[j]] })
	x := fc
	for _, a := range sup {
		v := atomIdx[a]
		y := Or(setVar(x, v, true), setVar(x, v, false))
		if y != x && And(y, c) == fc {
			x = y
		}
	}
	if first == nil {
		canonCache[canonKey{f, c}] = x
	}
	return x
}

// setVar returns f with variable v fixed.
func setVar(f B, v int32, val bool) B {
	memo := map[B]B{}
	var rec func(f B) B
	rec = func(f B) B {
		n := nodes[f]
		if n.v > v {
			return f
		}
		if n.v == v {
			if val {
				return n.hi
			}
			return n.lo
		}
		if r, ok := memo[f]; ok {
			return r
		}
		r := mk(n.v, rec(n.lo), rec(n.hi))
		memo[f] = r
		return r
	}
	return rec(f)
}

// Support returns the atoms in f.
func Support(f B) []*Term {
	seen := map[B]bool{}
	vs := map[int32]bool{}
	var rec func(f B)
	rec = func(f B) {
		if f <= True || seen[f] {
			return
		}
		seen[f] = true
		vs[nodes[f].v] = true
		rec(nodes[f].lo)
		rec(nodes[f].hi)
	}
	rec(f)
	ids := make([]int, 0, len(vs))
	for v := range vs {
		ids = append(ids, int(v))
	}
	sort.Ints(ids)
	out := make([]*Term, len(ids))
	for i, v := range ids {
		out[i] = atoms[int32(v)]
	}
	return out
}

// mapAtoms rebuilds f replacing every atom by the BDD fn returns for it.
func mapAtoms(f B, fn func(*Term) B) B {
	memo := map[B]B{}
	var rec func(f B) B
	rec = func(f B) B {
		if f <= True {
			return f
		}
		if r, ok := memo[f]; ok {
			return r
		}
		n := nodes[f]
		r := Ite(fn(atoms[n.v]), rec(n.hi), rec(n.lo))
		memo[f] = r
		return r
	}
	return rec(f)
}

// AnySat returns one satisfying cube of f as signed atoms.
func AnySat(f B) (pos, neg []*Term, ok bool) {
	if f == False {
		return nil, nil, false
	}
	for f > True {
		n := nodes[f]
		if n.lo != False {
			neg = append(neg, atoms[n.v])
			f = n.lo
		} else {
			pos = append(pos, atoms[n.v])
			f = n.hi
		}
	}
	return pos, neg, true
}

// cubes enumerates up to max cubes of f (for printing only).
func cubes(f B, max int) []string {
	var out []string
	var rec func(f B, cur []string)
	rec = func(f B, cur []string) {
		if f == False || len(out) > max {
			return
		}
		if f == True {
			s := ""
			for i, c := range cur {
				if i > 0 {
					s += " && "
				}
				s += c
			}
			if s == "" {
				s = "true"
			}
			out = append(out, s)
			return
		}
		n := nodes[f]
		c2 := append(append([]string{}, cur...), "!"+atoms[n.v].String())
		rec(n.lo, c2)
		c3 := append(append([]string{}, cur...), atoms[n.v].String())
		rec(n.hi, c3)
	}
	rec(f, nil)
	return out
}

// BoolB is the constant v.
func BoolB(v bool) B {
	if v {
		return True
	}
	return False
}
