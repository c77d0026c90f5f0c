package engine

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed symbolic expression.
type Term struct {
	id   int
	Op   string
	Sym  string
	Args []*Term
	Big  *big.Int // const int / lin constant
	Coef []int64  // lin coefficients, parallel to Args
	B    B        // boolean term payload / guard payload
	GV   GVal     // boxed guarded value
	Typ  types.Type
	str  string

	hasLV    int8 // memo: mentions loop var
	variants map[string]bool
}

// GE is a guarded alternative of a value.
type GE struct {
	G B
	T *Term
}

// GVal is a value described by guarded alternatives.
type GVal []GE

var (
	termTab = map[string]*Term{}
	termCnt int
)

func termKey(op, sym string, args []*Term, extra string) string {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(sym)
	sb.WriteByte('|')
	for _, a := range args {
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte(',')
	}
	sb.WriteString(extra)
	return sb.String()
}

func mkT(op, sym string, args ...*Term) *Term {
	if op == "call" { // a fresh copy of an argument is as good as the argument
		for i, a := range args {
			if a.Op == "&struct" && len(a.Args) == 1 && a.Args[0].Op != "struct" {
				args = append([]*Term{}, args...)
				args[i] = a.Args[0]
			}
		}
	}
	k := termKey(op, sym, args, "")
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{id: termCnt, Op: op, Sym: sym, Args: args}
	termCnt++
	termTab[k] = t
	return t
}

func mkTyped(typ types.Type, op, sym string, args ...*Term) *Term {
	t := mkT(op, sym, args...)
	if t.Typ == nil {
		t.Typ = typ
	}
	return t
}

// MkBool boxes a BDD as a term.
func MkBool(b B) *Term {
	k := termKey("bool", "", nil, strconv.Itoa(int(b)))
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{id: termCnt, Op: "bool", B: b}
	termCnt++
	termTab[k] = t
	return t
}

// MkInt returns an integer constant.
func MkInt(v *big.Int) *Term {
	k := termKey("int", v.String(), nil, "")
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{id: termCnt, Op: "int", Sym: v.String(), Big: v}
	termCnt++
	termTab[k] = t
	return t
}

func mkI(v int64) *Term { return MkInt(big.NewInt(v)) }

var NilT = mkT("nil", "")

func gv1(t *Term) GVal { return GVal{{True, t}} }

func boolV(b B) GVal { return gv1(MkBool(b)) }

// boxGV collapses a guarded value into one term.
func boxGV(v GVal) *Term {
	v = normGV(v)
	if len(v) == 1 {
		return v[0].T
	}
	if len(v) == 0 {
		return mkT("unreachable", "")
	}
	if !sort.SliceIsSorted(v, func(i, j int) bool { return v[i].T.id < v[j].T.id }) {
		v = append(GVal{}, v...)
		sort.SliceStable(v, func(i, j int) bool { return v[i].T.id < v[j].T.id })
	}
	var sb strings.Builder
	for _, e := range v {
		fmt.Fprintf(&sb, "%d:%d;", e.G, e.T.id)
	}
	k := "gv|" + sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{id: termCnt, Op: "gv", GV: v}
	termCnt++
	termTab[k] = t
	return t
}

func unbox(t *Term) GVal {
	if t.Op == "gv" {
		return t.GV
	}
	return gv1(t)
}

// normGV merges equal terms and drops impossible alternatives.
func normGV(v GVal) GVal {
	if len(v) == 1 {
		if v[0].T.Op == "gv" {
			v = v[0].T.GV
		} else {
			return v
		}
	}
	var flat GVal
	allBool := true
	for _, e := range v {
		if e.G == False {
			continue
		}
		if e.T.Op == "gv" {
			for _, s := range e.T.GV {
				if g := And(e.G, s.G); g != False {
					flat = append(flat, GE{g, s.T})
					if s.T.Op != "bool" {
						allBool = false
					}
				}
			}
			continue
		}
		if e.T.Op != "bool" {
			allBool = false
		}
		flat = append(flat, e)
	}
	if len(flat) == 0 {
		return flat
	}
	if allBool && len(flat) > 1 {
		r := False
		for _, e := range flat {
			r = Or(r, And(e.G, e.T.B))
		}
		return boolV(r)
	}
	idx := map[*Term]int{}
	var out GVal
	for _, e := range flat {
		if i, ok := idx[e.T]; ok {
			out[i].G = Or(out[i].G, e.G)
			continue
		}
		idx[e.T] = len(out)
		out = append(out, e)
	}
	if len(out) == 1 {
		out[0].G = True
	}
	return out
}

func gvEq(a, b GVal) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- linear

// lin is a linear combination sum coef*term + c.
type lin struct {
	m map[*Term]int64
	c *big.Int
}

func toLin(t *Term) lin {
	switch t.Op {
	case "int":
		return lin{map[*Term]int64{}, new(big.Int).Set(t.Big)}
	case "lin":
		m := map[*Term]int64{}
		for i, a := range t.Args {
			m[a] = t.Coef[i]
		}
		return lin{m, new(big.Int).Set(t.Big)}
	}
	return lin{map[*Term]int64{t: 1}, new(big.Int)}
}

func (l lin) add(o lin, k int64) lin {
	m := map[*Term]int64{}
	for t, c := range l.m {
		m[t] = c
	}
	for t, c := range o.m {
		m[t] += k * c
		if m[t] == 0 {
			delete(m, t)
		}
	}
	c := new(big.Int).Mul(o.c, big.NewInt(k))
	return lin{m, c.Add(c, l.c)}
}

func (l lin) sorted() []*Term {
	ts := make([]*Term, 0, len(l.m))
	for t := range l.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].String() < ts[j].String() })
	return ts
}

func (l lin) term() *Term {
	if len(l.m) == 0 {
		return MkInt(l.c)
	}
	ts := l.sorted()
	if len(ts) == 1 && l.c.Sign() == 0 && l.m[ts[0]] == 1 {
		return ts[0]
	}
	var sb strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&sb, "%d*%d+", l.m[t], t.id)
	}
	sb.WriteString(l.c.String())
	k := "lin|" + sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	r := &Term{id: termCnt, Op: "lin", Args: ts, Big: l.c}
	termCnt++
	for _, t := range ts {
		r.Coef = append(r.Coef, l.m[t])
		if r.Typ == nil {
			r.Typ = t.Typ
		}
	}
	termTab[k] = r
	return r
}

func Add(a, b *Term) *Term { return toLin(a).add(toLin(b), 1).term() }
func Sub(a, b *Term) *Term { return toLin(a).add(toLin(b), -1).term() }
func Mul(a, b *Term) *Term {
	if a.Op != "int" && b.Op == "int" {
		a, b = b, a
	}
	if a.Op == "int" {
		if b.Op == "int" {
			return MkInt(new(big.Int).Mul(a.Big, b.Big))
		}
		if a.Big.IsInt64() {
			return lin{map[*Term]int64{}, new(big.Int)}.add(toLin(b), a.Big.Int64()).term()
		}
	}
	for i := 0; i < 2; i++ {
		if isPow2(b) && a.Op == "lin" { // powers of two are distributed, so that shifts and products agree
			l := toLin(a)
			r := lin{map[*Term]int64{}, new(big.Int)}
			for t, c := range l.m {
				r = r.add(toLin(Mul(t, b)), c)
			}
			if l.c.Sign() != 0 && l.c.IsInt64() {
				r = r.add(toLin(b), l.c.Int64())
			}
			return r.term()
		}
		a, b = b, a
	}
	if a.String() > b.String() {
		a, b = b, a
	}
	return mkTyped(a.Typ, "*", "", a, b)
}

// isPow2: 1 << n for an unknown n.
func isPow2(t *Term) bool { return t.Op == "<<" && len(t.Args) == 2 && t.Args[0] == mkI(1) }

func pow2(n *Term, rt types.Type) *Term { return mkTyped(rt, "<<", "", mkI(1), n) }

// ---------------------------------------------------------------- atoms

func isUnsigned(t *Term) bool {
	if t.Op == "len" {
		return true
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok {
			return b.Info()&types.IsUnsigned != 0
		}
	}
	return false
}

// unsignedBits is the width of an atomic unsigned term (0 if unknown).
func unsignedBits(t *Term) int {
	if t.Typ == nil || t.Op == "lin" || t.Op == "gv" {
		return 0
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8:
		return 8
	case types.Uint16:
		return 16
	case types.Uint32:
		return 32
	case types.Uint64:
		return 64
	}
	return 0
}

func isFloaty(t *Term) bool {
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok {
			return b.Info()&(types.IsFloat|types.IsString) != 0
		}
	}
	return t.Op == "str" || t.Op == "float"
}

// LtB is the canonical BDD for a < b.
func LtB(a, b *Term) B {
	if a.Op == "gv" || b.Op == "gv" {
		return lift2(a, b, LtB)
	}
	if a.Op == "cmp" && b.Op == "int" && b.Big.IsInt64() {
		switch b.Big.Int64() {
		case 0:
			return LtB(a.Args[0], a.Args[1])
		case 1:
			return Not(LtB(a.Args[1], a.Args[0]))
		case -1:
			return False
		case 2:
			return True
		}
	}
	if b.Op == "cmp" && a.Op == "int" && a.Big.IsInt64() {
		switch a.Big.Int64() {
		case 0:
			return LtB(b.Args[1], b.Args[0])
		case -1:
			return Not(LtB(b.Args[0], b.Args[1]))
		}
	}
	if a == b {
		return False
	}
	if a == zeroInt() {
		if x, n, _ := bitTest(b); x != nil {
			return bitB(x, n)
		}
	}
	if a.Op == "int" && b.Op == "int" {
		if a.Big.Cmp(b.Big) < 0 {
			return True
		}
		return False
	}
	if bits := unsignedBits(b); a.Op == "int" && bits > 0 && a.Big.BitLen() >= bits && new(big.Int).Add(a.Big, big.NewInt(1)).BitLen() > bits {
		return False // nothing exceeds the maximum of the type
	}
	if bits := unsignedBits(a); b.Op == "int" && bits > 0 && b.Big.BitLen() > bits {
		return True
	}
	if a.Op == "int" && !isFloaty(b) {
		return Not(LtB(b, MkInt(new(big.Int).Add(a.Big, big.NewInt(1)))))
	}
	if b.Op == "int" && a.Op == "lin" {
		if l := toLin(a); len(l.m) == 1 && l.c.BitLen() < 32 {
			for x, k := range l.m {
				if x.Op == "len" && k == 1 { // lengths do not wrap around
					if c := new(big.Int).Sub(b.Big, l.c); c.Sign() <= 0 {
						return False
					} else {
						return LtB(x, MkInt(c))
					}
				}
			}
		}
	}
	if b.Op == "int" {
		if c, k := countPlus(a); c != nil {
			d := new(big.Int).Sub(b.Big, k)
			switch {
			case d.Sign() <= 0:
				return False
			case d.Cmp(big.NewInt(1)) == 0:
				return countZero(c)
			}
			return AtomVar(mkT("lt", "", c, MkInt(d)))
		}
	}
	if b.Op == "int" && isUnsigned(a) {
		if b.Big.Sign() <= 0 {
			return False
		}
		if b.Big.Cmp(big.NewInt(1)) == 0 {
			return EqB(a, mkI(0))
		}
	}
	if a.Op == "iface" {
		a = a.Args[0]
	}
	if b.Op == "iface" {
		b = b.Args[0]
	}
	if (a.Op == "lin" || b.Op == "lin") && (isBig(a) || isBig(b)) {
		return ltBig(a, b)
	}
	if v, ok := ltIndex(a, b); ok {
		return v
	}
	if a.Op == "lin" || b.Op == "lin" {
		a, b = splitIndex(a, b)
	}
	return AtomVar(mkT("lt", "", a, b))
}

// splitIndex: comparisons of lengths and positions without subtractions.
func splitIndex(a, b *Term) (*Term, *Term) {
	d := toLin(b).add(toLin(a), -1)
	l, r := lin{map[*Term]int64{}, new(big.Int)}, lin{map[*Term]int64{}, new(big.Int).Set(d.c)}
	for t, c := range d.m {
		if !isPos(t) {
			return a, b
		}
		if c < 0 {
			l.m[t] = -c
		} else {
			r.m[t] = c
		}
	}
	if len(l.m) == 0 || len(r.m) == 0 {
		return a, b
	}
	if d.c.Sign() < 0 {
		l.c, r.c = r.c.Neg(r.c), l.c
	}
	return l.term(), r.term()
}

// ltIndex decides comparisons of lengths and of positions of elements within them, which never wrap around.
func ltIndex(a, b *Term) (B, bool) {
	d := toLin(b).add(toLin(a), -1)
	lo, hi := new(big.Int).Set(d.c), new(big.Int).Set(d.c) // bounds of the difference
	loOK, hiOK := true, true
	rest := map[*Term]int64{}
	for t, c := range d.m {
		if !isPos(t) {
			return False, false
		}
		rest[t] = c
	}
	if len(rest) == 0 { // the same position, displaced
		for t := range toLin(a).m {
			if !isPos(t) {
				return False, false
			}
		}
		return BoolB(d.c.Sign() > 0), true
	}
	for t, c := range d.m {
		if t.Op == "len" {
			continue
		}
		n := mkLen(t.Args[0])
		if t.Args[0].Op == "upto" {
			n = t.Args[0].Args[0]
		}
		if n.Op == "lin" {
			nl := toLin(n)
			all := len(nl.m) > 0
			for u, k := range nl.m {
				all = all && rest[u] == -c*k
			}
			if !all {
				continue
			}
			// c * t = c * n + (-c) * (n - t), where n - t >= 1
			for u, k := range nl.m {
				rest[u] += c * k
			}
			cc := new(big.Int).Mul(big.NewInt(c), nl.c)
			lo.Add(lo, cc)
			hi.Add(hi, cc)
			if c < 0 {
				lo.Add(lo, big.NewInt(-c))
				hiOK = false
			} else {
				hi.Sub(hi, big.NewInt(c))
				loOK = false
			}
			rest[t] = 0
			continue
		}
		if n.Op == "int" || rest[n] == 0 || rest[n] > 0 == (c > 0) {
			continue
		}
		k := min(abs64(c), abs64(rest[n]))
		if c < 0 { // k * (len - idx) >= k
			lo.Add(lo, big.NewInt(k))
			hiOK = false
			rest[t], rest[n] = c+k, rest[n]-k
		} else {
			hi.Sub(hi, big.NewInt(k))
			loOK = false
			rest[t], rest[n] = c-k, rest[n]+k
		}
	}
	for t, c := range rest {
		if c < 0 {
			loOK = false
			if t.Op == "call" { // at least -1
				hi.Sub(hi, big.NewInt(c))
			}
		}
		if c > 0 {
			hiOK = false
			if t.Op == "call" { // at least -1
				lo.Sub(lo, big.NewInt(c))
			}
		}
	}
	switch {
	case loOK && lo.Sign() > 0:
		return True, true
	case hiOK && hi.Sign() <= 0:
		return False, true
	}
	return False, false
}

// isText: strings, as far as known.
func isText(t *Term) bool {
	if t.Typ != nil {
		b, ok := t.Typ.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	switch {
	case t.Op == "slice" && len(t.Args) > 0:
		return isText(t.Args[0])
	case t.Op == "call":
		return t.Sym == "strings.ToLower" || t.Sym == "strings.ToUpper"
	}
	return false
}

// isPos: lengths and positions.
func isPos(t *Term) bool {
	switch t.Op {
	case "len", "idx", "witidx":
		return true
	case "key":
		return isText(t.Args[0])
	case "call": // the position of something in its first argument, or -1
		switch t.Sym {
		case "strings.LastIndex", "strings.Index", "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune", "bytes.Index", "bytes.LastIndex", "bytes.IndexByte", "bytes.LastIndexByte":
			return true
		}
	}
	return false
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// isBig: arbitrary precision integers, for which comparisons of differences are exact.
func isBig(t *Term) bool {
	if t.Op == "lin" {
		for _, a := range t.Args {
			if isBig(a) {
				return true
			}
		}
		return false
	}
	return t.Typ != nil && t.Typ.String() == "*math/big.Int"
}

func ltBig(a, b *Term) B {
	d := toLin(a).add(toLin(b), -1)
	neg := false
	switch {
	case d.c.Sign() == 0:
	case d.c.IsInt64() && d.c.Int64() == -1:
		neg = true
	default:
		ts := d.sorted()
		neg = len(ts) > 0 && d.m[ts[0]] < 0
	}
	if neg { // d < 0  <=>  not (-d - 1 < 0)
		d = lin{map[*Term]int64{}, big.NewInt(-1)}.add(d, -1)
	}
	l, r := lin{map[*Term]int64{}, new(big.Int)}, lin{map[*Term]int64{}, new(big.Int)}
	for t, c := range d.m {
		if c > 0 {
			l.m[t] = c
		} else {
			r.m[t] = -c
		}
	}
	if d.c.Sign() > 0 {
		l.c = d.c
	} else {
		r.c = new(big.Int).Neg(d.c)
	}
	x, y := l.term(), r.term()
	var v B
	if x.Op == "int" && y.Op == "int" {
		v = False
		if x.Big.Cmp(y.Big) < 0 {
			v = True
		}
	} else {
		v = AtomVar(mkT("lt", "", x, y))
	}
	if neg {
		return Not(v)
	}
	return v
}

func lift2(a, b *Term, f func(a, b *Term) B) B {
	r := False
	for _, x := range unbox(a) {
		for _, y := range unbox(b) {
			if g := And(x.G, y.G); g != False {
				r = Or(r, And(g, f(x.T, y.T)))
			}
		}
	}
	return r
}

// nonNil reports whether the term can never be nil.
func nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "closure", "fn", "err", "iface", "str", "makemap", "makeslice", "struct", "mapset", "mapfill", "mapsum", "int", "sliceof", "subof", "cat", "zeros", "bool", "&field", "&index", "&struct", "nonnil", "dupmap", "sentinel":
		return true
	case "list":
		return len(t.Args) > 0
	case "append":
		return true
	case "global":
		return t.Sym != "" && strings.Contains(t.Sym, ".Err")
	}
	return false
}

// NonNilOps lists call names whose first result is never nil.
var NonNilCalls = map[string]bool{}

// countPlus splits t into a number of elements (of a whole collection, or of the elements before the current one) and a
// constant; such a number never exceeds the length of the collection, so adding a small constant does not wrap.
func countPlus(t *Term) (*Term, *big.Int) {
	isCount := func(c *Term) bool {
		if c.Op == "pre" {
			c = c.Args[0]
		}
		if c.Op != "sum" || len(c.Args) != 2 || c.Args[1] != mkI(1) || c.Typ == nil {
			return false
		}
		b, ok := c.Typ.Underlying().(*types.Basic)
		if !ok {
			return false
		}
		switch b.Kind() {
		case types.Int, types.Int64, types.Uint, types.Uint64, types.UntypedInt:
			return true
		}
		return false
	}
	if isCount(t) {
		return t, new(big.Int)
	}
	if t.Op == "lin" {
		l := toLin(t)
		if len(l.m) == 1 && l.c.Sign() >= 0 && l.c.BitLen() < 32 {
			for c, k := range l.m {
				if k == 1 && isCount(c) {
					return c, l.c
				}
			}
		}
	}
	return nil, nil
}

// countZero: none of the elements is counted.
func countZero(c *Term) B {
	if c.Op == "pre" {
		return Not(TruthB(mkT("pre", "", MkBool(countSome(c.Args[0])))))
	}
	return Not(countSome(c))
}

func countSome(c *Term) B { return existsAtom(c.Args[0], c.Sym, c.B) }

// EqB is the canonical BDD for a == b.
func EqB(a, b *Term) B {
	if a == b {
		return True
	}
	if a.Op == "gv" || b.Op == "gv" {
		return lift2(a, b, EqB)
	}
	if a.Op == "bool" && b.Op == "bool" {
		return Xnor(a.B, b.B)
	}
	if a.Op == "bool" {
		return Xnor(a.B, TruthB(b))
	}
	if b.Op == "bool" {
		return Xnor(b.B, TruthB(a))
	}
	if a.Op == "iface" && b.Op == "iface" {
		return EqB(a.Args[0], b.Args[0])
	}
	if a.Op == "iface" && b.Op != "nil" {
		return EqB(a.Args[0], b)
	}
	if b.Op == "iface" && a.Op != "nil" {
		return EqB(a, b.Args[0])
	}
	if a.Op == "nil" {
		a, b = b, a
	}
	if b.Op == "nil" {
		if nonNil(a) {
			return False
		}
		switch a.Op {
		case "lookup":
			return Not(HasB(a.Args[0], a.Args[1]))
		case "list":
			if len(a.Args) == 0 {
				return True
			}
		case "call":
			if NonNilCalls[a.Sym] {
				return False
			}
		case "zero":
			return True
		case "field", "elem", "index":
		}
		return AtomVar(mkT("eq", "", a, b))
	}
	if a.Op == "int" || b.Op == "int" {
		x, y := a, b
		if x.Op == "int" {
			x, y = y, x
		}
		if c, k := countPlus(x); c != nil {
			switch d := new(big.Int).Sub(y.Big, k); d.Sign() {
			case -1:
				return False
			case 0:
				return countZero(c)
			}
		}
	}
	if a.Op == "int" && b.Op == "int" || a.Op == "str" && b.Op == "str" {
		return False // distinct (a==b handled)
	}
	if a.Op == "int" {
		a, b = b, a
	}
	for i := 0; i < 2; i++ {
		if x, n, one := bitTest(a); x != nil {
			switch {
			case b == zeroInt():
				return Not(bitB(x, n))
			case b == one:
				return bitB(x, n)
			case b.Op == "int" && one.Op == "int":
				return False
			}
		}
		if r, ok := maskedZero(a, b); ok {
			return r
		}
		a, b = b, a
	}
	if a.Op == "cmp" && b.Op == "int" && b.Big.IsInt64() {
		switch b.Big.Int64() {
		case 0:
			return EqB(a.Args[0], a.Args[1])
		case -1:
			return LtB(a.Args[0], a.Args[1])
		case 1:
			return LtB(a.Args[1], a.Args[0])
		}
		return False
	}
	if a.Op == "global" && b.Op == "global" && nonNil(a) && nonNil(b) {
		return False
	}
	if a.Op == "alloc" && b.Op == "alloc" {
		return False
	}
	if a.Op == "lin" || b.Op == "lin" {
		d := toLin(a).add(toLin(b), -1)
		if len(d.m) == 0 {
			if d.c.Sign() == 0 {
				return True
			}
			return False
		}
		ts := d.sorted()
		if d.m[ts[0]] < 0 {
			d = lin{map[*Term]int64{}, new(big.Int)}.add(d, -1)
		}
		l, r := lin{map[*Term]int64{}, new(big.Int)}, lin{map[*Term]int64{}, new(big.Int)}
		for t, c := range d.m {
			if c > 0 {
				l.m[t] = c
			} else {
				r.m[t] = -c
			}
		}
		if d.c.Sign() > 0 {
			l.c.Set(d.c)
		} else {
			r.c.Neg(d.c)
		}
		a, b = l.term(), r.term()
		return AtomVar(mkT("eq", "", a, b))
	}
	if b.Op != "int" && b.Op != "str" && (a.Op == "str" || a.String() > b.String()) {
		a, b = b, a
	}
	return AtomVar(mkT("eq", "", a, b))
}

func zeroInt() *Term { return mkI(0) }

// Zero is the integer 0.
func Zero() *Term { return zeroInt() }

// bitTest recognises the selection of one bit of x: its number, and the value the expression has when the bit is set.
func bitTest(t *Term) (x, n, one *Term) {
	if t.Op != "&" || len(t.Args) != 2 {
		return nil, nil, nil
	}
	for i, m := range t.Args {
		o := t.Args[1-i]
		if m.Op == "int" && m.Big.Sign() > 0 && m.Big.TrailingZeroBits() == uint(m.Big.BitLen()-1) {
			k := int64(m.Big.BitLen() - 1)
			if k == 0 && o.Op == ">>" {
				return o.Args[0], o.Args[1], m
			}
			return o, mkI(k), m
		}
	}
	for i, m := range t.Args {
		if m.Op == "<<" && m.Args[0] == mkI(1) {
			return t.Args[1-i], m.Args[1], m
		}
	}
	return nil, nil, nil
}

// bitB: bit n of x is set.
func bitB(x, n *Term) B {
	if n.Op == "int" && n.Big.IsInt64() && n.Big.Int64() < 64 {
		n = mkI(n.Big.Int64())
	}
	return AtomVar(mkT("bit", "", x, n))
}

// HasB is the canonical BDD for key presence.
func HasB(m, k *Term) B {
	if m.Op == "gv" || k.Op == "gv" {
		return lift2(m, k, HasB)
	}
	for {
		switch m.Op {
		case "nil", "zero", "makemap":
			return False
		case "mapset":
			return Or(EqB(m.Args[1], k), HasB(m.Args[0], k))
		case "mapdel":
			return And(Not(EqB(m.Args[1], k)), HasB(m.Args[0], k))
		case "mapfill", "mapsum":
			// Args: init, dom, key, val ; B guard
			if k.Op == "key" && k.Args[0] == m {
				return True
			}
			if r, ok := filled(m, k); ok {
				return Or(HasB(m.Args[0], k), r)
			}
			return Or(HasB(m.Args[0], k), AtomVar(mkT("has", "", keyView(m), k)))
		}
		break
	}
	if k.Op == "key" && k.Args[0] == m {
		return True
	}
	if m.Op == "fold" || m.Op == "pre" && m.Args[0].Op == "fold" {
		f := m
		if m.Op == "pre" {
			f = m.Args[0]
		}
		if b, ok := memberOfFold(f, k); ok {
			if m.Op == "pre" {
				return TruthB(mkT("pre", "", MkBool(b)))
			}
			return b
		}
	}
	return AtomVar(mkT("has", "", keyView(m), k))
}

// filled: some element stores an entry under k.
func filled(m, k *Term) (B, bool) {
	dom, tag, g, key := m.Args[1], m.Sym, m.B, m.Args[2]
	if hasOp(key, "acc") || bHasOp(g, "acc") {
		return False, false
	}
	for mentions(k, domVars(dom, tag), map[*Term]bool{}) {
		tag += "'"
	}
	if tag != m.Sym {
		s := NewSubst(retag(dom, m.Sym, tag))
		g, key = s.BDD(g), s.T(key)
	}
	return existsRaw(dom, tag, And(g, EqB(key, k))), true
}

// memberOfFold: membership in a map that is empty at first and filled by a loop nested in a loop.
func memberOfFold(f, k *Term) (B, bool) {
	if f.B != True || len(f.Args) != 3 {
		return False, false
	}
	if i := f.Args[0]; i.Op != "makemap" && i.Op != "nil" && i.Op != "zero" {
		return False, false
	}
	dom, tag := f.Args[1], f.Sym
	body := f.Args[2]
	for mentions(k, domVars(dom, tag), map[*Term]bool{}) {
		tag += "'"
	}
	if tag != f.Sym {
		body = NewSubst(retag(dom, f.Sym, tag)).T(body)
	}
	r := False
	for _, a := range unbox(body) {
		if a.T.Op == "acc" {
			continue
		}
		if a.T.Op != "mapfill" || a.T.Args[0].Op != "acc" {
			return False, false
		}
		d2, t2 := a.T.Args[1], a.T.Sym
		g, key := a.T.B, a.T.Args[2]
		for mentions(k, domVars(d2, t2), map[*Term]bool{}) {
			t2 += "'"
		}
		if t2 != a.T.Sym {
			s := NewSubst(retag(d2, a.T.Sym, t2))
			g, key = s.BDD(g), s.T(key)
		}
		r = Or(r, And(a.G, existsRaw(d2, t2, And(g, EqB(key, k)))))
	}
	return existsRaw(dom, tag, r), true
}

func retag(dom *Term, from, to string) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, op := range []string{"elem", "idx", "key"} {
		o := mkT(op, from, dom)
		m[o] = mkTyped(o.Typ, op, to, dom)
	}
	return m
}

// keyView forgets the values of a filled map: membership depends on the keys only.
func keyView(m *Term) *Term {
	switch m.Op {
	case "mapfill", "mapsum":
		if i := m.Args[0]; i.Op == "makemap" || i.Op == "nil" || i.Op == "zero" {
			return mkGuarded("mapfill", m.Sym, m.B, nil, mkT("makemap", ""), m.Args[1], m.Args[2], mkI(0))
		}
	case "pre":
		if k := keyView(m.Args[0]); k != m.Args[0] {
			return mkT("pre", "", k)
		}
	}
	return m
}

// TruthB turns a boolean-typed term into a BDD.
func TruthB(t *Term) B {
	switch t.Op {
	case "bool":
		return t.B
	case "gv":
		r := False
		for _, e := range t.GV {
			r = Or(r, And(e.G, TruthB(e.T)))
		}
		return r
	case "zero":
		return False
	case "iface":
		return TruthB(t.Args[0])
	}
	return AtomVar(mkT("true", "", t))
}

// IsB is the canonical BDD for a dynamic type test.
func IsB(x *Term, typ types.Type) B {
	if x.Op == "gv" {
		r := False
		for _, e := range x.GV {
			r = Or(r, And(e.G, IsB(e.T, typ)))
		}
		return r
	}
	b := isTypeB(x, typ)
	if x.Op == "lookup" { // nothing is stored under a missing key
		return And(HasB(x.Args[0], x.Args[1]), b)
	}
	return b
}

func isTypeB(x *Term, typ types.Type) B {
	if x.Op == "nil" || x.Op == "zero" {
		return False
	}
	if x.Op == "&struct" && x.Args[0].Op == "gv" {
		r := False
		for _, a := range x.Args[0].GV {
			r = Or(r, And(a.G, isTypeB(mkTyped(x.Typ, "&struct", "", a.T), typ)))
		}
		return r
	}
	if dt := dynType(x); dt != nil {
		if typeMatches(dt, typ) {
			return True
		}
		return False
	}
	a := mkT("is", typeName(typ), x)
	if a.Typ == nil {
		a.Typ = typ
	}
	return AtomVar(a)
}

func typeMatches(dt, typ types.Type) bool {
	if it, ok := typ.Underlying().(*types.Interface); ok {
		return types.Implements(dt, it)
	}
	return types.Identical(dt, typ)
}

var dynTypes = map[*Term]types.Type{}

func dynType(x *Term) types.Type {
	if x.Op == "iface" || x.Op == "alloc" {
		return x.Typ
	}
	if t := dynTypes[x]; t != nil {
		return t
	}
	switch x.Op {
	case "&struct":
		if o := x.Args[0]; (o.Op == "out" || o.Op == "struct") && o.Typ != nil && !types.IsInterface(o.Typ) {
			return types.NewPointer(o.Typ)
		}
	case "param", "field", "elem", "&field":
		if p, ok := x.Typ.(*types.Pointer); ok { // a value of a pointer type has that type under any interface
			if n, ok := p.Elem().(*types.Named); ok && !types.IsInterface(n) {
				return x.Typ
			}
		}
	}
	return nil
}

// unalias replaces alias names by the types they stand for.
func unalias(t types.Type) types.Type {
	switch u := types.Unalias(t).(type) {
	case *types.Pointer:
		if e := unalias(u.Elem()); e != u.Elem() {
			return types.NewPointer(e)
		}
		return u
	case *types.Slice:
		if e := unalias(u.Elem()); e != u.Elem() {
			return types.NewSlice(e)
		}
		return u
	case *types.Map:
		k, e := unalias(u.Key()), unalias(u.Elem())
		if k != u.Key() || e != u.Elem() {
			return types.NewMap(k, e)
		}
		return u
	default:
		return u
	}
}

func typeName(t types.Type) string {
	t = unalias(t)
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string {
	if t.str == "" {
		t.str = t.render()
		if len(t.str) > MaxStr+100 {
			t.str = t.str[:MaxStr] + "...#" + itoa(t.id)
		}
	}
	return t.str
}

func (t *Term) render() string {
	args := func(from int) string {
		var ss []string
		for _, a := range t.Args[from:] {
			ss = append(ss, a.String())
		}
		return strings.Join(ss, ", ")
	}
	switch t.Op {
	case "param":
		n, _, _ := strings.Cut(t.Sym, "\x00")
		return n
	case "int", "str", "float":
		return t.Sym
	case "nil":
		return "nil"
	case "global":
		return t.Sym
	case "field":
		return t.Args[0].String() + "." + t.Sym
	case "index":
		return t.Args[0].String() + "[" + t.Args[1].String() + "]"
	case "lookup":
		return t.Args[0].String() + "[" + t.Args[1].String() + "]"
	case "call", "invoke":
		return t.Sym + "(" + args(0) + ")"
	case "res":
		return t.Args[0].String() + "#" + t.Sym
	case "lin":
		s := ""
		for i, a := range t.Args {
			c := t.Coef[i]
			if c < 0 {
				s += " - "
				c = -c
			} else if i > 0 {
				s += " + "
			}
			if c != 1 {
				s += fmt.Sprintf("%d*", c)
			}
			s += a.String()
		}
		if t.Big.Sign() > 0 {
			s += " + " + t.Big.String()
		} else if t.Big.Sign() < 0 {
			s += " - " + new(big.Int).Neg(t.Big).String()
		}
		return "(" + strings.TrimSpace(s) + ")"
	case "eq":
		return t.Args[0].String() + " == " + t.Args[1].String()
	case "lt":
		return t.Args[0].String() + " < " + t.Args[1].String()
	case "is":
		return "is(" + t.Args[0].String() + ", " + t.Sym + ")"
	case "true":
		return t.Args[0].String()
	case "bool":
		return "{" + t.B.String() + "}"
	case "gv":
		var ss []string
		for _, e := range t.GV {
			ss = append(ss, e.G.String()+" -> "+e.T.String())
		}
		return "gv{" + strings.Join(ss, "; ") + "}"
	case "exists":
		return "exists(" + args(0) + ": " + t.B.String() + ")"
	case "sum":
		return "sum(" + args(0) + " | " + t.B.String() + ")"
	case "mapfill", "mapsum", "collect", "fold", "last", "firstelem", "firstidx", "firstkey":
		return t.Op + "(" + args(0) + " | " + t.B.String() + ")"
	}
	s := t.Op
	if t.Sym != "" {
		s += "<" + t.Sym + ">"
	}
	if len(t.Args) == 0 {
		return s
	}
	return s + "(" + args(0) + ")"
}

// MaxStr bounds the display of a term.
var MaxStr = 1400

// MaxCubes bounds the display of a condition.
var MaxCubes = 6

func (b B) String() string {
	switch b {
	case True:
		return "true"
	case False:
		return "false"
	}
	cs := cubes(b, MaxCubes)
	if len(cs) > MaxCubes {
		return fmt.Sprintf("<bdd%d>", b)
	}
	return strings.Join(cs, " || ")
}

// WithVal is the map m with another value under each key.
func WithVal(m, v *Term) *Term {
	return mkGuarded("mapfill", m.Sym, m.B, nil, m.Args[0], m.Args[1], m.Args[2], v)
}
