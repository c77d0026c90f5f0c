package engine

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- byte sequences
//
// cat(a, b, ...)   concatenation (canonical: flattened, no empty parts)
// zeros(n)         n zero bytes
// le(x) "16"       little endian encoding of x
// slice(x, lo, hi) part of x (hi "none": to the end)

func constLen(t *Term) (int64, bool) {
	l := mkLen(t)
	if l.Op == "int" && l.Big.IsInt64() {
		return l.Big.Int64(), true
	}
	return 0, false
}

func isByteSeq(t types.Type) bool {
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	el := elemType(t)
	if el == nil {
		return false
	}
	b, ok := el.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func zeros(n int64) *Term { return mkT("zeros", MkInt(big.NewInt(n)).Sym) }

func bytesOf(t *Term) []*Term {
	switch t.Op {
	case "cat":
		return t.Args
	case "nil":
		return nil
	case "sink":
		if t.Sym == "buffer" { // nothing was written before
			return nil
		}
	case "list":
		if len(t.Args) == 0 {
			return nil
		}
	case "zero":
		if t.Typ != nil {
			if a, ok := t.Typ.Underlying().(*types.Array); ok {
				return []*Term{zeros(a.Len())}
			}
		}
	case "str":
		if t.Sym == `""` {
			return nil
		}
	}
	return []*Term{t}
}

func mkCat(typ types.Type, parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		for _, q := range bytesOf(p) {
			if n := len(out); n > 0 {
				l := out[n-1]
				if l.Op == "list" && q.Op == "list" {
					out[n-1] = mkTyped(l.Typ, "list", "", append(append([]*Term{}, l.Args...), q.Args...)...)
					continue
				}
				if l.Op == "zeros" && q.Op == "zeros" {
					a, _ := constLen(l)
					b, _ := constLen(q)
					out[n-1] = zeros(a + b)
					continue
				}
				// slice(x,a,b) followed by slice(x,b,c)
				if l.Op == "slice" && q.Op == "slice" && l.Args[0] == q.Args[0] && l.Args[2] == q.Args[1] {
					out[n-1] = mkSlice(l.Typ, l.Args[0], l.Args[1], q.Args[2])
					continue
				}
			}
			out = append(out, q)
		}
	}
	switch len(out) {
	case 0:
		return mkTyped(typ, "list", "")
	case 1:
		return out[0]
	}
	return mkTyped(typ, "cat", "", out...)
}

// mkSlice is x[lo:hi] of a value.
func mkSlice(typ types.Type, x, lo, hi *Term) *Term {
	if x.Op == "gv" {
		return boxGV(map1(x.GV, func(a *Term) *Term { return mkSlice(typ, a, lo, hi) }))
	}
	if lo.Op == "gv" {
		return boxGV(map1(lo.GV, func(a *Term) *Term { return mkSlice(typ, x, a, hi) }))
	}
	if hi.Op == "gv" {
		return boxGV(map1(hi.GV, func(a *Term) *Term { return mkSlice(typ, x, lo, a) }))
	}
	loC := lo.Op == "int" && lo.Big.IsInt64()
	hiC := hi.Op == "int" && hi.Big.IsInt64()
	n, nC := constLen(x)
	if hi.Op == "none" && nC {
		hi = mkI(n)
		hiC = true
	}
	if loC && hiC && lo.Big.Cmp(hi.Big) == 0 {
		return mkTyped(typ, "list", "")
	}
	if loC && lo.Big.Sign() == 0 {
		if hi.Op == "none" || hi == mkLen(x) {
			return x
		}
		if hiC && hi.Big.Sign() == 0 {
			return mkTyped(typ, "list", "")
		}
	}
	if hi.Op != "none" && hi == mkLen(x) {
		hi = mkT("none", "")
	}
	l := int64(0)
	if loC {
		l = lo.Big.Int64()
	}
	switch x.Op {
	case "list":
		if loC && (hiC || hi.Op == "none") {
			h := int64(len(x.Args))
			if hi.Op == "int" {
				h = hi.Big.Int64()
			}
			if l >= 0 && l <= h && h <= int64(len(x.Args)) {
				return mkTyped(typ, "list", "", x.Args[l:h]...)
			}
		}
	case "zeros":
		if loC && hiC {
			return zeros(hi.Big.Int64() - l)
		}
	case "slice":
		// x = slice(y, a, b): y[a+lo : a+hi]
		nl := Add(x.Args[1], lo)
		nh := x.Args[2]
		if hi.Op != "none" {
			nh = Add(x.Args[1], hi)
		}
		return mkSlice(typ, x.Args[0], nl, nh)
	case "cat":
		if loC && (hi.Op == "none" || hi.Op == "int") {
			var out []*Term
			pos := int64(0)
			want := int64(-1)
			if hi.Op == "int" {
				want = hi.Big.Int64()
			}
			ok := true
			for i, p := range x.Args {
				pl, pc := constLen(p)
				if want >= 0 && pos >= want {
					break
				}
				if !pc {
					if pos >= l && want < 0 { // rest of unknown length, taken whole
						out = append(out, x.Args[i:]...)
						pos = -1
						break
					}
					ok = false
					break
				}
				a, b := int64(0), pl
				if l > pos {
					a = l - pos
				}
				if want >= 0 && want < pos+pl {
					b = want - pos
				}
				if a < b {
					out = append(out, mkSlice(typ, p, mkI(a), mkI(b)))
				}
				pos += pl
			}
			if ok {
				return mkCat(typ, out...)
			}
		}
	}
	return mkTyped(typ, "slice", "", x, lo, hi)
}

// mkPart is buffer old (typ) with src copied over [lo, hi).
func mkPart(typ types.Type, old, lo, hi, src *Term) *Term {
	if src.Op == "gv" {
		return boxGV(map1(src.GV, func(a *Term) *Term { return mkPart(typ, old, lo, hi, a) }))
	}
	if lo.Op == "int" && lo.Big.Sign() == 0 && old.Op == "makeslice" && len(old.Args) > 0 && old.Args[0] == hi && mkLen(src) == hi {
		return src // the whole buffer
	}
	n, nC := constLen(old)
	if typ != nil && !nC {
		if a, ok := typ.Underlying().(*types.Array); ok {
			n, nC = a.Len(), true
		}
	}
	if hi.Op == "none" && nC {
		hi = mkI(n)
	}
	if nC && lo.Op == "int" && hi.Op == "int" && isByteSeq(typ) {
		l, h := lo.Big.Int64(), hi.Big.Int64()
		sl, sc := constLen(src)
		seg := src
		if !sc {
			seg = mkT("fit", itoa(int(h-l)), src)
		} else if sl > h-l {
			seg = mkSlice(nil, src, mkI(0), mkI(h-l))
		} else if sl < h-l {
			h = l + sl
		}
		if l >= 0 && h <= n && l <= h {
			return retype(typ, mkCat(typ, mkSlice(nil, old, mkI(0), mkI(l)), seg, mkSlice(nil, old, mkI(h), mkI(n))))
		}
	}
	return mkTyped(typ, "part", "", old, lo, hi, src)
}

func retype(typ types.Type, t *Term) *Term {
	if t.Typ == nil {
		t.Typ = typ
	}
	return t
}

// ---------------------------------------------------------------- write-only byte sinks

// sinkModel covers hash objects and byte buffers: what was written is the content.
func (f *frame) sinkInvoke(recv *Term, name string, args []GVal, st State, x *ssa.Call) (GVal, State, bool) {
	if recv.Op != "sink" {
		return nil, st, false
	}
	e := f.e
	key := mkT("content", "sink", recv)
	cur := mkTyped(types.NewSlice(types.Typ[types.Byte]), "list", "")
	if v, ok := st.Mem.m[key]; ok {
		cur = boxGV(v)
	}
	bt := types.NewSlice(types.Typ[types.Byte])
	switch name {
	case "Write", "WriteString":
		nv := map2(unbox(cur), map1(args[0], func(t *Term) *Term { return e.viewed(st.Mem, t) }), func(a, b *Term) *Term { return mkCat(bt, a, b) })
		st.Mem = st.Mem.set(key, nv)
		return gv1(tupleOf(mkLen(boxGV(args[0])), NilT)), st, true
	case "WriteByte":
		st.Mem = st.Mem.set(key, map2(unbox(cur), args[0], func(a, b *Term) *Term { return mkCat(bt, a, mkTyped(bt, "list", "", b)) }))
		return gv1(NilT), st, true
	case "Reset":
		st.Mem = st.Mem.set(key, gv1(mkTyped(bt, "list", "")))
		return gv1(NilT), st, true
	case "Sum":
		return map2(map1(args[0], func(t *Term) *Term { return e.viewed(st.Mem, t) }), unbox(cur), func(a, c *Term) *Term {
			return mkCat(bt, a, mkHash(recv.Args[1], c))
		}), st, true
	case "Bytes":
		return tupleErr(x, unbox(cur)), st, true
	}
	return nil, st, false
}

// mkHash is the digest of c under a crypto.Hash.
func mkHash(alg, c *Term) *Term {
	bt := types.NewSlice(types.Typ[types.Byte])
	if alg == mkI(17) { // crypto.BLAKE2b_256
		return mkTyped(bt, "call", "blake2b.Sum256", c)
	}
	return mkTyped(bt, "hash", "", c, alg)
}

func tupleErr(x *ssa.Call, v GVal) GVal {
	if t, ok := x.Type().(*types.Tuple); ok && t.Len() == 2 {
		return gv1(tupleOf(boxGV(v), NilT))
	}
	return v
}
