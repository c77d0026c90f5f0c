package engine

import (
	"math/big"
	"strings"
)

// Bit-level view of integer terms: masks, shifts and bitwise operations become conditions on the bits of their leaves.

// intWidth is the number of bits of an unsigned (or opaque) integer term.
func intWidth(t *Term) int {
	switch {
	case t.Op == "int":
		return t.Big.BitLen()
	case strings.HasPrefix(t.Op, "trunc"):
		switch t.Op {
		case "trunc8":
			return 8
		case "trunc16":
			return 16
		case "trunc32":
			return 32
		}
	}
	if t.Typ != nil {
		if b, _, ok := intSize(t.Typ); ok {
			return b
		}
	}
	return 64
}

// Bits are the lowest n bits of t, least significant first.
func Bits(t *Term, n int) []B {
	out := make([]B, n)
	for i := range out {
		out[i] = False
	}
	if t.Op == "gv" {
		for _, a := range t.GV {
			for i, b := range Bits(a.T, n) {
				out[i] = Or(out[i], And(a.G, b))
			}
		}
		return out
	}
	if t.Op == "int" {
		v := t.Big
		if v.Sign() < 0 {
			v = new(big.Int).Add(v, new(big.Int).Lsh(big.NewInt(1), 64))
		}
		for i := range out {
			if v.Bit(i) == 1 {
				out[i] = True
			}
		}
		return out
	}
	w := min(n, intWidth(t))
	two := len(t.Args) == 2
	shift := -1
	if two && t.Args[1].Op == "int" && t.Args[1].Big.IsInt64() && t.Args[1].Big.Int64() < 128 {
		shift = int(t.Args[1].Big.Int64())
	}
	switch {
	case two && (t.Op == "&" || t.Op == "|" || t.Op == "^" || t.Op == "&^"):
		x, y := Bits(t.Args[0], w), Bits(t.Args[1], w)
		for i := 0; i < w; i++ {
			switch t.Op {
			case "&":
				out[i] = And(x[i], y[i])
			case "|":
				out[i] = Or(x[i], y[i])
			case "^":
				out[i] = Not(Xnor(x[i], y[i]))
			default:
				out[i] = And(x[i], Not(y[i]))
			}
		}
		return out
	case t.Op == "<<" && shift >= 0:
		if shift < w {
			copy(out[shift:w], Bits(t.Args[0], w-shift))
		}
		return out
	case t.Op == ">>" && shift >= 0 && !signedInt(t):
		copy(out[:w], Bits(t.Args[0], w+shift)[shift:])
		return out
	case t.Op == ">>" && shift >= 0 && n+shift <= intWidth(t):
		copy(out, Bits(t.Args[0], n+shift)[shift:])
		return out
		return out
	case t.Op == "trunc8" || t.Op == "trunc16" || t.Op == "trunc32" || t.Op == "wrap":
		copy(out[:w], Bits(t.Args[0], w))
		return out
	case t.Op == "*" && two:
		for i := 0; i < 2; i++ {
			if c := t.Args[i]; c.Op == "int" && c.Big.Sign() > 0 && c.Big.TrailingZeroBits() == uint(c.Big.BitLen()-1) {
				if k := c.Big.BitLen() - 1; k < w {
					copy(out[k:w], Bits(t.Args[1-i], w-k))
				}
				return out
			}
		}
	case t.Op == "lin":
		// c * x with a power of two
		if l := toLin(t); len(l.m) == 1 && l.c.Sign() == 0 {
			for x, c := range l.m {
				if c > 1 && c&(c-1) == 0 {
					k := new(big.Int).SetInt64(c).BitLen() - 1
					if k < w {
						copy(out[k:w], Bits(x, w-k))
					}
					return out
				}
			}
		}
	}
	for i := 0; i < w; i++ {
		out[i] = bitB(t, mkI(int64(i)))
	}
	return out
}

// BitsEq: the lowest n bits of a and b agree.
func BitsEq(a, b *Term, n int) B {
	r := True
	x, y := Bits(a, n), Bits(b, n)
	for i := range x {
		r = And(r, Xnor(x[i], y[i]))
	}
	return r
}

// maskedZero: x & mask == 0 for a constant mask of few bits.
func maskedZero(a, b *Term) (B, bool) {
	if b.Op != "int" || b.Big.Sign() != 0 || a.Op != "&" || len(a.Args) != 2 {
		return False, false
	}
	for i := 0; i < 2; i++ {
		m := a.Args[i]
		if m.Op != "int" || m.Big.Sign() <= 0 || m.Big.BitLen() > 8 {
			continue
		}
		r := True
		for _, x := range Bits(a, m.Big.BitLen()) {
			r = And(r, Not(x))
		}
		return r, true
	}
	return False, false
}

func signedInt(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	_, s, ok := intSize(t.Typ)
	return ok && s
}
