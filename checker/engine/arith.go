package engine

import (
	"go/token"
	"math/big"
)

func newLsh(x *Term, n uint) *big.Int { return new(big.Int).Lsh(x.Big, n) }

func constArith(op token.Token, x, y *Term) *Term {
	r := new(big.Int)
	switch op {
	case token.QUO:
		if y.Big.Sign() == 0 {
			return nil
		}
		r.Quo(x.Big, y.Big)
	case token.REM:
		if y.Big.Sign() == 0 {
			return nil
		}
		r.Rem(x.Big, y.Big)
	case token.AND:
		r.And(x.Big, y.Big)
	case token.OR:
		r.Or(x.Big, y.Big)
	case token.XOR:
		r.Xor(x.Big, y.Big)
	case token.SHR:
		if !y.Big.IsInt64() {
			return nil
		}
		r.Rsh(x.Big, uint(y.Big.Int64()))
	case token.AND_NOT:
		r.AndNot(x.Big, y.Big)
	default:
		return nil
	}
	return MkInt(r)
}
