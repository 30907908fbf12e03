package emulated

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/mc"
)

type BN254Fr struct{}

type Element[T any] struct{ Limbs []*big.Int }

// MCLimbs: four limbs of 64 bits
func (e Element[T]) MCLimbs() []*big.Int { return e.Limbs }

func (e Element[T]) Value() *big.Int {
	r := new(big.Int)
	for i := len(e.Limbs) - 1; i >= 0; i-- {
		r.Or(r.Lsh(r, 64), e.Limbs[i])
	}
	return r
}

func ValueOf[T any](v any) Element[T] {
	var b *big.Int
	switch x := v.(type) {
	case *big.Int:
		b = new(big.Int).Set(x)
	case big.Int:
		b = new(big.Int).Set(&x)
	case interface{ BigInt(*big.Int) *big.Int }:
		b = x.BigInt(new(big.Int))
	default:
		panic(fmt.Sprintf("not modelled: %T", v))
	}
	b.Mod(b, mc.Big("21888242871839275222246405745257275088548364400416034343698204186575808495617"))
	mask := new(big.Int).SetUint64(^uint64(0))
	l := make([]*big.Int, 4)
	for i := range l {
		l[i] = new(big.Int).And(b, mask)
		b.Rsh(b, 64)
	}
	return Element[T]{l}
}
