package fr

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/mc"
)

const modulus = "52435875175126190479447740508185965837690552500527637822603658699938581184513"
const Limbs = 4
const Bytes = 32

type Element [4]uint64

type Vector []Element

func Modulus() *big.Int { return mc.Big(modulus) }

func NewElement(v uint64) Element { return Element{v} }

func One() Element { return Element{1} }

func (z *Element) SetBigInt(v *big.Int) *Element {
	m := mc.Mod(v, modulus)
	copy(z[:], m[:])
	return z
}

func (z *Element) SetUint64(v uint64) *Element {
	*z = Element{v}
	return z
}

func (z *Element) SetString(s string) (*Element, error) {
	b, ok := new(big.Int).SetString(s, 0)
	if !ok {
		return nil, fmt.Errorf("Element.SetString failed -> can't parse number into a big.Int %s", s)
	}
	return z.SetBigInt(b), nil
}

func (z Element) BigInt(res *big.Int) *big.Int { return mc.Int(z[:], res) }

func (z *Element) ToBigIntRegular(res *big.Int) *big.Int { return mc.Int(z[:], res) }

func (z *Element) Text(base int) string { return z.BigInt(new(big.Int)).Text(base) }

func (z *Element) String() string { return z.Text(10) }

func (z *Element) Equal(x *Element) bool { return *z == *x }

func (z *Element) IsZero() bool { return *z == Element{} }

func (z *Element) IsOne() bool { return *z == Element{1} }

func (z *Element) Bytes() (res [Bytes]byte) {
	z.BigInt(new(big.Int)).FillBytes(res[:])
	return
}

func (z *Element) Marshal() []byte {
	b := z.Bytes()
	return b[:]
}

func (v Vector) Len() int { return len(v) }
