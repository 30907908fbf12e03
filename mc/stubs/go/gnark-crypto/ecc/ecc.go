package ecc

import (
	"math/big"

	"github.com/consensys/gnark-crypto/mc"
)

type ID uint16

const (
	UNKNOWN ID = iota
	BN254
	BLS12_377
	BLS12_381
)

func (id ID) ScalarField() *big.Int {
	switch id {
	case BN254:
		return mc.Big("21888242871839275222246405745257275088548364400416034343698204186575808495617")
	case BLS12_381:
		return mc.Big("52435875175126190479447740508185965837690552500527637822603658699938581184513")
	}
	panic("not modelled")
}

func (id ID) String() string { return []string{"unknown", "bn254", "bls12_377", "bls12_381"}[id] }
