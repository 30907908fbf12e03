package r1cs

import "math/big"

func NewBuilder(*big.Int) any { return nil }
