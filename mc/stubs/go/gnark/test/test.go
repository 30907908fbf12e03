package test

import (
	"math/big"

	"github.com/consensys/gnark-crypto/mc"
	"github.com/consensys/gnark/frontend"
)

func IsSolved(circuit, witness frontend.Circuit, field *big.Int, opts ...any) error {
	if err := mc.Fault("is solved"); err != nil {
		return err
	}
	return frontend.Run(circuit, witness)
}
