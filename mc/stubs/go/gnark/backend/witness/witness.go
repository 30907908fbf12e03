package witness

import (
	"fmt"

	bls12381fr "github.com/consensys/gnark-crypto/ecc/bls12-381/fr"
	"github.com/consensys/gnark-crypto/mc"
)

type Witness interface {
	Vector() any
	Public() (Witness, error)
}

// W: the assignment of the circuit, split into its public values and the rest
type W struct {
	Pub    bls12381fr.Vector
	Secret any
	Full   bool
}

func (w *W) Vector() any { return w.Pub }

func (w *W) Public() (Witness, error) {
	if err := mc.Fault("public witness"); err != nil {
		return nil, err
	}
	if !w.Full {
		return nil, fmt.Errorf("already public")
	}
	return &W{Pub: w.Pub}, nil
}
