package groth16

import (
	"fmt"
	"io"

	curve "github.com/consensys/gnark-crypto/ecc/bls12-381"
)

type Proof struct {
	Ar, Krs curve.G1Affine
	Bs      curve.G2Affine
	// what it proves, for the stand-in verifier
	Of any `json:"-"`
}
type VerifyingKey struct {
	G1 struct {
		Alpha, Beta, Delta curve.G1Affine
		K                  []curve.G1Affine
	}
	G2 struct {
		Beta, Delta, Gamma curve.G2Affine
	}
	Of any `json:"-"`
}
type ProvingKey struct{ Of any }

func (p *Proof) ReadFrom(io.Reader) (int64, error)        { return 0, fmt.Errorf("not modelled") }
func (p *VerifyingKey) ReadFrom(io.Reader) (int64, error) { return 0, fmt.Errorf("not modelled") }
func (k *VerifyingKey) NbPublicWitness() int              { return len(k.G1.K) - 1 }
