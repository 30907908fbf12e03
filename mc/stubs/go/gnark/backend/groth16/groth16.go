package groth16

import (
	"fmt"
	"io"
	"reflect"

	"github.com/consensys/gnark-crypto/ecc"
	curve "github.com/consensys/gnark-crypto/ecc/bls12-381"
	"github.com/consensys/gnark-crypto/mc"
	bls "github.com/consensys/gnark/backend/groth16/bls12-381"
	bn "github.com/consensys/gnark/backend/groth16/bn254"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/frontend"
)

type Proof interface{ io.ReaderFrom }
type VerifyingKey interface {
	io.ReaderFrom
	NbPublicWitness() int
}
type ProvingKey any

func NewCS(id ecc.ID) constraint.ConstraintSystem { return &frontend.CCS{} }
func NewProvingKey(id ecc.ID) ProvingKey          { return &bls.ProvingKey{} }
func NewProof(id ecc.ID) Proof {
	if id == ecc.BN254 {
		return &bn.Proof{}
	}
	return &bls.Proof{}
}
func NewVerifyingKey(id ecc.ID) VerifyingKey {
	if id == ecc.BN254 {
		return &bn.VerifyingKey{}
	}
	return &bls.VerifyingKey{}
}

func Setup(r1cs constraint.ConstraintSystem) (ProvingKey, VerifyingKey, error) {
	if err := mc.Fault("setup"); err != nil {
		return nil, nil, err
	}
	ccs := r1cs.(*frontend.CCS)
	p := mc.P()
	vk := &bls.VerifyingKey{Of: ccs}
	vk.G1.Alpha, vk.G1.Beta, vk.G1.Delta = curve.G1(p.Alpha), curve.G1(p.Beta1), curve.G1(p.Delta1)
	vk.G2.Beta, vk.G2.Gamma, vk.G2.Delta = curve.G2(p.Beta), curve.G2(p.Gamma), curve.G2(p.Delta)
	// one for the constant, one for each public value, and one for the commitment of the range checks
	n := ccs.GetNbPublicVariables() + 1
	for i := 0; i < n; i++ {
		vk.G1.K = append(vk.G1.K, curve.G1(p.K[i]))
	}
	return &bls.ProvingKey{Of: ccs}, vk, nil
}

type proved struct {
	ccs *frontend.CCS
	pub []any
}

func pub(w witness.Witness) (out []any) {
	for _, e := range w.(*witness.W).Pub {
		out = append(out, e)
	}
	return
}

func Prove(r1cs constraint.ConstraintSystem, pk ProvingKey, full witness.Witness, opts ...any) (Proof, error) {
	if err := mc.Fault("prove"); err != nil {
		return nil, err
	}
	ccs := r1cs.(*frontend.CCS)
	if pk.(*bls.ProvingKey).Of != ccs {
		return nil, fmt.Errorf("another circuit's key")
	}
	w := full.(*witness.W)
	if !w.Full {
		return nil, fmt.Errorf("the secret part is missing")
	}
	if err := ccs.Solve(w.Secret); err != nil {
		return nil, err
	}
	p := mc.P()
	return &bls.Proof{Ar: curve.G1(p.A), Bs: curve.G2(p.B), Krs: curve.G1(p.C), Of: proved{ccs, pub(full)}}, nil
}

func Verify(proof Proof, vk VerifyingKey, public witness.Witness, opts ...any) error {
	if err := mc.Fault("verify outer"); err != nil {
		return err
	}
	of := proof.(*bls.Proof).Of.(proved)
	if of.ccs != vk.(*bls.VerifyingKey).Of || !reflect.DeepEqual(of.pub, pub(public)) {
		return fmt.Errorf("pairing doesn't match")
	}
	return nil
}
