package groth16

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/mc"
	bn "github.com/consensys/gnark/backend/groth16/bn254"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"
)

type Proof[G1El, G2El any] struct{ of *bn.Proof }

func (p Proof[A, B]) Of() *bn.Proof { return p.of }

type VerifyingKey[G1El, G2El, GtEl any] struct {
	of *bn.VerifyingKey
	G1 struct{ K []G1El }
	// told how it was made
	Fixed bool
}

func (k VerifyingKey[A, B, C]) Of() *bn.VerifyingKey { return k.of }

type Witness[FR any] struct{ Public []emulated.Element[FR] }

func ValueOfProof[G1El, G2El any](p any) (Proof[G1El, G2El], error) {
	if err := mc.Fault("proof value"); err != nil {
		return Proof[G1El, G2El]{}, err
	}
	b, ok := p.(*bn.Proof)
	if !ok {
		return Proof[G1El, G2El]{}, fmt.Errorf("expected groth16_bn254.Proof, got %T", p)
	}
	return Proof[G1El, G2El]{b}, nil
}

func key[A, B, C any](k any, fixed bool) (r VerifyingKey[A, B, C], err error) {
	if err = mc.Fault("key value"); err != nil {
		return
	}
	b, ok := k.(*bn.VerifyingKey)
	if !ok {
		return r, fmt.Errorf("expected bn254.VerifyingKey, got %T", k)
	}
	r.of, r.Fixed = b, fixed
	r.G1.K = make([]A, b.N+1)
	for i := range r.G1.K {
		if m, ok := any(&r.G1.K[i]).(interface{ Mark() }); ok {
			m.Mark()
		}
	}
	return
}

func ValueOfVerifyingKey[A, B, C any](k any) (VerifyingKey[A, B, C], error) { return key[A, B, C](k, false) }
func ValueOfVerifyingKeyFixed[A, B, C any](k any) (VerifyingKey[A, B, C], error) {
	return key[A, B, C](k, true)
}

type Verifier[FR, A, B, C any] struct{ api frontend.API }

func NewVerifier[FR, A, B, C any](api frontend.API) (*Verifier[FR, A, B, C], error) {
	if err := mc.Fault("new verifier"); err != nil {
		return nil, err
	}
	return &Verifier[FR, A, B, C]{api}, nil
}

type Option int

func WithCompleteArithmetic() Option  { return 1 }
func WithSubgroupCheck() Option       { return 2 }

func (v *Verifier[FR, A, B, C]) AssertProof(k VerifyingKey[A, B, C], p Proof[A, B], w Witness[FR], opts ...Option) error {
	if err := mc.Fault("assert proof"); err != nil {
		return err
	}
	if k.of == nil {
		return fmt.Errorf("a verification key of no circuit")
	}
	if len(k.G1.K)-1 != len(w.Public) {
		return fmt.Errorf("expected %d public inputs, got %d", len(k.G1.K)-1, len(w.Public))
	}
	for i := range k.G1.K {
		if m, ok := any(&k.G1.K[i]).(interface{ Marked() bool }); ok && !m.Marked() {
			return fmt.Errorf("point %d of the verification key was never set", i)
		}
	}
	complete := false
	for _, o := range opts {
		complete = complete || o == 1
	}
	if v.api.Compiling() {
		return nil
	}
	if p.of == nil {
		return fmt.Errorf("no proof")
	}
	pubs := make([]*big.Int, len(w.Public))
	for i := range pubs {
		pubs[i] = w.Public[i].Value()
		if pubs[i].Sign() == 0 && !complete {
			return fmt.Errorf("incomplete arithmetic: division by zero")
		}
	}
	return bn.Holds(p.of, k.of, pubs)
}
