// Package groth16 (BN254): a proof is the number of the key it is for and the public inputs it proves;
// it is valid when both are those it is verified with.
package groth16

import (
	"fmt"
	"io"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark-crypto/mc"
)

type Proof struct {
	Key  byte
	Pubs [][32]byte
}
type VerifyingKey struct {
	Key   byte
	N     int
	Whole bool
}
type ProvingKey struct{}

func read(r io.Reader, n int) ([]byte, int64, error) {
	b := make([]byte, n)
	k, err := io.ReadFull(r, b)
	return b, int64(k), err
}

func (p *Proof) ReadFrom(r io.Reader) (int64, error) {
	if err := mc.Fault("read proof"); err != nil {
		return 0, err
	}
	h, t, err := read(r, 3)
	if err != nil {
		return t, err
	}
	if h[0] != 0xa1 {
		return t, fmt.Errorf("invalid point")
	}
	p.Key = h[1]
	for i := 0; i < int(h[2]); i++ {
		b, k, err := read(r, 32)
		t += k
		if err != nil {
			return t, err
		}
		p.Pubs = append(p.Pubs, [32]byte(b))
	}
	return t, nil
}

func (k *VerifyingKey) ReadFrom(r io.Reader) (int64, error) {
	if err := mc.Fault("read key"); err != nil {
		return 0, err
	}
	h, t, err := read(r, 3)
	if err != nil {
		return t, err
	}
	if h[0] != 0xb2 {
		return t, fmt.Errorf("invalid point")
	}
	k.Key, k.N = h[1], int(h[2])
	b, m, err := read(r, 16)
	t += m
	if err != nil {
		return t, err
	}
	for _, x := range b {
		if x != k.Key {
			return t, fmt.Errorf("invalid point")
		}
	}
	k.Whole = true
	return t, nil
}

func (k *VerifyingKey) NbPublicWitness() int { return k.N }

// Holds is what both the verifier and the circuit of the verifier decide
func Holds(p *Proof, k *VerifyingKey, pubs []*big.Int) error {
	if len(pubs) != k.N || len(p.Pubs) != len(pubs) {
		return fmt.Errorf("invalid witness size, got %d, expected %d", len(pubs), k.N)
	}
	if p.Key != k.Key {
		return fmt.Errorf("pairing doesn't match")
	}
	for i, b := range pubs {
		if new(big.Int).SetBytes(p.Pubs[i][:]).Cmp(b) != 0 {
			return fmt.Errorf("pairing doesn't match")
		}
	}
	return nil
}

func Verify(proof *Proof, vk *VerifyingKey, publicWitness fr.Vector, opts ...any) error {
	if err := mc.Fault("verify inner"); err != nil {
		return err
	}
	pubs := make([]*big.Int, len(publicWitness))
	for i := range pubs {
		pubs[i] = publicWitness[i].BigInt(new(big.Int))
	}
	return Holds(proof, vk, pubs)
}
