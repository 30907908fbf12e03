// drive: one call of the package under test for each line of the input, one line of result each
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"reflect"

	"github.com/0xEigenLabs/eigen-recursion-gnark/eigen"
	curve "github.com/consensys/gnark-crypto/ecc/bls12-381"
	bls12381fr "github.com/consensys/gnark-crypto/ecc/bls12-381/fr"
	bn254fr "github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark-crypto/mc"
	"github.com/consensys/gnark/backend/groth16"
	bls "github.com/consensys/gnark/backend/groth16/bls12-381"
	bn "github.com/consensys/gnark/backend/groth16/bn254"
	"github.com/consensys/gnark/backend/witness"
)

type req struct {
	Op      string
	Text    string
	Signals []string
	N, K    int
	Fixed   bool
	Path    string
	Key     int
}

type other struct{}

func (other) Vector() any                         { return []int{1} }
func (other) Public() (witness.Witness, error)    { return nil, nil }

func outer(r req) (*bls.Proof, *bls.VerifyingKey, bls12381fr.Vector) {
	p := mc.P()
	vk := &bls.VerifyingKey{}
	vk.G1.Alpha, vk.G1.Beta, vk.G1.Delta = curve.G1(p.Alpha), curve.G1(p.Beta1), curve.G1(p.Delta1)
	vk.G2.Beta, vk.G2.Gamma, vk.G2.Delta = curve.G2(p.Beta), curve.G2(p.Gamma), curve.G2(p.Delta)
	for i := 0; i < r.K; i++ {
		vk.G1.K = append(vk.G1.K, curve.G1(p.K[i]))
	}
	pub := bls12381fr.Vector{}
	for _, s := range r.Signals {
		var e bls12381fr.Element
		e.SetBigInt(mc.Big(s))
		pub = append(pub, e)
	}
	return &bls.Proof{Ar: curve.G1(p.A), Bs: curve.G2(p.B), Krs: curve.G1(p.C)}, vk, pub
}

func run(r req) (out any, err error) {
	defer func() {
		if x := recover(); x != nil {
			out, err = nil, fmt.Errorf("panic: %v", x)
		}
	}()
	switch r.Op {
	case "signals":
		s, err := eigen.UnmarshalPublicSignalsJSON([]byte(r.Text))
		if s == nil {
			s = []string{}
		}
		return s, err
	case "inputs":
		e, err := eigen.ConvertPublicInputs(r.Signals)
		if err != nil {
			return nil, err
		}
		o := []string{}
		for _, x := range e {
			o = append(o, x.BigInt(new(big.Int)).String())
		}
		return o, nil
	case "convert":
		p, k, pub := outer(r)
		var w witness.Witness = &witness.W{Pub: pub}
		if r.Text == "other" {
			w = other{}
		}
		a, b, c, err := eigen.Convert(p, k, w)
		if err != nil {
			return nil, err
		}
		if r.Text == "infinity" {
			return nil, nil
		}
		return []any{a, b, c}, nil
	case "placeholders":
		var k *bn.VerifyingKey
		if r.Key >= 0 {
			k = &bn.VerifyingKey{Key: byte(r.Key), N: r.K}
		}
		p, err := eigen.PlaceholdersForRecursion(k, r.N, r.Fixed)
		if err != nil {
			return nil, err
		}
		return []any{p.Vk.Of() == k, len(p.Vk.G1.K), len(p.Witness.Public), p.Proof.Of() == nil}, nil
	case "recursion":
		k := &bn.VerifyingKey{Key: byte(r.Key), N: r.K}
		p := &bn.Proof{Key: byte(r.Key)}
		in := []bn254fr.Element{}
		for _, s := range r.Signals {
			var e bn254fr.Element
			e.SetBigInt(mc.Big(s))
			in = append(in, e)
		}
		a, err := eigen.ConvertToGnarkRecursion(k, p, in, r.Fixed)
		if err != nil {
			return nil, err
		}
		v := []string{}
		for _, e := range a.PublicInputs.Public {
			v = append(v, e.Value().String())
		}
		return []any{a.Proof.Of() == p, a.Vk.Of() == k, a.Vk.Of() == nil, v}, nil
	case "save":
		p, k, pub := outer(r)
		return nil, (&eigen.GnarkProof{Proof: p, VerifyingKey: k, PublicInputs: pub}).SaveToFile(r.Path)
	case "load":
		p, k, pub := outer(r)
		g, err := eigen.LoadFromFile(r.Path)
		if err != nil {
			return nil, err
		}
		same := reflect.DeepEqual(*g.Proof, *p) && reflect.DeepEqual(*g.VerifyingKey, *k) && len(g.PublicInputs) == len(pub)
		for i := range pub {
			same = same && g.PublicInputs[i] == pub[i]
		}
		return same, nil
	}
	panic("op")
}

var _ groth16.Proof = &bls.Proof{}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	for {
		l, err := in.ReadBytes('\n')
		if len(l) > 0 {
			var r req
			if e := json.Unmarshal(l, &r); e != nil {
				panic(e)
			}
			o, e := run(r)
			var res map[string]any
			if e != nil {
				res = map[string]any{"err": e.Error()}
			} else {
				res = map[string]any{"ok": o}
			}
			b, _ := json.Marshal(res)
			w.Write(append(b, '\n'))
		}
		if err != nil {
			return
		}
	}
}
