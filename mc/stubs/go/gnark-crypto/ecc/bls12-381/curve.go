package bls12381

import (
	"fmt"

	"github.com/consensys/gnark-crypto/ecc/bls12-381/fp"
	"github.com/consensys/gnark-crypto/mc"
)

type E2 struct{ A0, A1 fp.Element }
type E6 struct{ B0, B1, B2 E2 }
type E12 struct{ C0, C1 E6 }
type GT = E12

type G1Affine struct{ X, Y fp.Element }
type G2Affine struct{ X, Y E2 }

func (p *G1Affine) IsInfinity() bool { return *p == G1Affine{} }
func (p *G2Affine) IsInfinity() bool { return *p == G2Affine{} }
func (p *G1Affine) Equal(q *G1Affine) bool { return *p == *q }
func (p *G2Affine) Equal(q *G2Affine) bool { return *p == *q }

func (p *G1Affine) String() string { return fmt.Sprintf("E([%s,%s])", p.X.String(), p.Y.String()) }

func el(s string) (e fp.Element) {
	e.SetBigInt(mc.Big(s))
	return
}

func G1(s [2]string) G1Affine { return G1Affine{el(s[0]), el(s[1])} }
func G2(s [4]string) G2Affine { return G2Affine{E2{el(s[0]), el(s[1])}, E2{el(s[2]), el(s[3])}} }

// Pair knows one pairing: that of the key it was told of
func Pair(P []G1Affine, Q []G2Affine) (GT, error) {
	if err := mc.Fault("pair"); err != nil {
		return GT{}, err
	}
	if len(P) == 0 || len(P) != len(Q) {
		return GT{}, fmt.Errorf("invalid inputs sizes")
	}
	p := mc.P()
	if len(P) != 1 || P[0] != G1(p.Alpha) || Q[0] != G2(p.Beta) {
		return GT{}, nil
	}
	g := p.Gt
	e2 := func(i int) E2 { return E2{el(g[i]), el(g[i+1])} }
	return GT{E6{e2(0), e2(2), e2(4)}, E6{e2(6), e2(8), e2(10)}}, nil
}
