package sw_bn254

import "github.com/consensys/gnark/std/math/emulated"

type ScalarField = emulated.BN254Fr
// a point of a key is told from one that nobody set
type G1Affine struct{ X byte }

func (g *G1Affine) Mark()       { g.X = 1 }
func (g *G1Affine) Marked() bool { return g.X == 1 }

type G2Affine struct{ X byte }
type GTEl struct{ X byte }
