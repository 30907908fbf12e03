package frontend

import (
	"fmt"
	"math/big"
	"reflect"

	bls12381fr "github.com/consensys/gnark-crypto/ecc/bls12-381/fr"
	"github.com/consensys/gnark-crypto/mc"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
)

type API interface{ Compiling() bool }

type Circuit interface{ Define(api API) error }

type Variable any

// Limbs: values of an emulated field
type Limbs interface{ MCLimbs() []*big.Int }

// the public values of a circuit: the fields marked so, in order
func publics(c any) (out []*big.Int, assigned bool) {
	assigned = true
	v := reflect.ValueOf(c).Elem()
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if v.CanInterface() {
			if l, ok := v.Interface().(Limbs); ok {
				x := l.MCLimbs()
				if x == nil {
					assigned = false
					x = make([]*big.Int, 4)
				}
				out = append(out, x...)
				return
			}
		}
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).Tag.Get("gnark") == ",public" {
			walk(v.Field(i))
		}
	}
	return
}

type CCS struct {
	circuit Circuit
	n       int
}

func (c *CCS) GetNbPublicVariables() int { return c.n + 1 }

type engine struct{ compiling bool }

func (e engine) Compiling() bool { return e.compiling }

// Run a copy of the circuit in which the values that have a place in the witness are the assignment's
func Run(circuit, assignment any) error {
	c, a := reflect.ValueOf(circuit).Elem(), reflect.ValueOf(assignment).Elem()
	if c.Type() != a.Type() {
		return fmt.Errorf("different circuits")
	}
	n := reflect.New(c.Type())
	n.Elem().Set(c)
	np, _ := publics(circuit)
	ap, ok := publics(assignment)
	if !ok {
		return fmt.Errorf("a public value is not assigned")
	}
	if len(np) != len(ap) {
		return fmt.Errorf("the witness has %d public values, the circuit %d", len(ap), len(np))
	}
	for i := 0; i < c.NumField(); i++ {
		f := c.Type().Field(i)
		if f.IsExported() && f.Tag.Get("gnark") != "-" {
			n.Elem().Field(i).Set(a.Field(i))
		}
	}
	return n.Interface().(Circuit).Define(engine{})
}

func (c *CCS) Solve(assignment any) error { return Run(c.circuit, assignment) }

type NewBuilder func(*big.Int) any

func Compile(field *big.Int, b NewBuilder, circuit Circuit, opts ...any) (constraint.ConstraintSystem, error) {
	if err := mc.Fault("compile"); err != nil {
		return nil, err
	}
	if field.Cmp(bls12381fr.Modulus()) != 0 {
		return nil, fmt.Errorf("not modelled: another outer curve")
	}
	if err := circuit.Define(engine{true}); err != nil {
		return nil, err
	}
	p, _ := publics(circuit)
	return &CCS{circuit, len(p)}, nil
}

func NewWitness(assignment Circuit, field *big.Int, opts ...any) (witness.Witness, error) {
	if err := mc.Fault("witness"); err != nil {
		return nil, err
	}
	if field.Cmp(bls12381fr.Modulus()) != 0 {
		return nil, fmt.Errorf("not modelled: another outer curve")
	}
	p, ok := publics(assignment)
	if !ok {
		return nil, fmt.Errorf("a public value is not assigned")
	}
	w := &witness.W{Secret: assignment, Full: true, Pub: bls12381fr.Vector{}}
	for _, x := range p {
		var e bls12381fr.Element
		e.SetBigInt(x)
		w.Pub = append(w.Pub, e)
	}
	return w, nil
}
