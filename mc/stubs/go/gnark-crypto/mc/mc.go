// Package mc: the stand-ins' connection to the check that runs them. Every operation that can fail asks Fault, which
// fails the operation whose number is in MC_FAULT and appends all names to MC_LOG.
package mc

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strconv"
	"sync"
)

var mu sync.Mutex
var n int

func Fault(name string) error {
	mu.Lock()
	defer mu.Unlock()
	n++
	Note(name)
	if k, err := strconv.Atoi(os.Getenv("MC_FAULT")); err == nil && k == n {
		return fmt.Errorf("injected failure of %s", name)
	}
	return nil
}

func Note(s string) {
	if p := os.Getenv("MC_LOG"); p != "" {
		f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		if err != nil {
			panic(err)
		}
		fmt.Fprintln(f, s)
		f.Close()
	}
}

// Points is what the outer setup and the outer prover return: coordinates as decimal numbers
type Points struct {
	A, C, Alpha [2]string
	B, Beta, Gamma, Delta [4]string
	Beta1, Delta1 [2]string
	K [][2]string
	Gt [12]string
}

var points *Points

func P() *Points {
	mu.Lock()
	defer mu.Unlock()
	if points == nil {
		points = &Points{}
		b, err := os.ReadFile(os.Getenv("MC_POINTS"))
		if err != nil {
			panic(err)
		}
		if err := json.Unmarshal(b, points); err != nil {
			panic(err)
		}
	}
	return points
}

func Big(s string) *big.Int {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("not a number: " + s)
	}
	return b
}

// Elem is a prime field's element: its value is kept as the canonical integer
func Mod(b *big.Int, modulus string) [6]uint64 {
	m := Big(modulus)
	r := new(big.Int).Mod(b, m)
	var out [6]uint64
	mask := new(big.Int).SetUint64(^uint64(0))
	for i := range out {
		out[i] = new(big.Int).And(r, mask).Uint64()
		r.Rsh(r, 64)
	}
	return out
}

func Int(z []uint64, res *big.Int) *big.Int {
	res.SetUint64(0)
	for i := len(z) - 1; i >= 0; i-- {
		res.Lsh(res, 64)
		res.Or(res, new(big.Int).SetUint64(z[i]))
	}
	return res
}
