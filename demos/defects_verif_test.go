// Demonstrations of the defects recorded in ../known-findings.txt, run against the real code:
//   go test -overlay overlay.json ./float -run TestDefect -v      (in /repo; overlay.json maps this file into float/)
// Each test makes a proof with dishonest advice and reports whether the verifier accepts it.
package float

import (
	"math"
	"math/big"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/backend"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"

	"github.com/tumberger/zk-Location/hint"
)

func accepts(t *testing.T, circuit, assignment frontend.Circuit, opts ...solver.Option) bool {
	t.Helper()
	ccs, err := frontend.Compile(ecc.BN254.ScalarField(), r1cs.NewBuilder, circuit)
	if err != nil {
		t.Fatal(err)
	}
	pk, vk, err := groth16.Setup(ccs)
	if err != nil {
		t.Fatal(err)
	}
	w, err := frontend.NewWitness(assignment, ecc.BN254.ScalarField())
	if err != nil {
		t.Fatal(err)
	}
	proof, err := groth16.Prove(ccs, pk, w, backend.WithSolverOptions(opts...))
	if err != nil {
		t.Log("prove:", err)
		return false
	}
	pub, _ := w.Public()
	return groth16.Verify(proof, vk, pub) == nil
}

type truncCircuit struct {
	X, Z frontend.Variable
}

func (c *truncCircuit) Define(api frontend.API) error {
	ctx := NewContext(api, 8, 8, 23)
	x, z := ctx.NewFloat(c.X), ctx.NewFloat(c.Z)
	ctx.AssertIsEqual(ctx.Trunc(x), z)
	return nil
}

func TestDefectAbsSignOfZero(t *testing.T) {
	bad := func(f *big.Int, in, out []*big.Int) error {
		if err := hint.AbsHint(f, in, out); err != nil {
			return err
		}
		if in[0].Sign() == 0 {
			out[0].SetUint64(0)
		}
		return nil
	}
	x := math.Float32bits(1.5)
	if !accepts(t, &truncCircuit{}, &truncCircuit{X: x, Z: math.Float32bits(1)}) {
		t.Fatal("trunc(1.5) = 1 not provable")
	}
	if accepts(t, &truncCircuit{}, &truncCircuit{X: x, Z: 0}, solver.OverrideHint(solver.GetHintID(hint.AbsHint), bad)) {
		t.Error("accepted trunc(1.5) = 0")
	}
}

type addCircuit struct {
	X, Y, Z frontend.Variable
}

func (c *addCircuit) Define(api frontend.API) error {
	ctx := NewContext(api, 8, 8, 23)
	x, y, z := ctx.NewFloat(c.X), ctx.NewFloat(c.Y), ctx.NewFloat(c.Z)
	ctx.AssertIsEqual(ctx.Add(x, y), z)
	return nil
}

func TestDefectAddCancellationSign(t *testing.T) {
	a := &addCircuit{X: math.Float32bits(1), Y: math.Float32bits(-1), Z: 0}
	if !accepts(t, &addCircuit{}, a) {
		t.Fatal("1 + -1 = 0 not provable")
	}
	// lie about the n-th zero whose sign is asked for
	for n := 0; n < 8; n++ {
		k := 0
		bad := func(f *big.Int, in, out []*big.Int) error {
			if err := hint.AbsHint(f, in, out); err != nil {
				return err
			}
			if in[0].Sign() == 0 {
				if k == n || n == 7 {
					out[0].SetUint64(0)
				}
				k++
			}
			return nil
		}
		b := &addCircuit{X: math.Float32bits(1), Y: math.Float32bits(-1), Z: math.Float32bits(float32(math.Copysign(0, -1)))}
		if accepts(t, &addCircuit{}, b, solver.OverrideHint(solver.GetHintID(hint.AbsHint), bad), solver.WithNbTasks(1)) {
			t.Error("accepted 1 + -1 = -0")
		}
	}
}

type pow2Circuit struct {
	E, P frontend.Variable
	size uint
}

func (c *pow2Circuit) Define(api frontend.API) error {
	ctx := NewContext(api, c.size, 8, 23)
	ctx.Gadget.AssertBitLength(c.E, 5, 0)
	api.AssertIsEqual(ctx.Gadget.QueryPowerOf2(c.E), c.P)
	return nil
}

func TestDefectPowerOfTwoAlias(t *testing.T) {
	// table of 32 entries, limbs of 5 bits: the answer is checked to 35 bits only
	bad := func(f *big.Int, in, out []*big.Int) error {
		out[0].SetUint64(1<<32 + 1<<4) // exponent 3 read as entry 4
		return nil
	}
	if !accepts(t, &pow2Circuit{size: 5}, &pow2Circuit{E: 3, P: 8}) {
		t.Fatal("2^3 = 8 not provable")
	}
	if accepts(t, &pow2Circuit{size: 5}, &pow2Circuit{E: 3, P: uint64(1<<32 + 1<<4)}, solver.OverrideHint(solver.GetHintID(hint.PowerOfTwoHint), bad)) {
		t.Error("accepted 2^3 = 4294967312")
	}
}

type noPow2Circuit struct {
	X frontend.Variable
}

func (c *noPow2Circuit) Define(api frontend.API) error {
	ctx := NewContext(api, 8, 8, 23)
	ctx.Gadget.AssertBitLength(c.X, 8, 0)
	return nil
}

func TestDefectNoPowerQuery(t *testing.T) {
	if !accepts(t, &noPow2Circuit{}, &noPow2Circuit{X: 3}) {
		t.Error("a circuit with a context but no power-of-two query cannot be proven")
	}
}

func TestDefectAddCancellationLargestExponent(t *testing.T) {
	for _, v := range []float32{2e38, math.MaxFloat32} {
		zero := &addCircuit{X: math.Float32bits(v), Y: math.Float32bits(-v), Z: 0}
		inf := &addCircuit{X: math.Float32bits(v), Y: math.Float32bits(-v), Z: math.Float32bits(float32(math.Inf(1)))}
		if !accepts(t, &addCircuit{}, zero) {
			t.Errorf("%g + %g = 0 not provable", v, -v)
		}
		if accepts(t, &addCircuit{}, inf) {
			t.Errorf("accepted %g + %g = +Inf", v, -v)
		}
	}
}
