package main

import (
	"fmt"
	"math/big"
	"runtime"
	"sync"
	"time"
)

var rangeWidths = []uint64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17}

// Op describes one float operation as a fragment body.
type Op struct {
	name string
	args []string // "x","y": floats; "c": boolean wire; "v": raw wire
	outs int      // -1 float, 0 none, 1 wire
	body func(in *Interp, ctx *Cell, args []Value) Value
}

func methodOp(mn string, args []string, outs int) Op {
	return Op{mn, args, outs, func(in *Interp, ctx *Cell, a []Value) Value {
		return in.callMethod("float", "Context", mn, ctx, a...)
	}}
}

// ambient configuration under which a fragment is extracted
type Cfg struct {
	width uint64
	front string
}

func (c Cfg) String() string { return fmt.Sprintf("%s/limb%d", c.front, c.width) }

func allCfgs() []Cfg {
	var out []Cfg
	for _, fr := range []string{"R1CS", "SCS"} {
		for _, w := range rangeWidths {
			out = append(out, Cfg{w, fr})
		}
	}
	return out
}

func (w *World) extractOp(op Op, f Fmt, c Cfg) (*Frag, error) {
	return w.extract(fmt.Sprintf("%s %s %s", f, op.name, c), c.front, func(in *Interp, api Value) ([]*Node, []string) {
		ctx := in.newContext(api, c.width, uint64(f.E), uint64(f.M))
		var args []Value
		for _, a := range op.args {
			switch a[0] {
			case 'x', 'y':
				args = append(args, in.inputFloat(a))
			default:
				args = append(args, wire(in.g.Input(a)))
			}
		}
		r := op.body(in, ctx, args)
		switch op.outs {
		case -1:
			return in.floatComps(r), floatFields
		case 1:
			return []*Node{in.node(r)}, []string{"result"}
		case -2:
			return r.(nodesV), nil
		}
		return nil, nil
	})
}

// opFrags extracts an operation under all configurations and merges equal skeletons.
func (w *World) opFrags(op Op, f Fmt, cfgs []Cfg) ([]*Frag, []error) {
	fs := make([]*Frag, len(cfgs))
	errs := make([]error, len(cfgs))
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for i, c := range cfgs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			fs[i], errs[i] = w.extractOp(op, f, c)
			<-sem
		}()
	}
	wg.Wait()
	var ok []*Frag
	var es []error
	for i := range fs {
		if errs[i] != nil {
			es = append(es, errs[i])
		} else {
			ok = append(ok, fs[i])
		}
	}
	return mergeFrags(ok), es
}

// bindFloat binds the input wires of operand name to v.
func (t *Task) bindFloat(name string, v FV) {
	for i, p := range v.comps() {
		n := t.f.in[name+"."+floatFields[i]]
		if n != nil {
			t.input[n] = p
		}
	}
}

func (t *Task) outs(st *St) []*Poly {
	var o []*Poly
	for _, n := range t.f.out {
		o = append(o, t.eval(st, n))
	}
	for i := range o {
		o[i] = st.e.S(o[i])
	}
	return o
}

// match compares component outputs with the specification.
func (t *Task) match(st *St, want FV) string {
	for i, p := range want.comps() {
		if p == nil {
			continue
		}
		got := t.eval(st, t.f.out[i])
		if len(t.raw(st, got)) > 0 {
			return fmt.Sprintf("%s is not determined by the constraints: %s", floatFields[i], t.u.Str(got))
		}
		d := st.e.S(t.u.Sub(got, p))
		r := t.fzeroDecide(st, d)
		if r == 1 {
			continue
		}
		return fmt.Sprintf("%s is %s, IEEE-754 requires %s", floatFields[i], t.u.Str(st.e.S(got)), t.u.Str(st.e.S(p)))
	}
	return ""
}

// fzeroDecide is fzero without blocking on undecided equalities: 1 equal, 0 different, -1 unknown.
func (t *Task) fzeroDecide(st *St, d *Poly) int {
	if d.IsZero() {
		return 1
	}
	if t.fzero(st, d) { // may split on the equality, which exposes the differing case
		return 1
	}
	return 0
}

func runTasks(ts []*Task) time.Duration {
	t0 := time.Now()
	var wg sync.WaitGroup
	ch := make(chan *Task)
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for t := range ch {
				t.t0 = time.Now()
				t.run()
				t.dur = time.Since(t.t0)
			}
		}()
	}
	for _, t := range ts {
		ch <- t
	}
	close(ch)
	wg.Wait()
	return time.Since(t0)
}

var _ = big.NewInt

type nodesV []*Node
