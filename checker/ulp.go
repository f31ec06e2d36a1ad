package main

// Custom-tolerance assertions: the difference is an arbitrary float d (C03 decides that Sub computes it), the tolerance
// an arbitrary constant u.

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isMethod(fn *ssa.Function, rel, typ, name string, w *World) bool {
	return fn.Pkg != nil && fn.Pkg.Pkg.Path() == w.mod+"/"+rel && fn.Name() == name && fn.Signature.Recv() != nil &&
		strings.HasSuffix(strings.TrimPrefix(fn.Signature.Recv().Type().String(), "*"), "/"+rel+"."+typ)
}

func ulpJob(name string, bits int64) *FloatJob {
	j := &FloatJob{op: Op{name: name, args: []string{"x", "y"}, outs: -2}}
	j.op.body = func(in *Interp, ctx *Cell, a []Value) Value {
		in.env = newEnv(newU())
		tag := fmt.Sprintf("bits%d:ulp", bits)
		in.env.setVar(tag, new(big.Int), new(big.Int).Sub(bigPow2(bits), big.NewInt(1)))
		var args []*Node
		kind := -1
		in.hook = func(in *Interp, fn *ssa.Function, as []Value) (Value, bool) {
			switch {
			case isMethod(fn, "float", "Context", "NewConstant", in.w):
				s, ok := as[1].(*SymI)
				if !ok {
					return nil, false
				}
				if !s.p.Eq(in.env.u.V(tag)) {
					panic(undecided("tolerance constant is not the given tolerance: " + in.env.u.Str(s.p)))
				}
				return in.inputFloat("u"), true
			case isMethod(fn, "float", "Context", "Sub", in.w), isMethod(fn, "float", "Context", "Add", in.w):
				if kind >= 0 {
					panic(undecided("more than one sum or difference"))
				}
				kind = 0
				if fn.Name() == "Add" {
					kind = 1
				}
				args = append(in.floatComps(as[1]), in.floatComps(as[2])...)
				return in.inputFloat("d"), true
			}
			return nil, false
		}
		in.callMethod("float", "Context", name, ctx, append(append([]Value{}, a...), SymF{"ulp"})...)
		if kind < 0 {
			panic(undecided("no difference of the operands is taken"))
		}
		return nodesV(append(args, in.g.Const(big.NewInt(int64(kind)))))
	}
	for _, a := range allClasses {
		for _, b := range allClasses {
			for _, d := range allClasses {
				nan := a == clsNaN || b == clsNaN
				if nan != (d == clsNaN) && !(a == clsInf && b == clsInf) {
					continue
				}
				for _, u := range allClasses {
					j.classes = append(j.classes, []string{a, b, d, u})
				}
			}
		}
	}
	j.extra = []string{"d", "u"}
	j.spec = func(f Fmt, t *Task, st *St, x []FV) string {
		e, u := st.e, t.u
		eq := func(o int, v FV, neg bool) bool {
			s := v.s
			if neg {
				s = u.Sub(u.one, s)
			}
			for i, p := range []*Poly{s, v.e, v.m, v.a} {
				if !e.Zero(e.S(u.Sub(t.eval(st, t.f.out[o+i]), e.S(p)))) {
					return false
				}
			}
			return true
		}
		add := t.eval(st, t.f.out[8]).Eq(u.one)
		if !(eq(0, x[0], false) && eq(4, x[1], add)) && !(eq(0, x[1], false) && eq(4, x[0], add)) &&
			!(add && (eq(0, x[0], true) && eq(4, x[1], false) || eq(0, x[1], true) && eq(4, x[0], false))) {
			return "the compared difference is not the difference of the operands"
		}
		if !f.ulpSpec(e, x) {
			return "floats outside the tolerance are accepted"
		}
		return ""
	}
	j.pre = func(f Fmt, t *Task, st *St, x []FV) bool { return f.ulpSpec(st.e, x) }
	return j
}

// ulpSpec: identical, or same sign and |d| <= u.
func (f Fmt) ulpSpec(e *Env, x []FV) bool {
	if f.sameSpec(e, f.again(e, x[0]), f.again(e, x[1])) {
		return true
	}
	if x[0].cls == clsNaN || x[1].cls == clsNaN {
		return false
	}
	if !e.Zero(e.S(e.u.Sub(e.S(x[0].s), e.S(x[1].s)))) {
		return false
	}
	d := f.again(e, x[2])
	d.s = e.u.zero
	return f.lessSpec(e, d, f.again(e, x[3]), true)
}

func init() {
	floatJobs["AssertIsEqualOrCustomULP32"] = ulpJob("AssertIsEqualOrCustomULP32", 32)
	floatJobs["AssertIsEqualOrCustomULP64"] = ulpJob("AssertIsEqualOrCustomULP64", 64)
	floatJobs["AssertIsEqualOrCustomULP32"].formats = formats[:1]
	floatJobs["AssertIsEqualOrCustomULP64"].formats = formats[1:]
}
