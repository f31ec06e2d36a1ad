package main

// Symbolic evaluation of plain Go functions with trace partitioning.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// symCases evaluates body under every case of its own case distinctions; "" means the case is fine.
func (w *World) symCases(r *Report, key string, setup func(e *Env), body func(e *Env, in *Interp) string) {
	u := newU()
	e0 := newEnv(u)
	setup(e0)
	stack := []*Env{e0}
	leaves := 0
	for len(stack) > 0 {
		e := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if leaves > 3000 || len(e.trace) > 200 {
			r.alarm(key, "not decided: too many cases")
			return
		}
		keep := e.clone()
		var msg string
		var b *blocked
		var nr *notReady
		dead := false
		func() {
			defer func() {
				if x := recover(); x != nil {
					switch y := x.(type) {
					case infeasible:
						dead = true
					case undecidedErr:
						msg = "not decided: " + y.msg
					case goPanic:
						msg = "panics: " + panicMsg(y)
					default:
						panic(x)
					}
				}
			}()
			b, nr = try(func() {
				in := newInterp(w)
				in.env = e
				in.g = newGraph(in, "R1CS")
				for _, p := range w.main {
					in.initPkg(w.prog.Package(p.Types))
				}
				msg = body(e, in)
				r.touch(in.touched)
			})
		}()
		if dead {
			continue
		}
		if nr != nil {
			msg = "not decided: " + nr.why
		}
		if b != nil {
			for _, val := range []bool{true, false} {
				n := keep.clone()
				func() {
					defer func() {
						if x := recover(); x != nil {
							if _, ok := x.(infeasible); ok {
								return
							}
							if y, ok := x.(undecidedErr); ok {
								r.alarm(key, "not decided: %s", y.msg)
								return
							}
							panic(x)
						}
					}()
					s := b.cond.String(u)
					if !val {
						s = "not(" + s + ")"
					}
					n.note("%s", s)
					bb, _ := try(func() { n.assume(b.cond, val) })
					if bb != nil {
						r.alarm(key, "not decided: cannot assume %s", s)
						return
					}
					stack = append(stack, n)
				}()
			}
			continue
		}
		leaves++
		if msg != "" {
			r.alarm(key, "%s [case: %s]", msg, strings.Join(e.trace, "; "))
			return
		}
	}
	r.count("cases proved", leaves)
	if leaves == 0 {
		r.alarm(key, "no feasible case: the analysis is vacuous")
		return
	}
	r.pass("%s: %d cases", key, leaves)
}

// fvDiff compares component values with the specification; nil components are unspecified.
func fvDiff(e *Env, got []*Poly, want FV) string {
	for i, p := range want.comps() {
		if p == nil {
			continue
		}
		if !e.Zero(e.S(e.u.Sub(e.S(got[i]), e.S(p)))) {
			return fmt.Sprintf("%s is %s, must be %s", floatFields[i], e.u.Str(e.S(got[i])), e.u.Str(e.S(p)))
		}
	}
	return ""
}

func (in *Interp) bigSlice(v Value) []*Poly {
	s, ok := v.(SliceV)
	if !ok {
		panic(undecided("slice of integers expected"))
	}
	var out []*Poly
	for i := 0; i < s.len; i++ {
		out = append(out, in.bigPoly(s.arr[i].v))
	}
	return out
}

// bigPoly is the value of a *big.Int or of an interface holding one.
func (in *Interp) bigPoly(v Value) *Poly {
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	if c, ok := v.(*Cell); ok && c != nil {
		return in.symPoly(c.v)
	}
	return in.symPoly(v)
}

func init() {
	props["C02"] = &propDef{"proof", checkConstants}
}

func checkConstants(w *World, r *Report) {
	r.explain = "util.ComponentsOf, util.ValueOf, the host conversions and the constant constructors of float.Context are evaluated symbolically (SSA interpreter over the algebraic domain with trace partitioning) for an arbitrary bit pattern; the resulting components are compared with the documented encoding that allocation enforces (C01), and the conversion back with the original pattern."
	for _, f := range formats {
		W := f.E + f.M + 1
		max := new(big.Int).Sub(bigPow2(W), big.NewInt(1))
		bits := fmt.Sprintf("bits%d:c", W)
		up := map[int64]string{32: "F32", 64: "F64"}[W]
		comps := func(key string, call func(in *Interp, ctx *Cell, v *Poly) []*Poly) {
			w.symCases(r, f.String()+" "+key, func(e *Env) { e.setVar(bits, new(big.Int), max) }, func(e *Env, in *Interp) string {
				v := e.u.V(bits)
				ctx := in.newContext(Iface{apiT, &APIObj{"api"}}, 0, uint64(f.E), uint64(f.M))
				got := call(in, ctx, v)
				if len(got) != 4 {
					return "four components expected"
				}
				return fvDiff(e, got, f.decodeSpec(e, e.S(v)))
			})
		}
		fields := func(in *Interp, v Value) []*Poly {
			s := v.(*StructV)
			var out []*Poly
			for i := range floatFields {
				out = append(out, in.bigPoly(fieldOf(s, floatFields[i])))
			}
			return out
		}
		comps("Context.NewConstant", func(in *Interp, ctx *Cell, v *Poly) []*Poly {
			return fields(in, in.callMethod("float", "Context", "NewConstant", ctx, &SymI{v}))
		})
		comps("Context.New"+up+"Constant", func(in *Interp, ctx *Cell, v *Poly) []*Poly {
			return fields(in, in.callMethod("float", "Context", "New"+up+"Constant", ctx, SymF{"c"}))
		})
		comps("util.ComponentsOf", func(in *Interp, ctx *Cell, v *Poly) []*Poly {
			return in.bigSlice(in.callFn("util", "ComponentsOf", &SymI{v}, uint64(f.E), uint64(f.M)))
		})
		comps("util."+up+"ToComponents", func(in *Interp, ctx *Cell, v *Poly) []*Poly {
			return in.bigSlice(in.callFn("util", up+"ToComponents", SymF{"c"}))
		})
		w.symCases(r, f.String()+" util.ComponentsTo"+up+" after util."+up+"ToComponents", func(e *Env) { e.setVar(bits, new(big.Int), max) }, func(e *Env, in *Interp) string {
			u := e.u
			b, ok := in.callFn("util", "ComponentsTo"+up, in.callFn("util", up+"ToComponents", SymF{"c"})).(symFloatBits)
			if !ok || b.f64 != (W == 64) {
				return "result is not a float of the format"
			}
			v, back := e.S(u.V(bits)), e.S(b.p)
			nan := f.decodeSpec(e, v).cls == clsNaN
			if nan {
				if f.decodeSpec(e, e.S(back)).cls == clsNaN {
					return ""
				}
				return "a NaN becomes " + u.Str(e.S(back))
			}
			d := e.S(u.Sub(e.S(back), e.S(v)))
			if e.Zero(d) {
				return ""
			}
			return fmt.Sprintf("the pattern v becomes %s", u.Str(e.S(back)))
		})
	}
	r.atLeast("cases proved", 40)
}

func fieldOf(s *StructV, name string) Value {
	t, ok := s.t.Underlying().(*types.Struct)
	if !ok {
		panic(undecided("struct expected"))
	}
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Name() == name {
			return s.f[i]
		}
	}
	panic(undecided("no field " + name))
}

func (in *Interp) callFn(rel, name string, args ...Value) Value {
	fn := in.w.fn(rel, name)
	if fn == nil {
		panic(undecided(rel + "." + name + " not found"))
	}
	return in.call(fn, args)
}
