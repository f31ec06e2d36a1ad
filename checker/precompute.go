package main

// C39: the advice precomputed for the location circuits.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["C39"] = &propDef{"proof", checkPrecompute} }

// halfAngle evaluates terms over the sine s and cosine c of half the input v.
type halfAngle struct {
	w       *World
	u       *U
	v, s, c *Poly
	single  bool
	why     string
}

func (h *halfAngle) reduce(p *Poly) *Poly {
	sa := h.u.Var("s")
	for again := true; again; {
		again = false
		out := h.u.zero
		for _, t := range p.t {
			q := h.u.constRat(t.c)
			for _, f := range t.m.f {
				n := f.pow
				if f.a == sa && n >= 2 {
					q = h.u.Mul(q, h.u.Sub(h.u.one, h.u.Mul(h.c, h.c)))
					n -= 2
					again = true
				}
				for ; n > 0; n-- {
					q = h.u.Mul(q, h.u.Atom(f.a))
				}
			}
			out = h.u.Add(out, q)
		}
		p = out
	}
	return p
}

func (h *halfAngle) same(a, b RF) bool {
	return h.reduce(h.u.Sub(h.u.Mul(a.n, b.d), h.u.Mul(b.n, a.d))).IsZero()
}

func (h *halfAngle) fail(f string, a ...any) (RF, bool) {
	if h.why == "" {
		h.why = fmt.Sprintf(f, a...)
	}
	return RF{}, false
}

// stripInt removes conversions between integer types.
func stripInt(v Value) Value {
	for {
		o, ok := v.(Opaque)
		if !ok || o.t == nil || !strings.HasPrefix(o.t.op, "convert ") || !strings.Contains(o.t.op, "int") || strings.Contains(o.t.op, "float") {
			return v
		}
		v = o.t.args[0]
	}
}

func (h *halfAngle) eval(v Value) (RF, bool) {
	u := h.u
	switch x := v.(type) {
	case Iface:
		return h.eval(x.v)
	case float64:
		r := new(big.Rat).SetFloat64(x)
		if r == nil {
			return h.fail("a constant that is not finite")
		}
		return RF{u.constRat(r), u.one}, true
	case int64:
		return RF{u.Int(x), u.one}, true
	case Opaque:
		if x.t == nil {
			return h.fail("an unknown value")
		}
		var a []RF
		arg := func(n int) bool {
			for i := 0; i < n && i < len(x.t.args); i++ {
				r, ok := h.eval(x.t.args[i])
				if !ok {
					return false
				}
				a = append(a, r)
			}
			return len(a) == n
		}
		switch op := x.t.op; op {
		case "math.Float64frombits", "math.Float32frombits":
			if (op == "math.Float32frombits") != h.single {
				return h.fail("reads the input in the other precision")
			}
			if o, ok := stripInt(x.t.args[0]).(Opaque); !ok || o.t == nil || o.t.op != "input bits" {
				return h.fail("reads the value of %s", keyOf(x.t.args[0]))
			}
			return RF{h.v, u.one}, true
		case "convert float32 to float64":
			return h.eval(x.t.args[0])
		case "convert float64 to float32":
			return h.fail("rounds an intermediate value to single precision")
		case "+", "-", "*", "/":
			if len(x.t.args) == 1 && op == "-" {
				if !arg(1) {
					return RF{}, false
				}
				return RF{u.Neg(a[0].n), a[0].d}, true
			}
			if !arg(2) {
				return RF{}, false
			}
			switch op {
			case "+":
				return RF{u.Add(u.Mul(a[0].n, a[1].d), u.Mul(a[1].n, a[0].d)), u.Mul(a[0].d, a[1].d)}, true
			case "-":
				return RF{u.Sub(u.Mul(a[0].n, a[1].d), u.Mul(a[1].n, a[0].d)), u.Mul(a[0].d, a[1].d)}, true
			case "*":
				return RF{u.Mul(a[0].n, a[1].n), u.Mul(a[0].d, a[1].d)}, true
			}
			return RF{u.Mul(a[0].n, a[1].d), u.Mul(a[0].d, a[1].n)}, true
		case "math.Sin", "math.Cos", "math.Tan":
			if !arg(1) {
				return RF{}, false
			}
			return h.trig(op, a[0])
		case "result 0", "result 1":
			if o, ok := x.t.args[0].(Opaque); ok && o.t != nil && o.t.op == "math.Sincos" {
				r, ok := h.eval(o.t.args[0])
				if !ok {
					return RF{}, false
				}
				return h.trig(map[string]string{"result 0": "math.Sin", "result 1": "math.Cos"}[op], r)
			}
		}
		return h.fail("depends on %s", x.t.op)
	}
	return h.fail("depends on %s", keyOf(v))
}

func (h *halfAngle) trig(op string, a RF) (RF, bool) {
	u := h.u
	s, c := h.s, h.c
	half := RF{h.v, u.Int(2)}
	neg := false
	switch {
	case h.same(a, half):
	case h.same(a, RF{h.v, u.one}):
		s, c = u.ScaleInt(u.Mul(s, c), 2), u.Sub(u.Mul(c, c), u.Mul(s, s))
	case h.same(a, RF{u.Neg(h.v), u.Int(2)}):
		neg = true
	case h.same(a, RF{u.Neg(h.v), u.one}):
		s, c, neg = u.ScaleInt(u.Mul(s, c), 2), u.Sub(u.Mul(c, c), u.Mul(s, s)), true
	default:
		return h.fail("%s of something that is neither the input nor half of it", op)
	}
	if neg {
		s = u.Neg(s)
	}
	switch op {
	case "math.Sin":
		return RF{s, u.one}, true
	case "math.Cos":
		return RF{c, u.one}, true
	}
	return RF{s, c}, true
}

func checkPrecompute(w *World, r *Report) {
	r.explain = "The advice functions that precompute trigonometric values are partially evaluated on an unknown bit pattern; encoding and decoding are inverse to each other (C02). Each output must be the stated component of the encoding of one of four expressions in the input, compared as rational functions over the sine and cosine of half the input (with sin^2+cos^2 = 1)."
	r.rules = []string{"outputs 4g..4g+3 are the sign, exponent, mantissa and flag of the g-th value", "the values are tan(v/2), sin(v), sin(v/2), cos(v/2)", "evaluated in double precision, rounded once to the format"}
	for _, f := range fmts {
		name := fmt.Sprintf("PrecomputeHint%d", 1+f.E+f.M)
		guardRun(r, name, func() {
			fn := w.fn("hint", name)
			if fn == nil {
				r.alarm(name, "not found")
				return
			}
			w.precompute(r, name, fn, f)
		})
	}
	r.atLeast("outputs decided", 32)
}

func (w *World) precompute(r *Report, name string, fn *ssa.Function, f Fmt) {
	h := &halfAngle{w: w, u: newU(), single: f.E == 8}
	h.v, h.s, h.c = h.u.V("v"), h.u.V("s"), h.u.V("c")
	one := h.u.one
	want := []RF{{h.s, h.c}, {h.u.ScaleInt(h.u.Mul(h.s, h.c), 2), one}, {h.s, one}, {h.c, one}}
	what := []string{"tan(v/2)", "sin(v)", "sin(v/2)", "cos(v/2)"}
	part := []string{"sign", "exponent", "mantissa", "flag"}
	bp := fn.Signature.Params().At(0).Type()
	bt := bp.(*types.Pointer).Elem()
	var outs []*Cell
	load := func(v Value) Value {
		if c, ok := v.(*Cell); ok && c != nil {
			return c.v
		}
		return v
	}
	e := &explore{w: w, limit: 200,
		setup: func(x *explorer, in *Interp) {
			x.enter = func(x *explorer, in *Interp, fn *ssa.Function, args []Value) (Value, bool) {
				if fn.Pkg == nil || fn.Pkg.Pkg.Path() != w.mod+"/util" {
					return nil, false
				}
				switch fn.Name() {
				case "ComponentsOf":
					s := SliceV{len: 4, cap: 4}
					for k := 0; k < 4; k++ {
						c := &Cell{t: bp, v: &Cell{t: bt, v: mkTerm("component", int64(k), stripInt(args[0]), args[1], args[2])}}
						s.arr = append(s.arr, c)
					}
					return s, true
				case "ValueOf":
					s, ok := args[0].(SliceV)
					var v Value
					for k := 0; ok && k < s.len; k++ {
						o, isO := load(s.arr[k].load()).(Opaque)
						ok = isO && o.t != nil && o.t.op == "component" && len(o.t.args) == 4 && o.t.args[0] == Value(int64(k)) &&
							keyOf(o.t.args[2]) == keyOf(args[1]) && keyOf(o.t.args[3]) == keyOf(args[2]) && (k == 0 || keyOf(v) == keyOf(o.t.args[1]))
						if ok {
							v = o.t.args[1]
						}
					}
					if ok && s.len == 4 {
						return v, true
					}
					return mkTerm("decoding", args...), true
				}
				return nil, false
			}
			x.model = func(x *explorer, in *Interp, name string, sig *types.Signature, args []Value) (Value, bool) {
				if !strings.HasPrefix(name, "(*math/big.Int).") {
					return nil, false
				}
				switch strings.TrimPrefix(name, "(*math/big.Int).") {
				case "Uint64":
					switch v := load(args[0]).(type) {
					case *big.Int:
						return v.Uint64(), true
					case Opaque:
						return v, true
					}
				case "Set":
					if c, ok := args[0].(*Cell); ok && c != nil {
						c.v = load(args[1])
						return c, true
					}
				}
				panic(undecided(name + " in " + fn.Name()))
			}
		},
		body: func(in *Interp) Value {
			mk := func(vs []Value) SliceV {
				s := SliceV{len: len(vs), cap: len(vs)}
				for _, v := range vs {
					s.arr = append(s.arr, &Cell{t: bp, v: &Cell{t: bt, v: v}})
				}
				return s
			}
			ins := mk([]Value{mkTerm("input bits"), big.NewInt(int64(f.E)), big.NewInt(int64(f.M))})
			o := make([]Value, 16)
			for i := range o {
				o[i] = new(big.Int)
			}
			os := mk(o)
			outs = nil
			for _, c := range os.arr {
				outs = append(outs, c.v.(*Cell))
			}
			return in.call(fn, []Value{&Cell{t: bt, v: new(big.Int).Set(fieldP)}, ins, os})
		},
		end: func(p *pathEnd) (bad []string) {
			if p.how != "return" {
				return []string{"does not return normally: " + p.how + " " + p.msg}
			}
			if null, ok := p.x.isNil(p.ret); !ok || !null {
				return []string{"returns an error"}
			}
			for i, c := range outs {
				g, k := i/4, i%4
				label := fmt.Sprintf("output %d (%s of %s) ", i, part[k], what[g])
				o, ok := c.v.(Opaque)
				if !ok || o.t == nil || o.t.op != "component" {
					bad = append(bad, label+"is not a component of an encoded value")
					continue
				}
				if o.t.args[0] != Value(int64(k)) {
					bad = append(bad, fmt.Sprintf("%sis the %s", label, part[o.t.args[0].(int64)]))
					continue
				}
				if o.t.args[2] != Value(uint64(f.E)) || o.t.args[3] != Value(uint64(f.M)) {
					bad = append(bad, label+"is encoded in another format")
					continue
				}
				b, ok := o.t.args[1].(Opaque)
				var v Value
				switch {
				case ok && b.t != nil && !h.single && b.t.op == "math.Float64bits":
					v = b.t.args[0]
				case ok && b.t != nil && h.single && b.t.op == "math.Float32bits":
					v = b.t.args[0]
					if q, ok := v.(Opaque); ok && q.t != nil && q.t.op == "convert float64 to float32" {
						v = q.t.args[0]
					}
				default:
					bad = append(bad, label+"is not the encoding of a float of this format")
					continue
				}
				h.why = ""
				rf, ok := h.eval(v)
				if !ok {
					bad = append(bad, label+h.why)
					continue
				}
				if !h.same(rf, want[g]) {
					bad = append(bad, label+"is the encoding of another value")
				}
			}
			return
		}}
	_, _, bad := e.run(r)
	r.count("outputs decided", len(outs))
	for _, b := range bad {
		r.alarm(name+": "+b, "%s: %s", name, b)
	}
	if len(bad) == 0 {
		r.pass("%s: sixteen outputs are the components of tan(v/2), sin(v), sin(v/2), cos(v/2)", name)
	}
}
