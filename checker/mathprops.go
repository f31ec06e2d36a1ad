package main

// C26-C29: the approximations of package math.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"
)

func init() {
	props["C26"] = &propDef{"proof", checkSine}
	props["C27"] = &propDef{"proof", checkAtan}
	props["C28"] = &propDef{"proof", checkAtan2}
	props["C29"] = &propDef{"proof", checkPoly}
}

const pipeExplain = "The circuit-building SSA is partially evaluated with the float operations as uninterpreted terms (they are decided by C03-C10); every feasible path of comparisons is followed symbolically and the result is an exact rational expression in the input"

var fmts = []Fmt{{8, 23}, {11, 52}}

func (p *pipe) call(rel, name string, args ...Value) Value {
	fn := p.w.fn(rel, name)
	if fn == nil {
		panic(undecided("function " + rel + "." + name + " not found"))
	}
	if fn.Signature.Params().Len() != len(args) {
		panic(undecided("parameters of " + name))
	}
	return p.callFn(fn, args)
}

// floats splits a returned float variable or array of them.
func (p *pipe) floats(v Value) (out [][4]*Node) {
	switch x := v.(type) {
	case *StructV:
		if types.Identical(x.t, p.w.named("float", "FloatVar")) {
			return [][4]*Node{p.floatArg(x)}
		}
		for _, f := range x.f {
			out = append(out, p.floats(f)...)
		}
	case SliceV:
		for i := 0; i < x.len; i++ {
			out = append(out, p.floats(x.arr[i].load())...)
		}
	case Tuple:
		for _, f := range x {
			out = append(out, p.floats(f)...)
		}
	default:
		panic(undecided("float result expected"))
	}
	return
}

// wires splits returned wires.
func (p *pipe) wires(v Value) (out []*Node) {
	switch x := v.(type) {
	case *StructV:
		for _, f := range x.f {
			out = append(out, p.wires(f)...)
		}
		return
	case SliceV:
		for i := 0; i < x.len; i++ {
			out = append(out, p.wires(x.arr[i].load())...)
		}
		return
	case Tuple:
		for _, f := range x {
			out = append(out, p.wires(f)...)
		}
		return
	}
	return []*Node{p.in.node(v)}
}

// guardRun runs one symbolic exploration, turning an undecided step into an alarm.
func guardRun(r *Report, key string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			switch e := x.(type) {
			case undecidedErr:
				r.alarm(key, "not decided: %s", e.msg)
			case goPanic:
				r.alarm(key, "circuit construction panics: %s", panicMsg(e))
			default:
				panic(x)
			}
		}
	}()
	f()
}

// ---------- certified numeric bounds ----------

const numPrec = 320

func nf(x int64) *big.Float { return new(big.Float).SetPrec(numPrec).SetInt64(x) }
func nr(r *big.Rat) *big.Float {
	return new(big.Float).SetPrec(numPrec).SetRat(r)
}
func nmul(a, b *big.Float) *big.Float { return new(big.Float).SetPrec(numPrec).Mul(a, b) }
func nadd(a, b *big.Float) *big.Float { return new(big.Float).SetPrec(numPrec).Add(a, b) }
func nsub(a, b *big.Float) *big.Float { return new(big.Float).SetPrec(numPrec).Sub(a, b) }
func nquo(a, b *big.Float) *big.Float { return new(big.Float).SetPrec(numPrec).Quo(a, b) }
func nabs(a *big.Float) *big.Float    { return new(big.Float).SetPrec(numPrec).Abs(a) }

func polyAt(c []*big.Float, x *big.Float) *big.Float {
	s := nf(0)
	for i := len(c) - 1; i >= 0; i-- {
		s = nadd(nmul(s, x), c[i])
	}
	return s
}

// polySup bounds |p| on [lo,hi]: on each of n pieces the sum of the absolute Taylor coefficients at its middle. The
// rounding of the 320-bit arithmetic is far below the slack of every comparison made with the result.
func polySup(c []*big.Float, lo, hi *big.Float, n int) *big.Float {
	sup := nf(0)
	w := nquo(nsub(hi, lo), nf(int64(n)))
	half := nquo(w, nf(2))
	for k := 0; k < n; k++ {
		m := nadd(nadd(lo, nmul(w, nf(int64(k)))), half)
		t := append([]*big.Float{}, c...)
		for i := 0; i < len(t); i++ { // Taylor shift
			for j := len(t) - 2; j >= i; j-- {
				t[j] = nadd(t[j], nmul(t[j+1], m))
			}
		}
		s, h := nf(0), nf(1)
		for _, x := range t {
			s = nadd(s, nmul(nabs(x), h))
			h = nmul(h, half)
		}
		if s.Cmp(sup) > 0 {
			sup = s
		}
	}
	return sup
}

// bigAtan evaluates atan for 0 <= x <= 1.
func bigAtan(x *big.Float) *big.Float {
	k := 0
	for ; k < 6; k++ { // atan x = 2 atan(x / (1 + sqrt(1+x^2)))
		d := nadd(nf(1), new(big.Float).SetPrec(numPrec).Sqrt(nadd(nf(1), nmul(x, x))))
		x = nquo(x, d)
	}
	s, t, x2 := nf(0), x, nmul(x, x)
	for i := int64(0); i < 80; i++ {
		v := nquo(t, nf(2*i+1))
		if i%2 == 0 {
			s = nadd(s, v)
		} else {
			s = nsub(s, v)
		}
		t = nmul(t, x2)
	}
	for ; k > 0; k-- {
		s = nmul(s, nf(2))
	}
	return s
}

var bigPi = func() *big.Float { return nmul(nf(4), bigAtan(nf(1))) }()

// univar reads p as a polynomial in one atom.
func univar(p *Poly, a *Atom) ([]*big.Rat, bool) {
	var out []*big.Rat
	for _, t := range p.t {
		n := 0
		if t.m.p2 != nil || len(t.m.f) > 1 {
			return nil, false
		}
		if len(t.m.f) == 1 {
			if t.m.f[0].a != a || t.m.f[0].pow < 0 {
				return nil, false
			}
			n = t.m.f[0].pow
		}
		for len(out) <= n {
			out = append(out, new(big.Rat))
		}
		out[n] = t.c
	}
	return out, true
}

func toFloats(c []*big.Rat) (out []*big.Float) {
	for _, x := range c {
		out = append(out, nr(x))
	}
	return
}

// interval reads the bounds the decided comparisons put on one atom.
func (e *real) interval(a *Atom) (lo, hi *big.Rat) {
	for _, f := range e.facts {
		c, ok := univar(f.p, a)
		if !ok || len(c) != 2 {
			continue
		}
		b := new(big.Rat).Quo(new(big.Rat).Neg(c[0]), c[1])
		if (c[1].Sign() > 0 || f.r == relEq) && (lo == nil || b.Cmp(lo) > 0) {
			lo = b
		}
		if (c[1].Sign() < 0 || f.r == relEq) && (hi == nil || b.Cmp(hi) < 0) {
			hi = b
		}
	}
	return
}

func ratOf(f *big.Float) *big.Rat {
	r, _ := f.Rat(nil)
	return r
}

func showF(f *big.Float) string { return f.Text('g', 4) }

// resultMag is the sign of a result and the exact value its magnitude comes from (up to sign).
func (e *real) resultMag(a [4]*Node) (neg bool, v RF) {
	s, c, t := e.raw(a)
	neg = e.bit(s)
	if t == nil {
		return neg, e.rat(c)
	}
	return neg, e.value(t)
}

// approxJob decides the accuracy of one unary approximation.
type approxJob struct {
	name string
	f    Fmt
	// domain of the magnitude; nil hi: unbounded
	hi     *big.Rat
	positv bool
	tol    *big.Float
	bound  func(e *real, X *Atom, v RF, lo, hi *big.Rat) (*big.Float, string)
}

func (j approxJob) run(w *World, r *Report) {
	key := "math." + j.name
	guardRun(r, key, func() {
		var out [][4]*Node
		p, err := w.pipeline(j.f, func(p *pipe) {
			out = p.floats(p.call("math", j.name, p.ctx, p.input("x")))
		})
		if err != nil {
			r.alarm(key, "%v", err)
			return
		}
		if len(out) != 1 {
			r.alarm(key, "one float result expected")
			return
		}
		r.touch(p.touch)
		r.count("float operations in the term", len(p.terms))
		leaves := 0
		(&realRun{p: p, limit: 500, setup: func(e *real) {
			x := e.u.V("x")
			e.mags["x"] = x
			e.pos[e.u.Var("x")] = true
			if j.positv {
				e.assume(x, relGt)
			} else {
				e.assume(x, relGe)
			}
			if j.hi != nil {
				e.assume(e.u.Sub(e.u.constRat(j.hi), x), relGe)
			}
		}, leaf: func(e *real) {
			neg, v := e.resultMag(out[0])
			xneg := e.choice("input x")
			X := e.u.Var("x")
			lo, hi := e.interval(X)
			where := fmt.Sprintf("%s: x %s, magnitude in [%s, %s]", key, map[bool]string{true: "negative", false: "positive"}[xneg], showRat(lo), showRat(hi))
			leaves++
			if lo != nil && hi != nil && lo.Cmp(hi) == 0 && lo.Sign() == 0 {
				return
			}
			r.check(neg == xneg, key+" sign", "%s: the result has the other sign", where)
			if e.bit(out[0][3]) {
				r.alarm(key+" abnormal", "%s: the result is abnormal", where)
			}
			sup, why := j.bound(e, X, v, lo, hi)
			if sup == nil {
				r.alarm(key+" accuracy", "%s: %s", where, why)
				return
			}
			r.check(sup.Cmp(j.tol) <= 0, key+" accuracy", "%s: the evaluated expression may differ from the function by up to %s, more than %s", where, showF(sup), showF(j.tol))
			r.count("regions bounded", 1)
			if os.Getenv("ZKDEBUG") != "" {
				fmt.Println(where, showF(sup))
			}
		}}).run()
	})
}

func showRat(r *big.Rat) string {
	if r == nil {
		return "inf"
	}
	f, _ := r.Float64()
	return fmt.Sprintf("%.6g", f)
}

func twoPow(n int) *big.Float { return new(big.Float).SetPrec(numPrec).SetMantExp(nf(1), n) }

func checkSine(w *World, r *Report) {
	r.explain = pipeExplain + ". It is compared with the sine by a certified bound on the difference with a Taylor polynomial of degree 61 (subdivision, Taylor shift, 320-bit arithmetic) over the whole region of each path."
	r.rules = []string{"|value - sin x| <= 2^-M in exact arithmetic for 0 <= |x| <= pi", "sign of the result = sign of the argument"}
	const N = 61
	bound := func(e *real, X *Atom, v RF, lo, hi *big.Rat) (*big.Float, string) {
		if c, ok := v.d.IsConst(); !ok || c.Cmp(ratOne) != 0 {
			return nil, "the result is not a polynomial in the argument"
		}
		c, ok := univar(v.n, X)
		if !ok {
			return nil, "the result is not a polynomial in the argument"
		}
		if lo == nil || hi == nil {
			return nil, "unbounded argument"
		}
		d := toFloats(c)
		for len(d) <= N {
			d = append(d, nf(0))
		}
		fact := nf(1)
		for k := int64(1); k <= N; k++ {
			fact = nmul(fact, nf(k))
			if k%2 == 1 {
				t := nquo(nf(1), fact)
				if k%4 == 3 {
					t.Neg(t)
				}
				d[k] = nsub(d[k], t)
			}
		}
		sup := polySup(d, nr(lo), nr(hi), 64)
		// remainder of the Taylor series: 3.15^63/63!
		rem := nf(1)
		for k := int64(1); k <= N+2; k++ {
			rem = nmul(rem, nquo(nr(big.NewRat(315, 100)), nf(k)))
		}
		return nadd(sup, rem), ""
	}
	pi := ratOf(nadd(bigPi, twoPow(-200)))
	for i, n := range []string{"SinTaylor32", "SinTaylor64"} {
		approxJob{name: n, f: fmts[i], hi: pi, tol: twoPow(-int(fmts[i].M)), bound: bound}.run(w, r)
	}
	r.atLeast("regions bounded", 3)
	r.atLeast("float operations in the term", 15)
}

func checkAtan(w *World, r *Report) {
	r.explain = pipeExplain + ". With t = |x| up to one and t = 1/|x| above, it is a polynomial q(t); |q(t) - atan t| is bounded on [0,1] from its values on a grid and a certified bound of q'(t)(1+t^2)-1 (320-bit arithmetic)."
	r.rules = []string{"|value - atan x| <= 2^-51 (double) or 2^-23 (single) in exact arithmetic for every finite x", "sign of the result = sign of the argument"}
	for i, n := range []string{"AtanRemez32", "AtanRemez64"} {
		tol := []*big.Float{twoPow(-23), twoPow(-51)}[i]
		approxJob{name: n, f: fmts[i], positv: true, tol: tol, bound: atanBound}.run(w, r)
	}
	r.atLeast("regions bounded", 3)
	r.atLeast("float operations in the term", 15)
}

func atanBound(e *real, X *Atom, v RF, lo, hi *big.Rat) (*big.Float, string) {
	n, ok1 := univar(v.n, X)
	d, ok2 := univar(v.d, X)
	if !ok1 || !ok2 {
		return nil, "the result is not a rational function of the argument"
	}
	dk := -1
	for k, c := range d {
		if c.Sign() != 0 {
			if dk >= 0 {
				return nil, "the denominator of the result is not a power of the argument"
			}
			dk = k
		}
	}
	var q []*big.Rat
	recip := dk > 0
	if !recip {
		for _, c := range n {
			q = append(q, new(big.Rat).Quo(c, d[0]))
		}
	} else { // t = 1/x
		if len(n)-1 > dk {
			return nil, "the result is unbounded"
		}
		q = make([]*big.Rat, dk+1)
		for k := range q {
			q[k] = new(big.Rat)
			if dk-k < len(n) {
				q[k] = new(big.Rat).Quo(n[dk-k], d[dk])
			}
		}
		if lo == nil || lo.Sign() <= 0 {
			return nil, "the reciprocal is used for arguments near zero"
		}
		var l *big.Rat = new(big.Rat)
		if hi != nil {
			l = new(big.Rat).Inv(hi)
		}
		lo, hi = l, new(big.Rat).Inv(lo)
	}
	if lo == nil || hi == nil || hi.Cmp(big.NewRat(2, 1)) > 0 {
		return nil, "the polynomial is used on an unbounded range"
	}
	c := toFloats(q)
	if recip { // pi/2 - q(t) against atan t
		for k := range c {
			c[k] = nsub(nf(0), c[k])
		}
		c[0] = nadd(c[0], nquo(bigPi, nf(2)))
	}
	// derivative of the error times 1+t^2
	g := make([]*big.Float, len(c)+2)
	for k := range g {
		g[k] = nf(0)
	}
	g[0] = nf(-1)
	for k := 1; k < len(c); k++ {
		dv := nmul(c[k], nf(int64(k)))
		g[k-1] = nadd(g[k-1], dv)
		g[k+1] = nadd(g[k+1], dv)
	}
	const grid = 512
	a, b := nr(lo), nr(hi)
	w := nquo(nsub(b, a), nf(grid))
	sup := nf(0)
	for k := int64(0); k <= grid; k++ {
		t := nadd(a, nmul(w, nf(k)))
		at := bigAtan1(t)
		if x := nabs(nsub(polyAt(c, t), at)); x.Cmp(sup) > 0 {
			sup = x
		}
	}
	return nadd(sup, nmul(polySup(g, a, b, 128), nquo(w, nf(2)))), ""
}

func bigAtan1(t *big.Float) *big.Float {
	if t.Cmp(nf(1)) <= 0 {
		return bigAtan(t)
	}
	return nsub(nquo(bigPi, nf(2)), bigAtan(nquo(nf(1), t)))
}

func checkAtan2(w *World, r *Report) {
	r.explain = pipeExplain + "s. The result of Atan2 is compared with that of the arctangent circuit on the quotient of the operands, in each quadrant."
	r.rules = []string{"x > 0: atan(y/x)", "x < 0, y > 0: atan(y/x) + pi", "x < 0, y < 0: atan(y/x) - pi", "pi within one unit in the last place"}
	key := "math.Atan2"
	guardRun(r, key, func() {
		var got, want [4]*Node
		p, err := w.pipeline(Fmt{11, 52}, func(p *pipe) {
			y, x := p.input("y"), p.input("x")
			q := p.in.callMethod("float", "Context", "Div", p.ctx, y, x)
			want = p.floats(p.call("math", "AtanRemez64", p.ctx, q))[0]
			got = p.floats(p.call("math", "Atan2", p.ctx, y, x))[0]
		})
		if err != nil {
			r.alarm(key, "%v", err)
			return
		}
		r.touch(p.touch)
		(&realRun{p: p, limit: 500, setup: func(e *real) {
			for _, n := range []string{"x", "y"} {
				e.mags[n] = e.u.V(n)
				e.pos[e.u.Var(n)] = true
				e.assume(e.u.V(n), relGt)
			}
		}, leaf: func(e *real) {
			xneg, yneg := e.choice("input x"), e.choice("input y")
			a := e.float(want)
			b := e.float(got)
			if e.bit(got[3]) {
				r.alarm(key+" abnormal", "the result is abnormal")
			}
			pi := nf(0)
			switch {
			case xneg && yneg:
				pi = nsub(pi, bigPi)
			case xneg:
				pi = bigPi
			}
			quad := fmt.Sprintf("x %s, y %s", sgn(xneg), sgn(yneg))
			d := e.sub(b, a)
			c, ok := ratioConst(e, d)
			r.count("quadrant cases compared", 1)
			if !ok {
				r.alarm(key+" "+quad, "%s: the result is not the arctangent of the quotient plus a constant", quad)
				return
			}
			diff := nabs(nsub(nr(c), pi))
			r.check(diff.Cmp(twoPow(-51)) <= 0, key+" "+quad, "%s: %s is added to the arctangent of the quotient, want %s", quad, showF(nr(c)), showF(pi))
		}}).run()
	})
	r.atLeast("quadrant cases compared", 8)
}

func sgn(neg bool) string {
	if neg {
		return "negative"
	}
	return "positive"
}

// ratioConst decides whether a rational function is constant.
func ratioConst(e *real, a RF) (*big.Rat, bool) {
	n, d := e.reduce(a.n), e.reduce(a.d)
	if n.IsZero() {
		return new(big.Rat), true
	}
	if d.IsZero() {
		return nil, false
	}
	var c *big.Rat
	for _, t := range n.t {
		if t.m.key == d.t[0].m.key {
			c = new(big.Rat).Quo(t.c, d.t[0].c)
		}
	}
	if c == nil || !e.u.Sub(n, e.u.Scale(d, c)).IsZero() {
		return nil, false
	}
	return c, true
}

func checkPoly(w *World, r *Report) {
	r.explain = pipeExplain + " and the coefficients, for every number of coefficients from 0 to 32, and compared with the polynomial. Eval takes the constant coefficient first, EvalK the leading one."
	r.rules = []string{"Eval: sum of c[i] * x^i", "EvalK with one part: sum of c[i] * x^(n-1-i)", "EvalK with more parts: the same polynomial in exact arithmetic"}
	pt := w.named("math", "Polynomial")
	if pt == nil {
		r.alarm("math.Polynomial", "type not found")
		return
	}
	ft := w.named("float", "FloatVar")
	run := func(key, method string, f Fmt, n, k int, high bool) {
		guardRun(r, key, func() {
			var out [4]*Node
			p, err := w.pipeline(f, func(p *pipe) {
				s := &SliceV{len: n, cap: n}
				for i := 0; i < n; i++ {
					c := newCell(ft)
					c.store(p.input(fmt.Sprintf("c%d", i)))
					s.arr = append(s.arr, c)
				}
				fn := w.fn("math", "(Polynomial)."+method)
				if fn == nil {
					panic(undecided("method Polynomial." + method + " not found"))
				}
				args := []Value{*s, p.ctx, p.input("x")}
				if k > 0 {
					args = append(args, int64(k))
				}
				out = p.floats(p.in.call(fn, args))[0]
			})
			if err != nil {
				r.alarm(key, "%v", err)
				return
			}
			r.touch(p.touch)
			r.count("float operations in the terms", len(p.terms))
			(&realRun{p: p, limit: 50, setup: func(e *real) {
				e.vals["x"] = e.u.V("x")
				for i := 0; i < n; i++ {
					c := fmt.Sprintf("c%d", i)
					e.vals[c] = e.u.V(c)
				}
			}, leaf: func(e *real) {
				want := e.u.zero
				x := e.u.V("x")
				for i := 0; i < n; i++ {
					j := i
					if !high {
						j = n - 1 - i
					}
					want = e.u.Add(e.u.Mul(want, x), e.u.V(fmt.Sprintf("c%d", j)))
				}
				got := e.float(out)
				r.count("polynomials compared", 1)
				if k > 1 {
					key += " = " + e.showPoly(got.n)
				}
				r.check(e.equal(got, e.poly(want)), key, "%s with %d coefficients computes %s instead of %s", method, n, e.showPoly(got.n), e.showPoly(want))
			}}).run()
		})
	}
	for _, f := range fmts {
		for n := 0; n <= 32; n++ {
			run(fmt.Sprintf("Eval %v, %d coefficients", f, n), "Eval", f, n, 0, false)
			run(fmt.Sprintf("EvalK %v, %d coefficients, 1 part", f, n), "EvalK", f, n, 1, true)
		}
	}
	for k := 2; k <= 3; k++ {
		for n := 0; n <= 2; n++ {
			run(fmt.Sprintf("EvalK, %d coefficients, %d parts", n, k), "EvalK", Fmt{11, 52}, n, k, true)
		}
	}
	r.atLeast("polynomials compared", 4*33)
}

// showPoly prints a polynomial with atom names.
func (e *real) showPoly(p *Poly) string {
	if p.IsZero() {
		return "0"
	}
	var ts []string
	for i, t := range p.t {
		if i == 12 {
			ts = append(ts, "...")
			break
		}
		s := t.c.RatString()
		for _, f := range t.m.f {
			s += "*" + f.a.name
			if f.pow != 1 {
				s += fmt.Sprintf("^%d", f.pow)
			}
		}
		ts = append(ts, strings.TrimPrefix(s, "1*"))
	}
	return strings.Join(ts, " + ")
}
