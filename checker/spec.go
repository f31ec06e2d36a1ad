package main

// IEEE-754 reference semantics over the symbolic domain, per operand class.

import (
	"fmt"
	"math/big"
)

// Fmt is a float format: E exponent bits, M mantissa bits.
type Fmt struct{ E, M int64 }

func (f Fmt) Emax() int64  { return 1 << uint(f.E-1) }
func (f Fmt) Enmin() int64 { return 2 - f.Emax() }
func (f Fmt) Emin() int64  { return f.Enmin() - f.M - 1 }

var formats = []Fmt{{8, 23}, {11, 52}}

func (f Fmt) String() string { return fmt.Sprintf("f%d", f.E+f.M+1) }

// FV is a float in component form. s is nil when unspecified (NaN).
type FV struct {
	cls        string
	s, e, m, a *Poly
}

func (v FV) comps() []*Poly { return []*Poly{v.s, v.e, v.m, v.a} }

const (
	clsZero = "zero"
	clsSub  = "subnormal"
	clsNorm = "normal"
	clsInf  = "inf"
	clsNaN  = "nan"
)

var allClasses = []string{clsZero, clsSub, clsNorm, clsInf, clsNaN}

func bigPow2(k int64) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }

// operand introduces a well-formed float of the class.
func (f Fmt) operand(e *Env, name, cls string) FV {
	u := e.u
	v := FV{cls: cls}
	v.s = e.setVar(name+".s", big.NewInt(0), big.NewInt(1))
	v.a = u.zero
	p2M := bigPow2(f.M)
	top := new(big.Int).Sub(bigPow2(f.M+1), big.NewInt(1))
	switch cls {
	case clsZero:
		v.e, v.m = u.Int(f.Emin()), u.zero
	case clsNorm:
		v.e = e.setVar(name+".e", big.NewInt(f.Enmin()), big.NewInt(f.Emax()-1))
		v.m = e.setVar(name+".m", p2M, top)
	case clsSub:
		k := e.setVar(name+".k", big.NewInt(1), big.NewInt(f.M))
		v.e = u.Sub(u.Int(f.Enmin()), k)
		v.m = e.setVar(name+".m", p2M, top)
		e.div[u.Var(name+".m")] = k
	case clsIntSmall: // integral, 1 <= |x| < 2^M
		v.cls = clsNorm
		v.e = e.setVar(name+".e", big.NewInt(0), big.NewInt(f.M-1))
		v.m = e.setVar(name+".m", p2M, top)
		e.div[u.Var(name+".m")] = u.Sub(u.Int(f.M), v.e)
	case clsIntBig:
		v.cls = clsNorm
		v.e = e.setVar(name+".e", big.NewInt(f.M), big.NewInt(f.Emax()-1))
		v.m = e.setVar(name+".m", p2M, top)
	case clsInf:
		v.e, v.m, v.a = u.Int(f.Emax()), u.Const(p2M), u.one
	case clsNaN:
		v.e, v.m, v.a = u.Int(f.Emax()), u.zero, u.one
	}
	return v
}

func (f Fmt) nan(u *U) FV {
	return FV{cls: clsNaN, e: u.Int(f.Emax()), m: u.zero, a: u.one}
}
func (f Fmt) inf(u *U, s *Poly) FV {
	return FV{cls: clsInf, s: s, e: u.Int(f.Emax()), m: u.Const(bigPow2(f.M)), a: u.one}
}
func (f Fmt) zero(u *U, s *Poly) FV {
	return FV{cls: clsZero, s: s, e: u.Int(f.Emin()), m: u.zero, a: u.zero}
}

func (e *Env) xor(a, b *Poly) *Poly {
	a, b = e.S(a), e.S(b)
	u := e.u
	if a.Eq(b) {
		return u.zero
	}
	if c, ok := a.IsConst(); ok {
		if c.Sign() == 0 {
			return b
		}
		return u.Sub(u.one, b)
	}
	if c, ok := b.IsConst(); ok {
		if c.Sign() == 0 {
			return a
		}
		return u.Sub(u.one, a)
	}
	x, y := e.bit(a), e.bit(b)
	if x != y {
		return u.one
	}
	return u.zero
}

// bit decides a boolean.
func (e *Env) bit(p *Poly) bool { return !e.Zero(p) }

// RNE rounds a non-negative rational to the nearest integer, ties to even.
func (e *Env) RNE(X *Poly) *Poly {
	u := e.u
	F := e.Floor(X)
	X2 := u.ScaleInt(X, 2)
	H := u.Sub(e.Floor(X2), u.ScaleInt(F, 2))
	if e.Zero(H) {
		return e.S(F)
	}
	X2 = e.S(X2)
	if !e.Zero(u.Sub(X2, e.Floor(X2))) {
		return u.Add(e.S(F), u.one)
	}
	F = e.S(F)
	par := u.Sub(F, u.ScaleInt(e.Floor(u.Scale(F, big.NewRat(1, 2))), 2))
	if e.Zero(par) {
		return e.S(F)
	}
	return u.Add(e.S(F), u.one)
}

// pack rounds sign s, magnitude X0*2^(ex-M) with X0 in [2^M, 2^(M+1)) to a float.
func (f Fmt) pack(e *Env, s, X0, ex *Poly) FV {
	u := e.u
	enmin := u.Int(f.Enmin())
	k := u.zero
	if !e.GE(u.Sub(ex, enmin)) {
		k = u.Sub(enmin, e.S(ex))
		// far below half the smallest subnormal
		if e.GE(u.Sub(k, u.Int(f.M+2))) {
			return f.zero(u, s)
		}
	}
	k = e.S(k)
	F := e.RNE(u.Mul(e.S(X0), u.Pow2(u.Neg(k))))
	if !k.IsZero() {
		F = e.S(F)
		if e.Zero(F) {
			return f.zero(u, s)
		}
	}
	m := u.Mul(e.S(F), u.Pow2(e.S(k)))
	ex = e.S(ex)
	m = e.S(m)
	if e.Zero(u.Sub(m, u.Const(bigPow2(f.M+1)))) {
		m = u.Const(bigPow2(f.M))
		ex = u.Add(e.S(ex), u.one)
	}
	if e.GE(u.Sub(ex, u.Int(f.Emax()))) {
		return f.inf(u, s)
	}
	return FV{cls: "finite", s: s, e: e.S(ex), m: e.S(m), a: u.zero}
}

func finite(c string) bool { return c == clsZero || c == clsSub || c == clsNorm }

func (f Fmt) specMul(e *Env, x, y FV) FV {
	u := e.u
	if x.cls == clsNaN || y.cls == clsNaN {
		return f.nan(u)
	}
	s := e.xor(x.s, y.s)
	if x.cls == clsInf || y.cls == clsInf {
		if x.cls == clsZero || y.cls == clsZero {
			return f.nan(u)
		}
		return f.inf(u, s)
	}
	if x.cls == clsZero || y.cls == clsZero {
		return f.zero(u, s)
	}
	P := e.S(u.Mul(x.m, y.m))
	ex := e.S(u.Add(x.e, y.e))
	if e.GE(u.Sub(P, u.Const(bigPow2(2*f.M+1)))) {
		return f.pack(e, s, u.Scale(P, pow2Rat(-f.M-1)), u.Add(ex, u.one))
	}
	return f.pack(e, s, u.Scale(P, pow2Rat(-f.M)), ex)
}

func (f Fmt) specDiv(e *Env, x, y FV) FV {
	u := e.u
	if x.cls == clsNaN || y.cls == clsNaN {
		return f.nan(u)
	}
	s := e.xor(x.s, y.s)
	switch {
	case x.cls == clsInf && y.cls == clsInf, x.cls == clsZero && y.cls == clsZero:
		return f.nan(u)
	case x.cls == clsInf, y.cls == clsZero:
		return f.inf(u, s)
	case y.cls == clsInf, x.cls == clsZero:
		return f.zero(u, s)
	}
	xm, ym := e.S(x.m), e.S(y.m)
	inv, ok := u.Inv(ym)
	if !ok {
		panic(undecided("spec: divisor mantissa " + u.Str(ym)))
	}
	Q := u.Mul(xm, inv)
	ex := e.S(u.Sub(x.e, y.e))
	if e.GE(u.Sub(xm, ym)) {
		return f.pack(e, s, u.Scale(Q, pow2Rat(f.M)), ex)
	}
	return f.pack(e, s, u.Scale(Q, pow2Rat(f.M+1)), u.Sub(ex, u.one))
}

// specAdd: G guard bits; any G >= M+3 gives the exact result (see DESIGN.md).
func (f Fmt) specAdd(e *Env, x, y FV, sub bool, G int64) FV {
	u := e.u
	ys := y.s
	if sub && ys != nil {
		ys = u.Sub(u.one, e.S(ys))
	}
	if x.cls == clsNaN || y.cls == clsNaN {
		return f.nan(u)
	}
	if x.cls == clsInf || y.cls == clsInf {
		if x.cls == clsInf && y.cls == clsInf {
			if e.Zero(u.Sub(x.s, ys)) {
				return f.inf(u, e.S(x.s))
			}
			return f.nan(u)
		}
		if x.cls == clsInf {
			return f.inf(u, x.s)
		}
		return f.inf(u, ys)
	}
	if x.cls == clsZero && y.cls == clsZero {
		// like signs keep the sign, unlike signs give +0
		return f.zero(u, e.and(x.s, ys))
	}
	sx, sy := e.bit(x.s), e.bit(ys)
	xx, yy := e.S(x.m), e.S(y.m)
	if sx {
		xx = u.Neg(xx)
	}
	if sy {
		yy = u.Neg(yy)
	}
	d := e.S(u.Sub(x.e, y.e))
	ww, zz, el := xx, yy, x.e
	if x.cls == clsZero || (y.cls != clsZero && !e.GE(d)) {
		ww, zz, el = yy, xx, y.e
		d = u.Neg(e.S(d))
	}
	d = e.S(d)
	var S *Poly
	switch {
	case x.cls == clsZero || y.cls == clsZero:
		S = u.Scale(ww, pow2Rat(G))
	case e.GE(u.Sub(u.Int(G), d)):
		S = u.Add(u.Scale(ww, pow2Rat(G)), u.Mul(zz, u.Pow2(u.Sub(u.Int(G), e.S(d)))))
	default:
		S = u.Add(u.Scale(ww, pow2Rat(G)), zz)
	}
	S = e.S(S)
	if e.Zero(S) {
		// exact cancellation: the operands have unlike signs
		return f.zero(u, u.zero)
	}
	S = e.S(S)
	sg := u.zero
	if !e.GE(S) {
		sg = u.one
		S = u.Neg(e.S(S))
	}
	S = e.S(S)
	L := e.Lg(S)
	ex := e.S(u.Sub(u.Add(el, L), u.Int(f.M+G)))
	return f.pack(e, sg, u.Mul(S, u.Pow2(u.Sub(u.Int(f.M), L))), ex)
}

func (e *Env) and(a, b *Poly) *Poly {
	a, b = e.S(a), e.S(b)
	u := e.u
	if a.IsZero() || b.IsZero() {
		return u.zero
	}
	if a.Eq(u.one) || a.Eq(b) {
		return b
	}
	if b.Eq(u.one) {
		return a
	}
	if e.bit(a) {
		return e.S(b)
	}
	return u.zero
}

func (f Fmt) specSqrt(e *Env, x FV) FV {
	u := e.u
	switch x.cls {
	case clsNaN:
		return f.nan(u)
	case clsZero:
		return f.zero(u, x.s)
	}
	if e.bit(x.s) {
		return f.nan(u)
	}
	if x.cls == clsInf {
		return f.inf(u, u.zero)
	}
	// x = m*2^(e-M); make the exponent even
	ex := e.S(x.e)
	h := e.Floor(u.Scale(ex, big.NewRat(1, 2)))
	ex = e.S(ex)
	par := e.S(u.Sub(ex, u.ScaleInt(h, 2)))
	m := e.S(x.m)
	if !e.Zero(par) {
		m = u.ScaleInt(m, 2)
	}
	h = e.S(h)
	// sqrt(m*2^-M) in [1,2); mantissa sqrt(m*2^M) rounded: floor, half bit and exactness from isqrt(m*2^(M+2))
	m = e.S(m)
	X4 := u.Scale(m, pow2Rat(f.M+2)) // (2*sqrt(m 2^M))^2
	R := e.Isqrt(X4)                 // floor(2*sqrt(m*2^M))
	F := e.Floor(u.Scale(R, big.NewRat(1, 2)))
	R = e.S(R)
	if e.Zero(u.Sub(R, u.ScaleInt(F, 2))) {
		// fraction below one half
	} else {
		// a tie would need m*2^(M+2) to be an odd square, impossible: it is a multiple of 4
		F = u.Add(e.S(F), u.one)
	}
	F = e.S(F)
	ex = h
	if e.Zero(u.Sub(F, u.Const(bigPow2(f.M+1)))) {
		F = u.Const(bigPow2(f.M))
		ex = u.Add(e.S(ex), u.one)
	}
	return FV{cls: "finite", s: u.zero, e: e.S(ex), m: e.S(F), a: u.zero}
}

// canonical reports why a result is not in canonical form ("" if it is).
func (f Fmt) canonical(t *Task, st *St, o []*Poly) string {
	e, u := st.e, t.u
	for i, nm := range []string{0: "sign", 3: "NaN/infinity flag"} {
		if nm == "" {
			continue
		}
		p := e.S(o[i])
		b := e.bounds(p)
		if b.lo != nil && b.hi != nil && b.lo.Sign() >= 0 && b.hi.Cmp(ratOne) <= 0 && e.intValued(p) {
			continue
		}
		if t.fzero(st, p) || t.fzero(st, u.Sub(p, u.one)) {
			continue
		}
		return nm + " is not boolean: " + u.Str(p)
	}
	m, ex := e.S(o[2]), e.S(o[1])
	mz := t.fzero(st, m)
	m, ex = e.S(m), e.S(ex)
	if !t.fzero(st, o[3]) {
		if !t.fzero(st, u.Sub(ex, u.Int(f.Emax()))) {
			return "NaN or infinity with exponent " + u.Str(ex)
		}
		if !mz && !t.fzero(st, u.Sub(m, u.Const(bigPow2(f.M)))) {
			return "NaN or infinity with mantissa " + u.Str(m)
		}
		return ""
	}
	if mz {
		if !t.fzero(st, u.Sub(ex, u.Int(f.Emin()))) {
			return "zero mantissa with exponent " + u.Str(e.S(ex))
		}
		return ""
	}
	if !e.intValued(m) || !e.GE(u.Sub(m, u.Const(bigPow2(f.M)))) || !e.GE(u.Sub(u.Const(new(big.Int).Sub(bigPow2(f.M+1), big.NewInt(1))), m)) {
		return "mantissa out of range: " + u.Str(m)
	}
	ex = e.S(ex)
	if !e.intValued(ex) || !e.GE(u.Sub(u.Int(f.Emax()-1), ex)) || !e.GE(u.Sub(ex, u.Int(f.Enmin()-f.M))) {
		return "exponent out of range: " + u.Str(ex)
	}
	if !e.GE(u.Sub(ex, u.Int(f.Enmin()))) {
		ex, m = e.S(ex), e.S(m)
		q := u.Mul(m, u.Pow2(u.Sub(ex, u.Int(f.Enmin()))))
		if !e.intValued(q) {
			if !e.Zero(u.Sub(q, e.Floor(q))) {
				return "subnormal mantissa has bits below the least subnormal: " + u.Str(m)
			}
		}
	}
	return ""
}
