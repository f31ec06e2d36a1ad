package main

// Symbolic value domain: polynomials with rational coefficients over integer atoms and powers of two.
//
// A monomial is coef * prod(atom^pow) * 2^E, where E is itself a polynomial (without constant term).
// Atoms are either base integers (operand components, advice wires) or functions of polynomials
// (floor, integer square root, floor of log2).

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type AtomKind int

const (
	aVar   AtomKind = iota // a named unknown integer
	aFloor                 // floor(arg), arg a rational polynomial
	aLg                    // floor(log2(arg)), arg > 0
	aIsqrt                 // floor(sqrt(arg)), arg >= 0
)

type Atom struct {
	id   int
	kind AtomKind
	name string
	arg  *Poly
	key  string
	adv  bool // prover advice
}

// U is a universe of interned atoms. Each analysis task owns one; it is not shared between goroutines.
type U struct {
	atoms map[string]*Atom
	list  []*Atom
	one   *Poly
	zero  *Poly
}

func newU() *U {
	u := &U{atoms: map[string]*Atom{}}
	u.zero = &Poly{key: "0"}
	u.one = u.constRat(big.NewRat(1, 1))
	return u
}

func (u *U) intern(kind AtomKind, name string, arg *Poly) *Atom {
	var key string
	switch kind {
	case aVar:
		key = "v:" + name
	case aFloor:
		key = "fl(" + arg.Key() + ")"
	case aLg:
		key = "lg(" + arg.Key() + ")"
	case aIsqrt:
		key = "isqrt(" + arg.Key() + ")"
	}
	if a, ok := u.atoms[key]; ok {
		return a
	}
	a := &Atom{id: len(u.list), kind: kind, name: name, arg: arg, key: key}
	u.atoms[key] = a
	u.list = append(u.list, a)
	return a
}

func (u *U) Var(name string) *Atom { return u.intern(aVar, name, nil) }

type fac struct {
	a   *Atom
	pow int
}

type Mono struct {
	f   []fac
	p2  *Poly // exponent of two, no constant term; nil if 0
	key string
}

type Term struct {
	m *Mono
	c *big.Rat
}

type Poly struct {
	t   []Term // sorted by mono key
	key string
}

var monoOne = &Mono{key: ""}

func mkMono(f []fac, p2 *Poly) *Mono {
	if p2 != nil && len(p2.t) == 0 {
		p2 = nil
	}
	if len(f) == 0 && p2 == nil {
		return monoOne
	}
	var b strings.Builder
	for i, x := range f {
		if i > 0 {
			b.WriteByte('.')
		}
		fmt.Fprintf(&b, "%d", x.a.id)
		if x.pow != 1 {
			fmt.Fprintf(&b, "^%d", x.pow)
		}
	}
	if p2 != nil {
		b.WriteString("|2^[")
		b.WriteString(p2.Key())
		b.WriteString("]")
	}
	return &Mono{f: f, p2: p2, key: b.String()}
}

func (p *Poly) Key() string {
	if p.key != "" {
		return p.key
	}
	var b strings.Builder
	for i, t := range p.t {
		if i > 0 {
			b.WriteByte('+')
		}
		b.WriteString(t.c.RatString())
		b.WriteByte('*')
		b.WriteString(t.m.key)
	}
	p.key = b.String()
	if p.key == "" {
		p.key = "0"
	}
	return p.key
}

func (u *U) constRat(r *big.Rat) *Poly {
	if r.Sign() == 0 {
		return u.zero
	}
	return &Poly{t: []Term{{monoOne, r}}}
}
func (u *U) Const(i *big.Int) *Poly { return u.constRat(new(big.Rat).SetInt(i)) }
func (u *U) Int(i int64) *Poly      { return u.constRat(big.NewRat(i, 1)) }
func (u *U) Atom(a *Atom) *Poly {
	return &Poly{t: []Term{{mkMono([]fac{{a, 1}}, nil), big.NewRat(1, 1)}}}
}
func (u *U) V(name string) *Poly { return u.Atom(u.Var(name)) }

func pow2Rat(k int64) *big.Rat {
	if k >= 0 {
		return new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(k)))
	}
	return new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), uint(-k)))
}

func (u *U) Pow2Int(k int64) *Poly { return u.constRat(pow2Rat(k)) }

func (u *U) fromMap(m map[string]Term) *Poly {
	ks := make([]string, 0, len(m))
	for k, t := range m {
		if t.c.Sign() != 0 {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return u.zero
	}
	sort.Strings(ks)
	p := &Poly{t: make([]Term, len(ks))}
	for i, k := range ks {
		p.t[i] = m[k]
	}
	return p
}

func (u *U) Add(a, b *Poly) *Poly { return u.lin(a, ratOne, b) }
func (u *U) Sub(a, b *Poly) *Poly { return u.lin(a, ratMinusOne, b) }

var ratOne = big.NewRat(1, 1)
var ratMinusOne = big.NewRat(-1, 1)

// lin returns a + c*b.
func (u *U) lin(a *Poly, c *big.Rat, b *Poly) *Poly {
	if len(b.t) == 0 || c.Sign() == 0 {
		return a
	}
	out := make([]Term, 0, len(a.t)+len(b.t))
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || (i < len(a.t) && a.t[i].m.key < b.t[j].m.key):
			out = append(out, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].m.key < a.t[i].m.key:
			out = append(out, Term{b.t[j].m, new(big.Rat).Mul(c, b.t[j].c)})
			j++
		default:
			s := new(big.Rat).Mul(c, b.t[j].c)
			s.Add(s, a.t[i].c)
			if s.Sign() != 0 {
				out = append(out, Term{a.t[i].m, s})
			}
			i++
			j++
		}
	}
	if len(out) == 0 {
		return u.zero
	}
	return &Poly{t: out}
}

func (u *U) Scale(a *Poly, c *big.Rat) *Poly {
	if c.Sign() == 0 {
		return u.zero
	}
	p := &Poly{t: make([]Term, len(a.t))}
	for i, t := range a.t {
		p.t[i] = Term{t.m, new(big.Rat).Mul(t.c, c)}
	}
	if len(p.t) == 0 {
		return u.zero
	}
	return p
}
func (u *U) ScaleInt(a *Poly, c int64) *Poly { return u.Scale(a, big.NewRat(c, 1)) }
func (u *U) Neg(a *Poly) *Poly               { return u.Scale(a, ratMinusOne) }

func (u *U) mulMono(a, b *Mono) *Mono {
	if a == monoOne {
		return b
	}
	if b == monoOne {
		return a
	}
	f := make([]fac, 0, len(a.f)+len(b.f))
	i, j := 0, 0
	for i < len(a.f) || j < len(b.f) {
		switch {
		case j >= len(b.f) || (i < len(a.f) && a.f[i].a.id < b.f[j].a.id):
			f = append(f, a.f[i])
			i++
		case i >= len(a.f) || b.f[j].a.id < a.f[i].a.id:
			f = append(f, b.f[j])
			j++
		default:
			if s := a.f[i].pow + b.f[j].pow; s != 0 {
				f = append(f, fac{a.f[i].a, s})
			}
			i++
			j++
		}
	}
	var p2 *Poly
	switch {
	case a.p2 == nil:
		p2 = b.p2
	case b.p2 == nil:
		p2 = a.p2
	default:
		p2 = u.Add(a.p2, b.p2)
	}
	return mkMono(f, p2)
}

func (u *U) Mul(a, b *Poly) *Poly {
	if len(a.t) == 0 || len(b.t) == 0 {
		return u.zero
	}
	if c, ok := a.IsConst(); ok {
		return u.Scale(b, c)
	}
	if c, ok := b.IsConst(); ok {
		return u.Scale(a, c)
	}
	m := map[string]Term{}
	for _, x := range a.t {
		for _, y := range b.t {
			mm := u.mulMono(x.m, y.m)
			c := new(big.Rat).Mul(x.c, y.c)
			if t, ok := m[mm.key]; ok {
				c.Add(c, t.c)
			}
			m[mm.key] = Term{mm, c}
		}
	}
	return u.fromMap(m)
}

func (u *U) MulTermMono(p *Poly, mm *Mono) *Poly {
	if mm == monoOne {
		return p
	}
	m := map[string]Term{}
	for _, x := range p.t {
		k := u.mulMono(x.m, mm)
		m[k.key] = Term{k, x.c}
	}
	return u.fromMap(m)
}

func (p *Poly) IsConst() (*big.Rat, bool) {
	if len(p.t) == 0 {
		return new(big.Rat), true
	}
	if len(p.t) == 1 && p.t[0].m == monoOne {
		return p.t[0].c, true
	}
	return nil, false
}

func (p *Poly) IsZero() bool { return len(p.t) == 0 }

func (p *Poly) ConstInt() (*big.Int, bool) {
	c, ok := p.IsConst()
	if !ok || !c.IsInt() {
		return nil, false
	}
	return c.Num(), true
}

func (p *Poly) Int64() (int64, bool) {
	c, ok := p.ConstInt()
	if !ok || !c.IsInt64() {
		return 0, false
	}
	return c.Int64(), true
}

func (p *Poly) constPart() *big.Rat {
	for _, t := range p.t {
		if t.m == monoOne {
			return t.c
		}
	}
	return new(big.Rat)
}

func (a *Poly) Eq(b *Poly) bool { return a == b || a.Key() == b.Key() }

// Pow2 returns 2^e for an integer-valued polynomial exponent.
func (u *U) Pow2(e *Poly) *Poly {
	c := e.constPart()
	if !c.IsInt() {
		panic(undecided("power of two with fractional exponent " + u.Str(e)))
	}
	if !c.Num().IsInt64() || c.Num().Int64() > 100000 || c.Num().Int64() < -100000 {
		panic(undecided("power of two with huge exponent " + u.Str(e)))
	}
	rest := u.Sub(e, u.constRat(c))
	k := pow2Rat(c.Num().Int64())
	if rest.IsZero() {
		return u.constRat(k)
	}
	return &Poly{t: []Term{{mkMono(nil, rest), k}}}
}

// Inv returns 1/p for a single-term polynomial.
func (u *U) Inv(p *Poly) (*Poly, bool) {
	if len(p.t) != 1 {
		return nil, false
	}
	t := p.t[0]
	f := make([]fac, len(t.m.f))
	for i, x := range t.m.f {
		f[i] = fac{x.a, -x.pow}
	}
	var p2 *Poly
	if t.m.p2 != nil {
		p2 = u.Neg(t.m.p2)
	}
	return &Poly{t: []Term{{mkMono(f, p2), new(big.Rat).Inv(t.c)}}}, true
}

// hasAtom reports whether atom a occurs anywhere in p, including inside exponents and atom arguments.
func (p *Poly) hasAtom(pred func(*Atom) bool) bool {
	for _, t := range p.t {
		for _, f := range t.m.f {
			if pred(f.a) {
				return true
			}
			if f.a.arg != nil && f.a.arg.hasAtom(pred) {
				return true
			}
		}
		if t.m.p2 != nil && t.m.p2.hasAtom(pred) {
			return true
		}
	}
	return false
}

func (p *Poly) atoms(m map[*Atom]bool) {
	for _, t := range p.t {
		for _, f := range t.m.f {
			if !m[f.a] {
				m[f.a] = true
				if f.a.arg != nil {
					f.a.arg.atoms(m)
				}
			}
		}
		if t.m.p2 != nil {
			t.m.p2.atoms(m)
		}
	}
}

// commonFactor returns the greatest common monomial of p (atom powers; exponent of two of the first term if p
// shares none) such that dividing by it leaves no negative atom powers.
func (u *U) commonFactor(p *Poly) *Mono {
	if len(p.t) == 0 {
		return monoOne
	}
	minPow := map[*Atom]int{}
	for i, t := range p.t {
		seen := map[*Atom]bool{}
		for _, f := range t.m.f {
			seen[f.a] = true
			if i == 0 {
				minPow[f.a] = f.pow
			} else if v, ok := minPow[f.a]; ok {
				if f.pow < v {
					minPow[f.a] = f.pow
				}
			} else if f.pow < 0 {
				minPow[f.a] = f.pow
			}
		}
		for a, v := range minPow {
			if !seen[a] && v > 0 {
				minPow[a] = 0
			}
		}
	}
	var f []fac
	for a, v := range minPow {
		if v != 0 {
			f = append(f, fac{a, v})
		}
	}
	sort.Slice(f, func(i, j int) bool { return f[i].a.id < f[j].a.id })
	// exponent of two: the one of the first term in key order, as a canonical choice
	return mkMono(f, p.t[0].m.p2)
}

func invMono(u *U, m *Mono) *Mono {
	f := make([]fac, len(m.f))
	for i, x := range m.f {
		f[i] = fac{x.a, -x.pow}
	}
	var p2 *Poly
	if m.p2 != nil {
		p2 = u.Neg(m.p2)
	}
	return mkMono(f, p2)
}

// Str renders a polynomial for reports.
func (u *U) Str(p *Poly) string {
	if len(p.t) == 0 {
		return "0"
	}
	var b strings.Builder
	for i, t := range p.t {
		c := t.c
		neg := c.Sign() < 0
		ac := new(big.Rat).Abs(c)
		if i == 0 {
			if neg {
				b.WriteString("-")
			}
		} else if neg {
			b.WriteString(" - ")
		} else {
			b.WriteString(" + ")
		}
		s := ratStr(ac)
		var parts []string
		if s != "1" || t.m == monoOne {
			parts = append(parts, s)
		}
		for _, f := range t.m.f {
			n := u.atomStr(f.a)
			if f.pow != 1 {
				n = fmt.Sprintf("%s^%d", n, f.pow)
			}
			parts = append(parts, n)
		}
		if t.m.p2 != nil {
			parts = append(parts, "2^("+u.Str(t.m.p2)+")")
		}
		b.WriteString(strings.Join(parts, "*"))
	}
	return b.String()
}

func ratStr(r *big.Rat) string {
	if r.IsInt() {
		n := r.Num()
		if n.BitLen() > 16 {
			tz := n.TrailingZeroBits()
			if uint(n.BitLen()) == tz+1 {
				return fmt.Sprintf("2^%d", tz)
			}
			m1 := new(big.Int).Add(n, big.NewInt(1))
			if tz := m1.TrailingZeroBits(); uint(m1.BitLen()) == tz+1 {
				return fmt.Sprintf("(2^%d-1)", tz)
			}
			if tz > 8 {
				return fmt.Sprintf("%s*2^%d", new(big.Int).Rsh(n, tz).String(), tz)
			}
		}
		return n.String()
	}
	d := r.Denom()
	if tz := d.TrailingZeroBits(); uint(d.BitLen()) == tz+1 {
		if r.Num().Cmp(big.NewInt(1)) == 0 {
			return fmt.Sprintf("2^-%d", tz)
		}
		return fmt.Sprintf("%s*2^-%d", r.Num().String(), tz)
	}
	return r.RatString()
}

func (u *U) atomStr(a *Atom) string {
	switch a.kind {
	case aVar:
		return a.name
	case aFloor:
		return "floor(" + u.Str(a.arg) + ")"
	case aLg:
		return "lg(" + u.Str(a.arg) + ")"
	case aIsqrt:
		return "isqrt(" + u.Str(a.arg) + ")"
	}
	return "?"
}

type undecidedErr struct{ msg string }

func (e undecidedErr) Error() string { return e.msg }
func undecided(msg string) error     { return undecidedErr{msg} }

func floorRat(r *big.Rat) *big.Int {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(r.Num(), r.Denom(), m) // denominator positive: Euclidean = floor
	return q
}
func ceilRat(r *big.Rat) *big.Int {
	n := new(big.Rat).Neg(r)
	f := floorRat(n)
	return f.Neg(f)
}

// lgRat returns floor(log2(r)) for r>0.
func lgRat(r *big.Rat) int64 {
	k := int64(r.Num().BitLen()) - int64(r.Denom().BitLen())
	// 2^(k-1) < r < 2^(k+1)
	if pow2Rat(k).Cmp(r) <= 0 {
		return k
	}
	return k - 1
}
