package main

// Abstract state: intervals for atoms, linear facts, equalities. Comparisons the state cannot decide are
// reported as *blocked; the driver partitions the state on them.

import (
	"fmt"
	"math/big"
)

type Ival struct{ lo, hi *big.Rat } // nil = unbounded

type Fact struct { // p >= 0 (p > 0 if strict)
	p      *Poly
	strict bool
}

func (f Fact) key() string {
	if f.strict {
		return f.p.Key() + ">"
	}
	return f.p.Key()
}

type Cond struct {
	zero bool // p == 0, else p >= 0
	p    *Poly
}

func (c Cond) String(u *U) string {
	if c.zero {
		return u.Str(c.p) + " = 0"
	}
	return u.Str(c.p) + " >= 0"
}

type blocked struct {
	cond Cond
	ord  int
}

type infeasible struct{}

type Env struct {
	u      *U
	iv     map[*Atom]Ival
	sub    map[*Atom]*Poly
	facts  []Fact
	fkeys  map[string]bool
	nonz   map[string]*Poly
	zeros  map[string]bool
	ints   []*Poly
	undet  map[*Atom]bool
	div    map[*Atom]*Poly // the atom is a multiple of 2^div
	known  map[*Atom]bool  // function atoms whose facts are recorded
	dead   bool
	ver    int
	trace  []string
	iscale int // memo
	bmemo  map[string]Ival
	bver   int
	near   bool // relate a floor to its nearest multiples only
}

func newEnv(u *U) *Env {
	return &Env{u: u, iv: map[*Atom]Ival{}, sub: map[*Atom]*Poly{}, fkeys: map[string]bool{}, nonz: map[string]*Poly{},
		zeros: map[string]bool{}, undet: map[*Atom]bool{}, div: map[*Atom]*Poly{}, known: map[*Atom]bool{}, bmemo: map[string]Ival{}}
}

func (e *Env) clone() *Env {
	n := newEnv(e.u)
	for k, v := range e.iv {
		n.iv[k] = v
	}
	for k, v := range e.sub {
		n.sub[k] = v
	}
	n.facts = append([]Fact(nil), e.facts...)
	for k := range e.fkeys {
		n.fkeys[k] = true
	}
	for k, v := range e.nonz {
		n.nonz[k] = v
	}
	for k := range e.zeros {
		n.zeros[k] = true
	}
	for k, v := range e.div {
		n.div[k] = v
	}
	n.ints = append([]*Poly(nil), e.ints...)
	for k := range e.undet {
		n.undet[k] = true
	}
	for k := range e.known {
		n.known[k] = true
	}
	n.dead = e.dead
	n.trace = append([]string(nil), e.trace...)
	return n
}

func (e *Env) note(f string, a ...any) { e.trace = append(e.trace, fmt.Sprintf(f, a...)) }

func (e *Env) setVar(name string, lo, hi *big.Int) *Poly {
	a := e.u.Var(name)
	var l, h *big.Rat
	if lo != nil {
		l = new(big.Rat).SetInt(lo)
	}
	if hi != nil {
		h = new(big.Rat).SetInt(hi)
	}
	e.iv[a] = Ival{l, h}
	e.touch()
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		e.subst(a, e.u.Const(lo))
	}
	return e.S(e.u.Atom(a))
}

func (e *Env) touch() { e.ver++ }

func (e *Env) fail() { e.dead = true; panic(infeasible{}) }

// ---------- substitution ----------

func (e *Env) S(p *Poly) *Poly {
	for i := 0; i < 50; i++ {
		if len(e.sub) == 0 {
			return p
		}
		if !p.hasAtom(func(a *Atom) bool { _, ok := e.sub[a]; return ok }) {
			return p
		}
		p = e.s1(p)
	}
	panic(undecided("substitution does not terminate"))
}

func (e *Env) s1(p *Poly) *Poly {
	out := e.u.zero
	for _, t := range p.t {
		q := e.u.constRat(t.c)
		for _, f := range t.m.f {
			v := e.substAtom(f.a)
			if f.pow < 0 {
				inv, ok := e.u.Inv(v)
				if !ok {
					panic(undecided("inverse of " + e.u.Str(v)))
				}
				v = inv
				for i := 0; i < -f.pow; i++ {
					q = e.u.Mul(q, v)
				}
				continue
			}
			for i := 0; i < f.pow; i++ {
				q = e.u.Mul(q, v)
			}
		}
		if t.m.p2 != nil {
			q = e.u.Mul(q, e.u.Pow2(e.S(t.m.p2)))
		}
		out = e.u.Add(out, q)
	}
	return out
}

func (e *Env) substAtom(a *Atom) *Poly {
	if p, ok := e.sub[a]; ok {
		return p
	}
	return e.fnValue(a)
}

// fnValue evaluates a function atom on what its argument has become.
func (e *Env) fnValue(a *Atom) *Poly {
	if a.arg != nil {
		na := e.S(a.arg)
		if na != a.arg && !na.Eq(a.arg) {
			switch a.kind {
			case aFloor:
				return e.Floor(na)
			case aLg:
				return e.Lg(na)
			case aIsqrt:
				return e.Isqrt(na)
			}
		}
	}
	return e.u.Atom(a)
}

// subst records a := p and rewrites the state; a is an integer, hence so is p.
func (e *Env) subst(a *Atom, p *Poly) { e.subst0(a, p, true) }

func (e *Env) subst0(a *Atom, p *Poly, isInt bool) {
	if p.hasAtom(func(x *Atom) bool { return x == a }) {
		panic(undecided("cyclic definition of " + e.u.atomStr(a)))
	}
	iv, had := e.iv[a]
	if d := e.divStep(a); d != nil && d.Cmp(big.NewInt(1)) > 0 { // a multiple of 2^k stays one
		if q := e.u.Scale(p, new(big.Rat).SetFrac(big.NewInt(1), d)); !e.intValued(q) {
			e.ints = append(e.ints, q)
		}
	}
	e.sub[a] = p
	delete(e.undet, a)
	delete(e.iv, a)
	e.touch()
	var freed []*Atom
	var freedTo []*Poly
	for k, v := range e.sub {
		if k != a {
			v = e.S(v)
			if _, ok := e.sub[k]; ok {
				e.sub[k] = v
			} else { // released while evaluating its own definition
				freed, freedTo = append(freed, k), append(freedTo, v)
			}
		}
	}
	defer func() {
		for i, k := range freed {
			if d := e.S(e.u.Sub(e.u.Atom(k), freedTo[i])); !e.dead && !d.IsZero() {
				e.addEq(d)
			}
		}
	}()
	for i, p := range e.ints {
		e.ints[i] = e.S(p)
	}
	if isInt && !e.intValued(p) {
		e.ints = append(e.ints, p)
		defer e.refloor()
	} else if a.kind == aFloor {
		defer e.refloor()
	}
	isA := func(x *Atom) bool { return x == a }
	var keep, plain, rest []Fact
	for _, f := range e.facts {
		switch {
		case !f.p.hasAtom(isA):
			keep = append(keep, f)
		case !f.p.hasAtom(func(x *Atom) bool { return x.arg != nil && x.arg.hasAtom(isA) }):
			plain = append(plain, f)
		default: // may need the other facts to be evaluated
			rest = append(rest, f)
		}
	}
	e.facts = keep
	e.fkeys = map[string]bool{}
	for _, f := range keep {
		e.fkeys[f.key()] = true
	}
	for _, f := range append(plain, rest...) {
		e.addFact(e.S(f.p), f.strict)
	}
	if len(e.ints) > 0 {
		for _, f := range append([]Fact(nil), e.facts...) {
			if q, s := e.tightenInt(f.p, f.strict); !q.Eq(f.p) || s != f.strict {
				e.addFact(q, s)
			}
		}
	}
	// zero / nonzero memory is keyed by normal form; recompute lazily by dropping entries is unsound for precision
	// only, never for correctness, so keep keys (they stay true) and add nothing.
	if had {
		if iv.lo != nil {
			e.addFact(e.u.Sub(p, e.u.constRat(iv.lo)), false)
		}
		if iv.hi != nil {
			e.addFact(e.u.Sub(e.u.constRat(iv.hi), p), false)
		}
	}
	for _, b := range e.u.list { // function atoms whose argument changed: keep what is known about them
		if b.arg == nil || !e.known[b] || !b.arg.hasAtom(isA) {
			continue
		}
		if w := e.sub[b]; w != nil { // what replaced it equals the function of the new argument
			if b != a {
				if v := e.fnValue(b); !v.hasAtom(func(x *Atom) bool { return x == b }) {
					e.addEq(e.u.Sub(v, w))
				}
			}
			continue
		}
		if v := e.substAtom(b); !v.Eq(e.u.Atom(b)) && e.sub[b] == nil {
			e.subst0(b, v, true)
		}
	}
	for _, d := range e.div {
		if d.hasAtom(isA) {
			e.redivide()
			break
		}
	}
	e.checkInts()
	e.recheckNonz()
}

func (e *Env) recheckNonz() {
	for _, p := range e.nonz {
		q := e.S(p)
		if q == p || q.Eq(p) {
			continue
		}
		if b := e.direct(q); b.lo != nil && b.hi != nil && b.lo.Sign() == 0 && b.hi.Sign() == 0 {
			e.fail()
		}
		if q.IsZero() {
			e.fail()
		}
		n := e.zeroNorm(q)
		if c, ok := n.IsConst(); ok && c.Sign() != 0 {
			continue
		}
		e.nonz[n.Key()] = n
		if b := e.bounds(n); b.lo != nil && b.lo.Sign() == 0 {
			e.addFact(n, true)
		} else if b.hi != nil && b.hi.Sign() == 0 {
			e.addFact(e.u.Neg(n), true)
		}
	}
}

// ---------- facts ----------

func (e *Env) addFact(p *Poly, strict bool) {
	p = e.S(p)
	if strict && e.intValued(p) {
		p = e.u.Sub(p, e.u.one)
		strict = false
	}
	if c, ok := p.IsConst(); ok {
		if c.Sign() < 0 || (strict && c.Sign() == 0) {
			e.fail()
		}
		return
	}
	if !strict && len(e.nonz) > 0 && e.nonz[e.zeroNorm(p).Key()] != nil {
		e.addFact(p, true)
		return
	}
	p, strict = e.tightenInt(p, strict)
	if !strict && len(e.nonz) > 0 && e.nonz[e.zeroNorm(p).Key()] != nil {
		e.addFact(p, true)
		return
	}
	// single-atom fact: tighten interval
	if a, c, k, ok := linearAtom(p); ok {
		// c*a + k >= 0
		b := new(big.Rat).Quo(new(big.Rat).Neg(k), c)
		if c.Sign() > 0 {
			lo := new(big.Rat).SetInt(ceilRat(b))
			if strict && lo.Cmp(b) == 0 {
				lo.Add(lo, ratOne)
			}
			e.tighten(a, lo, nil)
		} else {
			hi := new(big.Rat).SetInt(floorRat(b))
			if strict && hi.Cmp(b) == 0 {
				hi.Sub(hi, ratOne)
			}
			e.tighten(a, nil, hi)
		}
		return
	}
	b := e.direct(p)
	if b.hi != nil && (b.hi.Sign() < 0 || (strict && b.hi.Sign() == 0)) {
		e.fail()
	}
	if b.lo != nil && (b.lo.Sign() > 0 || (!strict && b.lo.Sign() == 0)) {
		return
	}
	k := p.Key()
	if strict {
		k += ">"
	}
	if e.fkeys[k] {
		return
	}
	if !strict {
		if n := e.u.Neg(p); e.fkeys[n.Key()] {
			e.fkeys[k] = true
			e.facts = append(e.facts, Fact{p, strict})
			e.addEq(p)
			return
		}
	}
	e.fkeys[k] = true
	e.facts = append(e.facts, Fact{p, strict})
	e.touch()
	e.propagate(Fact{p, strict})
	for _, t := range p.t {
		for _, f := range t.m.f {
			if f.pow < 0 {
				e.addScaled(p, strict)
				return
			}
		}
	}
}

// tightenInt rounds the constant of an inequality whose variable part is an integer multiple.
func (e *Env) tightenInt(p *Poly, strict bool) (*Poly, bool) {
	round := func(q *Poly, c, k *big.Rat) (*Poly, bool) { // p = c*q + k, q integer
		ac := new(big.Rat).Abs(c)
		r := new(big.Rat).Quo(k, ac)
		fl := new(big.Rat).SetInt(floorRat(r))
		if strict && r.IsInt() {
			fl.Sub(fl, ratOne)
		}
		s := ratOne
		if c.Sign() < 0 {
			s = ratMinusOne
		}
		return e.u.Add(e.u.Scale(q, s), e.u.constRat(fl)), false
	}
	k := p.constPart()
	v := e.u.Sub(p, e.u.constRat(k))
	for _, q := range e.ints {
		qk := q.constPart()
		qv := e.u.Sub(q, e.u.constRat(qk))
		for _, qt := range qv.t {
			for _, t := range v.t {
				if t.m.key != qt.m.key {
					continue
				}
				c := new(big.Rat).Quo(t.c, qt.c)
				w := e.u.Scale(v, new(big.Rat).Inv(c))
				if e.allTermsInt(e.u.Sub(w, qv)) { // w + qk is an integer
					return round(e.u.Add(w, e.u.constRat(qk)), c, new(big.Rat).Sub(k, new(big.Rat).Mul(c, qk)))
				}
			}
		}
	}
	// content of the integer terms
	g := new(big.Rat)
	for _, t := range v.t {
		a := new(big.Rat).Abs(t.c)
		for _, f := range t.m.f {
			if s := e.divStep(f.a); s != nil && f.pow > 0 && t.m.p2 == nil {
				for i := 0; i < f.pow; i++ {
					a = new(big.Rat).Mul(a, new(big.Rat).SetInt(s))
				}
			}
		}
		if g.Sign() == 0 {
			g = a
		} else {
			g = ratGCD(g, a)
		}
	}
	if g.Sign() == 0 {
		return p, strict
	}
	q := e.u.Scale(v, new(big.Rat).Inv(g))
	if e.allTermsInt(q) {
		return round(q, g, k)
	}
	return p, strict
}

func ratGCD(a, b *big.Rat) *big.Rat {
	// gcd(n1/d1, n2/d2) = gcd(n1 d2, n2 d1)/(d1 d2)
	x := new(big.Int).Mul(a.Num(), b.Denom())
	y := new(big.Int).Mul(b.Num(), a.Denom())
	return new(big.Rat).SetFrac(new(big.Int).GCD(nil, nil, x, y), new(big.Int).Mul(a.Denom(), b.Denom()))
}

// propagate tightens atom intervals through one linear fact.
func (e *Env) propagate(f Fact) {
	for _, t := range f.p.t {
		if len(t.m.f) != 1 || t.m.f[0].pow != 1 || t.m.p2 != nil {
			continue
		}
		a := t.m.f[0].a
		if cnt := countAtom(f.p, a); cnt != 1 {
			continue
		}
		rest := e.u.Sub(f.p, &Poly{t: []Term{t}})
		rb := e.direct(rest)
		if rb.hi == nil {
			continue
		}
		// c*a >= -rest.hi
		b := new(big.Rat).Quo(new(big.Rat).Neg(rb.hi), t.c)
		if t.c.Sign() > 0 {
			e.tighten(a, new(big.Rat).SetInt(ceilRat(b)), nil)
		} else {
			e.tighten(a, nil, new(big.Rat).SetInt(floorRat(b)))
		}
		if _, gone := e.sub[a]; gone {
			return
		}
	}
}

func countAtom(p *Poly, a *Atom) int {
	n := 0
	for _, t := range p.t {
		for _, f := range t.m.f {
			if f.a == a || (f.a.arg != nil && f.a.arg.hasAtom(func(x *Atom) bool { return x == a })) {
				n++
			}
		}
		if t.m.p2 != nil && t.m.p2.hasAtom(func(x *Atom) bool { return x == a }) {
			n++
		}
	}
	return n
}

// linearAtom recognises c*a + k.
func linearAtom(p *Poly) (*Atom, *big.Rat, *big.Rat, bool) {
	var a *Atom
	var c *big.Rat
	k := new(big.Rat)
	for _, t := range p.t {
		if t.m == monoOne {
			k = t.c
			continue
		}
		if a != nil || t.m.p2 != nil || len(t.m.f) != 1 || t.m.f[0].pow != 1 {
			return nil, nil, nil, false
		}
		a, c = t.m.f[0].a, t.c
	}
	return a, c, k, a != nil
}

func (e *Env) tighten(a *Atom, lo, hi *big.Rat) {
	iv := e.iv[a]
	ch := false
	if s := e.divStep(a); s != nil {
		if lo != nil {
			r := new(big.Rat).Quo(lo, new(big.Rat).SetInt(s))
			lo = new(big.Rat).SetInt(new(big.Int).Mul(ceilRat(r), s))
		}
		if hi != nil {
			r := new(big.Rat).Quo(hi, new(big.Rat).SetInt(s))
			hi = new(big.Rat).SetInt(new(big.Int).Mul(floorRat(r), s))
		}
	}
	if lo != nil && (iv.lo == nil || lo.Cmp(iv.lo) > 0) {
		iv.lo = lo
		ch = true
	}
	if hi != nil && (iv.hi == nil || hi.Cmp(iv.hi) < 0) {
		iv.hi = hi
		ch = true
	}
	if !ch {
		return
	}
	if iv.lo != nil && iv.hi != nil {
		c := iv.lo.Cmp(iv.hi)
		if c > 0 {
			e.fail()
		}
		if c == 0 {
			e.iv[a] = iv
			e.subst(a, e.u.constRat(iv.lo))
			return
		}
	}
	e.iv[a] = iv
	e.touch()
	if e.nonz[e.u.Atom(a).Key()] != nil {
		if iv.lo != nil && iv.lo.Sign() == 0 {
			e.tighten(a, ratOne, nil)
		} else if iv.hi != nil && iv.hi.Sign() == 0 {
			e.tighten(a, nil, ratMinusOne)
		}
	}
}

// addEq records p = 0.
func (e *Env) addEq(p *Poly) {
	p = e.zeroNorm(e.S(p))
	if p.IsZero() {
		return
	}
	if c, ok := p.IsConst(); ok && c.Sign() != 0 {
		e.fail()
	}
	b := e.bounds(p)
	if (b.lo != nil && b.lo.Sign() > 0) || (b.hi != nil && b.hi.Sign() < 0) {
		e.fail()
	}
	if e.nonz[p.Key()] != nil {
		e.fail()
	}
	// solve for an atom occurring once, linearly, with a nonzero coefficient: advice first, then derived atoms, then
	// operand components.
	var best *Atom
	var bt Term
	bs := -1
	for _, t := range p.t {
		for _, f := range t.m.f {
			if f.pow != 1 || (t.m.p2 != nil && t.m.p2.hasAtom(func(x *Atom) bool { return x == f.a })) {
				continue
			}
			a := f.a
			plain := len(t.m.f) == 1 && t.m.p2 == nil
			ok := true
			for _, g := range t.m.f {
				if g.a != a && !e.nonzeroAtom(g.a) {
					ok = false
				}
			}
			if !ok || countAtom(e.u.Sub(p, &Poly{t: []Term{t}}), a) != 0 {
				continue
			}
			if !plain && a.kind == aVar && !a.adv {
				// keep operand components unless the definition is polynomial
				if len(t.m.f) != 1 {
					continue
				}
			}
			sc := a.id
			if e.undet[a] || a.adv {
				sc += 1 << 26
			} else if a.kind != aVar {
				sc += 1 << 24
			}
			if plain {
				sc += 1 << 22
				if t.c.Cmp(ratOne) == 0 || t.c.Cmp(ratMinusOne) == 0 {
					sc += 1 << 21
				}
			}
			if sc > bs {
				bs, best, bt = sc, a, t
			}
		}
	}
	e.zeros[p.Key()] = true
	e.squareDiv(p)
	if best != nil {
		rest := e.u.Sub(p, &Poly{t: []Term{bt}})
		var nf []fac
		for _, f := range bt.m.f {
			if f.a != best {
				nf = append(nf, fac{f.a, -f.pow})
			}
		}
		var p2 *Poly
		if bt.m.p2 != nil {
			p2 = e.u.Neg(bt.m.p2)
		}
		rest = e.u.MulTermMono(rest, mkMono(nf, p2))
		e.subst(best, e.u.Scale(rest, new(big.Rat).Neg(new(big.Rat).Inv(bt.c))))
		return
	}
	for _, q := range []*Poly{p, e.u.Neg(p)} {
		if !e.fkeys[q.Key()] {
			e.fkeys[q.Key()] = true
			e.facts = append(e.facts, Fact{q, false})
			e.touch()
			e.propagate(Fact{q, false})
		}
	}
}

// squareDiv: from a^2 = 2^k*(integer) follows that a is a multiple of 2^ceil(k/2).
func (e *Env) squareDiv(p *Poly) {
	for _, t := range p.t {
		if t.m.p2 != nil || len(t.m.f) != 1 || t.m.f[0].pow != 2 || e.undet[t.m.f[0].a] || e.div[t.m.f[0].a] != nil {
			continue
		}
		rest := e.u.Scale(e.u.Sub(p, &Poly{t: []Term{t}}), new(big.Rat).Inv(t.c))
		if rest.IsZero() {
			continue
		}
		d := e.common2(rest)
		if d == nil {
			continue
		}
		if b := e.bounds(d); b.lo != nil && b.lo.Cmp(ratOne) > 0 && ceilRat(b.lo).IsInt64() {
			e.div[t.m.f[0].a] = e.u.Int((ceilRat(b.lo).Int64() + 1) / 2)
			e.redivide()
		}
	}
}

func (e *Env) nonzeroAtom(a *Atom) bool {
	iv := e.iv[a]
	return (iv.lo != nil && iv.lo.Sign() > 0) || (iv.hi != nil && iv.hi.Sign() < 0) || e.nonz[e.u.Atom(a).Key()] != nil
}

func (e *Env) assume(c Cond, val bool) {
	if len(e.div) > 0 {
		defer func() {
			if !e.dead {
				e.redivide()
			}
		}()
	}
	if c.zero {
		if val {
			e.addEq(c.p)
		} else {
			p := e.zeroNorm(e.S(c.p))
			if p.IsZero() {
				e.fail()
			}
			e.nonz[p.Key()] = p
			e.touch()
			b := e.bounds(p)
			if b.lo != nil && b.lo.Sign() >= 0 {
				e.addFact(p, true)
			} else if b.hi != nil && b.hi.Sign() <= 0 {
				e.addFact(e.u.Neg(p), true)
			}
			e.excludeInts()
		}
		return
	}
	p, strict := e.S(c.p), false
	if !val {
		p, strict = e.u.Neg(p), true
	}
	if e.intValued(p) {
		if q := e.signNorm(p); !q.Eq(p) {
			if strict { // an integer: at least one
				p, strict = e.u.Sub(p, e.u.one), false
			}
			e.addFact(p, strict)
			p = e.S(p)
		}
	}
	e.addFact(e.signNorm(p), strict)
}

// ---------- integrality ----------

func v2(r *big.Rat) int64 {
	return int64(r.Num().TrailingZeroBits()) - int64(r.Denom().TrailingZeroBits())
}

func oddDenom(r *big.Rat) bool { // denominator has an odd factor > 1
	d := new(big.Int).Rsh(r.Denom(), r.Denom().TrailingZeroBits())
	return d.Cmp(big.NewInt(1)) != 0
}

func (e *Env) termInt(t Term) bool {
	if oddDenom(t.c) {
		return false
	}
	for _, f := range t.m.f {
		if f.pow < 0 || e.undet[f.a] {
			return false
		}
	}
	k := v2(t.c)
	p2 := t.m.p2
	for _, f := range t.m.f {
		if d, ok := e.div[f.a]; ok {
			if p2 == nil {
				p2 = e.u.zero
			}
			p2 = e.u.lin(p2, big.NewRat(int64(f.pow), 1), d)
		}
	}
	if p2 != nil {
		b := e.bounds(e.S(p2))
		if b.lo == nil || !ceilRat(b.lo).IsInt64() {
			return false
		}
		k += ceilRat(b.lo).Int64()
	}
	return k >= 0
}

// divStep is the power of two a is known to be a multiple of (at least 1).
func (e *Env) divStep(a *Atom) *big.Int {
	d, ok := e.div[a]
	if !ok {
		return nil
	}
	b := e.bounds(e.S(d))
	if b.lo == nil || b.lo.Sign() <= 0 {
		return nil
	}
	if k := ceilRat(b.lo); k.IsInt64() && k.Int64() < 1<<16 {
		return new(big.Int).Lsh(big.NewInt(1), uint(k.Int64()))
	}
	return nil
}

// redivide re-evaluates what depends on the atoms known to be multiples of powers of two.
func (e *Env) redivide() {
	for _, a := range e.u.list {
		if _, ok := e.div[a]; ok && e.sub[a] == nil {
			e.tighten(a, e.iv[a].lo, e.iv[a].hi)
		}
	}
	for _, f := range append([]Fact(nil), e.facts...) {
		if q, s := e.tightenInt(f.p, f.strict); !q.Eq(f.p) || s != f.strict {
			e.addFact(q, s)
		}
	}
	e.refloor()
	e.checkInts()
}

// refloor re-evaluates floors whose argument has become integral up to a constant.
func (e *Env) refloor() {
	for _, a := range e.u.list {
		if a.kind != aFloor || !e.known[a] {
			continue
		}
		if _, gone := e.sub[a]; gone {
			continue
		}
		arg := e.S(a.arg)
		var v *Poly
		if f, ok := e.intFrac(arg); ok {
			v = e.u.Sub(arg, e.u.constRat(f))
		} else {
			v = e.Floor(arg)
		}
		if v = e.S(v); e.sub[a] == nil && !v.Eq(e.u.Atom(a)) && !v.hasAtom(func(x *Atom) bool { return x == a }) {
			e.subst0(a, v, true)
		}
	}
}

// checkInts fails when the values recorded as integers cannot all be integers.
func (e *Env) checkInts() {
	// an integer square divisible by 2^k has a root divisible by 2^ceil(k/2)
	for _, q := range e.ints {
		if len(q.t) != 1 || oddDenom(q.t[0].c) {
			continue
		}
		t := q.t[0]
		if t.m.p2 != nil || len(t.m.f) != 1 || t.m.f[0].pow != 2 || v2(t.c) >= 0 {
			continue
		}
		a, k := t.m.f[0].a, (1-v2(t.c))/2
		if e.div[a] == nil && !e.undet[a] {
			e.div[a] = e.u.Int(k)
			e.redivide()
			return
		}
	}
	for i, q := range e.ints {
		if e.notInt(q) {
			e.fail()
		}
		rest := e.u.zero
		for _, t := range q.t {
			if t.m == monoOne || !e.termInt(t) {
				rest = e.u.Add(rest, &Poly{t: []Term{t}})
			}
		}
		if b := e.bounds(rest); b.lo != nil && b.hi != nil {
			lo, hi := ceilRat(b.lo), floorRat(b.hi)
			if lo.Cmp(hi) > 0 {
				e.fail()
			}
			if _, c := rest.IsConst(); lo.Cmp(hi) == 0 && !c {
				e.addEq(e.u.Sub(rest, e.u.Const(lo)))
				return
			}
		}
		for _, r := range e.ints[:i] {
			for _, t := range q.t {
				if t.m == monoOne {
					continue
				}
				for _, x := range r.t {
					if x.m.key != t.m.key {
						continue
					}
					c := new(big.Rat).Quo(t.c, x.c)
					if c.IsInt() && e.notInt(e.u.lin(q, new(big.Rat).Neg(c), r)) {
						e.fail()
					}
					if c.Inv(c).IsInt() && e.notInt(e.u.lin(r, new(big.Rat).Neg(c), q)) {
						e.fail()
					}
				}
			}
		}
	}
}

// excludeInts looks for integers all but one of whose few possible values are ruled out.
func (e *Env) excludeInts() {
	cand := append([]*Poly(nil), e.ints...)
	for _, q := range e.ints { // and the differences from other integers that the facts bound
		for _, f := range e.facts {
			if f.p.sharesTerm(q) && e.intValued(f.p) {
				cand = append(cand, f.p)
			}
		}
	}
	for _, q := range cand {
		q = e.S(q)
		b := e.bounds(q)
		if b.lo == nil || b.hi == nil {
			continue
		}
		lo, hi := ceilRat(b.lo), floorRat(b.hi)
		if d := new(big.Int).Sub(hi, lo); !d.IsInt64() || d.Int64() > 3 || lo.Cmp(hi) == 0 {
			continue
		}
		var left *Poly
		n := 0
		for v := new(big.Int).Set(lo); v.Cmp(hi) <= 0; v = new(big.Int).Add(v, big.NewInt(1)) {
			d := e.u.Sub(q, e.u.Const(v))
			if e.isZero(d) != 0 {
				left = d
				n++
			}
		}
		switch n {
		case 0:
			e.fail()
		case 1:
			e.addEq(left)
		}
	}
}

// sharesTerm reports whether p and q have a non-constant monomial in common.
func (p *Poly) sharesTerm(q *Poly) bool {
	for _, s := range p.t {
		for _, t := range q.t {
			if s.m.key == t.m.key && s.m != monoOne {
				return true
			}
		}
	}
	return false
}

// notInt shows that a polynomial cannot take an integer value: its constant term has a smaller power of two in the
// denominator than every other term can cancel.
func (e *Env) notInt(p *Poly) bool {
	c := p.constPart()
	if c.Sign() == 0 || c.IsInt() || oddDenom(c) {
		return false
	}
	k := v2(c)
	rest := e.u.Scale(e.u.Sub(p, e.u.constRat(c)), pow2Rat(-k-1))
	return e.allTermsInt(rest)
}

func (e *Env) intValued(p *Poly) bool {
	f, ok := e.intFrac(p)
	return ok && f.Sign() == 0
}

// intFrac finds the constant f in [0,1) such that p - f is an integer.
func (e *Env) intFrac(p *Poly) (*big.Rat, bool) {
	test := func(p *Poly) (*big.Rat, bool) {
		c := p.constPart()
		if !e.allTermsInt(e.u.Sub(p, e.u.constRat(c))) {
			return nil, false
		}
		return new(big.Rat).Sub(c, new(big.Rat).SetInt(floorRat(c))), true
	}
	if f, ok := test(p); ok {
		return f, true
	}
	for _, q := range e.ints {
		for _, qt := range q.t {
			if qt.m == monoOne {
				continue
			}
			for _, t := range p.t {
				if t.m.key != qt.m.key {
					continue
				}
				// p - c*q integer for an integer c
				c := new(big.Rat).Quo(t.c, qt.c)
				if c.IsInt() {
					if f, ok := test(e.u.lin(p, new(big.Rat).Neg(c), q)); ok {
						return f, true
					}
				}
				break
			}
		}
	}
	return nil, false
}

func (e *Env) allTermsInt(p *Poly) bool {
	for _, t := range p.t {
		if !e.termInt(t) {
			return false
		}
	}
	return true
}

// ---------- bounds ----------

func ivAdd(a, b Ival) Ival {
	var r Ival
	if a.lo != nil && b.lo != nil {
		r.lo = new(big.Rat).Add(a.lo, b.lo)
	}
	if a.hi != nil && b.hi != nil {
		r.hi = new(big.Rat).Add(a.hi, b.hi)
	}
	return r
}

func ivScale(a Ival, c *big.Rat) Ival {
	var r Ival
	if c.Sign() == 0 {
		return Ival{new(big.Rat), new(big.Rat)}
	}
	if a.lo != nil {
		r.lo = new(big.Rat).Mul(a.lo, c)
	}
	if a.hi != nil {
		r.hi = new(big.Rat).Mul(a.hi, c)
	}
	if c.Sign() < 0 {
		r.lo, r.hi = r.hi, r.lo
	}
	return r
}

func ivMul(a, b Ival) Ival {
	if a.lo != nil && a.lo.Sign() == 0 && a.hi != nil && a.hi.Sign() == 0 {
		return a
	}
	if b.lo != nil && b.lo.Sign() == 0 && b.hi != nil && b.hi.Sign() == 0 {
		return b
	}
	// common fast case: both nonnegative
	if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		r := Ival{lo: new(big.Rat).Mul(a.lo, b.lo)}
		if a.hi != nil && b.hi != nil {
			r.hi = new(big.Rat).Mul(a.hi, b.hi)
		}
		return r
	}
	if a.lo == nil || a.hi == nil || b.lo == nil || b.hi == nil {
		return Ival{}
	}
	ps := []*big.Rat{new(big.Rat).Mul(a.lo, b.lo), new(big.Rat).Mul(a.lo, b.hi), new(big.Rat).Mul(a.hi, b.lo), new(big.Rat).Mul(a.hi, b.hi)}
	lo, hi := ps[0], ps[0]
	for _, p := range ps[1:] {
		if p.Cmp(lo) < 0 {
			lo = p
		}
		if p.Cmp(hi) > 0 {
			hi = p
		}
	}
	return Ival{lo, hi}
}

func (e *Env) monoIval(m *Mono) Ival {
	r := Ival{ratOne, ratOne}
	for _, f := range m.f {
		iv := e.iv[f.a]
		n := f.pow
		if n < 0 {
			n = -n
			// reciprocal of a positive interval
			if iv.lo == nil || iv.lo.Sign() <= 0 {
				return Ival{}
			}
			var inv Ival
			inv.hi = new(big.Rat).Inv(iv.lo)
			if iv.hi != nil {
				inv.lo = new(big.Rat).Inv(iv.hi)
			} else {
				inv.lo = new(big.Rat)
			}
			iv = inv
		}
		if n%2 == 0 && iv.lo != nil && iv.lo.Sign() < 0 {
			// even power of a possibly negative quantity
			if iv.hi == nil {
				return Ival{}
			}
			mx := new(big.Rat).Neg(iv.lo)
			if iv.hi.Cmp(mx) > 0 {
				mx = iv.hi
			}
			mn := new(big.Rat)
			if iv.hi.Sign() < 0 {
				mn = new(big.Rat).Neg(iv.hi)
			}
			iv = Ival{mn, mx}
		}
		for i := 0; i < n; i++ {
			r = ivMul(r, iv)
		}
	}
	if m.p2 != nil {
		b := e.bounds(m.p2)
		var pv Ival
		if b.lo != nil {
			k := ceilRat(b.lo)
			if k.IsInt64() && k.Int64() > -20000 && k.Int64() < 20000 {
				pv.lo = pow2Rat(k.Int64())
			} else {
				pv.lo = new(big.Rat)
			}
		} else {
			pv.lo = new(big.Rat)
		}
		if b.hi != nil {
			k := floorRat(b.hi)
			if k.IsInt64() && k.Int64() < 20000 && k.Int64() > -20000 {
				pv.hi = pow2Rat(k.Int64())
			}
		}
		r = ivMul(r, pv)
	}
	return r
}

// direct is plain interval evaluation.
func (e *Env) direct(p *Poly) Ival {
	r := Ival{new(big.Rat), new(big.Rat)}
	for _, t := range p.t {
		if t.m == monoOne {
			r = ivAdd(r, Ival{t.c, t.c})
			continue
		}
		r = ivAdd(r, ivScale(e.monoIval(t.m), t.c))
		if r.lo == nil && r.hi == nil {
			return r
		}
	}
	return r
}

func better(a, b Ival) Ival {
	if b.lo != nil && (a.lo == nil || b.lo.Cmp(a.lo) > 0) {
		a.lo = b.lo
	}
	if b.hi != nil && (a.hi == nil || b.hi.Cmp(a.hi) < 0) {
		a.hi = b.hi
	}
	return a
}

// bounds evaluates p in the state, refining plain intervals with one fact at a time.
func (e *Env) bounds(p *Poly) Ival { return e.boundsN(p, 1) }

func (e *Env) boundsN(p *Poly, depth int) Ival {
	if c, ok := p.IsConst(); ok {
		return Ival{c, c}
	}
	if e.bver != e.ver {
		e.bmemo = map[string]Ival{}
		e.bver = e.ver
	}
	k := p.Key()
	if depth > 1 {
		k += "#" + fmt.Sprint(depth)
	}
	if v, ok := e.bmemo[k]; ok {
		return v
	}
	r := e.direct(p)
	e.bmemo[k] = r // guards recursion
	if depth > 0 && len(p.t) > 0 {
		r = e.refine(p, r, depth)
	}
	// round by integrality
	if e.intValued(p) {
		if r.lo != nil && !r.lo.IsInt() {
			r.lo = new(big.Rat).SetInt(ceilRat(r.lo))
		}
		if r.hi != nil && !r.hi.IsInt() {
			r.hi = new(big.Rat).SetInt(floorRat(r.hi))
		}
	}
	if e.bver == e.ver {
		e.bmemo[k] = r
	}
	return r
}

func (e *Env) refine(p *Poly, r Ival, depth int) Ival {
	for _, f := range e.facts {
		for _, ft := range f.p.t {
			if ft.m == monoOne {
				continue
			}
			var pc *big.Rat
			for _, t := range p.t {
				if t.m.key == ft.m.key {
					pc = t.c
					break
				}
			}
			if pc == nil {
				continue
			}
			lam := new(big.Rat).Quo(pc, ft.c)
			rest := e.u.lin(p, new(big.Rat).Neg(lam), f.p)
			if len(rest.t) > len(p.t)+1 {
				continue
			}
			var rb Ival
			if depth > 1 {
				rb = e.boundsN(rest, depth-1)
			} else {
				rb = e.direct(rest)
			}
			if lam.Sign() > 0 {
				if rb.lo != nil {
					lo := rb.lo
					if f.strict && e.intValued(p) && lo.IsInt() {
						lo = new(big.Rat).Add(lo, ratOne)
					}
					r = better(r, Ival{lo: lo})
				}
			} else if rb.hi != nil {
				hi := rb.hi
				if f.strict && e.intValued(p) && hi.IsInt() {
					hi = new(big.Rat).Sub(hi, ratOne)
				}
				r = better(r, Ival{hi: hi})
			}
		}
	}
	return r
}

// expBounds bounds exponents of two: from c*m*2^E + r >= 0 and the bounds of m and r.
func (e *Env) expBounds() {
	for _, f := range append([]Fact(nil), e.facts...) {
		for _, t := range f.p.t {
			if t.m.p2 == nil {
				continue
			}
			mono := e.monoIval(&Mono{f: t.m.f})
			r := e.bounds(e.u.Sub(f.p, &Poly{t: []Term{t}}))
			if mono.lo == nil || mono.lo.Sign() <= 0 || mono.hi == nil || r.hi == nil {
				continue
			}
			q := new(big.Rat).Quo(new(big.Rat).Neg(r.hi), t.c) // c > 0: m*2^E >= q, else m*2^E <= q
			if q.Sign() <= 0 {
				continue
			}
			if t.c.Sign() > 0 {
				e.addFact(e.u.Sub(t.m.p2, e.u.Int(ceilLog2(q.Quo(q, mono.hi)))), false)
			} else {
				e.addFact(e.u.Sub(e.u.Int(-ceilLog2(q.Inv(q.Quo(q, mono.lo)))), t.m.p2), false)
			}
		}
	}
	e.redivide()
}

// ceilLog2 is the least k with 2^k >= q > 0.
func ceilLog2(q *big.Rat) int64 {
	k := int64(q.Num().BitLen()) - int64(q.Denom().BitLen()) - 1
	for pow2Rat(k).Cmp(q) < 0 {
		k++
	}
	return k
}

// proveGE reports whether p >= 0 follows, trying harder than bounds.
func (e *Env) proveGE(p *Poly) bool {
	p = e.signNorm(e.S(p))
	for d := 1; d <= 2; d++ {
		b := e.boundsN(p, d)
		if b.lo != nil && b.lo.Sign() >= 0 {
			return true
		}
	}
	lo, _ := e.lpMin(p)
	return lo != nil && lo.Sign() >= 0
}

// lpBounds bounds p by all linear facts together, rounding when p is an integer.
func (e *Env) lpBounds(p *Poly) (lo, hi *big.Rat) {
	lo, inf := e.lpMin(p)
	if inf {
		e.fail()
	}
	m, inf := e.lpMin(e.u.Neg(p))
	if inf {
		e.fail()
	}
	if m != nil {
		hi = new(big.Rat).Neg(m)
	}
	if (lo != nil && !lo.IsInt() || hi != nil && !hi.IsInt()) && e.intValued(p) {
		if lo != nil {
			lo = new(big.Rat).SetInt(ceilRat(lo))
		}
		if hi != nil {
			hi = new(big.Rat).SetInt(floorRat(hi))
		}
		if lo != nil && hi != nil && lo.Cmp(hi) > 0 {
			e.fail()
		}
	}
	return
}

// ---------- decisions ----------

// zeroNorm divides out factors that cannot be zero and scales the first coefficient to one.
func (e *Env) zeroNorm(p *Poly) *Poly {
	if len(p.t) == 0 {
		return p
	}
	cf := e.u.commonFactor(p)
	var f []fac
	for _, x := range cf.f {
		if e.nonzeroAtom(x.a) {
			f = append(f, x)
		} else if x.pow > 1 {
			f = append(f, fac{x.a, x.pow - 1})
		}
	}
	if f != nil {
		p = e.u.MulTermMono(p, invMono(e.u, mkMono(f, nil)))
	}
	lead := e.u.leadTerm(p)
	q := p
	if lead.m.p2 != nil {
		q = e.u.MulTermMono(p, invMono(e.u, mkMono(nil, lead.m.p2)))
	}
	return e.u.Scale(q, new(big.Rat).Inv(lead.c))
}

// leadTerm picks a term independently of a common power-of-two factor.
func (u *U) leadTerm(p *Poly) Term {
	best := p.t[0]
	bk := mkMono(best.m.f, nil).key
	for _, t := range p.t[1:] {
		k := mkMono(t.m.f, nil).key
		switch {
		case k < bk:
			best, bk = t, k
		case k == bk:
			// same factors, different exponents of two: compare by the leading coefficient of the difference
			d := u.zero
			if t.m.p2 != nil {
				d = t.m.p2
			}
			if best.m.p2 != nil {
				d = u.Sub(d, best.m.p2)
			}
			if len(d.t) > 0 && d.t[0].c.Sign() > 0 {
				best = t
			}
		}
	}
	return best
}

// signNorm divides out positive factors.
func (e *Env) signNorm(p *Poly) *Poly {
	if len(p.t) == 0 {
		return p
	}
	cf := e.u.commonFactor(p)
	var f []fac
	for _, x := range cf.f {
		iv := e.iv[x.a]
		if iv.lo != nil && iv.lo.Sign() > 0 {
			f = append(f, x)
		}
	}
	var p2 *Poly
	allHave := true
	for _, t := range p.t {
		if t.m.p2 == nil {
			allHave = false
		}
	}
	if allHave {
		p2 = e.u.leadTerm(p).m.p2
	}
	mm := mkMono(f, p2)
	if mm == monoOne {
		return p
	}
	return e.u.MulTermMono(p, invMono(e.u, mm))
}

// isZero decides p == 0: 1 yes, 0 no, -1 unknown.
func (e *Env) isZero(p *Poly) int {
	p = e.S(p)
	if p.IsZero() {
		return 1
	}
	n := e.zeroNorm(p)
	if c, ok := n.IsConst(); ok && c.Sign() != 0 {
		return 0
	}
	if e.nonz[n.Key()] != nil {
		return 0
	}
	if e.zeros[n.Key()] {
		return 1
	}
	for _, q := range []*Poly{p, n} {
		b := e.bounds(q)
		if (b.lo != nil && b.lo.Sign() > 0) || (b.hi != nil && b.hi.Sign() < 0) {
			return 0
		}
		if b.lo != nil && b.hi != nil && b.lo.Sign() == 0 && b.hi.Sign() == 0 {
			return 1
		}
	}
	if e.strictNeg(p) || e.strictNeg(e.u.Neg(p)) {
		return 0
	}
	for i, q := range []*Poly{p, n} {
		if i == 1 && n.Eq(p) {
			break
		}
		lo, hi := e.lpBounds(q)
		if (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
			return 0
		}
		if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
			return 1
		}
	}
	// a non-integer constant offset from an integer polynomial
	if f, ok := e.intFrac(p); ok && f.Sign() != 0 {
		return 0
	}
	return -1
}

func (e *Env) Zero(p *Poly) bool {
	switch e.isZero(p) {
	case 1:
		pp := e.S(p)
		if !pp.IsZero() {
			e.addEq(pp)
		}
		return true
	case 0:
		return false
	}
	panic(blocked{cond: Cond{true, e.zeroNorm(e.S(p))}})
}

func (e *Env) GE(p *Poly) bool {
	p0 := e.S(p)
	p = e.signNorm(p0)
	if !p0.Eq(p) {
		if !e.intValued(p0) {
			p0 = p
		} else {
			lo, hi := e.lpBounds(p0)
			if lo != nil && lo.Sign() >= 0 {
				return true
			}
			if hi != nil && hi.Sign() < 0 {
				return false
			}
		}
	}
	b := e.bounds(p)
	if b.lo != nil && b.lo.Sign() >= 0 {
		return true
	}
	if b.hi != nil && b.hi.Sign() < 0 {
		return false
	}
	if e.strictNeg(p) {
		return false
	}
	lo, hi := e.lpBounds(p)
	if lo != nil && lo.Sign() >= 0 {
		return true
	}
	if hi != nil && hi.Sign() < 0 {
		return false
	}
	panic(blocked{cond: Cond{false, p0}})
}

// strictNeg shows p < 0 from one strict fact.
func (e *Env) strictNeg(p *Poly) bool {
	for _, f := range e.facts {
		if !f.strict {
			continue
		}
		for _, ft := range f.p.t {
			if ft.m == monoOne {
				continue
			}
			for _, t := range p.t {
				if t.m.key != ft.m.key {
					continue
				}
				lam := new(big.Rat).Quo(t.c, ft.c)
				if lam.Sign() >= 0 {
					continue
				}
				rest := e.u.lin(p, new(big.Rat).Neg(lam), f.p)
				if b := e.direct(rest); b.hi != nil && b.hi.Sign() <= 0 {
					return true
				}
			}
		}
	}
	return false
}

func (e *Env) GT(p *Poly) bool { return !e.GE(e.u.Neg(p)) }

// ---------- functions ----------

func (e *Env) Floor(p *Poly) *Poly {
	p = e.S(p)
	out := e.u.zero
	rest := e.u.zero
	for _, t := range p.t {
		tp := &Poly{t: []Term{t}}
		if t.m == monoOne {
			fl := floorRat(t.c)
			out = e.u.Add(out, e.u.Const(fl))
			rest = e.u.Add(rest, e.u.constRat(new(big.Rat).Sub(t.c, new(big.Rat).SetInt(fl))))
		} else if e.termInt(t) {
			out = e.u.Add(out, tp)
		} else {
			rest = e.u.Add(rest, tp)
		}
	}
	if rest.IsZero() {
		return out
	}
	if f, ok := e.intFrac(rest); ok {
		return e.u.Add(out, e.u.Sub(rest, e.u.constRat(f)))
	}
	b := e.bounds(rest)
	if b.lo != nil && b.hi != nil {
		l, h := floorRat(b.lo), floorRat(b.hi)
		if l.Cmp(h) == 0 {
			return e.u.Add(out, e.u.Const(l))
		}
	}
	// floor(floor(x)/n) = floor(x/n)
	if len(rest.t) == 1 {
		t := rest.t[0]
		if len(t.m.f) == 1 && t.m.f[0].pow == 1 && t.m.f[0].a.kind == aFloor {
			inv, _ := e.u.Inv(&Poly{t: []Term{{mkMono(nil, t.m.p2), t.c}}})
			if e.intValued(inv) && t.c.Sign() > 0 {
				return e.u.Add(out, e.Floor(e.u.MulTermMono(e.u.Scale(t.m.f[0].a.arg, t.c), mkMono(nil, t.m.p2))))
			}
		}
	}
	// floor(q/n) = floor(floor(q)/n)
	for _, a := range e.u.list {
		if a.kind != aFloor || !e.known[a] {
			continue
		}
		arg := e.S(a.arg)
		if w := e.sub[a]; w != nil && !w.hasAtom(isFn) && arg.Eq(rest) {
			return e.u.Add(out, w)
		}
		if len(arg.t) != len(rest.t) {
			continue
		}
		for j, k := range rest.t {
			if arg.t[j].m.key != k.m.key {
				break
			}
			r := new(big.Rat).Quo(arg.t[j].c, k.c)
			if r.Cmp(ratOne) <= 0 || !r.IsInt() || r.Num().BitLen() != int(r.Num().TrailingZeroBits())+1 {
				break
			}
			if e.u.Scale(rest, r).Eq(arg) {
				h := e.u.Scale(e.substAtom(a), r.Inv(r))
				if e.stale(h) {
					break
				}
				if f, ok := e.intFrac(h); ok {
					return e.u.Add(out, e.u.Sub(h, e.u.constRat(f)))
				}
				if e.sub[a] != nil && len(h.t) > 1 {
					return e.u.Add(out, e.Floor(h))
				}
			}
			break
		}
	}
	// relate to a known coarser floor: rest = 2^j*q + c, floor(q) known, 0 <= c < 1
	c := rest.constPart()
	lin := e.u.Sub(rest, e.u.constRat(c))
	for _, a := range e.u.list {
		if a.kind != aFloor || !e.known[a] || len(a.arg.t) < len(lin.t) {
			continue
		}
		ac := a.arg.constPart()
		al := e.u.Sub(a.arg, e.u.constRat(ac))
		for j := int64(0); j <= 2; j++ {
			if !e.u.Scale(al, pow2Rat(j)).Eq(lin) {
				continue
			}
			if j == 0 && c.Cmp(ac) == 0 {
				break
			}
			// rest = 2^j*arg + off, arg in [A, A+1)
			off := new(big.Rat).Sub(c, new(big.Rat).Mul(ac, pow2Rat(j)))
			av := e.substAtom(a)
			if e.stale(av) {
				break
			}
			base := e.u.Scale(av, pow2Rat(j))
			lo := floorRat(off).Int64()
			hi := ceilRat(new(big.Rat).Add(off, pow2Rat(j))).Int64() - 1
			fine, r := e.finerFloor(rest)
			for i := hi; i > lo; i-- {
				q := e.u.Sub(e.u.Sub(rest, base), e.u.Int(i))
				if fine != nil && e.intValued(base) { // rest >= N exactly when floor(r*rest) >= r*N
					q = e.u.Sub(e.S(fine), e.u.Scale(e.S(e.u.Add(base, e.u.Int(i))), r))
				}
				if e.GE(q) {
					return e.u.Add(out, e.u.Add(base, e.u.Int(i)))
				}
			}
			return e.u.Add(out, e.u.Add(base, e.u.Int(lo)))
		}
	}
	a := e.u.intern(aFloor, "", rest)
	if v := e.sub[a]; v != nil && e.stale(v) { // now that argument's floor is expressed by this one
		delete(e.sub, a)
		e.known[a] = false
		e.touch()
	}
	e.defFloor(a, b)
	return e.u.Add(out, e.substAtom(a))
}

// stale: defined by the floor of an argument that has changed since, perhaps the one being evaluated.
func (e *Env) stale(p *Poly) bool {
	return p.hasAtom(func(x *Atom) bool { return x.kind == aFloor && !e.S(x.arg).Eq(x.arg) })
}

// finerFloor finds a known floor(r*p) for an integer r > 1.
func (e *Env) finerFloor(p *Poly) (*Poly, *big.Rat) {
	for _, a := range e.u.list {
		if a.kind != aFloor || !e.known[a] {
			continue
		}
		arg := e.S(a.arg)
		if len(arg.t) != len(p.t) || arg.t[0].m.key != p.t[0].m.key {
			continue
		}
		r := new(big.Rat).Quo(arg.t[0].c, p.t[0].c)
		if r.Cmp(ratOne) > 0 && r.IsInt() && e.u.Scale(p, r).Eq(arg) {
			return e.substAtom(a), r
		}
	}
	return nil, nil
}

func (e *Env) defFloor(a *Atom, b Ival) {
	if e.known[a] {
		return
	}
	e.known[a] = true
	var iv Ival
	if b.lo != nil {
		iv.lo = new(big.Rat).SetInt(floorRat(b.lo))
	}
	if b.hi != nil {
		iv.hi = new(big.Rat).SetInt(floorRat(b.hi))
		if b.hi.IsInt() && e.strictNeg(e.u.Sub(e.S(a.arg), e.u.constRat(b.hi))) {
			iv.hi.Sub(iv.hi, ratOne)
		}
	}
	e.initIv(a, iv)
	d := e.u.Sub(a.arg, e.u.Atom(a)) // 0 <= d < 1
	up := e.u.Sub(e.u.one, d)
	e.addScaled(d, false)
	e.addScaled(up, true)
	var lo, hi *big.Rat
	if e.near {
		for _, b := range e.u.list {
			if b.kind == aFloor && b != a && e.known[b] && len(b.arg.t) == len(a.arg.t) {
				r := new(big.Rat).Quo(b.arg.t[0].c, a.arg.t[0].c)
				if r.Cmp(ratOne) < 0 && (lo == nil || r.Cmp(lo) > 0) {
					lo = r
				}
				if r.Cmp(ratOne) > 0 && (hi == nil || r.Cmp(hi) < 0) {
					hi = r
				}
			}
		}
	}
	for _, b := range e.u.list { // 0 <= floor(n*q) - n*floor(q) < n
		if b.kind != aFloor || b == a || !e.known[b] || len(b.arg.t) != len(a.arg.t) {
			continue
		}
		r := new(big.Rat).Quo(b.arg.t[0].c, a.arg.t[0].c)
		x, y := a, b
		if e.near && (lo == nil || r.Cmp(lo) != 0) && (hi == nil || r.Cmp(hi) != 0) {
			continue
		}
		if r.Cmp(ratOne) < 0 && r.Sign() > 0 {
			r.Inv(r)
			x, y = b, a
		}
		if !r.IsInt() || !e.u.Scale(x.arg, r).Eq(y.arg) {
			continue
		}
		q := e.u.lin(e.u.Atom(y), new(big.Rat).Neg(r), e.u.Atom(x))
		e.addFact(e.S(q), false)
		e.addFact(e.u.Sub(e.u.Sub(e.u.constRat(r), e.u.one), e.S(q)), false)
	}
}

// initIv gives a function atom its initial interval, keeping what was already assumed about it.
func (e *Env) initIv(a *Atom, iv Ival) {
	if _, ok := e.iv[a]; !ok {
		e.iv[a] = Ival{}
	}
	e.touch()
	at := e.u.Atom(a)
	if iv.lo != nil {
		e.addFact(e.u.Sub(at, e.u.constRat(iv.lo)), false)
	}
	if iv.hi != nil {
		e.addFact(e.u.Sub(e.u.constRat(iv.hi), at), false)
	}
}

// addScaled adds the fact and a copy with negative powers (and negative constant scale) cleared.
func (e *Env) addScaled(p *Poly, strict bool) {
	e.addFact(p, strict)
	q := p
	neg := map[*Atom]int{}
	for _, t := range p.t {
		for _, f := range t.m.f {
			if f.pow < 0 && f.pow < neg[f.a] {
				neg[f.a] = f.pow
			}
		}
	}
	ch := false
	for a, n := range neg {
		if iv := e.iv[a]; iv.lo == nil || iv.lo.Sign() <= 0 {
			return
		}
		for i := 0; i < -n; i++ {
			q = e.u.Mul(q, e.u.Atom(a))
			ch = true
		}
	}
	// clear constant denominators so that strict integer facts can be sharpened
	den := big.NewInt(1)
	for _, t := range q.t {
		g := new(big.Int).GCD(nil, nil, den, t.c.Denom())
		den = new(big.Int).Mul(den, new(big.Int).Div(t.c.Denom(), g))
	}
	if den.Cmp(big.NewInt(1)) != 0 {
		q = e.u.Scale(q, new(big.Rat).SetInt(den))
		ch = true
	}
	// clear negative exponents of two
	for _, t := range q.t {
		if t.m.p2 != nil {
			b := e.bounds(t.m.p2)
			if b.hi != nil && b.hi.Sign() <= 0 {
				q = e.u.MulTermMono(q, mkMono(nil, e.u.Neg(t.m.p2)))
				ch = true
				break
			}
		}
	}
	if ch {
		e.addFact(q, strict)
	}
}

// lgNorm splits off the power of two of the first term and the common one of the coefficients.
func (u *U) lgNorm(p *Poly) (shift, q *Poly) {
	k := v2(p.t[0].c)
	for _, t := range p.t {
		if v := v2(t.c); v < k {
			k = v
		}
	}
	out := u.Int(k)
	p = u.Scale(p, pow2Rat(-k))
	if p2 := u.leadTerm(p).m.p2; p2 != nil {
		out = u.Add(out, p2)
		p = u.MulTermMono(p, mkMono(nil, u.Neg(p2)))
	}
	return out, p
}

func (e *Env) Lg(p *Poly) *Poly {
	p = e.S(p)
	if p.IsZero() {
		panic(undecided("log2 of zero"))
	}
	if c, ok := p.IsConst(); ok {
		if c.Sign() <= 0 {
			panic(undecided("log2 of non-positive"))
		}
		return e.u.Int(lgRat(c))
	}
	out, p := e.u.lgNorm(p)
	b := e.bounds(p)
	if b.lo == nil || b.lo.Sign() <= 0 {
		// positivity may be known of the original scale only
		if !e.GT(p) {
			panic(undecided("log2 of non-positive " + e.u.Str(p)))
		}
		b = e.bounds(p)
	}
	if b.lo != nil && b.hi != nil && b.lo.Sign() > 0 {
		if l, h := lgRat(b.lo), lgRat(b.hi); l == h {
			return e.u.Add(out, e.u.Int(l))
		}
	}
	for _, x := range e.u.list { // already determined in another form
		if w := e.sub[x]; x.kind == aLg && e.known[x] && w != nil && !w.hasAtom(isFn) {
			arg := e.S(x.arg)
			if _, c := arg.IsConst(); c {
				continue
			}
			if o, q := e.u.lgNorm(arg); q.Eq(p) {
				return e.u.Add(e.u.Sub(out, o), w)
			}
		}
	}
	a := e.u.intern(aLg, "", p)
	if !e.known[a] {
		e.known[a] = true
		var iv Ival
		if b.lo != nil && b.lo.Sign() > 0 {
			iv.lo = big.NewRat(lgRat(b.lo), 1)
		} else if e.intValued(p) {
			iv.lo = new(big.Rat)
		}
		if b.hi != nil {
			iv.hi = big.NewRat(lgRat(b.hi), 1)
		}
		e.initIv(a, iv)
		if d := e.common2(p); d != nil { // p > 0 is a multiple of 2^d
			e.addFact(e.u.Sub(e.u.Atom(a), d), false)
		}
		n := e.u.Mul(p, e.u.Pow2(e.u.Neg(e.u.Atom(a)))) // in [1,2)
		e.addFact(e.u.Sub(n, e.u.one), false)
		e.addFact(e.u.Sub(e.u.Int(2), n), true)
	}
	return e.u.Add(out, e.substAtom(a))
}

// common2 finds d such that every term of p is a multiple of 2^d.
func (e *Env) common2(p *Poly) *Poly {
	var ds []*Poly
	for _, t := range p.t {
		if oddDenom(t.c) {
			return nil
		}
		d := e.u.Int(v2(t.c))
		if t.m.p2 != nil {
			d = e.u.Add(d, t.m.p2)
		}
		for _, f := range t.m.f {
			if f.pow < 0 {
				return nil
			}
			if k, ok := e.div[f.a]; ok {
				d = e.u.lin(d, big.NewRat(int64(f.pow), 1), k)
			}
		}
		ds = append(ds, e.S(d))
	}
	for _, d := range ds {
		ok := true
		for _, x := range ds {
			if b := e.bounds(e.u.Sub(x, d)); b.lo == nil || b.lo.Sign() < 0 {
				ok = false
			}
		}
		if ok {
			return d
		}
	}
	return nil
}

func (e *Env) Isqrt(p *Poly) *Poly {
	p = e.S(p)
	if c, ok := p.ConstInt(); ok && c.Sign() >= 0 {
		return e.u.Const(new(big.Int).Sqrt(c))
	}
	b := e.bounds(p)
	if b.lo == nil || b.lo.Sign() < 0 {
		if !e.GE(p) {
			panic(undecided("square root of possibly negative " + e.u.Str(p)))
		}
		b.lo = new(big.Rat)
	}
	for _, x := range e.u.list {
		if x.kind != aIsqrt || !e.known[x] {
			continue
		}
		for j := int64(1); j <= 4; j++ {
			if e.S(x.arg).Eq(e.u.Scale(p, pow2Rat(2*j))) { // floor(sqrt(p)) = floor(floor(sqrt(4^j p))/2^j)
				return e.Floor(e.u.Scale(e.substAtom(x), pow2Rat(-j)))
			}
		}
	}
	a := e.u.intern(aIsqrt, "", p)
	if !e.known[a] {
		e.known[a] = true
		iv := Ival{lo: new(big.Rat).SetInt(new(big.Int).Sqrt(floorRat(b.lo)))}
		if b.hi != nil {
			iv.hi = new(big.Rat).SetInt(new(big.Int).Sqrt(floorRat(b.hi)))
		}
		e.initIv(a, iv)
		n := e.u.Atom(a)
		n2 := e.u.Mul(n, n)
		e.addFact(e.u.Sub(p, n2), false)
		e.addFact(e.u.Sub(e.u.Add(n2, e.u.ScaleInt(n, 2)), p), false)
	}
	return e.substAtom(a)
}

func isFn(a *Atom) bool { return a.arg != nil }
