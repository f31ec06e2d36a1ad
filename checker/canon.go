package main

// Canonical forms of float pipelines: decision diagrams over boolean leaves whose terminals are polynomials over
// integer leaves, or floats. Two pipelines that were written differently but select and combine the same values have
// the same form. Float operations stay uninterpreted.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type cTerm struct { // a float term shared by both pipelines
	id  int
	key string
	// what is known of its value: the sign bit, and bounds on the magnitude
	sign   int // 0, 1 or -1 if not known
	normal bool
	lo, hi *big.Rat
}

type cFloat struct { // terminal: a float
	t         *cTerm
	c         *big.Rat // a constant
	cid       int
	s, a      *Poly    // sign and abnormal flag
	raw       [4]*Poly // neither
	base, key string
}

type cVar struct {
	id  int
	key string
	p   *Poly // IsPositive(p)
	pol bool
}

type dd struct {
	id     int
	v      *cVar
	lo, hi *dd
	p      *Poly
	f      *cFloat
}

type canon struct {
	u      *U
	uniq   map[string]*dd
	vars   map[string]*cVar
	terms  map[string]*cTerm
	byExp  map[string]*cTerm
	consts []*big.Rat // representatives
	memo   map[string]*dd
	deep   bool // comparisons of integers leaf by leaf
	budget int
	bools  map[string]bool // operands used as conditions
	flags  map[string]*Atom
}

func newCanon(deep bool) *canon {
	return &canon{u: newU(), uniq: map[string]*dd{}, vars: map[string]*cVar{}, terms: map[string]*cTerm{}, byExp: map[string]*cTerm{}, memo: map[string]*dd{}, deep: deep, budget: 400000, bools: map[string]bool{}, flags: map[string]*Atom{}}
}

func (c *canon) mk(k string, f func() *dd) *dd {
	if d, ok := c.uniq[k]; ok {
		return d
	}
	if len(c.uniq) > c.budget {
		panic(undecided("decision diagram too large"))
	}
	d := f()
	d.id = len(c.uniq)
	c.uniq[k] = d
	return d
}

func (c *canon) poly(p *Poly) *dd { return c.mk("p"+p.Key(), func() *dd { return &dd{p: p} }) }
func (c *canon) flt(f *cFloat) *dd {
	return c.mk("f"+f.key, func() *dd { return &dd{f: f} })
}

func (c *canon) ite(v *cVar, hi, lo *dd) *dd {
	if hi == lo {
		return hi
	}
	return c.mk(fmt.Sprintf("n%d,%d,%d", v.id, hi.id, lo.id), func() *dd { return &dd{v: v, hi: hi, lo: lo} })
}

// top is the variable nearest the root.
func top(ds []*dd) *cVar {
	var v *cVar
	for _, d := range ds {
		if d.v != nil && (v == nil || d.v.id < v.id) {
			v = d.v
		}
	}
	return v
}

func (c *canon) apply(tag string, ds []*dd, f func(ts []*dd) *dd) *dd {
	k := tag
	for _, d := range ds {
		k += fmt.Sprintf(",%d", d.id)
	}
	if r, ok := c.memo[k]; ok {
		return r
	}
	if len(c.memo) > 4*c.budget {
		panic(undecided("decision diagram too large"))
	}
	var r *dd
	if v := top(ds); v == nil {
		r = f(ds)
	} else {
		hs, ls := make([]*dd, len(ds)), make([]*dd, len(ds))
		for i, d := range ds {
			hs[i], ls[i] = d, d
			if d.v == v {
				hs[i], ls[i] = d.hi, d.lo
			}
		}
		r = c.ite(v, c.apply(tag, hs, f), c.apply(tag, ls, f))
	}
	c.memo[k] = r
	return r
}

func (c *canon) variable(key string) *cVar {
	v, ok := c.vars[key]
	if !ok {
		v = &cVar{id: len(c.vars), key: key}
		c.vars[key] = v
	}
	return v
}

func (c *canon) bvar(key string) *dd {
	return c.ite(c.variable(key), c.poly(c.u.one), c.poly(c.u.zero))
}

func (c *canon) not(d *dd) *dd {
	return c.apply("not", []*dd{d}, func(t []*dd) *dd { return c.poly(c.u.Sub(c.u.one, t[0].p)) })
}

// sel chooses between two diagrams.
func (c *canon) sel(b, x, y *dd) *dd {
	return c.apply("sel", []*dd{b, x, y}, func(t []*dd) *dd {
		switch k, ok := t[0].p.ConstInt(); {
		case ok && k.Sign() == 0:
			return t[2]
		case ok && k.IsInt64() && k.Int64() == 1:
			return t[1]
		}
		panic(undecided("a selection on a value that is not boolean"))
	})
}

// side evaluates the nodes of one pipeline.
type side struct {
	*canon
	p    *pipe
	nm   map[*Node]*dd
	tm   map[[4]*Node]*dd
	fm   map[*FTerm]*cTerm
	cons int
}

func (c *canon) side(p *pipe) *side {
	return &side{canon: c, p: p, nm: map[*Node]*dd{}, tm: map[[4]*Node]*dd{}, fm: map[*FTerm]*cTerm{}}
}

func (s *side) node(n *Node) *dd {
	if d, ok := s.nm[n]; ok {
		return d
	}
	d := s.node1(n)
	s.nm[n] = d
	return d
}

func (s *side) bin(tag string, n *Node, f func(a, b *Poly) *Poly) *dd {
	return s.apply(tag, []*dd{s.node(n.arg[0]), s.node(n.arg[1])}, func(t []*dd) *dd { return s.poly(f(t[0].p, t[1].p)) })
}

func (s *side) node1(n *Node) *dd {
	u := s.u
	switch n.op {
	case nConst:
		return s.poly(u.Const(n.c))
	case nInput:
		if s.bools[n.name] {
			return s.bvar("wire " + n.name)
		}
		return s.poly(u.V("wire " + n.name))
	case nAdd:
		return s.bin("add", n, u.Add)
	case nSub:
		return s.bin("sub", n, u.Sub)
	case nMul, nAnd:
		return s.bin("mul", n, u.Mul)
	case nOr:
		return s.bin("or", n, func(a, b *Poly) *Poly { return u.Sub(u.Add(a, b), u.Mul(a, b)) })
	case nXor:
		return s.bin("xor", n, func(a, b *Poly) *Poly { return u.Sub(u.Add(a, b), u.ScaleInt(u.Mul(a, b), 2)) })
	case nNeg:
		return s.apply("neg", []*dd{s.node(n.arg[0])}, func(t []*dd) *dd { return s.poly(u.Neg(t[0].p)) })
	case nSelect:
		return s.sel(s.cond(n.arg[0]), s.node(n.arg[1]), s.node(n.arg[2]))
	case nIsZero:
		return s.apply("zero", []*dd{s.node(n.arg[0])}, func(t []*dd) *dd {
			if k, ok := t[0].p.IsConst(); ok {
				if k.Sign() == 0 {
					return s.poly(u.one)
				}
				return s.poly(u.zero)
			}
			p := t[0].p
			if q := u.Neg(p); q.Key() < p.Key() {
				p = q
			}
			return s.bvar("zero " + p.Key())
		})
	case nHint:
		k := fmt.Sprintf("hint %d %d", n.idx, len(n.hint.out))
		if n.hint.fn != nil {
			k += n.hint.fn.String()
		}
		for _, m := range n.hint.in {
			k += fmt.Sprintf(",%d", s.node(m).id)
		}
		if n.hint.fn == nil && len(n.hint.in) == 1 && s.p.in.g.bools[n] {
			return s.bvar(k)
		}
		return s.poly(u.V(k))
	case nCmp:
		t := n.ft
		if t.op == "IsPositive" {
			return s.positive(s.node(t.wire[0]), t.n)
		}
		op, arg := order(t)
		k := op
		for _, a := range arg {
			k += fmt.Sprintf(",%d", s.tuple(a).id)
		}
		return s.bvar(k)
	case nFloat:
		t := s.term(n.ft)
		switch n.idx {
		case 0, 3:
			k, c := s.flag(t, n.idx)
			if c >= 0 {
				return s.poly(u.Int(int64(c)))
			}
			s.flags[k] = u.Var(k)
			return s.poly(u.V(k))
		}
		return s.poly(u.V(fmt.Sprintf("%d of float %d", n.idx, t.id)))
	}
	panic(undecided("wire built at " + s.p.w.Pos(n.pos)))
}

// cond is the diagram of a condition: the flags it is made of become decisions.
func (s *side) cond(n *Node) *dd {
	switch n.op {
	case nFloat:
		if n.idx == 0 || n.idx == 3 {
			if k, c := s.flag(s.term(n.ft), n.idx); c < 0 {
				s.flags[k] = s.u.Var(k)
				return s.bvar(k)
			}
		}
	case nAnd:
		return s.apply("mul", []*dd{s.cond(n.arg[0]), s.cond(n.arg[1])}, func(t []*dd) *dd { return s.poly(s.u.Mul(t[0].p, t[1].p)) })
	case nOr:
		return s.not(s.apply("mul", []*dd{s.not(s.cond(n.arg[0])), s.not(s.cond(n.arg[1]))}, func(t []*dd) *dd { return s.poly(s.u.Mul(t[0].p, t[1].p)) }))
	case nXor:
		b := s.cond(n.arg[1])
		return s.sel(s.cond(n.arg[0]), s.not(b), b)
	case nSelect:
		return s.sel(s.cond(n.arg[0]), s.cond(n.arg[1]), s.cond(n.arg[2]))
	}
	return s.decide(s.node(n))
}

// decide turns the flags in a diagram's values into decisions.
func (c *canon) decide(d *dd) *dd {
	fs := c.flagsIn(d)
	var ks []string
	for k := range fs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		d = c.sel(c.bvar(k), c.subst(d, fs[k], c.u.one), c.subst(d, fs[k], c.u.zero))
	}
	return d
}

func (c *canon) flagsIn(d *dd) map[string]*Atom {
	out := map[string]*Atom{}
	seen := map[*dd]bool{}
	var walk func(d *dd)
	walk = func(d *dd) {
		if seen[d] {
			return
		}
		seen[d] = true
		if d.v != nil {
			walk(d.lo)
			walk(d.hi)
			return
		}
		ps := []*Poly{d.p}
		if d.f != nil {
			ps = []*Poly{d.f.s, d.f.a}
		}
		for _, p := range ps {
			for _, at := range polyAtoms(p) {
				if c.flags[at.name] == at {
					out[at.name] = at
				}
			}
		}
	}
	walk(d)
	return out
}

func (c *canon) subst(d *dd, at *Atom, v *Poly) *dd {
	put := func(p *Poly) *Poly {
		out := c.u.zero
		for _, t := range p.t {
			q := c.u.constRat(t.c)
			for _, f := range t.m.f {
				x := c.u.Atom(f.a)
				if f.a == at {
					x = v
				}
				for i := 0; i < int(f.pow); i++ {
					q = c.u.Mul(q, x)
				}
			}
			out = c.u.Add(out, q)
		}
		return out
	}
	return c.apply(fmt.Sprintf("put %s %s", at.name, v.Key()), []*dd{d}, func(t []*dd) *dd {
		if t[0].p != nil {
			return c.poly(put(t[0].p))
		}
		f := *t[0].f
		f.s, f.a = put(f.s), put(f.a)
		f.key = f.base + " | " + f.s.Key() + " | " + f.a.Key()
		return c.flt(&f)
	})
}

// flag is the sign or abnormal bit of a float.
func (s *side) flag(t *cTerm, idx int) (string, int) {
	k := fmt.Sprintf("flag %d of float %d", idx, t.id)
	if idx == 0 {
		return k, t.sign
	}
	if t.normal {
		return k, 0
	}
	return k, -1
}

func (s *side) positive(d *dd, n int64) *dd {
	u := s.u
	leaf := func(k string, p *Poly) *dd {
		v := s.variable(k)
		v.p, v.pol = p, true
		return s.ite(v, s.poly(u.one), s.poly(u.zero))
	}
	if !s.deep && d.v != nil {
		return leaf(fmt.Sprintf("positive %d bits %d", n, d.id), nil)
	}
	return s.apply(fmt.Sprintf("positive%d", n), []*dd{d}, func(t []*dd) *dd {
		p := t[0].p
		if k, ok := p.IsConst(); ok {
			if k.Sign() >= 0 {
				return s.poly(u.one)
			}
			return s.poly(u.zero)
		}
		// p >= 0 is the opposite of -p-1 >= 0
		q := u.Sub(u.Neg(p), u.one)
		if lead(q) > lead(p) {
			return s.not(leaf(fmt.Sprintf("positive %d bits ", n)+q.Key(), q))
		}
		return leaf(fmt.Sprintf("positive %d bits ", n)+p.Key(), p)
	})
}

// lead is the sign of the coefficient of the first monomial by name.
func lead(p *Poly) int {
	best, s := "", 0
	for _, t := range p.t {
		if t.m != monoOne && (best == "" || t.m.key < best) {
			best, s = t.m.key, t.c.Sign()
		}
	}
	return s
}

// tuple is the diagram of a float variable.
func (s *side) tuple(a [4]*Node) *dd {
	if d, ok := s.tm[a]; ok {
		return d
	}
	ds := []*dd{s.node(a[0]), s.node(a[1]), s.node(a[2]), s.node(a[3])}
	// constants of the two precisions have different components
	d := s.apply(fmt.Sprintf("tuple%d", s.p.f.M), ds, func(t []*dd) *dd {
		f := &cFloat{s: t[0].p, a: t[3].p}
		e, okE := t[1].p.ConstInt()
		m, okM := t[2].p.ConstInt()
		if okE && okM {
			v := new(big.Rat)
			if m.Sign() != 0 {
				v.Mul(new(big.Rat).SetInt(m), pow2Rat(e.Int64()-int64(s.p.f.M)))
			}
			f.c = v
			f.cid = s.constant(v)
			f.key = fmt.Sprintf("const %d", f.cid)
		} else if x := s.termOf(t[1].p, t[2].p); x != nil {
			f.t = x
			f.key = fmt.Sprintf("term %d", x.id)
		} else {
			copy(f.raw[:], []*Poly{t[0].p, t[1].p, t[2].p, t[3].p})
			f.key = "raw " + t[1].p.Key() + " | " + t[2].p.Key()
		}
		f.base = f.key
		f.key += " | " + f.s.Key() + " | " + f.a.Key()
		return s.flt(f)
	})
	s.tm[a] = d
	return d
}

func (s *side) termOf(e, m *Poly) *cTerm {
	if t := s.byExp[e.Key()]; t != nil && m.Key() == s.u.V(fmt.Sprintf("2 of float %d", t.id)).Key() {
		return t
	}
	return nil
}

// constant numbers magnitudes; the single-precision pipeline finds the corresponding double-precision constant.
func (s *side) constant(v *big.Rat) int {
	s.cons++
	best := -1
	var bd *big.Rat
	for i, r := range s.consts {
		same := v.Cmp(r) == 0
		switch {
		case same:
		case s.p.f.M < 52:
			same = closeConst(v, r)
		default:
			// two that single precision cannot tell apart share a representative
			d := new(big.Rat).Sub(v, r)
			same = d.Abs(d).Cmp(new(big.Rat).Mul(r, pow2Rat(-27))) <= 0
		}
		if same {
			d := new(big.Rat).Sub(v, r)
			d.Abs(d)
			if best < 0 || d.Cmp(bd) < 0 {
				best, bd = i, d
			}
		}
	}
	if best < 0 {
		s.consts = append(s.consts, v)
		best = len(s.consts) - 1
	}
	return best
}

func (s *side) term(t *FTerm) *cTerm {
	if x, ok := s.fm[t]; ok {
		return x
	}
	k := fmt.Sprintf("%s#%d", t.op, t.n)
	var as []*dd
	for _, a := range t.arg {
		as = append(as, s.tuple(a))
	}
	ids := make([]string, len(as))
	for i, d := range as {
		ids[i] = fmt.Sprint(d.id)
	}
	if t.op == "Add" || t.op == "Mul" {
		sort.Strings(ids)
	}
	if t.op == "Mul" && as[0] == as[1] && as[0].f != nil && as[0].f.t != nil {
		// the square of a difference does not depend on its direction
		if d := as[0].f.t; d.key[:4] == "Sub#" {
			as := strings.Split(strings.Trim(d.key[strings.IndexByte(d.key, '('):], "()"), ",")
			sort.Strings(as)
			ids = []string{"difference", as[0], as[1]}
		}
	}
	k += "(" + strings.Join(ids, ",") + ")"
	for _, w := range t.wire {
		k += fmt.Sprintf(" w%d", s.node(w).id)
	}
	x, ok := s.terms[k]
	if !ok {
		x = &cTerm{id: len(s.terms), key: k, sign: -1}
		s.bound(x, t.op, as)
		s.terms[k] = x
		s.byExp[s.u.V(fmt.Sprintf("1 of float %d", x.id)).Key()] = x
	}
	s.fm[t] = x
	return x
}

// bound records what the operands' constants say about a result.
func (s *side) bound(x *cTerm, op string, as []*dd) {
	if op != "Mul" && op != "Add" && op != "Div" || len(as) != 2 {
		return
	}
	var lo, hi [2]*big.Rat
	var sg [2]int
	for i, d := range as {
		sg[i] = -2
		ok := true
		seen := map[*dd]bool{}
		var walk func(d *dd)
		walk = func(d *dd) {
			if seen[d] || !ok {
				return
			}
			seen[d] = true
			if d.v != nil {
				walk(d.lo)
				walk(d.hi)
				return
			}
			l, h := d.f.c, d.f.c
			if d.f.t != nil && d.f.t.normal {
				l, h = d.f.t.lo, d.f.t.hi
			}
			k, isC := d.f.s.ConstInt()
			if l == nil || l.Sign() <= 0 || !isC || !d.f.a.IsZero() || sg[i] >= 0 && int64(sg[i]) != k.Int64() {
				ok = false
				return
			}
			sg[i] = int(k.Int64())
			if lo[i] == nil || l.Cmp(lo[i]) < 0 {
				lo[i] = l
			}
			if hi[i] == nil || h.Cmp(hi[i]) > 0 {
				hi[i] = h
			}
		}
		walk(d)
		if !ok {
			return
		}
	}
	var l, h *big.Rat
	switch op {
	case "Mul":
		l, h = new(big.Rat).Mul(lo[0], lo[1]), new(big.Rat).Mul(hi[0], hi[1])
		x.sign = sg[0] ^ sg[1]
	case "Div":
		l, h = new(big.Rat).Quo(lo[0], hi[1]), new(big.Rat).Quo(hi[0], lo[1])
		x.sign = sg[0] ^ sg[1]
	case "Add":
		if sg[0] != sg[1] {
			return
		}
		l, h = new(big.Rat).Add(lo[0], lo[1]), new(big.Rat).Add(hi[0], hi[1])
		x.sign = sg[0]
	}
	l.Mul(l, new(big.Rat).Sub(ratOne, pow2Rat(-20)))
	h.Mul(h, new(big.Rat).Add(ratOne, pow2Rat(-20)))
	x.lo, x.hi = l, h
	x.normal = l.Cmp(pow2Rat(-120)) > 0 && h.Cmp(pow2Rat(120)) < 0
}

// conditions finds the operands used as conditions.
func (c *canon) conditions(p *pipe) {
	var mark func(n *Node)
	mark = func(n *Node) {
		switch n.op {
		case nInput:
			c.bools[n.name] = true
		case nAnd, nOr, nXor:
			mark(n.arg[0])
			mark(n.arg[1])
		}
	}
	for _, n := range p.in.g.nodes {
		switch n.op {
		case nSelect, nAnd, nOr, nXor:
			mark(n)
			if n.op == nSelect {
				mark(n.arg[0])
			}
		}
	}
}

// equal compares two diagrams; differing terminals count only where the decisions leading to them can hold together.
func (c *canon) equal(a, b *dd) (string, bool) {
	if a == b {
		return "", true
	}
	e := &real{u: c.u}
	why := ""
	n := 0
	seen := map[[2]int]bool{}
	var walk func(a, b *dd, fs []rfact) bool
	walk = func(a, b *dd, fs []rfact) bool {
		if a == b || seen[[2]int{a.id, b.id}] && len(fs) == 0 {
			return true
		}
		if len(fs) == 0 {
			seen[[2]int{a.id, b.id}] = true
		}
		n++
		if n > 200000 {
			panic(undecided("comparison too large"))
		}
		v := top([]*dd{a, b})
		if v == nil {
			if a.p != nil && b.p != nil {
				d := c.u.Sub(a.p, b.p)
				e.facts = fs
				e.isInt = map[*Atom]bool{}
				for _, f := range fs {
					for _, at := range polyAtoms(f.p) {
						e.isInt[at] = true
					}
				}
				for _, at := range polyAtoms(d) {
					e.isInt[at] = true
				}
				if !e.feasible(rfact{d, relGt}) && !e.feasible(rfact{c.u.Neg(d), relGt}) {
					return true
				}
				why = fmt.Sprintf("%s corresponds to %s", c.u.Str(a.p), c.u.Str(b.p))
				return false
			}
			why = fmt.Sprintf("%s corresponds to %s", c.show(a), c.show(b))
			return false
		}
		for _, on := range []bool{true, false} {
			x, y := a, b
			if a.v == v {
				x = a.lo
				if on {
					x = a.hi
				}
			}
			if b.v == v {
				y = b.lo
				if on {
					y = b.hi
				}
			}
			g := fs
			if v.pol && v.p != nil {
				f := rfact{v.p, relGe}
				if !on {
					f = rfact{c.u.Neg(v.p), relGt}
				}
				g = append(append([]rfact{}, fs...), f)
			}
			if !walk(x, y, g) {
				return false
			}
		}
		return true
	}
	ok := walk(a, b, nil)
	return why, ok
}

func polyAtoms(p *Poly) (out []*Atom) {
	m := map[*Atom]bool{}
	p.atoms(m)
	for a := range m {
		out = append(out, a)
	}
	return
}

func (c *canon) show(d *dd) string {
	switch {
	case d.p != nil:
		return c.u.Str(d.p)
	case d.f == nil:
		return "?"
	case d.f.c != nil:
		x, _ := d.f.c.Float64()
		return fmt.Sprintf("the constant %v", x)
	case d.f.t != nil:
		return "the result of " + d.f.t.key[:strings.IndexByte(d.f.t.key, '#')]
	}
	return "a mixture of values"
}

// sameResult compares one result of two pipelines in canonical form.
func sameResult(c *canon, a, b *side, ta, tb *[4]*Node, na, nb *Node) (why string, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if u, is := x.(undecidedErr); is {
				why, ok = "not decided: "+u.msg, false
				return
			}
			panic(x)
		}
	}()
	if ta != nil {
		y := b.tuple(*tb) // double precision first: its constants are the representatives
		x := a.tuple(*ta)
		return c.equal(c.known(x), c.known(y))
	}
	y := b.node(nb)
	x := a.node(na)
	return c.equal(c.known(x), c.known(y))
}

// known decides the flags that are decisions already.
func (c *canon) known(d *dd) *dd {
	fs := c.flagsIn(d)
	var ks []string
	for k := range fs {
		if c.vars[k] != nil {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		d = c.sel(c.bvar(k), c.subst(d, fs[k], c.u.one), c.subst(d, fs[k], c.u.zero))
	}
	return d
}
