package main

// Float pipelines: the operations of float.Context and the comparisons of gadget.IntGadget are uninterpreted terms, the
// code that combines them is partially evaluated. The result is a graph over such terms and plain circuit wires.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pipe struct {
	in    *Interp
	w     *World
	f     Fmt
	ctx   *Cell
	memo  map[string]*FTerm
	terms []*FTerm
	touch map[string]bool
	hints bool
}

// floatOps: operands that are floats, and whether the result is a float, a boolean or an integer.
var floatOps = map[string]struct {
	n   int
	res byte
}{
	"Add": {2, 'f'}, "Sub": {2, 'f'}, "Mul": {2, 'f'}, "Div": {2, 'f'}, "Sqrt": {1, 'f'},
	"Trunc": {1, 'f'}, "Floor": {1, 'f'}, "Ceil": {1, 'f'}, "ToInt": {1, 'i'},
	"IsLt": {2, 'b'}, "IsLe": {2, 'b'}, "IsGt": {2, 'b'}, "IsGe": {2, 'b'},
}

func recvNamed(fn *ssa.Function) (pkg, typ string) {
	rv := fn.Signature.Recv()
	if rv == nil {
		return "", ""
	}
	n, ok := types.Unalias(bareType(rv.Type())).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return "", ""
	}
	return n.Obj().Pkg().Path(), n.Obj().Name()
}

func (p *pipe) term(op string, arg [][4]*Node, wires []*Node, n int64) *FTerm {
	k := op
	for _, a := range arg {
		for _, c := range a {
			k += fmt.Sprintf(",%d", c.id)
		}
		k += ";"
	}
	for _, c := range wires {
		k += fmt.Sprintf(",%d", c.id)
	}
	k += fmt.Sprintf("#%d", n)
	if t, ok := p.memo[k]; ok {
		return t
	}
	t := &FTerm{op: op, arg: arg, wire: wires, n: n, id: len(p.terms), pos: p.in.curPos()}
	p.memo[k] = t
	p.terms = append(p.terms, t)
	return t
}

func (p *pipe) floatVal(t *FTerm) Value {
	ft := p.in.w.named("float", "FloatVar")
	st := ft.Underlying().(*types.Struct)
	if t.comp[0] == nil {
		for i := range t.comp {
			t.comp[i] = p.in.g.add(&Node{op: nFloat, ft: t, idx: i})
		}
		p.in.g.bools[t.comp[0]] = true
		p.in.g.bools[t.comp[3]] = true
	}
	s := &StructV{t: ft, f: make([]Value, st.NumFields())}
	for i := range s.f {
		ok := false
		for j, n := range floatFields {
			if st.Field(i).Name() == n {
				s.f[i], ok = wire(t.comp[j]), true
			}
		}
		if !ok {
			panic(undecided("FloatVar has an unknown field " + st.Field(i).Name()))
		}
	}
	return s
}

func (p *pipe) floatArg(v Value) (a [4]*Node) {
	if c, ok := v.(*Cell); ok && c != nil {
		v = c.load()
	}
	copy(a[:], p.in.floatComps(v))
	return
}

func (p *pipe) hook(in *Interp, fn *ssa.Function, args []Value) (Value, bool) {
	pkg, typ := recvNamed(fn)
	switch {
	case pkg == p.w.mod+"/float" && typ == "Context":
		o, ok := floatOps[fn.Name()]
		if !ok {
			return nil, false
		}
		if len(args) != o.n+1 {
			panic(undecided("operands of Context." + fn.Name()))
		}
		var a [][4]*Node
		for _, x := range args[1:] {
			a = append(a, p.floatArg(x))
		}
		t := p.term(fn.Name(), a, nil, 0)
		switch o.res {
		case 'f':
			return p.floatVal(t), true
		}
		if t.out == nil {
			op := nCmp
			if o.res == 'i' {
				op = nFloat
			}
			t.out = in.g.add(&Node{op: op, ft: t, idx: 4})
			if op == nCmp {
				in.g.bools[t.out] = true
			}
		}
		return wire(t.out), true
	case pkg == p.w.mod+"/gadget" && typ == "IntGadget" && (fn.Name() == "IsPositive" || fn.Name() == "Abs"):
		v := in.node(args[1])
		t := p.term("IsPositive", nil, []*Node{v}, int64(toInt(args[2])))
		if t.out == nil {
			t.out = in.g.add(&Node{op: nCmp, ft: t})
			in.g.bools[t.out] = true
		}
		if fn.Name() == "IsPositive" {
			return wire(t.out), true
		}
		return Tuple{wire(in.g.gSelect(t.out, v, in.g.gNeg(v))), wire(t.out)}, true
	}
	return nil, false
}

// input makes an unknown float variable.
func (p *pipe) input(name string) Value {
	return p.floatVal(p.term("input "+name, nil, nil, 0))
}

func (p *pipe) wireIn(name string) *Node { return p.in.g.Input(name) }

// pipeline partially evaluates body for one format.
func (w *World) pipeline(f Fmt, body func(p *pipe)) (p *pipe, err error) {
	in := newInterp(w)
	in.g = newGraph(in, "R1CS")
	p = &pipe{in: in, w: w, f: f, memo: map[string]*FTerm{}}
	defer func() {
		if x := recover(); x != nil {
			switch e := x.(type) {
			case undecidedErr:
				err = fmt.Errorf("cannot interpret circuit construction: %s [%s]", e.msg, in.where())
			case goPanic:
				err = fmt.Errorf("circuit construction panics: %v [%s]", panicMsg(e), in.where())
			case blocked:
				err = fmt.Errorf("unexpected symbolic branch [%s]", in.where())
			default:
				panic(x)
			}
		}
	}()
	for _, q := range w.main {
		in.initPkg(w.prog.Package(q.Types))
	}
	p.ctx = in.newContext(Iface{apiT, &APIObj{"api"}}, 0, uint64(f.E), uint64(f.M))
	in.hook = p.hook
	in.touched = map[string]bool{}
	body(p)
	p.touch = in.touched
	for _, c := range in.g.cons {
		// the pipelines assert nothing themselves except through bit decompositions
		if c.kind != cBool && c.kind != cMark && !isDecomp(in.g, c) {
			return p, fmt.Errorf("asserts something of its own at %s", w.Pos(c.pos))
		}
	}
	return p, nil
}

func isDecomp(g *Graph, c *Constraint) bool {
	if c.kind != cEq {
		return false
	}
	for _, h := range g.hints {
		if h.fn == nil && len(h.in) == 1 && (h.in[0] == c.a || h.in[0] == c.b) {
			return true
		}
	}
	return false
}

// ---------- exact real semantics ----------

// RF is a quotient of polynomials.
type RF struct{ n, d *Poly }

type rel byte // of an expression against zero

const (
	relGt rel = '>'
	relGe rel = 'g'
	relEq rel = '='
)

type rfact struct {
	p *Poly
	r rel
}

// real evaluates terms in exact arithmetic along one path of decided comparisons.
type real struct {
	p     *pipe
	u     *U
	facts []rfact // assumptions, then decisions
	base  int
	bits  map[*Node]bool   // decided boolean inputs
	ints  map[*Node]*Poly  // values of input wires
	isInt map[*Atom]bool   // atoms that are integers
	pos   map[*Atom]bool   // atoms that are positive
	sqrt  map[*Atom]RF     // square roots
	mags  map[string]*Poly // magnitude of input floats
	vals  map[string]*Poly // value of input floats
	val   map[*FTerm]RF    // memo
	sign  map[string]bool  // sign bits of zeros, undecided booleans
	trail []bool           // choices
	step  int
	need  func(e *real, what string, v *Poly, n int64) // width obligation of a comparison
	fail  string
}

type realRun struct {
	p     *pipe
	limit int
	setup func(e *real)
	leaf  func(e *real)
}

type prune struct{}

// run enumerates the feasible paths.
func (rr *realRun) run() (paths int) {
	var trail []bool
	for {
		e := &real{p: rr.p, u: newU(), bits: map[*Node]bool{}, ints: map[*Node]*Poly{}, isInt: map[*Atom]bool{}, pos: map[*Atom]bool{},
			sqrt: map[*Atom]RF{}, mags: map[string]*Poly{}, vals: map[string]*Poly{}, val: map[*FTerm]RF{}, sign: map[string]bool{}, trail: trail}
		rr.setup(e)
		e.base = len(e.facts)
		dead := false
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(prune); ok {
						dead = true
						return
					}
					panic(x)
				}
			}()
			rr.leaf(e)
		}()
		if !dead {
			paths++
		}
		if paths > rr.limit {
			panic(undecided(fmt.Sprintf("more than %d paths", rr.limit)))
		}
		trail = e.trail[:e.step]
		for len(trail) > 0 && trail[len(trail)-1] {
			trail = trail[:len(trail)-1]
		}
		if len(trail) == 0 {
			return
		}
		trail = append([]bool{}, trail...)
		trail[len(trail)-1] = true
	}
}

// fork returns false first, then true.
func (e *real) fork() bool {
	if e.step == len(e.trail) {
		e.trail = append(e.trail, false)
	}
	e.step++
	return e.trail[e.step-1]
}

func (e *real) rat(r *big.Rat) RF { return RF{e.u.constRat(r), e.u.one} }
func (e *real) poly(p *Poly) RF   { return RF{p, e.u.one} }
func (e *real) norm(a RF) RF {
	if c, ok := a.d.IsConst(); ok {
		if c.Sign() == 0 {
			panic(undecided("division by zero"))
		}
		return RF{e.u.Scale(a.n, new(big.Rat).Inv(c)), e.u.one}
	}
	if a.n.IsZero() {
		return RF{a.n, e.u.one}
	}
	return a
}
func (e *real) add(a, b RF) RF {
	if a.d.Eq(b.d) {
		return e.norm(RF{e.u.Add(a.n, b.n), a.d})
	}
	return e.norm(RF{e.u.Add(e.u.Mul(a.n, b.d), e.u.Mul(b.n, a.d)), e.u.Mul(a.d, b.d)})
}
func (e *real) neg(a RF) RF    { return RF{e.u.Neg(a.n), a.d} }
func (e *real) sub(a, b RF) RF { return e.add(a, e.neg(b)) }
func (e *real) mul(a, b RF) RF {
	return e.norm(RF{e.reduce(e.u.Mul(a.n, b.n)), e.reduce(e.u.Mul(a.d, b.d))})
}
func (e *real) div(a, b RF) RF {
	return e.norm(RF{e.reduce(e.u.Mul(a.n, b.d)), e.reduce(e.u.Mul(a.d, b.n))})
}

// equal decides equality as functions (wherever both are defined).
func (e *real) equal(a, b RF) bool {
	return e.reduce(e.u.Sub(e.u.Mul(a.n, b.d), e.u.Mul(b.n, a.d))).IsZero()
}

// reduce replaces even powers of square roots by their arguments.
func (e *real) reduce(p *Poly) *Poly {
	if len(e.sqrt) == 0 {
		return p
	}
	for again := true; again; {
		again = false
		out := e.u.zero
		for _, t := range p.t {
			q := e.u.constRat(t.c)
			for _, f := range t.m.f {
				n := f.pow
				if r, ok := e.sqrt[f.a]; ok && n >= 2 {
					if c, isC := r.d.IsConst(); isC && c.Cmp(ratOne) == 0 {
						q = e.u.Mul(q, r.n)
						n -= 2
						again = true
					}
				}
				for ; n > 0; n-- {
					q = e.u.Mul(q, e.u.Atom(f.a))
				}
			}
			out = e.u.Add(out, q)
		}
		p = out
	}
	return p
}

// assume adds an assumption on the inputs.
func (e *real) assume(p *Poly, r rel) { e.facts = append(e.facts, rfact{p, r}) }

func (e *real) intPoly(p *Poly) bool {
	for _, t := range p.t {
		if !t.c.IsInt() {
			return false
		}
		for _, f := range t.m.f {
			if !e.isInt[f.a] {
				return false
			}
		}
	}
	return true
}

// feasible decides whether the facts and the given one can hold together (monomials are independent unknowns).
func (e *real) feasible(f rfact) bool {
	// variables: monomials; maximise t <= 1 subject to p >= 0, p >= t for the strict ones
	idx := map[string]int{}
	var rows []rfact
	for _, x := range append(append([]rfact{}, e.facts...), f) {
		switch {
		case x.r == relEq:
			rows = append(rows, rfact{x.p, relGe}, rfact{e.u.Neg(x.p), relGe})
		case x.r == relGt && e.intPoly(x.p):
			rows = append(rows, rfact{e.u.Sub(x.p, e.u.one), relGe})
		default:
			rows = append(rows, x)
		}
	}
	for _, x := range rows {
		for _, t := range x.p.t {
			if t.m != monoOne {
				if _, ok := idx[t.m.key]; !ok {
					idx[t.m.key] = len(idx)
				}
			}
		}
	}
	// each unknown is y+ - y-, the last column is t
	n := 2*len(idx) + 1
	var A [][]*big.Rat
	var B []*big.Rat
	for _, x := range rows {
		row := make([]*big.Rat, n)
		b := new(big.Rat)
		for _, t := range x.p.t {
			if t.m == monoOne {
				b = t.c
				continue
			}
			j := idx[t.m.key]
			row[2*j] = t.c
			row[2*j+1] = new(big.Rat).Neg(t.c)
		}
		if x.r == relGt {
			row[n-1] = ratMinusOne
		}
		A = append(A, row)
		B = append(B, b)
	}
	row := make([]*big.Rat, n)
	row[n-1] = ratMinusOne
	A = append(A, row)
	B = append(B, ratOne)
	obj := make([]*big.Rat, n)
	obj[n-1] = ratMinusOne
	v, inf, bounded := simplex(A, B, obj, n)
	if inf {
		return false
	}
	if !bounded || v == nil {
		return true
	}
	return v.Sign() < 0
}

// holds decides p rel 0, following both answers when the facts allow both.
func (e *real) holds(p *Poly, r rel) bool {
	if c, ok := p.IsConst(); ok {
		switch r {
		case relGt:
			return c.Sign() > 0
		case relGe:
			return c.Sign() >= 0
		}
		return c.Sign() == 0
	}
	if r == relEq {
		if e.holds(p, relGt) || e.holds(e.u.Neg(p), relGt) {
			return false
		}
		return true
	}
	yes := rfact{p, r}
	no := rfact{e.u.Neg(p), relGe}
	if r == relGe {
		no.r = relGt
	}
	fy, fn := e.feasible(yes), e.feasible(no)
	switch {
	case fy && !fn:
		return true
	case fn && !fy:
		return false
	case !fy && !fn:
		panic(prune{})
	}
	if e.fork() {
		e.facts = append(e.facts, no)
		return false
	}
	e.facts = append(e.facts, yes)
	return true
}

func (e *real) positive(p *Poly) bool {
	if c, ok := p.IsConst(); ok {
		return c.Sign() > 0
	}
	if len(p.t) == 0 {
		return false
	}
	for _, t := range p.t {
		if t.c.Sign() < 0 {
			return false
		}
		for _, f := range t.m.f {
			if !e.pos[f.a] {
				return false
			}
		}
	}
	return true
}

// cond decides a rel 0.
func (e *real) cond(a RF, r rel) bool {
	if e.positive(a.d) {
		return e.holds(a.n, r)
	}
	if e.holds(a.d, relGt) {
		return e.holds(a.n, r)
	}
	if !e.holds(e.u.Neg(a.d), relGt) {
		panic(prune{}) // division by zero: not a number
	}
	return e.holds(e.u.Neg(a.n), r)
}

// resolve follows decided selections.
func (e *real) resolve(n *Node) *Node {
	for n.op == nSelect {
		if e.bit(n.arg[0]) {
			n = n.arg[1]
		} else {
			n = n.arg[2]
		}
	}
	return n
}

func (e *real) choice(key string) bool {
	v, ok := e.sign[key]
	if !ok {
		v = e.fork()
		e.sign[key] = v
	}
	return v
}

// bit decides a boolean wire.
func (e *real) bit(n *Node) bool {
	n = e.resolve(n)
	switch n.op {
	case nConst:
		if n.c.Sign() == 0 {
			return false
		}
		if n.c.IsInt64() && n.c.Int64() == 1 {
			return true
		}
		panic(undecided("a selection on the constant " + n.c.String()))
	case nInput:
		if v, ok := e.ints[n]; ok {
			if c, isC := v.ConstInt(); isC && c.IsInt64() && (c.Int64() == 0 || c.Int64() == 1) {
				return c.Int64() == 1
			}
		}
		return e.choice(fmt.Sprintf("wire %d", n.id))
	case nHint:
		p := e.int(n)
		c, ok := p.ConstInt()
		if !ok {
			panic(undecided("advice bit"))
		}
		return c.Sign() != 0
	case nAnd:
		return e.bit(n.arg[0]) && e.bit(n.arg[1])
	case nOr:
		return e.bit(n.arg[0]) || e.bit(n.arg[1])
	case nXor:
		a, b := e.bit(n.arg[0]), e.bit(n.arg[1])
		return a != b
	case nIsZero:
		return e.holds(e.int(n.arg[0]), relEq)
	case nCmp:
		t := n.ft
		if t.op == "IsPositive" {
			v := e.int(t.wire[0])
			if e.need != nil {
				e.need(e, e.p.w.Pos(t.pos), v, t.n)
			}
			return e.holds(v, relGe)
		}
		a, b := e.float(t.arg[0]), e.float(t.arg[1])
		switch t.op {
		case "IsGt":
			return e.cond(e.sub(a, b), relGt)
		case "IsGe":
			return e.cond(e.sub(a, b), relGe)
		case "IsLt":
			return e.cond(e.sub(b, a), relGt)
		case "IsLe":
			return e.cond(e.sub(b, a), relGe)
		}
	case nFloat:
		switch n.idx {
		case 0:
			return e.negative(n.ft)
		case 3:
			return false // operands and results are finite
		}
	case nSub, nAdd, nMul, nNeg:
		c, ok := e.int(n).ConstInt()
		if !ok || !c.IsInt64() || c.Int64() < 0 || c.Int64() > 1 {
			panic(undecided("a selection on a value that is not boolean"))
		}
		return c.Int64() == 1
	}
	panic(undecided("boolean wire"))
}

// negative decides the sign bit of a term.
func (e *real) negative(t *FTerm) bool {
	if name, ok := strings.CutPrefix(t.op, "input "); ok && e.vals[name] == nil {
		return e.choice(t.op)
	}
	v := e.value(t)
	if e.cond(v, relGt) {
		return false
	}
	if e.cond(e.neg(v), relGt) {
		return true
	}
	return e.choice(fmt.Sprintf("zero %d", t.id))
}

// int is the value of an integer wire.
func (e *real) int(n *Node) *Poly {
	n = e.resolve(n)
	u := e.u
	switch n.op {
	case nConst:
		return u.Const(n.c)
	case nAdd:
		return u.Add(e.int(n.arg[0]), e.int(n.arg[1]))
	case nSub:
		return u.Sub(e.int(n.arg[0]), e.int(n.arg[1]))
	case nNeg:
		return u.Neg(e.int(n.arg[0]))
	case nMul:
		return u.Mul(e.int(n.arg[0]), e.int(n.arg[1]))
	case nInput:
		if v, ok := e.ints[n]; ok {
			return v
		}
		if e.p.in.g.bools[n] {
			if e.bit(n) {
				return u.one
			}
			return u.zero
		}
	case nCmp, nIsZero, nAnd, nOr, nXor:
		if e.bit(n) {
			return u.one
		}
		return u.zero
	case nHint:
		if n.hint.fn == nil && len(n.hint.in) == 1 {
			if c, ok := e.int(n.hint.in[0]).ConstInt(); ok && c.Sign() >= 0 && c.BitLen() <= len(n.hint.out) {
				return u.Int(int64(c.Bit(n.idx)))
			}
		}
	case nFloat:
		switch n.idx {
		case 0, 3:
			if e.bit(n) {
				return u.one
			}
			return u.zero
		case 4:
			v := e.float(n.ft.arg[0])
			if c, ok := v.d.IsConst(); ok && c.Cmp(ratOne) == 0 && e.intPoly(v.n) {
				return v.n
			}
			panic(undecided("ToInt of a value that is not known to be an integer at " + e.p.w.Pos(n.ft.pos)))
		}
	}
	panic(undecided("integer wire"))
}

// raw splits a float variable into its sign bit and the magnitude it selects: a constant or a term.
func (e *real) raw(a [4]*Node) (sign *Node, c *big.Rat, t *FTerm) {
	x, m := e.resolve(a[1]), e.resolve(a[2])
	sign = e.resolve(a[0])
	if e.bit(a[3]) {
		panic(undecided("abnormal constant"))
	}
	switch {
	case m.op == nConst && m.c.Sign() == 0:
		return sign, new(big.Rat), nil
	case m.op == nConst && x.op == nConst:
		if !x.c.IsInt64() {
			panic(undecided("constant exponent"))
		}
		return sign, new(big.Rat).Mul(new(big.Rat).SetInt(m.c), pow2Rat(x.c.Int64()-int64(e.p.f.M))), nil
	case m.op == nFloat && x.op == nFloat && m.ft == x.ft && m.idx == 2 && x.idx == 1:
		return sign, nil, m.ft
	}
	panic(undecided("exponent and mantissa come from different numbers"))
}

func (e *real) mag(name string) *Poly {
	if p, ok := e.mags[name]; ok {
		return p
	}
	panic(undecided("no magnitude for input " + name))
}

// ownSign recognises the sign bit of t and its complement, which need no decision.
func (e *real) ownSign(s *Node, t *FTerm) (flip, ok bool) {
	s = e.resolve(s)
	one := func(n *Node) bool { return n.op == nConst && n.c.IsInt64() && n.c.Int64() == 1 }
	switch {
	case s.op == nFloat && s.ft == t && s.idx == 0:
		return false, true
	case (s.op == nSub || s.op == nXor) && one(e.resolve(s.arg[0])):
		flip, ok = e.ownSign(s.arg[1], t)
		return !flip, ok
	case s.op == nXor && one(e.resolve(s.arg[1])):
		flip, ok = e.ownSign(s.arg[0], t)
		return !flip, ok
	}
	return false, false
}

// float is the value of a float variable.
func (e *real) float(a [4]*Node) RF {
	s, c, t := e.raw(a)
	signed := func(v RF) RF {
		if e.bit(s) {
			return e.neg(v)
		}
		return v
	}
	if t == nil {
		if c.Sign() == 0 {
			return e.rat(c)
		}
		return signed(e.rat(c))
	}
	if flip, ok := e.ownSign(s, t); ok { // the sign bit of t itself or its complement
		if flip {
			return e.neg(e.value(t))
		}
		return e.value(t)
	}
	if name, ok := strings.CutPrefix(t.op, "input "); ok && e.vals[name] == nil {
		return signed(e.poly(e.mag(name)))
	}
	v := e.value(t)
	if !e.cond(v, relGe) {
		v = e.neg(v)
	}
	return signed(v)
}

// value of a term.
func (e *real) value(t *FTerm) RF {
	if v, ok := e.val[t]; ok {
		return v
	}
	v := e.value1(t)
	e.val[t] = v
	return v
}

func (e *real) value1(t *FTerm) RF {
	if name, ok := strings.CutPrefix(t.op, "input "); ok {
		if v := e.vals[name]; v != nil {
			return e.poly(v)
		}
		m := e.poly(e.mag(name))
		if e.negative(t) {
			return e.neg(m)
		}
		return m
	}
	var a []RF
	for _, x := range t.arg {
		a = append(a, e.float(x))
	}
	switch t.op {
	case "Add":
		return e.add(a[0], a[1])
	case "Sub":
		return e.sub(a[0], a[1])
	case "Mul":
		return e.mul(a[0], a[1])
	case "Div":
		return e.div(a[0], a[1])
	case "Sqrt":
		return e.root(a[0])
	case "Floor":
		return e.floor(a[0])
	case "Ceil":
		return e.neg(e.floor(e.neg(a[0])))
	case "Trunc":
		if e.cond(a[0], relGe) {
			return e.floor(a[0])
		}
		return e.neg(e.floor(e.neg(a[0])))
	}
	panic(undecided("operation " + t.op))
}

func (e *real) root(a RF) RF {
	if c, ok := a.d.IsConst(); !ok || c.Cmp(ratOne) != 0 {
		// sqrt(n/d) = sqrt(n*d)/d for d > 0
		if !e.cond(e.poly(a.d), relGt) {
			panic(undecided("square root of a quotient"))
		}
		r := e.root(e.poly(e.u.Mul(a.n, a.d)))
		return e.div(r, e.poly(a.d))
	}
	at := e.u.Var("sqrt(" + a.n.Key() + ")")
	if _, ok := e.sqrt[at]; !ok {
		e.sqrt[at] = a
		e.assume(e.u.Atom(at), relGe)
		e.pos[at] = true
	}
	return e.poly(e.u.Atom(at))
}

func (e *real) floor(a RF) RF {
	if c, ok := a.d.IsConst(); !ok || c.Cmp(ratOne) != 0 {
		panic(undecided("floor of a quotient"))
	}
	if e.intPoly(a.n) {
		return a
	}
	at := e.u.Var("floor(" + a.n.Key() + ")")
	p := e.u.Atom(at)
	if !e.isInt[at] {
		e.isInt[at] = true
		e.assume(e.u.Sub(a.n, p), relGe)
		e.assume(e.u.Sub(e.u.Add(p, e.u.one), a.n), relGt)
		if c, ok := a.n.IsConst(); ok {
			return e.poly(e.u.Const(floorRat(c)))
		}
		if !e.feasible(rfact{e.u.Neg(a.n), relGt}) {
			e.assume(p, relGe)
		}
	}
	return e.poly(p)
}
