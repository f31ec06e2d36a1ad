package main

// Extraction of a circuit fragment and recognition of range checks.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frag is the wire graph of one operation with range checks recognised.
type Frag struct {
	g      *Graph
	in     map[string]*Node
	out    []*Node
	names  []string
	cons   []*FCon
	key    string
	limbs  map[*Node]bool
	groups []*limbGroup
	label  string
	widths []string
	funcs  map[string]bool
	ctx    *Cell
}

// FCon is a constraint of the fragment after recognition.
type FCon struct {
	kind   CKind
	a, b   *Node
	tab    *Table
	rng    bool     // linear form lin in [0,S] (integer)
	lin    *Lin     // range facts
	k      int64    // the check is on 2^k * lin (largest over limb widths)
	S      *big.Int // 2^k*lin in [0,S] as residues (largest over limb widths)
	B      *big.Int // hence lin <= B when lin is an integer and nothing wraps (weakest over limb widths)
	Bc     *big.Int // an honest lin in [0,Bc] passes (strongest over limb widths)
	pos    token.Pos
	impl   bool
	grps   []*limbGroup
	direct bool
}

// Lin is a linear form over nodes with rational coefficients.
type Lin struct {
	n []*Node
	c []*big.Rat
	k *big.Rat
}

type limbGroup struct {
	hint  *HintCall
	width int
	S     *big.Int
	eq    *Constraint
	looks []*Constraint
	wt    []*big.Rat // weight of each hint output in the sum
	lin   *Lin       // sum = 2^k*lin
	k     int64
	Bc    *big.Int
}

// fieldRat interprets a field constant as a small rational when it is one (inverse of a power of two).
func fieldRat(c *big.Int) *big.Rat {
	if c.BitLen() < 200 {
		return new(big.Rat).SetInt(c)
	}
	t := new(big.Int).Set(c)
	for k := 1; k <= 240; k++ {
		t = fieldSigned(new(big.Int).Lsh(t, 1))
		if t.BitLen() <= 64 {
			return new(big.Rat).SetFrac(t, new(big.Int).Lsh(big.NewInt(1), uint(k)))
		}
	}
	return new(big.Rat).SetInt(c)
}

func (l *Lin) add(n *Node, c *big.Rat) {
	for i, x := range l.n {
		if x == n {
			l.c[i] = new(big.Rat).Add(l.c[i], c)
			return
		}
	}
	l.n = append(l.n, n)
	l.c = append(l.c, c)
}

// linOf expands a node into a linear form over non-linear leaves.
func linOf(n *Node, c *big.Rat, out *Lin) {
	switch n.op {
	case nConst:
		out.k = new(big.Rat).Add(out.k, new(big.Rat).Mul(c, fieldRat(n.c)))
	case nAdd:
		linOf(n.arg[0], c, out)
		linOf(n.arg[1], c, out)
	case nSub:
		linOf(n.arg[0], c, out)
		linOf(n.arg[1], new(big.Rat).Neg(c), out)
	case nNeg:
		linOf(n.arg[0], new(big.Rat).Neg(c), out)
	case nMul:
		a, b := n.arg[0], n.arg[1]
		if k, ok := constNode(a); ok {
			linOf(b, new(big.Rat).Mul(c, k), out)
		} else if k, ok := constNode(b); ok {
			linOf(a, new(big.Rat).Mul(c, k), out)
		} else {
			out.add(n, c)
		}
	default:
		out.add(n, c)
	}
}

func constNode(n *Node) (*big.Rat, bool) {
	switch n.op {
	case nConst:
		return fieldRat(n.c), true
	case nInv:
		if k, ok := constNode(n.arg[0]); ok && k.Sign() != 0 {
			return new(big.Rat).Inv(k), true
		}
	case nMul:
		if a, ok := constNode(n.arg[0]); ok {
			if b, ok := constNode(n.arg[1]); ok {
				return new(big.Rat).Mul(a, b), true
			}
		}
	}
	return nil, false
}

func newLin(n *Node) *Lin {
	l := &Lin{k: new(big.Rat)}
	linOf(n, ratOne, l)
	var r Lin
	r.k = l.k
	for i := range l.n {
		if l.c[i].Sign() != 0 {
			r.n = append(r.n, l.n[i])
			r.c = append(r.c, l.c[i])
		}
	}
	return &r
}

func (l *Lin) sub(o *Lin) *Lin {
	r := &Lin{k: new(big.Rat).Sub(l.k, o.k)}
	r.n = append(r.n, l.n...)
	r.c = append(r.c, l.c...)
	for i := range o.n {
		r.add(o.n[i], new(big.Rat).Neg(o.c[i]))
	}
	var q Lin
	q.k = r.k
	for i := range r.n {
		if r.c[i].Sign() != 0 {
			q.n = append(q.n, r.n[i])
			q.c = append(q.c, r.c[i])
		}
	}
	return &q
}

func (l *Lin) key() string {
	type kv struct {
		i int
		s string
	}
	var ks []kv
	for i := range l.n {
		ks = append(ks, kv{l.n[i].id, l.c[i].RatString()})
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].i < ks[j].i })
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s*%d ", k.s, k.i)
	}
	b.WriteString(l.k.RatString())
	return b.String()
}

// ---------- entry ----------

// build runs a circuit fragment: setup creates inputs and calls repository code.
func (w *World) extract(label, front string, body func(in *Interp, api Value) ([]*Node, []string)) (f *Frag, err error) {
	in := newInterp(w)
	in.g = newGraph(in, front)
	defer func() {
		if r := recover(); r != nil {
			f = nil
			switch e := r.(type) {
			case undecidedErr:
				err = fmt.Errorf("%s: cannot interpret circuit construction: %s [%s]", label, e.msg, in.where())
			case goPanic:
				err = fmt.Errorf("%s: circuit construction panics: %v [%s]", label, panicMsg(e), in.where())
			case blocked:
				err = fmt.Errorf("%s: unexpected symbolic branch", label)
			default:
				panic(r)
			}
		}
	}()
	for _, p := range w.main {
		in.initPkg(w.prog.Package(p.Types))
	}
	out, names := body(in, Iface{apiT, &APIObj{"api"}})
	in.runDefers()
	f = &Frag{g: in.g, out: out, names: names, in: map[string]*Node{}, label: label, funcs: in.touched}
	for _, n := range in.g.nodes {
		if n.op == nInput {
			f.in[n.name] = n
		}
	}
	f.recognise()
	in.g.in, in.g.defers = nil, nil
	return f, nil
}

func panicMsg(p goPanic) string {
	switch x := p.v.(type) {
	case Iface:
		if c, ok := x.v.(ErrV); ok {
			return c.msg
		}
		return fmt.Sprint(x.v)
	}
	return fmt.Sprint(p.v)
}

func bareType(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// newContext calls float.NewContext and returns a pointer to the context.
func (in *Interp) newContext(api Value, rangeSize, E, M uint64) *Cell {
	fn := in.w.fn("float", "NewContext")
	if fn == nil {
		panic(undecided("float.NewContext not found"))
	}
	v := in.call(fn, []Value{api, rangeSize, E, M})
	if c, ok := v.(*Cell); ok {
		return c
	}
	c := newCell(fn.Signature.Results().At(0).Type())
	c.store(v)
	return c
}

// callMethod calls method mn of type tn of package rel on receiver recv (a pointer).
func (in *Interp) callMethod(rel, tn, mn string, recv *Cell, args ...Value) Value {
	fn := in.w.method(rel, tn, mn)
	if fn == nil {
		panic(undecided("method " + tn + "." + mn + " not found"))
	}
	var r Value = recv
	if _, ptr := fn.Signature.Recv().Type().(*types.Pointer); !ptr {
		r = recv.load()
	}
	return in.call(fn, append([]Value{r}, args...))
}

var floatFields = []string{"Sign", "Exponent", "Mantissa", "IsAbnormal"}

func (in *Interp) inputFloat(name string) Value {
	t := in.w.named("float", "FloatVar")
	if t == nil {
		panic(undecided("float.FloatVar not found"))
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(undecided("float.FloatVar is not a struct"))
	}
	s := &StructV{t: t, f: make([]Value, st.NumFields())}
	for i := range s.f {
		s.f[i] = wire(in.g.Input(name + "." + st.Field(i).Name()))
	}
	return s
}

// floatComps returns the component wires of a FloatVar in floatFields order.
func (in *Interp) floatComps(v Value) []*Node {
	s, ok := v.(*StructV)
	if !ok {
		panic(undecided("FloatVar expected"))
	}
	st := s.t.Underlying().(*types.Struct)
	var out []*Node
	for _, n := range floatFields {
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				out = append(out, in.node(s.f[i]))
				found = true
			}
		}
		if !found {
			panic(undecided("FloatVar has no field " + n))
		}
	}
	return out
}

// ---------- recognition ----------

func (f *Frag) recognise() {
	g := f.g
	// users of hint outputs among constraints and non-linear nodes
	type use struct {
		c   *Constraint
		lin *Lin
	}
	lins := map[*Constraint]*Lin{}
	for _, c := range g.cons {
		switch c.kind {
		case cEq:
			lins[c] = newLin(c.a).sub(newLin(c.b))
		case cLookup:
			lins[c] = newLin(c.a)
		}
	}
	// nonlinear uses: any node whose linear expansion stops at it, whose args reach a hint linearly
	nonlin := map[*Node]bool{}
	markArgs := func(n *Node) {
		for _, a := range n.arg {
			l := newLin(a)
			for _, x := range l.n {
				if x.op == nHint {
					nonlin[x] = true
				}
			}
		}
	}
	for _, n := range g.nodes {
		switch n.op {
		case nAdd, nSub, nNeg, nConst, nInput, nHint:
		case nMul:
			if _, ok := constNode(n.arg[0]); ok {
				continue
			}
			if _, ok := constNode(n.arg[1]); ok {
				continue
			}
			markArgs(n)
		default:
			markArgs(n)
		}
	}
	for _, h := range g.hints {
		for _, a := range h.in {
			for _, x := range newLin(a).n {
				if x.op == nHint {
					nonlin[x] = true
				}
			}
		}
	}
	for _, o := range f.out {
		for _, x := range newLin(o).n {
			if x.op == nHint {
				nonlin[x] = true
			}
		}
	}
	uses := map[*Node][]*Constraint{}
	for _, c := range g.cons {
		if l, ok := lins[c]; ok {
			for _, x := range l.n {
				if x.op == nHint {
					uses[x] = append(uses[x], c)
				}
			}
			continue
		}
		for _, y := range []*Node{c.a, c.b} {
			if y == nil {
				continue
			}
			for _, x := range newLin(y).n {
				if x.op == nHint {
					nonlin[x] = true
				}
			}
		}
	}
	f.limbs = map[*Node]bool{}
	inGroup := map[*Constraint]*limbGroup{}
	for _, h := range g.hints {
		if len(h.out) < 2 {
			continue
		}
		var eq *Constraint
		ok := true
		mx := map[*Node]*big.Int{}
		var looks []*Constraint
		width := 0
		for _, o := range h.out {
			if nonlin[o] {
				ok = false
				break
			}
			unit := false
			var best *big.Int
			for _, c := range uses[o] {
				l := lins[c]
				if c.kind == cEq {
					if eq == nil {
						eq = c
					}
					if eq != c {
						ok = false
					}
					continue
				}
				if !c.tab.rng || len(l.n) != 1 || l.k.Sign() != 0 || !l.c[0].IsInt() || l.c[0].Sign() <= 0 {
					ok = false
					break
				}
				looks = append(looks, c)
				if l.c[0].Cmp(ratOne) == 0 {
					unit = true
					width = c.tab.n
				}
				b := new(big.Int).Div(big.NewInt(int64(c.tab.n-1)), l.c[0].Num())
				// a scaled lookup bounds the limb only if scaling cannot wrap; with the unit lookup present it cannot
				if best == nil || b.Cmp(best) < 0 {
					best = b
				}
			}
			if !unit || best == nil {
				ok = false
			}
			if !ok {
				break
			}
			mx[o] = best
		}
		if !ok || eq == nil {
			continue
		}
		// eq: sum of limbs (same sign weights) = rest
		l := lins[eq]
		S := new(big.Int)
		rest := &Lin{k: new(big.Rat)}
		sgn := 0
		seen := 0
		wmap := map[*Node]*big.Rat{}
		for i, n := range l.n {
			if m, isLimb := mx[n]; isLimb {
				seen++
				wt := l.c[i]
				if !wt.IsInt() {
					ok = false
					break
				}
				if sgn == 0 {
					sgn = wt.Sign()
				}
				if wt.Sign() != sgn {
					ok = false
					break
				}
				aw := new(big.Int).Abs(wt.Num())
				wmap[n] = new(big.Rat).SetInt(aw)
				S.Add(S, new(big.Int).Mul(aw, m))
			}
		}
		if !ok || seen != len(h.out) {
			continue
		}
		// rest = value of the limb sum: limbSum*sgn + other = 0  =>  limbSum = -sgn*other
		s := big.NewRat(int64(-sgn), 1)
		for i, n := range l.n {
			if _, isLimb := mx[n]; !isLimb {
				rest.add(n, new(big.Rat).Mul(s, l.c[i]))
			}
		}
		rest.k = new(big.Rat).Mul(s, l.k)
		if S.Cmp(fieldP) >= 0 {
			continue // the limb sum itself can wrap: not a range check
		}
		// is every value 0..S a limb sum? contiguous mixed radix
		grp := &limbGroup{hint: h, width: width, S: S, eq: eq, looks: looks}
		// common positive scale d: d*R in [0,S]
		fc := &FCon{kind: cEq, rng: true, lin: rest, S: S, pos: eq.pos, grps: []*limbGroup{grp}}
		inGroup[eq] = grp
		for _, o := range h.out {
			grp.wt = append(grp.wt, wmap[o])
		}
		for _, c := range looks {
			inGroup[c] = grp
		}
		for _, o := range h.out {
			f.limbs[o] = true
		}
		f.groups = append(f.groups, grp)
		f.cons = append(f.cons, fc)
	}
	// keep order of issue: place recognised facts where their equality stands
	ranged := f.cons
	f.cons = nil
	byEq := map[*Constraint]*FCon{}
	for _, r := range ranged {
		byEq[r.grps[0].eq] = r
	}
	for _, c := range g.cons {
		if r, ok := byEq[c]; ok {
			f.cons = append(f.cons, r)
			continue
		}
		if inGroup[c] != nil {
			continue
		}
		fc := &FCon{kind: c.kind, a: c.a, b: c.b, tab: c.tab, pos: c.pos, impl: c.impl}
		if c.kind == cLookup && c.tab.rng {
			fc.rng = true
			fc.direct = true
			fc.lin = lins[c]
			fc.S = big.NewInt(int64(c.tab.n - 1))
		}
		f.cons = append(f.cons, fc)
	}
	f.combine()
	f.key = f.skeleton()
}

// combine rewrites range facts over their scale-free form and intersects facts on the same form.
func (f *Frag) combine() {
	by := map[string]*FCon{}
	var out []*FCon
	var groups = map[*FCon][]*FCon{}
	for _, c := range f.cons {
		if !c.rng {
			out = append(out, c)
			continue
		}
		l, k := c.lin.scaleOut()
		c.lin, c.k = l, k
		key := l.key()
		if h, ok := by[key]; ok {
			groups[h] = append(groups[h], c)
			continue
		}
		by[key] = c
		groups[c] = []*FCon{c}
		out = append(out, c)
	}
	for h, gs := range groups {
		sort.SliceStable(gs, func(i, j int) bool { return gs[i].k < gs[j].k })
		k, S := gs[0].k, gs[0].S
		B := new(big.Int).Rsh(S, uint(k))
		var lg []*limbGroup
		for _, x := range gs {
			for _, g := range x.grps {
				g.lin, g.k = h.lin, x.k
			}
			lg = append(lg, x.grps...)
			// with lin in [0,B], 2^k*lin cannot wrap if 2^k*B + S < p
			t := new(big.Int).Lsh(B, uint(x.k))
			if t.Add(t, x.S).Cmp(fieldP) < 0 {
				if b := new(big.Int).Rsh(x.S, uint(x.k)); b.Cmp(B) < 0 {
					B = b
				}
			}
		}
		h.k, h.S, h.B, h.Bc = k, S, B, B
		for _, g := range lg {
			g.Bc = B
		}
		h.grps = lg
	}
	top := func(c *FCon) int {
		m := -1
		for _, n := range c.lin.n {
			m = max(m, n.id)
		}
		return m
	}
	var plain, rng []*FCon
	for _, c := range out {
		if c.rng {
			rng = append(rng, c)
		} else {
			plain = append(plain, c)
		}
	}
	sort.SliceStable(rng, func(i, j int) bool {
		a, b := top(rng[i]), top(rng[j])
		if a != b {
			return a < b
		}
		return rng[i].lin.key() < rng[j].lin.key()
	})
	f.cons = append(plain, rng...)
}

// mergeFrags joins extractions of the same fragment under different limb widths and front ends.
func mergeFrags(fs []*Frag) []*Frag {
	var out []*Frag
	by := map[string]*Frag{}
	for _, f := range fs {
		m, ok := by[f.key]
		if !ok {
			by[f.key] = f
			f.widths = []string{f.label}
			out = append(out, f)
			continue
		}
		m.widths = append(m.widths, f.label)
		for i, c := range m.cons {
			d := f.cons[i]
			if !c.rng {
				continue
			}
			if d.k > c.k {
				c.k = d.k
			}
			if d.S.Cmp(c.S) > 0 {
				c.S = d.S
			}
			if d.B.Cmp(c.B) > 0 {
				c.B = d.B
			}
			if d.Bc.Cmp(c.Bc) < 0 {
				c.Bc = d.Bc
			}
			c.grps = append(c.grps, d.grps...)
		}
	}
	return out
}

// skeleton identifies the fragment up to limb decomposition.
func (f *Frag) skeleton() string {
	var b strings.Builder
	for _, c := range f.cons {
		if c.rng {
			fmt.Fprintf(&b, "R[%s];", c.lin.key())
			continue
		}
		fmt.Fprintf(&b, "%d(", c.kind)
		if c.a != nil {
			b.WriteString(newLin(c.a).key())
		}
		b.WriteString(",")
		if c.b != nil {
			b.WriteString(newLin(c.b).key())
		}
		b.WriteString(");")
	}
	for _, o := range f.out {
		b.WriteString("o" + newLin(o).key())
	}
	return b.String()
}

// scaleOut divides by the power of two that makes the coefficient content odd.
func (l *Lin) scaleOut() (*Lin, int64) {
	if len(l.n) == 0 {
		return l, 0
	}
	m := v2(l.c[0])
	for _, c := range l.c {
		if v := v2(c); v < m {
			m = v
		}
	}
	if l.k.Sign() != 0 {
		if v := v2(l.k); v < m {
			m = v
		}
	}
	if m <= 0 {
		return l, 0
	}
	r := &Lin{n: l.n, k: new(big.Rat).Mul(l.k, pow2Rat(-m))}
	for _, c := range l.c {
		r.c = append(r.c, new(big.Rat).Mul(c, pow2Rat(-m)))
	}
	return r, m
}

var _ *ssa.Function
