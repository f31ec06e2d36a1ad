package main

// Decision engine over a fragment: soundness (advice unknown, constraints are facts) and completeness (advice given
// by the hint functions, constraints are obligations).

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type notReady struct{ why string }

type rangeFact struct {
	lin *Poly
	B   *big.Int
	con *FCon
}

type St struct {
	e      *Env
	done   []bool
	memo   map[*Node]*Poly
	hints  map[*HintCall][]*Poly
	ranges []rangeFact
	adv    map[*Atom]bool
	defs   bool
	preOK  bool
	cp     *St
	cpOf   *Env
}

func (s *St) clone() *St {
	n := &St{e: s.e.clone(), done: append([]bool(nil), s.done...), memo: make(map[*Node]*Poly, len(s.memo)),
		hints: make(map[*HintCall][]*Poly, len(s.hints)), ranges: append([]rangeFact(nil), s.ranges...), adv: s.adv, preOK: s.preOK}
	for k, v := range s.memo {
		n.memo[k] = v
	}
	for k, v := range s.hints {
		n.hints[k] = v
	}
	return n
}

type Alarm struct {
	what  string
	pos   string
	trace []string
}

func (a Alarm) String() string {
	s := a.what
	if a.pos != "" {
		s = a.pos + ": " + s
	}
	if len(a.trace) > 0 {
		s += " [case: " + strings.Join(a.trace, "; ") + "]"
	}
	return s
}

// Task analyses one fragment under one operand class.
type Task struct {
	w        *World
	f        *Frag
	u        *U
	name     string
	complete bool // completeness mode
	setup    func(t *Task, st *St)
	leaf     func(t *Task, st *St) string // "" if fine, else what is wrong; may block
	maxLeaf  int
	leaves   int
	infeas   int
	splits   int
	alarms   []Alarm
	checked  int // constraints proven in completeness mode
	hin      *Interp
	input    map[*Node]*Poly
	hsum     map[string][]*hintSum
	enum     bool
	eager    bool // split before using equations as definitions
	sat      int
	debug    bool
	pre      func(t *Task, st *St) bool
	stopped  bool
	t0       time.Time
	dur      time.Duration
}

func (t *Task) run() {
	if t.u == nil {
		t.u = newU()
	}
	if t.maxLeaf == 0 {
		t.maxLeaf = 30000
	}
	t.input = map[*Node]*Poly{}
	t.hsum = map[string][]*hintSum{}
	st := &St{e: newEnv(t.u), done: make([]bool, len(t.f.cons)), memo: map[*Node]*Poly{}, hints: map[*HintCall][]*Poly{}, adv: map[*Atom]bool{}}
	func() {
		defer t.guard(st, nil)
		t.setup(t, st)
		t.explore(st, 0)
	}()
}

// guard turns analysis failures into alarms (never silently into success).
func (t *Task) guard(st *St, dead *bool) {
	if r := recover(); r != nil {
		switch x := r.(type) {
		case infeasible:
			t.infeas++
			if dead != nil {
				*dead = true
			}
		case undecidedErr:
			t.alarm(st, "", "not decided: "+x.msg)
		case goPanic:
			t.alarm(st, "", "hint function panics: "+panicMsg(x))
		default:
			panic(r)
		}
	}
}

func (t *Task) alarm(st *St, pos, what string) {
	if len(t.alarms) < 5 {
		if alarmLoad.Add(1) >= 40 {
			stopAll.Store(true)
		}
		t.alarms = append(t.alarms, Alarm{what: t.name + ": " + what, pos: pos, trace: append([]string(nil), st.e.trace...)})
	}
}

func (t *Task) explore(st *St, depth int) {
	if len(t.alarms) >= 3 || t.stopped {
		return
	}
	if stopAll.Load() {
		t.stopped = true
		return
	}
	if depth > 200 {
		t.alarm(st, "", "not decided: case split too deep")
		return
	}
	if t.leaves&63 == 0 && !deadline.IsZero() && time.Now().After(deadline) {
		t.alarm(st, "", "not decided: time limit")
		stopAll.Store(true)
		return
	}
	var blk *blocked
	dead := false
	func() {
		defer t.guard(st, &dead)
		blk = t.solve(st)
	}()
	if dead || len(t.alarms) >= 3 {
		return
	}
	if blk == nil {
		t.leaves++
		if t.leaves > t.maxLeaf {
			t.alarm(st, "", "not decided: too many cases")
		}
		return
	}
	if blk.ord < 0 { // solve reported an alarm
		return
	}
	t.split(st, t.choose(st, blk.cond), depth)
}

// split partitions the state on a condition.
func (t *Task) split(st *St, cond Cond, depth int) {
	if depth > 200 {
		t.alarm(st, "", "not decided: case split too deep")
		return
	}
	t.splits++
	for _, val := range []bool{true, false} {
		n := st.clone()
		d := false
		var b *blocked
		func() {
			defer t.guard(n, &d)
			s := cond.String(t.u)
			if len(s) > 160 {
				s = s[:160] + "…"
			}
			if val {
				n.e.note("%s", s)
			} else {
				n.e.note("not(%s)", s)
			}
			b, _ = try(func() { n.e.assume(cond, val) })
		}()
		if len(t.alarms) >= 3 {
			return
		}
		if d {
			continue
		}
		if b != nil { // the assumption itself needs another distinction first
			if b.cond.zero == cond.zero && b.cond.p.Eq(cond.p) {
				t.alarm(st, "", "not decided: cannot assume "+cond.String(t.u))
				return
			}
			m := st.clone()
			t.split(m, b.cond, depth+1)
			return
		}
		t.explore(n, depth+1)
	}
}

// choose replaces a condition that depends on a bounded symbolic exponent of two by a bisection of that exponent.
func (t *Task) choose(st *St, c Cond) Cond {
	if !t.enum {
		return c
	}
	e := st.e
	var found *Poly
	var walk func(p *Poly)
	walk = func(p *Poly) {
		for _, x := range p.t {
			if found != nil {
				return
			}
			if x.m.p2 != nil {
				E := e.S(x.m.p2)
				b := e.bounds(E)
				if b.lo != nil && b.hi != nil && b.lo.Cmp(b.hi) < 0 {
					found = E
					return
				}
			}
			for _, f := range x.m.f {
				if f.a.arg != nil {
					walk(f.a.arg)
				}
			}
		}
	}
	walk(e.S(c.p))
	if found == nil {
		return c
	}
	b := e.bounds(found)
	mid := new(big.Rat).Add(b.lo, b.hi)
	mid.Mul(mid, big.NewRat(1, 2))
	return Cond{false, t.u.Sub(found, t.u.Const(ceilRat(mid)))}
}

// try runs f; it reports blocked conditions and readiness failures instead of panicking.
func try(f func()) (b *blocked, nr *notReady) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case blocked:
				b = &x
			case notReady:
				nr = &x
			default:
				panic(r)
			}
		}
	}()
	f()
	return
}

// action runs one state change; if it blocks half-way the state is rolled back.
func (t *Task) action(st *St, f func()) *blocked {
	if st.cp == nil || st.cp.e.ver != st.e.ver || st.cpOf != st.e {
		st.cp = st.clone()
		st.cp.e.ver = st.e.ver
		st.cpOf = st.e
	}
	v0 := st.e.ver
	b, nr := try(f)
	if b == nil && nr == nil {
		return nil
	}
	if st.e.ver != v0 && b != nil {
		t.restore(st, st.cp, b)
		st.e.ver = v0
	}
	return b
}

func (t *Task) restore(st *St, cp *St, b *blocked) {
	n := cp.clone()
	v, d := st.e.ver, st.defs
	*st = *n
	st.e.ver, st.defs = v, d
	if b.cond.p.hasAtom(func(a *Atom) bool { return st.e.undet[a] }) {
		panic(undecided("condition on an undetermined value: " + b.cond.String(t.u)))
	}
}

// solve processes constraints to a fixpoint; it returns a condition to split on, or nil at a finished leaf.
func (t *Task) solve(st *St) *blocked {
	if t.complete {
		return t.solveComplete(st)
	}
	for iter := 0; ; iter++ {
		if iter > 100 {
			if t.debug {
				t.dump(st)
			}
			panic(undecided("propagation does not terminate"))
		}
		progress := false
		var first *blocked
		for i, c := range t.f.cons {
			if st.done[i] || c.kind == cMark && !c.rng {
				continue
			}
			if c.kind == cEq && !c.rng && !st.defs {
				continue
			}
			v0 := st.e.ver
			b := t.action(st, func() {
				if t.assert(st, c) {
					st.done[i] = true
				}
			})
			if b != nil && first == nil {
				first = b
			}
			if st.done[i] || st.e.ver != v0 {
				progress = true
			}
		}
		v0 := st.e.ver
		b := t.action(st, func() { t.infer(st) })
		if b != nil && first == nil {
			first = b
		}
		if st.e.ver != v0 {
			progress = true
		}
		if progress {
			st.defs = false
			continue
		}
		if !st.defs { // equations come last: they may define advice that other constraints determine better
			if t.eager && first != nil {
				return first
			}
			st.defs = true
			continue
		}
		st.defs = false
		if first != nil {
			return first
		}
		break
	}
	// marks and outputs
	var msg string
	st.cp = nil
	cp := st.clone()
	b, nr := try(func() {
		for _, c := range t.f.cons {
			if c.kind != cMark || c.rng {
				continue
			}
			p := t.eval(st, c.a)
			if !t.isBool(st, p) {
				msg = "value marked boolean can be " + t.u.Str(st.e.S(p)) + " (marked at " + t.w.Pos(c.pos) + ")"
				return
			}
		}
		msg = t.leaf(t, st)
	})
	if b != nil {
		t.restore(st, cp, b)
		return b
	}
	if nr != nil {
		msg = "result not determined by the constraints: " + nr.why
	}
	if msg != "" {
		if t.refute(st) {
			t.infeas++
			return nil
		}
		t.alarm(st, "", msg)
		if t.debug {
			t.dump(st)
		}
		return &blocked{ord: -1}
	}
	t.sat++
	return nil
}

// dump prints the state of an undecided leaf.
func (t *Task) dump(st *St) {
	fmt.Println("== state of", t.name)
	for _, s := range st.e.trace {
		fmt.Println("   case", s)
	}
	for i, c := range t.f.cons {
		if st.done[i] || c.kind == cMark && !c.rng {
			continue
		}
		var s string
		b, nr := try(func() {
			if c.rng {
				s = "range " + t.u.Str(t.linVal(st, c.lin)) + fmt.Sprintf(" k=%d B=%v", c.k, c.B)
			} else {
				s = fmt.Sprintf("kind %d ", c.kind) + t.u.Str(t.eval(st, c.a))
				if c.b != nil {
					s += " , " + t.u.Str(t.eval(st, c.b))
				}
			}
		})
		if b != nil {
			s = "blocked " + b.cond.String(t.u)
		}
		if nr != nil {
			s = "not ready " + nr.why
		}
		b, nr = try(func() { t.assert(st, c) })
		if nr != nil {
			s += " ;; " + nr.why
		}
		if b != nil {
			s += " ;; blocked " + b.cond.String(t.u)
		}
		fmt.Println("  pending", t.w.Pos(c.pos), s)
	}
	for a, p := range st.e.sub {
		fmt.Println("  sub", t.u.atomStr(a), ":=", t.u.Str(p))
	}
	for _, q := range st.e.ints {
		fmt.Println("  int", t.u.Str(q))
	}
	for _, f := range st.e.facts {
		fmt.Println("  fact", t.u.Str(f.p), ">=", f.strict)
	}
	for _, f := range st.e.nonz {
		fmt.Println("  nonzero", t.u.Str(f))
	}
	for a, iv := range st.e.iv {
		if _, ok := st.e.sub[a]; !ok {
			fmt.Println("  iv", t.u.atomStr(a), iv.lo, iv.hi)
		}
	}
}

func (t *Task) isBool(st *St, p *Poly) bool {
	e := st.e
	p = e.S(p)
	if p.hasAtom(func(a *Atom) bool { return e.undet[a] }) {
		panic(notReady{t.u.Str(p)})
	}
	b := e.bounds(p)
	if b.lo != nil && b.hi != nil && b.lo.Sign() >= 0 && b.hi.Cmp(ratOne) <= 0 && e.intValued(p) {
		return true
	}
	return t.fzero(st, p) || t.fzero(st, e.u.Sub(p, e.u.one))
}

// refute tries harder to show that the state is contradictory.
func (t *Task) refute(st *St) (r bool) {
	e := st.e
	defer func() {
		if x := recover(); x != nil {
			switch x.(type) {
			case infeasible:
				r = true
			case undecidedErr, blocked, notReady:
				r = false
			default:
				panic(x)
			}
		}
	}()
	e.expBounds()
	if _, inf := e.lpMin(e.u.zero); inf {
		return true
	}
	for d := 1; d <= 2; d++ {
		for _, f := range e.facts {
			b := e.boundsN(f.p, d)
			if b.hi != nil && (b.hi.Sign() < 0 || (f.strict && b.hi.Sign() == 0)) {
				return true
			}
		}
	}
	for _, q := range e.nonz {
		q = e.S(q)
		if q.IsZero() {
			return true
		}
		b := e.boundsN(q, 2)
		if b.lo != nil && b.hi != nil && b.lo.Sign() == 0 && b.hi.Sign() == 0 {
			return true
		}
	}
	for _, f := range append([]Fact(nil), e.facts...) { // no integer lies between the bounds the facts give it together
		if e.intValued(f.p) {
			e.lpBounds(f.p)
		}
	}
	for _, a := range e.u.list { // nor between those of a single quantity
		iv, ok := e.iv[a]
		if _, gone := e.sub[a]; !ok || gone || iv.lo == nil || iv.hi == nil {
			continue
		}
		if lo, hi := e.lpBounds(e.u.Atom(a)); lo != nil && lo.Cmp(iv.lo) > 0 || hi != nil && hi.Cmp(iv.hi) < 0 {
			e.tighten(a, lo, hi)
		}
	}
	_, inf := e.lpMin(e.u.zero)
	return inf
}

// ---------- evaluation ----------

func (t *Task) eval(st *St, n *Node) *Poly {
	if p, ok := st.memo[n]; ok {
		q := st.e.S(p)
		if q != p {
			if n.op == nMul || n.op == nAdd || n.op == nSub { // an indicator inside may have become known
				q = st.e.S(t.eval1(st, n))
			}
			st.memo[n] = q
		}
		return q
	}
	p := st.e.S(t.eval1(st, n))
	st.memo[n] = p
	return p
}

func (t *Task) eval1(st *St, n *Node) *Poly {
	u := t.u
	switch n.op {
	case nConst:
		return u.constRat(fieldRat(n.c))
	case nInput:
		p, ok := t.input[n]
		if !ok {
			panic(undecided("input " + n.name + " unbound"))
		}
		return p
	case nHint:
		if t.complete {
			return t.hintOut(st, n.hint, n.idx)
		}
		if n.hint.fn == nil { // bit decomposition
			return t.advAtom(st, n)
		}
		return t.advAtom(st, n)
	case nAdd:
		return u.Add(t.eval(st, n.arg[0]), t.eval(st, n.arg[1]))
	case nSub:
		return u.Sub(t.eval(st, n.arg[0]), t.eval(st, n.arg[1]))
	case nNeg:
		return u.Neg(t.eval(st, n.arg[0]))
	case nMul:
		a := t.eval(st, n.arg[0])
		if a.IsZero() {
			return a
		}
		b := t.eval(st, n.arg[1])
		if _, ok := b.IsConst(); !ok {
			a = t.indicator(st, a)
		}
		if _, ok := a.IsConst(); !ok {
			b = t.indicator(st, b)
		}
		return u.Mul(a, b)
	case nInv:
		p := t.eval(st, n.arg[0])
		if p.hasAtom(func(a *Atom) bool { return st.e.undet[a] }) {
			panic(notReady{"inverse of an undetermined value"})
		}
		if t.fzero(st, p) {
			if t.complete {
				panic(failed{"inverse of zero", n})
			}
			panic(infeasible{})
		}
		q, ok := u.Inv(t.eval(st, n.arg[0]))
		if !ok {
			panic(undecided("inverse of " + u.Str(p)))
		}
		return q
	case nDiv:
		a, b := t.eval(st, n.arg[0]), t.eval(st, n.arg[1])
		if b.hasAtom(func(a *Atom) bool { return st.e.undet[a] }) {
			panic(notReady{"division by an undetermined value"})
		}
		if t.fzero(st, b) {
			panic(undecided("unchecked division by zero"))
		}
		q, ok := u.Inv(t.eval(st, n.arg[1]))
		if !ok {
			panic(undecided("division by " + u.Str(b)))
		}
		return u.Mul(a, q)
	case nSelect:
		if t.cond(st, n.arg[0]) {
			return t.eval(st, n.arg[1])
		}
		return t.eval(st, n.arg[2])
	case nIsZero:
		return t.b2p(t.fzero(st, t.eval(st, n.arg[0])))
	case nAnd:
		return t.b2p(t.lazyBool(st, n, func(a, b func() bool) bool { return a() && b() }, false))
	case nOr:
		return t.b2p(t.lazyBool(st, n, func(a, b func() bool) bool { return a() || b() }, true))
	case nXor:
		a, b := t.eval(st, n.arg[0]), t.eval(st, n.arg[1])
		if a.Eq(b) {
			return u.zero
		}
		// xor of booleans as a polynomial keeps symbolic signs symbolic
		if _, ok := a.IsConst(); ok {
			if a.IsZero() {
				return b
			}
			return u.Sub(u.one, b)
		}
		if _, ok := b.IsConst(); ok {
			if b.IsZero() {
				return a
			}
			return u.Sub(u.one, a)
		}
		return t.b2p(t.cond(st, n.arg[0]) != t.cond(st, n.arg[1]))
	}
	panic(undecided(fmt.Sprintf("wire operation %d", n.op)))
}

// indicator distinguishes the two values of a factor c0 + c1*b with b in {0, 1}: multiplying by such a factor is a
// selection, and is treated like one.
func (t *Task) indicator(st *St, a *Poly) *Poly {
	u := t.u
	B := u.zero
	var c *big.Rat
	for _, x := range a.t {
		if x.m.p2 != nil || len(x.m.f) > 1 {
			return a
		}
		if len(x.m.f) == 0 {
			continue
		}
		if x.m.f[0].pow != 1 || st.e.undet[x.m.f[0].a] {
			return a
		}
		if y := new(big.Rat).Abs(x.c); c == nil || y.Cmp(c) < 0 {
			c = y
		}
		B = u.Add(B, &Poly{t: []Term{x}})
	}
	if c == nil {
		return a
	}
	B = u.Scale(B, new(big.Rat).Inv(c))
	if !st.e.intValued(B) {
		return a
	}
	bd := st.e.bounds(B)
	if bd.lo == nil || bd.hi == nil || new(big.Rat).Sub(bd.hi, bd.lo).Cmp(ratOne) != 0 {
		return a
	}
	t.fzero(st, u.Sub(B, u.constRat(bd.lo)))
	return st.e.S(a)
}

type failed struct {
	what string
	n    *Node
}

// lazyBool evaluates a short-circuit connective; if the left operand is not decidable yet, the right one may decide.
func (t *Task) lazyBool(st *St, n *Node, f func(a, b func() bool) bool, absorb bool) bool {
	va := func() bool { return t.cond(st, n.arg[0]) }
	vb := func() bool { return t.cond(st, n.arg[1]) }
	var r bool
	bl, nr := try(func() { r = f(va, vb) })
	if bl == nil && nr == nil {
		return r
	}
	var rb bool
	bl2, nr2 := try(func() { rb = vb() })
	if bl2 == nil && nr2 == nil && rb == absorb {
		return absorb
	}
	if bl != nil {
		panic(*bl)
	}
	if bl2 != nil {
		panic(*bl2)
	}
	panic(*nr)
}

func (t *Task) b2p(b bool) *Poly {
	if b {
		return t.u.one
	}
	return t.u.zero
}

func (t *Task) cond(st *St, n *Node) bool { return !t.fzero(st, t.eval(st, n)) }

func (t *Task) advAtom(st *St, n *Node) *Poly {
	nm := "adv"
	if n.hint.fn != nil {
		nm = strings.TrimSuffix(n.hint.fn.Name(), "Hint")
	}
	name := fmt.Sprintf("%s#%d.%d", nm, n.hint.id, n.idx)
	a := t.u.Var(name)
	a.adv = true
	st.adv[a] = true
	if _, ok := st.e.sub[a]; !ok {
		if _, ok := st.e.iv[a]; !ok {
			st.e.undet[a] = true
		}
	}
	return t.u.Atom(a)
}

// ---------- wrap control ----------

func (t *Task) raw(st *St, p *Poly) []*Atom {
	m := map[*Atom]bool{}
	p.atoms(m)
	var out []*Atom
	for a := range m {
		if st.e.undet[a] {
			out = append(out, a)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// den finds K with 2^K * p integer.
func (t *Task) den(st *St, p *Poly) (int64, bool) {
	e := st.e
	if e.intValued(p) {
		return 0, true
	}
	var K int64
	for _, x := range p.t {
		if oddDenom(x.c) {
			return 0, false
		}
		for _, f := range x.m.f {
			if f.pow < 0 {
				return 0, false
			}
		}
		k := v2(x.c)
		if x.m.p2 != nil {
			b := e.bounds(x.m.p2)
			if b.lo == nil || !ceilRat(b.lo).IsInt64() {
				return 0, false
			}
			k += ceilRat(b.lo).Int64()
		}
		if -k > K {
			K = -k
		}
	}
	return K, true
}

// noWrap: |2^K p| + 2^K S < field order, so a congruence p = s with 0<=s<=S is an equality.
func (t *Task) noWrap(st *St, p *Poly, S *big.Int) bool {
	K, ok := t.den(st, p)
	if !ok {
		return false
	}
	b := st.e.bounds(p)
	if b.lo == nil || b.hi == nil {
		return false
	}
	m := new(big.Rat).Abs(b.lo)
	if h := new(big.Rat).Abs(b.hi); h.Cmp(m) > 0 {
		m = h
	}
	if S != nil {
		m = new(big.Rat).Add(m, new(big.Rat).SetInt(S))
	}
	m = new(big.Rat).Mul(m, pow2Rat(K))
	return m.Cmp(new(big.Rat).SetInt(fieldP)) < 0
}

// fzero decides whether a field element is zero.
func (t *Task) fzero(st *St, p *Poly) bool {
	p = st.e.S(p)
	if c, ok := p.IsConst(); ok {
		return c.Sign() == 0
	}
	if len(t.raw(st, p)) > 0 {
		panic(notReady{"zero test of undetermined " + t.u.Str(p)})
	}
	// factors known nonzero may be dropped before the wrap check
	q := p
	if !t.noWrap(st, q, nil) {
		q = st.e.zeroNorm(p)
		if c, ok := q.IsConst(); ok {
			return c.Sign() == 0
		}
		if !t.noWrap(st, q, nil) {
			panic(notReady{"zero test may wrap: " + t.u.Str(p)})
		}
	}
	return st.e.Zero(q)
}

// ---------- soundness: constraints as facts ----------

func (t *Task) linVal(st *St, l *Lin) *Poly {
	p := t.u.constRat(l.k)
	for i, n := range l.n {
		p = t.u.lin(p, l.c[i], t.eval(st, n))
	}
	return st.e.S(p)
}

func (t *Task) bounded(st *St, a *Atom) {
	delete(st.e.undet, a)
	if _, ok := st.e.iv[a]; !ok {
		st.e.iv[a] = Ival{}
	}
	st.e.touch()
}

// assert records a constraint; false if it cannot be used yet.
func (t *Task) assert(st *St, c *FCon) bool {
	e, u := st.e, t.u
	if c.rng {
		L := t.linVal(st, c.lin)
		if cst, ok := L.IsConst(); ok {
			if cst.Sign() < 0 || !cst.IsInt() || cst.Num().Cmp(c.B) > 0 {
				if cst.IsInt() || c.k == 0 {
					panic(infeasible{})
				}
				// a non-integer constant: 2^k*cst must be an integer in [0,S]
				s := new(big.Rat).Mul(cst, pow2Rat(c.k))
				if s.Sign() < 0 || !s.IsInt() || s.Num().Cmp(c.S) > 0 {
					panic(infeasible{})
				}
			}
			return true
		}
		rs := t.raw(st, L)
		if len(rs) == 1 && c.k == 0 {
			a := rs[0]
			var cf *big.Rat
			n := 0
			for _, x := range L.t {
				for _, f := range x.m.f {
					if f.a == a {
						n++
						if len(x.m.f) == 1 && f.pow == 1 && x.m.p2 == nil {
							cf = x.c
						}
					}
				}
			}
			if n == 1 && cf != nil && countAtom(L, a) == 1 && (cf.Cmp(ratOne) == 0 || cf.Cmp(ratMinusOne) == 0) {
				rest := u.Sub(L, u.Scale(u.Atom(a), cf))
				if e.intValued(rest) {
					b := e.bounds(rest)
					// choose the representative of a for which L itself lies in [0,S]
					t.bounded(st, a)
					iv := Ival{}
					S := new(big.Rat).SetInt(c.B)
					if cf.Sign() > 0 {
						if b.hi != nil {
							iv.lo = new(big.Rat).Neg(b.hi)
						}
						if b.lo != nil {
							iv.hi = new(big.Rat).Sub(S, b.lo)
						}
					} else {
						if b.lo != nil {
							iv.lo = new(big.Rat).Sub(b.lo, S)
						}
						if b.hi != nil {
							iv.hi = b.hi
						}
					}
					e.iv[a] = iv
					e.touch()
					e.addFact(L, false)
					e.addFact(u.Sub(u.Const(c.B), L), false)
					st.ranges = append(st.ranges, rangeFact{L, c.B, c})
					return true
				}
			}
		}
		if len(rs) > 0 {
			t.isqrtRaw(st, c, L)
			panic(notReady{"range check of undetermined " + u.Str(L)})
		}
		Lk := u.Scale(L, pow2Rat(c.k))
		if !t.noWrap(st, Lk, c.S) {
			panic(notReady{"range check may wrap: " + u.Str(L)})
		}
		B := u.Const(c.B)
		if !e.intValued(L) {
			if c.k == 0 {
				e.ints = append(e.ints, L)
				e.touch()
			} else {
				B = u.constRat(new(big.Rat).Mul(new(big.Rat).SetInt(c.S), pow2Rat(-c.k)))
				if mb := u.constRat(new(big.Rat).SetInt(new(big.Int).Add(c.B, big.NewInt(1)))); true {
					// weakest over widths: floor(S/2^k)+1 bounds S/2^k for each width
					B = mb
				}
			}
		}
		e.addFact(L, false)
		e.addFact(u.Sub(B, L), false)
		st.ranges = append(st.ranges, rangeFact{e.S(L), c.B, c})
		return true
	}
	switch c.kind {
	case cEq:
		P := e.S(u.Sub(t.eval(st, c.a), t.eval(st, c.b)))
		return t.assertEq(st, P)
	case cBool:
		P := t.eval(st, c.a)
		rs := t.raw(st, P)
		if len(rs) == 1 {
			a := rs[0]
			cf, rest, ok := linearIn(u, P, a)
			if ok && (cf.Cmp(ratOne) == 0 || cf.Cmp(ratMinusOne) == 0) && e.intValued(rest) {
				if k, isc := rest.IsConst(); isc {
					t.bounded(st, a)
					// P in {0,1}
					lo := new(big.Rat).Mul(cf, new(big.Rat).Neg(k))
					hi := new(big.Rat).Mul(cf, new(big.Rat).Sub(ratOne, k))
					if lo.Cmp(hi) > 0 {
						lo, hi = hi, lo
					}
					e.tighten(a, lo, hi)
					return true
				}
			}
			panic(notReady{"boolean check of undetermined " + u.Str(P)})
		}
		if len(rs) > 0 {
			panic(notReady{"boolean check of undetermined " + u.Str(P)})
		}
		b := e.bounds(P)
		if b.lo != nil && b.hi != nil && b.lo.Sign() >= 0 && b.hi.Cmp(ratOne) <= 0 && e.intValued(P) {
			return true
		}
		if t.fzero(st, P) {
			return true
		}
		return t.assertEq(st, u.Sub(P, u.one))
	case cNonzero, cNeq:
		P := t.eval(st, c.a)
		if c.kind == cNeq {
			P = u.Sub(P, t.eval(st, c.b))
		}
		if len(t.raw(st, P)) > 0 {
			panic(notReady{"disequality of undetermined value"})
		}
		if P.IsZero() {
			panic(infeasible{})
		}
		e.assume(Cond{true, P}, false)
		return true
	case cLookup:
		return t.assertPow2(st, c)
	case cLe:
		return false
	}
	panic(undecided("constraint kind"))
}

func linearIn(u *U, p *Poly, a *Atom) (*big.Rat, *Poly, bool) {
	var cf *big.Rat
	for _, x := range p.t {
		if len(x.m.f) == 1 && x.m.f[0].a == a && x.m.f[0].pow == 1 && x.m.p2 == nil {
			cf = x.c
		}
	}
	if cf == nil || countAtom(p, a) != 1 {
		return nil, nil, false
	}
	return cf, u.Sub(p, u.Scale(u.Atom(a), cf)), true
}

func (t *Task) assertEq(st *St, P *Poly) bool {
	e, u := st.e, t.u
	P = e.S(P)
	if P.IsZero() {
		return true
	}
	rs := t.raw(st, P)
	if len(rs) > 1 {
		sq := t.squared(st)
		sort.SliceStable(rs, func(i, j int) bool { return !sq[rs[i]] && sq[rs[j]] })
	}
	for _, a := range rs {
		// P = C*a + rest with C a single invertible monomial
		var C, rest *Poly = u.zero, u.zero
		ok := true
		for _, x := range P.t {
			q := &Poly{t: []Term{x}}
			has := q.hasAtom(func(y *Atom) bool { return y == a })
			if !has {
				rest = u.Add(rest, q)
				continue
			}
			var nf []fac
			one := false
			for _, f := range x.m.f {
				if f.a == a && f.pow == 1 {
					one = true
					continue
				}
				nf = append(nf, f)
			}
			cm := &Poly{t: []Term{{mkMono(nf, x.m.p2), x.c}}}
			if !one || cm.hasAtom(func(y *Atom) bool { return y == a }) {
				ok = false
				break
			}
			C = u.Add(C, cm)
		}
		if !ok || len(C.t) != 1 || len(t.raw(st, C)) > 0 {
			continue
		}
		if e.isZero(C) != 0 {
			continue
		}
		inv, _ := u.Inv(C)
		delete(e.undet, a)
		e.substRaw(a, u.Neg(u.Mul(rest, inv)))
		return true
	}
	if len(rs) > 0 {
		panic(notReady{"equation over undetermined " + u.Str(P)})
	}
	Q := P
	if !t.noWrap(st, Q, nil) {
		Q = e.zeroNorm(P)
		if c, ok := Q.IsConst(); ok && c.Sign() != 0 {
			panic(infeasible{})
		}
		if !t.noWrap(st, Q, nil) {
			panic(notReady{"equation may wrap: " + u.Str(P)})
		}
	}
	e.addEq(Q)
	return true
}

// squared lists the atoms whose squares occur in pending range checks: those checks determine them better.
func (t *Task) squared(st *St) map[*Atom]bool {
	m := map[*Atom]bool{}
	for i, c := range t.f.cons {
		if st.done[i] || !c.rng {
			continue
		}
		try(func() {
			for _, x := range t.linVal(st, c.lin).t {
				for _, f := range x.m.f {
					if f.pow > 1 {
						m[f.a] = true
					}
				}
			}
		})
	}
	return m
}

// substRaw defines a raw field element by a field expression (no integrality is implied).
func (e *Env) substRaw(a *Atom, p *Poly) {
	delete(e.iv, a)
	e.subst0(a, p, false)
}

// pow2Table recognises entries i*2^w + 2^i.
func pow2Table(tb *Table) (int, bool) {
	if tb.n < 2 {
		return 0, false
	}
	d := new(big.Int).Sub(tb.vals[1], tb.vals[0]) // 2^w + 1
	d.Sub(d, big.NewInt(1))
	w := d.BitLen() - 1
	if d.Sign() <= 0 || d.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(w))) != 0 {
		return 0, false
	}
	for i, v := range tb.vals {
		x := new(big.Int).Lsh(big.NewInt(int64(i)), uint(w))
		x.Add(x, new(big.Int).Lsh(big.NewInt(1), uint(i)))
		if x.Cmp(v) != 0 {
			return 0, false
		}
	}
	if tb.n > w { // the low part of the last entries would overflow into the high part
		return 0, false
	}
	return w, true
}

func (t *Task) assertPow2(st *St, c *FCon) bool {
	e, u := st.e, t.u
	w, ok := pow2Table(c.tab)
	if !ok {
		panic(undecided("lookup table of unknown shape at " + t.w.Pos(c.pos)))
	}
	Q := e.S(t.eval(st, c.a))
	if k, ok := Q.ConstInt(); ok {
		for _, v := range c.tab.vals {
			if v.Cmp(k) == 0 {
				return true
			}
		}
		panic(infeasible{})
	}
	if len(t.raw(st, Q)) > 0 {
		panic(notReady{"table lookup of undetermined " + u.Str(Q)})
	}
	mx := c.tab.vals[c.tab.n-1]
	if !t.noWrap(st, Q, mx) {
		panic(notReady{"table lookup may wrap: " + u.Str(Q)})
	}
	for _, x := range Q.t {
		if x.m.p2 != nil || len(x.m.f) != 1 || x.m.f[0].pow != 1 || x.c.Cmp(ratOne) != 0 {
			continue
		}
		a := x.m.f[0].a
		iv := e.iv[a]
		if iv.lo == nil || iv.hi == nil || iv.lo.Sign() < 0 || iv.hi.Cmp(pow2Rat(int64(w))) >= 0 {
			continue
		}
		A := u.Scale(u.Sub(Q, u.Atom(a)), pow2Rat(int64(-w)))
		if A.hasAtom(func(y *Atom) bool { return y == a }) || !e.intValued(A) {
			continue
		}
		e.addFact(A, false)
		e.addFact(u.Sub(u.Int(int64(c.tab.n-1)), A), false)
		A = e.S(A)
		if _, gone := e.sub[a]; gone {
			e.addEq(u.Sub(u.Atom(a), u.Pow2(A)))
		} else {
			e.subst(a, u.Pow2(A))
		}
		return true
	}
	panic(notReady{"power of two not determined: " + u.Str(Q)})
}

// ---------- inference over range facts ----------

func (t *Task) isAdv(st *St, a *Atom) bool {
	if !st.adv[a] {
		return false
	}
	_, gone := st.e.sub[a]
	return !gone && !st.e.undet[a]
}

func (t *Task) infer(st *St) bool {
	progress := false
	for i := range st.ranges {
		st.ranges[i].lin = st.e.S(st.ranges[i].lin)
		r := st.ranges[i]
		var adv []*Atom
		m := map[*Atom]bool{}
		r.lin.atoms(m)
		for a := range m {
			if t.isAdv(st, a) {
				adv = append(adv, a)
			}
		}
		if len(adv) == 0 {
			continue
		}
		sort.Slice(adv, func(i, j int) bool { return adv[i].id < adv[j].id })
		if t.inferNorm(st, r, adv) || t.inferIsqrt(st, r, adv) || t.inferEuclid(st, r, adv) || t.inferRadix(st, r, adv) {
			progress = true
		}
	}
	return progress
}

// inferNorm: X*2^h + k in [0,B], k<0 const: h = j - Lg(X).
func (t *Task) inferNorm(st *St, r rangeFact, adv []*Atom) bool {
	e, u := st.e, t.u
	for _, h := range adv {
		X, rest := u.zero, u.zero
		ok := true
		for _, x := range r.lin.t {
			q := &Poly{t: []Term{x}}
			if !q.hasAtom(func(y *Atom) bool { return y == h }) {
				rest = u.Add(rest, q)
				continue
			}
			for _, f := range x.m.f {
				if f.a == h {
					ok = false
				}
			}
			if !ok || x.m.p2 == nil {
				ok = false
				break
			}
			cf, _, lin := linearIn(u, x.m.p2, h)
			if !lin || cf.Cmp(ratOne) != 0 {
				ok = false
				break
			}
			X = u.Add(X, u.MulTermMono(q, mkMono(nil, u.Neg(u.Atom(h)))))
		}
		if !ok || X.IsZero() || X.hasAtom(func(y *Atom) bool { return y == h }) {
			continue
		}
		k, isC := rest.IsConst()
		if !isC {
			continue
		}
		lo := new(big.Rat).Neg(k)
		hi := new(big.Rat).Sub(new(big.Rat).SetInt(r.B), k)
		if lo.Sign() <= 0 {
			continue
		}
		j := lgRat(lo)
		if lgRat(hi) != j {
			continue
		}
		// X > 0 because X*2^h >= lo > 0
		e.addFact(X, true)
		X = e.S(X)
		if !e.intValued(X) {
			continue
		}
		lg := e.Lg(X)
		e.addEqAtom(h, u.Sub(u.Int(j), lg))
		return true
	}
	return false
}

// addEqAtom determines advice atom a := p, keeping its interval as facts.
func (e *Env) addEqAtom(a *Atom, p *Poly) {
	if q, gone := e.sub[a]; gone {
		e.addEq(e.u.Sub(q, p))
		return
	}
	e.subst(a, e.S(p))
}

// inferEuclid: L = T - c*a >= 0 with c symbolic positive and c-1-L >= 0 known: a = floor(T/c).
func (t *Task) inferEuclid(st *St, r rangeFact, adv []*Atom) bool {
	e, u := st.e, t.u
	for _, a := range adv {
		var cm *Poly = u.zero
		rest := u.zero
		ok := true
		for _, x := range r.lin.t {
			q := &Poly{t: []Term{x}}
			if !q.hasAtom(func(y *Atom) bool { return y == a }) {
				rest = u.Add(rest, q)
				continue
			}
			var nf []fac
			one := false
			for _, f := range x.m.f {
				if f.a == a && f.pow == 1 {
					one = true
				} else {
					nf = append(nf, f)
				}
			}
			if !one {
				ok = false
				break
			}
			cm = u.Add(cm, &Poly{t: []Term{{mkMono(nf, x.m.p2), x.c}}})
		}
		if !ok || len(cm.t) != 1 || cm.hasAtom(func(y *Atom) bool { return y == a }) {
			continue
		}
		if _, isC := cm.IsConst(); isC {
			continue
		}
		bad := false
		for _, b := range adv {
			if b != a && rest.hasAtom(func(y *Atom) bool { return y == b }) {
				bad = true
			}
		}
		if bad {
			continue
		}
		c := u.Neg(cm)
		if b := e.bounds(c); b.lo == nil || b.lo.Sign() <= 0 {
			continue
		}
		up := u.Sub(u.Sub(c, u.one), r.lin)
		if !e.proveGE(up) {
			continue
		}
		inv, ok2 := u.Inv(c)
		if !ok2 {
			continue
		}
		e.addEqAtom(a, e.Floor(u.Mul(rest, inv)))
		return true
	}
	return false
}

// inferRadix: L = K + c*a + W in [0,B], c constant, W bounded, interval shorter than |c|: a is a floor of K.
func (t *Task) inferRadix(st *St, r rangeFact, adv []*Atom) bool {
	e, u := st.e, t.u
	type cand struct {
		a *Atom
		c *big.Rat
	}
	var cs []cand
	for _, a := range adv {
		if cf, _, ok := linearIn(u, r.lin, a); ok {
			cs = append(cs, cand{a, cf})
		}
	}
	sort.SliceStable(cs, func(i, j int) bool {
		return new(big.Rat).Abs(cs[i].c).Cmp(new(big.Rat).Abs(cs[j].c)) > 0
	})
	for _, c := range cs {
		K, W := u.zero, u.zero
		for _, x := range r.lin.t {
			q := &Poly{t: []Term{x}}
			switch {
			case len(x.m.f) == 1 && x.m.f[0].a == c.a && x.m.f[0].pow == 1 && x.m.p2 == nil:
			case q.hasAtom(func(y *Atom) bool { return t.isAdv(st, y) }):
				W = u.Add(W, q)
			default:
				K = u.Add(K, q)
			}
		}
		wb := e.bounds(W)
		if wb.lo == nil || wb.hi == nil {
			continue
		}
		lb := e.bounds(r.lin)
		if lb.lo == nil || lb.hi == nil {
			continue
		}
		lo := new(big.Rat).Sub(lb.lo, wb.hi)
		hi := new(big.Rat).Sub(lb.hi, wb.lo)
		ac := new(big.Rat).Abs(c.c)
		if new(big.Rat).Sub(hi, lo).Cmp(ac) >= 0 {
			continue
		}
		// s in (hi-|c|, lo]
		smin := new(big.Rat).Sub(hi, ac) // exclusive
		s := lo
		for _, v := range []*big.Rat{new(big.Rat), K.constPart()} {
			if v.Cmp(smin) > 0 && v.Cmp(lo) <= 0 {
				s = v
				break
			}
		}
		q := e.Floor(u.Scale(u.Sub(K, u.constRat(s)), new(big.Rat).Inv(ac)))
		if c.c.Sign() > 0 {
			q = u.Neg(q)
		}
		e.addEqAtom(c.a, q)
		return true
	}
	return false
}

// sqForm: p = m - n^2 with m free of n.
func sqForm(u *U, p *Poly, n *Atom) (*Poly, bool) {
	m := u.zero
	found := false
	for _, x := range p.t {
		q := &Poly{t: []Term{x}}
		if !q.hasAtom(func(y *Atom) bool { return y == n }) {
			m = u.Add(m, q)
			continue
		}
		if len(x.m.f) == 1 && x.m.f[0].a == n && x.m.f[0].pow == 2 && x.m.p2 == nil && x.c.Cmp(ratMinusOne) == 0 {
			found = true
			continue
		}
		return nil, false
	}
	return m, found
}

// inferIsqrt: n >= 0 bounded, m - n^2 >= 0 and n^2 + 2n - m >= 0.
func (t *Task) inferIsqrt(st *St, r rangeFact, adv []*Atom) bool {
	e, u := st.e, t.u
	for _, n := range adv {
		m, ok := sqForm(u, r.lin, n)
		if !ok {
			continue
		}
		N := u.Atom(n)
		up := u.Sub(u.Add(u.Mul(N, N), u.ScaleInt(N, 2)), m)
		if !e.proveGE(N) || !e.proveGE(up) {
			continue
		}
		e.addEqAtom(n, e.Isqrt(m))
		return true
	}
	return false
}

// isqrtRaw: n an unbounded field element; R1 = m - n^2 in [0,S1] and R2 = 2n - R1 in [0,S2]. Then 2n = t1+t2 is a
// small integer T, 4m - T^2 = 4 t1 holds over the integers when nothing wraps, so T is even and n = isqrt(m).
func (t *Task) isqrtRaw(st *St, c *FCon, L *Poly) {
	e, u := st.e, t.u
	if c.k != 0 {
		return
	}
	for _, n := range t.raw(st, L) {
		m, ok := sqForm(u, L, n)
		if !ok || len(t.raw(st, m)) > 0 || !e.intValued(m) {
			continue
		}
		want := u.Sub(u.ScaleInt(u.Atom(n), 2), L)
		for j, d := range t.f.cons {
			if !d.rng || d == c || d.k != 0 || st.done[j] {
				continue
			}
			if b, nr := try(func() {
				if !t.linVal(st, d.lin).Eq(want) {
					panic(notReady{})
				}
			}); b != nil || nr != nil {
				continue
			}
			mb := e.bounds(m)
			if mb.lo == nil || mb.hi == nil || mb.lo.Sign() < 0 {
				continue
			}
			T := new(big.Int).Add(c.S, d.S)
			tot := new(big.Int).Mul(T, T)
			tot.Add(tot, new(big.Int).Lsh(ceilRat(mb.hi), 2))
			tot.Add(tot, new(big.Int).Lsh(c.S, 2))
			if tot.Cmp(fieldP) >= 0 {
				continue
			}
			root := e.Isqrt(m)
			delete(e.undet, n)
			e.iv[n] = Ival{new(big.Rat), nil}
			e.subst(n, root)
			return
		}
	}
}

// ---------- completeness ----------

func (t *Task) solveComplete(st *St) (blk *blocked) {
	e, u := st.e, t.u
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(failed); ok {
				if t.refute(st) {
					t.infeas++
					blk = nil
					return
				}
				t.alarm(st, t.w.Pos(f.n.pos), "honest prover cannot satisfy: "+f.what)
				blk = &blocked{ord: -1}
				return
			}
			panic(r)
		}
	}()
	if t.pre != nil && !st.preOK {
		ok := false
		cp := st.clone()
		v0 := e.ver
		b, nr := try(func() { ok = t.pre(t, st) })
		if b != nil {
			if e.ver != v0 {
				t.restore(st, cp, b)
			}
			return b
		}
		if nr != nil {
			panic(undecided(nr.why))
		}
		if !ok {
			t.infeas++
			return nil
		}
		st.preOK = true
	}
	for i, c := range t.f.cons {
		if st.done[i] {
			continue
		}
		var msg string
		cp := st.clone()
		v0 := e.ver
		b, nr := try(func() {
			if c.rng {
				L := t.linVal(st, c.lin)
				switch {
				case !e.intValued(L):
					msg = "range-checked value may not be an integer: " + u.Str(L)
				case !e.GE(L):
					msg = "range-checked value may be negative: " + u.Str(L)
				case !e.GE(u.Sub(u.Const(c.Bc), L)):
					msg = "range-checked value may exceed " + ratStr(new(big.Rat).SetInt(c.Bc)) + ": " + u.Str(L)
				}
				return
			}
			switch c.kind {
			case cEq:
				P := e.S(u.Sub(t.eval(st, c.a), t.eval(st, c.b)))
				if !t.ezero(st, P) {
					msg = "equality may fail, difference " + u.Str(P)
				}
			case cBool, cMark:
				P := t.eval(st, c.a)
				b := e.bounds(P)
				if b.lo != nil && b.hi != nil && b.lo.Sign() >= 0 && b.hi.Cmp(ratOne) <= 0 && e.intValued(P) {
					return
				}
				if !t.ezero(st, P) && !t.ezero(st, u.Sub(P, u.one)) {
					msg = "value must be boolean but may be " + u.Str(P)
				}
			case cNonzero, cNeq:
				P := t.eval(st, c.a)
				if c.kind == cNeq {
					P = u.Sub(P, t.eval(st, c.b))
				}
				if t.ezero(st, P) {
					msg = "value must be nonzero but may be zero"
				}
			case cLe:
				a, b := t.eval(st, c.a), t.eval(st, c.b)
				if !e.GE(a) || !e.GE(u.Sub(b, a)) {
					msg = "ordering may fail"
				}
			case cLookup:
				w, ok := pow2Table(c.tab)
				if !ok {
					panic(undecided("lookup table of unknown shape at " + t.w.Pos(c.pos)))
				}
				Q := t.eval(st, c.a)
				l := newLin(c.a)
				okAny := false
				for k, n := range l.n {
					if l.c[k].Cmp(ratOne) != 0 {
						continue
					}
					tv := t.eval(st, n)
					A := e.S(u.Scale(u.Sub(Q, tv), pow2Rat(int64(-w))))
					if !e.intValued(A) {
						continue
					}
					if e.GE(A) && e.GE(u.Sub(u.Int(int64(c.tab.n-1)), A)) && t.ezero(st, u.Sub(tv, u.Pow2(e.S(A)))) {
						okAny = true
						break
					}
				}
				if !okAny {
					msg = "table lookup may fail: " + u.Str(Q)
				}
			}
		})
		if b != nil {
			if e.ver != v0 {
				t.restore(st, cp, b)
			}
			return b
		}
		if nr != nil {
			panic(undecided(nr.why))
		}
		if msg != "" {
			if t.refute(st) {
				t.infeas++
				return nil
			}
			t.alarm(st, t.w.Pos(c.pos), "honest prover cannot satisfy: "+msg)
			return &blocked{ord: -1}
		}
		st.done[i] = true
		t.checked++
	}
	if t.leaf != nil {
		var msg string
		cp := st.clone()
		b, nr := try(func() { msg = t.leaf(t, st) })
		if b != nil {
			t.restore(st, cp, b)
			return b
		}
		if nr != nil {
			msg = nr.why
		}
		if msg != "" {
			if t.refute(st) {
				t.infeas++
				return nil
			}
			t.alarm(st, "", msg)
			return &blocked{ord: -1}
		}
	}
	t.sat++
	return nil
}

// ezero decides p == 0 over the integers (honest values are small by construction of the obligations).
func (t *Task) ezero(st *St, p *Poly) bool {
	p = st.e.S(p)
	if c, ok := p.IsConst(); ok {
		return c.Sign() == 0
	}
	return st.e.Zero(p)
}

type hintSum struct {
	ok   bool
	a, b []int64 // outputs = a*Lg(x)+b
}

func normConst(u *U, p *Poly) *Poly {
	c := p.constPart()
	if c.IsInt() && new(big.Int).Abs(c.Num()).BitLen() >= 250 {
		q := floorRat(new(big.Rat).Add(new(big.Rat).SetFrac(c.Num(), fieldP), big.NewRat(1, 2)))
		if q.Sign() != 0 {
			return u.Sub(p, u.Const(new(big.Int).Mul(q, fieldP)))
		}
	}
	return p
}

// hintOut evaluates a hint call by abstract interpretation of the hint function.
func (t *Task) hintOut(st *St, h *HintCall, idx int) *Poly {
	if o, ok := st.hints[h]; ok {
		return st.e.S(o[idx])
	}
	e, u := st.e, t.u
	var ins []*Poly
	for _, n := range h.in {
		p := e.S(t.eval(st, n))
		if !e.intValued(p) {
			panic(undecided("hint input is not an integer: " + u.Str(p)))
		}
		if !e.GE(p) {
			p = u.Add(u.Const(fieldP), p)
		}
		ins = append(ins, e.S(p))
	}
	if h.fn == nil {
		var outs []*Poly
		for i := range h.out {
			hi := e.Floor(u.Scale(ins[0], pow2Rat(int64(-i-1))))
			lo := e.Floor(u.Scale(ins[0], pow2Rat(int64(-i))))
			outs = append(outs, e.S(u.Sub(lo, u.ScaleInt(hi, 2))))
		}
		st.hints[h] = outs
		return outs[idx]
	}
	var outs []*Poly
	b, nr := try(func() { outs = t.execHint(e, h.fn, ins, len(h.out)) })
	if b != nil {
		if o, ok := t.summarise(e, h.fn, ins, len(h.out)); ok {
			outs = o
		} else {
			panic(*b)
		}
	}
	if nr != nil {
		panic(undecided(nr.why))
	}
	for i := range outs {
		outs[i] = normConst(u, e.S(outs[i]))
	}
	st.hints[h] = outs
	return outs[idx]
}

func (t *Task) execHint(e *Env, fn *ssa.Function, ins []*Poly, n int) []*Poly {
	in := newInterp(t.w)
	in.env = e
	in.limit = 5_000_000
	mk := func(p *Poly) Value {
		c := &Cell{}
		in.setBig(c, p)
		return c
	}
	slice := func(ps []*Poly) SliceV {
		s := SliceV{len: len(ps), cap: len(ps), arr: []*Cell{}}
		for _, p := range ps {
			s.arr = append(s.arr, &Cell{v: mk(p)})
		}
		return s
	}
	zs := make([]*Poly, n)
	for i := range zs {
		zs[i] = e.u.zero
	}
	for i, p := range ins {
		ins[i] = e.S(p)
	}
	iv, ov := slice(ins), slice(zs)
	if fn.Pkg != nil {
		in.initPkg(fn.Pkg)
	}
	r := in.call(fn, []Value{mk(e.u.Const(fieldP)), iv, ov})
	if r != nil {
		panic(undecided("hint function " + fn.Name() + " returns an error for a legitimate input"))
	}
	var out []*Poly
	for i := 0; i < n; i++ {
		c, ok := ov.arr[i].v.(*Cell)
		if !ok || c == nil {
			panic(undecided("hint output replaced in " + fn.Name()))
		}
		out = append(out, in.symPoly(c.v))
	}
	return out
}

// summarise evaluates a hint on each leading-bit cell of its single symbolic input; outputs affine in the bit length.
func (t *Task) summarise(e *Env, fn *ssa.Function, ins []*Poly, n int) ([]*Poly, bool) {
	u := e.u
	si := -1
	key := fn.String()
	for i, p := range ins {
		if _, ok := p.IsConst(); ok {
			key += "," + p.Key()
			continue
		}
		if si >= 0 {
			return nil, false
		}
		si = i
		key += ",?"
	}
	if si < 0 {
		return nil, false
	}
	X := ins[si]
	b := e.bounds(X)
	if b.lo == nil || b.hi == nil || b.lo.Sign() < 0 || !b.hi.IsInt() || b.hi.Num().BitLen() > 240 {
		return nil, false
	}
	if e.Zero(X) {
		return nil, false
	}
	X = e.S(X)
	hiBit := int(lgRat(b.hi))
	key += fmt.Sprintf(":%d", hiBit)
	var s *hintSum
	if v, ok := t.hsum[key]; ok {
		s = v[0]
	} else {
		s = &hintSum{ok: true}
		vals := make([][]int64, n)
		for k := 0; k <= hiBit && s.ok; k++ {
			uu := newU()
			ee := newEnv(uu)
			lo := new(big.Int).Lsh(big.NewInt(1), uint(k))
			hi := new(big.Int).Sub(new(big.Int).Lsh(lo, 1), big.NewInt(1))
			x := ee.setVar("x", lo, hi)
			var is []*Poly
			for i, p := range ins {
				if i == si {
					is = append(is, x)
				} else {
					c, _ := p.ConstInt()
					is = append(is, uu.Const(c))
				}
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						switch r.(type) {
						case blocked, notReady, undecidedErr, infeasible:
							s.ok = false
						default:
							panic(r)
						}
					}
				}()
				for i, o := range t.execHint(ee, fn, is, n) {
					c, ok := ee.S(o).Int64()
					if !ok {
						s.ok = false
						return
					}
					vals[i] = append(vals[i], c)
				}
			}()
		}
		if s.ok {
			for i := range vals {
				v := vals[i]
				a := int64(0)
				if len(v) > 1 {
					a = v[1] - v[0]
				}
				for k := range v {
					if v[k] != v[0]+a*int64(k) {
						s.ok = false
					}
				}
				s.a = append(s.a, a)
				s.b = append(s.b, v[0])
			}
		}
		t.hsum[key] = []*hintSum{s}
	}
	if !s.ok {
		return nil, false
	}
	lg := e.Lg(X)
	var out []*Poly
	for i := range s.a {
		out = append(out, u.Add(u.ScaleInt(lg, s.a[i]), u.Int(s.b[i])))
	}
	return out, true
}
