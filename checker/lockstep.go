package main

// C34: routines that exist in both precisions.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() { props["C34"] = &propDef{"other", checkSiblings} }

type lockstep struct {
	a, b  *pipe
	nm    map[[2]int]bool
	tm    map[[2]int]bool
	um    map[[8]int]bool
	why   string
	terms int
	cons  int
}

func (l *lockstep) no(f string, a ...any) bool {
	if l.why == "" {
		l.why = fmt.Sprintf(f, a...)
	}
	return false
}

// try compares without recording the reason.
func (l *lockstep) try(f func() bool) bool {
	w := l.why
	ok := f()
	l.why = w
	return ok
}

func constTuple(p *pipe, a [4]*Node) (*big.Rat, bool) {
	for _, n := range a {
		if n.op != nConst {
			return nil, false
		}
	}
	v := new(big.Rat)
	if a[2].c.Sign() != 0 {
		v.Mul(new(big.Rat).SetInt(a[2].c), pow2Rat(a[1].c.Int64()-int64(p.f.M)))
	}
	if a[0].c.Sign() != 0 {
		v.Neg(v)
	}
	return v, a[3].c.Sign() == 0
}

func closeConst(x, y *big.Rat) bool {
	if x.Cmp(y) == 0 {
		return true
	}
	// a simple constant of the double-precision routine must be the same number
	if y.Denom().BitLen() <= 12 && y.Num().BitLen() <= 12 {
		return false
	}
	d := new(big.Rat).Sub(x, y)
	lim := new(big.Rat).Mul(new(big.Rat).Abs(y), pow2Rat(-19))
	d.Abs(d)
	return d.Cmp(lim) <= 0 || d.Cmp(pow2Rat(-22)) <= 0 && y.Cmp(ratOne) < 0 && y.Cmp(ratMinusOne) > 0
}

func (l *lockstep) tuple(a, b [4]*Node) bool {
	k := [8]int{a[0].id, a[1].id, a[2].id, a[3].id, b[0].id, b[1].id, b[2].id, b[3].id}
	if v, ok := l.um[k]; ok {
		return v
	}
	v := l.tuple1(a, b)
	l.um[k] = v
	return v
}

func splitSel(a [4]*Node, c *Node, side int) (x [4]*Node) {
	for i, m := range a {
		for m.op == nSelect && m.arg[0] == c {
			m = m.arg[side]
		}
		x[i] = m
	}
	return
}

func (l *lockstep) tuple1(a, b [4]*Node) bool {
	x, okx := constTuple(l.a, a)
	y, oky := constTuple(l.b, b)
	if x != nil && y != nil {
		l.cons++
		if okx != oky || !closeConst(x, y) {
			fx, _ := x.Float64()
			fy, _ := y.Float64()
			return l.no("the constant %v corresponds to %v", fx, fy)
		}
		return true
	}
	for i := range a {
		if a[i].op == nSelect && b[i].op == nSelect {
			ca, cb := a[i].arg[0], b[i].arg[0]
			return l.node(ca, cb) && l.tuple(splitSel(a, ca, 1), splitSel(b, cb, 1)) && l.tuple(splitSel(a, ca, 2), splitSel(b, cb, 2))
		}
	}
	ta, tb := tupleTerm(a), tupleTerm(b)
	if ta != nil && tb != nil {
		return l.term(ta, tb) && l.node(a[0], b[0]) && l.node(a[3], b[3])
	}
	return l.no("different values at %s and %s", l.a.w.Pos(a[2].pos), l.b.w.Pos(b[2].pos))
}

func tupleTerm(a [4]*Node) *FTerm {
	if a[1].op == nFloat && a[2].op == nFloat && a[1].ft == a[2].ft && a[1].idx == 1 && a[2].idx == 2 {
		return a[1].ft
	}
	return nil
}

// order writes comparisons as less-than.
func order(t *FTerm) (string, [][4]*Node) {
	switch t.op {
	case "IsGt":
		return "IsLt", [][4]*Node{t.arg[1], t.arg[0]}
	case "IsGe":
		return "IsLe", [][4]*Node{t.arg[1], t.arg[0]}
	}
	return t.op, t.arg
}

func (l *lockstep) term(s, t *FTerm) bool {
	k := [2]int{s.id, t.id}
	if v, ok := l.tm[k]; ok {
		return v
	}
	l.terms++
	v := func() bool {
		so, sa := order(s)
		to, ta := order(t)
		if so != to || len(sa) != len(ta) || len(s.wire) != len(t.wire) || s.n != t.n {
			return l.no("%s at %s corresponds to %s at %s", s.op, l.a.w.Pos(s.pos), t.op, l.b.w.Pos(t.pos))
		}
		for i := range s.wire {
			if !l.node(s.wire[i], t.wire[i]) {
				return false
			}
		}
		same := func() bool {
			for i := range sa {
				if !l.tuple(sa[i], ta[i]) {
					return l.no("operands of %s at %s and %s differ", s.op, l.a.w.Pos(s.pos), l.b.w.Pos(t.pos))
				}
			}
			return true
		}
		if so == "Add" || so == "Mul" {
			if l.try(same) {
				return true
			}
			if l.try(func() bool { return l.tuple(sa[0], ta[1]) && l.tuple(sa[1], ta[0]) }) {
				return true
			}
			l.um = map[[8]int]bool{} // recompute for the reason
		}
		return same()
	}()
	l.tm[k] = v
	return v
}

func (l *lockstep) node(a, b *Node) bool {
	k := [2]int{a.id, b.id}
	if v, ok := l.nm[k]; ok {
		return v
	}
	v := l.node1(a, b)
	l.nm[k] = v
	return v
}

func (l *lockstep) node1(a, b *Node) bool {
	diff := func() bool {
		return l.no("the wire built at %s corresponds to a different one built at %s", l.a.w.Pos(a.pos), l.b.w.Pos(b.pos))
	}
	if a.op != b.op || len(a.arg) != len(b.arg) {
		return diff()
	}
	switch a.op {
	case nConst:
		if a.c.Cmp(b.c) != 0 {
			return l.no("the constant %s corresponds to %s", a.c, b.c)
		}
		return true
	case nInput:
		if a.name != b.name {
			return l.no("%s corresponds to %s", a.name, b.name)
		}
		return true
	case nFloat, nCmp:
		if a.idx != b.idx {
			return diff()
		}
		return l.term(a.ft, b.ft)
	case nHint:
		if a.idx != b.idx || (a.hint.fn == nil) != (b.hint.fn == nil) || a.hint.fn != nil && a.hint.fn != b.hint.fn ||
			len(a.hint.in) != len(b.hint.in) || len(a.hint.out) != len(b.hint.out) {
			return diff()
		}
		for i := range a.hint.in {
			if !l.node(a.hint.in[i], b.hint.in[i]) {
				return false
			}
		}
		return true
	}
	same := func() bool {
		for i := range a.arg {
			if !l.node(a.arg[i], b.arg[i]) {
				return false
			}
		}
		return true
	}
	switch a.op {
	case nAdd, nMul, nAnd, nOr, nXor:
		if l.try(same) {
			return true
		}
		if l.try(func() bool { return l.node(a.arg[0], b.arg[1]) && l.node(a.arg[1], b.arg[0]) }) {
			return true
		}
		return diff()
	}
	return same()
}

// genericArgs makes unknown arguments from the parameter types.
func (p *pipe) genericArgs(fn *ssa.Function) []Value {
	ft, ctx := p.w.named("float", "FloatVar"), p.w.named("float", "Context")
	var out []Value
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		t := fn.Signature.Params().At(i).Type()
		switch {
		case types.Identical(bareType(t), ctx):
			out = append(out, p.ctx)
		case types.Identical(t, ft):
			out = append(out, p.input(fmt.Sprintf("operand %d", i)))
		case t.String() == "github.com/consensys/gnark/frontend.Variable":
			n := p.wireIn(fmt.Sprintf("operand %d", i))
			out = append(out, n)
		default:
			return nil
		}
	}
	return out
}

// flatResult lists the floats and wires of a result.
func (p *pipe) flatResult(v Value) (fs [][4]*Node, ws []*Node) {
	switch x := v.(type) {
	case *StructV:
		if types.Identical(x.t, p.w.named("float", "FloatVar")) {
			return [][4]*Node{p.floatArg(x)}, nil
		}
		for _, f := range x.f {
			a, b := p.flatResult(f)
			fs, ws = append(fs, a...), append(ws, b...)
		}
	case SliceV:
		for i := 0; i < x.len; i++ {
			a, b := p.flatResult(x.arr[i].load())
			fs, ws = append(fs, a...), append(ws, b...)
		}
	case Tuple:
		for _, f := range x {
			a, b := p.flatResult(f)
			fs, ws = append(fs, a...), append(ws, b...)
		}
	default:
		ws = append(ws, p.in.node(v))
	}
	return
}

func circuitFunc(w *World, fn *ssa.Function) bool {
	ctx := w.named("float", "Context")
	ps := fn.Signature.Params()
	return fn.Signature.Recv() == nil && ps.Len() > 0 && types.Identical(bareType(ps.At(0).Type()), ctx) && fn.Signature.Results().Len() > 0
}

func checkSiblings(w *World, r *Report) {
	r.explain = pipeExplain + "s. For every location routine that exists in both precisions, and for the two sines, the two graphs are compared in lock-step, node by node: same operations, same operands (up to commutation and the direction of a comparison), corresponding constants."
	r.rules = []string{"same operation at every node", "constants equal up to single precision (2^-19 relative, exactly for small integers and fractions)", "each routine has a sibling"}
	type pair struct {
		name string
		f    [2]*ssa.Function
	}
	var ps []pair
	a, b := w.ssaPkg(locPkgs[0]), w.ssaPkg(locPkgs[1])
	if a == nil || b == nil {
		r.alarm("packages", "loc2index32 or loc2index64 not found")
		return
	}
	names := map[string]bool{}
	for n := range a.Members {
		names[n] = true
	}
	for n := range b.Members {
		names[n] = true
	}
	for n := range names {
		fa, fb := a.Func(n), b.Func(n)
		if fa != nil && circuitFunc(w, fa) || fb != nil && circuitFunc(w, fb) {
			if fa != nil && fb != nil {
				ps = append(ps, pair{n, [2]*ssa.Function{fa, fb}})
			} else {
				r.count("routines in one precision only", 1)
			}
		}
	}
	ps = append(ps, pair{"SinTaylor", [2]*ssa.Function{w.fn("math", "SinTaylor32"), w.fn("math", "SinTaylor64")}})
	sort.Slice(ps, func(i, j int) bool { return ps[i].name < ps[j].name })
	type pend struct {
		key string
		f   []*ssa.Function
	}
	var later []pend
	for _, q := range ps {
		key := "sibling " + q.name
		guardRun(r, key, func() {
			if q.f[0] == nil || q.f[1] == nil {
				r.alarm(key, "only one of the two exists")
				return
			}
			odd := false
			var pp [2]*pipe
			var fs [2][][4]*Node
			var ws [2][]*Node
			for i := range pp {
				var err error
				pp[i], err = w.pipeline(fmts[i], func(p *pipe) {
					args := p.genericArgs(q.f[i])
					if args == nil {
						odd = true
						panic(undecided("parameters of " + q.f[i].String()))
					}
					fs[i], ws[i] = p.flatResult(p.callFn(q.f[i], args))
				})
				if odd {
					later = append(later, pend{key, q.f[:]})
					return
				}
				if err != nil {
					r.alarm(key, "%s: %v", q.f[i], err)
					return
				}
				r.touch(pp[i].touch)
			}
			r.count("routine pairs", 1)
			l := &lockstep{a: pp[0], b: pp[1], nm: map[[2]int]bool{}, tm: map[[2]int]bool{}, um: map[[8]int]bool{}}
			if !r.check(len(fs[0]) == len(fs[1]) && len(ws[0]) == len(ws[1]), key+" results", "different numbers of results") {
				return
			}
			// written alike, or the same once selections and integer arithmetic are normalised
			normal := func(f func(c *canon, a, b *side) (string, bool)) (string, bool) {
				why, ok := "", false
				for _, deep := range []bool{false, true} {
					c := newCanon(deep)
					c.conditions(pp[0])
					c.conditions(pp[1])
					if why, ok = f(c, c.side(pp[0]), c.side(pp[1])); ok {
						r.count("results compared in normal form", 1)
						break
					}
				}
				return why, ok
			}
			for i := range fs[0] {
				l.why = ""
				ok := l.tuple(fs[0][i], fs[1][i])
				if !ok {
					var why string
					why, ok = normal(func(c *canon, a, b *side) (string, bool) {
						return sameResult(c, a, b, &fs[0][i], &fs[1][i], nil, nil)
					})
					l.why += "; in normal form " + why
				}
				r.check(ok, fmt.Sprintf("%s result %d", key, i), "%s", l.why)
			}
			for i := range ws[0] {
				l.why = ""
				ok := l.node(ws[0][i], ws[1][i])
				if !ok {
					var why string
					why, ok = normal(func(c *canon, a, b *side) (string, bool) {
						return sameResult(c, a, b, nil, nil, ws[0][i], ws[1][i])
					})
					l.why += "; in normal form " + why
				}
				r.check(ok, fmt.Sprintf("%s result %d", key, i), "%s", l.why)
			}
			r.count("float operations compared", l.terms)
			r.count("constants compared", l.cons)
		})
	}
	for _, p := range later {
		// helpers are compared as part of the routines that use them
		ok := true
		for _, f := range p.f {
			ok = ok && !f.Object().Exported() && r.touched(f.String())
		}
		r.check(ok, p.key, "not decided: parameters of a kind that is not modelled")
	}
	r.atLeast("routine pairs", 4)
	r.atLeast("float operations compared", 120)
}

func (p *pipe) callFn(fn *ssa.Function, args []Value) Value {
	for i := range args {
		if n, ok := args[i].(*Node); ok {
			args[i] = wire(n)
		}
		if c, ok := args[i].(*Cell); ok {
			if _, ptr := fn.Signature.Params().At(i).Type().Underlying().(*types.Pointer); !ptr {
				args[i] = c.load()
			}
		}
	}
	return p.in.call(fn, args)
}
