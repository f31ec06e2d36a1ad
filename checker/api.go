package main

// Model of the trusted boundary: frontend.API / Compiler, logderivarg.Build, math/big, and a few library calls.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var apiMethods = map[string]bool{}

func init() {
	for _, s := range strings.Fields(`Add MulAcc Neg Sub Mul DivUnchecked Div Inverse ToBinary FromBinary Xor Or And
Select Lookup2 IsZero Cmp AssertIsEqual AssertIsDifferent AssertIsBoolean AssertIsCrumb AssertIsLessOrEqual Println
Compiler NewHint ConstantValue MarkBoolean IsBoolean Field FieldBitLen Defer FrontendType Commit AddInternalVariable
AddInstruction AddBlueprint InternalVariable ToCanonicalVariable SetGkrInfo`) {
		apiMethods[s] = true
	}
}

func wire(n *Node) Value { return Iface{wireT, n} }

// node converts a frontend.Variable to a wire node.
func (in *Interp) node(v Value) *Node {
	iv, ok := v.(Iface)
	if !ok {
		panic(undecided("nil frontend.Variable"))
	}
	if iv.t == wireT {
		return iv.v.(*Node)
	}
	switch x := iv.v.(type) {
	case int64, uint64:
		return in.g.Const(bigOf(x))
	case *big.Int:
		return in.g.Const(x)
	case *Cell:
		if x != nil {
			if b, ok := x.v.(*big.Int); ok {
				return in.g.Const(b)
			}
		}
	case string:
		b, ok := new(big.Int).SetString(x, 0)
		if ok {
			return in.g.Const(b)
		}
	case *Node:
		return x
	}
	panic(undecided(fmt.Sprintf("circuit constant of type %v", iv.t)))
}

func (in *Interp) nodes(v Value) []*Node {
	s, _ := v.(SliceV)
	var out []*Node
	for i := 0; i < s.len; i++ {
		out = append(out, in.node(s.arr[i].load()))
	}
	return out
}

func (g *Graph) gAdd(a, b *Node) *Node {
	if a.op == nConst && b.op == nConst {
		return g.Const(new(big.Int).Add(a.c, b.c))
	}
	if a.op == nConst && a.c.Sign() == 0 {
		return b
	}
	if b.op == nConst && b.c.Sign() == 0 {
		return a
	}
	return g.op(nAdd, a, b)
}
func (g *Graph) gSub(a, b *Node) *Node {
	if a.op == nConst && b.op == nConst {
		return g.Const(new(big.Int).Sub(a.c, b.c))
	}
	if b.op == nConst && b.c.Sign() == 0 {
		return a
	}
	return g.op(nSub, a, b)
}
func (g *Graph) gMul(a, b *Node) *Node {
	for i := 0; i < 2; i++ {
		if a.op == nConst {
			if b.op == nConst {
				return g.Const(new(big.Int).Mul(a.c, b.c))
			}
			if a.c.Sign() == 0 {
				return a
			}
			if a.c.Cmp(big.NewInt(1)) == 0 {
				return b
			}
		}
		a, b = b, a
	}
	return g.op(nMul, a, b)
}
func (g *Graph) gNeg(a *Node) *Node {
	if a.op == nConst {
		return g.Const(new(big.Int).Neg(a.c))
	}
	return g.op(nNeg, a)
}

func (g *Graph) gSelect(c, a, b *Node) *Node {
	if c.op == nConst {
		if c.c.Sign() == 0 {
			return b
		}
		return a
	}
	g.needBool(c)
	if a == b {
		return a
	}
	return g.op(nSelect, c, a, b)
}

func (g *Graph) gBool2(op NOp, a, b *Node) *Node {
	g.needBool(a)
	g.needBool(b)
	r := g.op(op, a, b)
	g.bools[r] = true
	return r
}

func (in *Interp) hintFn(v Value) *ssa.Function {
	c, _ := v.(*Closure)
	if c == nil || c.fn == nil || len(c.bound) > 0 {
		panic(undecided("hint function is not a plain function"))
	}
	return c.fn
}

func (in *Interp) newHint(fnv Value, n int, ins []*Node) Value {
	g := in.g
	h := &HintCall{id: len(g.hints), fn: in.hintFn(fnv), in: ins, pos: in.curPos(), fr: in.where(), site: in.caller()}
	g.hints = append(g.hints, h)
	for i := 0; i < n; i++ {
		h.out = append(h.out, g.add(&Node{op: nHint, hint: h, idx: i}))
	}
	out := SliceV{len: n, cap: n}
	for _, o := range h.out {
		out.arr = append(out.arr, &Cell{v: wire(o)})
	}
	if out.arr == nil {
		out.arr = []*Cell{}
	}
	return Tuple{out, nil}
}

func (in *Interp) apiCall(name string, args []Value, m *types.Func) Value {
	g := in.g
	if g == nil {
		panic(undecided("circuit API used outside circuit construction"))
	}
	one := func() *Node { return g.Const(big.NewInt(1)) }
	switch name {
	case "Add", "Sub", "Mul":
		r := in.node(args[0])
		rest := append([]*Node{in.node(args[1])}, in.nodes(args[2])...)
		for _, b := range rest {
			switch name {
			case "Add":
				r = g.gAdd(r, b)
			case "Sub":
				r = g.gSub(r, b)
			default:
				r = g.gMul(r, b)
			}
		}
		return wire(r)
	case "MulAcc":
		return wire(g.gAdd(in.node(args[0]), g.gMul(in.node(args[1]), in.node(args[2]))))
	case "Neg":
		return wire(g.gNeg(in.node(args[0])))
	case "Inverse":
		n := in.node(args[0])
		g.con(cNonzero, n, nil)
		return wire(g.op(nInv, n))
	case "Div":
		a, b := in.node(args[0]), in.node(args[1])
		g.con(cNonzero, b, nil)
		return wire(g.gMul(a, g.op(nInv, b)))
	case "DivUnchecked":
		a, b := in.node(args[0]), in.node(args[1])
		return wire(g.op(nDiv, a, b))
	case "Select":
		c, a, b := in.node(args[0]), in.node(args[1]), in.node(args[2])
		return wire(g.gSelect(c, a, b))
	case "And":
		a, b := in.node(args[0]), in.node(args[1])
		return wire(g.gBool2(nAnd, a, b))
	case "Or":
		a, b := in.node(args[0]), in.node(args[1])
		return wire(g.gBool2(nOr, a, b))
	case "Xor":
		a, b := in.node(args[0]), in.node(args[1])
		return wire(g.gBool2(nXor, a, b))
	case "Lookup2":
		var n [6]*Node
		for i := range n {
			n[i] = in.node(args[i])
		}
		g.needBool(n[0])
		g.needBool(n[1])
		return wire(g.gSelect(n[1], g.gSelect(n[0], n[5], n[4]), g.gSelect(n[0], n[3], n[2])))
	case "IsZero":
		n := in.node(args[0])
		if n.op == nConst {
			if n.c.Sign() == 0 {
				return wire(one())
			}
			return wire(g.Const(new(big.Int)))
		}
		r := g.op(nIsZero, n)
		g.bools[r] = true
		return wire(r)
	case "AssertIsEqual":
		a, b := in.node(args[0]), in.node(args[1])
		if n := boolShape(a, b); n != nil {
			g.con(cBool, n, nil)
			return nil
		}
		g.con(cEq, a, b)
		return nil
	case "AssertIsDifferent":
		a, b := in.node(args[0]), in.node(args[1])
		g.con(cNeq, a, b)
		return nil
	case "AssertIsBoolean":
		n := in.node(args[0])
		if !g.bools[n] && !g.isBoolConst(n) {
			g.con(cBool, n, nil)
			g.bools[n] = true
		}
		return nil
	case "AssertIsLessOrEqual":
		g.con(cLe, in.node(args[0]), in.node(args[1]))
		return nil
	case "AssertIsCrumb":
		n := in.node(args[0])
		r := n
		for i := int64(1); i < 4; i++ {
			r = g.gMul(r, g.gSub(n, g.Const(big.NewInt(i))))
		}
		g.con(cEq, r, g.Const(new(big.Int)))
		return nil
	case "ToBinary":
		n := in.node(args[0])
		k := 254
		if s, ok := args[1].(SliceV); ok && s.len > 0 {
			k = toInt(s.arr[0].load())
		}
		if k > 253 {
			panic(undecided("full-width bit decomposition"))
		}
		h := &HintCall{id: len(g.hints), in: []*Node{n}, pos: in.curPos(), fr: in.where(), site: in.caller()}
		g.hints = append(g.hints, h)
		sum := g.Const(new(big.Int))
		out := SliceV{len: k, cap: k, arr: []*Cell{}}
		for i := 0; i < k; i++ {
			o := g.add(&Node{op: nHint, hint: h, idx: i})
			h.out = append(h.out, o)
			g.con(cBool, o, nil)
			g.bools[o] = true
			sum = g.gAdd(sum, g.gMul(o, g.Const(new(big.Int).Lsh(big.NewInt(1), uint(i)))))
			out.arr = append(out.arr, &Cell{v: wire(o)})
		}
		g.con(cEq, sum, n)
		return out
	case "FromBinary":
		sum := g.Const(new(big.Int))
		for i, b := range in.nodes(args[0]) {
			g.needBool(b)
			sum = g.gAdd(sum, g.gMul(b, g.Const(new(big.Int).Lsh(big.NewInt(1), uint(i)))))
		}
		return wire(sum)
	case "Println":
		return nil
	case "Compiler":
		return Iface{apiT, &APIObj{"api"}}
	case "NewHint":
		n := toInt(args[1])
		return in.newHint(args[0], n, in.nodes(args[2]))
	case "ConstantValue":
		n := in.node(args[0])
		if n.op == nConst {
			return Tuple{&Cell{v: new(big.Int).Set(n.c)}, true}
		}
		return Tuple{nil, false}
	case "MarkBoolean":
		n := in.node(args[0])
		if n.op == nConst {
			if !g.isBoolConst(n) {
				panic(goPanic{"MarkBoolean of non-boolean constant"})
			}
			return nil
		}
		if !g.bools[n] {
			g.con(cMark, n, nil)
			g.bools[n] = true
		}
		return nil
	case "IsBoolean":
		n := in.node(args[0])
		return g.bools[n] || g.isBoolConst(n)
	case "Field":
		return &Cell{v: new(big.Int).Set(fieldP)}
	case "FieldBitLen":
		return int64(fieldP.BitLen())
	case "Defer":
		g.defers = append(g.defers, deferred{fn: args[0], pos: in.curPos()})
		return nil
	case "FrontendType":
		t := m.Type().(*types.Signature).Results().At(0).Type()
		n := types.Unalias(t).(*types.Named)
		c, ok := n.Obj().Pkg().Scope().Lookup(g.front).(*types.Const)
		if !ok {
			panic(undecided("front end constant " + g.front))
		}
		return constVal(ssa.NewConst(c.Val(), c.Type()))
	}
	panic(undecided("circuit API method " + name))
}

// runDefers executes the callbacks recorded with Compiler().Defer.
func (in *Interp) runDefers() {
	api := Iface{apiT, &APIObj{"api"}}
	for i := 0; i < len(in.g.defers); i++ {
		r := in.callClosure(in.g.defers[i].fn.(*Closure), []Value{api})
		if r != nil {
			panic(undecided("deferred callback returns an error at " + in.w.Pos(in.g.defers[i].pos)))
		}
	}
}

// entry is the constant of a one-column table row.
func (in *Interp) entry(row Value) *big.Int {
	if s, ok := row.(SliceV); ok && s.len == 1 {
		if iv, ok := s.arr[0].load().(Iface); ok && iv.t != wireT {
			switch x := iv.v.(type) {
			case int64, uint64:
				return fieldSigned(bigOf(x))
			}
			return in.node(iv).c
		} else if ok {
			if n := iv.v.(*Node); n.op == nConst {
				return n.c
			}
		}
	}
	panic(undecided("lookup table entry is not a single constant"))
}

func (in *Interp) build(entries, queries Value) Value {
	g := in.g
	g.builds++
	es, _ := entries.(SliceV)
	qs, _ := queries.(SliceV)
	t := &Table{n: es.len, build: g.builds}
	row := func(c *Cell) []*Node {
		s, ok := c.load().(SliceV)
		if !ok {
			panic(undecided("lookup row"))
		}
		var r []*Node
		for i := 0; i < s.len; i++ {
			r = append(r, in.node(s.arr[i].load()))
		}
		return r
	}
	t.rng = true
	for i := 0; i < es.len; i++ {
		c := in.entry(es.arr[i].load())
		if t.rng && (!c.IsInt64() || c.Int64() != int64(i)) {
			t.rng = false
			for k := 0; k < i; k++ {
				t.vals = append(t.vals, big.NewInt(int64(k)))
			}
		}
		if !t.rng {
			t.vals = append(t.vals, c)
		}
	}
	g.entries += es.len
	g.lookups += qs.len
	if qs.len == 0 {
		g.emptyBuilds = append(g.emptyBuilds, in.curPos())
	}
	for i := 0; i < qs.len; i++ {
		r := row(qs.arr[i])
		if len(r) != 1 {
			panic(undecided("lookup query with several columns"))
		}
		c := g.con(cLookup, r[0], nil)
		c.tab = t
	}
	return nil
}

func bigCell(v Value) *Cell {
	c, _ := v.(*Cell)
	if c == nil {
		panic(goPanic{"nil *big.Int"})
	}
	return c
}

func (in *Interp) setBig(z *Cell, v Value) Value {
	switch x := v.(type) {
	case *Poly:
		if b, ok := x.ConstInt(); ok {
			z.v = new(big.Int).Set(b)
		} else {
			z.v = x
		}
	default:
		z.v = v
	}
	return z
}

func (in *Interp) bigIntrinsic(name string, args []Value) (Value, bool) {
	conc := func(i int) (*big.Int, bool) {
		if i >= len(args) {
			return nil, false
		}
		b, ok := bigCell(args[i]).v.(*big.Int)
		return b, ok
	}
	sym := func(i int) *Poly { return in.symPoly(bigCell(args[i]).v) }
	e := in.env
	switch name {
	case "Set":
		z := bigCell(args[0])
		z.v = bigCell(args[1]).v
		return z, true
	case "SetUint64", "SetInt64":
		z := bigCell(args[0])
		if s, ok := args[1].(*SymI); ok {
			return in.setBig(z, s.p), true
		}
		z.v = bigOf(args[1])
		return z, true
	case "Add", "Sub", "Mul", "Div", "Quo", "Mod", "Rem", "And", "Or", "Xor", "AndNot", "GCD":
		z := bigCell(args[0])
		a, ok1 := conc(1)
		b, ok2 := conc(2)
		if ok1 && ok2 {
			if (name == "Div" || name == "Quo" || name == "Mod" || name == "Rem") && b.Sign() == 0 {
				panic(goPanic{"division by zero"})
			}
			r := new(big.Int)
			switch name {
			case "Add":
				r.Add(a, b)
			case "Sub":
				r.Sub(a, b)
			case "Mul":
				r.Mul(a, b)
			case "Div":
				r.Div(a, b)
			case "Quo":
				r.Quo(a, b)
			case "Mod":
				r.Mod(a, b)
			case "Rem":
				r.Rem(a, b)
			case "And":
				r.And(a, b)
			case "Or":
				r.Or(a, b)
			case "Xor":
				r.Xor(a, b)
			case "AndNot":
				r.AndNot(a, b)
			default:
				return nil, false
			}
			z.v = r
			return z, true
		}
		u := e.u
		x, y := sym(1), sym(2)
		switch name {
		case "Add":
			return in.setBig(z, u.Add(x, y)), true
		case "Sub":
			return in.setBig(z, u.Sub(x, y)), true
		case "Mul":
			return in.setBig(z, u.Mul(x, y)), true
		case "Div", "Quo", "Mod", "Rem":
			x, y = e.S(x), e.S(y)
			if e.Zero(y) {
				panic(goPanic{"division by zero"})
			}
			if !e.GT(y) {
				panic(undecided("division by possibly negative value"))
			}
			if (name == "Quo" || name == "Rem") && !e.GE(x) {
				panic(undecided("truncated division of negative value"))
			}
			inv, ok := u.Inv(y)
			if !ok {
				panic(undecided("division by " + u.Str(y)))
			}
			q := e.Floor(u.Mul(x, inv))
			if name == "Div" || name == "Quo" {
				return in.setBig(z, q), true
			}
			return in.setBig(z, e.S(u.Sub(x, u.Mul(q, y)))), true
		case "And":
			if m, ok := y.ConstInt(); ok {
				return in.setBig(z, in.symAnd(x, m)), true
			}
			if m, ok := x.ConstInt(); ok {
				return in.setBig(z, in.symAnd(y, m)), true
			}
		case "Or", "Xor":
			if s, ok := in.disjointSum(x, y); ok {
				return in.setBig(z, s), true
			}
		}
		panic(undecided("symbolic big." + name))
	case "DivMod", "QuoRem":
		q := &Cell{v: new(big.Int)}
		m := &Cell{v: new(big.Int)}
		dn, mn := "Div", "Mod"
		if name == "QuoRem" {
			dn, mn = "Quo", "Rem"
		}
		in.bigIntrinsic(dn, []Value{q, args[1], args[2]})
		in.bigIntrinsic(mn, []Value{m, args[1], args[2]})
		bigCell(args[0]).v = q.v
		bigCell(args[3]).v = m.v
		return Tuple{args[0], args[3]}, true
	case "Neg", "Abs", "Not":
		z := bigCell(args[0])
		if a, ok := conc(1); ok {
			switch name {
			case "Neg":
				z.v = new(big.Int).Neg(a)
			case "Abs":
				z.v = new(big.Int).Abs(a)
			default:
				z.v = new(big.Int).Not(a)
			}
			return z, true
		}
		x := sym(1)
		switch name {
		case "Neg":
			return in.setBig(z, e.u.Neg(x)), true
		case "Abs":
			if e.GE(x) {
				return in.setBig(z, x), true
			}
			return in.setBig(z, e.u.Neg(x)), true
		}
	case "Lsh", "Rsh":
		z := bigCell(args[0])
		if a, ok := conc(1); ok && !isSym(args[2]) {
			k := uint64(toInt(args[2]))
			if k > 1<<20 {
				panic(undecided("huge shift"))
			}
			if name == "Lsh" {
				z.v = new(big.Int).Lsh(a, uint(k))
			} else {
				z.v = new(big.Int).Rsh(a, uint(k))
			}
			return z, true
		}
		x := sym(1)
		k := in.symPoly(args[2])
		if name == "Lsh" {
			return in.setBig(z, e.S(e.u.Mul(x, e.u.Pow2(k)))), true
		}
		return in.setBig(z, e.Floor(e.u.Mul(x, e.u.Pow2(e.u.Neg(k))))), true
	case "Bit":
		if a, ok := conc(0); ok && !isSym(args[1]) {
			return uint64(a.Bit(toInt(args[1]))), true
		}
		x := e.S(sym(0))
		i := in.symPoly(args[1])
		k, ok := i.Int64()
		if !ok {
			panic(undecided("bit index"))
		}
		return in.symBit(x, k), true
	case "BitLen":
		if a, ok := conc(0); ok {
			return int64(a.BitLen()), true
		}
		x := e.S(sym(0))
		if e.Zero(x) {
			return int64(0), true
		}
		if !e.GT(x) {
			x = e.u.Neg(x)
		}
		return in.symI(e.u.Add(e.Lg(x), e.u.one)), true
	case "Cmp", "CmpAbs":
		if a, ok := conc(0); ok {
			if b, ok := conc(1); ok {
				if name == "Cmp" {
					return int64(a.Cmp(b)), true
				}
				return int64(a.CmpAbs(b)), true
			}
		}
		if name == "CmpAbs" {
			panic(undecided("CmpAbs"))
		}
		d := e.u.Sub(sym(0), sym(1))
		return in.cmp3(d), true
	case "Sign":
		if a, ok := conc(0); ok {
			return int64(a.Sign()), true
		}
		return in.cmp3(sym(0)), true
	case "Sqrt":
		z := bigCell(args[0])
		if a, ok := conc(1); ok {
			if a.Sign() < 0 {
				panic(goPanic{"square root of negative number"})
			}
			z.v = new(big.Int).Sqrt(a)
			return z, true
		}
		x := e.S(sym(1))
		if !e.GE(x) {
			panic(goPanic{"square root of negative number"})
		}
		return in.setBig(z, e.Isqrt(x)), true
	case "IsUint64", "IsInt64":
		if a, ok := conc(0); ok {
			if name == "IsInt64" {
				return a.IsInt64(), true
			}
			return a.IsUint64(), true
		}
		x := e.S(sym(0))
		lim := pow2Rat(64)
		lo := e.u.zero
		if name == "IsInt64" {
			lim = pow2Rat(63)
			lo = e.u.constRat(new(big.Rat).Neg(lim))
		}
		return e.GE(e.u.Sub(x, lo)) && !e.GE(e.u.Sub(x, e.u.constRat(lim))), true
	case "Uint64", "Int64":
		if a, ok := conc(0); ok {
			t := types.Typ[types.Uint64]
			if name == "Int64" {
				t = types.Typ[types.Int64]
			}
			return wrapInt(a, t), true
		}
		x := e.S(sym(0))
		if name == "Uint64" {
			return in.fit(x, types.Typ[types.Uint64]), true
		}
		return in.fit(x, types.Typ[types.Int64]), true
	case "Exp":
		z := bigCell(args[0])
		a, ok1 := conc(1)
		b, ok2 := conc(2)
		var m *big.Int
		if args[3] != nil {
			m, _ = conc(3)
		}
		if ok1 && ok2 {
			if b.BitLen() > 16 && (m == nil || m.Sign() == 0) {
				panic(undecided("huge power"))
			}
			z.v = new(big.Int).Exp(a, b, m)
			return z, true
		}
		if ok1 && a.Cmp(big.NewInt(2)) == 0 && m == nil {
			return in.setBig(z, e.u.Pow2(sym(2))), true
		}
	case "SetBit":
		z := bigCell(args[0])
		if a, ok := conc(1); ok && !isSym(args[2]) && !isSym(args[3]) {
			z.v = new(big.Int).SetBit(a, toInt(args[2]), uint(toInt(args[3])))
			return z, true
		}
		if a, ok := conc(1); ok && a.Sign() == 0 && !isSym(args[3]) && toInt(args[3]) == 1 {
			return in.setBig(z, e.u.Pow2(in.symPoly(args[2]))), true
		}
	case "SetString":
		z := bigCell(args[0])
		b, ok := new(big.Int).SetString(args[1].(string), toInt(args[2]))
		if !ok {
			return Tuple{nil, false}, true
		}
		z.v = b
		return Tuple{z, true}, true
	case "TrailingZeroBits":
		if a, ok := conc(0); ok {
			return uint64(a.TrailingZeroBits()), true
		}
	case "ModInverse":
		z := bigCell(args[0])
		a, ok1 := conc(1)
		b, ok2 := conc(2)
		if ok1 && ok2 {
			r := new(big.Int).ModInverse(a, b)
			if r == nil {
				return nil, true
			}
			z.v = r
			return z, true
		}
	case "String", "Text":
		if a, ok := conc(0); ok {
			return a.String(), true
		}
	}
	panic(undecided("big." + name))
}

func (in *Interp) symI(p *Poly) Value {
	p = in.env.S(p)
	if c, ok := p.ConstInt(); ok && c.IsInt64() {
		return c.Int64()
	}
	return &SymI{p}
}

func (in *Interp) symBit(x *Poly, k int64) Value {
	e := in.env
	u := e.u
	if k < 0 {
		panic(goPanic{"negative bit index"})
	}
	b := e.bounds(x)
	if b.lo == nil || b.lo.Sign() < 0 {
		if !e.GE(x) {
			panic(undecided("bit of negative value"))
		}
		b = e.bounds(x)
	}
	if b.hi != nil && b.hi.Cmp(pow2Rat(k)) < 0 {
		return uint64(0)
	}
	if b.hi != nil && b.lo != nil && b.hi.Cmp(pow2Rat(k+1)) < 0 {
		if b.lo.Cmp(pow2Rat(k)) >= 0 {
			return uint64(1)
		}
		if e.GE(u.Sub(x, u.Pow2Int(k))) {
			return uint64(1)
		}
		return uint64(0)
	}
	hi := e.Floor(u.Scale(x, pow2Rat(-k-1)))
	lo := e.Floor(u.Scale(x, pow2Rat(-k)))
	d := e.S(u.Sub(lo, u.ScaleInt(hi, 2)))
	if c, ok := d.ConstInt(); ok {
		return c.Uint64()
	}
	if e.GE(u.Sub(d, u.one)) {
		return uint64(1)
	}
	return uint64(0)
}

func (in *Interp) cmp3(d *Poly) Value {
	e := in.env
	d = e.S(d)
	if !e.GE(d) {
		return int64(-1)
	}
	if e.Zero(d) {
		return int64(0)
	}
	return int64(1)
}

func (in *Interp) intrinsic(fn *ssa.Function, args []Value) (Value, bool) {
	if fn.Pkg == nil && fn.Object() == nil {
		return nil, false
	}
	name := fn.String()
	if strings.HasPrefix(name, "(*math/big.Int).") {
		return in.bigIntrinsic(fn.Name(), args)
	}
	switch name {
	case "math/big.NewInt":
		c := &Cell{v: new(big.Int)}
		if in.opq != nil {
			in.opq.fresh[c] = true
		}
		if s, ok := args[0].(*SymI); ok {
			return in.setBig(c, s.p), true
		}
		c.v = bigOf(args[0])
		return c, true
	case "math.Float64bits":
		if s, ok := args[0].(SymF); ok {
			return &SymI{in.symPoly(in.env.u.V("bits64:" + s.name))}, true
		}
		return math.Float64bits(args[0].(float64)), true
	case "math.Float32bits":
		if s, ok := args[0].(SymF); ok {
			return &SymI{in.symPoly(in.env.u.V("bits32:" + s.name))}, true
		}
		return uint64(math.Float32bits(float32(args[0].(float64)))), true
	case "math.Float64frombits", "math.Float32frombits":
		if s, ok := args[0].(*SymI); ok {
			return symFloatBits{name == "math.Float64frombits", s.p}, true
		}
		if name == "math.Float64frombits" {
			return math.Float64frombits(args[0].(uint64)), true
		}
		return float64(math.Float32frombits(uint32(args[0].(uint64)))), true
	case "sort.Slice", "sort.SliceStable":
		return in.sortSlice(name, args)
	case "fmt.Errorf", "errors.New":
		return Iface{errT, ErrV{fmt.Sprint(args[0])}}, true
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return "<formatted>", true
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		return Tuple{int64(0), nil}, true
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "math" {
		one := map[string]func(float64) float64{"Sqrt": math.Sqrt, "Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Abs": math.Abs,
			"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Atan": math.Atan, "Asin": math.Asin, "Acos": math.Acos, "Log2": math.Log2, "Exp2": math.Exp2, "Round": math.Round}
		if f, ok := one[fn.Name()]; ok && len(args) == 1 {
			if _, s := args[0].(SymF); s {
				return SymF{fn.Name()}, true
			}
			return f(args[0].(float64)), true
		}
		switch fn.Name() {
		case "Pow", "Atan2", "Mod", "Max", "Min", "Ldexp":
			x, ok1 := args[0].(float64)
			y, ok2 := args[1].(float64)
			if ok1 && ok2 {
				switch fn.Name() {
				case "Pow":
					return math.Pow(x, y), true
				case "Atan2":
					return math.Atan2(x, y), true
				case "Mod":
					return math.Mod(x, y), true
				case "Max":
					return math.Max(x, y), true
				case "Min":
					return math.Min(x, y), true
				}
			}
		}
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "math/bits" && len(args) == 1 {
		var w int
		var base string
		for _, c := range []struct {
			s string
			w int
		}{{"64", 64}, {"32", 32}, {"16", 16}, {"8", 8}, {"", 64}} {
			if strings.HasSuffix(fn.Name(), c.s) {
				w, base = c.w, strings.TrimSuffix(fn.Name(), c.s)
				break
			}
		}
		if s, ok := args[0].(*SymI); ok {
			if base == "Len" || base == "LeadingZeros" {
				e := in.env
				var l *Poly
				if e.Zero(s.p) {
					l = e.u.zero
				} else {
					l = e.u.Add(e.Lg(s.p), e.u.one)
				}
				if base == "LeadingZeros" {
					l = e.u.Sub(e.u.Int(int64(w)), l)
				}
				return in.symI(l), true
			}
			panic(undecided("bits." + fn.Name()))
		}
		x := args[0].(uint64)
		switch base {
		case "Len":
			return int64(bits.Len64(x)), true
		case "LeadingZeros":
			return int64(w - bits.Len64(x)), true
		case "TrailingZeros":
			if x == 0 {
				return int64(w), true
			}
			return int64(bits.TrailingZeros64(x)), true
		case "OnesCount":
			return int64(bits.OnesCount64(x)), true
		}
	}
	if strings.HasSuffix(name, "gnark/constraint/solver.RegisterHint") {
		in.register(args[0])
		return nil, true
	}
	if strings.HasSuffix(name, "std/logderivarg.Build") {
		return in.build(args[1], args[2]), true
	}
	return nil, false
}

// symFloatBits is a native float given by its symbolic bit pattern.
type symFloatBits struct {
	f64 bool
	p   *Poly
}

// sortSlice sorts in place, swapping elements and asking the less function about indices, as the library does.
func (in *Interp) sortSlice(name string, args []Value) (Value, bool) {
	x, ok := args[0].(Iface)
	if !ok {
		return nil, false
	}
	s, ok := x.v.(SliceV)
	less, ok2 := args[1].(*Closure)
	if !ok || !ok2 {
		return nil, false
	}
	lt := func(i, j int) bool {
		b, ok := in.callClosure(less, []Value{int64(i), int64(j)}).(bool)
		if !ok {
			panic(undecided(name + " by an undecided order"))
		}
		return b
	}
	for i := 1; i < s.len; i++ {
		for j := i; j > 0 && lt(j, j-1); j-- {
			a, b := s.arr[j].load(), s.arr[j-1].load()
			s.arr[j].store(b)
			s.arr[j-1].store(a)
		}
	}
	if name == "sort.Slice" && s.len > 12 {
		for i := 1; i < s.len; i++ {
			if !lt(i-1, i) {
				panic(undecided("sort.Slice of equal elements in unspecified order"))
			}
		}
	}
	return nil, true
}

// boolShape recognises a == b as x*(x-1) == 0 up to a constant factor, and returns x.
func boolShape(a, b *Node) *Node {
	l := newLin(a).sub(newLin(b))
	var m *Node
	var c *big.Rat
	rest := &Lin{k: l.k}
	for i, n := range l.n {
		if n.op != nMul {
			rest.n, rest.c = append(rest.n, n), append(rest.c, l.c[i])
			continue
		}
		if m != nil {
			return nil
		}
		m, c = n, l.c[i]
	}
	if m == nil {
		return nil
	}
	x, y := newLin(m.arg[0]), newLin(m.arg[1])
	if len(rest.n) == 0 && rest.k.Sign() == 0 {
		// x*y == 0 with the factors differing by one or adding up to one
		d := x.sub(y)
		if len(d.n) == 0 && d.k.Cmp(ratOne) == 0 {
			return m.arg[0]
		}
		if len(d.n) == 0 && d.k.Cmp(ratMinusOne) == 0 {
			return m.arg[1]
		}
		neg := &Lin{k: new(big.Rat).Neg(y.k)}
		for i := range y.n {
			neg.n, neg.c = append(neg.n, y.n[i]), append(neg.c, new(big.Rat).Neg(y.c[i]))
		}
		if d = x.sub(neg); len(d.n) == 0 && d.k.Cmp(ratOne) == 0 {
			return m.arg[0]
		}
		return nil
	}
	if d := x.sub(y); len(d.n) != 0 || d.k.Sign() != 0 {
		return nil
	}
	// c*x*x + rest == 0 with rest = -c*x
	for i := range x.n {
		rest.add(x.n[i], new(big.Rat).Mul(c, x.c[i]))
	}
	rest.k = new(big.Rat).Add(rest.k, new(big.Rat).Mul(c, x.k))
	for _, k := range rest.c {
		if k.Sign() != 0 {
			return nil
		}
	}
	if rest.k.Sign() != 0 {
		return nil
	}
	return m.arg[0]
}
