package main

// Wire graph extracted from the circuit-building code.

import (
	"go/token"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type NOp int

const (
	nConst NOp = iota
	nInput
	nHint
	nAdd
	nSub
	nNeg
	nMul
	nInv
	nDiv // unchecked division a/b
	nSelect
	nIsZero
	nAnd
	nOr
	nXor
	nFloat // component of an uninterpreted float term
	nCmp   // uninterpreted comparison of float terms
)

type HintCall struct {
	id   int
	fn   *ssa.Function
	in   []*Node
	out  []*Node
	pos  token.Pos
	fr   string
	site *ssa.Function
}

type Node struct {
	id   int
	op   NOp
	arg  []*Node
	c    *big.Int
	name string
	hint *HintCall
	idx  int
	pos  token.Pos
	ft   *FTerm // nFloat, nCmp
}

type CKind int

const (
	cEq CKind = iota
	cNeq
	cBool
	cNonzero
	cLookup
	cMark // MarkBoolean: a claim, not a constraint
	cLe   // a <= b as canonical residues
)

type Constraint struct {
	id   int
	kind CKind
	a, b *Node
	tab  *Table
	pos  token.Pos
	impl bool // implicit boolean constraint
}

type Table struct {
	vals  []*big.Int
	rng   bool // exactly 0..n-1
	n     int
	build int
}

type Graph struct {
	nodes       []*Node
	cons        []*Constraint
	hints       []*HintCall
	consts      map[string]*Node
	memo        map[string]*Node
	bools       map[*Node]bool // marked or asserted boolean so far
	in          *Interp
	defers      []deferred
	builds      int
	lookups     int // logderivarg.Build queries
	entries     int
	front       string // R1CS or SCS
	commits     int
	emptyBuilds []token.Pos
}

type deferred struct {
	fn   Value
	pos  token.Pos
	done bool
}

func newGraph(in *Interp, front string) *Graph {
	return &Graph{consts: map[string]*Node{}, memo: map[string]*Node{}, bools: map[*Node]bool{}, in: in, front: front}
}

func (g *Graph) pos() token.Pos {
	if g.in == nil {
		return token.NoPos
	}
	return g.in.curPos()
}

func (g *Graph) add(n *Node) *Node {
	n.id = len(g.nodes)
	n.pos = g.pos()
	g.nodes = append(g.nodes, n)
	return n
}

func (g *Graph) Const(v *big.Int) *Node {
	v = fieldSigned(v)
	k := v.String()
	if n, ok := g.consts[k]; ok {
		return n
	}
	n := g.add(&Node{op: nConst, c: v})
	g.consts[k] = n
	return n
}

func (g *Graph) Input(name string) *Node { return g.add(&Node{op: nInput, name: name}) }

func (g *Graph) op(op NOp, a ...*Node) *Node {
	k := string(rune('A' + int(op)))
	for _, x := range a {
		k += "," + itoa(x.id)
	}
	if n, ok := g.memo[k]; ok {
		return n
	}
	n := g.add(&Node{op: op, arg: a})
	g.memo[k] = n
	return n
}

func (g *Graph) con(kind CKind, a, b *Node) *Constraint {
	c := &Constraint{id: len(g.cons), kind: kind, a: a, b: b, pos: g.pos()}
	g.cons = append(g.cons, c)
	return c
}

func (g *Graph) isBoolConst(n *Node) bool {
	return n.op == nConst && (n.c.Sign() == 0 || n.c.Cmp(big.NewInt(1)) == 0)
}

// needBool models the implicit boolean assertion of Select/And/Or/Xor.
func (g *Graph) needBool(n *Node) {
	if g.bools[n] || g.isBoolConst(n) {
		return
	}
	c := g.con(cBool, n, nil)
	c.impl = true
	g.bools[n] = true
}

var fieldP, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)
var fieldHalf = new(big.Int).Rsh(fieldP, 1)

// fieldSigned maps a residue to its representative of least magnitude.
func fieldSigned(v *big.Int) *big.Int {
	r := new(big.Int).Mod(v, fieldP)
	if r.Cmp(fieldHalf) > 0 {
		r.Sub(r, fieldP)
	}
	return r
}

func itoa(i int) string { return big.NewInt(int64(i)).String() }

// FTerm is an uninterpreted operation on float variables or wires, used when the operations themselves are not being
// analysed (they are decided on their own).
type FTerm struct {
	op   string
	arg  [][4]*Node // float operands
	wire []*Node    // wire operands
	n    int64      // constant operand
	comp [4]*Node   // result: a float variable ...
	out  *Node      // ... or a wire
	id   int
	pos  token.Pos
}
