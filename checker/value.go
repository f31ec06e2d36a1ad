package main

// Values of the abstract interpreter. Natives: int64 (signed), uint64 (unsigned), float64, string, bool.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Cell struct {
	v   Value
	sub []*Cell // fields or elements
	t   types.Type
}

type StructV struct { // struct or array value
	t types.Type
	f []Value
}

type SliceV struct {
	arr      []*Cell // backing cells, starting at offset 0 of the slice
	len, cap int
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn     *ssa.Function
	bound  []Value
	bi     string // builtin or api bound method
	recv   Value
	native func(in *Interp, args []Value) Value
}

type Tuple []Value

type MapV struct {
	keys []Value
	vals []Value
}

type mapIter struct {
	m *MapV
	i int
}

type strIter struct {
	s []rune
	i int
	o []int
}

// SymI is a symbolic native integer.
type SymI struct{ p *Poly }

// SymF is an uninterpreted native float.
type SymF struct{ name string }

// Opaque is any value of its type; t says where it comes from.
type Opaque struct{ t *HTerm }

type APIObj struct{ kind string } // "api"

type pseudoType struct {
	types.Type
	name string
}

func (p *pseudoType) String() string         { return p.name }
func (p *pseudoType) Underlying() types.Type { return p }

var wireT = &pseudoType{name: "wire"}
var apiT = &pseudoType{name: "frontend.API"}
var errT = &pseudoType{name: "error"}

type ErrV struct{ msg string }

type goPanic struct{ v Value }

func isBigInt(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Int" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big"
}

func zeroOf(t types.Type) Value {
	if isBigInt(t) {
		return new(big.Int)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return nil
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsUnsigned != 0:
			return uint64(0)
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		}
	case *types.Struct:
		s := &StructV{t: t, f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = zeroOf(u.Field(i).Type())
		}
		return s
	case *types.Array:
		s := &StructV{t: t, f: make([]Value, u.Len())}
		for i := range s.f {
			s.f[i] = zeroOf(u.Elem())
		}
		return s
	case *types.Slice:
		return SliceV{}
	case *types.Pointer, *types.Map, *types.Signature, *types.Interface, *types.Chan:
		return nil
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zeroOf(u.At(i).Type())
		}
		return r
	}
	panic(undecided("zero value of " + t.String()))
}

func newCell(t types.Type) *Cell {
	c := &Cell{t: t}
	if !isBigInt(t) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			c.sub = make([]*Cell, u.NumFields())
			for i := range c.sub {
				c.sub[i] = newCell(u.Field(i).Type())
			}
			return c
		case *types.Array:
			c.sub = make([]*Cell, u.Len())
			for i := range c.sub {
				c.sub[i] = newCell(u.Elem())
			}
			return c
		}
	}
	c.v = zeroOf(t)
	return c
}

func (c *Cell) load() Value {
	if c.sub == nil {
		if c.t != nil && !isBigInt(c.t) {
			switch u := c.t.Underlying().(type) {
			case *types.Struct:
				return &StructV{t: c.t}
			case *types.Array:
				_ = u
				return &StructV{t: c.t}
			}
		}
		return c.v
	}
	s := &StructV{t: c.t, f: make([]Value, len(c.sub))}
	for i, x := range c.sub {
		s.f[i] = x.load()
	}
	return s
}

func (c *Cell) store(v Value) {
	if s, ok := v.(*StructV); ok {
		if len(s.f) != len(c.sub) {
			panic(undecided("store of mismatched aggregate"))
		}
		for i, x := range s.f {
			c.sub[i].store(x)
		}
		return
	}
	if o, ok := v.(Opaque); ok && c.sub != nil {
		for i, x := range c.sub {
			x.store(o.part("field " + fieldName(c.t, i)))
		}
		return
	}
	c.v = v
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		if _, isIf := t.(*types.Interface); isIf {
			panic(undecided("interface constant"))
		}
		panic(undecided("constant of type " + c.Type().String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsString != 0:
		return constant.StringVal(c.Value)
	case b.Info()&types.IsUnsigned != 0:
		return c.Uint64()
	case b.Info()&types.IsInteger != 0:
		return c.Int64()
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if b.Kind() == types.Float32 {
			f32, _ := constant.Float32Val(constant.ToFloat(c.Value))
			return float64(f32)
		}
		return f
	}
	panic(undecided("constant " + c.String()))
}

func bitsOf(t types.Type) (int, bool) { // size, unsigned
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true
	}
	panic(undecided("integer width of " + t.String()))
}

func wrapInt(v *big.Int, t types.Type) Value {
	n, uns := bitsOf(t)
	m := new(big.Int).Lsh(big.NewInt(1), uint(n))
	r := new(big.Int).Mod(v, m)
	if uns {
		return r.Uint64()
	}
	if r.Bit(n-1) == 1 {
		r.Sub(r, m)
	}
	return r.Int64()
}

func bigOf(v Value) *big.Int {
	switch x := v.(type) {
	case int64:
		return big.NewInt(x)
	case uint64:
		return new(big.Int).SetUint64(x)
	}
	panic(undecided(fmt.Sprintf("integer expected, have %T", v)))
}

func toInt(v Value) int {
	switch x := v.(type) {
	case int64:
		return int(x)
	case uint64:
		return int(x)
	case *SymI:
		if i, ok := x.p.Int64(); ok {
			return int(i)
		}
		panic(undecided("symbolic value where a constant is needed"))
	}
	panic(undecided(fmt.Sprintf("integer expected, have %T", v)))
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func basicInfo(t types.Type) types.BasicInfo {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()
	}
	return 0
}

func roundF(v float64, t types.Type) float64 {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		return float64(float32(v))
	}
	return v
}

func eqVal(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		switch y := b.(type) {
		case nil:
			return true
		case *Cell:
			return y == nil
		case SliceV:
			return y.arr == nil
		case *MapV:
			return y == nil
		case *Closure:
			return y == nil
		case Iface:
			return false
		}
		return false
	case SliceV:
		if b == nil {
			return x.arr == nil
		}
		if y, ok := b.(SliceV); ok {
			return x.arr == nil && y.arr == nil
		}
		return false
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.t != y.t && !types.Identical(x.t, y.t) {
			return false
		}
		return eqVal(x.v, y.v)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !eqVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case ErrV:
		return false
	}
	if b == nil {
		return false
	}
	return a == b
}

var _ = math.Pi
var _ token.Pos
