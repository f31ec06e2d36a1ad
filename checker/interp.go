package main

// Abstract interpreter over SSA: configuration values are constants, circuit wires are graph nodes, hint inputs
// are symbolic integers.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Interp struct {
	w       *World
	globals map[*ssa.Global]*Cell
	inited  map[*ssa.Package]bool
	g       *Graph
	env     *Env // symbolic mode
	frames  []*frame
	steps   int
	limit   int
	hook    func(in *Interp, fn *ssa.Function, args []Value) (Value, bool) // intercepts calls
	touched map[string]bool                                                // functions interpreted
	gwrites map[string]bool                                                // writes to globals after init
	initing bool
	effects []string

	opq        *opaqueRun // exploration with opaque values
	exp        *explorer  // exploration of host code
	registered map[*ssa.Function]*ssa.Package
}

type frame struct {
	fn      *ssa.Function
	vals    map[ssa.Value]Value
	defers  []func()
	instr   ssa.Instruction
	retVals []Value
}

func newInterp(w *World) *Interp {
	in := &Interp{w: w, globals: map[*ssa.Global]*Cell{}, inited: map[*ssa.Package]bool{}, limit: 60_000_000,
		touched: map[string]bool{}, gwrites: map[string]bool{}}
	return in
}

func (in *Interp) curPos() token.Pos {
	for i := len(in.frames) - 1; i >= 0; i-- {
		f := in.frames[i]
		if f.fn.Pkg == nil || !in.w.isRepo(f.fn.Pkg.Pkg.Path()) {
			continue
		}
		if f.instr != nil && f.instr.Pos() != token.NoPos {
			return f.instr.Pos()
		}
	}
	return token.NoPos
}

// where renders the call stack inside the repository, innermost first.
func (in *Interp) where() string {
	var out []string
	for i := len(in.frames) - 1; i >= 0; i-- {
		f := in.frames[i]
		if f.fn.Pkg == nil || !in.w.isRepo(f.fn.Pkg.Pkg.Path()) {
			continue
		}
		p := token.NoPos
		if f.instr != nil {
			p = f.instr.Pos()
		}
		out = append(out, f.fn.Name()+"@"+in.w.Pos(p))
	}
	return strings.Join(out, " < ")
}

func (in *Interp) initPkg(p *ssa.Package) {
	if p == nil || in.inited[p] {
		return
	}
	in.inited[p] = true
	for _, imp := range p.Pkg.Imports() {
		if in.w.isRepo(imp.Path()) {
			in.initPkg(in.w.prog.Package(imp))
		}
	}
	if f := p.Func("init"); f != nil && f.Blocks != nil {
		old := in.initing
		in.initing = true
		in.call(f, nil)
		in.initing = old
	}
}

func (in *Interp) global(g *ssa.Global) *Cell {
	if c, ok := in.globals[g]; ok {
		return c
	}
	c := newCell(g.Type().(*types.Pointer).Elem())
	if in.exp != nil && g.Pkg != nil && !in.w.isRepo(g.Pkg.Pkg.Path()) {
		return in.exp.cell(mkTerm("variable "+g.String()), c.t)
	}
	if g.Pkg != nil && !in.w.isRepo(g.Pkg.Pkg.Path()) && !in.initing {
		if !g.Object().Exported() || true {
			// library globals are not initialised by this interpreter
			if _, isIf := c.t.Underlying().(*types.Interface); isIf {
				c.v = Iface{t: errT, v: ErrV{g.String()}}
			} else {
				panic(undecided("reads library variable " + g.String()))
			}
		}
	}
	in.globals[g] = c
	return c
}

func (in *Interp) get(f *frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		return in.global(x)
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Builtin:
		return &Closure{bi: x.Name()}
	}
	r, ok := f.vals[v]
	if !ok {
		panic(undecided("unset value " + v.Name() + " in " + f.fn.String()))
	}
	return r
}

// Call interprets fn.
func (in *Interp) call(fn *ssa.Function, args []Value) Value {
	if in.hook != nil {
		if v, ok := in.hook(in, fn, args); ok {
			return v
		}
	}
	if in.opq != nil {
		if v, ok := in.opaqueCall(fn, args); ok {
			return v
		}
	}
	if in.initing && fn.Synthetic != "package initializer" && !in.w.inRepo(fn) {
		if pkg := calleePkg(fn); pkg != "" && !in.w.isRepo(pkg) {
			return in.initCall(fn, args, pkg)
		}
	}
	return in.callBody(fn, args)
}

func calleePkg(fn *ssa.Function) string {
	_, p := libName(fn)
	return p
}

// initCall: library calls of package initialisers; what the interpreter has no model of is an unknown value, which
// only matters where it is used.
func (in *Interp) initCall(fn *ssa.Function, args []Value, pkg string) (v Value) {
	for _, a := range args {
		if isOpaque(a) {
			return unknownResult(fn.Signature, libNameOf(fn), args)
		}
	}
	if !purePkgs[pkg] && pkg != "fmt" && !strings.Contains(pkg, "gnark") {
		return unknownResult(fn.Signature, libNameOf(fn), args)
	}
	depth := len(in.frames)
	defer func() {
		if c := recover(); c != nil {
			switch c.(type) {
			case undecidedErr, goPanic:
				in.frames = in.frames[:depth]
				v = unknownResult(fn.Signature, libNameOf(fn), args)
			default:
				panic(c)
			}
		}
	}()
	return in.callBody(fn, args)
}

func libNameOf(fn *ssa.Function) string {
	n, _ := libName(fn)
	return n
}

func unknownResult(sig *types.Signature, name string, args []Value) Value {
	ev := &libEvent{name: name, args: args}
	new(explorer).results(ev, sig, name)
	return new(explorer).pack(ev)
}

func (in *Interp) callBody(fn *ssa.Function, args []Value) Value {
	if v, ok := in.intrinsic(fn, args); ok {
		return v
	}
	if fn.Blocks == nil {
		panic(undecided("call of external function " + fn.String()))
	}
	if fn.Name() == "init" && fn.Synthetic == "package initializer" && fn.Pkg != nil && !in.w.isRepo(fn.Pkg.Pkg.Path()) {
		return nil
	}
	if len(in.frames) > 200 {
		panic(undecided("call depth limit in " + fn.String()))
	}
	if fn.Pkg != nil && in.w.isRepo(fn.Pkg.Pkg.Path()) {
		in.touched[fn.String()] = true
	}
	f := &frame{fn: fn, vals: make(map[ssa.Value]Value, 64)}
	for i, p := range fn.Params {
		f.vals[p] = args[i]
	}
	in.frames = append(in.frames, f)
	depth := len(in.frames)
	var ret Value
	func() {
		defer func() {
			if r := recover(); r != nil {
				if gp, ok := r.(goPanic); ok && len(f.defers) > 0 {
					in.frames = in.frames[:depth]
					for len(f.defers) > 0 {
						d := f.defers[len(f.defers)-1]
						f.defers = f.defers[:len(f.defers)-1]
						d()
					}
					_ = gp
				}
				panic(r)
			}
		}()
		ret = in.run(f)
	}()
	in.frames = in.frames[:depth-1]
	return ret
}

func (in *Interp) callClosure(c *Closure, args []Value) Value {
	if c == nil {
		panic(goPanic{"nil function call"})
	}
	if c.native != nil {
		return c.native(in, args)
	}
	if c.bi != "" {
		return in.builtin(c.bi, args, nil)
	}
	if len(c.bound) > 0 {
		// free variables
		fn := c.fn
		if v, ok := in.intrinsic(fn, args); ok {
			return v
		}
		if fn.Blocks == nil {
			panic(undecided("closure without body " + fn.String()))
		}
		f := &frame{fn: fn, vals: make(map[ssa.Value]Value, 32)}
		for i, p := range fn.Params {
			f.vals[p] = args[i]
		}
		for i, fv := range fn.FreeVars {
			f.vals[fv] = c.bound[i]
		}
		in.frames = append(in.frames, f)
		depth := len(in.frames)
		ret := in.run(f)
		in.frames = in.frames[:depth-1]
		return ret
	}
	return in.call(c.fn, args)
}

func (in *Interp) run(f *frame) Value {
	b := f.fn.Blocks[0]
	var prev *ssa.BasicBlock
	for {
		in.steps += len(b.Instrs)
		if in.steps > in.limit {
			panic(undecided("step limit in " + f.fn.String()))
		}
		// phis evaluate in parallel
		var phiVals []Value
		nphi := 0
		for _, ins := range b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			nphi++
			for i, p := range b.Preds {
				if p == prev {
					phiVals = append(phiVals, in.get(f, ph.Edges[i]))
					break
				}
			}
		}
		for i := 0; i < nphi; i++ {
			f.vals[b.Instrs[i].(*ssa.Phi)] = phiVals[i]
		}
		var next *ssa.BasicBlock
		for _, ins := range b.Instrs[nphi:] {
			f.instr = ins
			switch x := ins.(type) {
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				c := in.get(f, x.Cond)
				if in.truth(c) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
					return nil
				case 1:
					return in.get(f, x.Results[0])
				}
				t := make(Tuple, len(x.Results))
				for i, r := range x.Results {
					t[i] = in.get(f, r)
				}
				return t
			case *ssa.Panic:
				panic(goPanic{in.get(f, x.X)})
			default:
				in.exec(f, ins)
			}
		}
		prev, b = b, next
	}
}

func (in *Interp) truth(c Value) bool {
	switch x := c.(type) {
	case bool:
		return x
	case *Node:
		panic(undecided("circuit construction branches on a wire"))
	case Opaque:
		if in.exp != nil {
			return in.exp.truth(in, x)
		}
		if in.opq != nil {
			return in.opq.decide(in)
		}
	}
	panic(undecided(fmt.Sprintf("branch on %T", c)))
}

func (in *Interp) exec(f *frame, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		c := newCell(x.Type().Underlying().(*types.Pointer).Elem())
		if in.opq != nil {
			in.opq.fresh[c] = true
		}
		f.vals[x] = c
	case *ssa.BinOp:
		f.vals[x] = in.binop(x.Op, in.get(f, x.X), in.get(f, x.Y), x.X.Type(), x.Type())
	case *ssa.UnOp:
		f.vals[x] = in.unop(f, x)
	case *ssa.Call:
		f.vals[x] = in.doCall(f, &x.Call)
	case *ssa.ChangeInterface:
		f.vals[x] = in.get(f, x.X)
	case *ssa.ChangeType:
		v := in.get(f, x.X)
		if s, ok := v.(*StructV); ok {
			v = &StructV{t: x.Type(), f: s.f}
		}
		f.vals[x] = v
	case *ssa.Convert:
		f.vals[x] = in.convert(in.get(f, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		f.vals[x] = in.convert(in.get(f, x.X), x.X.Type(), x.Type())
	case *ssa.Defer:
		call := x.Call
		fv, args := in.prepCall(f, &call)
		f.defers = append(f.defers, func() { in.invoke(fv, args, &call) })
	case *ssa.RunDefers:
		for len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			d()
		}
	case *ssa.Extract:
		f.vals[x] = in.get(f, x.Tuple).(Tuple)[x.Index]
	case *ssa.Field:
		if o, ok := in.get(f, x.X).(Opaque); ok && in.exp != nil {
			f.vals[x] = o.part("field " + fieldName(x.X.Type(), x.Field))
			return
		}
		s, ok := in.get(f, x.X).(*StructV)
		if !ok {
			panic(undecided("field of non-struct"))
		}
		f.vals[x] = s.f[x.Field]
	case *ssa.FieldAddr:
		if o, ok := in.unknownPtr(in.get(f, x.X)); ok {
			f.vals[x] = in.exp.cell(o.part("field "+fieldName(x.X.Type(), x.Field)), x.Type().Underlying().(*types.Pointer).Elem())
			return
		}
		c, _ := in.get(f, x.X).(*Cell)
		if c == nil {
			panic(goPanic{"nil pointer dereference in " + f.fn.String()})
		}
		if c.sub == nil {
			panic(undecided("field address in opaque value in " + f.fn.String()))
		}
		f.vals[x] = c.sub[x.Field]
	case *ssa.Index:
		if in.exp != nil && (isOpaque(in.get(f, x.X)) || isOpaque(in.get(f, x.Index))) {
			f.vals[x] = mkTerm("index", in.get(f, x.X), in.get(f, x.Index))
			return
		}
		i := toInt(in.get(f, x.Index))
		switch s := in.get(f, x.X).(type) {
		case *StructV:
			if i < 0 || i >= len(s.f) {
				panic(goPanic{"index out of range"})
			}
			f.vals[x] = s.f[i]
		case string:
			if i < 0 || i >= len(s) {
				panic(goPanic{"index out of range"})
			}
			f.vals[x] = uint64(s[i])
		default:
			panic(undecided("index"))
		}
	case *ssa.IndexAddr:
		if in.exp != nil && (isOpaque(in.get(f, x.X)) || isOpaque(in.get(f, x.Index))) {
			f.vals[x] = in.exp.index(in, in.get(f, x.X), in.get(f, x.Index), x.Type().Underlying().(*types.Pointer).Elem())
			return
		}
		i := toInt(in.get(f, x.Index))
		switch s := in.get(f, x.X).(type) {
		case SliceV:
			if i < 0 || i >= s.len {
				panic(goPanic{fmt.Sprintf("index %d out of range [0,%d) in %s", i, s.len, f.fn.String())})
			}
			f.vals[x] = s.arr[i]
		case *Cell:
			if s == nil {
				panic(goPanic{"nil pointer dereference"})
			}
			if i < 0 || i >= len(s.sub) {
				panic(goPanic{fmt.Sprintf("index %d out of range [0,%d) in %s", i, len(s.sub), f.fn.String())})
			}
			f.vals[x] = s.sub[i]
		default:
			panic(undecided(fmt.Sprintf("index address of %T", s)))
		}
	case *ssa.Lookup:
		m := in.get(f, x.X)
		k := in.get(f, x.Index)
		if in.exp != nil && (isOpaque(m) || isOpaque(k)) {
			o := mkTerm("index", m, k)
			f.vals[x] = o
			if x.CommaOk {
				f.vals[x] = Tuple{o, o.part("present")}
			}
			return
		}
		if s, ok := m.(string); ok {
			i := toInt(k)
			if i < 0 || i >= len(s) {
				panic(goPanic{"index out of range"})
			}
			f.vals[x] = uint64(s[i])
			return
		}
		mv, _ := m.(*MapV)
		elemT := x.X.Type().Underlying().(*types.Map).Elem()
		var r Value = zeroOf(elemT)
		found := false
		if mv != nil {
			for i, kk := range mv.keys {
				if eqVal(kk, k) {
					r, found = mv.vals[i], true
				}
			}
		}
		if x.CommaOk {
			f.vals[x] = Tuple{r, found}
		} else {
			f.vals[x] = r
		}
	case *ssa.MapUpdate:
		mv, _ := in.get(f, x.Map).(*MapV)
		if mv == nil {
			panic(goPanic{"assignment to nil map"})
		}
		k, v := in.get(f, x.Key), in.get(f, x.Value)
		for i, kk := range mv.keys {
			if eqVal(kk, k) {
				mv.vals[i] = v
				return
			}
		}
		mv.keys = append(mv.keys, k)
		mv.vals = append(mv.vals, v)
	case *ssa.MakeMap:
		f.vals[x] = &MapV{}
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.bound = append(c.bound, in.get(f, b))
		}
		f.vals[x] = c
	case *ssa.MakeInterface:
		f.vals[x] = Iface{t: x.X.Type(), v: in.get(f, x.X)}
	case *ssa.MakeSlice:
		n, c := toInt(in.get(f, x.Len)), toInt(in.get(f, x.Cap))
		if n < 0 || c < n || c > 1<<22 {
			panic(goPanic{"makeslice: out of range"})
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		s := SliceV{arr: make([]*Cell, c), len: n, cap: c}
		for i := range s.arr {
			s.arr[i] = newCell(et)
		}
		f.vals[x] = s
	case *ssa.Range:
		switch m := in.get(f, x.X).(type) {
		case Opaque:
			if in.exp == nil {
				panic(undecided("range"))
			}
			f.vals[x] = &opaqueIter{o: m}
		case *MapV:
			in.effects = append(in.effects, "map iteration in "+f.fn.String())
			f.vals[x] = &mapIter{m: m}
		case string:
			it := &strIter{}
			for i, r := range m {
				it.s = append(it.s, r)
				it.o = append(it.o, i)
			}
			f.vals[x] = it
		case nil:
			f.vals[x] = &mapIter{m: &MapV{}}
		default:
			panic(undecided("range"))
		}
	case *ssa.Next:
		switch it := in.get(f, x.Iter).(type) {
		case *opaqueIter:
			i := int64(it.i)
			it.i++
			f.vals[x] = Tuple{it.o.part("more", i), it.o.part("key", i), it.o.part("value", i)}
		case *mapIter:
			if it.i < len(it.m.keys) {
				f.vals[x] = Tuple{true, it.m.keys[it.i], it.m.vals[it.i]}
				it.i++
			} else {
				f.vals[x] = Tuple{false, nil, nil}
			}
		case *strIter:
			if it.i < len(it.s) {
				f.vals[x] = Tuple{true, int64(it.o[it.i]), int64(it.s[it.i])}
				it.i++
			} else {
				f.vals[x] = Tuple{false, int64(0), int64(0)}
			}
		}
	case *ssa.Slice:
		f.vals[x] = in.slice(f, x)
	case *ssa.SliceToArrayPointer:
		s := in.get(f, x.X).(SliceV)
		at := x.Type().Underlying().(*types.Pointer).Elem()
		n := int(at.Underlying().(*types.Array).Len())
		if s.len < n {
			panic(goPanic{"slice to array pointer"})
		}
		f.vals[x] = &Cell{t: at, sub: s.arr[:n]}
	case *ssa.Store:
		if o, ok := in.get(f, x.Addr).(Opaque); ok && in.exp != nil {
			in.exp.cell(o.part("deref"), nil).v = in.get(f, x.Val)
			return
		}
		c, _ := in.get(f, x.Addr).(*Cell)
		if c == nil {
			panic(goPanic{"store through nil pointer"})
		}
		if g, ok := rootGlobal(x.Addr); ok && !in.initing {
			in.gwrites[g.String()+" in "+f.fn.String()] = true
		}
		if in.opq != nil {
			in.opq.stored(in, c, in.get(f, x.Val))
		}
		c.store(in.get(f, x.Val))
	case *ssa.TypeAssert:
		in.typeAssert(f, x)
	default:
		panic(undecided(fmt.Sprintf("instruction %T in %s", ins, f.fn.String())))
	}
}

func rootGlobal(v ssa.Value) (*ssa.Global, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x, true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil, false
		}
	}
}

func (in *Interp) typeAssert(f *frame, x *ssa.TypeAssert) {
	v := in.get(f, x.X)
	if o, isO := v.(Opaque); isO && in.exp != nil {
		f.vals[x] = o
		if x.CommaOk {
			f.vals[x] = Tuple{o, o.part("is " + x.AssertedType.String())}
		}
		return
	}
	ok := false
	var r Value
	if iv, isI := v.(Iface); isI {
		if it, isIface := x.AssertedType.Underlying().(*types.Interface); isIface {
			if iv.t == apiT {
				ok = in.apiImplements(it)
			} else if iv.t == wireT {
				ok = it.NumMethods() == 0
			} else if iv.t == errT {
				ok = true
			} else {
				ok = types.Implements(iv.t, it)
			}
			r = v
		} else if _, ps := iv.t.(*pseudoType); !ps {
			ok = types.Identical(iv.t, x.AssertedType)
			r = iv.v
		}
	}
	if !ok {
		r = zeroOf(x.AssertedType)
		if !x.CommaOk {
			panic(goPanic{"interface conversion to " + x.AssertedType.String()})
		}
	}
	if x.CommaOk {
		f.vals[x] = Tuple{r, ok}
	} else {
		f.vals[x] = r
	}
}

// apiImplements: the builder offers API, Compiler, Builder, Committer and FrontendTyper methods.
func (in *Interp) apiImplements(it *types.Interface) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if !apiMethods[it.Method(i).Name()] {
			return false
		}
	}
	return true
}

func (in *Interp) slice(f *frame, x *ssa.Slice) Value {
	base := in.get(f, x.X)
	lo := 0
	if in.exp != nil {
		var lo, hi Value
		if x.Low != nil {
			lo = in.get(f, x.Low)
		}
		if x.High != nil {
			hi = in.get(f, x.High)
		}
		if isOpaque(base) || isOpaque(lo) || isOpaque(hi) {
			return in.exp.slice(in, base, lo, hi)
		}
	}
	if x.Low != nil {
		lo = toInt(in.get(f, x.Low))
	}
	if s, ok := base.(string); ok {
		hi := len(s)
		if x.High != nil {
			hi = toInt(in.get(f, x.High))
		}
		if lo < 0 || hi > len(s) || lo > hi {
			panic(goPanic{"slice bounds out of range"})
		}
		return s[lo:hi]
	}
	var sv SliceV
	switch b := base.(type) {
	case SliceV:
		sv = b
	case *Cell:
		sv = SliceV{arr: b.sub, len: len(b.sub), cap: len(b.sub)}
	case nil:
	default:
		panic(undecided("slice"))
	}
	hi := sv.len
	if x.High != nil {
		hi = toInt(in.get(f, x.High))
	}
	mx := sv.cap
	if x.Max != nil {
		mx = toInt(in.get(f, x.Max))
	}
	if lo < 0 || hi < lo || mx < hi || mx > sv.cap {
		panic(goPanic{"slice bounds out of range"})
	}
	return SliceV{arr: sv.arr[lo:mx], len: hi - lo, cap: mx - lo}
}

func (in *Interp) symPoly(v Value) *Poly {
	switch x := v.(type) {
	case *SymI:
		return x.p
	case int64:
		return in.env.u.Int(x)
	case uint64:
		return in.env.u.Const(new(big.Int).SetUint64(x))
	case *big.Int:
		return in.env.u.Const(x)
	case *Poly:
		return x
	}
	panic(undecided(fmt.Sprintf("symbolic integer expected, have %T", v)))
}

// fit reduces a symbolic result to the range of its type.
func (in *Interp) fit(p *Poly, t types.Type) Value {
	p = in.env.S(p)
	if c, ok := p.ConstInt(); ok {
		return wrapInt(c, t)
	}
	n, uns := bitsOf(t)
	e := in.env
	m := new(big.Int).Lsh(big.NewInt(1), uint(n))
	if uns {
		b := e.bounds(p)
		if b.lo != nil && b.hi != nil && b.lo.Sign() >= 0 && b.hi.Cmp(new(big.Rat).SetInt(m)) < 0 {
			return &SymI{p}
		}
		q := e.Floor(e.u.Scale(p, new(big.Rat).SetFrac(big.NewInt(1), m)))
		return &SymI{e.S(e.u.Sub(p, e.u.Scale(q, new(big.Rat).SetInt(m))))}
	}
	b := e.bounds(p)
	h := new(big.Int).Rsh(m, 1)
	if b.lo != nil && b.hi != nil && b.hi.Cmp(new(big.Rat).SetInt(h)) < 0 && b.lo.Cmp(new(big.Rat).SetInt(new(big.Int).Neg(h))) >= 0 {
		return &SymI{p}
	}
	panic(undecided("possible signed overflow of " + e.u.Str(p)))
}

func isSym(v Value) bool { _, ok := v.(*SymI); return ok }

func (in *Interp) binop(op token.Token, a, b Value, ta, tr types.Type) Value {
	if isOpaque(a) || isOpaque(b) {
		if in.exp != nil {
			return mkTerm(op.String(), a, b)
		}
		return Opaque{}
	}
	if ea, ok := a.(Iface); ok && in.exp != nil && ea.t == errT && (op == token.EQL || op == token.NEQ) {
		if eb, ok := b.(Iface); ok && eb.t == errT {
			return mkTerm(op.String(), a, b)
		}
	}
	if isSym(a) || isSym(b) {
		return in.symBinop(op, a, b, ta, tr)
	}
	switch op {
	case token.EQL, token.NEQ:
		if in.env != nil {
			if _, ok := a.(*Poly); ok {
				panic(undecided("comparison of big integers by identity"))
			}
		}
		if fa, ok := a.(SymF); ok {
			_ = fa
			panic(undecided("comparison of uninterpreted floats"))
		}
		r := eqVal(a, b)
		if op == token.NEQ {
			r = !r
		}
		return r
	}
	info := basicInfo(ta)
	switch {
	case info&types.IsInteger != 0:
		x, y := bigOf(a), bigOf(b)
		switch op {
		case token.ADD:
			return wrapInt(new(big.Int).Add(x, y), tr)
		case token.SUB:
			return wrapInt(new(big.Int).Sub(x, y), tr)
		case token.MUL:
			return wrapInt(new(big.Int).Mul(x, y), tr)
		case token.QUO, token.REM:
			if y.Sign() == 0 {
				panic(goPanic{"integer divide by zero"})
			}
			if op == token.QUO {
				return wrapInt(new(big.Int).Quo(x, y), tr)
			}
			return wrapInt(new(big.Int).Rem(x, y), tr)
		case token.AND:
			return wrapInt(new(big.Int).And(x, y), tr)
		case token.OR:
			return wrapInt(new(big.Int).Or(x, y), tr)
		case token.XOR:
			return wrapInt(new(big.Int).Xor(x, y), tr)
		case token.AND_NOT:
			return wrapInt(new(big.Int).AndNot(x, y), tr)
		case token.SHL, token.SHR:
			if y.Sign() < 0 {
				panic(goPanic{"negative shift"})
			}
			k := uint(200)
			if y.IsUint64() && y.Uint64() < 200 {
				k = uint(y.Uint64())
			}
			if op == token.SHL {
				return wrapInt(new(big.Int).Lsh(x, k), tr)
			}
			return wrapInt(new(big.Int).Rsh(x, k), tr)
		case token.LSS:
			return x.Cmp(y) < 0
		case token.LEQ:
			return x.Cmp(y) <= 0
		case token.GTR:
			return x.Cmp(y) > 0
		case token.GEQ:
			return x.Cmp(y) >= 0
		}
	case info&types.IsFloat != 0:
		if _, ok := a.(SymF); ok {
			return SymF{"op"}
		}
		if _, ok := b.(SymF); ok {
			return SymF{"op"}
		}
		x, y := a.(float64), b.(float64)
		switch op {
		case token.ADD:
			return roundF(x+y, tr)
		case token.SUB:
			return roundF(x-y, tr)
		case token.MUL:
			return roundF(x*y, tr)
		case token.QUO:
			return roundF(x/y, tr)
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	case info&types.IsString != 0:
		x, y := a.(string), b.(string)
		switch op {
		case token.ADD:
			return x + y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	case info&types.IsBoolean != 0:
		x, y := a.(bool), b.(bool)
		switch op {
		case token.AND:
			return x && y
		case token.OR:
			return x || y
		}
	}
	panic(undecided(fmt.Sprintf("operation %s on %T", op, a)))
}

func (in *Interp) symBinop(op token.Token, a, b Value, ta, tr types.Type) Value {
	e := in.env
	if e == nil {
		panic(undecided("symbolic value outside symbolic mode"))
	}
	u := e.u
	x, y := in.symPoly(a), in.symPoly(b)
	switch op {
	case token.ADD:
		return in.fit(u.Add(x, y), tr)
	case token.SUB:
		return in.fit(u.Sub(x, y), tr)
	case token.MUL:
		return in.fit(u.Mul(x, y), tr)
	case token.EQL:
		return e.Zero(u.Sub(x, y))
	case token.NEQ:
		return !e.Zero(u.Sub(x, y))
	case token.LSS:
		return !e.GE(u.Sub(x, y))
	case token.GEQ:
		return e.GE(u.Sub(x, y))
	case token.LEQ:
		return e.GE(u.Sub(y, x))
	case token.GTR:
		return !e.GE(u.Sub(y, x))
	case token.SHL:
		if k, ok := y.Int64(); ok {
			if k >= 200 {
				k = 200
			}
			return in.fit(u.Scale(x, pow2Rat(k)), tr)
		}
		return in.fit(u.Mul(x, u.Pow2(y)), tr)
	case token.SHR:
		if k, ok := y.Int64(); ok {
			if k >= 200 {
				k = 200
			}
			return in.fit(e.Floor(u.Scale(x, pow2Rat(-k))), tr)
		}
		return in.fit(e.Floor(u.Mul(x, u.Pow2(u.Neg(y)))), tr)
	case token.AND:
		if m, ok := y.ConstInt(); ok {
			return in.fit(in.symAnd(x, m), tr)
		}
		if m, ok := x.ConstInt(); ok {
			return in.fit(in.symAnd(y, m), tr)
		}
	case token.AND_NOT:
		if m, ok := y.ConstInt(); ok {
			return in.fit(u.Sub(x, in.symAnd(x, m)), tr)
		}
	case token.OR, token.XOR:
		if s, ok := in.disjointSum(x, y); ok {
			return in.fit(s, tr)
		}
		m, ok := y.ConstInt()
		if !ok {
			m, ok = x.ConstInt()
			x, y = y, x
		}
		if ok && m.Sign() >= 0 { // x|m = x + m - (x&m), x^m = x + m - 2(x&m)
			common := in.symAnd(x, m)
			if op == token.XOR {
				common = u.Add(common, common)
			}
			return in.fit(u.Sub(u.Add(x, y), common), tr)
		}
	case token.QUO, token.REM:
		c, ok := y.ConstInt()
		b := e.bounds(x)
		if ok && c.Sign() > 0 && b.lo != nil && b.lo.Sign() >= 0 {
			q := e.Floor(u.Scale(x, new(big.Rat).SetFrac(big.NewInt(1), c)))
			if op == token.QUO {
				return in.fit(q, tr)
			}
			return in.fit(u.Sub(x, u.Scale(q, new(big.Rat).SetInt(c))), tr)
		}
	}
	panic(undecided(fmt.Sprintf("symbolic operation %s", op)))
}

// disjointSum: x | y when one is a multiple of 2^k and the other is below 2^k.
func (in *Interp) disjointSum(x, y *Poly) (*Poly, bool) {
	e := in.env
	for i := 0; i < 2; i++ {
		b := e.bounds(x)
		if b.lo != nil && b.lo.Sign() >= 0 && b.hi != nil {
			k := int64(0)
			if b.hi.Sign() > 0 {
				k = lgRat(b.hi) + 1
			}
			if by := e.bounds(y); by.lo != nil && by.lo.Sign() >= 0 && e.intValued(e.u.Scale(y, pow2Rat(-k))) {
				return e.u.Add(x, y), true
			}
		}
		x, y = y, x
	}
	return nil, false
}

// symAnd masks a non-negative symbolic integer with a contiguous bit mask.
func (in *Interp) symAnd(x *Poly, m *big.Int) *Poly {
	e := in.env
	if m.Sign() == 0 {
		return e.u.zero
	}
	if m.Sign() < 0 {
		panic(undecided("mask"))
	}
	tz := int64(m.TrailingZeroBits())
	top := new(big.Int).Add(new(big.Int).Rsh(m, uint(tz)), big.NewInt(1))
	if new(big.Int).And(top, new(big.Int).Sub(top, big.NewInt(1))).Sign() != 0 { // one run of ones after the other
		n := uint(tz)
		for m.Bit(int(n)) == 1 {
			n++
		}
		run := new(big.Int).And(m, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), n), big.NewInt(1)))
		return e.S(e.u.Add(in.symAnd(x, run), in.symAnd(x, new(big.Int).Sub(m, run))))
	}
	w := int64(top.BitLen() - 1)
	lo := x
	if tz > 0 {
		lo = e.Floor(e.u.Scale(x, pow2Rat(-tz)))
	}
	if !e.GE(e.S(lo)) {
		panic(undecided("mask of a negative value"))
	}
	lo = e.S(lo)
	hi := e.Floor(e.u.Scale(lo, pow2Rat(-w)))
	r := e.u.Sub(lo, e.u.Scale(hi, pow2Rat(w)))
	return e.S(e.u.Scale(r, pow2Rat(tz)))
}

func (in *Interp) unop(f *frame, x *ssa.UnOp) Value {
	v := in.get(f, x.X)
	if o, ok := v.(Opaque); ok {
		if in.exp == nil {
			return v
		}
		if x.Op == token.MUL {
			if c, ok := in.exp.cells[o.part("deref").key()]; ok {
				return c.load()
			}
			return o.part("deref")
		}
		return mkTerm(x.Op.String(), v)
	}
	switch x.Op {
	case token.MUL:
		c, _ := v.(*Cell)
		if c == nil {
			panic(goPanic{"nil pointer dereference in " + f.fn.String()})
		}
		return c.load()
	case token.NOT:
		return !v.(bool)
	case token.SUB:
		switch y := v.(type) {
		case float64:
			return -y
		case SymF:
			return y
		case *SymI:
			return in.fit(in.env.u.Neg(y.p), x.Type())
		}
		return wrapInt(new(big.Int).Neg(bigOf(v)), x.Type())
	case token.XOR:
		if _, ok := v.(*SymI); !ok {
			return wrapInt(new(big.Int).Not(bigOf(v)), x.Type())
		}
	}
	panic(undecided("unary " + x.Op.String()))
}

func (in *Interp) convert(v Value, from, to types.Type) Value {
	fi, ti := basicInfo(from), basicInfo(to)
	if o, ok := v.(Opaque); ok && in.exp != nil {
		if fi&(types.IsInteger|types.IsFloat) != 0 && !types.Identical(from.Underlying(), to.Underlying()) {
			return o.part("convert " + basicName(from) + " to " + basicName(to))
		}
		return v
	}
	if isOpaque(v) {
		if ti&(types.IsInteger|types.IsFloat|types.IsBoolean) == 0 {
			panic(undecided("conversion of an unknown value to " + to.String()))
		}
		return v
	}
	switch {
	case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
		if s, ok := v.(*SymI); ok {
			return in.fit(s.p, to)
		}
		return wrapInt(bigOf(v), to)
	case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
		if isSym(v) {
			return SymF{"conv"}
		}
		f, _ := new(big.Float).SetInt(bigOf(v)).Float64()
		return roundF(f, to)
	case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
		if s, ok := v.(SymF); ok {
			return s
		}
		return roundF(v.(float64), to)
	case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
		if _, ok := v.(SymF); ok {
			panic(undecided("integer from uninterpreted float"))
		}
		f := v.(float64)
		if math.IsNaN(f) || math.IsInf(f, 0) || math.Abs(f) > 1e18 {
			panic(undecided("float to integer conversion out of range"))
		}
		b, _ := new(big.Float).SetFloat64(math.Trunc(f)).Int(nil)
		return wrapInt(b, to)
	case fi&types.IsString != 0 && ti&types.IsString != 0:
		return v
	case fi&types.IsInteger != 0 && ti&types.IsString != 0:
		return string(rune(bigOf(v).Int64()))
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && fi&types.IsString != 0 {
		s := v.(string)
		var out SliceV
		if bitsN, _ := bitsOf(sl.Elem()); bitsN == 8 {
			for i := 0; i < len(s); i++ {
				out.arr = append(out.arr, &Cell{t: sl.Elem(), v: uint64(s[i])})
			}
		} else {
			for _, r := range s {
				out.arr = append(out.arr, &Cell{t: sl.Elem(), v: int64(r)})
			}
		}
		out.len, out.cap = len(out.arr), len(out.arr)
		if out.arr == nil {
			out.arr = []*Cell{}
		}
		return out
	}
	if ti&types.IsString != 0 {
		if s, ok := v.(SliceV); ok {
			var b []byte
			var rs []rune
			n := 8
			if sl, ok := from.Underlying().(*types.Slice); ok {
				n, _ = bitsOf(sl.Elem())
			}
			for _, c := range s.arr[:s.len] {
				if n == 8 {
					b = append(b, byte(bigOf(c.v).Int64()))
				} else {
					rs = append(rs, rune(bigOf(c.v).Int64()))
				}
			}
			if n == 8 {
				return string(b)
			}
			return string(rs)
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	panic(undecided("conversion " + from.String() + " -> " + to.String()))
}

type callee struct {
	cl     *Closure
	api    string
	method *ssa.Function
	bi     *ssa.Builtin
	err    bool
	mname  string
	recv   Iface
	opaque *types.Func
}

func (in *Interp) prepCall(f *frame, c *ssa.CallCommon) (callee, []Value) {
	var args []Value
	if c.IsInvoke() {
		rv := in.get(f, c.Value)
		if o, ok := rv.(Opaque); ok && (in.exp != nil || in.initing) {
			args = append(args, o)
			for _, a := range c.Args {
				args = append(args, in.get(f, a))
			}
			return callee{opaque: c.Method}, args
		}
		iv, ok := rv.(Iface)
		if !ok {
			panic(goPanic{"method call on nil interface " + c.Method.Name()})
		}
		for _, a := range c.Args {
			args = append(args, in.get(f, a))
		}
		if iv.t == apiT {
			return callee{api: c.Method.Name()}, args
		}
		if iv.t == errT {
			return callee{err: true, mname: c.Method.Name(), recv: iv}, args
		}
		if iv.t == wireT {
			panic(undecided("method call on wire"))
		}
		m := in.w.prog.LookupMethod(iv.t, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			panic(undecided("no method " + c.Method.Name() + " on " + iv.t.String()))
		}
		return callee{method: m}, append([]Value{iv.v}, args...)
	}
	for _, a := range c.Args {
		args = append(args, in.get(f, a))
	}
	switch fn := c.Value.(type) {
	case *ssa.Builtin:
		return callee{bi: fn}, args
	case *ssa.Function:
		return callee{method: fn}, args
	}
	v := in.get(f, c.Value)
	if o, ok := v.(Opaque); ok && in.exp != nil {
		sig := c.Signature()
		return callee{cl: &Closure{native: func(in *Interp, args []Value) Value {
			return in.exp.lib(in, "call of "+keyOf(o), sig, args)
		}}}, args
	}
	cl, _ := v.(*Closure)
	if cl == nil {
		panic(goPanic{"call of nil function"})
	}
	return callee{cl: cl}, args
}

func (in *Interp) invoke(c callee, args []Value, cc *ssa.CallCommon) Value {
	switch {
	case c.api != "":
		return in.apiCall(c.api, args, cc.Method)
	case c.opaque != nil && in.exp == nil:
		return unknownResult(c.opaque.Type().(*types.Signature), c.opaque.FullName(), args)
	case c.opaque != nil:
		return in.exp.lib(in, c.opaque.FullName(), c.opaque.Type().(*types.Signature), args)
	case c.err:
		if c.mname == "Error" {
			return c.recv.v.(ErrV).msg
		}
		panic(undecided("method on error value"))
	case c.method != nil:
		return in.call(c.method, args)
	case c.bi != nil:
		return in.builtin(c.bi.Name(), args, cc)
	}
	return in.callClosure(c.cl, args)
}

func (in *Interp) doCall(f *frame, c *ssa.CallCommon) Value {
	cal, args := in.prepCall(f, c)
	return in.invoke(cal, args, c)
}

func (in *Interp) builtin(name string, args []Value, cc *ssa.CallCommon) Value {
	if in.exp != nil {
		if v, ok := in.exp.builtin(in, name, args, cc); ok {
			return v
		}
	}
	switch name {
	case "len", "cap":
		switch s := args[0].(type) {
		case SliceV:
			if name == "cap" {
				return int64(s.cap)
			}
			return int64(s.len)
		case string:
			return int64(len(s))
		case *MapV:
			return int64(len(s.keys))
		case nil:
			return int64(0)
		case *StructV:
			return int64(len(s.f))
		case *Cell:
			return int64(len(s.sub))
		}
	case "append":
		var a SliceV
		if s, ok := args[0].(SliceV); ok {
			a = s
		}
		if len(args) == 1 {
			return a
		}
		var b SliceV
		switch s := args[1].(type) {
		case SliceV:
			b = s
		case nil:
		case string:
			for i := 0; i < len(s); i++ {
				b.arr = append(b.arr, &Cell{t: types.Typ[types.Uint8], v: uint64(s[i])})
			}
			b.len = len(b.arr)
		}
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		vals := make([]Value, b.len)
		for i := range vals {
			vals[i] = b.arr[i].load()
		}
		n := a.len + b.len
		if n <= a.cap && a.arr != nil {
			for i, v := range vals {
				a.arr[a.len+i].store(v)
			}
			return SliceV{arr: a.arr, len: n, cap: a.cap}
		}
		if b.len == 0 {
			return a
		}
		nc := a.cap * 2
		if nc < n {
			nc = n
		}
		arr := make([]*Cell, nc)
		for i := range arr {
			arr[i] = newCell(et)
			if i < a.len {
				arr[i].store(a.arr[i].load())
			} else if i < n {
				arr[i].store(vals[i-a.len])
			}
		}
		return SliceV{arr: arr, len: n, cap: nc}
	case "copy":
		a, _ := args[0].(SliceV)
		n := 0
		switch s := args[1].(type) {
		case SliceV:
			n = min(a.len, s.len)
			vals := make([]Value, n)
			for i := range vals {
				vals[i] = s.arr[i].load()
			}
			for i, v := range vals {
				a.arr[i].store(v)
			}
		case string:
			n = min(a.len, len(s))
			for i := 0; i < n; i++ {
				a.arr[i].store(uint64(s[i]))
			}
		}
		return int64(n)
	case "min", "max":
		r := args[0]
		for _, a := range args {
			if isOpaque(a) {
				return Opaque{}
			}
		}
		for _, a := range args[1:] {
			var less bool
			switch x := a.(type) {
			case float64:
				less = x < r.(float64)
			case string:
				less = x < r.(string)
			default:
				if isSym(a) || isSym(r) {
					less = !in.env.GE(in.env.u.Sub(in.symPoly(a), in.symPoly(r)))
				} else {
					less = bigOf(a).Cmp(bigOf(r)) < 0
				}
			}
			if less == (name == "min") {
				r = a
			}
		}
		return r
	case "print", "println":
		return nil
	case "delete":
		m, _ := args[0].(*MapV)
		if m != nil {
			for i, k := range m.keys {
				if eqVal(k, args[1]) {
					m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
					m.vals = append(m.vals[:i:i], m.vals[i+1:]...)
					break
				}
			}
		}
		return nil
	case "recover":
		return nil
	case "ssa:wrapnilchk":
		return args[0]
	case "clear":
		switch s := args[0].(type) {
		case SliceV:
			for i := 0; i < s.len; i++ {
				s.arr[i].store(zeroOf(s.arr[i].t))
			}
		case *MapV:
			s.keys, s.vals = nil, nil
		}
		return nil
	}
	panic(undecided("builtin " + name))
}

func basicName(t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return types.Typ[b.Kind()].Name()
	}
	return t.Underlying().String()
}
