package main

// Exploration of host code on unknown inputs: library calls yield terms, every branch on a term is taken both ways,
// every library call that returns an error is followed with and without one.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// HTerm is an unknown value: the result of a library call or operation on args.
type HTerm struct {
	op   string
	args []Value
	key  string
}

func keyOf(v Value) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case Opaque:
		if x.t == nil {
			return "?"
		}
		return x.t.key
	case Iface:
		return keyOf(x.v)
	case string:
		return fmt.Sprintf("%q", x)
	case SliceV:
		var s []string
		for _, c := range x.arr[:x.len] {
			s = append(s, keyOf(c.load()))
		}
		return "[" + strings.Join(s, ",") + "]"
	case *StructV:
		var s []string
		for _, c := range x.f {
			s = append(s, keyOf(c))
		}
		return "{" + strings.Join(s, ",") + "}"
	case *Cell:
		if x == nil {
			return "nil"
		}
		if o, ok := x.v.(Opaque); ok && x.sub == nil && o.t != nil {
			return "&" + o.t.key
		}
		return fmt.Sprintf("&%p", x)
	case *Closure:
		if x == nil {
			return "nil"
		}
		if x.fn != nil {
			return x.fn.String()
		}
		return "func"
	case ErrV:
		return "error(" + x.msg + ")"
	case *big.Int:
		return x.String()
	case bool, int64, uint64, float64:
		return fmt.Sprint(x)
	}
	return fmt.Sprintf("%T", v)
}

func mkTerm(op string, args ...Value) Opaque {
	s := make([]string, len(args))
	for i, a := range args {
		s[i] = keyOf(a)
	}
	return Opaque{&HTerm{op, args, op + "(" + strings.Join(s, ",") + ")"}}
}

// part is a component of an unknown value.
func (o Opaque) part(op string, i ...Value) Opaque {
	if o.t == nil {
		return Opaque{}
	}
	return mkTerm(op, append([]Value{o}, i...)...)
}

// libEvent is one call out of the repository on a path.
type libEvent struct {
	name   string // full name of the function or method
	args   []Value
	res    []Value
	hasErr bool
	where  string
}

type explorer struct {
	w     *World
	dec   []bool
	n     int
	site  map[ssa.Instruction]int
	conds map[string]bool
	order []string // conditions in the order they were decided
	cells map[string]*Cell
	seq   int

	events   []*libEvent
	bad      []string
	reported bool
	strict   bool           // an index out of range is an alarm
	lens     map[string]int // known lengths

	model func(x *explorer, in *Interp, name string, sig *types.Signature, args []Value) (Value, bool)
	known func(x *explorer, o Opaque) (bool, bool) // conditions with a known value
	enter func(x *explorer, in *Interp, fn *ssa.Function, args []Value) (Value, bool)
}

// endPath ends a path early.
type endPath struct{ how string }

func (x *explorer) note(in *Interp, f string, a ...any) {
	x.bad = append(x.bad, fmt.Sprintf(f, a...)+" ["+in.where()+"]")
}

func (x *explorer) fork() bool {
	if x.n == len(x.dec) {
		x.dec = append(x.dec, true)
	}
	x.n++
	return x.dec[x.n-1]
}

func (x *explorer) truth(in *Interp, o Opaque) bool {
	neg := false
	if o.t != nil && o.t.op == "!" {
		o, neg = o.t.args[0].(Opaque), true
	}
	if o.t != nil && o.t.op == "!=" {
		o, neg = mkTerm("==", o.t.args...), !neg
	}
	if o.t != nil {
		if v, ok := x.conds[o.t.key]; ok {
			return v != neg
		}
		if x.known != nil {
			if v, ok := x.known(x, o); ok {
				return v != neg
			}
		}
	}
	ins := in.frames[len(in.frames)-1].instr
	x.site[ins]++
	if x.site[ins] > loopCut {
		panic(cutPath{})
	}
	v := x.fork()
	if o.t != nil {
		x.conds[o.t.key] = v
		x.order = append(x.order, o.t.key)
	}
	return v != neg
}

func (x *explorer) cell(o Opaque, t types.Type) *Cell {
	if o.t == nil {
		return &Cell{t: t, v: o}
	}
	if c, ok := x.cells[o.t.key]; ok {
		return c
	}
	c := &Cell{t: t, v: o}
	x.cells[o.t.key] = c
	return c
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// isNil decides whether a value is nil on this path; unknown values are undecided unless a branch has tested them.
func (x *explorer) isNil(v Value) (isnil, ok bool) {
	o, unk := v.(Opaque)
	if !unk {
		return isNilVal(v), true
	}
	if o.t == nil {
		return false, false
	}
	if c, ok := x.conds[mkTerm("==", o, nil).key()]; ok {
		return c, true
	}
	if c, ok := x.conds[mkTerm("==", nil, o).key()]; ok {
		return c, true
	}
	return false, false
}

func isNilVal(v Value) bool { return eqVal(nil, v) }

// lib models a call out of the repository.
func (x *explorer) lib(in *Interp, name string, sig *types.Signature, args []Value) Value {
	if x.model != nil {
		if v, ok := x.model(x, in, name, sig, args); ok {
			return v
		}
	}
	for _, a := range args {
		if x.callsBack(a) {
			panic(undecided(name + " is given a function of the repository"))
		}
	}
	return x.havoc(in, name, sig, args)
}

func (x *explorer) callsBack(v Value) bool {
	switch c := v.(type) {
	case *Closure:
		return c != nil && c.fn != nil && x.w.inRepo(c.fn)
	case Iface:
		return x.callsBack(c.v)
	case SliceV:
		for _, e := range c.arr[:c.len] {
			if x.callsBack(e.v) {
				return true
			}
		}
	}
	return false
}

// havoc: unknown results.
func (x *explorer) havoc(in *Interp, name string, sig *types.Signature, args []Value) Value {
	ev := &libEvent{name: name, args: args, where: in.where()}
	x.events = append(x.events, ev)
	r := sig.Results()
	for i := 0; i < r.Len(); i++ {
		if isErrorType(r.At(i).Type()) {
			ev.hasErr = true
		}
	}
	x.results(ev, sig, name)
	return x.pack(ev)
}

func (x *explorer) results(ev *libEvent, sig *types.Signature, op string) {
	r := sig.Results()
	for i := 0; i < r.Len(); i++ {
		t := r.At(i).Type()
		switch {
		case isErrorType(t):
			ev.res = append(ev.res, mkTerm("error of "+op, ev.args...))
		default:
			o := mkTerm(op, ev.args...)
			if r.Len() > 1 {
				o = o.part(fmt.Sprintf("result %d", i))
			}
			ev.res = append(ev.res, o)
		}
	}
}

func (x *explorer) pack(ev *libEvent) Value {
	switch len(ev.res) {
	case 0:
		return nil
	case 1:
		return ev.res[0]
	}
	return Tuple(ev.res)
}

func libName(fn *ssa.Function) (string, string) {
	if o, ok := fn.Object().(*types.Func); ok && o != nil {
		p := ""
		if o.Pkg() != nil {
			p = o.Pkg().Path()
		}
		return o.FullName(), p
	}
	if fn.Pkg != nil {
		return fn.String(), fn.Pkg.Pkg.Path()
	}
	return fn.String(), ""
}

func (x *explorer) hook(in *Interp, fn *ssa.Function, args []Value) (Value, bool) {
	if in.initing {
		return nil, false
	}
	name, pkg := libName(fn)
	if x.w.isRepo(pkg) || x.w.inRepo(fn) || pkg == "" && fn.Blocks != nil {
		if x.enter != nil {
			return x.enter(x, in, fn, args)
		}
		return nil, false
	}
	return x.lib(in, name, fn.Signature, args), true
}

// exploration of every path of a call.
type pathEnd struct {
	x   *explorer
	in  *Interp
	how string // return, panic, cut, or the reason of endPath
	ret Value
	msg string
}

type explore struct {
	w     *World
	limit int
	setup func(x *explorer, in *Interp)
	body  func(in *Interp) Value
	end   func(p *pathEnd) []string
}

func (e *explore) run(r *Report) (paths, cut int, bad []string) {
	seen := map[string]bool{}
	note := func(s string) {
		if !seen[s] {
			seen[s] = true
			bad = append(bad, s)
		}
	}
	var dec []bool
	for {
		in := newInterp(e.w)
		in.limit = 20_000_000
		for _, p := range e.w.main {
			in.initPkg(e.w.prog.Package(p.Types))
		}
		x := &explorer{w: e.w, dec: dec, site: map[ssa.Instruction]int{}, conds: map[string]bool{}, cells: map[string]*Cell{}}
		in.exp = x
		in.hook = x.hook
		e.setup(x, in)
		end := &pathEnd{x: x, in: in}
		func() {
			defer func() {
				if c := recover(); c != nil {
					switch v := c.(type) {
					case cutPath:
						end.how = "cut"
					case endPath:
						end.how = v.how
					case goPanic:
						end.how, end.msg = "panic", panicMsg(v)+" ["+in.where()+"]"
					case undecidedErr:
						end.how = "undecided"
						note(fmt.Sprintf("not decided: %s [%s]", v.msg, in.where()))
					default:
						panic(c)
					}
				}
			}()
			end.ret = e.body(in)
			end.how = "return"
		}()
		if r != nil {
			r.touch(in.touched)
		}
		paths++
		if end.how == "cut" {
			cut++
		}
		for _, b := range x.bad {
			note(b)
		}
		if end.how != "undecided" {
			for _, b := range e.end(end) {
				note(b)
			}
		}
		if paths > e.limit {
			note(fmt.Sprintf("not decided: more than %d paths", e.limit))
			return
		}
		if len(bad) > 5 {
			return
		}
		dec = x.dec[:x.n]
		for len(dec) > 0 && !dec[len(dec)-1] {
			dec = dec[:len(dec)-1]
		}
		if len(dec) == 0 {
			sort.Strings(bad)
			return
		}
		dec = append(append([]bool{}, dec[:len(dec)-1]...), false)
	}
}

type opaqueIter struct {
	o Opaque
	i int
}

func (o Opaque) key() string { return keyOf(o) }

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.Field(i).Name()
	}
	return fmt.Sprint(i)
}

// unknownPtr: the pointer, or what it points to, is unknown.
func (in *Interp) unknownPtr(v Value) (Opaque, bool) {
	if in.exp == nil {
		return Opaque{}, false
	}
	switch x := v.(type) {
	case Opaque:
		return x, true
	case *Cell:
		if x != nil && x.sub == nil {
			if o, ok := x.v.(Opaque); ok {
				return o, true
			}
		}
	}
	return Opaque{}, false
}

func (x *explorer) index(in *Interp, base, i Value, t types.Type) *Cell {
	if x.strict {
		k, ok := i.(int64)
		n := int64(0)
		if o, unk := base.(Opaque); unk {
			if l, known := x.lens[o.key()]; known {
				n = int64(l)
			} else {
				n = lowerBoundLen(x, o)
			}
			if !ok || k < 0 || k >= n {
				if !x.loopBound(o, i) {
					x.note(in, "may index out of range")
				}
			}
		}
	}
	return x.cell(mkTerm("index", base, i), t)
}

// loopBound: the index is known to be below the length by a branch on this path.
func (x *explorer) loopBound(o Opaque, i Value) bool {
	l := mkTerm("len", o)
	for _, c := range []struct {
		k string
		v bool
	}{{mkTerm("<", i, l).key(), true}, {mkTerm(">", l, i).key(), true}, {mkTerm(">=", i, l).key(), false}, {mkTerm("<=", l, i).key(), false}} {
		if v, ok := x.conds[c.k]; ok && v == c.v {
			return true
		}
	}
	return false
}

func (x *explorer) slice(in *Interp, base, lo, hi Value) Value {
	return mkTerm("slice", base, lo, hi)
}

func (x *explorer) builtin(in *Interp, name string, args []Value, cc *ssa.CallCommon) (Value, bool) {
	any := false
	for _, a := range args {
		if isOpaque(a) {
			any = true
		}
	}
	if name == "len" && any {
		if n, ok := x.lens[keyOf(args[0])]; ok {
			return int64(n), true
		}
	}
	if name == "append" && len(args) == 2 {
		if n, ok := x.lens[keyOf(args[1])]; ok && !isOpaque(args[0]) {
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			s, _ := args[0].(SliceV)
			out := SliceV{arr: append([]*Cell{}, s.arr[:s.len]...)}
			for i := 0; i < n; i++ {
				out.arr = append(out.arr, &Cell{t: et, v: mkTerm("index", args[1], int64(i))})
			}
			out.len, out.cap = len(out.arr), len(out.arr)
			return out, true
		}
	}
	switch name {
	case "recover":
		panic(undecided("recover"))
	case "len", "cap", "append", "min", "max":
		if any {
			return mkTerm(name, args...), true
		}
	case "copy":
		if any {
			panic(undecided("copy of an unknown slice"))
		}
	case "delete", "clear", "close":
		if any {
			return nil, true
		}
	}
	return nil, false
}
