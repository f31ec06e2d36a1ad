package main

// C21: hint functions are registered, total and free of side effects.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// opaqueRun is one path through code whose inputs are unknown.
type opaqueRun struct {
	dec     []bool // decisions of this path
	n       int
	site    map[ssa.Instruction]int
	inputs  map[*Cell]string // must not change
	outputs map[*Cell]int
	holders map[*Cell]int  // elements of the argument slices: the output's index, or -1
	fresh   map[*Cell]bool // integers made during this run
	written map[int]bool
	bad     []string
}

type cutPath struct{}

const loopCut = 3

func isOpaque(v Value) bool { _, ok := v.(Opaque); return ok }

func (o *opaqueRun) decide(in *Interp) bool {
	ins := in.frames[len(in.frames)-1].instr
	o.site[ins]++
	if o.site[ins] > loopCut {
		panic(cutPath{})
	}
	if o.n == len(o.dec) {
		o.dec = append(o.dec, true)
	}
	o.n++
	return o.dec[o.n-1]
}

func (o *opaqueRun) note(in *Interp, what string) {
	o.bad = append(o.bad, what+" at "+in.w.Pos(in.curPos()))
}

func (o *opaqueRun) modified(in *Interp, c *Cell) {
	if n, ok := o.inputs[c]; ok {
		o.note(in, "modifies "+n)
	}
	if i, ok := o.outputs[c]; ok {
		o.written[i] = true
	}
}

func (o *opaqueRun) stored(in *Interp, c *Cell, v Value) {
	if k, ok := o.holders[c]; ok {
		n, _ := v.(*Cell)
		if n == c.load() {
			return
		}
		j, isOut := o.outputs[n]
		switch {
		case k < 0:
			o.note(in, "replaces an element of its inputs")
		case n == nil || !o.fresh[n] || isOut && j != k:
			o.note(in, "replaces an output by an integer that is not its own")
		default: // the solver reads the slice afterwards
			o.outputs[n] = k
			o.written[k] = true
		}
		return
	}
	o.modified(in, c)
}

// opaqueCall models library calls on unknown values.
func (in *Interp) opaqueCall(fn *ssa.Function, args []Value) (Value, bool) {
	big := strings.HasPrefix(fn.String(), "(*math/big.Int).")
	if big {
		if fn.Name() == "SetBits" || fn.Name() == "Bits" {
			in.opq.note(in, "shares the memory of an integer")
		}
		for i, a := range args {
			if c, ok := a.(*Cell); ok && c != nil && !(i == 0 && bigMutates(fn)) {
				if k, ok := in.opq.outputs[c]; ok && !in.opq.written[k] {
					in.opq.note(in, fmt.Sprintf("reads output %d before setting it", k))
				}
			}
		}
		if bigMutates(fn) {
			if c, ok := args[0].(*Cell); ok && c != nil {
				in.opq.modified(in, c)
			}
			if fn.Name() == "DivMod" || fn.Name() == "QuoRem" {
				if c, ok := args[3].(*Cell); ok && c != nil {
					in.opq.modified(in, c)
				}
			}
		}
	}
	unknown := false
	for _, a := range args {
		if isOpaque(a) {
			unknown = true
		}
		if c, ok := a.(*Cell); ok && c != nil && isOpaque(c.v) && (big || !in.w.inRepo(fn)) {
			unknown = true
		}
	}
	if !unknown || in.w.inRepo(fn) {
		return nil, false
	}
	if big && bigMutates(fn) {
		args[0].(*Cell).v = Opaque{}
		if fn.Name() == "DivMod" || fn.Name() == "QuoRem" {
			args[3].(*Cell).v = Opaque{}
		}
	}
	one := func(t types.Type) Value {
		if p, ok := t.(*types.Pointer); ok && isBigInt(p.Elem()) {
			if big {
				return args[0]
			}
			return &Cell{t: p.Elem(), v: Opaque{}}
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return "<unknown>"
		}
		return Opaque{}
	}
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil, true
	case 1:
		return one(r.At(0).Type()), true
	}
	var t Tuple
	for i := 0; i < r.Len(); i++ {
		t = append(t, one(r.At(i).Type()))
	}
	return t, true
}

func (in *Interp) register(v Value) {
	if in.registered == nil {
		in.registered = map[*ssa.Function]*ssa.Package{}
	}
	var p *ssa.Package
	for i := len(in.frames) - 1; i >= 0 && p == nil; i-- {
		p = in.frames[i].fn.Pkg
	}
	s, ok := v.(SliceV)
	if !ok {
		panic(undecided("hint registration"))
	}
	for _, c := range s.arr[:s.len] {
		if cl, ok := c.load().(*Closure); ok && cl != nil && cl.fn != nil && len(cl.bound) == 0 {
			in.registered[cl.fn] = p
		}
	}
}

// hintSite is one request of advice in the source.
type hintSite struct {
	fn   *ssa.Function // requesting function
	ins  ssa.Instruction
	hint *ssa.Function
	nin  int
	nout int // -1: not a constant
}

func resolveFuncs(v ssa.Value, out map[*ssa.Function]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Function:
		out[x] = true
		return true
	case *ssa.ChangeType:
		return resolveFuncs(x.X, out, seen)
	case *ssa.MakeInterface:
		return resolveFuncs(x.X, out, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !resolveFuncs(e, out, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// hintRequests resolves a request. Parts handed in by a caller (a helper that wraps NewHint) are looked up at the
// calls of the helper.
func (w *World) hintRequests(r *Report, key string, all map[*ssa.Function]bool, f *ssa.Function, ins ssa.Instruction, hv, nv, iv ssa.Value, depth int) (out []hintSite) {
	param := func(v ssa.Value) int {
		for {
			switch x := v.(type) {
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.Parameter:
				for i, p := range f.Params {
					if p == x {
						return i
					}
				}
			}
			return -1
		}
	}
	hi, ni, ii := param(hv), param(nv), param(iv)
	if (hi >= 0 || ni >= 0 || ii >= 0) && depth < 6 {
		if calls, ok := w.callsOf(all, f); ok {
			for _, c := range calls {
				h2, n2, i2 := hv, nv, iv
				as := c.Common().Args
				if hi >= 0 {
					h2 = as[hi]
				}
				if ni >= 0 {
					n2 = as[ni]
				}
				if ii >= 0 {
					i2 = as[ii]
				}
				out = append(out, w.hintRequests(r, key, all, c.Parent(), c, h2, n2, i2, depth+1)...)
			}
			return
		}
	}
	hs := map[*ssa.Function]bool{}
	known := resolveFuncs(hv, hs, map[ssa.Value]bool{})
	if !known { // any function of that type whose value is taken
		sig, ok := hv.Type().Underlying().(*types.Signature)
		if !ok {
			r.alarm(key, "%s: the hint function is not a fixed function", w.Pos(ins.Pos()))
			return
		}
		hs = map[*ssa.Function]bool{}
		for g := range all {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					var ops []*ssa.Value
					for k, o := range i.Operands(ops) {
						if ci, ok := i.(ssa.CallInstruction); ok && k == 0 && !ci.Common().IsInvoke() {
							continue
						}
						if h, ok := (*o).(*ssa.Function); ok && types.Identical(h.Signature, sig) {
							hs[w.plainFunc(h)] = true
						}
					}
				}
			}
		}
	}
	nout := -1
	if k, ok := nv.(*ssa.Const); ok {
		n, _ := constant.Int64Val(k.Value)
		nout = int(n)
	}
	nin := -1
	if sl, ok := iv.(*ssa.Slice); ok {
		if p, ok := sl.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				nin = int(a.Len())
			}
		}
	}
	if !known {
		nout, nin = -1, -1
	}
	for h := range hs {
		out = append(out, hintSite{f, ins, h, nin, nout})
	}
	return
}

// callsOf lists the calls of f; ok is false when f is also used as a value or called through an interface.
func (w *World) callsOf(all map[*ssa.Function]bool, f *ssa.Function) (calls []ssa.CallInstruction, ok bool) {
	if f.Parent() != nil {
		return nil, false
	}
	for g := range all {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				ci, isCall := i.(ssa.CallInstruction)
				if isCall && ci.Common().IsInvoke() && f.Signature.Recv() != nil && ci.Common().Method.Name() == f.Name() {
					return nil, false
				}
				if isCall && ci.Common().StaticCallee() == f {
					calls = append(calls, ci)
				}
				var ops []*ssa.Value
				for k, o := range i.Operands(ops) {
					if *o == ssa.Value(f) && !(isCall && k == 0 && !ci.Common().IsInvoke()) {
						return nil, false
					}
				}
			}
		}
	}
	sort.Slice(calls, func(i, j int) bool { return calls[i].Pos() < calls[j].Pos() })
	return calls, true
}

func (w *World) hintSites(r *Report) (out []hintSite) {
	all := map[*ssa.Function]bool{}
	for _, f := range w.allFuncs() {
		if w.inRepo(f) {
			all[f] = true
		}
	}
	for f := range all {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok || !c.Common().IsInvoke() {
					continue
				}
				m := c.Common().Method
				if m.Pkg() == nil || !strings.Contains(m.Pkg().Path(), "gnark") || m.Name() != "NewHint" && m.Name() != "NewHintForId" {
					continue
				}
				r.count("requests for advice found in the source", 1)
				key := "hint request in " + shortFn(w, f)
				if m.Name() == "NewHintForId" {
					r.alarm(key, "%s requests advice by identifier: which function answers is not decided", w.Pos(ins.Pos()))
					continue
				}
				args := c.Common().Args
				out = append(out, w.hintRequests(r, key, all, f, ins, args[0], args[1], args[2], 0)...)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ins.Pos() < out[j].ins.Pos() })
	return
}

// hintCase is one shape a hint function is called with.
type hintCase struct {
	fn    *ssa.Function
	in    []*big.Int // nil: unknown
	nout  int
	where string
}

func (c hintCase) key() string {
	s := c.fn.String() + fmt.Sprint(c.nout)
	for _, x := range c.in {
		if x == nil {
			s += ",?"
		} else {
			s += "," + x.String()
		}
	}
	return s
}

func (c hintCase) String() string {
	s := "("
	for i, x := range c.in {
		if i > 0 {
			s += ","
		}
		if x == nil {
			s += "?"
		} else {
			s += x.String()
		}
	}
	return fmt.Sprintf("%s%s) -> %d", c.fn.Name(), s, c.nout)
}

// exploreHint follows every path of a hint function on unknown inputs.
func (w *World) exploreHint(c hintCase) (paths, cut int, bad []string) {
	seen := map[string]bool{}
	note := func(s string) {
		if !seen[s] {
			seen[s] = true
			bad = append(bad, s)
		}
	}
	bigPtr := c.fn.Signature.Params().At(0).Type()
	var dec []bool
	for {
		in := newInterp(w)
		in.limit = 5_000_000
		for _, p := range w.main {
			in.initPkg(w.prog.Package(p.Types))
		}
		o := &opaqueRun{dec: dec, site: map[ssa.Instruction]int{}, inputs: map[*Cell]string{}, outputs: map[*Cell]int{}, holders: map[*Cell]int{}, fresh: map[*Cell]bool{}, written: map[int]bool{}}
		in.opq = o
		field := &Cell{t: bigPtr.(*types.Pointer).Elem(), v: new(big.Int).Set(fieldP)}
		o.inputs[field] = "the field order"
		enc := map[*Cell]bool{}
		busy := false
		in.hook = func(in *Interp, fn *ssa.Function, args []Value) (Value, bool) {
			if busy || fn.Pkg == nil || !in.w.inRepo(fn) || fn.Pkg.Pkg.Path() != w.mod+"/util" {
				return nil, false
			}
			switch fn.Name() {
			case "ComponentsOf":
				busy = true
				v := in.call(fn, args)
				busy = false
				if s, ok := v.(SliceV); ok && len(s.arr) > 0 {
					enc[s.arr[0]] = true
				}
				return v, true
			case "ValueOf": // decoding what was encoded cannot panic: decided once by roundTrips
				if s, ok := args[0].(SliceV); ok && len(s.arr) > 0 && enc[s.arr[0]] {
					return Opaque{}, true
				}
			}
			return nil, false
		}
		mk := func(n int, out bool, f func(i int) *Cell) SliceV {
			s := SliceV{len: n, cap: n, arr: []*Cell{}}
			for i := 0; i < n; i++ {
				h := &Cell{t: bigPtr, v: f(i)}
				o.holders[h] = -1
				if out {
					o.holders[h] = i
				}
				s.arr = append(s.arr, h)
			}
			return s
		}
		bt := bigPtr.(*types.Pointer).Elem()
		ins := mk(len(c.in), false, func(i int) *Cell {
			x := &Cell{t: bt, v: Opaque{}}
			if c.in[i] != nil {
				x.v = new(big.Int).Set(c.in[i])
			}
			o.inputs[x] = fmt.Sprintf("input %d", i)
			return x
		})
		outs := mk(c.nout, true, func(i int) *Cell {
			x := &Cell{t: bt, v: new(big.Int)}
			o.outputs[x] = i
			return x
		})
		done := false
		var res Value
		func() {
			defer func() {
				if x := recover(); x != nil {
					switch e := x.(type) {
					case cutPath:
						cut++
					case goPanic:
						note(fmt.Sprintf("panics: %s [%s]", panicMsg(e), in.where()))
					case undecidedErr:
						note(fmt.Sprintf("not decided: %s [%s]", e.msg, in.where()))
					default:
						panic(x)
					}
				}
			}()
			res = in.call(c.fn, []Value{field, ins, outs})
			done = true
		}()
		paths++
		for _, b := range o.bad {
			note(b)
		}
		if done {
			_, isErr := res.(Iface)
			if !isErr {
				for i := 0; i < c.nout; i++ {
					if !o.written[i] {
						note(fmt.Sprintf("returns without an error and without setting output %d of %d", i, c.nout))
					}
				}
			}
		}
		if paths > 20000 {
			note("not decided: more than 20000 paths")
			return
		}
		if len(bad) > 3 {
			return
		}
		// next path
		dec = o.dec[:o.n]
		for len(dec) > 0 && !dec[len(dec)-1] {
			dec = dec[:len(dec)-1]
		}
		if len(dec) == 0 {
			return
		}
		dec = append(append([]bool{}, dec[:len(dec)-1]...), false)
	}
}

func importsClosure(p *types.Package, out map[string]bool) {
	if out[p.Path()] {
		return
	}
	out[p.Path()] = true
	for _, i := range p.Imports() {
		importsClosure(i, out)
	}
}

func (w *World) c21(r *Report) {
	sites := w.hintSites(r)
	// what the initialisers register
	in := newInterp(w)
	func() {
		defer func() {
			if x := recover(); x != nil {
				r.alarm("registration", "package initialisation cannot be evaluated: %v", x)
			}
		}()
		for _, p := range w.main {
			in.initPkg(w.prog.Package(p.Types))
		}
	}()
	reg := map[string]string{}
	for f, p := range in.registered {
		if p != nil {
			reg[f.String()] = p.Pkg.Path()
		}
	}
	r.count("hint functions registered by initialisers", len(reg))
	cases := map[string]hintCase{}
	add := func(c hintCase) { cases[c.key()] = c }
	dynamic := map[*ssa.Function]string{}
	for _, s := range sites {
		h := s.hint
		if !w.inRepo(h) {
			continue
		}
		key := shortFn(w, h) + " requested in " + shortFn(w, s.fn)
		p := s.fn
		for p.Parent() != nil {
			p = p.Parent()
		}
		vis := map[string]bool{}
		importsClosure(p.Pkg.Pkg, vis)
		by, ok := reg[h.String()]
		switch {
		case h.Parent() != nil:
			r.alarm(key, "%s: a function literal is used as a hint; its identity depends on compilation", w.Pos(s.ins.Pos()))
		case !ok:
			r.alarm(key, "%s: %s is not registered with the solver by any package initialiser", w.Pos(s.ins.Pos()), shortFn(w, h))
		case !vis[by]:
			r.alarm(key, "%s: %s is registered by %s, which %s does not import", w.Pos(s.ins.Pos()), shortFn(w, h), by, p.Pkg.Pkg.Path())
		default:
			r.pass("%s is registered by %s", key, by)
		}
		g := w.plainFunc(h)
		if s.nout >= 0 && s.nin >= 0 {
			add(hintCase{g, make([]*big.Int, s.nin), s.nout, w.Pos(s.ins.Pos())})
		} else {
			dynamic[g] = w.Pos(s.ins.Pos())
		}
	}
	// shapes that depend on the configuration, from extracted circuits
	reached := map[*ssa.Function]bool{}
	collect := func(f *Frag) {
		for _, h := range f.g.hints {
			if h.fn == nil {
				continue
			}
			reached[h.fn] = true
			c := hintCase{fn: h.fn, nout: len(h.out), where: h.fr}
			for _, x := range h.in {
				if x.op == nConst {
					c.in = append(c.in, new(big.Int).Set(x.c))
				} else {
					c.in = append(c.in, nil)
				}
			}
			add(c)
		}
	}
	for _, n := range cat([]string{"NewFloat", "ToInt"}, arithJobs, roundJobs, cmpJobs) {
		j := floatJobs[n]
		for _, f := range j.fmts() {
			for _, wd := range []uint64{0, 3, 8, 16} {
				fr, err := w.extractOp(j.op, f, Cfg{wd, "R1CS"})
				if err != nil {
					r.alarm("extract "+n, "%v", err)
					continue
				}
				collect(fr)
			}
		}
	}
	for wd := uint64(1); wd <= 17; wd += 4 {
		for b := uint64(1); b <= 70; b += 3 {
			for _, m := range modeNames {
				fr, err := w.extract("range check", "R1CS", func(in *Interp, api Value) ([]*Node, []string) {
					g := in.newGadget(api, wd, 8)
					in.callMethod("gadget", "IntGadget", "AssertBitLength", g, wire(in.g.Input("a")), b, in.w.modeVal(m))
					return nil, nil
				})
				if err != nil {
					r.alarm("extract range check", "%v", err)
					continue
				}
				collect(fr)
			}
		}
	}
	for _, c := range cases {
		reached[c.fn] = true
	}
	for h, at := range dynamic {
		if !reached[h] {
			r.alarm(shortFn(w, h)+": shape", "%s: the number of outputs requested is not a constant and no extracted circuit reaches the request", at)
		}
	}
	var cs []hintCase
	hs := map[*ssa.Function]bool{}
	for _, c := range cases {
		cs = append(cs, c)
		hs[c.fn] = true
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].key() < cs[j].key() })
	parallel(len(cs), func(i int) {
		c := cs[i]
		guarded(r, shortFn(w, c.fn), func() {
			n, cut, bad := w.exploreHint(c)
			r.count("paths through hint functions followed", n)
			r.count("loop iterations beyond the third not followed", cut)
			for _, b := range bad {
				r.alarm(shortFn(w, c.fn)+": totality", "%s: %s", c, b)
			}
			if len(bad) == 0 {
				r.pass("%s sets every output and only its outputs (%d paths)", c, n)
			}
		})
	})
	r.count("hint functions", len(hs))
	r.count("hint call shapes explored", len(cs))
	var roots []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for f := range hs {
		roots = append(roots, f)
		seen[f] = true
	}
	for _, f := range w.hintRoots() {
		if !seen[f] {
			roots = append(roots, f)
		}
	}
	w.pure(r, "advice computation", w.reach(roots))
	for _, f := range formats {
		W := f.E + f.M + 1
		w.symCases(r, f.String()+" util.ValueOf after util.ComponentsOf", func(e *Env) { e.setVar("v", new(big.Int), new(big.Int).Sub(bigPow2(W), big.NewInt(1))) }, func(e *Env, in *Interp) string {
			in.callFn("util", "ValueOf", in.callFn("util", "ComponentsOf", &SymI{e.u.V("v")}, uint64(f.E), uint64(f.M)), uint64(f.E), uint64(f.M))
			return ""
		})
	}
}

// plainFunc maps a function of a test variant of a package to the plain package.
func (w *World) plainFunc(f *ssa.Function) *ssa.Function {
	if f.Pkg == nil {
		return f
	}
	if p := w.pkgs[f.Pkg.Pkg.Path()]; p != nil {
		if sp := w.prog.Package(p.Types); sp != nil {
			if g := sp.Func(f.Name()); g != nil {
				return g
			}
		}
	}
	return f
}

func init() {
	props["C21"] = &propDef{"other", func(w *World, r *Report) {
		r.explain = "Every request for advice in the repository, test circuits included, is found in the SSA; the function it names must be registered by a package initialiser (partially evaluated) that the requesting package imports. Every hint function is then followed along every path on unknown inputs (constants of the request kept, branches on unknown values taken both ways, loops up to three turns) in every shape it is requested with: every path that returns no error must have set every output, no path may panic on an index, no path may modify an input, the field order or the argument slices. The effect rules of C19 (no ambient source, no package-level state) are applied to everything hint functions call."
		wt, err := loadWorld(w.root, true)
		if err != nil {
			r.alarm("load", "the test packages do not type-check: %v", err)
			return
		}
		wt.c21(r)
		r.atLeast("requests for advice found in the source", 8)
		r.atLeast("hint functions", 8)
		r.atLeast("functions examined (advice computation)", 8)
	}}
}
