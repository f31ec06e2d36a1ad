package main

// C35: the location and approximation routines ask for no advice of their own.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["C35"] = &propDef{"other", checkAdvice} }

// caller is the innermost function of the repository being evaluated.
func (in *Interp) caller() *ssa.Function {
	for i := len(in.frames) - 1; i >= 0; i-- {
		if f := in.frames[i].fn; f.Pkg != nil && in.w.isRepo(f.Pkg.Pkg.Path()) {
			return f
		}
	}
	return nil
}

// binding says whether a package provides operations decided elsewhere (C01-C17).
func (w *World) binding(path string) bool { return path == w.mod+"/float" || path == w.mod+"/gadget" }

// pinning lists functions outside the uninterpreted operations that take advice and
// constrain it, with the property that decides them.
var pinning = map[string]string{
	"(Context).NewFloat": "C01",
	"(Context).NewF32":   "C01",
	"(Context).NewF64":   "C01",
}

func checkAdvice(w *World, r *Report) {
	r.explain = pipeExplain + "s. Every circuit routine outside the float and gadget packages is partially evaluated on unknown operands; each value its results depend on must be an operand, a constant, a float or gadget operation decided by C01-C17, a canonical bit decomposition or an arithmetic combination. A prover-supplied value is a violation. Requests for advice in these packages are also looked for in the source, so that code the evaluation does not reach is covered."
	r.rules = []string{"no request for advice outside float and gadget", "results depend on operands, constants and decided operations only", "divisions without check have a non-zero constant divisor"}
	var fns []*ssa.Function
	poly := w.named("math", "Polynomial")
	for _, f := range w.repoFuncs() {
		if f.Pkg == nil || w.binding(f.Pkg.Pkg.Path()) || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		switch {
		case circuitFunc(w, f):
			fns = append(fns, f)
		case f.Signature.Recv() != nil && poly != nil && types.Identical(f.Signature.Recv().Type(), poly):
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, s := range w.hintSites(newReport("C35", "")) {
		p := s.fn.Pkg
		for f := s.fn; p == nil && f != nil; f = f.Parent() {
			p = f.Pkg
		}
		if p == nil || w.binding(p.Pkg.Path()) {
			r.count("requests for advice in float and gadget", 1)
			continue
		}
		r.check(false, "advice in "+shortFn(w, s.fn), "%s: %s asks the prover for the value of %s; only the float and gadget operations pin their advice down", w.Pos(s.ins.Pos()), shortFn(w, s.fn), s.hint.Name())
	}
	r.atLeast("requests for advice in float and gadget", 4)
	type undriven struct {
		key string
		fn  *ssa.Function
		err error
	}
	var later []undriven
	for _, fn := range fns {
		fs := fmts
		switch n := fn.Name(); {
		case strings.HasSuffix(fn.Pkg.Pkg.Path(), "32") || strings.HasSuffix(n, "32"):
			fs = fmts[:1]
		case strings.HasSuffix(fn.Pkg.Pkg.Path(), "64") || strings.HasSuffix(n, "64"):
			fs = fmts[1:]
		}
		for _, f := range fs {
			key := fmt.Sprintf("freedom %s %d/%d", shortFn(w, fn), f.E, f.M)
			guardRun(r, key, func() {
				if err := w.freedom(r, key, fn, f); err != nil {
					later = append(later, undriven{key, fn, err})
				}
			})
		}
	}
	for _, u := range later {
		if n := shortFn(w, u.fn); !u.fn.Object().Exported() && r.touched(u.fn.String()) {
			r.count("helpers evaluated through their callers", 1)
		} else {
			r.alarm(u.key, "%s: %v", n, u.err)
		}
	}
	r.atLeast("routines evaluated", 12)
}

func (w *World) freedom(r *Report, key string, fn *ssa.Function, f Fmt) error {
	var fs [][4]*Node
	var ws []*Node
	p, err := w.pipeline(f, func(p *pipe) {
		args := p.someArgs(fn)
		fs, ws = p.flatResult(p.in.call(fn, args))
	})
	if err != nil {
		return err
	}
	r.touch(p.touch)
	r.count("routines evaluated", 1)
	seen := map[*Node]bool{}
	terms := map[*FTerm]bool{}
	bad := map[string]bool{}
	var visit func(n *Node)
	visit = func(n *Node) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		for _, a := range n.arg {
			visit(a)
		}
		switch n.op {
		case nHint:
			for _, a := range n.hint.in {
				visit(a)
			}
			if n.hint.fn != nil {
				s := n.hint.site
				if s == nil || !w.binding(s.Pkg.Pkg.Path()) || pinning[s.RelString(s.Pkg.Pkg)] == "" && pinning[strings.Replace(s.RelString(s.Pkg.Pkg), "(*", "(", 1)] == "" {
					bad[fmt.Sprintf("%s: the result depends on the advice of %s, which nothing decided pins down", w.Pos(n.hint.pos), n.hint.fn.Name())] = true
				}
			}
		case nDiv:
			if d := n.arg[1]; d.op != nConst || d.c.Sign() == 0 {
				bad[fmt.Sprintf("%s: unchecked division whose divisor may be zero leaves the quotient free", w.Pos(n.pos))] = true
			}
		case nInput:
			if !strings.HasPrefix(n.name, "operand ") {
				bad[fmt.Sprintf("%s: the result depends on %q", w.Pos(n.pos), n.name)] = true
			}
		case nFloat, nCmp:
			t := n.ft
			if terms[t] {
				return
			}
			terms[t] = true
			for _, a := range t.arg {
				for _, m := range a {
					visit(m)
				}
			}
			for _, m := range t.wire {
				visit(m)
			}
		}
	}
	for _, a := range fs {
		for _, n := range a {
			visit(n)
		}
	}
	for _, n := range ws {
		visit(n)
	}
	r.count("values traced", len(seen))
	r.count("float and gadget operations traced", len(terms))
	var msgs []string
	for m := range bad {
		msgs = append(msgs, m)
	}
	sort.Strings(msgs)
	r.check(len(bad) == 0, key, "%s", strings.Join(msgs, "; "))
	return nil
}

// someArgs makes unknown arguments, with a small number for each ordinary integer and a
// few unknown coefficients for each list of floats.
func (p *pipe) someArgs(fn *ssa.Function) (out []Value) {
	ft, ctx := p.w.named("float", "FloatVar"), p.w.named("float", "Context")
	for i, q := range fn.Params {
		t := q.Type()
		name := fmt.Sprintf("operand %d", i)
		sl, isSlice := t.Underlying().(*types.Slice)
		b, isBasic := t.Underlying().(*types.Basic)
		one := func(t types.Type, name string) Value {
			switch {
			case types.Identical(t, ft):
				return p.input(name)
			case t.String() == "github.com/consensys/gnark/frontend.Variable":
				return wire(p.wireIn(name))
			}
			panic(undecided("parameter " + q.Name() + " of " + fn.String()))
		}
		many := func(t types.Type, n int) (cs []*Cell) {
			for j := 0; j < n; j++ {
				c := newCell(t)
				c.store(one(t, fmt.Sprintf("%s.%d", name, j)))
				cs = append(cs, c)
			}
			return
		}
		switch {
		case types.Identical(bareType(t), ctx):
			if _, ptr := t.Underlying().(*types.Pointer); ptr {
				out = append(out, p.ctx)
			} else {
				out = append(out, p.ctx.load())
			}
		case isSlice:
			cs := many(sl.Elem(), 4)
			out = append(out, SliceV{arr: cs, len: 4, cap: 4})
		case isBasic && b.Info()&types.IsInteger != 0:
			out = append(out, int64(3))
		default:
			out = append(out, one(t, name))
		}
	}
	return
}
