package main

// C24: proof helpers report every failure.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pipeline steps by package suffix and name.
func pipeStep(name string) string {
	for _, s := range []string{"gnark/frontend.Compile", "gnark/frontend.NewWitness", "gnark/test/unsafekzg.NewSRS",
		"gnark/backend/groth16.Setup", "gnark/backend/groth16.Prove", "gnark/backend/groth16.Verify",
		"gnark/backend/plonk.Setup", "gnark/backend/plonk.Prove", "gnark/backend/plonk.Verify", "gnark/test.IsSolved"} {
		if strings.HasSuffix(name, s) {
			return s[strings.Index(s, "/")+1:]
		}
	}
	for _, m := range []string{"Public", "IsSolved", "Solve"} {
		if strings.HasSuffix(name, ")."+m) && strings.Contains(name, "gnark") {
			return m
		}
	}
	return ""
}

// pipeTok is a value made by a pipeline step.
type pipeTok struct {
	kind     string // cs, witness, public, srs, srsl, pk, vk, proof
	sys      string
	from     *pipeTok // cs of a key, setup of a pair
	cs       *pipeTok
	pk, w    *pipeTok
	assign   string
	verified bool
	id       int
}

type pipeRun struct {
	w       *World
	toks    map[string]*pipeTok
	n       int
	proofs  []*pipeTok
	failed  string // first failed step
	steps   map[string]int
	records int
}

func (p *pipeRun) tok(v Value) *pipeTok { return p.toks[keyOf(v)] }

func (p *pipeRun) add(t *pipeTok) Value {
	p.n++
	t.id = p.n
	o := mkTerm(fmt.Sprintf("%s#%d", t.kind, p.n))
	p.toks[o.key()] = t
	return o
}

func firstError(sig *types.Signature, args []Value) (Value, bool) {
	// arguments of assertion functions: the first one that is an error or nil where an error is expected
	off := len(args) - sig.Params().Len()
	if off < 0 {
		off = 0
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if isErrorType(sig.Params().At(i).Type()) && off+i < len(args) {
			return args[off+i], true
		}
	}
	return nil, false
}

func isConstData(v Value) bool {
	switch x := v.(type) {
	case Opaque:
		return false
	case Iface:
		return isConstData(x.v)
	case SliceV:
		for _, c := range x.arr[:x.len] {
			if !isConstData(c.load()) {
				return false
			}
		}
		return true
	case *Cell:
		return x == nil || isConstData(x.load())
	case *StructV:
		for _, f := range x.f {
			if !isConstData(f) {
				return false
			}
		}
	}
	return true
}

func (p *pipeRun) model(x *explorer, in *Interp, name string, sig *types.Signature, args []Value) (Value, bool) {
	if step := pipeStep(name); step != "" {
		return p.step(x, in, step, name, sig, args), true
	}
	short := name[strings.LastIndex(name, ".")+1:]
	report := func() { x.reported = true }
	switch {
	case strings.HasSuffix(name, "gnark/frontend.PublicOnly"):
		return mkTerm("PublicOnly"), true
	case strings.HasPrefix(name, "(*testing.") || strings.HasPrefix(name, "(testing."):
		switch short {
		case "Fatal", "Fatalf", "FailNow":
			report()
			panic(endPath{"failed test"})
		case "Error", "Errorf", "Fail":
			report()
			return nil, true
		case "Skip", "Skipf", "SkipNow":
			panic(endPath{"skipped test"})
		case "Failed":
			return x.reported, true
		case "Loop":
			x.seq++
			if x.seq == 1 {
				return true, true
			}
			return mkTerm("Loop", int64(x.seq)), true
		case "Run":
			if c, ok := args[2].(*Closure); ok {
				in.callClosure(c, []Value{args[0]})
				return !x.reported, true
			}
		}
	case strings.Contains(name, "stretchr/testify/"):
		fatal := strings.Contains(name, "testify/require")
		if sig.Params().Len() > 0 || sig.Recv() != nil {
			bad, decided := false, false
			switch strings.TrimSuffix(short, "f") {
			case "NoError":
				e, ok := firstError(sig, args)
				if !ok {
					break
				}
				bad, decided = x.isNil(e)
				bad = !bad
			case "Nil":
				for _, a := range args[1:] {
					if _, isSl := a.(SliceV); isSl {
						break
					}
					bad, decided = x.isNil(a)
					bad = !bad
					break
				}
			case "True", "False":
				for _, a := range args {
					if b, ok := a.(bool); ok {
						bad, decided = b != (strings.HasPrefix(short, "True")), true
					}
				}
			case "New":
				return nil, false
			case "FailNow", "Fail":
				bad, decided = true, true
			}
			if !decided {
				bad = !x.fork()
			}
			if bad {
				report()
				if fatal {
					panic(endPath{"failed test"})
				}
			}
			if sig.Results().Len() == 1 {
				return !bad, true
			}
			return nil, true
		}
	case name == "os.Exit":
		if c, ok := args[0].(int64); !ok || c != 0 {
			report()
		}
		panic(endPath{"exit"})
	case name == "runtime.Goexit":
		panic(endPath{"exit"})
	case strings.HasPrefix(name, "log.") && (strings.HasPrefix(short, "Fatal") || strings.HasPrefix(short, "Panic")):
		report()
		panic(endPath{"exit"})
	case name == "errors.New", name == "fmt.Errorf":
		return Iface{errT, ErrV{keyOf(args[0])}}, true
	case name == "errors.Join":
		if s, ok := args[0].(SliceV); ok {
			for _, c := range s.arr[:s.len] {
				isnil, ok := x.isNil(c.v)
				if ok && !isnil {
					return Iface{errT, ErrV{"joined"}}, true
				}
				if !ok {
					return nil, false
				}
			}
			return nil, true
		}
	}
	if w, data, ok := writeCall(name, short, args); ok {
		if !strings.Contains(keyOf(w), "variable os.Std") && !isConstData(data) {
			p.record(x, in, short)
		}
	}
	// every call may answer differently
	x.seq++
	v := x.havoc(in, name, sig, append(append([]Value{}, args...), fmt.Sprintf("call %d", x.seq)))
	return v, true
}

// writeCall: the call writes data to a writer.
func writeCall(name, short string, args []Value) (w, data Value, ok bool) {
	switch {
	case strings.HasPrefix(name, "fmt.Fprint"):
		return args[0], SliceV{arr: cellsOf(args[1:]), len: len(args) - 1}, true
	case name == "os.WriteFile":
		return args[0], args[1], true
	case name == "io.WriteString":
		return args[0], args[1], true
	case strings.HasPrefix(name, "(") && (short == "Write" || short == "WriteString" || short == "WriteAll") && len(args) == 2:
		if strings.Contains(name, "bytes.Buffer") || strings.Contains(name, "strings.Builder") {
			return nil, nil, false
		}
		return args[0], args[1], true
	case strings.HasPrefix(name, "(*encoding/json.Encoder).Encode"):
		return args[0], args[1], true
	}
	return nil, nil, false
}

func cellsOf(vs []Value) (out []*Cell) {
	for _, v := range vs {
		out = append(out, &Cell{v: v})
	}
	return
}

func (p *pipeRun) record(x *explorer, in *Interp, how string) {
	p.records++
	if p.failed != "" {
		x.note(in, "records a result although %s failed", p.failed)
	}
	if len(p.proofs) == 0 || !p.proofs[len(p.proofs)-1].verified {
		x.note(in, "records a result before the proof has been verified")
	}
}

func (p *pipeRun) step(x *explorer, in *Interp, step, name string, sig *types.Signature, args []Value) Value {
	ok := true
	if p.failed == "" || !x.reported { // once a failure is reported the outcome cannot change
		ok = x.fork()
	}
	p.steps[step]++
	ev := &libEvent{name: name, args: args, hasErr: true}
	x.events = append(x.events, ev)
	var toks []*pipeTok
	sys := strings.TrimPrefix(strings.SplitN(step, ".", 2)[0], "backend/")
	at := func(i int, kind string) *pipeTok {
		if i >= len(args) {
			return nil
		}
		t := p.tok(args[i])
		if t != nil && t.kind == kind {
			return t
		}
		return nil
	}
	last := step[strings.LastIndex(step, ".")+1:]
	switch last {
	case "Compile":
		toks = []*pipeTok{{kind: "cs"}}
	case "NewWitness":
		k := "witness"
		for _, a := range args[1:] {
			if strings.Contains(keyOf(a), "PublicOnly") {
				k = "public"
			}
		}
		toks = []*pipeTok{{kind: k, assign: keyOf(args[0])}}
	case "Public":
		t := &pipeTok{kind: "public"}
		if w := p.tok(args[0]); w != nil && (w.kind == "witness" || w.kind == "public") {
			t.assign = w.assign
		}
		toks = []*pipeTok{t}
	case "NewSRS":
		toks = []*pipeTok{{kind: "srs", cs: at(0, "cs")}, {kind: "srsl", cs: at(0, "cs")}}
	case "Setup":
		s := &pipeTok{kind: "setup", cs: at(0, "cs"), sys: sys}
		if sys == "plonk" {
			a, b := at(1, "srs"), at(2, "srsl")
			if ok && (a == nil || b == nil || a.cs != s.cs || b.cs != s.cs) {
				x.note(in, "sets up with a reference string that was not made for this constraint system")
			}
		}
		toks = []*pipeTok{{kind: "pk", from: s, cs: s.cs, sys: sys}, {kind: "vk", from: s, cs: s.cs, sys: sys}}
	case "Prove":
		t := &pipeTok{kind: "proof", sys: sys, cs: at(0, "cs"), pk: at(1, "pk"), w: at(2, "witness")}
		toks = []*pipeTok{t}
		if ok {
			p.proofs = append(p.proofs, t)
			if t.cs == nil || t.pk == nil || t.w == nil || t.pk.cs != t.cs || t.pk.sys != sys {
				x.note(in, "proves with a key or witness that does not belong to the circuit")
			}
		}
	case "Verify":
		pr, vk, pub := at(0, "proof"), at(1, "vk"), at(2, "public")
		if ok {
			if pr != nil && vk != nil && pub != nil && pr.pk != nil && pr.w != nil && pr.sys == sys && vk.from == pr.pk.from && pub.assign == pr.w.assign {
				pr.verified = true
			} else {
				x.note(in, "verifies something else than the proof, key and public inputs of this run")
			}
		}
	}
	if !ok && p.failed == "" {
		p.failed = step
		ev.where = in.where()
	}
	r := sig.Results()
	var out Tuple
	k := 0
	for i := 0; i < r.Len(); i++ {
		t := r.At(i).Type()
		switch {
		case isErrorType(t) && !ok:
			out = append(out, Iface{errT, ErrV{"failure of " + step}})
		case isErrorType(t):
			out = append(out, nil)
		case !ok:
			out = append(out, zeroOf(t))
		case k < len(toks):
			out = append(out, p.add(toks[k]))
			k++
		default:
			out = append(out, mkTerm(fmt.Sprintf("result %d of %s", i, step)))
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return out
}

// reachesPipeline: the function or something it calls in the repository runs a pipeline step.
func (w *World) reachesPipeline() map[*ssa.Function]bool {
	fs := w.repoFuncs()
	calls := map[*ssa.Function][]*ssa.Function{}
	hit := map[*ssa.Function]bool{}
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					n, _ := libName(g)
					if !w.inRepo(g) && pipeStep(n) != "" {
						hit[f] = true
					}
					calls[f] = append(calls[f], g)
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range fs {
			if hit[f] {
				continue
			}
			for _, g := range calls[f] {
				if hit[g] {
					hit[f], ch = true, true
					break
				}
			}
		}
	}
	return hit
}

func (w *World) isTesting(t types.Type) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "testing"
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (w *World) c24(r *Report) {
	hit := w.reachesPipeline()
	called := map[*ssa.Function]bool{}
	for f := range hit {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if op != nil && *op != nil {
						if g, ok := (*op).(*ssa.Function); ok {
							called[g] = true
						}
					}
				}
			}
		}
	}
	var roots []*ssa.Function
	for _, f := range w.repoFuncs() {
		if hit[f] && f.Parent() == nil && (f.Object() != nil && f.Object().Exported() || !called[f]) {
			roots = append(roots, f)
		}
	}
	verified := make([]int, len(roots))
	parallel(len(roots), func(i int) {
		f := roots[i]
		key := shortFn(w, f)
		guarded(r, key, func() {
			paths, cut, bad, good, rec := w.exploreHelper(r, f)
			r.count("paths followed", paths)
			r.count("loop turns beyond the third not followed", cut)
			for _, b := range bad {
				r.alarm(key+": "+strings.SplitN(b, " [", 2)[0], "%s %s", key, b)
			}
			if len(bad) == 0 {
				r.pass("%s reports every failure (%d paths, %d of them succeed with a verified proof, %d records)", key, paths, good, rec)
			}
			verified[i] = good
		})
	})
	r.count("helper functions", len(roots))
	n := 0
	for i := range roots {
		if verified[i] > 0 {
			n++
		}
	}
	r.count("helpers with a path that succeeds with a verified proof", n)
}

func (w *World) exploreHelper(r *Report, f *ssa.Function) (paths, cut int, bad []string, good, rec int) {
	var p *pipeRun
	res := f.Signature.Results()
	returnsProof := false
	for i := 0; i < res.Len(); i++ {
		t := types.TypeString(res.At(i).Type(), nil)
		if strings.HasSuffix(t, ".Proof") {
			returnsProof = true
		}
	}
	e := &explore{w: w, limit: 20000,
		setup: func(x *explorer, in *Interp) {
			p = &pipeRun{w: w, toks: map[string]*pipeTok{}, steps: map[string]int{}}
			x.model = p.model
			x.known = p.knownToks
		},
		body: func(in *Interp) Value {
			return in.call(f, w.helperArgs(f))
		},
		end: func(pe *pathEnd) (out []string) {
			rec += p.records
			if pe.how == "cut" {
				return
			}
			failedRes := false
			if pe.how == "return" {
				vals, _ := pe.ret.(Tuple)
				if vals == nil {
					vals = Tuple{pe.ret}
				}
				for i := 0; i < res.Len(); i++ {
					if isErrorType(res.At(i).Type()) && i < len(vals) {
						isnil, ok := pe.x.isNil(vals[i])
						failedRes = failedRes || ok && !isnil
					}
				}
			}
			reported := failedRes || pe.x.reported || pe.how == "panic"
			if p.failed != "" && !reported {
				return append(out, fmt.Sprintf("does not report that %s failed (%s)", p.failed, pe.how))
			}
			if reported || pe.how == "skipped test" {
				return
			}
			for _, pr := range p.proofs {
				if !pr.verified && !(returnsProof && pr == p.proofs[len(p.proofs)-1]) {
					return append(out, "reports success without having verified the proof it made")
				}
			}
			if len(p.proofs) > 0 && p.failed == "" {
				good++
			}
			return
		},
	}
	paths, cut, bad = e.run(r)
	return
}

// helperArgs makes unknown arguments and a benchmark.
func (w *World) helperArgs(f *ssa.Function) []Value {
	var args []Value
	var bc *Cell
	for i, q := range f.Params {
		switch {
		case w.isTesting(q.Type()):
			if bc == nil {
				bc = w.testingB(q)
			}
			if _, ok := q.Type().Underlying().(*types.Interface); ok {
				args = append(args, Iface{types.NewPointer(bc.t), bc})
			} else {
				args = append(args, bc)
			}
		default:
			args = append(args, mkTerm(fmt.Sprintf("argument %d %s", i, q.Name())))
		}
	}
	return args
}

// knownToks: values made by a step that succeeded are not nil.
func (p *pipeRun) knownToks(x *explorer, o Opaque) (bool, bool) {
	if o.t.op == "==" && (isNilVal(o.t.args[0]) || isNilVal(o.t.args[1])) {
		for _, a := range o.t.args {
			if p.tok(a) != nil {
				return false, true
			}
		}
	}
	return false, false
}

// testingB builds a benchmark value that asks for two turns.
func (w *World) testingB(q *ssa.Parameter) *Cell {
	n := types.Unalias(deref(q.Type())).(*types.Named)
	t := n.Obj().Type()
	if o := n.Obj().Pkg().Scope().Lookup("B"); o != nil && n.Obj().Name() == "TB" {
		t = o.Type()
	}
	c := newCell(t)
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "N" {
				c.sub[i].store(int64(2))
			}
		}
	}
	return c
}

func init() {
	props["C24"] = &propDef{"other", func(w *World, r *Report) {
		r.explain = "Every function that leads to compilation, witness construction, setup, proving or verification is followed along all its paths with each of these steps (and each other library call that returns an error) both succeeding and failing. On every path with a failed step the function must return an error, fail the test or panic; nothing may be written to a file after a failure or before verification; a path that reports success must have verified the proof it made with the key of the same setup and the public part of the same witness."
		w.c24(r)
		r.atLeast("helper functions", 3)
		r.atLeast("helpers with a path that succeeds with a verified proof", 3)
	}}
}
