package main

// C16, C17: power-of-two queries and the signed-integer gadgets.

import (
	"fmt"
	"math/big"
	"sync"
)

// intJob is one call on an IntGadget with raw wires.
type intJob struct {
	name  string
	args  []string
	size  func(n int64) uint64 // power-of-two table size
	call  func(in *Interp, g *Cell, n int64, a []Value) []Value
	bind  func(t *Task, st *St, n int64)
	spec  func(t *Task, st *St, n int64) string
	sizes []int64
}

func (j *intJob) tasks(w *World, r *Report) []*Task {
	var mu sync.Mutex
	var ts []*Task
	parallel(len(j.sizes), func(i int) {
		n := j.sizes[i]
		var fs []*Frag
		for _, cfg := range allCfgs() {
			f, err := w.extract(fmt.Sprintf("%s size %d %s", j.name, n, cfg), cfg.front, func(in *Interp, api Value) ([]*Node, []string) {
				g := in.newGadget(api, cfg.width, j.size(n))
				var as []Value
				for _, a := range j.args {
					as = append(as, wire(in.g.Input(a)))
				}
				var out []*Node
				for _, v := range j.call(in, g, n, as) {
					out = append(out, in.node(v))
				}
				return out, nil
			})
			if err != nil {
				r.alarm("extract "+j.name, "%v", err)
				continue
			}
			r.touch(f.funcs)
			r.count("gadget calls extracted (operation x length x limb width x front end)", 1)
			fs = append(fs, f)
		}
		for _, f := range mergeFrags(fs) {
			for _, complete := range []bool{false, true} {
				mode := "sound: "
				if complete {
					mode = "complete: "
				}
				t := &Task{w: w, f: f, name: mode + j.name, complete: complete, enum: true,
					setup: func(t *Task, st *St) { j.bind(t, st, n) },
					leaf: func(t *Task, st *St) string {
						if s := j.spec(t, st, n); s != "" {
							return fmt.Sprintf("%s with length %d: %s", j.name, n, s)
						}
						return ""
					}}
				mu.Lock()
				ts = append(ts, t)
				mu.Unlock()
			}
		}
	})
	return ts
}

// same decides that an output wire equals the wanted value.
func (t *Task) same(st *St, i int, what string, want *Poly) string {
	got := t.eval(st, t.f.out[i])
	if len(t.raw(st, got)) > 0 {
		return what + " is not determined by the constraints: " + t.u.Str(got)
	}
	d := st.e.S(t.u.Sub(got, want))
	if t.complete && t.ezero(st, d) || !t.complete && t.fzero(st, d) {
		return ""
	}
	return fmt.Sprintf("%s is %s, must be %s", what, t.u.Str(st.e.S(got)), t.u.Str(st.e.S(want)))
}

func seq(a, b int64) (out []int64) {
	for ; a <= b; a++ {
		out = append(out, a)
	}
	return
}

const intMag = 200 // integers of magnitude up to 2^200 stand for "every integer"

// bindInt binds wire name to an integer: any for soundness, one whose magnitude fits n bits for completeness.
func (t *Task) bindInt(st *St, name string, n int64) *Poly {
	h := bigPow2(intMag)
	if t.complete {
		h = new(big.Int).Sub(bigPow2(n), big.NewInt(1))
	}
	v := st.e.setVar(name, new(big.Int).Neg(h), h)
	if w := t.f.in[name]; w != nil {
		t.input[w] = v
	}
	return v
}

func gadgetMethod(name string) func(in *Interp, g *Cell, n int64, a []Value) []Value {
	return func(in *Interp, g *Cell, n int64, a []Value) []Value {
		args := append([]Value{}, a...)
		fn := in.w.method("gadget", "IntGadget", name)
		if fn == nil {
			panic(undecided("gadget method " + name + " not found"))
		}
		if fn.Signature.Params().Len() > len(args) {
			args = append(args, uint64(n))
		}
		v := in.callMethod("gadget", "IntGadget", name, g, args...)
		if t, ok := v.(Tuple); ok {
			return t
		}
		return []Value{v}
	}
}

func absJob(name string) *intJob {
	return &intJob{name: name, args: []string{"v"}, size: func(int64) uint64 { return 4 }, call: gadgetMethod(name),
		sizes: seq(1, 128),
		bind:  func(t *Task, st *St, n int64) { t.bindInt(st, "v", n) },
		spec: func(t *Task, st *St, n int64) string {
			e, u := st.e, t.u
			v := e.S(t.input[t.f.in["v"]])
			abs, pos := v, u.one
			if !e.GE(v) {
				abs, pos = u.Neg(v), u.zero
			}
			if name == "IsPositive" {
				return t.same(st, 0, "sign flag", pos)
			}
			if s := t.same(st, 1, "sign flag", pos); s != "" {
				return s
			}
			return t.same(st, 0, "absolute value", e.S(abs))
		}}
}

func maxJob(name string, min bool) *intJob {
	return &intJob{name: name, args: []string{"a", "b"}, size: func(int64) uint64 { return 4 }, call: gadgetMethod(name),
		sizes: seq(1, 128),
		bind: func(t *Task, st *St, n int64) {
			d := t.bindInt(st, "d", n)
			h := bigPow2(intMag)
			b := st.e.setVar("b", new(big.Int).Neg(h), h)
			t.input[t.f.in["b"]] = b
			t.input[t.f.in["a"]] = t.u.Add(b, d)
		},
		spec: func(t *Task, st *St, n int64) string {
			e, u := st.e, t.u
			a, b := e.S(t.input[t.f.in["a"]]), e.S(t.input[t.f.in["b"]])
			if e.GE(e.S(u.Sub(a, b))) == min {
				a = b
			}
			return t.same(st, 0, "result", e.S(a))
		}}
}

var eqJob = &intJob{name: "IsEq", args: []string{"a", "b"}, size: func(int64) uint64 { return 4 }, call: gadgetMethod("IsEq"),
	sizes: []int64{1},
	bind: func(t *Task, st *St, n int64) {
		h := bigPow2(intMag)
		d := st.e.setVar("d", new(big.Int).Neg(h), h)
		b := st.e.setVar("b", new(big.Int).Neg(h), h)
		t.input[t.f.in["b"]] = b
		t.input[t.f.in["a"]] = t.u.Add(b, d)
	},
	spec: func(t *Task, st *St, n int64) string {
		e, u := st.e, t.u
		a, b := e.S(t.input[t.f.in["a"]]), e.S(t.input[t.f.in["b"]])
		want := u.zero
		if e.Zero(e.S(u.Sub(a, b))) {
			want = u.one
		}
		return t.same(st, 0, "result", want)
	}}

var pow2Job = &intJob{name: "QueryPowerOf2", args: []string{"x"}, size: func(n int64) uint64 { return uint64(n) },
	call: gadgetMethod("QueryPowerOf2"), sizes: seq(2, 96),
	bind: func(t *Task, st *St, n int64) {
		lo, hi := new(big.Int).Neg(bigPow2(64)), bigPow2(64)
		if t.complete {
			lo, hi = new(big.Int), big.NewInt(n-1)
		}
		t.input[t.f.in["x"]] = st.e.setVar("x", lo, hi)
	},
	spec: func(t *Task, st *St, n int64) string {
		e, u := st.e, t.u
		x := e.S(t.input[t.f.in["x"]])
		if !e.GE(x) || !e.GE(u.Sub(u.Int(n-1), e.S(x))) {
			return "an exponent outside the table is accepted: " + u.Str(e.S(x))
		}
		return t.same(st, 0, "power", u.Pow2(e.S(x)))
	}}

func intProp(explain string, js ...*intJob) *propDef {
	return &propDef{"proof", func(w *World, r *Report) {
		r.explain = explain
		n := 0
		var ts, tc []*Task
		for _, j := range js {
			n += len(j.sizes) * len(allCfgs())
			for _, t := range j.tasks(w, r) {
				if t.complete {
					tc = append(tc, t)
				} else {
					ts = append(ts, t)
				}
			}
		}
		runTasks(append(append([]*Task{}, ts...), tc...))
		reportTasks(r, ts, false)
		reportTasks(r, tc, true)
		groups := map[string]*limbGroup{}
		for _, t := range ts {
			for _, c := range t.f.cons {
				for _, g := range c.grps {
					groups[g.key()] = g
				}
			}
		}
		w.checkGroups(r, groups)
		r.atLeast("gadget calls extracted (operation x length x limb width x front end)", n)
	}}
}

func init() {
	props["C16"] = intProp("QueryPowerOf2 is extracted for table sizes 2..96, every limb width and both front ends. Soundness: for an arbitrary integer exponent of magnitude up to 2^64 and arbitrary advice the constraints leave only exponents inside the table and the exact power. Completeness: the partially evaluated hints satisfy every constraint for every exponent inside the table.", pow2Job)
	props["C17"] = intProp("Abs, IsPositive, Max, Min and IsEq are extracted for lengths 1..128, every limb width and both front ends. Soundness: for arbitrary integers (magnitude up to 2^200, whether or not they fit) and arbitrary advice the constraints leave only the right answer. Completeness: the partially evaluated hints satisfy every constraint whenever the magnitude fits.", absJob("Abs"), absJob("IsPositive"), maxJob("Max", false), maxJob("Min", true), eqJob)
}
