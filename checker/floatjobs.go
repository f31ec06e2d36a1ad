package main

import (
	"fmt"
	"math/big"
	"strings"
)

// FloatJob describes one float operation: how it is called, for which operand classes, and what it must compute.
type FloatJob struct {
	op      Op
	classes [][]string
	eager   bool
	canon   bool // the outputs are a float
	// spec compares the outputs with IEEE-754 ("" if they agree)
	spec func(f Fmt, t *Task, st *St, x []FV) string
	// pre is the condition under which an honest prover must succeed (nil: always)
	pre func(f Fmt, t *Task, st *St, x []FV) bool
	// bind adds operands other than floats
	bind func(f Fmt, t *Task, st *St)
	// extra names further float inputs introduced by op
	extra   []string
	formats []Fmt
}

func (j *FloatJob) fmts() []Fmt {
	if j.formats != nil {
		return j.formats
	}
	return formats
}

func pairs(cs []string) (out [][]string) {
	for _, a := range cs {
		for _, b := range cs {
			out = append(out, []string{a, b})
		}
	}
	return
}

func singles(cs []string) (out [][]string) {
	for _, a := range cs {
		out = append(out, []string{a})
	}
	return
}

func fspec(g func(f Fmt, e *Env, x []FV) FV) func(Fmt, *Task, *St, []FV) string {
	return func(f Fmt, t *Task, st *St, x []FV) string { return t.match(st, g(f, st.e, x)) }
}

func binJob(name string, g func(f Fmt, e *Env, x []FV) FV) *FloatJob {
	return &FloatJob{op: methodOp(name, []string{"x", "y"}, -1), classes: pairs(allClasses), canon: true, spec: fspec(g)}
}

func unJob(name string, g func(f Fmt, e *Env, x []FV) FV) *FloatJob {
	return &FloatJob{op: methodOp(name, []string{"x"}, -1), classes: singles(allClasses), canon: true, spec: fspec(g)}
}

// matchBit compares a single output wire with a decided boolean.
func (t *Task) matchBit(st *St, want bool) string {
	got := t.eval(st, t.f.out[0])
	if len(t.raw(st, got)) > 0 {
		return "result is not determined by the constraints: " + t.u.Str(got)
	}
	w := t.b2p(want)
	if t.fzero(st, st.e.S(t.u.Sub(got, w))) {
		return ""
	}
	return fmt.Sprintf("result is %s, must be %s", t.u.Str(st.e.S(got)), t.u.Str(w))
}

// lessSpec decides x < y (or x <= y) in the IEEE-754 order.
func (f Fmt) lessSpec(e *Env, x, y FV, eq bool) bool {
	u := e.u
	if x.cls == clsNaN || y.cls == clsNaN {
		return false
	}
	if x.cls == clsZero && y.cls == clsZero {
		return eq
	}
	if x.cls == clsZero {
		return !e.bit(y.s)
	}
	if y.cls == clsZero {
		return e.bit(x.s)
	}
	sx, sy := e.bit(x.s), e.bit(y.s)
	if sx != sy {
		return sx
	}
	if sx {
		x, y = y, x
	}
	// |x| < |y| : lexicographic on (exponent, mantissa) of normalised values
	d := e.S(u.Sub(y.e, x.e))
	if e.Zero(d) {
		m := e.S(u.Sub(y.m, x.m))
		if e.Zero(m) {
			return eq
		}
		return e.GE(e.S(u.Sub(y.m, x.m)))
	}
	return e.GE(e.S(u.Sub(y.e, x.e)))
}

func cmpJob(name string, swap, eq bool) *FloatJob {
	return &FloatJob{op: methodOp(name, []string{"x", "y"}, 1), classes: pairs(allClasses),
		spec: func(f Fmt, t *Task, st *St, x []FV) string {
			a, b := x[0], x[1]
			if swap {
				a, b = b, a
			}
			return t.matchBit(st, f.lessSpec(st.e, a, b, eq))
		}}
}

// intSpec rounds to an integral value; dir -1 floor, 0 trunc, +1 ceil.
func (f Fmt) intSpec(e *Env, x FV, dir int) FV {
	u := e.u
	switch x.cls {
	case clsNaN:
		return f.nan(u)
	case clsZero, clsInf:
		return x
	}
	up := false // increase the magnitude
	if dir != 0 {
		up = e.bit(x.s) == (dir < 0)
	}
	x.s, x.e, x.m = e.S(x.s), e.S(x.e), e.S(x.m)
	if !e.GE(x.e) {
		if up {
			return FV{cls: clsNorm, s: x.s, e: u.zero, m: u.Const(bigPow2(f.M)), a: u.zero}
		}
		return f.zero(u, x.s)
	}
	if e.GE(u.Sub(x.e, u.Int(f.M))) {
		return FV{cls: clsNorm, s: e.S(x.s), e: e.S(x.e), m: e.S(x.m), a: u.zero}
	}
	k := u.Sub(u.Int(f.M), e.S(x.e))
	q := u.Mul(e.S(x.m), u.Pow2(u.Neg(k)))
	var m *Poly
	if up {
		m = u.Neg(e.Floor(u.Neg(q)))
	} else {
		m = e.Floor(q)
	}
	m = u.Mul(e.S(m), u.Pow2(e.S(k)))
	m = e.S(m)
	if up && e.Zero(u.Sub(m, u.Const(bigPow2(f.M+1)))) {
		return FV{cls: clsNorm, s: e.S(x.s), e: u.Add(e.S(x.e), u.one), m: u.Const(bigPow2(f.M)), a: u.zero}
	}
	return FV{cls: clsNorm, s: e.S(x.s), e: e.S(x.e), m: e.S(m), a: u.zero}
}

const (
	clsIntSmall = "integral below 2^M"
	clsIntBig   = "integral from 2^M"
)

var floatJobs = map[string]*FloatJob{}

func init() {
	J := floatJobs
	J["Mul"] = binJob("Mul", func(f Fmt, e *Env, x []FV) FV { return f.specMul(e, x[0], x[1]) })
	J["Div"] = binJob("Div", func(f Fmt, e *Env, x []FV) FV { return f.specDiv(e, x[0], x[1]) })
	J["Add"] = binJob("Add", func(f Fmt, e *Env, x []FV) FV { return f.specAdd(e, x[0], x[1], false, f.M+3) })
	J["Sub"] = binJob("Sub", func(f Fmt, e *Env, x []FV) FV { return f.specAdd(e, x[0], x[1], true, f.M+3) })
	J["Sqrt"] = unJob("Sqrt", func(f Fmt, e *Env, x []FV) FV { return f.specSqrt(e, x[0]) })
	J["Sqrt"].eager = true
	J["Trunc"] = unJob("Trunc", func(f Fmt, e *Env, x []FV) FV { return f.intSpec(e, x[0], 0) })
	J["Floor"] = unJob("Floor", func(f Fmt, e *Env, x []FV) FV { return f.intSpec(e, x[0], -1) })
	J["Ceil"] = unJob("Ceil", func(f Fmt, e *Env, x []FV) FV { return f.intSpec(e, x[0], 1) })
	J["Abs"] = unJob("Abs", func(f Fmt, e *Env, x []FV) FV { v := x[0]; v.s = e.u.zero; return v })
	J["Neg"] = unJob("Neg", func(f Fmt, e *Env, x []FV) FV { v := x[0]; v.s = e.u.Sub(e.u.one, v.s); return v })
	J["IsLt"] = cmpJob("IsLt", false, false)
	J["IsLe"] = cmpJob("IsLe", false, true)
	J["IsGt"] = cmpJob("IsGt", true, false)
	J["IsGe"] = cmpJob("IsGe", true, true)
	J["Select"] = &FloatJob{op: methodOp("Select", []string{"c", "x", "y"}, -1), classes: pairs(allClasses), canon: true,
		bind: func(f Fmt, t *Task, st *St) {
			t.input[t.f.in["c"]] = st.e.setVar("c", big.NewInt(0), big.NewInt(1))
		},
		spec: func(f Fmt, t *Task, st *St, x []FV) string {
			if st.e.bit(st.e.S(t.input[t.f.in["c"]])) {
				return t.match(st, x[0])
			}
			return t.match(st, x[1])
		}}
}

// tasks builds the tasks of a job for one format.
func (w *World) jobTasks(name string, j *FloatJob, f Fmt, frs []*Frag, mode int) (ts []*Task) {
	complete, canonOnly := mode == mComplete, mode == mCanon
	for _, g := range frs {
		for _, cl := range j.classes {
			xs := make([]FV, len(cl))
			ts = append(ts, &Task{w: w, f: g, name: fmt.Sprintf("%s %s(%s)", f, name, strings.Join(cl, ",")), complete: complete,
				enum: true, eager: j.eager,
				setup: func(t *Task, st *St) {
					k := 0
					for _, a := range append(append([]string{}, j.op.args...), j.extra...) {
						if a[0] != 'c' && a[0] != 'v' {
							xs[k] = f.operand(st.e, a, cl[k])
							t.bindFloat(a, xs[k])
							k++
						}
					}
					if j.bind != nil {
						j.bind(f, t, st)
					}
				},
				leaf: func(t *Task, st *St) string {
					if canonOnly {
						return f.canonical(t, st, t.outs(st))
					}
					ys := make([]FV, len(xs))
					for i, x := range xs {
						ys[i] = FV{x.cls, st.e.S(x.s), st.e.S(x.e), st.e.S(x.m), st.e.S(x.a)}
					}
					if s := j.spec(f, t, st, ys); s != "" {
						return s
					}
					if j.canon {
						return f.canonical(t, st, t.outs(st))
					}
					return ""
				},
			})
			if complete && j.pre != nil {
				ts[len(ts)-1].pre = func(t *Task, st *St) bool {
					ys := make([]FV, len(xs))
					for i, x := range xs {
						ys[i] = FV{x.cls, st.e.S(x.s), st.e.S(x.e), st.e.S(x.m), st.e.S(x.a)}
					}
					return j.pre(f, t, st, ys)
				}
			}
			if complete {
				ts[len(ts)-1].leaf = nil
			}
		}
	}
	return
}

// what is decided about a float operation
const (
	mSound    = iota // every accepted output is the specified one (and canonical)
	mComplete        // an honest prover satisfies every constraint
	mCanon           // every accepted output is canonical, whatever its value
)

// floatCheck decides the named jobs for both formats.
func (w *World) floatCheck(r *Report, names []string, mode int) {
	complete := mode == mComplete
	var ts []*Task
	for _, n := range names {
		j := floatJobs[n]
		for _, f := range j.fmts() {
			frs, errs := w.opFrags(j.op, f, allCfgs())
			for _, e := range errs {
				r.alarm("extract "+n, "%v", e)
			}
			r.count("circuit fragments extracted (operation x format x front end x limb width)", len(allCfgs())-len(errs))
			for _, g := range frs {
				r.touch(g.funcs)
				for _, c := range g.cons {
					if c.rng {
						r.count("range checks in fragments", 1)
					} else {
						r.count("other constraints in fragments", 1)
					}
				}
			}
			ts = append(ts, w.jobTasks(n, j, f, frs, mode)...)
		}
	}
	runTasks(ts)
	if complete {
		groups := map[string]*limbGroup{}
		for _, t := range ts {
			for _, c := range t.f.cons {
				for _, g := range c.grps {
					groups[g.key()] = g
				}
			}
		}
		w.checkGroups(r, groups)
	}
	concrete := false
	for _, t := range ts {
		concrete = concrete || len(t.alarms) > 0
	}
	for _, t := range ts {
		r.count("cases (leaves of the case analysis)", t.leaves)
		r.count("cases shown contradictory", t.infeas)
		r.count("cases proved", t.sat)
		if complete {
			r.count("constraint obligations proved", t.checked)
		}
		if len(t.alarms) == 0 {
			if t.stopped {
				if !concrete {
					r.alarm(t.name, "not decided: analysis stopped")
				}
				continue
			}
			r.pass("%s [%d configurations]: %d cases proved, %d contradictory", t.name, len(t.f.widths), t.sat, t.infeas)
			continue
		}
		for _, a := range t.alarms {
			r.alarm(t.name, "%s", a.String())
		}
	}
}

// ---------- allocation ----------

// decodeSpec is the documented component form of the bit pattern v.
func (f Fmt) decodeSpec(e *Env, v *Poly) FV {
	u := e.u
	hi := e.Floor(u.Scale(v, pow2Rat(-f.M)))
	s := e.Floor(u.Scale(e.S(v), pow2Rat(-f.E-f.M)))
	ef := e.S(u.Sub(e.S(hi), u.Scale(e.S(s), pow2Rat(f.E))))
	m := e.S(u.Sub(e.S(v), u.Scale(e.S(hi), pow2Rat(f.M))))
	switch {
	case e.Zero(ef):
		m = e.S(m)
		if e.Zero(m) {
			return f.zero(u, e.S(s))
		}
		m = e.S(m)
		L := e.Lg(m)
		L = e.S(L)
		// m*2^(Enmin-M) = mantissa*2^(exponent-M), mantissa in [2^M, 2^(M+1))
		return FV{cls: clsSub, s: e.S(s), e: u.Add(u.Int(f.Enmin()-f.M), L), m: u.Mul(e.S(m), u.Pow2(u.Sub(u.Int(f.M), L))), a: u.zero}
	case e.Zero(u.Sub(e.S(ef), u.Const(new(big.Int).Sub(bigPow2(f.E), big.NewInt(1))))):
		m = e.S(m)
		if e.Zero(m) {
			return f.inf(u, e.S(s))
		}
		n := f.nan(u)
		n.s = e.S(s) // the sign of an allocated NaN is its sign bit
		return n
	}
	return FV{cls: clsNorm, s: e.S(s), e: e.S(u.Add(e.S(ef), u.Int(f.Enmin()-1))), m: u.Add(e.S(m), u.Const(bigPow2(f.M))), a: u.zero}
}

func init() {
	floatJobs["NewFloat"] = &FloatJob{op: methodOp("NewFloat", []string{"v"}, -1), classes: [][]string{{}}, canon: true,
		bind: func(f Fmt, t *Task, st *St) {
			if t.complete {
				t.input[t.f.in["v"]] = st.e.setVar("v", new(big.Int), new(big.Int).Sub(bigPow2(f.E+f.M+1), big.NewInt(1)))
				return
			}
			a := t.u.Var("v") // any field element
			st.e.undet[a] = true
			t.input[t.f.in["v"]] = t.u.Atom(a)
		},
		spec: func(f Fmt, t *Task, st *St, x []FV) string {
			e, u := st.e, t.u
			v := e.S(t.input[t.f.in["v"]])
			if len(t.raw(st, v)) > 0 {
				return "the allocated value is not bounded by the constraints"
			}
			if !e.GE(v) || !e.GE(u.Sub(u.Const(new(big.Int).Sub(bigPow2(f.E+f.M+1), big.NewInt(1))), v)) {
				return "a value outside the format is accepted: " + u.Str(v)
			}
			return t.match(st, f.decodeSpec(e, e.S(v)))
		}}
}

// ---------- conversion to integers ----------

func init() {
	floatJobs["ToInt"] = &FloatJob{op: methodOp("ToInt", []string{"x"}, 1),
		classes: [][]string{{clsZero}, {clsIntSmall}, {clsIntBig}, {clsInf}, {clsNaN}},
		spec: func(f Fmt, t *Task, st *St, x []FV) string {
			e, u := st.e, t.u
			v := x[0]
			if v.cls == clsInf || v.cls == clsNaN {
				return "accepts " + v.cls
			}
			want := u.zero
			if v.cls != clsZero {
				want = u.Mul(v.m, u.Pow2(u.Sub(v.e, u.Int(f.M))))
				if e.bit(e.S(v.s)) {
					want = u.Neg(e.S(want))
				}
			}
			got := t.eval(st, t.f.out[0])
			if len(t.raw(st, got)) > 0 {
				return "result is not determined by the constraints: " + t.u.Str(got)
			}
			if t.fzero(st, e.S(u.Sub(got, e.S(want)))) {
				return ""
			}
			return fmt.Sprintf("result is %s, must be %s", u.Str(e.S(got)), u.Str(e.S(want)))
		},
		pre: func(f Fmt, t *Task, st *St, x []FV) bool {
			switch x[0].cls {
			case clsInf, clsNaN:
				return false
			case clsZero:
				return true
			}
			return st.e.GE(t.u.Sub(t.u.Int(f.E+f.M), x[0].e)) // up to the sign bit of the integer of the same width
		}}
}

// ---------- assertions ----------

// sameSpec decides that two floats have the same value and class.
func (f Fmt) sameSpec(e *Env, x, y FV) bool {
	u := e.u
	if x.cls == clsNaN || y.cls == clsNaN {
		return x.cls == y.cls
	}
	if (x.cls == clsZero) != (y.cls == clsZero) || (x.cls == clsInf) != (y.cls == clsInf) {
		return false
	}
	return e.Zero(e.S(u.Sub(x.s, y.s))) && e.Zero(e.S(u.Sub(x.e, y.e))) && e.Zero(e.S(u.Sub(x.m, y.m)))
}

// nextSpec decides that y is the value next to x in the order of magnitudes (same sign).
func (f Fmt) nextSpec(e *Env, x, y FV) bool {
	u := e.u
	one := u.Const(bigPow2(f.M))
	last := u.Const(new(big.Int).Sub(bigPow2(f.M+1), big.NewInt(1)))
	if x.cls == clsNaN || y.cls == clsNaN || x.cls == clsInf || y.cls == clsZero {
		return false
	}
	if !e.Zero(e.S(u.Sub(x.s, y.s))) {
		return false
	}
	if x.cls == clsZero {
		return y.cls == clsSub && e.Zero(e.S(u.Sub(y.e, u.Int(f.Enmin()-f.M))))
	}
	if y.cls == clsInf {
		return x.cls == clsNorm && e.Zero(e.S(u.Sub(x.e, u.Int(f.Emax()-1)))) && e.Zero(e.S(u.Sub(x.m, last)))
	}
	// spacing at x: 2^(max(x.e,Enmin)-M)
	step := u.one
	if x.cls == clsSub {
		step = u.Pow2(e.S(u.Sub(u.Int(f.Enmin()), x.e)))
	}
	if e.Zero(e.S(u.Sub(x.e, y.e))) {
		return e.Zero(e.S(u.Sub(u.Add(x.m, step), y.m)))
	}
	if !e.Zero(e.S(u.Sub(u.Add(x.e, u.one), y.e))) {
		return false
	}
	return e.Zero(e.S(u.Sub(y.m, one))) && e.Zero(e.S(u.Sub(u.Add(e.S(x.m), e.S(step)), u.Const(bigPow2(f.M+1)))))
}

func init() {
	floatJobs["AssertIsEqual"] = &FloatJob{op: methodOp("AssertIsEqual", []string{"x", "y"}, 0), classes: pairs(allClasses),
		spec: func(f Fmt, t *Task, st *St, x []FV) string {
			if !f.sameSpec(st.e, x[0], x[1]) {
				return "different floats are accepted"
			}
			return ""
		},
		pre: func(f Fmt, t *Task, st *St, x []FV) bool { return f.sameSpec(st.e, x[0], x[1]) }}
	floatJobs["AssertIsEqualOrULP"] = &FloatJob{op: methodOp("AssertIsEqualOrULP", []string{"x", "y"}, 0), classes: pairs(allClasses),
		spec: func(f Fmt, t *Task, st *St, x []FV) string {
			e := st.e
			if f.sameSpec(e, x[0], x[1]) {
				return ""
			}
			a, b := f.again(e, x[0]), f.again(e, x[1])
			if f.nextSpec(e, a, b) {
				return ""
			}
			a, b = f.again(e, x[0]), f.again(e, x[1])
			if f.nextSpec(e, b, a) {
				return ""
			}
			return "floats that are neither equal nor adjacent are accepted"
		},
		pre: func(f Fmt, t *Task, st *St, x []FV) bool {
			e := st.e
			if f.sameSpec(e, x[0], x[1]) {
				return true
			}
			if x[0].cls != clsNorm || x[1].cls != clsNorm { // adjacency is documented on normal mantissas
				return false
			}
			a, b := f.again(e, x[0]), f.again(e, x[1])
			if f.nextSpec(e, a, b) {
				return true
			}
			a, b = f.again(e, x[0]), f.again(e, x[1])
			return f.nextSpec(e, b, a)
		}}
}

// again re-evaluates the components under what has been learnt.
func (f Fmt) again(e *Env, x FV) FV { return FV{x.cls, e.S(x.s), e.S(x.e), e.S(x.m), e.S(x.a)} }
