package main

// C15-C17: the integer gadgets and range checks on their own, for every limb width, both front ends and every length.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"runtime"
	"sort"
	"strings"
	"sync"
)

// newGadget calls gadget.New.
func (in *Interp) newGadget(api Value, width, pow2 uint64) *Cell {
	fn := in.w.fn("gadget", "New")
	if fn == nil {
		panic(undecided("gadget.New not found"))
	}
	v := in.call(fn, []Value{api, width, pow2})
	if c, ok := v.(*Cell); ok {
		return c
	}
	c := newCell(fn.Signature.Results().At(0).Type())
	c.store(v)
	return c
}

var modeNames = []string{"Loose", "TightForSmallAbs", "TightForUnknownRange"}

func (w *World) modeVal(name string) Value {
	p := w.pkg("gadget")
	if p == nil {
		panic(undecided("package gadget not found"))
	}
	c, ok := p.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		panic(undecided("gadget." + name + " not found"))
	}
	n, _ := constant.Int64Val(c.Val())
	return n
}

// inputsOf computes the input wires a node depends on (through hint calls as well).
type inputDeps struct{ m map[*Node]map[*Node]bool }

func (d *inputDeps) of(n *Node) map[*Node]bool {
	if r, ok := d.m[n]; ok {
		return r
	}
	r := map[*Node]bool{}
	d.m[n] = r
	if n.op == nInput {
		r[n] = true
	}
	args := n.arg
	if n.op == nHint {
		args = n.hint.in
	}
	if len(args) == 1 {
		d.m[n] = d.of(args[0])
		return d.m[n]
	}
	var big map[*Node]bool
	diff := false
	for _, a := range args {
		x := d.of(a)
		if len(x) == 0 {
			continue
		}
		if big == nil {
			big = x
		} else if len(x) != len(big) {
			diff = true
		} else {
			for k := range x {
				if !big[k] {
					diff = true
				}
			}
		}
	}
	if n.op != nInput && !diff && big != nil {
		d.m[n] = big
		return big
	}
	for _, a := range args {
		for k := range d.of(a) {
			r[k] = true
		}
	}
	return r
}

// only restricts a fragment to the constraints on one input.
func (f *Frag) partition() (map[*Node]*Frag, []*FCon) {
	d := &inputDeps{map[*Node]map[*Node]bool{}}
	out := map[*Node]*Frag{}
	for _, n := range f.in {
		g := *f
		g.cons = nil
		g.in = map[string]*Node{n.name: n}
		g.out = nil
		out[n] = &g
	}
	var bad []*FCon
	for _, c := range f.cons {
		s := map[*Node]bool{}
		add := func(n *Node) {
			if n != nil {
				for k := range d.of(n) {
					s[k] = true
				}
			}
		}
		add(c.a)
		add(c.b)
		if c.lin != nil {
			for _, n := range c.lin.n {
				add(n)
			}
		}
		if len(s) != 1 {
			bad = append(bad, c)
			continue
		}
		for n := range s {
			out[n].cons = append(out[n].cons, c)
		}
	}
	for _, g := range out {
		g.key = g.skeleton()
	}
	return out, bad
}

// parallel runs the bodies on all processors; panics of the analysis become alarms.
func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// guarded runs f and reports analysis failures.
func guarded(r *Report, key string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			switch e := x.(type) {
			case undecidedErr:
				r.alarm(key, "not decided: %s", e.msg)
			case goPanic:
				r.alarm(key, "the code panics: %s", panicMsg(e))
			case blocked:
				r.alarm(key, "not decided: depends on an undetermined condition")
			case notReady:
				r.alarm(key, "not decided: %s", e.why)
			case infeasible:
				r.alarm(key, "not decided: contradictory facts")
			default:
				panic(x)
			}
		}
	}()
	f()
}

// reportTasks folds finished tasks into the report, one obligation per key.
func reportTasks(r *Report, ts []*Task, complete bool) {
	type agg struct {
		n, sat, infeas int
		bad            string
	}
	by := map[string]*agg{}
	for _, t := range ts {
		a := by[t.name]
		if a == nil {
			a = &agg{}
			by[t.name] = a
		}
		a.n += max(1, len(t.f.widths))
		a.sat += t.sat
		a.infeas += t.infeas
		r.count("cases proved", t.sat)
		r.count("cases shown contradictory", t.infeas)
		if complete {
			r.count("constraint obligations proved", t.checked)
		}
		if len(t.alarms) > 0 && a.bad == "" {
			a.bad = fmt.Sprintf("[%s] %s", strings.Join(t.f.widths[:min(3, len(t.f.widths))], ", "), t.alarms[0].String())
		} else if t.stopped && a.bad == "" {
			a.bad = "not decided: analysis stopped"
		}
	}
	var ks []string
	for k := range by {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		a := by[k]
		switch {
		case a.bad != "":
			r.alarm(k, "%s", a.bad)
		case a.sat == 0:
			r.alarm(k, "no satisfying case remains: the constraints are contradictory")
		default:
			r.pass("%s: %d configurations, %d cases proved, %d contradictory", k, a.n, a.sat, a.infeas)
		}
	}
}

// ---------- C15 ----------

const maxBits = 253

type rcCase struct {
	bits int64
	mode string
}

func (c rcCase) String() string { return fmt.Sprintf("%s %d bits", c.mode, c.bits) }

// rangeFrags extracts AssertBitLength for every mode and bit length under one configuration and separates them.
func (w *World) rangeFrags(r *Report, cfg Cfg, cases []rcCase) map[rcCase]*Frag {
	out := map[rcCase]*Frag{}
	ex := func(cs []rcCase) {
		f, err := w.extract(fmt.Sprintf("range checks %s", cfg), cfg.front, func(in *Interp, api Value) ([]*Node, []string) {
			g := in.newGadget(api, cfg.width, 4)
			for _, c := range cs {
				v := wire(in.g.Input(fmt.Sprintf("v%d%s", c.bits, c.mode)))
				in.callMethod("gadget", "IntGadget", "AssertBitLength", g, v, uint64(c.bits), w.modeVal(c.mode))
			}
			return nil, nil
		})
		if err != nil {
			r.alarm("extract "+cfg.String(), "%v", err)
			return
		}
		r.touch(f.funcs)
		ps, bad := f.partition()
		for _, c := range bad {
			r.alarm("separate "+cfg.String(), "a constraint at %s does not belong to exactly one range check", w.Pos(c.pos))
		}
		for _, c := range cs {
			g := ps[f.in[fmt.Sprintf("v%d%s", c.bits, c.mode)]]
			g.widths = []string{cfg.String()}
			out[c] = g
		}
	}
	if cfg.width != 0 {
		ex(cases)
	} else {
		for _, c := range cases {
			ex([]rcCase{c})
		}
	}
	return out
}

// tableWidth is the limb width the fragment's range table was built for.
func (f *Frag) tableWidth() int64 {
	w := int64(-1)
	for _, c := range f.g.cons {
		if c.kind == cLookup && c.tab.rng {
			w = lgInt(big.NewInt(int64(c.tab.n)))
			if bigPow2(w).Cmp(big.NewInt(int64(c.tab.n))) != 0 {
				return -1
			}
		}
	}
	return w
}

func lgInt(x *big.Int) int64 { return int64(x.BitLen() - 1) }

func (w *World) c15(r *Report) {
	var cases []rcCase
	for b := int64(1); b <= maxBits; b++ {
		for _, m := range modeNames {
			cases = append(cases, rcCase{b, m})
		}
	}
	var mu sync.Mutex
	var ts, tc []*Task
	groups := map[string]*limbGroup{}
	cfgs := allCfgs()
	// width 0 (automatic) is extracted per case: spread over the processors
	type unit struct {
		cfg Cfg
		cs  []rcCase
	}
	var us []unit
	for _, c := range cfgs {
		if c.width != 0 {
			us = append(us, unit{c, cases})
			continue
		}
		for i := 0; i < len(cases); i += 24 {
			us = append(us, unit{c, cases[i:min(i+24, len(cases))]})
		}
	}
	parallel(len(us), func(i int) {
		u := us[i]
		var fs map[rcCase]*Frag
		guarded(r, "extract "+u.cfg.String(), func() { fs = w.rangeFrags(r, u.cfg, u.cs) })
		for c, f := range fs {
			tw := f.tableWidth()
			if tw < 1 {
				r.alarm("table "+u.cfg.String(), "the range table is not 0..2^w-1")
				continue
			}
			r.count("range checks extracted (mode x bit length x limb width x front end)", 1)
			nl := (c.bits + tw - 1) / tw
			up := new(big.Int).Sub(bigPow2(c.bits), big.NewInt(1)) // largest value that must be accepted
			acc := up                                              // largest value that may be accepted
			if c.mode == "Loose" {
				acc = new(big.Int).Sub(bigPow2(nl*tw), big.NewInt(1))
			}
			if (c.mode == "Loose" || c.mode == "TightForSmallAbs") && nl*tw > maxBits-3 {
				r.count("range checks whose limbs exceed the field (outside the modes' preconditions)", 1)
				continue
			}
			diff := nl*tw - c.bits
			in := "v" + fmt.Sprint(c.bits) + c.mode
			small := c.mode == "TightForSmallAbs"
			t := &Task{w: w, f: f, name: "sound: " + c.mode + " " + u.cfg.front, enum: true,
				setup: func(t *Task, st *St) {
					if small { // |v| * 2^diff stays clear of the field order
						h := bigPow2(maxBits - 1 - diff)
						t.input[f.in[in]] = st.e.setVar("v", new(big.Int).Neg(h), h)
						return
					}
					a := t.u.Var("v")
					st.e.undet[a] = true
					t.input[f.in[in]] = t.u.Atom(a)
				},
				leaf: func(t *Task, st *St) string {
					e, u := st.e, t.u
					v := e.S(t.input[f.in[in]])
					if len(t.raw(st, v)) > 0 {
						return c.String() + ": the value is not bounded by the constraints"
					}
					if !e.GE(v) {
						return c.String() + ": a negative value is accepted"
					}
					if !e.GE(u.Sub(u.Const(acc), v)) {
						return fmt.Sprintf("%s: a value above %v is accepted", c, acc)
					}
					return ""
				}}
			tt := &Task{w: w, f: f, name: "complete: " + c.mode + " " + u.cfg.front, enum: true, complete: true,
				setup: func(t *Task, st *St) { t.input[f.in[in]] = st.e.setVar("v", new(big.Int), up) }}
			mu.Lock()
			ts = append(ts, t)
			tc = append(tc, tt)
			for _, fc := range f.cons {
				for _, g := range fc.grps {
					groups[g.key()] = g
				}
			}
			mu.Unlock()
		}
	})
	runTasks(append(append([]*Task{}, ts...), tc...))
	reportTasks(r, ts, false)
	reportTasks(r, tc, true)
	w.checkGroups(r, groups)
	w.c15Consts(r)
	r.atLeast("range checks extracted (mode x bit length x limb width x front end)", len(cfgs)*len(cases))
	r.atLeast("cases proved", len(cfgs)*len(cases))
	r.atLeast("limb decompositions proved to satisfy their constraints", 3000)
}

// c15Consts decides range checks whose operand is a compile-time constant: the constraints must hold for honest
// advice when the constant fits and be contradictory when it does not.
func (w *World) c15Consts(r *Report) {
	type job struct {
		cfg  Cfg
		c    rcCase
		v    *big.Int
		want bool
	}
	var js []job
	one := big.NewInt(1)
	for _, cfg := range allCfgs() {
		for _, b := range []int64{1, 2, 5, 8, 9, 16, 17, 24, 53, 64, 100} {
			for _, m := range modeNames {
				c := rcCase{b, m}
				up := bigPow2(b)
				if m == "Loose" {
					wd := int64(cfg.width)
					up = bigPow2((b + wd - 1) / max(wd, 1) * wd)
					if wd == 0 {
						up = bigPow2(b + 17)
					}
				}
				fit := new(big.Int).Sub(bigPow2(b), one)
				js = append(js, job{cfg, c, new(big.Int), true}, job{cfg, c, fit, true}, job{cfg, c, up, false})
				js = append(js, job{cfg, c, new(big.Int).Sub(fieldP, one), false})
			}
		}
	}
	bad := make([]string, len(js))
	parallel(len(js), func(i int) {
		j := js[i]
		guarded(r, fmt.Sprintf("constant operand %s %s", j.c, j.cfg), func() {
			f, err := w.extract("constant range check", j.cfg.front, func(in *Interp, api Value) ([]*Node, []string) {
				g := in.newGadget(api, j.cfg.width, 4)
				in.callMethod("gadget", "IntGadget", "AssertBitLength", g, wire(in.g.Const(new(big.Int).Set(j.v))), uint64(j.c.bits), w.modeVal(j.c.mode))
				return nil, nil
			})
			if err != nil {
				bad[i] = err.Error()
				return
			}
			r.touch(f.funcs)
			t := &Task{w: w, f: f, name: "constant", enum: true, complete: j.want, setup: func(t *Task, st *St) {}, leaf: func(t *Task, st *St) string { return "" }}
			t.run()
			switch {
			case len(t.alarms) > 0:
				bad[i] = t.alarms[0].String()
			case t.stopped:
				bad[i] = "not decided"
			case j.want && t.sat == 0:
				bad[i] = "a constant that fits is rejected"
			case !j.want && t.sat > 0:
				bad[i] = "a constant that does not fit is accepted"
			}
		})
	})
	by := map[string]string{}
	n := map[string]int{}
	for i, j := range js {
		k := "constant operand: " + j.c.mode + " " + j.cfg.front
		n[k]++
		if bad[i] != "" && by[k] == "" {
			by[k] = fmt.Sprintf("[%s, %s] value %v: %s", j.cfg, j.c, j.v, bad[i])
		}
	}
	var ks []string
	for k := range n {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if by[k] != "" {
			r.alarm(k, "%s", by[k])
		} else {
			r.pass("%s: %d constants decided", k, n[k])
		}
	}
	r.count("constant operands decided", len(js))
}

// ---------- limb decomposition ----------

func (g *limbGroup) key() string {
	var b strings.Builder
	b.WriteString(g.hint.fn.String())
	for _, n := range g.hint.in {
		if n.op == nConst {
			b.WriteString("," + n.c.String())
		} else {
			b.WriteString(",?")
		}
	}
	for _, w := range g.wt {
		b.WriteString(" " + w.RatString())
	}
	fmt.Fprintf(&b, " k%d B%v", g.k, g.Bc)
	for _, c := range g.looks {
		l := newLin(c.a)
		fmt.Fprintf(&b, " %d*%s<%d", l.n[0].idx, l.c[0].RatString(), c.tab.n)
	}
	return b.String()
}

// checkGroups proves that the hint behind every recognised limb decomposition satisfies its constraints for every
// value 0..Bc.
func (w *World) checkGroups(r *Report, groups map[string]*limbGroup) {
	var ks []string
	for k := range groups {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	parallel(len(ks), func(i int) {
		g := groups[ks[i]]
		key := "limb decomposition by " + g.hint.fn.Name()
		guarded(r, key, func() {
			if s := w.groupComplete(g); s != "" {
				r.alarm(key, "%s (%s)", s, ks[i])
				return
			}
			r.count("limb decompositions proved to satisfy their constraints", 1)
		})
	})
}

func (w *World) groupComplete(g *limbGroup) string {
	u := newU()
	e := newEnv(u)
	e.near = true
	t := &Task{w: w, u: u}
	V := e.setVar("V", new(big.Int), g.Bc)
	var ins []*Poly
	for _, n := range g.hint.in {
		if n.op == nConst {
			c := new(big.Int).Mod(n.c, fieldP)
			ins = append(ins, u.Const(c))
			continue
		}
		// a multiple of the checked form
		l := newLin(n)
		if len(l.n) == 0 {
			return "hint input is not related to the checked value"
		}
		var q *big.Rat
		for i, x := range g.lin.n {
			for j, y := range l.n {
				if x == y {
					q = new(big.Rat).Quo(l.c[j], g.lin.c[i])
				}
			}
		}
		if q == nil || !q.IsInt() || q.Sign() <= 0 {
			return "hint input is not a multiple of the checked value"
		}
		m := &Lin{k: new(big.Rat).Mul(g.lin.k, q)}
		for i := range g.lin.n {
			m.n = append(m.n, g.lin.n[i])
			m.c = append(m.c, new(big.Rat).Mul(g.lin.c[i], q))
		}
		if l.key() != m.key() {
			return "hint input is not a multiple of the checked value"
		}
		ins = append(ins, u.Scale(V, q))
	}
	outs := t.execHint(e, g.hint.fn, ins, len(g.hint.out))
	sum := u.zero
	for i, o := range outs {
		sum = u.lin(sum, g.wt[i], o)
	}
	d := e.S(u.Sub(sum, u.Scale(V, pow2Rat(g.k))))
	if !d.IsZero() && !e.Zero(d) {
		return "the limbs do not add up to the value, difference " + u.Str(d)
	}
	for _, c := range g.looks {
		l := newLin(c.a)
		v := e.S(u.Scale(outs[l.n[0].idx], l.c[0]))
		if !e.GE(v) || !e.GE(u.Sub(u.Int(int64(c.tab.n-1)), v)) || !e.intValued(v) {
			return fmt.Sprintf("limb %d may be outside its table", l.n[0].idx)
		}
	}
	return ""
}

func init() {
	props["C15"] = &propDef{"proof", func(w *World, r *Report) {
		r.explain = "Every AssertBitLength(v, n, mode) is extracted for n = 1..253, the three modes, limb widths 1..17 and the automatic choice, and both front ends; the recorded constraints must bound an arbitrary field element (tight-for-small-abs: an integer whose scaled value stays clear of the field order) exactly, and the partially evaluated decomposition hint must satisfy them for every value below 2^n."
		w.c15(r)
	}}
}
