package main

// C18: every check issued through any context ends up in the constraint system exactly as issued.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"

	"go/types"
)

// naming prints raw constraints structurally and collects the hint calls they mention.
type naming struct {
	memo  map[*Node]string
	calls map[*Node][]*HintCall
}

func newNaming() *naming { return &naming{map[*Node]string{}, map[*Node][]*HintCall{}} }

func (m *naming) node(n *Node) string {
	if n == nil {
		return ""
	}
	if s, ok := m.memo[n]; ok {
		return s
	}
	var s string
	args := n.arg
	switch n.op {
	case nConst:
		s = n.c.String()
	case nInput:
		s = "<" + n.name + ">"
	case nHint:
		args = n.hint.in
		s = "hint"
		if n.hint.fn != nil {
			s = n.hint.fn.Name()
		}
		for _, x := range n.hint.in {
			s += "," + m.node(x)
		}
		s = fmt.Sprintf("[%s].%d", s, n.idx)
	default:
		// linear expressions are compared up to the order of their terms
		l := newLin(n)
		if len(l.n) == 1 && l.n[0] == n {
			var a []string
			for _, x := range n.arg {
				a = append(a, m.node(x))
			}
			s = fmt.Sprintf("op%d(%s)", n.op, strings.Join(a, ","))
		} else {
			s = m.lin(l)
			args = l.n
		}
	}
	seen := map[*HintCall]bool{}
	var cs []*HintCall
	if n.op == nHint {
		seen[n.hint] = true
		cs = append(cs, n.hint)
	}
	for _, a := range args {
		m.node(a)
		for _, c := range m.calls[a] {
			if !seen[c] {
				seen[c] = true
				cs = append(cs, c)
			}
		}
	}
	m.memo[n], m.calls[n] = s, cs
	return s
}

func (m *naming) lin(l *Lin) string {
	var a []string
	for i, x := range l.n {
		a = append(a, l.c[i].RatString()+"*"+m.node(x))
	}
	sort.Strings(a)
	return "(" + strings.Join(a, "+") + "+" + l.k.RatString() + ")"
}

func (m *naming) con(c *Constraint) (string, []*HintCall) {
	var hs []*HintCall
	add := func(n *Node) string {
		s := m.node(n)
		if n != nil {
			hs = append(hs, m.calls[n]...)
		}
		return s
	}
	switch c.kind {
	case cEq:
		l := newLin(c.a).sub(newLin(c.b))
		for _, n := range l.n {
			add(n)
		}
		return "eq " + m.lin(l), hs
	case cLookup:
		t := fmt.Sprintf("0..%d", c.tab.n-1)
		if !c.tab.rng {
			t = fmt.Sprint(c.tab.vals)
		}
		return "in " + t + " " + add(c.a), hs
	}
	return fmt.Sprintf("kind%d %s %s", c.kind, add(c.a), add(c.b)), hs
}

// conGroups prints the constraints of a graph, those that share a hint call joined into one group.
func conGroups(g *Graph) []string {
	m := newNaming()
	root := map[*HintCall]int{}
	parent := make([]int, len(g.cons))
	var find func(i int) int
	find = func(i int) int {
		for parent[i] != i {
			parent[i] = parent[parent[i]]
			i = parent[i]
		}
		return i
	}
	names := make([]string, len(g.cons))
	for i, c := range g.cons {
		parent[i] = i
		var hs []*HintCall
		names[i], hs = m.con(c)
		for _, h := range hs {
			if k, ok := root[h]; ok {
				parent[find(i)] = find(k)
			} else {
				root[h] = i
			}
		}
	}
	by := map[int][]string{}
	for i := range g.cons {
		by[find(i)] = append(by[find(i)], names[i])
	}
	var out []string
	for _, x := range by {
		sort.Strings(x)
		out = append(out, strings.Join(x, "\n"))
	}
	sort.Strings(out)
	return out
}

// issue is one check issued through context ctx on wire v.
type issue struct {
	ctx   int
	v     string
	bits  int64
	mode  string // "" for a power-of-two query
	early bool   // issued by a deferred callback that runs before finalisation
}

func (i issue) String() string {
	s := fmt.Sprintf("range(%s,%d,%s)", i.v, i.bits, i.mode)
	if i.mode == "" {
		s = "pow2(" + i.v + ")"
	}
	if i.early {
		s = "deferred " + s
	}
	return fmt.Sprintf("%s@%d", s, i.ctx)
}

func (i issue) do(in *Interp, g *Cell) {
	var w *Node
	for _, n := range in.g.nodes {
		if n.op == nInput && n.name == i.v {
			w = n
		}
	}
	if w == nil {
		w = in.g.Input(i.v)
	}
	if i.mode == "" {
		in.callMethod("gadget", "IntGadget", "QueryPowerOf2", g, wire(w))
		return
	}
	in.callMethod("gadget", "IntGadget", "AssertBitLength", g, wire(w), uint64(i.bits), in.w.modeVal(i.mode))
}

const pow2Size = 8

// contexts: gadget contexts for even numbers, float contexts for odd ones.
func (in *Interp) anyGadget(api Value, k int, width uint64) *Cell {
	if k%2 == 0 {
		return in.newGadget(api, width, pow2Size)
	}
	return in.gadgetOf(in.newContext(api, width, 3, 4))
}

// gadgetOf finds the integer gadget of a float context.
func (in *Interp) gadgetOf(ctx *Cell) *Cell {
	s, ok := ctx.load().(*StructV)
	if !ok {
		panic(undecided("float.Context is not a struct"))
	}
	st := s.t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if p, ok := st.Field(i).Type().(*types.Pointer); ok && strings.HasSuffix(p.Elem().String(), "gadget.IntGadget") {
			return s.f[i].(*Cell)
		}
	}
	panic(undecided("float.Context has no integer gadget"))
}

// issued extracts a sequence of checks and returns the names of the constraints, per context table width.
func (w *World) issued(r *Report, cfg Cfg, nctx int, seq []issue, after bool) (cons []string, widths map[int]bool, err error) {
	f, err := w.extract(fmt.Sprintf("%v %s", seq, cfg), cfg.front, func(in *Interp, api Value) ([]*Node, []string) {
		var gs []*Cell
		early := &Closure{native: func(in *Interp, args []Value) Value {
			for _, i := range seq {
				if i.early {
					i.do(in, gs[i.ctx])
				}
			}
			return nil
		}}
		in.g.defers = append(in.g.defers, deferred{fn: early})
		for k := 0; k < nctx; k++ {
			gs = append(gs, in.anyGadget(api, k, cfg.width))
		}
		for _, i := range seq {
			if !i.early {
				i.do(in, gs[i.ctx])
			}
		}
		if after { // a check issued when everything is finalised must be refused
			in.runDefers()
			in.g.defers = nil
			for k := range gs {
				for _, i := range []issue{{v: "late", bits: 3, mode: "Loose"}, {v: "late"}} {
					refused := false
					func() {
						defer func() {
							if x := recover(); x != nil {
								if _, ok := x.(goPanic); !ok {
									panic(x)
								}
								refused = true
							}
						}()
						fr := in.frames
						defer func() { in.frames = fr }()
						i.do(in, gs[k])
					}()
					if !refused {
						panic(undecided(fmt.Sprintf("%v issued after finalisation is accepted and never enforced", i)))
					}
				}
			}
		}
		return nil, nil
	})
	if err != nil {
		return nil, nil, err
	}
	r.touch(f.funcs)
	if len(f.g.emptyBuilds) > 0 {
		return nil, nil, fmt.Errorf("an empty set of lookups is committed at %s, which no prover can satisfy", w.Pos(f.g.emptyBuilds[0]))
	}
	widths = map[int]bool{}
	for _, c := range f.g.cons {
		if c.kind == cLookup && c.tab.rng {
			widths[c.tab.n] = true
		}
	}
	return conGroups(f.g), widths, nil
}

func (w *World) c18(r *Report) {
	type unit struct {
		cfg   Cfg
		nctx  int
		seq   []issue
		after bool
		key   string
	}
	var us []unit
	fronts := []string{"R1CS", "SCS"}
	alpha := func(width int64) (out []issue) {
		if width == 0 {
			width = 3
		}
		bits := map[int64]bool{}
		for _, b := range []int64{width, 2 * width, 2*width + 1, width - 1} {
			if b > 0 {
				bits[b] = true
			}
		}
		for b := int64(1); b <= 2*width+1; b++ {
			if bits[b] {
				for _, m := range modeNames {
					out = append(out, issue{bits: b, mode: m})
				}
			}
		}
		return append(out, issue{})
	}
	v := func(i issue, name string, ctx int) issue { i.v, i.ctx = name, ctx; return i }
	for _, fr := range fronts {
		for _, wd := range []int64{0, 1, 3, 8} {
			cfg := Cfg{uint64(wd), fr}
			al := alpha(wd)
			add := func(key string, n int, after bool, seq ...issue) {
				us = append(us, unit{cfg, n, seq, after, key})
			}
			for n := 0; n <= 3; n++ {
				add("unused contexts", n, true)
			}
			for _, a := range al {
				add("single check", 1, true, v(a, "a", 0))
				add("single check, other contexts unused", 3, true, v(a, "a", 1))
				e := v(a, "a", 0)
				e.early = true
				add("check issued by a deferred callback", 1, true, e)
				for _, b := range al {
					add("two checks", 1, false, v(a, "a", 0), v(b, "b", 0))
					add("two checks on one value", 1, false, v(a, "a", 0), v(b, "a", 0))
					add("two contexts", 2, false, v(a, "a", 0), v(b, "b", 1))
					add("two contexts on one value", 2, false, v(a, "a", 0), v(b, "a", 1))
					if wd == 3 || wd == 0 {
						for _, c := range al {
							add("three checks", 1, false, v(a, "a", 0), v(b, "b", 0), v(c, "c", 0))
						}
					}
				}
			}
			// long mixes
			for _, n := range []int{17, 70, 300, 5000} {
				var s []issue
				for i := 0; i < n; i++ {
					s = append(s, v(al[(i*i+3*i)%len(al)], fmt.Sprintf("a%d", i%max(1, n-3)), 0))
				}
				if n > 300 && (wd != 8 || fr != "R1CS") {
					continue
				}
				add("long sequence", 1, true, s...)
				if n <= 300 {
					t := append([]issue{}, s...)
					for i := range t {
						t[i].ctx = i % 3
					}
					add("long sequence over three contexts", 4, true, t...)
				}
			}
			// every length
			for b := int64(1); b <= 70; b++ {
				for k, m := range modeNames {
					add("lengths next to each other", 1, false, issue{0, "a", b, m, false}, issue{0, "b", 71 - b, modeNames[(k+int(b))%3], false}, issue{v: "c"})
				}
			}
		}
	}
	var mu sync.Mutex
	singles := map[string][]string{}
	single := func(cfg Cfg, i issue) ([]string, error) {
		i.ctx, i.early = 0, false
		x := i
		x.v = "V"
		k := cfg.String() + x.String()
		mu.Lock()
		s, ok := singles[k]
		mu.Unlock()
		if !ok {
			var err error
			s, _, err = w.issued(r, cfg, 1, []issue{x}, false)
			if err != nil {
				return nil, err
			}
			mu.Lock()
			singles[k] = s
			mu.Unlock()
		}
		return s, nil
	}
	ok := map[string]int{}
	bad := map[string]string{}
	parallel(len(us), func(k int) {
		u := us[k]
		var msg string
		cons, widths, err := w.issued(r, u.cfg, u.nctx, u.seq, u.after)
		if err != nil {
			msg = err.Error()
		} else {
			cfg := u.cfg
			var want []string
			used := map[int]bool{}
			for _, i := range u.seq {
				used[i.ctx] = true
			}
			if cfg.width == 0 && len(used) > 1 {
				// contexts choose their own widths: compare with each context alone
				for c := range used {
					var sub []issue
					for _, i := range u.seq {
						if i.ctx == c {
							i.ctx = 0
							sub = append(sub, i)
						}
					}
					s, _, err := w.issued(r, cfg, 1, sub, false)
					if err != nil {
						msg = err.Error()
					}
					want = append(want, s...)
				}
			} else {
				if cfg.width == 0 {
					if len(widths) > 1 {
						msg = "one context uses range tables of several widths"
					}
					for n := range widths {
						cfg.width = uint64(lgInt(big.NewInt(int64(n))))
					}
				}
				for _, i := range u.seq {
					s, err := single(cfg, i)
					if err != nil {
						msg = err.Error()
						break
					}
					for _, x := range s {
						want = append(want, strings.ReplaceAll(x, "<V>", "<"+i.v+">"))
					}
				}
			}
			if msg == "" {
				msg = diffCons(cons, want)
			}
		}
		mu.Lock()
		defer mu.Unlock()
		if msg == "" {
			ok[u.key]++
		} else if bad[u.key] == "" {
			s := fmt.Sprint(u.seq)
			if len(s) > 200 {
				s = s[:200] + "…"
			}
			bad[u.key] = fmt.Sprintf("%s, %d contexts, %s: %s", u.cfg, u.nctx, s, msg)
		}
	})
	var ks []string
	seen := map[string]bool{}
	for _, u := range us {
		if !seen[u.key] {
			seen[u.key] = true
			ks = append(ks, u.key)
		}
		r.count("sequences of checks compared with the checks issued alone", 1)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if bad[k] != "" {
			r.alarm(k, "%s", bad[k])
		} else {
			r.pass("%s: %d sequences", k, ok[k])
		}
	}
}

func diffCons(got, want []string) string {
	c := map[string]int{}
	for _, x := range want {
		c[x]++
	}
	for _, x := range got {
		c[x]--
	}
	var ks []string
	for k, n := range c {
		if n != 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		d := k
		if len(d) > 300 {
			d = d[:300] + "…"
		}
		if c[k] > 0 {
			return "a constraint of a check issued is missing: " + d
		}
		return "a constraint appears that no issued check asks for: " + d
	}
	return ""
}

func init() {
	props["C18"] = &propDef{"other", func(w *World, r *Report) {
		r.explain = "The constraint system built for a sequence of range checks and power-of-two queries is extracted by partial evaluation and compared, as a multiset of structurally named constraints grouped by the prover advice they share, with the constraints each check has when issued alone (whose meaning C15 and C16 decide): all pairs and triples over a set of shapes, the same value checked twice, one to four gadget and float contexts, unused contexts, checks issued by deferred callbacks, sequences of up to 5000 checks, every length up to 70. Checks issued after finalisation must panic; no empty lookup argument may be built."
		w.c18(r)
		r.atLeast("sequences of checks compared with the checks issued alone", 8000)
	}}
}
