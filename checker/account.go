package main

// C20: reported lookup cost equals the lookups in the constraint system.

import (
	"fmt"
	"sort"
	"strings"
	"sync"
)

// acctCall is one call that issues checks.
type acctCall struct {
	name string
	do   func(in *Interp, ctx, g *Cell)
}

func (w *World) accounting(r *Report, label string, cfg Cfg, E, M uint64, pow2 uint64, calls []acctCall) (msg string) {
	f, err := w.extract(label, cfg.front, func(in *Interp, api Value) ([]*Node, []string) {
		var ctx, g *Cell
		if E > 0 {
			ctx = in.newContext(api, cfg.width, E, M)
			g = in.gadgetOf(ctx)
		} else {
			g = in.newGadget(api, cfg.width, pow2)
		}
		report := func(name string) int { return toInt(in.callMethod("gadget", "IntGadget", name, g)) }
		start := report("LookupQueryConstraints")
		if start != 0 {
			msg = fmt.Sprintf("%d lookup queries are reported before any call", start)
			return nil, nil
		}
		e0, f0 := report("LookupEntryConstraints"), report("LookupFinalizeConstraints")
		for _, c := range calls {
			c.do(in, ctx, g)
		}
		q := report("LookupQueryConstraints")
		eqs := 0
		for _, c := range in.g.cons {
			if c.kind == cEq {
				eqs++
			}
		}
		in.runDefers()
		in.g.defers = nil
		made := -eqs
		for _, c := range in.g.cons {
			if c.kind == cEq {
				made++
			}
		}
		gr := in.g
		for _, x := range []struct {
			what      string
			got, want int
		}{
			{"lookup queries (with the equations that tie limbs to values)", q, gr.lookups + made},
			{"lookup queries reported after finalisation", report("LookupQueryConstraints"), q},
			{"table entries", e0, gr.entries},
			{"table entries reported after finalisation", report("LookupEntryConstraints"), gr.entries},
			{"finalisation constraints", f0, gr.builds + 1},
			{"finalisation constraints reported after finalisation", report("LookupFinalizeConstraints"), gr.builds + 1},
		} {
			if x.got != x.want && msg == "" {
				msg = fmt.Sprintf("%s: %d reported, %d in the constraint system", x.what, x.got, x.want)
			}
		}
		return nil, nil
	})
	if err != nil {
		return err.Error()
	}
	r.touch(f.funcs)
	return msg
}

func (w *World) c20(r *Report) {
	wireIn := func(in *Interp, name string) Value {
		for _, n := range in.g.nodes {
			if n.op == nInput && n.name == name {
				return wire(n)
			}
		}
		return wire(in.g.Input(name))
	}
	chk := func(v string, b int64, m string) acctCall {
		return acctCall{fmt.Sprintf("AssertBitLength(%s,%d,%s)", v, b, m), func(in *Interp, _, g *Cell) {
			in.callMethod("gadget", "IntGadget", "AssertBitLength", g, wireIn(in, v), uint64(b), in.w.modeVal(m))
		}}
	}
	cst := func(b int64, m string) acctCall {
		return acctCall{fmt.Sprintf("AssertBitLength(constant,%d,%s)", b, m), func(in *Interp, _, g *Cell) {
			in.callMethod("gadget", "IntGadget", "AssertBitLength", g, Iface{wireT, in.g.Const(bigPow2(b - 1))}, uint64(b), in.w.modeVal(m))
		}}
	}
	pow := func(v string) acctCall {
		return acctCall{"QueryPowerOf2(" + v + ")", func(in *Interp, _, g *Cell) { in.callMethod("gadget", "IntGadget", "QueryPowerOf2", g, wireIn(in, v)) }}
	}
	gad := func(m, a, b string, l int64) acctCall {
		return acctCall{fmt.Sprintf("%s(%s,%s,%d)", m, a, b, l), func(in *Interp, _, g *Cell) {
			fn := in.w.method("gadget", "IntGadget", m)
			if fn == nil {
				panic(undecided("gadget method " + m + " not found"))
			}
			args := []Value{wireIn(in, a)}
			if b != "" {
				args = append(args, wireIn(in, b))
			}
			if fn.Signature.Params().Len() > len(args) {
				args = append(args, uint64(l))
			}
			in.callMethod("gadget", "IntGadget", m, g, args...)
		}}
	}
	fop := func(op Op) acctCall {
		return acctCall{op.name, func(in *Interp, ctx, _ *Cell) {
			var args []Value
			for _, a := range op.args {
				if a[0] == 'x' || a[0] == 'y' {
					args = append(args, in.inputFloat(a))
				} else {
					args = append(args, wireIn(in, a))
				}
			}
			op.body(in, ctx, args)
		}}
	}
	type unit struct {
		cfg   Cfg
		E, M  uint64
		pow2  uint64
		calls []acctCall
		key   string
	}
	var us []unit
	for _, fr := range []string{"R1CS", "SCS"} {
		for wd := uint64(1); wd <= 17; wd++ {
			if fr == "SCS" && wd > 9 { // the table is large; the front end matters only to the automatic width
				continue
			}
			cfg := Cfg{wd, fr}
			add := func(key string, pow2 uint64, c ...acctCall) { us = append(us, unit{cfg, 0, 0, pow2, c, key}) }
			for _, m := range modeNames {
				for b := int64(1); b <= 80; b++ {
					if wd > 12 && b > 40 {
						continue
					}
					add("one range check and one power query", 8, chk("a", b, m), pow("e"))
				}
				for _, m2 := range modeNames {
					for _, b := range []int64{1, int64(wd), int64(wd) + 1, 2 * int64(wd), 3*int64(wd) - 1} {
						if b == 0 || wd > 10 && b > 2*int64(wd) {
							continue
						}
						for _, b2 := range []int64{1, int64(wd), int64(wd) + 1} {
							add("two range checks", 8, chk("a", b, m), chk("b", b2, m2), pow("e"))
							add("one value checked twice", 8, chk("a", b, m), chk("a", b2, m2), pow("e"))
						}
					}
				}
				add("checked constants", 8, cst(5, m), cst(int64(wd), m), pow("e"), pow("e"))
			}
			for n := uint64(1); n <= 64; n++ {
				if wd > 8 && n%8 != 0 {
					continue
				}
				add("power queries", n, pow("e"))
				add("power queries", n, pow("e"), pow("e"), pow("f"), chk("a", 3, "Loose"))
			}
			for l := int64(1); l <= 64; l++ {
				if wd > 8 && l%8 != 0 {
					continue
				}
				add("integer gadgets", 8, gad("Abs", "a", "", l), pow("e"))
				add("integer gadgets", 8, gad("IsPositive", "a", "", l), gad("Max", "a", "b", l), gad("Min", "a", "b", l), gad("IsEq", "a", "b", l), pow("e"))
			}
			var mix []acctCall
			for i := int64(0); i < 60; i++ {
				mix = append(mix, chk(fmt.Sprint("a", i%40), 1+(i*7)%29, modeNames[i%3]))
				if i%5 == 0 {
					mix = append(mix, pow(fmt.Sprint("e", i)), gad("Max", "a1", fmt.Sprint("a", i), i+1))
				}
			}
			add("long mix", 8, mix...)
			for _, f := range []Fmt{{8, 23}, {11, 52}} {
				var ops []acctCall
				for _, n := range cat([]string{"NewFloat"}, arithJobs, roundJobs, cmpJobs, simpleJobs, []string{"ToInt", "AssertIsEqual", "AssertIsEqualOrULP"}) {
					c := fop(floatJobs[n].op)
					ops = append(ops, c)
					us = append(us, unit{cfg, uint64(f.E), uint64(f.M), 0, []acctCall{c, pow("e"), chk("v0", 2, "Loose")}, "float operations"})
				}
				us = append(us, unit{cfg, uint64(f.E), uint64(f.M), 0, append(ops, append(ops, pow("e"))...), "float operations"})
			}
		}
	}
	var mu sync.Mutex
	bad, ok := map[string]string{}, map[string]int{}
	parallel(len(us), func(i int) {
		u := us[i]
		var ns []string
		for _, c := range u.calls {
			ns = append(ns, c.name)
		}
		l := strings.Join(ns, "; ")
		if len(l) > 300 {
			l = l[:300] + "…"
		}
		l = u.cfg.String() + ": " + l
		m := w.accounting(r, l, u.cfg, u.E, u.M, u.pow2, u.calls)
		mu.Lock()
		defer mu.Unlock()
		if m == "" {
			ok[u.key]++
		} else if bad[u.key] == "" {
			bad[u.key] = l + ": " + m
		}
	})
	seen := map[string]bool{}
	var ks []string
	for _, u := range us {
		if !seen[u.key] {
			seen[u.key] = true
			ks = append(ks, u.key)
		}
	}
	r.count("call sequences whose reported cost was compared with the extracted constraint system", len(us))
	sort.Strings(ks)
	for _, k := range ks {
		if bad[k] != "" {
			r.alarm(k, "%s", bad[k])
		} else {
			r.pass("%s: %d sequences", k, ok[k])
		}
	}
}

func init() {
	props["C20"] = &propDef{"other", func(w *World, r *Report) {
		r.explain = "The constraint-building code is partially evaluated for call sequences on one integer gadget or float context (all modes, lengths 1 to 80, limb widths 1 to 17, every power table size up to 64, all integer gadgets, all float operations, mixes), the finalisation callbacks included; the values the three reporting methods return on the same abstract state, before and after finalisation, are compared with the table rows, looked-up rows, limb equations and lookup arguments in the extracted constraint system."
		w.c20(r)
		r.atLeast("call sequences whose reported cost was compared with the extracted constraint system", 9000)
	}}
}
