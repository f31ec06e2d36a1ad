package main

// C41: the host-side geometry helpers evaluate the documented formulas and cells are exported exactly.

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { props["C41"] = &propDef{"other", checkGeometry} }

// formula evaluates terms in exact arithmetic over uninterpreted elementary functions. Constants are compared up to
// the rounding of a double.
type formula struct {
	u   *U
	arg map[string]RF // argument of an atom made of a function
	why string
}

func (h *formula) fail(f string, a ...any) (RF, bool) {
	if h.why == "" {
		h.why = fmt.Sprintf(f, a...)
	}
	return RF{}, false
}

// norm reduces squares of roots and sines.
func (h *formula) norm(p *Poly) *Poly {
	u := h.u
	for again := true; again; {
		again = false
		out := u.zero
		for _, t := range p.t {
			q := u.constRat(t.c)
			for _, f := range t.m.f {
				n := f.pow
				name := f.a.name
				for n >= 2 {
					a, ok := h.arg[name]
					one := a.d != nil && a.d.Eq(u.one)
					if ok && strings.HasPrefix(name, "sqrt") && one {
						q = u.Mul(q, a.n)
					} else if ok && strings.HasPrefix(name, "cos") {
						s := u.V("sin" + strings.TrimPrefix(name, "cos"))
						h.arg["sin"+strings.TrimPrefix(name, "cos")] = a
						q = u.Mul(q, u.Sub(u.one, u.Mul(s, s)))
					} else {
						break
					}
					n -= 2
					again = true
				}
				for ; n > 0; n-- {
					q = u.Mul(q, u.Atom(f.a))
				}
			}
			out = u.Add(out, q)
		}
		p = out
	}
	return p
}

// text is a canonical form with constants rounded to twelve digits.
func (h *formula) text(p *Poly) string {
	var ts []string
	for _, t := range h.norm(p).t {
		c, _ := t.c.Float64()
		if math.Abs(c) < 1e-15 {
			continue
		}
		var fs []string
		for _, f := range t.m.f {
			fs = append(fs, fmt.Sprintf("%s^%d", f.a.name, f.pow))
		}
		sort.Strings(fs)
		ts = append(ts, fmt.Sprintf("%s*%.11e", strings.Join(fs, "*"), c))
	}
	sort.Strings(ts)
	return strings.Join(ts, " + ")
}

func (h *formula) rfText(a RF) string {
	if c, ok := a.d.IsConst(); ok && c.Sign() != 0 {
		return h.text(h.u.Scale(a.n, new(big.Rat).Inv(c)))
	}
	return h.text(a.n) + " / " + h.text(a.d)
}

func (h *formula) same(a, b RF) bool {
	return h.text(h.u.Mul(a.n, b.d)) == h.text(h.u.Mul(b.n, a.d))
}

func (h *formula) apply(name string, a ...RF) RF {
	u := h.u
	neg := false
	if len(a) == 1 && (name == "sin" || name == "cos" || name == "tan") {
		// odd and even functions of an argument whose first term is positive
		if c, ok := a[0].d.IsConst(); ok {
			a[0] = RF{u.Scale(a[0].n, new(big.Rat).Inv(c)), u.one}
		}
		best := ""
		for _, t := range a[0].n.t {
			if s := h.text(&Poly{t: []Term{{t.m, ratOne}}}); best == "" || s < best {
				best, neg = s, t.c.Sign() < 0
			}
		}
		if neg {
			a[0] = RF{u.Neg(a[0].n), a[0].d}
		}
	}
	if name == "tan" {
		s, c := h.apply("sin", a[0]), h.apply("cos", a[0])
		r := RF{u.Mul(s.n, c.d), u.Mul(s.d, c.n)}
		if neg {
			r.n = u.Neg(r.n)
		}
		return r
	}
	var as []string
	for _, x := range a {
		as = append(as, h.rfText(x))
	}
	k := name + "(" + strings.Join(as, "; ") + ")"
	if len(a) == 1 {
		x := a[0]
		if c, ok := x.d.IsConst(); ok {
			x = RF{u.Scale(x.n, new(big.Rat).Inv(c)), u.one}
		}
		h.arg[k] = x
	}
	r := RF{u.V(k), u.one}
	if neg && name == "sin" {
		r.n = u.Neg(r.n)
	}
	return r
}

func (h *formula) bin(op string, a, b RF) RF {
	u := h.u
	switch op {
	case "+":
		return RF{u.Add(u.Mul(a.n, b.d), u.Mul(b.n, a.d)), u.Mul(a.d, b.d)}
	case "-":
		return RF{u.Sub(u.Mul(a.n, b.d), u.Mul(b.n, a.d)), u.Mul(a.d, b.d)}
	case "*":
		return RF{u.Mul(a.n, b.n), u.Mul(a.d, b.d)}
	}
	return RF{u.Mul(a.n, b.d), u.Mul(a.d, b.n)}
}

func (h *formula) num(x float64) RF {
	r := new(big.Rat).SetFloat64(x)
	if r == nil {
		h.fail("a constant that is not finite")
		return RF{h.u.zero, h.u.one}
	}
	return RF{h.u.constRat(r), h.u.one}
}

func (h *formula) sqrt(a RF) RF { return h.apply("sqrt", a) }

func (h *formula) eval(v Value) (RF, bool) {
	u := h.u
	switch x := v.(type) {
	case Iface:
		return h.eval(x.v)
	case float64:
		return h.num(x), true
	case int64:
		return RF{u.Int(x), u.one}, true
	case uint64:
		return RF{u.Int(int64(x)), u.one}, true
	case Opaque:
		if x.t == nil {
			return h.fail("an unknown value")
		}
		op, args := x.t.op, x.t.args
		if op == "argument" {
			return RF{u.V("arg" + keyOf(args[0])), u.one}, true
		}
		if strings.HasPrefix(op, "convert ") {
			if strings.HasSuffix(op, " to float64") && strings.Contains(op, "int") {
				// integer arithmetic before the conversion wraps and truncates
				if o, ok := args[0].(Opaque); !ok || o.t == nil || o.t.op != "argument" {
					return h.fail("converts %s: arithmetic on integers truncates", keyOf(args[0]))
				}
				return h.eval(args[0])
			}
			return h.fail("depends on a conversion: %s", strings.TrimPrefix(op, "convert "))
		}
		var a []RF
		for _, y := range args {
			if strings.HasPrefix(op, "result ") {
				break
			}
			r, ok := h.eval(y)
			if !ok {
				return r, false
			}
			a = append(a, r)
		}
		one := RF{u.one, u.one}
		switch op {
		case "+", "-", "*", "/":
			if len(a) == 1 {
				return RF{u.Neg(a[0].n), a[0].d}, true
			}
			return h.bin(op, a[0], a[1]), true
		case "math.Sin", "math.Cos", "math.Tan", "math.Sqrt":
			return h.apply(strings.ToLower(strings.TrimPrefix(op, "math.")), a[0]), true
		case "math.Atan2":
			return h.apply("atan2", a[0], a[1]), true
		case "math.Asin":
			return h.apply("atan2", a[0], h.sqrt(h.bin("-", one, h.bin("*", a[0], a[0])))), true
		case "math.Acos":
			return h.apply("atan2", h.sqrt(h.bin("-", one, h.bin("*", a[0], a[0]))), a[0]), true
		case "math.Hypot":
			return h.sqrt(h.bin("+", h.bin("*", a[0], a[0]), h.bin("*", a[1], a[1]))), true
		case "math.FMA":
			return h.bin("+", h.bin("*", a[0], a[1]), a[2]), true
		case "math.Pow":
			c, ok := a[1].n.IsConst()
			if !ok || !a[1].d.Eq(u.one) {
				return h.fail("a power with an unknown exponent")
			}
			if c.Cmp(big.NewRat(1, 2)) == 0 {
				return h.sqrt(a[0]), true
			}
			if !c.IsInt() || c.Sign() < 0 || c.Num().Cmp(big.NewInt(16)) > 0 {
				return h.fail("a power with exponent %s", c.RatString())
			}
			r := one
			for i := int64(0); i < c.Num().Int64(); i++ {
				r = h.bin("*", r, a[0])
			}
			return r, true
		case "result 0", "result 1":
			if o, ok := args[0].(Opaque); ok && o.t != nil && o.t.op == "math.Sincos" {
				r, ok := h.eval(o.t.args[0])
				if !ok {
					return r, false
				}
				return h.apply(map[string]string{"result 0": "sin", "result 1": "cos"}[op], r), true
			}
		}
		return h.fail("depends on %s", op)
	}
	return h.fail("depends on %s", keyOf(v))
}

func checkGeometry(w *World, r *Report) {
	r.explain = "The host-side helpers are partially evaluated on unknown arguments along every path. The conversions and the haversine distance are compared, as rational functions over uninterpreted sine, cosine, square root and two-argument arctangent (with sin^2+cos^2 = 1 and sqrt(x)^2 = x), with the documented formulas; constants up to the rounding of a double. What the export of cells writes is rendered symbolically: one line per cell, in order, with the hexadecimal bit patterns of the latitude and longitude of its centre, and every failure reported."
	r.rules = []string{"degrees = radians * 180/pi, radians = degrees * pi/180, float = integer / 1e9", "distance = 2 R atan2(sqrt a, sqrt(1-a)), a = sin^2(dlat/2) + cos lat1 cos lat2 sin^2(dlon/2)", "line = hex(bits(lat)) hex(bits(lon)), rounded to single precision first when asked"}
	type job struct {
		rel, name string
		want      func(h *formula, a []RF) RF
		needed    bool
	}
	jobs := []job{
		{"util", "RadiansToDegrees", func(h *formula, a []RF) RF { return h.bin("*", a[0], h.num(180/math.Pi)) }, true},
		{"util", "ScaledIntToFloat64", func(h *formula, a []RF) RF { return h.bin("/", a[0], h.num(1e9)) }, true},
		{"proximity", "degreesToRadians", func(h *formula, a []RF) RF { return h.bin("*", a[0], h.num(math.Pi/180)) }, false},
		{"proximity", "OldHaversine", func(h *formula, a []RF) RF {
			k := h.num(math.Pi / 180)
			half := func(x, y RF) RF {
				s := h.apply("sin", h.bin("/", h.bin("*", k, h.bin("-", x, y)), h.num(2)))
				return h.bin("*", s, s)
			}
			cos := func(x RF) RF { return h.apply("cos", h.bin("*", k, x)) }
			q := h.bin("+", half(a[2], a[0]), h.bin("*", h.bin("*", cos(a[0]), cos(a[2])), half(a[3], a[1])))
			c := h.apply("atan2", h.sqrt(q), h.sqrt(h.bin("-", h.num(1), q)))
			return h.bin("*", h.num(2*6371000), c)
		}, true},
	}
	for _, j := range jobs {
		name := j.rel + "." + j.name
		guardRun(r, name, func() {
			fn := w.fn(j.rel, j.name)
			if fn == nil {
				if j.needed {
					r.alarm(name, "%s not found", name)
				}
				return
			}
			w.formulaOf(r, name, fn, j.want)
		})
	}
	guardRun(r, "proximity.WriteHexCellsToFile", func() { w.hexCells(r) })
	r.atLeast("formulas decided", 3)
	r.atLeast("export paths decided", 4)
}

func (w *World) formulaOf(r *Report, name string, fn *ssa.Function, want func(h *formula, a []RF) RF) {
	e := &explore{w: w, limit: 200, setup: func(x *explorer, in *Interp) {},
		body: func(in *Interp) Value {
			var args []Value
			for i := range fn.Params {
				args = append(args, mkTerm("argument", int64(i)))
			}
			return in.call(fn, args)
		},
		end: func(p *pathEnd) []string {
			if p.how != "return" {
				return []string{"does not return normally: " + p.how + " " + p.msg}
			}
			if len(p.x.order) > 0 {
				return []string{"not decided: the value depends on " + p.x.order[0]}
			}
			h := &formula{u: newU(), arg: map[string]RF{}}
			var a []RF
			for i := range fn.Params {
				a = append(a, RF{h.u.V(fmt.Sprintf("arg%d", i)), h.u.one})
			}
			got, ok := h.eval(p.ret)
			if !ok {
				return []string{h.why}
			}
			if exp := want(h, a); !h.same(got, exp) {
				return []string{fmt.Sprintf("computes %s instead of %s", h.rfText(got), h.rfText(exp))}
			}
			return nil
		}}
	_, _, bad := e.run(r)
	r.count("formulas decided", 1)
	for _, b := range bad {
		r.alarm(name+": "+b, "%s %s", name, b)
	}
	if len(bad) == 0 {
		r.pass("%s evaluates the documented formula", name)
	}
}

// hexOf peels a rendered value: the term whose bit pattern is printed in hexadecimal.
func hexOf(v Value) (Value, bool) {
	o, ok := stripInt(v).(Opaque)
	if !ok || o.t == nil || o.t.op != "hex" {
		return nil, false
	}
	o, ok = stripInt(o.t.args[0]).(Opaque)
	if !ok || o.t == nil || o.t.op != "math.Float64bits" {
		return nil, false
	}
	return o.t.args[0], true
}

func (w *World) hexCells(r *Report) {
	fn := w.fn("proximity", "WriteHexCellsToFile")
	const name = "proximity.WriteHexCellsToFile"
	if fn == nil || len(fn.Params) != 3 {
		r.alarm(name, "%s not found", name)
		return
	}
	et := fn.Params[0].Type().Underlying().(*types.Slice).Elem()
	st, ok := et.Underlying().(*types.Struct)
	if !ok {
		r.alarm(name, "%s: cells are not structures", name)
		return
	}
	center := [2]string{}
	for i := 0; i < st.NumFields(); i++ {
		n := strings.ToLower(st.Field(i).Name())
		if strings.Contains(n, "lat") {
			center[0] = st.Field(i).Name()
		} else if strings.Contains(n, "lon") || strings.Contains(n, "lng") {
			center[1] = st.Field(i).Name()
		}
	}
	for _, n := range []int{0, 1, 2, 3} {
		var text []piece
		var wrote bool
		e := &explore{w: w, limit: 5000,
			setup: func(x *explorer, in *Interp) {
				text, wrote = nil, false
				x.model = func(x *explorer, in *Interp, name string, sig *types.Signature, args []Value) (Value, bool) {
					short := name[strings.LastIndex(name, ".")+1:]
					switch name {
					case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
						return mkTerm(short, args...), true
					}
					buf := strings.Contains(name, "strings.Builder).") || strings.Contains(name, "bytes.Buffer).")
					if _, _, ok := writeCall(name, short, args); ok || buf && strings.HasPrefix(short, "Write") {
						var ps []piece
						ok := true
						switch {
						case name == "fmt.Fprintf":
							f, isS := args[1].(string)
							if ok = isS; ok {
								ps, ok = format(f, ifaceArgs(args[2]))
							}
						case strings.HasPrefix(name, "fmt.Fprint"):
							ps, ok = printed(name, ifaceArgs(args[1]))
						case short == "WriteByte" || short == "WriteRune":
							c, isC := args[1].(int64)
							if b, isB := args[1].(uint64); isB {
								c, isC = int64(b), true
							}
							ps, ok = []piece{{text: string(rune(c))}}, isC
						default:
							if o, isO := args[1].(Opaque); isO && o.t != nil && strings.Contains(o.t.key, "the buffered text") {
								break
							}
							ps, ok = render(args[1])
						}
						if !ok {
							x.note(in, "not decided: what is written is %s", keyOf(args[1]))
						}
						text = append(text, ps...)
						if buf {
							return Tuple{int64(0), nil}, true
						}
						wrote = true
					}
					if buf && (short == "String" || short == "Bytes") {
						return mkTerm("the buffered text"), true
					}
					return nil, false
				}
			},
			body: func(in *Interp) Value {
				s := SliceV{len: n, cap: n}
				for i := 0; i < n; i++ {
					v := &StructV{t: et}
					for k := 0; k < st.NumFields(); k++ {
						v.f = append(v.f, mkTerm("field "+st.Field(k).Name(), int64(i)))
					}
					c := newCell(et)
					c.store(v)
					s.arr = append(s.arr, c)
				}
				return in.call(fn, []Value{s, mkTerm("argument", int64(1)), mkTerm("argument", int64(2))})
			},
			end: func(p *pathEnd) (bad []string) {
				if p.how != "return" {
					return []string{"does not return normally: " + p.how + " " + p.msg}
				}
				failed, ignored := "", ""
				for _, ev := range p.x.events {
					if !ev.hasErr {
						continue
					}
					null, ok := p.x.isNil(ev.res[len(ev.res)-1])
					if p.ret != nil && keyOf(p.ret) == keyOf(ev.res[len(ev.res)-1]) {
						continue // handed to the caller
					}
					if ok && !null {
						failed = ev.name
					}
					if !ok && !strings.HasSuffix(ev.name, ".Close") && !strings.HasPrefix(ev.name, "fmt.Print") {
						ignored = ev.name
					}
				}
				null, known := p.x.isNil(p.ret)
				if failed != "" {
					if known && null {
						bad = append(bad, "does not report that "+failed+" failed")
					}
					return
				}
				if ignored != "" {
					return []string{"ignores the error of " + ignored}
				}
				if known && !null {
					return
				}
				if n > 0 && !wrote {
					return []string{"writes nothing"}
				}
				return append(bad, w.hexLines(p.x, text, n, center)...)
			}}
		paths, _, bad := e.run(r)
		r.count("export paths decided", paths)
		for _, b := range bad {
			r.alarm(name+": "+b, "%s with %d cells: %s", name, n, b)
		}
		if len(bad) == 0 {
			r.pass("%s writes %d cells exactly or reports the failure", name, n)
		}
	}
}

// hexLines judges the text written for n cells.
func (w *World) hexLines(x *explorer, text []piece, n int, center [2]string) (bad []string) {
	var lines [][]piece
	cur := []piece{}
	for _, p := range text {
		if p.v != nil {
			cur = append(cur, p)
			continue
		}
		parts := strings.Split(p.text, "\n")
		for i, s := range parts {
			if i > 0 {
				lines = append(lines, cur)
				cur = []piece{}
			}
			if s != "" {
				cur = append(cur, piece{text: s})
			}
		}
	}
	if len(cur) > 0 {
		lines = append(lines, cur)
	}
	if len(lines) != n {
		return []string{fmt.Sprintf("writes %d lines for %d cells", len(lines), n)}
	}
	single, asked := x.conds[mkTerm("argument", int64(2)).key()]
	for i, l := range lines {
		var vals []Value
		gap := true
		for _, p := range l {
			if p.v == nil {
				gap = strings.TrimSpace(p.text) == ""
				if !gap {
					return []string{fmt.Sprintf("line %d contains %q", i, p.text)}
				}
				continue
			}
			if !gap {
				return []string{fmt.Sprintf("line %d runs two values together", i)}
			}
			gap = false
			vals = append(vals, p.v)
		}
		if len(vals) != 2 {
			return []string{fmt.Sprintf("line %d has %d values", i, len(vals))}
		}
		for k, v := range vals {
			what := [2]string{"latitude", "longitude"}[k]
			f, ok := hexOf(v)
			if !ok {
				bad = append(bad, fmt.Sprintf("the %s is not written as its bit pattern in hexadecimal but as %s", what, keyOf(v)))
				continue
			}
			exact := mkTerm("field "+center[k], int64(i))
			rounded := exact.part("convert float64 to float32").part("convert float32 to float64")
			want := exact
			if asked && single {
				want = rounded
			}
			if !asked {
				bad = append(bad, "does not distinguish the precisions")
			} else if keyOf(f) != keyOf(want) {
				bad = append(bad, fmt.Sprintf("the %s of cell %d is %s instead of %s", what, i, keyOf(f), keyOf(want)))
			}
		}
	}
	return
}
