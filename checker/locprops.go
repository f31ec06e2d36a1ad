package main

// C30-C34: the location pipeline.

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
)

func init() {
	props["C30"] = &propDef{"proof", checkFaces}
	props["C31"] = &propDef{"proof", checkProjection}
	props["C32"] = &propDef{"proof", checkHex2d}
	props["C33"] = &propDef{"proof", checkNormalize}
}

var locPkgs = []string{"loc2index32", "loc2index64"}

// ---------- C30 ----------

// cand is what a float variable can be: a constant or a term, as selected along some path.
type cand struct {
	c *big.Rat // constant (signed), or
	t *FTerm   // an unmodified term
}

func (c cand) key() string {
	if c.t != nil {
		return fmt.Sprintf("t%d", c.t.id)
	}
	return "c" + c.c.RatString()
}

// candEval collects the candidates of float variables when comparisons may be undecided.
type candEval struct {
	p    *pipe
	cmp  func(op string, a, b cand) int // -1 unknown, 0 false, 1 true
	bmem map[*Node]int
	vmem map[[4]int]map[string]cand
}

func (e *candEval) bool(n *Node) int {
	if v, ok := e.bmem[n]; ok {
		return v
	}
	v := e.bool1(n)
	e.bmem[n] = v
	return v
}

func (e *candEval) bool1(n *Node) int {
	and := func(a, b int) int {
		if a == 0 || b == 0 {
			return 0
		}
		if a == 1 && b == 1 {
			return 1
		}
		return -1
	}
	not := func(a int) int {
		if a < 0 {
			return a
		}
		return 1 - a
	}
	switch n.op {
	case nConst:
		if n.c.IsInt64() && (n.c.Int64() == 0 || n.c.Int64() == 1) {
			return int(n.c.Int64())
		}
	case nAnd:
		return and(e.bool(n.arg[0]), e.bool(n.arg[1]))
	case nOr:
		return not(and(not(e.bool(n.arg[0])), not(e.bool(n.arg[1]))))
	case nXor:
		a, b := e.bool(n.arg[0]), e.bool(n.arg[1])
		if a < 0 || b < 0 {
			return -1
		}
		return a ^ b
	case nSub: // 1 - b
		if a := n.arg[0]; a.op == nConst && a.c.IsInt64() && a.c.Int64() == 1 {
			return not(e.bool(n.arg[1]))
		}
	case nSelect:
		switch e.bool(n.arg[0]) {
		case 1:
			return e.bool(n.arg[1])
		case 0:
			return e.bool(n.arg[2])
		}
		if a, b := e.bool(n.arg[1]), e.bool(n.arg[2]); a == b {
			return a
		}
		return -1
	case nCmp:
		if n.ft.op == "IsPositive" {
			return -1
		}
		v := -2
		for _, a := range e.vals(n.ft.arg[0]) {
			for _, b := range e.vals(n.ft.arg[1]) {
				x := e.cmp(n.ft.op, a, b)
				if v == -2 {
					v = x
				} else if v != x {
					v = -1
				}
			}
		}
		return v
	}
	return -1
}

func (e *candEval) vals(a [4]*Node) map[string]cand {
	k := [4]int{a[0].id, a[1].id, a[2].id, a[3].id}
	if v, ok := e.vmem[k]; ok {
		return v
	}
	v := e.vals1(a)
	e.vmem[k] = v
	return v
}

func (e *candEval) vals1(a [4]*Node) map[string]cand {
	for _, n := range a {
		if n.op != nSelect {
			continue
		}
		out := map[string]cand{}
		c := n.arg[0]
		for side := 1; side <= 2; side++ {
			if b := e.bool(c); b >= 0 && b != 2-side {
				continue
			}
			x := a
			for i, m := range a {
				for m.op == nSelect && m.arg[0] == c {
					m = m.arg[side]
				}
				x[i] = m
			}
			for k, v := range e.vals(x) {
				out[k] = v
			}
		}
		return out
	}
	m, x := a[2], a[1]
	switch {
	case m.op == nConst && x.op == nConst && a[0].op == nConst && a[3].op == nConst && a[3].c.Sign() == 0:
		v := new(big.Rat)
		if m.c.Sign() != 0 {
			v.Mul(new(big.Rat).SetInt(m.c), pow2Rat(x.c.Int64()-int64(e.p.f.M)))
		}
		if a[0].c.Sign() != 0 {
			v.Neg(v)
		}
		c := cand{c: v}
		return map[string]cand{c.key(): c}
	case m.op == nFloat && x.op == nFloat && m.ft == x.ft && m.idx == 2 && x.idx == 1 &&
		(a[0].op == nFloat && a[0].ft == m.ft && a[0].idx == 0 || a[0].op == nConst && a[0].c.Sign() == 0): // a distance is not negative
		c := cand{t: m.ft}
		return map[string]cand{c.key(): c}
	}
	panic(undecided("the components of a float variable come from different numbers"))
}

func ratF(f float64) *big.Rat { return new(big.Rat).SetFloat64(f) }

// faceOf recognises the squared distance to a face centre.
func faceOf(e *real, v RF, pts []*big.Rat, tol *big.Rat) int {
	if c, ok := v.d.IsConst(); !ok || c.Cmp(ratOne) != 0 {
		return -1
	}
	at := map[string]*Atom{"x": e.u.Var("x"), "y": e.u.Var("y"), "z": e.u.Var("z")}
	close := func(a, b *big.Rat) bool {
		d := new(big.Rat).Sub(a, b)
		return d.Abs(d).Cmp(tol) <= 0
	}
	var lin [3]*big.Rat
	c0 := new(big.Rat)
	for i := range lin {
		lin[i] = new(big.Rat)
	}
	sq := 0
	for _, t := range v.n.t {
		switch {
		case t.m == monoOne:
			c0 = t.c
		case len(t.m.f) == 1 && t.m.p2 == nil && t.m.f[0].pow == 2 && t.c.Cmp(ratOne) == 0:
			sq++
		case len(t.m.f) == 1 && t.m.p2 == nil && t.m.f[0].pow == 1:
			for i, n := range []string{"x", "y", "z"} {
				if t.m.f[0].a == at[n] {
					lin[i] = t.c
				}
			}
		default:
			return -1
		}
	}
	if sq != 3 || !close(c0, ratOne) {
		return -1
	}
	for k := 0; k*3 < len(pts); k++ {
		ok := true
		for i := range lin {
			if !close(lin[i], new(big.Rat).Mul(big.NewRat(-2, 1), pts[3*k+i])) {
				ok = false
			}
		}
		if ok {
			return k
		}
	}
	return -1
}

func checkFaces(w *World, r *Report) {
	r.explain = pipeExplain + ". For each face the assumption that it is the first one at minimal distance decides the comparisons that involve it; the others are left open, and the set of values each result can take is computed over all of them. Distances and parameters are matched with the H3 sources."
	r.rules = []string{"assuming face k is the first minimum, the squared distance returned is that of face k and nothing else", "each of the eight parameters returned is that of face k",
		"single precision: within 2^-20, double: within 2^-49 of the H3 value"}
	h := loadH3(w)
	names := []string{"squared distance", "sine of the face latitude", "cosine of the face latitude", "sine of the face longitude", "cosine of the face longitude",
		"sine of the azimuth", "cosine of the azimuth", "sine of the rotated azimuth", "cosine of the rotated azimuth"}
	var ref [9][]*big.Float
	for k := 0; k < 20; k++ {
		sa, ca := bigSinCos(h.azimuth[k])
		sr, cr := bigSinCos(new(big.Float).SetPrec(refPrec).Sub(h.azimuth[k], h.rot))
		for i, v := range []*big.Float{nil, h.sinLat[k], h.cosLat[k], h.sinLng[k], h.cosLng[k], sa, ca, sr, cr} {
			ref[i] = append(ref[i], v)
		}
	}
	var pts []*big.Rat
	for _, v := range h.point {
		pts = append(pts, ratOf(v))
	}
	for i, rel := range locPkgs {
		tol := []*big.Rat{pow2Rat(-20), pow2Rat(-49)}[i]
		key := rel + ".closestFaceCalculations"
		guardRun(r, key, func() {
			var out [][4]*Node
			p, err := w.pipeline(fmts[i], func(p *pipe) {
				out = p.floats(p.call(rel, "closestFaceCalculations", p.ctx, p.input("x"), p.input("y"), p.input("z"), p.input("lng")))
			})
			if err != nil {
				r.alarm(key, "%v", err)
				return
			}
			if len(out) != 9 {
				r.alarm(key, "nine results expected")
				return
			}
			r.touch(p.touch)
			e := &real{p: p, u: newU(), bits: map[*Node]bool{}, isInt: map[*Atom]bool{}, pos: map[*Atom]bool{}, sqrt: map[*Atom]RF{}, mags: map[string]*Poly{},
				vals: map[string]*Poly{}, val: map[*FTerm]RF{}, sign: map[string]bool{}}
			for _, n := range []string{"x", "y", "z"} {
				e.vals[n] = e.u.V(n)
			}
			face := map[*FTerm]int{}
			faceIdx := func(t *FTerm) int {
				k, ok := face[t]
				if !ok {
					k = faceOf(e, e.value(t), pts, new(big.Rat).Mul(tol, big.NewRat(16, 1)))
					face[t] = k
				}
				return k
			}
			for k := 0; k < 20; k++ {
				// lt: a < b under the assumption that face k is the first minimum: -1 unknown
				less := func(a, b cand) int {
					fa, fb := -1, -1
					if a.t != nil {
						if fa = faceIdx(a.t); fa < 0 {
							return -1
						}
					}
					if b.t != nil {
						if fb = faceIdx(b.t); fb < 0 {
							return -1
						}
					}
					switch {
					case a.t == nil && b.t == nil:
						if a.c.Cmp(b.c) < 0 {
							return 1
						}
						return 0
					case a.t == nil:
						if a.c.Sign() < 0 {
							return 1
						}
						if fb == k && a.c.Cmp(big.NewRat(42, 100)) > 0 || a.c.Cmp(big.NewRat(401, 100)) > 0 {
							return 0
						}
						return -1
					case b.t == nil:
						if b.c.Sign() <= 0 {
							return 0
						}
						if fa == k && b.c.Cmp(big.NewRat(42, 100)) > 0 || b.c.Cmp(big.NewRat(401, 100)) > 0 {
							return 1
						}
						return -1
					case fa == fb:
						return 0
					case fa == k && fb < k:
						return 1
					case fb == k:
						return 0
					}
					return -1
				}
				not := func(v int) int {
					if v < 0 {
						return v
					}
					return 1 - v
				}
				ev := &candEval{p: p, bmem: map[*Node]int{}, vmem: map[[4]int]map[string]cand{}, cmp: func(op string, a, b cand) int {
					r.count("comparisons of distances evaluated", 1)
					switch op {
					case "IsLt":
						return less(a, b)
					case "IsGt":
						return less(b, a)
					case "IsGe":
						return not(less(a, b))
					case "IsLe":
						return not(less(b, a))
					}
					return -1
				}}
				for j, o := range out {
					vs := ev.vals(o)
					ok := len(vs) == 1
					var show []string
					for _, v := range vs {
						switch {
						case j == 0:
							if v.t == nil || faceIdx(v.t) != k {
								ok = false
							}
							if v.t != nil {
								show = append(show, fmt.Sprintf("distance to face %d", faceIdx(v.t)))
								continue
							}
						case v.t != nil:
							ok = false
							show = append(show, "a computed value")
							continue
						default:
							d := new(big.Rat).Sub(v.c, ratOf(ref[j][k]))
							if d.Abs(d).Cmp(tol) > 0 {
								ok = false
							}
						}
						show = append(show, v.c.FloatString(18))
					}
					sort.Strings(show)
					r.count("results decided (face x parameter)", 1)
					if ok {
						r.pass("%s, face %d: %s", rel, k, names[j])
						continue
					}
					want := fmt.Sprintf("the distance to face %d", k)
					if j > 0 {
						want = ref[j][k].Text('g', 18)
					}
					r.alarm(fmt.Sprintf("%s face %d: %s", key, k, names[j]), "when face %d is nearest the %s can be %s, want %s", k, names[j], strings.Join(show, " or "), want)
				}
			}
		})
	}
	r.atLeast("results decided (face x parameter)", 360)
}

// ---------- C31 ----------

func checkProjection(w *World, r *Report) {
	r.explain = pipeExplain + "; for each resolution 0 to 15 the radius, and for both parities of the resolution the planar coordinates, are compared with the H3 formulas as exact rational expressions over square roots."
	r.rules = []string{"radius = sqrt((4-d)d)/(2-d) * 7^(res/2) / RES0_U_GNOMONIC, the constant factor within 2^-18 (single) or 2^-45 (double)",
		"planar coordinates = r (cos az x/z + sin az y/z, sin az x/z - cos az y/z) with the rotated azimuth for odd resolutions"}
	h := loadH3(w)
	for i, rel := range locPkgs {
		key := rel + ".calculateR"
		guardRun(r, key, func() {
			var out [][4]*Node
			var res *Node
			p, err := w.pipeline(fmts[i], func(p *pipe) {
				res = p.wireIn("resolution")
				out = p.floats(p.call(rel, "calculateR", p.ctx, p.input("d"), res))
			})
			if err != nil {
				r.alarm(key, "%v", err)
				return
			}
			r.touch(p.touch)
			tol := twoPow([]int{-18, -45}[i])
			for n := int64(0); n <= 15; n++ {
				(&realRun{p: p, limit: 100, setup: func(e *real) {
					d := e.u.V("d")
					e.vals["d"] = d
					e.pos[e.u.Var("d")] = true
					e.assume(d, relGt)
					e.assume(e.u.Sub(e.u.Int(2), d), relGt)
					// 4d - d^2 > 0
					e.assume(e.u.Sub(e.u.ScaleInt(d, 4), e.u.Mul(d, d)), relGt)
					e.ints[res] = e.u.Int(n)
				}, leaf: func(e *real) {
					v := e.float(out[0])
					d := e.u.V("d")
					nom := e.u.Sub(e.u.ScaleInt(d, 4), e.u.Mul(d, d))
					two := e.poly(e.u.Sub(e.u.Int(2), d))
					k2 := e.div(e.mul(e.mul(v, v), e.mul(two, two)), e.poly(nom))
					c, ok := ratioConst(e, k2)
					r.count("radius formulas compared", 1)
					if !ok || c.Sign() <= 0 {
						r.alarm(fmt.Sprintf("%s resolution %d", key, n), "resolution %d: the radius is not proportional to sqrt((4-d)d)/(2-d)", n)
						return
					}
					got := new(big.Float).SetPrec(numPrec).Sqrt(nr(c))
					if e.numeric(v, map[string]float64{"d": 0.5}) < 0 {
						got.Neg(got)
					}
					want := nquo(nf(1), h.res)
					for k := int64(0); k < n; k++ {
						want = nmul(want, new(big.Float).SetPrec(numPrec).Sqrt(nf(7)))
					}
					dev := nabs(nsub(nquo(got, want), nf(1)))
					r.check(dev.Cmp(tol) <= 0, fmt.Sprintf("%s resolution %d", key, n), "resolution %d: the radius is scaled by %s, H3 scales by %s", n, got.Text('g', 17), want.Text('g', 17))
					if e.bit(out[0][3]) {
						r.alarm(key+" abnormal", "the radius is abnormal")
					}
				}}).run()
			}
		})
		key2 := rel + ".calculateHex2d"
		guardRun(r, key2, func() {
			names := []string{"sinLat", "cosLat", "sinLng", "cosLng", "sinFaceLat", "cosFaceLat", "sinFaceLng", "cosFaceLng", "sinAz", "cosAz", "sinAzRot", "cosAzRot", "r"}
			var out [][4]*Node
			var res *Node
			p, err := w.pipeline(fmts[i], func(p *pipe) {
				res = p.wireIn("resolution")
				args := []Value{p.ctx}
				for _, n := range names {
					args = append(args, p.input(n))
				}
				out = p.floats(p.call(rel, "calculateHex2d", append(args, res)...))
			})
			if err != nil {
				r.alarm(key2, "%v", err)
				return
			}
			r.touch(p.touch)
			if len(out) != 2 {
				r.alarm(key2, "two results expected")
				return
			}
			for n := int64(0); n <= 15; n++ {
				(&realRun{p: p, limit: 100, setup: func(e *real) {
					for _, x := range names {
						e.vals[x] = e.u.V(x)
					}
					e.ints[res] = e.u.Int(n)
				}, leaf: func(e *real) {
					v := func(n string) RF { return e.poly(e.u.V(n)) }
					y := e.mul(v("cosLat"), e.sub(e.mul(v("sinLng"), v("cosFaceLng")), e.mul(v("cosLng"), v("sinFaceLng"))))
					x := e.sub(e.mul(v("cosFaceLat"), v("sinLat")), e.mul(e.mul(v("sinFaceLat"), v("cosLat")),
						e.add(e.mul(v("cosLng"), v("cosFaceLng")), e.mul(v("sinLng"), v("sinFaceLng")))))
					z := e.root(e.add(e.mul(x, x), e.mul(y, y)))
					sa, ca := v("sinAz"), v("cosAz")
					if n%2 == 1 {
						sa, ca = v("sinAzRot"), v("cosAzRot")
					}
					want := []RF{
						e.mul(v("r"), e.div(e.add(e.mul(ca, x), e.mul(sa, y)), z)),
						e.mul(v("r"), e.div(e.sub(e.mul(sa, x), e.mul(ca, y)), z)),
					}
					for j, ax := range []string{"x", "y"} {
						r.count("planar formulas compared", 1)
						r.check(e.equal(e.float(out[j]), want[j]), fmt.Sprintf("%s %s, resolution %d", key2, ax, n), "resolution %d: the %s coordinate is not that of H3", n, ax)
						if e.bit(out[j][3]) {
							r.alarm(key2+" abnormal", "the %s coordinate is abnormal", ax)
						}
					}
				}}).run()
			}
		})
	}
	r.atLeast("radius formulas compared", 32)
	r.atLeast("planar formulas compared", 64)
}

// numeric evaluates an expression at a point (only used to tell the sign of an expression known up to sign).
func (e *real) numeric(v RF, at map[string]float64) float64 {
	var poly func(p *Poly) float64
	poly = func(p *Poly) float64 {
		s := 0.0
		for _, t := range p.t {
			c, _ := t.c.Float64()
			for _, f := range t.m.f {
				x, ok := at[f.a.name]
				if a, isRoot := e.sqrt[f.a]; isRoot {
					x, ok = math.Sqrt(poly(a.n)/poly(a.d)), true
				}
				if !ok {
					panic(undecided("unknown " + f.a.name))
				}
				c *= math.Pow(x, float64(f.pow))
			}
			s += c
		}
		return s
	}
	return poly(v.n) / poly(v.d)
}

// ---------- C32, C33 ----------

// minOf decides the least of three integers.
func (e *real) minOf(a [3]*Poly) *Poly {
	m := a[0]
	for _, x := range a[1:] {
		if e.holds(e.u.Sub(m, x), relGt) {
			m = x
		}
	}
	return m
}

// equalHere decides whether two integers are equal under the facts of this path.
func (e *real) equalHere(a, b *Poly) bool {
	d := e.u.Sub(a, b)
	if d.IsZero() {
		return true
	}
	return !e.feasible(rfact{d, relGt}) && !e.feasible(rfact{e.u.Neg(d), relGt})
}

// factText prints the decisions of the path.
func (e *real) factText() string {
	var s []string
	for _, f := range e.facts[min(e.base, len(e.facts)):] {
		op := map[rel]string{relGt: ">", relGe: ">=", relEq: "="}[f.r]
		s = append(s, e.showPoly(f.p)+" "+op+" 0")
		if len(s) == 10 {
			break
		}
	}
	return strings.Join(s, ", ")
}

// fits is the width obligation of a sign test.
func fits(r *Report, key string) func(e *real, what string, v *Poly, n int64) {
	return func(e *real, what string, v *Poly, n int64) {
		lim := e.u.Pow2Int(n)
		ok := !e.feasible(rfact{e.u.Sub(v, lim), relGe}) && !e.feasible(rfact{e.u.Sub(e.u.Neg(v), lim), relGe})
		r.count("width obligations", 1)
		if !ok {
			r.alarm(key+" width", "the sign test at %s gets %s, which may not fit in %d bits", what, e.showPoly(v), n)
		}
	}
}

const gridBits = 24

func checkNormalize(w *World, r *Report) {
	r.explain = pipeExplain + "s of the integer inputs: for every sign pattern and every ordering the three results are compared with the triple minus its least element, and every sign test's operand is shown to fit its width. Coordinates are any integers of magnitude below 2^24 given as sign and magnitude."
	r.rules = []string{"result = (i - m, j - m, k - m) with m = min(i, j, k)", "the operand of each sign test fits the stated bit length (C17 gives its exactness)"}
	for i, rel := range locPkgs {
		key := rel + ".NormalizeIJK"
		guardRun(r, key, func() {
			var out []*Node
			var neg, mag [3]*Node
			p, err := w.pipeline(fmts[i], func(p *pipe) {
				args := []Value{p.ctx}
				for k, n := range []string{"i", "j", "k"} {
					neg[k], mag[k] = p.wireIn(n+" negative"), p.wireIn(n)
					p.in.g.bools[neg[k]] = true
					args = append(args, neg[k], mag[k])
				}
				out = p.wires(p.call(rel, "NormalizeIJK", args...))
			})
			if err != nil {
				r.alarm(key, "%v", err)
				return
			}
			if len(out) != 3 {
				r.alarm(key, "three results expected")
				return
			}
			r.touch(p.touch)
			n := (&realRun{p: p, limit: 20000, setup: func(e *real) {
				e.need = fits(r, key)
				for k, n := range []string{"i", "j", "k"} {
					a := e.u.Var(n)
					e.isInt[a] = true
					v := e.u.Atom(a)
					e.ints[mag[k]] = v
					e.assume(v, relGe)
					e.assume(e.u.Sub(e.u.Int(1<<gridBits-1), v), relGe)
				}
			}, leaf: func(e *real) {
				var a [3]*Poly
				var sg []string
				for k := range a {
					a[k] = e.ints[mag[k]]
					ng := e.bit(neg[k])
					if ng {
						a[k] = e.u.Neg(a[k])
					}
					sg = append(sg, sgn(ng))
				}
				m := e.minOf(a)
				for k, n := range []string{"i", "j", "k"} {
					got, want := e.int(out[k]), e.u.Sub(a[k], m)
					r.count("results compared", 1)
					if e.equalHere(got, want) {
						r.pass("%s, signs %s, %s", key, strings.Join(sg, "/"), n)
					} else {
						r.alarm(key+" "+n+", signs "+strings.Join(sg, "/"), "signs %s: %s becomes %s, want %s, when %s", strings.Join(sg, "/"), n, e.showPoly(got), e.showPoly(want), e.factText())
					}
				}
			}}).run()
			r.count("paths", n)
		})
	}
	r.atLeast("results compared", 2*3*8)
	r.atLeast("width obligations", 2*8)
}

func checkHex2d(w *World, r *Report) {
	r.explain = pipeExplain + " and its integer part. Along each path the decision tree of H3's _hex2dToCoordIJK (written from the reference, thresholds rounded to the format) is evaluated on the same unknowns and the three results are compared, so every pair of regions, on boundaries and in all quadrants, is covered. Planar coordinates are any reals of magnitude below 2^22, a negative sign meaning a negative number."
	r.rules = []string{"result = normalise(reflect(partition(|x| + y'/2, y'))) with y' = |y|/sin 60", "the operand of each sign test fits the stated bit length"}
	h := loadH3(w)
	parallel(len(locPkgs), func(i int) {
		rel := locPkgs[i]
		key := rel + ".hex2dToCoordIJK"
		guardRun(r, key, func() {
			var out []*Node
			p, err := w.pipeline(fmts[i], func(p *pipe) {
				out = p.wires(p.call(rel, "hex2dToCoordIJK", p.ctx, p.input("x"), p.input("y")))
			})
			if err != nil {
				r.alarm(key, "%v", err)
				return
			}
			if len(out) != 3 {
				r.alarm(key, "three results expected")
				return
			}
			r.touch(p.touch)
			bits := []int{32, 64}[i]
			sin60 := ratF(roundRef(h.sin60, bits))
			third := ratF(roundRef(nquo(nf(1), nf(3)), bits))
			twoThird := ratF(roundRef(nquo(nf(2), nf(3)), bits))
			n := (&realRun{p: p, limit: 200000, setup: func(e *real) {
				e.need = fits(r, key)
				for _, n := range []string{"x", "y"} {
					v := e.u.V(n)
					e.mags[n] = v
					e.pos[e.u.Var(n)] = true
					if e.choice("input " + n) {
						e.assume(v, relGt)
					} else {
						e.assume(v, relGe)
					}
					e.assume(e.u.Sub(e.u.Pow2Int(22), v), relGt)
				}
			}, leaf: func(e *real) {
				u := e.u
				xneg, yneg := e.choice("input x"), e.choice("input y")
				var got [3]*Poly
				for k := range got {
					got[k] = e.int(out[k])
				}
				x2 := u.Scale(u.V("y"), new(big.Rat).Inv(sin60))
				x1 := u.Add(u.V("x"), u.Scale(x2, big.NewRat(1, 2)))
				m1, m2 := e.floor(e.poly(x1)).n, e.floor(e.poly(x2)).n
				r1, r2 := u.Sub(x1, m1), u.Sub(x2, m2)
				lt := func(a, b *Poly) bool { return e.holds(u.Sub(b, a), relGt) }
				inc := func(p *Poly, b bool) *Poly {
					if b {
						return u.Add(p, u.one)
					}
					return p
				}
				oneMinus := u.Sub(u.one, r1)
				var I, J *Poly
				switch {
				case lt(r1, u.constRat(third)):
					I = m1
					J = inc(m2, !lt(r2, u.Scale(u.Add(u.one, r1), big.NewRat(1, 2))))
				case lt(r1, u.constRat(big.NewRat(1, 2))):
					low := lt(r2, oneMinus)
					J = inc(m2, !low)
					I = inc(m1, !low && lt(r2, u.ScaleInt(r1, 2)))
				case lt(r1, u.constRat(twoThird)):
					low := lt(r2, oneMinus)
					J = inc(m2, !low)
					I = inc(m1, !(low && lt(u.Sub(u.ScaleInt(r1, 2), u.one), r2)))
				default:
					I = inc(m1, true)
					J = inc(m2, !lt(r2, u.Scale(r1, big.NewRat(1, 2))))
				}
				if xneg {
					I = u.Sub(J, I)
				}
				if yneg {
					I, J = u.Sub(I, J), u.Neg(J)
				}
				a := [3]*Poly{I, J, u.zero}
				m := e.minOf(a)
				r.count("cells compared", 1)
				for k, n := range []string{"i", "j", "k"} {
					want := u.Sub(a[k], m)
					if e.equalHere(got[k], want) {
						r.pass("%s, x %s, y %s, %s", key, sgn(xneg), sgn(yneg), n)
					} else {
						r.alarm(fmt.Sprintf("%s %s, x %s, y %s", key, n, sgn(xneg), sgn(yneg)), "x %s, y %s: %s is %s, H3 has %s, when %s", sgn(xneg), sgn(yneg), n, e.showPoly(got[k]), e.showPoly(want), e.factText())
					}
				}
			}}).run()
			r.count("paths", n)
		})
	})
	r.atLeast("cells compared", 2*8)
	r.atLeast("width obligations", 2*8)
}
