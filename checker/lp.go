package main

// Linear entailment over monomials (the convex-polyhedra part of the abstract domain): exact rational simplex.

import "math/big"

// lpRow is sum c_j x_j + k >= 0.
type lpRow struct {
	c map[string]*big.Rat
	k *big.Rat
}

func polyRow(p *Poly) lpRow {
	r := lpRow{map[string]*big.Rat{}, new(big.Rat)}
	for _, t := range p.t {
		if t.m == monoOne {
			r.k = t.c
		} else {
			r.c[t.m.key] = t.c
		}
	}
	return r
}

const lpMaxRows = 60

// lpMin returns the least value of p the linear facts allow (nil: unbounded or too large); infeasible facts set inf.
func (e *Env) lpMin(p *Poly) (v *big.Rat, inf bool) {
	if e.bver != e.ver {
		e.bmemo = map[string]Ival{}
		e.bver = e.ver
	}
	key := "lp:" + p.Key()
	if r, ok := e.bmemo[key]; ok {
		return r.lo, r.hi != nil
	}
	v, inf = e.lpMin1(p)
	r := Ival{lo: v}
	if inf {
		r.hi = ratOne
	}
	if e.bver == e.ver {
		e.bmemo[key] = r
	}
	return
}

func (e *Env) lpMin1(p *Poly) (*big.Rat, bool) {
	// facts connected to p through shared monomials
	monos := map[string]*Mono{}
	add := func(q *Poly) {
		for _, t := range q.t {
			if t.m != monoOne {
				monos[t.m.key] = t.m
			}
		}
	}
	add(p)
	all := len(p.t) == 0
	used := make([]bool, len(e.facts))
	var rows []lpRow
	for ch := true; ch; {
		ch = false
		for i, f := range e.facts {
			if used[i] {
				continue
			}
			hit := all
			for _, t := range f.p.t {
				if t.m != monoOne && monos[t.m.key] != nil {
					hit = true
				}
			}
			if !hit {
				continue
			}
			used[i], ch = true, true
			add(f.p)
			rows = append(rows, polyRow(f.p))
		}
	}
	if len(rows) > lpMaxRows {
		return nil, false
	}
	// products of bounded values: (a-lo)(b-lo) >= 0 and its three variants
	var prods []*Mono
	for _, m := range monos {
		if m.p2 == nil && len(m.f) == 2 && m.f[0].pow == 1 && m.f[1].pow == 1 {
			prods = append(prods, m)
		}
	}
	for _, m := range prods {
		var side [2][]*Poly
		for i := range side {
			a, iv := e.u.Atom(m.f[i].a), e.iv[m.f[i].a]
			if iv.lo != nil {
				side[i] = append(side[i], e.u.Sub(a, e.u.constRat(iv.lo)))
			}
			if iv.hi != nil {
				side[i] = append(side[i], e.u.Sub(e.u.constRat(iv.hi), a))
			}
		}
		for _, x := range side[0] {
			for _, y := range side[1] {
				q := e.u.Mul(x, y)
				add(q)
				rows = append(rows, polyRow(q))
			}
		}
	}
	// variables: shift to nonnegative
	idx := map[string]int{}
	type vr struct {
		lo   *big.Rat
		hi   *big.Rat
		sign int // x = lo + y (1), x = hi - y (-1), x = y - y' (0)
	}
	var vs []vr
	names := []string{}
	for k := range monos {
		names = append(names, k)
	}
	sortStrings(names)
	ncol := 0
	col := map[string]int{}
	for _, k := range names {
		iv := e.monoIval(monos[k])
		v := vr{lo: iv.lo, hi: iv.hi}
		switch {
		case iv.lo != nil:
			v.sign = 1
		case iv.hi != nil:
			v.sign = -1
		}
		idx[k] = len(vs)
		vs = append(vs, v)
		col[k] = ncol
		ncol++
		if v.sign == 0 {
			ncol++
		}
	}
	conv := func(r lpRow) ([]*big.Rat, *big.Rat) {
		c := make([]*big.Rat, ncol)
		k := new(big.Rat).Set(r.k)
		for _, n := range names {
			a, ok := r.c[n]
			if !ok {
				continue
			}
			v := vs[idx[n]]
			j := col[n]
			switch v.sign {
			case 1:
				c[j] = a
				k.Add(k, new(big.Rat).Mul(a, v.lo))
			case -1:
				c[j] = new(big.Rat).Neg(a)
				k.Add(k, new(big.Rat).Mul(a, v.hi))
			default:
				c[j] = a
				c[j+1] = new(big.Rat).Neg(a)
			}
		}
		return c, k
	}
	var A [][]*big.Rat
	var B []*big.Rat
	for _, r := range rows {
		c, k := conv(r)
		A, B = append(A, c), append(B, k)
	}
	for _, n := range names {
		v := vs[idx[n]]
		if v.sign == 1 && v.hi != nil {
			c := make([]*big.Rat, ncol)
			c[col[n]] = ratMinusOne
			A, B = append(A, c), append(B, new(big.Rat).Sub(v.hi, v.lo))
		}
	}
	obj, ok := conv(polyRow(p))
	m, inf, bounded := simplex(A, B, obj, ncol)
	if inf {
		return nil, true
	}
	if !bounded {
		return nil, false
	}
	return new(big.Rat).Add(m, ok), false
}

// simplex minimises obj.y subject to A y + B >= 0, y >= 0.
func simplex(A [][]*big.Rat, B []*big.Rat, obj []*big.Rat, n int) (min *big.Rat, infeasible, bounded bool) {
	// rows: slack s_i = A_i y + B_i >= 0 (dictionary form). basis: slacks; nonbasis: y.
	m := len(A)
	z := func() *big.Rat { return new(big.Rat) }
	D := make([][]*big.Rat, m)
	for i := range A {
		D[i] = make([]*big.Rat, n+2)
		for j := 0; j < n; j++ {
			if A[i][j] != nil {
				D[i][j] = A[i][j]
			}
		}
		D[i][n+1] = B[i]
	}
	basis := make([]int, m)
	non := make([]int, n+1)
	for j := range non {
		non[j] = j
	}
	for i := range basis {
		basis[i] = n + 1 + i
	}
	O := make([]*big.Rat, n+2)
	for j := 0; j < n; j++ {
		O[j] = obj[j]
	}
	zero := func(r *big.Rat) bool { return r == nil || r.Sign() == 0 }
	pivot := func(r, c int, extra ...[]*big.Rat) {
		// x_basis[r] = sum D[r][j] x_non[j] + D[r][last]; solve for x_non[c]
		inv := new(big.Rat).Inv(D[r][c])
		row := make([]*big.Rat, n+2)
		for j := range row {
			if j == c {
				row[j] = inv
			} else if !zero(D[r][j]) {
				v := new(big.Rat).Mul(D[r][j], inv)
				row[j] = v.Neg(v)
			}
		}
		upd := func(x []*big.Rat) {
			if zero(x[c]) {
				return
			}
			f := x[c]
			for j := range x {
				if j == c {
					x[j] = new(big.Rat).Mul(f, inv)
				} else if !zero(row[j]) {
					v := new(big.Rat).Mul(f, row[j])
					if !zero(x[j]) {
						v.Add(v, x[j])
					}
					x[j] = v
				}
			}
		}
		for i := range D {
			if i != r {
				upd(D[i])
			}
		}
		for _, x := range extra {
			upd(x)
		}
		D[r] = row
		basis[r], non[c] = non[c], basis[r]
	}
	steps := 0
	// phase 1 with artificial x_n
	worst := -1
	for i := range D {
		if D[i][n+1] != nil && D[i][n+1].Sign() < 0 && (worst < 0 || D[i][n+1].Cmp(D[worst][n+1]) < 0) {
			worst = i
		}
	}
	if worst >= 0 {
		for i := range D {
			D[i][n] = ratOne
		}
		W := make([]*big.Rat, n+2)
		W[n] = ratOne
		pivot(worst, n, O, W)
		for {
			steps++
			if steps > 2000 {
				return nil, false, false
			}
			c := -1
			for j := 0; j <= n; j++ {
				if !zero(W[j]) && W[j].Sign() < 0 && (c < 0 || non[j] < non[c]) {
					c = j
				}
			}
			if c < 0 {
				break
			}
			r := -1
			var best *big.Rat
			for i := range D {
				if zero(D[i][c]) || D[i][c].Sign() >= 0 {
					continue
				}
				b := z()
				if D[i][n+1] != nil {
					b.Quo(D[i][n+1], D[i][c])
					b.Neg(b)
				}
				if r < 0 || b.Cmp(best) < 0 || (b.Cmp(best) == 0 && (basis[i] == n || (basis[r] != n && basis[i] < basis[r]))) {
					r, best = i, b
				}
			}
			if r < 0 {
				return nil, false, false
			}
			pivot(r, c, O, W)
		}
		if !zero(W[n+1]) && W[n+1].Sign() > 0 {
			return nil, true, true
		}
		// drive the artificial out of the basis
		for i := range basis {
			if basis[i] == n {
				for j := 0; j <= n; j++ {
					if !zero(D[i][j]) && non[j] != n {
						pivot(i, j, O)
						break
					}
				}
			}
		}
	}
	// phase 2: the artificial stays at zero
	for {
		steps++
		if steps > 4000 {
			return nil, false, false
		}
		c := -1
		for j := 0; j <= n; j++ {
			if non[j] == n {
				continue
			}
			if !zero(O[j]) && O[j].Sign() < 0 && (c < 0 || non[j] < non[c]) {
				c = j
			}
		}
		if c < 0 {
			break
		}
		r := -1
		var best *big.Rat
		for i := range D {
			if zero(D[i][c]) || D[i][c].Sign() >= 0 {
				continue
			}
			b := z()
			if D[i][n+1] != nil {
				b.Quo(D[i][n+1], D[i][c])
				b.Neg(b)
			}
			if r < 0 || b.Cmp(best) < 0 || (b.Cmp(best) == 0 && basis[i] < basis[r]) {
				r, best = i, b
			}
		}
		if r < 0 {
			return nil, false, false
		}
		pivot(r, c, O)
	}
	v := z()
	if O[n+1] != nil {
		v.Set(O[n+1])
	}
	return v, false, true
}
