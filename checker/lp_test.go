package main

import (
	"math/big"
	"math/rand"
	"testing"
)

func TestSimplex(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	for it := 0; it < 3000; it++ {
		n := 2
		m := rnd.Intn(5)
		var A [][]*big.Rat
		var B []*big.Rat
		ai := [][]int{}
		bi := []int{}
		add := func(a, b, k int) {
			A = append(A, []*big.Rat{big.NewRat(int64(a), 1), big.NewRat(int64(b), 1)})
			B = append(B, big.NewRat(int64(k), 1))
			ai = append(ai, []int{a, b})
			bi = append(bi, k)
		}
		add(-1, 0, 4)
		add(0, -1, 4)
		for i := 0; i < m; i++ {
			add(rnd.Intn(7)-3, rnd.Intn(7)-3, rnd.Intn(9)-5)
		}
		o := []int{rnd.Intn(7) - 3, rnd.Intn(7) - 3}
		v, inf, bd := simplex(A, B, []*big.Rat{big.NewRat(int64(o[0]), 1), big.NewRat(int64(o[1]), 1)}, n)
		// brute on a fine grid of vertices: intersect all pairs
		var best *big.Rat
		chk := func(x, y *big.Rat) {
			if x.Sign() < 0 || y.Sign() < 0 {
				return
			}
			for i := range ai {
				s := new(big.Rat).Mul(big.NewRat(int64(ai[i][0]), 1), x)
				s.Add(s, new(big.Rat).Mul(big.NewRat(int64(ai[i][1]), 1), y))
				s.Add(s, big.NewRat(int64(bi[i]), 1))
				if s.Sign() < 0 {
					return
				}
			}
			s := new(big.Rat).Mul(big.NewRat(int64(o[0]), 1), x)
			s.Add(s, new(big.Rat).Mul(big.NewRat(int64(o[1]), 1), y))
			if best == nil || s.Cmp(best) < 0 {
				best = s
			}
		}
		L := append([][]int{}, ai...)
		K := append([]int{}, bi...)
		L = append(L, []int{1, 0}, []int{0, 1})
		K = append(K, 0, 0)
		for i := range L {
			for j := range L {
				d := L[i][0]*L[j][1] - L[i][1]*L[j][0]
				if d == 0 {
					continue
				}
				chk(big.NewRat(int64(-K[i]*L[j][1]+K[j]*L[i][1]), int64(d)), big.NewRat(int64(-L[i][0]*K[j]+L[j][0]*K[i]), int64(d)))
			}
		}
		if inf != (best == nil) {
			t.Fatal("inf", A, B, inf, best)
		}
		if !inf && (!bd || v.Cmp(best) != 0) {
			t.Fatal("val", A, B, o, v, best)
		}
	}
}
