package main

// Regular languages: inclusion between (sub-)expressions, and what a capture group captures.

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
)

type nfa struct{ p *syntax.Prog }

func mkNFA(re *syntax.Regexp) (*nfa, error) {
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, err
	}
	return &nfa{p}, nil
}

// closure follows empty moves; anchors and word boundaries are not supported.
func (n *nfa) closure(pcs []uint32) (set []uint32, accept bool, err error) {
	seen := map[uint32]bool{}
	var visit func(pc uint32)
	visit = func(pc uint32) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		i := n.p.Inst[pc]
		switch i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			visit(i.Out)
			visit(i.Arg)
		case syntax.InstCapture, syntax.InstNop:
			visit(i.Out)
		case syntax.InstEmptyWidth:
			err = fmt.Errorf("anchor")
		case syntax.InstMatch:
			accept = true
		case syntax.InstFail:
		default:
			set = append(set, pc)
		}
	}
	for _, pc := range pcs {
		visit(pc)
	}
	sort.Slice(set, func(i, j int) bool { return set[i] < set[j] })
	return
}

func (n *nfa) step(set []uint32, r rune) (out []uint32) {
	for _, pc := range set {
		if n.p.Inst[pc].MatchRune(r) {
			out = append(out, n.p.Inst[pc].Out)
		}
	}
	return
}

func runesOf(ns ...*nfa) []rune {
	m := map[rune]bool{0: true, 0x10FFFF: true}
	for _, n := range ns {
		for _, i := range n.p.Inst {
			for k, r := range i.Rune {
				m[r] = true
				if r > 0 {
					m[r-1] = true
				}
				m[r+1] = true
				_ = k
			}
		}
	}
	for r := rune(0); r < 128; r++ {
		m[r] = true
	}
	var out []rune
	for r := range m {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// included decides whether every word of a is a word of b.
func included(a, b *syntax.Regexp) (bool, string, error) {
	na, err := mkNFA(a)
	if err != nil {
		return false, "", err
	}
	nb, err := mkNFA(b)
	if err != nil {
		return false, "", err
	}
	rs := runesOf(na, nb)
	type st struct {
		a, b []uint32
		word string
	}
	seen := map[string]bool{}
	work := []st{{[]uint32{uint32(na.p.Start)}, []uint32{uint32(nb.p.Start)}, ""}}
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		sa, aa, err := na.closure(s.a)
		if err != nil {
			return false, "", err
		}
		sb, ab, err := nb.closure(s.b)
		if err != nil {
			return false, "", err
		}
		if aa && !ab {
			return false, s.word, nil
		}
		k := fmt.Sprint(sa, sb, aa, ab)
		if seen[k] {
			continue
		}
		seen[k] = true
		for _, r := range rs {
			if n := na.step(sa, r); len(n) > 0 {
				work = append(work, st{n, nb.step(sb, r), s.word + string(r)})
			}
		}
	}
	return true, "", nil
}

func parseRe(s string) *syntax.Regexp {
	re, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		panic(err)
	}
	return re
}

// disjointEdge: every word of re is non-empty and its first (or last) character is outside the class token.
func disjointEdge(re *syntax.Regexp, token string, first bool) bool {
	pat := `(?s:[^` + token + `].*)`
	if !first {
		pat = `(?s:.*[^` + token + `])`
	}
	ok, _, err := included(re, parseRe(pat))
	return err == nil && ok
}

func greedy(re *syntax.Regexp) bool {
	switch re.Op {
	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest, syntax.OpRepeat:
		if re.Flags&syntax.NonGreedy != 0 {
			return false
		}
	case syntax.OpAlternate:
		return false
	}
	for _, s := range re.Sub {
		if !greedy(s) {
			return false
		}
	}
	return true
}

// captures decides whether group i of the pattern always captures a whole token: every word of form is captured as it
// is, and a capture never stops or starts inside a run of token characters.
func captures(pattern string, i int, form, token string) (label string, why string) {
	re, err := syntax.Parse(pattern, syntax.Perl)
	if err != nil {
		return "", "the pattern does not compile"
	}
	parts := []*syntax.Regexp{re}
	if re.Op == syntax.OpConcat {
		parts = re.Sub
	}
	at := -1
	for k, p := range parts {
		if p.Op == syntax.OpCapture && p.Cap == i {
			at = k
		}
	}
	if at < 0 {
		return "", fmt.Sprintf("group %d is optional, repeated or missing in %q", i, pattern)
	}
	for k := at - 1; k >= 0; k-- {
		if parts[k].Op == syntax.OpCapture {
			break
		}
		if parts[k].Op == syntax.OpLiteral {
			label = string(parts[k].Rune) + label
		}
	}
	g := parts[at].Sub[0]
	if ok, word, err := included(parseRe(form), g); err != nil || !ok {
		return label, fmt.Sprintf("group %d of %q does not match %q", i, pattern, word)
	}
	if ok, word, err := included(g, parseRe(`[`+token+`]*`)); err != nil || !ok {
		return label, fmt.Sprintf("group %d of %q also matches %q", i, pattern, word)
	}
	if at > 0 && !disjointEdge(parts[at-1], token, false) {
		return label, fmt.Sprintf("group %d of %q may start in the middle of a value", i, pattern)
	}
	if at+1 < len(parts) {
		if !disjointEdge(parts[at+1], token, true) {
			return label, fmt.Sprintf("group %d of %q may end in the middle of a value", i, pattern)
		}
	} else if !greedy(g) {
		return label, fmt.Sprintf("group %d of %q may end in the middle of a value (not greedy)", i, pattern)
	}
	return strings.TrimSpace(label), ""
}
