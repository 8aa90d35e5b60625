package main

import "fmt"

// caseProof decides whether two value graphs are equal by comparing them part by part and,
// where parts differ, in each case of the conditions that select between their values.
type caseProof struct {
	steps int // cases left
	level int
	memo  map[[3]any]bool
}

// sameByCases reports whether a and b are equal under f.
func sameByCases(a, b *Term, f *factsT) bool {
	p := &caseProof{steps: 1500, memo: map[[3]any]bool{}}
	return p.same(a, b, f)
}

func (p *caseProof) same(a, b *Term, f *factsT) bool {
	if a == b {
		return true
	}
	key := [3]any{a, b, f}
	if r, ok := p.memo[key]; ok {
		return r
	}
	p.steps--
	if p.steps < 0 || p.level > 60 {
		return false
	}
	p.level++
	r := p.same1(a, b, f) || f.impossible()
	p.level--
	p.memo[key] = r
	return r
}

// impossible reports whether two of the facts contradict each other.
func (f *factsT) impossible() bool {
	for _, t := range f.ge {
		if f.prove(subI(I(-1), t)) {
			return true
		}
	}
	return false
}

// selector is a condition that decides which value a or b takes.
func selector(ts ...*Term) *Term {
	var best *Term
	var atom func(c *Term)
	atom = func(c *Term) {
		if isConnective(c) {
			for _, x := range c.args {
				atom(x)
			}
			return
		}
		if c != tTrue && c != tFalse && (best == nil || atomID(c) < atomID(best)) {
			best = c
		}
	}
	for _, t := range ts {
		switch {
		case t.op == "ite":
			atom(t.args[0])
		case isConnective(t):
			atom(t)
		case t.pk != 0:
			for _, m := range t.monos {
				for _, a := range m.at {
					if a.op == "ite" {
						atom(a.args[0])
					}
				}
			}
		}
	}
	return best
}

func (p *caseProof) same1(a, b *Term, f *factsT) bool {
	if c := selector(a, b); c != nil {
		for _, v := range []*Term{c, not(c)} {
			if f.simp(v) == tFalse {
				continue
			}
			g := f.with(v)
			x, y := normalise(assume(a, c, v == c), g), normalise(assume(b, c, v == c), g)
			if !p.same(x, y, g) {
				return false
			}
		}
		return true
	}
	if isIntLike(a) && isIntLike(b) && a.pk != 'F' && b.pk != 'F' && a.pk != 'R' && b.pk != 'R' {
		if d := subI(a, b); f.prove(d) && f.prove(negP('I', d)) {
			return true
		}
	}
	if a.op != b.op || a.s != b.s || a.pk != b.pk || len(a.args) != len(b.args) {
		return false
	}
	if a.pk != 0 {
		return p.samePoly(a, b, f)
	}
	switch a.op {
	case "ge0", "eq0", "obj", "kv", "mu", "bv", "ba":
		return false
	}
	if !isBinder(a.op) {
		if len(a.args) == 0 {
			return false
		}
		for i := range a.args {
			if !p.same(a.args[i], b.args[i], f) {
				return false
			}
		}
		return true
	}
	for i := range a.args {
		if i != bodyIndex(a.op) && !p.same(a.args[i], b.args[i], f) {
			return false
		}
	}
	k := freshVar("kv", fmt.Sprintf("case%d", p.level))
	g := f.with(ge0(k))
	if !(a.op == "lam" && isConst(a.args[0], 0)) {
		g = g.with(ltI(k, a.args[0]))
	}
	var x, y *Term
	if a.op == "fold" {
		acc := freshVar("mu", fmt.Sprintf("case%d", p.level))
		x, y = openFold(a, k, acc), openFold(b, k, acc)
	} else {
		x, y = openB(a, k), openB(b, k)
	}
	return p.same(normalise(x, g), normalise(y, g), g)
}

// samePoly pairs the terms of two sums that are not in both.
func (p *caseProof) samePoly(a, b *Term, f *factsT) bool {
	key := func(m mono) string {
		s := m.c.String()
		for _, x := range m.at {
			s += fmt.Sprintf(",%d", x.id)
		}
		return s
	}
	in := map[string]bool{}
	for _, m := range b.monos {
		in[key(m)] = true
	}
	var ra, rb []mono
	both := map[string]bool{}
	for _, m := range a.monos {
		if in[key(m)] {
			both[key(m)] = true
		} else {
			ra = append(ra, m)
		}
	}
	for _, m := range b.monos {
		if !both[key(m)] {
			rb = append(rb, m)
		}
	}
	if len(ra) != len(rb) {
		return false
	}
	used := make([]bool, len(rb))
next:
	for _, m := range ra {
		for i, o := range rb {
			if !used[i] && m.c.Cmp(o.c) == 0 && p.sameFactors(m.at, o.at, f) {
				used[i] = true
				continue next
			}
		}
		return false
	}
	return true
}

// sameFactors pairs the factors of two products.
func (p *caseProof) sameFactors(a, b []*Term, f *factsT) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
	var rest []*Term
first:
	for _, x := range a {
		for i, y := range b {
			if !used[i] && x == y {
				used[i] = true
				continue first
			}
		}
		rest = append(rest, x)
	}
next:
	for _, x := range rest {
		for i, y := range b {
			if !used[i] && x.op == y.op && p.same(x, y, f) {
				used[i] = true
				continue next
			}
		}
		return false
	}
	return true
}
