package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Integer expressions of loop nests over arrays whose length is a power of two: sums of
// c * 2^(linear expression) * (product of loop counters).

// lin is a linear expression c + sum v[x]*x.
type lin struct {
	c int
	v map[string]int
}

func linC(c int) lin { return lin{c: c} }

func (a lin) add(b lin, s int) lin {
	r := lin{c: a.c + s*b.c, v: map[string]int{}}
	for x, k := range a.v {
		r.v[x] = k
	}
	for x, k := range b.v {
		if r.v[x] += s * k; r.v[x] == 0 {
			delete(r.v, x)
		}
	}
	return r
}

func (a lin) vars() string {
	var s []string
	for x, k := range a.v {
		if k != 0 {
			s = append(s, fmt.Sprintf("%+d%s", k, x))
		}
	}
	sort.Strings(s)
	return strings.Join(s, "")
}

func (a lin) String() string { return fmt.Sprintf("%s%+d", a.vars(), a.c) }

// am is a monomial: c * 2^e * product of idx, with c odd (or e without variables and c any).
type am struct {
	c   *big.Int
	e   lin
	idx string // counters, sorted, joined by *
}

func (m am) key() string { return m.e.vars() + "|" + m.idx }

// ax is a sum of monomials.
type ax struct{ m map[string]am }

func axN(n int64) ax { return ax{}.plus(am{c: big.NewInt(n)}) }

func axV(v string) ax { return ax{}.plus(am{c: big.NewInt(1), idx: v}) }

func axPow(e lin) ax { return ax{}.plus(am{c: big.NewInt(1), e: e}) }

// plus adds a monomial.
func (a ax) plus(t am) ax {
	r := ax{map[string]am{}}
	for k, m := range a.m {
		r.m[k] = m
	}
	if o, ok := r.m[t.key()]; ok {
		lo := min(o.e.c, t.e.c)
		c := new(big.Int).Lsh(o.c, uint(o.e.c-lo))
		c.Add(c, new(big.Int).Lsh(t.c, uint(t.e.c-lo)))
		t = am{c: c, e: t.e.add(linC(t.e.c-lo), -1), idx: t.idx}
	}
	if t.c.Sign() == 0 {
		delete(r.m, t.key())
		return r
	}
	z := int(t.c.TrailingZeroBits())
	t.c = new(big.Int).Rsh(t.c, uint(z))
	t.e = t.e.add(linC(z), 1)
	r.m[t.key()] = t
	return r
}

func (a ax) add(b ax) ax {
	for _, m := range b.m {
		a = a.plus(m)
	}
	return a
}

func (a ax) scale(n int64) ax { return a.mul(axN(n)) }

func (a ax) sub(b ax) ax { return a.add(b.scale(-1)) }

func (a ax) mul(b ax) ax {
	r := ax{}
	for _, x := range a.m {
		for _, y := range b.m {
			var idx []string
			for _, s := range []string{x.idx, y.idx} {
				if s != "" {
					idx = append(idx, strings.Split(s, "*")...)
				}
			}
			sort.Strings(idx)
			r = r.plus(am{new(big.Int).Mul(x.c, y.c), x.e.add(y.e, 1), strings.Join(idx, "*")})
		}
	}
	return r
}

func (a ax) eq(b ax) bool { return len(a.sub(b).m) == 0 }

func (a ax) keys() []string {
	var s []string
	for k := range a.m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func (a ax) String() string {
	if len(a.m) == 0 {
		return "0"
	}
	var s []string
	for _, k := range a.keys() {
		m := a.m[k]
		p := []string{}
		c, e := m.c, m.e
		if len(e.v) == 0 && e.c >= 0 {
			c, e = new(big.Int).Lsh(c, uint(e.c)), linC(0)
		}
		if c.Cmp(one) != 0 || m.idx == "" && len(e.v) == 0 {
			p = append(p, c.String())
		}
		if len(e.v) > 0 || e.c != 0 {
			p = append(p, "2^("+strings.TrimPrefix(e.String(), "+")+")")
		}
		if m.idx != "" {
			p = append(p, m.idx)
		}
		s = append(s, strings.Join(p, "*"))
	}
	return strings.Join(s, " + ")
}

// pow2 is the exponent of a that is a power of two.
func (a ax) pow2() (lin, bool) {
	if len(a.m) != 1 {
		return lin{}, false
	}
	for _, m := range a.m {
		if m.idx == "" && m.c.Cmp(one) == 0 {
			return m.e, true
		}
	}
	return lin{}, false
}

// lin is a as a linear expression.
func (a ax) lin() (lin, bool) {
	r := lin{v: map[string]int{}}
	for _, m := range a.m {
		if len(m.e.v) > 0 || m.e.c < 0 || m.e.c > 40 || strings.Contains(m.idx, "*") {
			return lin{}, false
		}
		c := int(new(big.Int).Lsh(m.c, uint(m.e.c)).Int64())
		if m.idx == "" {
			r.c += c
		} else {
			r.v[m.idx] += c
		}
	}
	return r, true
}

func (a lin) ax() ax {
	r := axN(int64(a.c))
	for x, k := range a.v {
		r = r.add(axV(x).scale(int64(k)))
	}
	return r
}

// substV replaces a counter by a value.
func (a ax) substV(v string, by ax) ax {
	r := ax{}
	for _, m := range a.m {
		e := m.e
		t := axN(1)
		if k := e.v[v]; k != 0 {
			l, ok := by.lin()
			if !ok {
				panic(nestErr("exponent " + e.String() + " with " + v + " = " + by.String()))
			}
			d := map[string]int{}
			for x, c := range e.v {
				if x != v {
					d[x] = c
				}
			}
			e = lin{c: e.c, v: d}
			for i := 0; i < max(k, -k); i++ {
				s := 1
				if k < 0 {
					s = -1
				}
				e = e.add(l, s)
			}
		}
		t = ax{}.plus(am{c: m.c, e: e})
		if m.idx != "" {
			for _, x := range strings.Split(m.idx, "*") {
				if x == v {
					t = t.mul(by)
				} else {
					t = t.mul(axV(x))
				}
			}
		}
		r = r.add(t)
	}
	return r
}

func (a ax) has(v string) bool {
	for _, m := range a.m {
		if m.e.v[v] != 0 {
			return true
		}
		for _, x := range strings.Split(m.idx, "*") {
			if x == v {
				return true
			}
		}
	}
	return false
}

// counter is a loop counter with values 0..n-1.
type counter struct {
	name string
	n    ax
}

// scope is what is known about the variables: the enclosing counters, innermost last, and the
// range of the logarithm L of the length.
type scope struct {
	loops  []counter
	lo, hi int // hi < 0: no bound
}

// minLin is a lower bound of a linear expression.
func (s *scope) minLin(l lin) (int, bool) {
	for i := len(s.loops) - 1; i >= 0; i-- {
		c := s.loops[i]
		k := l.v[c.name]
		if k == 0 {
			continue
		}
		r := l.add(lin{v: map[string]int{c.name: k}}, -1)
		if k < 0 {
			n, ok := c.n.lin()
			if !ok {
				return 0, false
			}
			for j := 0; j < -k; j++ {
				r = r.add(n.add(linC(1), -1), -1)
			}
		}
		l = r
	}
	b := l.c
	for x, k := range l.v {
		switch {
		case k == 0:
		case x != "L":
			return 0, false
		case k > 0:
			b += k * s.lo
		case s.hi < 0:
			return 0, false
		default:
			b += k * s.hi
		}
	}
	return b, true
}

// nonneg proves a >= 0.
func (s *scope) nonneg(a ax) bool { return s.nonnegD(a, 0) }

func (s *scope) nonnegD(a ax, depth int) bool {
	if depth > 12 {
		return false
	}
	// counters: the worst case, innermost first
	for i := len(s.loops) - 1; i >= 0; i-- {
		c := s.loops[i]
		pos, neg := ax{}, ax{}
		inExp := false
		for _, m := range a.m {
			n := 0
			for _, x := range strings.Split(m.idx, "*") {
				if x == c.name {
					n++
				}
			}
			if n > 1 {
				return false
			}
			if m.e.v[c.name] != 0 {
				inExp = true
			}
			if n == 1 {
				if m.c.Sign() > 0 {
					pos = pos.plus(m)
				} else {
					neg = neg.plus(m)
				}
			}
		}
		if len(pos.m)+len(neg.m) == 0 || inExp {
			continue
		}
		// linear in the counter: nonnegative at both ends
		at0 := a.substV(c.name, axN(0))
		if len(neg.m) == 0 {
			return s.nonnegD(at0, depth+1)
		}
		atN := a.substV(c.name, c.n.sub(axN(1)))
		if len(pos.m) == 0 {
			return s.nonnegD(atN, depth+1)
		}
		return s.nonnegD(at0, depth+1) && s.nonnegD(atN, depth+1)
	}
	// L itself, and counters of stages
	var negs, poss []am
	rest := ax{}
	for _, k := range a.keys() {
		m := a.m[k]
		if m.idx != "" {
			rest = rest.plus(m)
			continue
		}
		if m.c.Sign() > 0 {
			poss = append(poss, m)
		} else {
			negs = append(negs, m)
		}
	}
	if len(rest.m) > 0 {
		// only linear parts: fold the constants in
		l := rest
		for _, m := range append(append([]am(nil), poss...), negs...) {
			if len(m.e.v) > 0 {
				if m.c.Sign() < 0 {
					return false
				}
				continue // a positive power is at least zero
			}
			l = l.plus(m)
		}
		x, ok := l.lin()
		if !ok {
			return false
		}
		b, ok := s.minLin(x)
		return ok && b >= 0
	}
	// every negative power is covered by positive ones
	for _, n := range negs {
		need := new(big.Int).Neg(n.c) // times 2^n.e
		for i := range poss {
			p := &poss[i]
			if p.c.Sign() == 0 {
				continue
			}
			d, ok := s.minLin(p.e.add(n.e, -1))
			if !ok || d < -60 {
				continue
			}
			// p >= p.c * 2^d * 2^n.e
			if d < 0 {
				q := new(big.Int).Rsh(p.c, uint(-d))
				if q.Cmp(need) < 0 {
					continue
				}
				p.c = new(big.Int)
				need = new(big.Int)
				break
			}
			q := new(big.Int).Lsh(p.c, uint(d))
			if q.Cmp(need) < 0 {
				need.Sub(need, q)
				p.c = new(big.Int)
				continue
			}
			left := q.Sub(q, need)
			need = new(big.Int)
			p.c, p.e = left, n.e
			break
		}
		if need.Sign() > 0 {
			return false
		}
	}
	return true
}

// whole says that the monomial is an integer.
func (s *scope) whole(m am) bool {
	b, ok := s.minLin(m.e)
	return ok && b >= 0
}

// div is the floor of a / 2^l, with the remainder.
func (s *scope) div(a ax, l lin) (q, r ax, ok bool) {
	for _, k := range a.keys() {
		m := a.m[k]
		if t := (am{m.c, m.e.add(l, -1), m.idx}); s.whole(t) {
			q = q.plus(t)
		} else if len(m.e.v) == 0 && len(l.v) == 0 && m.idx == "" && m.e.c >= 0 && l.c >= 0 {
			// a constant
			c := new(big.Int).Lsh(m.c, uint(m.e.c))
			d := new(big.Int).Lsh(one, uint(l.c))
			x, y := new(big.Int).DivMod(c, d, new(big.Int))
			q = q.plus(am{c: x})
			r = r.plus(am{c: y})
		} else {
			r = r.plus(m)
		}
	}
	if s.nonneg(r) && s.nonneg(axPow(l).sub(axN(1)).sub(r)) {
		return q, r, true
	}
	return q, r, false
}

// nestErr is what the analysis of loop nests stops with.
type nestErr string
