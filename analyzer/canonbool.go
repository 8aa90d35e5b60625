package main

import (
	"math/big"
	"sort"
)

// Conditions built from the same atoms are compared by their truth tables: canonBool rewrites
// a mixed conjunction/disjunction into the irredundant sum of products of its function, which
// depends on the function and the order of the atoms only.

const maxAtoms = 12

type canonBool struct {
	atoms []*Term
	pos   map[*Term]int
}

func mixedConn(t *Term) bool {
	if t.op != "and" && t.op != "or" {
		return false
	}
	for _, x := range t.args {
		if isConnective(x) {
			return true
		}
	}
	return false
}

func (c *canonBool) collect(t *Term) {
	if isConnective(t) && (t.op != "not" || isConnective(t.args[0])) {
		for _, x := range t.args {
			c.collect(x)
		}
		return
	}
	a := c.base(t)
	if _, ok := c.pos[a]; !ok {
		c.pos[a] = len(c.atoms)
		c.atoms = append(c.atoms, a)
	}
}

// base is t or its negation, the same for both.
func (c *canonBool) base(t *Term) *Term {
	if t.op == "not" {
		return t.args[0]
	}
	if x := not(t); x.op != "not" && x.id < t.id {
		return x
	}
	return t
}

// table is the truth table of t, one bit per assignment.
func (c *canonBool) table(t *Term) *big.Int {
	n := uint(1) << len(c.atoms)
	all := new(big.Int).Sub(new(big.Int).Lsh(one, n), one)
	switch {
	case t == tTrue:
		return all
	case t == tFalse:
		return new(big.Int)
	case t.op == "and":
		r := all
		for _, x := range t.args {
			r = new(big.Int).And(r, c.table(x))
		}
		return r
	case t.op == "or":
		r := new(big.Int)
		for _, x := range t.args {
			r = new(big.Int).Or(r, c.table(x))
		}
		return r
	case t.op == "not" && isConnective(t.args[0]):
		return new(big.Int).Xor(all, c.table(t.args[0]))
	}
	a := c.base(t)
	r := c.column(c.pos[a])
	if a != t {
		r = new(big.Int).Xor(all, r)
	}
	return r
}

// column is the truth table of the atom i.
func (c *canonBool) column(i int) *big.Int {
	n := uint(1) << len(c.atoms)
	r := new(big.Int)
	blk := uint(1) << i
	ones := new(big.Int).Sub(new(big.Int).Lsh(one, blk), one)
	for at := blk; at < n; at += 2 * blk {
		r.Or(r, new(big.Int).Lsh(ones, at))
	}
	return r
}

// cof is the truth table f with the atom i set to v.
func (c *canonBool) cof(f *big.Int, i int, v bool) *big.Int {
	col := c.column(i)
	blk := uint(1) << i
	if v {
		x := new(big.Int).And(f, col)
		return new(big.Int).Or(x, new(big.Int).Rsh(x, blk))
	}
	x := new(big.Int).AndNot(f, col)
	return new(big.Int).Or(x, new(big.Int).Lsh(x, blk))
}

// isop is the irredundant sum of products between the truth tables lo and hi (Minato-Morreale).
func (c *canonBool) isop(lo, hi *big.Int, i int) (*Term, *big.Int) {
	n := uint(1) << len(c.atoms)
	all := new(big.Int).Sub(new(big.Int).Lsh(one, n), one)
	if lo.Sign() == 0 {
		return tFalse, new(big.Int)
	}
	if hi.Cmp(all) == 0 {
		return tTrue, all
	}
	l0, l1 := c.cof(lo, i, false), c.cof(lo, i, true)
	h0, h1 := c.cof(hi, i, false), c.cof(hi, i, true)
	t0, f0 := c.isop(new(big.Int).AndNot(l0, h1), h0, i-1)
	t1, f1 := c.isop(new(big.Int).AndNot(l1, h0), h1, i-1)
	rest := new(big.Int).Or(new(big.Int).AndNot(l0, f0), new(big.Int).AndNot(l1, f1))
	ts, fs := c.isop(rest, new(big.Int).And(h0, h1), i-1)
	x := c.column(i)
	f := new(big.Int).Or(fs, new(big.Int).Or(new(big.Int).And(x, f1), new(big.Int).AndNot(f0, x)))
	a := c.atoms[i]
	return or(times(not(a), t0), times(a, t1), ts), f
}

// times distributes the literal a over the products of t.
func times(a, t *Term) *Term {
	if t.op != "or" {
		return and(a, t)
	}
	var xs []*Term
	for _, x := range t.args {
		xs = append(xs, and(a, x))
	}
	return or(xs...)
}

// sumOfProducts is the canonical form of a condition.
func sumOfProducts(t *Term) *Term {
	if !mixedConn(t) {
		return t
	}
	c := &canonBool{pos: map[*Term]int{}}
	c.collect(t)
	if len(c.atoms) > maxAtoms {
		return t
	}
	sort.Slice(c.atoms, func(i, j int) bool { return c.atoms[i].id < c.atoms[j].id })
	for i, a := range c.atoms {
		c.pos[a] = i
	}
	f := c.table(t)
	r, _ := c.isop(f, f, len(c.atoms)-1)
	return r
}

// joinForalls turns universal conditions over the same range in a conjunction into one.
func (n *normer) joinForalls(t *Term, f *factsT) *Term {
	if t.op != "and" {
		return t
	}
	by := map[*Term][]*Term{}
	var order, rest []*Term
	for _, x := range t.args {
		if x.op != "forall" {
			rest = append(rest, x)
			continue
		}
		if by[x.args[0]] == nil {
			order = append(order, x.args[0])
		}
		by[x.args[0]] = append(by[x.args[0]], x)
	}
	joined := false
	for _, c := range order {
		xs := by[c]
		if len(xs) == 1 {
			rest = append(rest, xs[0])
			continue
		}
		joined = true
		k := n.bound(t)
		var bs []*Term
		for _, x := range xs {
			bs = append(bs, openB(x, k))
		}
		delete(n.active, k)
		rest = append(rest, forall(c, k, sumOfProducts(and(bs...))))
	}
	if !joined {
		return t
	}
	return and(rest...)
}
