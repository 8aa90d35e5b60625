package main

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// store is one (possibly quantified and guarded) effect in the abstract memory.
type store struct {
	q     []qv // quantified loop variables
	root  *Term
	path  string // access path below root; '#' stands for the next index
	idx   []*Term
	val   *Term
	guard *Term
	pat   *store // the same store with reserved variables
}

// pattern renames the quantified variables of s to variables that occur nowhere else.
func (s *store) pattern() *store {
	if len(s.q) == 0 {
		return s
	}
	if s.pat != nil {
		return s.pat
	}
	m := map[*Term]*Term{}
	p := &store{path: s.path}
	for i, x := range s.q {
		v := raw("kv", "pat"+strconv.Itoa(i))
		p.q = append(p.q, qv{v, subst(x.n, m)})
		m[x.v] = v
	}
	p.root = subst(s.root, m)
	for _, x := range s.idx {
		p.idx = append(p.idx, subst(x, m))
	}
	p.val, p.guard = subst(s.val, m), subst(s.guard, m)
	s.pat = p
	return p
}

type qv struct{ v, n *Term }

type node struct {
	prev *node
	st   *store
	n    int
}

func (n *node) depth() int {
	if n == nil {
		return 0
	}
	return n.n
}

type plist struct {
	prev *plist
	c    *Term
	n    int
	pc   bool // path condition (as opposed to background fact)
	np   bool // condition without which the code before panics
}

func (p *plist) depth() int {
	if p == nil {
		return 0
	}
	return p.n
}

// State is the abstract state at a program point.
type State struct {
	log   *node
	facts *plist
	dead  bool
	left  bool // dead because control went elsewhere, not because of a panic
}

// omega stands for an unknown (unbounded) extent of a loop variable.
var omega = raw("omega", "")

func inRange(t, n *Term) *Term {
	if n == omega {
		return tTrue
	}
	return and(ge0(t), ltI(t, n))
}

func (s *State) fork() *State { c := *s; return &c }

func (s *State) push(st *store) {
	s.log = &node{prev: s.log, st: st, n: s.log.depth() + 1}
}

// assume adds a path condition.
func (s *State) assume(c *Term) { s.addFact(c, true) }

// require adds a condition without which the code panics.
func (s *State) require(c *Term) {
	if c != tTrue {
		s.facts = &plist{prev: s.facts, c: c, n: s.facts.depth() + 1, np: true}
	}
}

func (s *State) addFact(c *Term, pc bool) {
	if c == tTrue {
		return
	}
	s.facts = &plist{prev: s.facts, c: c, n: s.facts.depth() + 1, pc: pc}
}

func factSet(p *plist) *factsT {
	if f, ok := factCache[p]; ok {
		return f
	}
	f := &factsT{known: map[*Term]bool{}, loc: map[*plist]bool{}}
	for q := p; q != nil; q = q.prev {
		f.add(q.c)
	}
	factCache[p] = f
	return f
}

var factCache = map[*plist]*factsT{}

type factsT struct {
	known map[*Term]bool // true facts
	ge    []*Term        // t with t >= 0
	loc   map[*plist]bool
	memo  map[*Term]*Term
	rw    map[*Term]*Term
	ext   map[*Term]*factsT
	qrw   *[]quantRw
	pm    map[proveKey]bool

	parent *factsT // what this extends
	fact   *Term
}

func (f *factsT) add(c *Term) {
	if c.op == "and" {
		for _, x := range c.args {
			f.add(x)
		}
		return
	}
	f.known[c] = true
	switch c.op {
	case "ge0":
		f.ge = append(f.ge, c.args[0])
	case "eq0":
		if c.s == "I" {
			f.ge = append(f.ge, c.args[0], negP('I', c.args[0]))
		}
	}
}

func (f *factsT) with(cs ...*Term) *factsT {
	g := &factsT{known: map[*Term]bool{}}
	for k := range f.known {
		g.known[k] = true
	}
	g.ge = append(g.ge, f.ge...)
	for _, c := range cs {
		g.add(c)
	}
	return g
}

// prove reports whether t >= 0 follows from the facts (linear, bounded search).
func (f *factsT) prove(t *Term) bool { return f.proveD(t, 4) }

type proveKey struct {
	t *Term
	d int
}

func (f *factsT) proveD(t *Term, d int) bool {
	if intrinsicNonneg(t) {
		return true
	}
	if c, ok := constOf(t); ok {
		return c.Sign() >= 0
	}
	if d == 0 {
		return false
	}
	k := proveKey{t, d}
	if r, ok := f.pm[k]; ok {
		return r
	}
	r := f.prove1(t, d)
	if f.pm == nil {
		f.pm = map[proveKey]bool{}
	}
	f.pm[k] = r
	return r
}

func (f *factsT) prove1(t *Term, d int) bool {
	// integer division atoms: 0 <= x - c*div(x,c) <= c-1
	var extra []*Term
	for _, m := range monosOf('I', t) {
		if len(m.at) <= 2 {
			for _, a := range m.at {
				extra = append(extra, atomFacts(a)...)
				if a.op == "mod" && d > 1 && !nonnegAtom(a) && f.proveD(a.args[0], d-1) {
					extra = append(extra, a)
				}
			}
		}
	}
	// a nonnegative common factor
	if ms := monosOf('I', t); len(ms) > 1 && d > 1 && len(ms[0].at) > 0 {
		for _, a := range ms[0].at {
			if !nonnegAtom(a) {
				continue
			}
			if u, ok := polyDiv(t, a); ok && f.proveD(u, d-1) {
				return true
			}
		}
	}
	for _, m := range monosOf('I', t) {
		if m.c.Sign() > 0 && !(len(m.at) == 0) {
			allNN := true
			for _, a := range m.at {
				allNN = allNN && nonnegAtom(a)
			}
			if allNN && d < 4 {
				continue
			}
		}
		if len(m.at) == 0 {
			continue
		}
		try := func(g *Term) bool {
			for _, gm := range monosOf('I', g) {
				if !sameAtoms(gm.at, m.at) {
					continue
				}
				if gm.c.Sign() != m.c.Sign() {
					continue
				}
				q, r := new(big.Int).QuoRem(m.c, gm.c, new(big.Int))
				if q.Sign() <= 0 || r.Sign() != 0 {
					continue
				}
				if f.proveD(subI(t, scaleP('I', g, q)), d-1) {
					return true
				}
			}
			return false
		}
		for _, g := range f.ge {
			if try(g) {
				return true
			}
		}
		for _, g := range extra {
			if try(g) {
				return true
			}
		}
		// t' - div(x, c) >= 0 if c*t' + c - 1 - x >= 0
		if len(m.at) == 1 && m.c.Cmp(minusOne) == 0 && m.at[0].op == "div" {
			c := m.at[0].args[1]
			u := mulI(addI(t, m.at[0]), c)
			u = addI(subI(u, m.at[0].args[0]), subI(c, I(1)))
			if f.proveD(u, d-1) {
				return true
			}
		}
		// products of facts: nonnegative atom times a fact
		if len(m.at) == 2 && d >= 3 {
			for i, a := range m.at {
				if !nonnegAtom(a) || i > 0 && m.at[0] == m.at[1] {
					continue
				}
				o := m.at[1-i]
				for _, g := range f.ge {
					if !mentions1(g, o, m.c.Sign()) {
						continue
					}
					q := new(big.Int).Abs(m.c)
					if f.proveD(subI(t, scaleP('I', mulI(a, g), q)), d-1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// mentions1 reports whether g has the linear monomial sign*o.
func mentions1(g, o *Term, sign int) bool {
	for _, m := range monosOf('I', g) {
		if len(m.at) == 1 && m.at[0] == o && m.c.CmpAbs(one) == 0 && m.c.Sign() == sign {
			return true
		}
	}
	return false
}

func atomFacts(a *Term) []*Term {
	switch a.op {
	case "div":
		c := a.args[1]
		r := subI(a.args[0], mulI(a, c))
		return []*Term{r, subI(subI(c, I(1)), r)}
	case "mod":
		return []*Term{subI(subI(a.args[1], a), I(1)), addI(a, subI(a.args[1], I(1)))}
	case "min":
		return []*Term{subI(a.args[0], a), subI(a.args[1], a)}
	case "max":
		return []*Term{subI(a, a.args[0]), subI(a, a.args[1])}
	}
	return nil
}

// simp simplifies a condition under the facts.
func (f *factsT) simp(c *Term) *Term {
	switch c.op {
	case "true", "false":
		return c
	}
	if f.memo == nil {
		f.memo = map[*Term]*Term{}
	}
	if r, ok := f.memo[c]; ok {
		return r
	}
	r := f.simp1(c)
	f.memo[c] = r
	return r
}

func (f *factsT) simp1(c *Term) *Term {
	if f.known[c] {
		return tTrue
	}
	n := not(c)
	if f.known[n] || n == tTrue {
		return tFalse
	}
	switch c.op {
	case "and", "or":
		xs := make([]*Term, len(c.args))
		for i, x := range c.args {
			xs[i] = f.simp(x)
		}
		if c.op == "and" {
			return and(xs...)
		}
		return or(xs...)
	case "not":
		return not(f.simp(c.args[0]))
	case "hit":
		// no element satisfies what is known about the index
		if x := c.args[1]; len(x.args) == 0 || x.pk != 'I' {
			if p := hitTarget(c); p != nil {
				m := map[*Term]*Term{x: p}
				for _, g := range f.ge {
					if g.has(x) && ge0(subst(g, m)) == tFalse {
						return tFalse
					}
				}
			}
		}
	case "ge0":
		if f.prove(c.args[0]) {
			return tTrue
		}
		if n.op == "ge0" && f.prove(n.args[0]) {
			return tFalse
		}
	case "eq":
		for i, x := range c.args {
			if o := c.args[1-i]; f.known[x] {
				return f.simp(o)
			} else if nx := not(x); f.known[nx] {
				return not(f.simp(o))
			}
		}
	case "eq0":
		if c.s == "I" {
			t := c.args[0]
			if f.prove(subI(t, I(1))) || f.prove(subI(negP('I', t), I(1))) {
				return tFalse
			}
			pos, neg := f.prove(t), f.prove(negP('I', t))
			switch {
			case pos && neg:
				return tTrue
			case neg: // t <= 0: t == 0 iff t >= 0
				return ge0(t)
			case pos:
				return ge0(negP('I', t))
			}
		}
	}
	return c
}

func (s *State) fs() *factsT { return factSet(s.facts) }

func (s *State) simp(c *Term) *Term { return s.fs().simp(c) }

// simpT simplifies gated values under the facts.
func (s *State) simpT(t *Term) *Term {
	f := s.fs()
	for t.op == "ite" {
		switch f.simp(t.args[0]) {
		case tTrue:
			t = t.args[1]
		case tFalse:
			t = t.args[2]
		default:
			return t
		}
	}
	return t
}

// ---------- unification of access paths ----------

type binding map[*Term]*Term

// unify matches pattern p (with quantified variables in q) against the target t.
// It returns the conditions under which they are equal, or ok=false if they cannot be.
func unify(f *factsT, p, t *Term, q map[*Term]*Term, b binding, conds *[]*Term) bool {
	p = subst(p, b)
	if p == t {
		return true
	}
	if isIntLike(p) && isIntLike(t) && differenceOfWitnesses(subI(p, t)) {
		return false
	}
	if !hasAny(p, q) {
		if isRefLike(p) && isRefLike(t) && p.op == t.op && p.s == t.s && len(p.args) == len(t.args) && p.op == "obj" {
			for i := range p.args {
				if !unify(f, p.args[i], t.args[i], q, b, conds) {
					return false
				}
			}
			return true
		}
		var c *Term
		if isIntLike(p) || isIntLike(t) {
			c = f.simp(eq0('I', subI(p, t)))
		} else if isRefLike(p) || isRefLike(t) {
			if !structMay(p, t) {
				return false
			}
			ok := len(p.args) == len(t.args) && p.op == t.op && p.s == t.s
			if !ok {
				return false
			}
			for i := range p.args {
				if !unify(f, p.args[i], t.args[i], q, b, conds) {
					return false
				}
			}
			return true
		} else {
			c = f.simp(eqT(p, t, 0))
		}
		if c == tFalse {
			return false
		}
		*conds = append(*conds, c)
		return true
	}
	if n, ok := q[p]; ok && p.op == "kv" {
		if b[p] == nil {
			b[p] = t
			c := f.simp(inRange(t, subst(n, b)))
			if c == tFalse {
				return false
			}
			*conds = append(*conds, c)
			return true
		}
	}
	if p.pk == 'I' {
		return unifyAffine(f, p, t, q, b, conds)
	}
	if p.op == t.op && p.s == t.s && len(p.args) == len(t.args) && len(p.args) > 0 {
		for i := range p.args {
			if !unify(f, p.args[i], t.args[i], q, b, conds) {
				return false
			}
		}
		return true
	}
	if isRefLike(p) && isRefLike(t) {
		return false
	}
	return scatter(p, t, q, b, conds)
}

func bindLam(v, p *Term) *Term     { return bind("lam", "", I(0), v, p) }
func bindLamN(n, v, p *Term) *Term { return bind("lam", "", n, v, p) }

func unifyAffine(f *factsT, p, t *Term, q map[*Term]*Term, b binding, conds *[]*Term) bool {
	type lin struct {
		v *Term
		c *big.Int
	}
	var vs []lin
	rest := I(0)
	for _, m := range p.monos {
		if len(m.at) == 1 {
			if _, ok := q[m.at[0]]; ok {
				vs = append(vs, lin{m.at[0], m.c})
				continue
			}
		}
		for _, a := range m.at {
			if hasAny(a, q) {
				// symbolic coefficient times a loop variable
				return unifySym(f, p, t, q, b, conds)
			}
		}
		rest = addI(rest, mkPoly('I', []mono{m}))
	}
	// largest coefficient first
	for i := range vs {
		for j := i + 1; j < len(vs); j++ {
			if vs[j].c.CmpAbs(vs[i].c) > 0 {
				vs[i], vs[j] = vs[j], vs[i]
			}
		}
	}
	r := subI(t, rest)
	for i, l := range vs {
		c := l.c
		var v *Term
		if i == len(vs)-1 {
			if c.CmpAbs(one) == 0 {
				v = scaleP('I', r, c)
			} else {
				rr := r
				cc := new(big.Int).Abs(c)
				if c.Sign() < 0 {
					rr = negP('I', r)
				}
				e, ok := exactDiv(rr, cc)
				if ok {
					v = e
				} else {
					md := f.simp(eq0('I', f.modF(rr, cc)))
					if md == tFalse {
						return false
					}
					*conds = append(*conds, md)
					v = f.divF(rr, cc)
				}
			}
		} else {
			if c.Sign() < 0 {
				return unifySym(f, p, t, q, b, conds)
			}
			v = f.divF(r, c)
			r = subI(r, scaleP('I', v, c))
		}
		b[l.v] = v
		cd := f.simp(inRange(v, subst(q[l.v], b)))
		if cd == tFalse {
			return false
		}
		*conds = append(*conds, cd)
	}
	return true
}

// unifySym handles p = c*v + rest with a symbolic coefficient c.
func unifySym(f *factsT, p, t *Term, q map[*Term]*Term, b binding, conds *[]*Term) bool {
	// same shape: p and t agree as polynomials in different variables
	var vs []*Term
	for v := range q {
		if p.has(v) && b[v] == nil {
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	for _, v := range vs {
		n := q[v]
		// p = c*v + rest, with c, rest free of v
		c, rest := I(0), I(0)
		ok := true
		for _, m := range p.monos {
			cnt := 0
			var others []*Term
			for _, a := range m.at {
				if a == v {
					cnt++
				} else {
					if a.has(v) {
						ok = false
					}
					others = append(others, a)
				}
			}
			switch cnt {
			case 0:
				rest = addI(rest, mkPoly('I', []mono{m}))
			case 1:
				c = addI(c, mkPoly('I', []mono{{m.c, others}}))
			default:
				ok = false
			}
		}
		if !ok {
			continue
		}
		d := subI(t, rest)
		if quo, exact := polyDiv(d, c); exact && !hasUnbound(d, q, b) {
			b[v] = quo
			cd := f.simp(inRange(quo, subst(n, b)))
			if cd == tFalse {
				return false
			}
			*conds = append(*conds, cd)
			return unify(f, p, t, q, b, conds)
		}
		// rows of length c: p = c*v + w with 0 <= w < c
		for _, w := range vs {
			if w == v {
				continue
			}
			rest0 := subI(rest, w)
			nw := subst(q[w], b)
			if hasUnbound(rest0, q, b) || hasUnbound(nw, q, b) {
				continue
			}
			// p = c*v + (rest0 + w) where the offset is below c, or p = (c*v + rest0) + w
			lo, hi := rest0, addI(rest0, subI(nw, I(1)))
			base := I(0)
			if !f.prove(lo) || !f.prove(subI(subI(c, I(1)), hi)) {
				if nw != c && !f.prove(subI(c, nw)) {
					continue
				}
				base = rest0
			}
			d := subI(t, base)
			quo := f.divSym(d, c)
			rw := subI(subI(d, mulI(c, quo)), subI(rest0, base))
			b[v], b[w] = quo, rw
			cds := []*Term{ge0(d), inRange(quo, subst(n, b))}
			if nw != c || base != rest0 {
				cds = append(cds, inRange(rw, nw))
			}
			for _, cd := range cds {
				cd = f.simp(cd)
				if cd == tFalse {
					return false
				}
				*conds = append(*conds, cd)
			}
			return true
		}
	}
	return scatter(p, t, q, b, conds)
}

// scatter handles an index p that is no invertible function of the loop variables: the write
// may have hit t; the iterations that did are named by choice terms, and p is t there.
func scatter(p, t *Term, q map[*Term]*Term, b binding, conds *[]*Term) bool {
	var vs []*Term
	for v := range q {
		if p.has(v) && b[v] == nil {
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	// inner loops are bound inside outer ones
	for i := range vs {
		for j := i + 1; j < len(vs); j++ {
			if q[vs[i]].has(vs[j]) {
				vs[i], vs[j] = vs[j], vs[i]
				j = i
			}
		}
	}
	if isIntLike(p) && isIntLike(t) {
		rest := I(0)
		for _, m := range monosOf('I', p) {
			x := mkPoly('I', []mono{m})
			if !hasUnbound(x, q, b) {
				rest = addI(rest, x)
			}
		}
		p, t = subI(p, rest), subI(t, rest)
		if ms := monosOf('I', p); len(ms) > 0 && ms[0].c.Sign() < 0 {
			p, t = negP('I', p), negP('I', t)
		}
	}
	l, h := p, p
	for i := len(vs) - 1; i >= 0; i-- {
		l = bindLam(vs[i], l)
		h = bindLamN(subst(q[vs[i]], b), vs[i], h)
	}
	if hasUnbound(l, q, b) || hasUnbound(h, q, b) {
		return true
	}
	for i, v := range vs {
		b[v] = raw("sk", strings.Repeat("'", i), l, t)
	}
	if len(vs) > 0 {
		*conds = append(*conds, raw("hit", "", h, t))
		b[subst(p, b)] = t
	}
	return true
}

// polyDiv divides d by c as polynomials when c is a single monomial.
func polyDiv(d, c *Term) (*Term, bool) {
	cm := monosOf('I', c)
	if len(cm) != 1 {
		return nil, false
	}
	var out []mono
	for _, m := range monosOf('I', d) {
		q, r := new(big.Int).QuoRem(m.c, cm[0].c, new(big.Int))
		if r.Sign() != 0 {
			return nil, false
		}
		rest := append([]*Term(nil), m.at...)
		for _, a := range cm[0].at {
			found := false
			for i, x := range rest {
				if x == a {
					rest = append(rest[:i:i], rest[i+1:]...)
					found = true
					break
				}
			}
			if !found {
				return nil, false
			}
		}
		out = append(out, mono{q, rest})
	}
	return mkPoly('I', out), true
}

// divF and modF divide by a positive constant, using the facts.
func (f *factsT) divF(t *Term, c *big.Int) *Term {
	if c.Cmp(one) == 0 {
		return t
	}
	var q, r []mono
	for _, m := range monosOf('I', t) {
		quo, rem := new(big.Int).QuoRem(m.c, c, new(big.Int))
		if rem.Sign() == 0 {
			q = append(q, mono{quo, m.at})
		} else {
			r = append(r, m)
		}
	}
	rest := mkPoly('I', r)
	if f.prove(rest) && f.prove(subI(kbig('I', new(big.Int).Sub(c, one)), rest)) {
		return mkPoly('I', q)
	}
	if f.prove(rest) && len(q) > 0 {
		return addI(mkPoly('I', q), divI(rest, kbig('I', c)))
	}
	return divI(t, kbig('I', c))
}

// divSym divides by a positive term.
func (f *factsT) divSym(t, c *Term) *Term {
	if k, ok := constOf(c); ok && k.Sign() > 0 {
		return f.divF(t, k)
	}
	if len(monosOf('I', c)) == 1 {
		q, r := I(0), I(0)
		for _, m := range monosOf('I', t) {
			p := mkPoly('I', []mono{m})
			if x, ok := polyDiv(p, c); ok {
				q = addI(q, x)
			} else {
				r = addI(r, p)
			}
		}
		if f.prove(r) && f.prove(subI(subI(c, r), I(1))) {
			return q
		}
	}
	return divI(t, c)
}

func (f *factsT) modF(t *Term, c *big.Int) *Term {
	d := f.divF(t, c)
	if d.op != "div" {
		return subI(t, scaleP('I', d, c))
	}
	return modI(t, kbig('I', c))
}

// hasUnbound reports whether t mentions a pattern variable without a value.
func hasUnbound(t *Term, q map[*Term]*Term, b binding) bool {
	for _, v := range t.fv {
		if _, ok := q[v]; ok && b[v] == nil {
			return true
		}
	}
	return false
}

func hasAny(t *Term, q map[*Term]*Term) bool {
	for _, v := range t.fv {
		if _, ok := q[v]; ok {
			return true
		}
	}
	return false
}

func isIntLike(t *Term) bool {
	switch t.op {
	case "len", "kv", "div", "mod", "trip", "first", "shr":
		return true
	}
	return t.pk == 'I'
}

func isRefLike(t *Term) bool {
	switch t.op {
	case "obj", "in", "ptr", "global", "nil", "slice":
		return true
	case "init":
		return refInit[t]
	}
	return false
}

// refInit records which initial values are references.
var refInit = map[*Term]bool{}

// structMay reports whether two references may be equal under our no-alias assumption:
// distinct symbolic roots are distinct objects.
func structMay(p, t *Term) bool {
	return p.op == t.op && p.s == t.s
}

// splitPath returns the number of index placeholders in a path.
func nIdx(path string) int { return strings.Count(path, "#") }

// simpAssume simplifies v under the condition c.
func (s *State) simpAssume(v, c *Term) *Term {
	if v == nil || c == tTrue {
		return v
	}
	return assume(v, c, true)
}
