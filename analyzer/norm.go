package main

import (
	"fmt"
	"sort"
	"strings"
)

// Contextual simplification: every subterm is simplified under the conditions that hold
// where it occurs (guards of case distinctions, ranges of bound variables, sibling
// conjuncts). It turns the value graphs of differently written programs into one form.

type normer struct {
	memo   map[normKey]*Term
	active map[*Term]bool // variables of the enclosing binders
	canon  bool           // conditions as sums of products
	steps  int
	depthD int
	lens   map[*Term]*Term
	inner  *normer // used to compare values at an index
	level  int
}

type normKey struct {
	f *factsT
	t *Term
}

func newNormer() *normer { return &normer{memo: map[normKey]*Term{}, active: map[*Term]bool{}} }

var lastNormer *normer

// normalise simplifies t under the given facts.
func normalise(t *Term, f *factsT) *Term { return newNormer().run(t, f) }

// canonical also puts conditions into a canonical form.
func canonical(t *Term, f *factsT) *Term {
	n := newNormer()
	n.canon = true
	return n.run(t, f)
}

func (n *normer) run(t *Term, f *factsT) *Term {
	lastNormer = n
	for i := 0; i < 4; i++ {
		r := n.norm(t, f)
		if r == t {
			break
		}
		t = r
	}
	return t
}

// equalities solved for a length or a field, found among the facts
func (f *factsT) rewrites() map[*Term]*Term {
	if f.rw != nil {
		return f.rw
	}
	f.rw = map[*Term]*Term{}
	for c := range f.known {
		if c.op == "hit" {
			if p := hitTarget(c); p != nil && p.pk == 0 && !occurs(c.args[1], p) {
				f.rw[p] = c.args[1]
			}
			continue
		}
		if c.op != "eq0" || c.s != "I" {
			continue
		}
		var best *Term
		for _, m := range monosOf('I', c.args[0]) {
			if len(m.at) == 1 && m.c.CmpAbs(one) == 0 && m.at[0].op == "len" {
				if best == nil || m.at[0].id > best.id {
					best = m.at[0]
				}
			}
		}
		if ms := monosOf('I', c.args[0]); best == nil && len(ms) == 2 && plainAtom(ms[0]) && plainAtom(ms[1]) && ms[0].c.Sign() != ms[1].c.Sign() {
			best = ms[0].at[0]
			if ms[1].at[0].id > best.id {
				best = ms[1].at[0]
			}
		}
		if best == nil {
			continue
		}
		s := solveFor(c.args[0], best)
		if s == nil || occurs(s, best) {
			continue
		}
		if o, ok := f.rw[best]; ok && o.id < s.id {
			continue
		}
		f.rw[best] = s
	}
	return f.rw
}

func plainAtom(m mono) bool {
	return len(m.at) == 1 && m.c.CmpAbs(one) == 0 && (m.at[0].op == "init" || m.at[0].op == "app")
}

// hitTarget is the index that the iteration named by a scattered write has.
func hitTarget(c *Term) *Term {
	if p, ok := hitMemo[c]; ok {
		return p
	}
	p := hitTarget1(c)
	hitMemo[c] = p
	return p
}

var hitMemo = map[*Term]*Term{}

func hitTarget1(c *Term) *Term {
	var l func(t *Term) *Term
	l = func(t *Term) *Term {
		if t.op != "lam" {
			return t
		}
		v := freshVar("kv", "h")
		return bindLam(v, l(openB(t, v)))
	}
	p := l(c.args[0])
	p0 := p
	for i := 0; p.op == "lam"; i++ {
		p = openB(p, raw("sk", strings.Repeat("'", i), p0, c.args[1]))
	}
	if p.pk == 'I' {
		// a sum is left alone
		return nil
	}
	return p
}

func occurs(t, x *Term) bool {
	found := false
	collect(t, func(y *Term) bool {
		if y == x {
			found = true
		}
		return !found
	})
	return found
}

// sharedDecision is a condition that several terms of a polynomial depend on.
func sharedDecision(t *Term) *Term {
	if t.pk == 0 {
		return nil
	}
	seen := map[*Term]*Term{}
	for _, m := range t.monos {
		for _, a := range m.at {
			if a.op == "ite" {
				if o, ok := seen[a.args[0]]; ok && o != a {
					return a.args[0]
				}
				seen[a.args[0]] = a
			}
		}
	}
	return nil
}

// freeDecision is a condition on which a whole summand depends and that does not vary with k.
func freeDecision(t, k *Term) *Term {
	ms := t.monos
	if t.pk == 0 {
		ms = []mono{{one, []*Term{t}}}
	}
	var c *Term
	for _, m := range ms {
		for _, a := range m.at {
			if a.op == "ite" && !a.args[0].has(k) {
				c = a.args[0]
			}
		}
	}
	return c
}

func (n *normer) norm(t *Term, f *factsT) *Term {
	if len(t.args) == 0 && t.pk == 0 {
		return t
	}
	f = n.restrict(f, t)
	key := normKey{f, t}
	if r, ok := n.memo[key]; ok {
		return r
	}
	n.steps++
	r := n.norm1(t, f)
	n.memo[key] = r
	return r
}

func (n *normer) norm1(t *Term, f *factsT) *Term {
	if t.pk != 0 {
		changed := false
		for _, m := range t.monos {
			for _, a := range m.at {
				if n.norm(a, f) != a {
					changed = true
				}
			}
		}
		if !changed {
			if c := sharedDecision(t); c != nil {
				return n.norm(ite(c, assume(t, c, true), assume(t, c, false)), f)
			}
			return t
		}
		r := kconst(t.pk, 0)
		for _, m := range t.monos {
			p := kbig(t.pk, m.c)
			for _, a := range m.at {
				p = mulP(t.pk, p, n.norm(a, f))
			}
			r = addP(t.pk, r, p)
		}
		if c := sharedDecision(r); c != nil {
			return n.norm(ite(c, assume(r, c, true), assume(r, c, false)), f)
		}
		return r
	}
	switch t.op {
	case "ite":
		c := f.simp(n.norm(t.args[0], f))
		switch c {
		case tTrue:
			return n.norm(t.args[1], f)
		case tFalse:
			return n.norm(t.args[2], f)
		}
		if c.op == "and" || c.op == "or" {
			d := c.args[0]
			t = raw("ite", "", d, raw("ite", "", assume(c, d, true), t.args[1], t.args[2]), raw("ite", "", assume(c, d, false), t.args[1], t.args[2]))
			return n.norm(t, f)
		}
		a := n.norm(t.args[1], n.with(f, c))
		b := n.norm(t.args[2], n.with(f, not(c)))
		if r := n.mergeEdge(f, c, a, b); r != nil {
			return r
		}
		if r := n.mergeEdge(f, not(c), b, a); r != nil {
			return r
		}
		// decisions are taken in a fixed order
		if d := n.firstDecision(a, b); d != nil && d.id < atomID(c) && n.depthD < 12 {
			n.depthD++
			x := n.norm(raw("ite", "", c, cofactor(a, d, true), cofactor(b, d, true)), n.with(f, d))
			y := n.norm(raw("ite", "", c, cofactor(a, d, false), cofactor(b, d, false)), n.with(f, not(d)))
			n.depthD--
			return ite(d, x, y)
		}
		return ite(c, a, b)
	case "and", "or":
		cur := append([]*Term(nil), t.args...)
		for i := range cur {
			g := f
			for j := range cur {
				if j == i {
					continue
				}
				x := cur[j]
				if t.op == "or" {
					x = not(x)
				}
				if isSimpleCond(x) || t.op == "and" && isLenFact(x) {
					g = n.with(g, x)
				}
			}
			cur[i] = g.simp(n.norm(cur[i], g))
		}
		r := or(cur...)
		if t.op == "and" {
			r = and(cur...)
		}
		if n.canon {
			r = sumOfProducts(n.joinForalls(r, f))
		}
		return r
	case "ge0", "eq0", "not", "eq":
		r := f.simp(rebuild(t, n.normArgs(t, f)))
		if r.op == "ge0" {
			if x := splitBound(r, func(y *Term) bool { return nonnegTerm(y) || f.prove(y) }); x != r {
				return n.norm(x, f)
			}
		}
		return r
	case "forall", "exists", "sum", "vec", "prod", "first":
		cnt := n.norm(t.args[0], f)
		k := n.bound(t)
		body := n.norm(openB(t, k), n.with(f, ltI(k, cnt), ge0(k)))
		delete(n.active, k)
		if c := n.split(f, cnt, k, body); c != nil {
			switch t.op {
			case "forall", "exists", "sum":
				n1 := subst(assume(body, ltI(k, c), true), nil)
				n2 := subst(assume(body, ltI(k, c), false), map[*Term]*Term{k: addI(k, c)})
				switch t.op {
				case "forall":
					return n.norm(and(forall(c, k, n1), forall(subI(cnt, c), k, n2)), f)
				case "exists":
					return n.norm(or(exists(c, k, n1), exists(subI(cnt, c), k, n2)), f)
				}
				return n.norm(addP(t.s[0], sum(t.s[0], c, k, n1), sum(t.s[0], subI(cnt, c), k, n2)), f)
			}
		}
		switch t.op {
		case "forall":
			return f.simp(forall(cnt, k, body))
		case "exists":
			return f.simp(exists(cnt, k, body))
		case "sum":
			if c := freeDecision(body, k); c != nil {
				x := sum(t.s[0], cnt, k, assume(body, c, true))
				y := sum(t.s[0], cnt, k, assume(body, c, false))
				return n.norm(ite(c, x, y), f)
			}
			return sum(t.s[0], cnt, k, body)
		case "vec":
			return mkVec(cnt, k, body)
		}
		return bind(t.op, t.s, cnt, k, body)
	case "build":
		cnt := n.norm(t.args[0], f)
		k := n.bound(t)
		body := n.norm(openB(t, k), n.with(f, ltI(k, cnt), ge0(k)))
		delete(n.active, k)
		return bindBuild(n.norm(t.args[2], f), cnt, k, body)
	case "fold":
		cnt := n.norm(t.args[0], f)
		k := n.bound(t)
		acc := raw("mu", k.s)
		body := n.norm(openFold(t, k, acc), n.with(f, ltI(k, cnt), ge0(k)))
		delete(n.active, k)
		return mkFold(t.s, cnt, n.norm(t.args[1], f), k, acc, body)
	case "hit":
		if h := n.norm(t.args[0], f); h != t.args[0] {
			t = raw("hit", t.s, h, t.args[1])
		}
		return f.simp(t)
	case "lam":
		k := n.bound(t)
		g := n.with(f, ge0(k))
		cnt := n.norm(t.args[0], f)
		if !isConst(t.args[0], 0) {
			g = n.with(f, ge0(k), ltI(k, cnt))
		}
		body := n.norm(openB(t, k), g)
		delete(n.active, k)
		return bind("lam", "", cnt, k, body)
	case "len":
		if r, ok := f.rewrites()[t]; ok {
			return n.norm(r, f)
		}
		a := n.norm(t.args[0], f)
		r := lenOf(a)
		if r.op == "len" {
			if x := f.quantLen(r); x != nil {
				return n.norm(x, f)
			}
		}
		return r
	case "min", "max":
		a, b := n.norm(t.args[0], f), n.norm(t.args[1], f)
		d := subI(a, b)
		if f.prove(d) { // a >= b
			if t.op == "min" {
				return b
			}
			return a
		}
		if f.prove(negP('I', d)) {
			if t.op == "min" {
				return a
			}
			return b
		}
		return minmax(t.op, a, b)
	case "div":
		a, b := n.norm(t.args[0], f), n.norm(t.args[1], f)
		if intrinsicNonneg(a) || f.prove(a) {
			return f.divSym(a, b)
		}
		return divI(a, b)
	case "mod":
		a, b := n.norm(t.args[0], f), n.norm(t.args[1], f)
		if c, ok := constOf(b); ok && c.Sign() > 0 {
			return f.modF(a, c)
		}
		if _, ok := constOf(b); ok {
			return modI(a, b)
		}
		if f.prove(a) {
			return subI(a, mulI(b, f.divSym(a, b)))
		}
		return subI(a, mulI(b, divI(a, b)))
	case "abs":
		a := n.norm(t.args[0], f)
		if f.prove(a) {
			return a
		}
		return raw("abs", "", a)
	}
	r := rebuild(t, n.normArgs(t, f))
	if r.op == "app" || r.op == "init" {
		if x, ok := f.rewrites()[r]; ok {
			return x
		}
		if f.known[r] {
			return tTrue
		}
		if f.known[not(r)] {
			return tFalse
		}
	}
	return r
}

// restrict drops the facts that cannot matter for t, so that results are shared between
// contexts that differ only in such facts.
func (n *normer) restrict(f *factsT, t *Term) *factsT {
	if f.parent == nil {
		return f
	}
	bl := *t.relevance()
	bl.add(tTrue)
	fv := *t.freeVars()
	var chain []*factsT
	for g := f; g.parent != nil; g = g.parent {
		chain = append(chain, g)
	}
	root := chain[len(chain)-1].parent
	in := make([]bool, len(chain))
	for changed := true; changed; {
		changed = false
		for i, g := range chain {
			if in[i] {
				continue
			}
			v := g.fact.freeVars()
			if !v.empty() && !v.meets(&fv) {
				continue
			}
			r := factBits(g.fact)
			if !r.meets(&bl) {
				continue
			}
			in[i] = true
			changed = true
			bl.or(r)
			fv.or(v)
		}
	}
	var keep []*Term
	for i, g := range chain {
		if in[i] {
			keep = append(keep, g.fact)
			continue
		}
		// the range of a variable that does not occur is not empty
		if w := nonEmpty(g.fact); w != nil && factBits(w).meets(&bl) {
			if v := w.freeVars(); v.empty() || v.meets(&fv) {
				keep = append(keep, w)
			}
		}
	}
	sort.Slice(keep, func(i, j int) bool { return keep[i].id < keep[j].id })
	return n.with(root, keep...)
}

// nonEmpty is what the bound k < n of a variable says about n.
func nonEmpty(c *Term) *Term {
	if c.op != "ge0" {
		return nil
	}
	for _, m := range monosOf('I', c.args[0]) {
		if len(m.at) == 1 && m.at[0].op == "kv" && m.c.Sign() < 0 {
			w := ge0(subst(c.args[0], map[*Term]*Term{m.at[0]: I(0)}))
			if w == tTrue || w == tFalse {
				return nil
			}
			return w
		}
	}
	return nil
}

// freeVars is the set of the bound variables that occur free in t.
func (t *Term) freeVars() *bits256 {
	if t.fb != nil {
		return t.fb
	}
	r := &bits256{}
	if t.op == "kv" {
		r.add(t)
	}
	for _, m := range t.monos {
		for _, a := range m.at {
			r.or(a.freeVars())
		}
	}
	for _, a := range t.args {
		r.or(a.freeVars())
	}
	t.fb = r
	return r
}

type bits256 [W]uint64

const W = 32

func (b *bits256) empty() bool { return *b == bits256{} }

func (b *bits256) add(t *Term) { h := uint32(t.id) * 2654435761 >> 21; b[h>>6] |= 1 << (h & 63) }
func (b *bits256) or(o *bits256) {
	for i := range b {
		b[i] |= o[i]
	}
}
func (b *bits256) meets(o *bits256) bool {
	for i := range b {
		if b[i]&o[i] != 0 {
			return true
		}
	}
	return false
}

// addAtoms adds the atoms of an integer term.
func (b *bits256) addAtoms(t *Term) {
	if t.pk == 0 {
		b.add(t)
		return
	}
	for _, m := range t.monos {
		for _, a := range m.at {
			b.add(a)
		}
	}
}

// relevance is the set of conditions and of integer atoms that occur in a term.
func (t *Term) relevance() *bits256 {
	if t.rel != nil {
		return t.rel
	}
	r := &bits256{}
	t.rel = r
	for _, m := range t.monos {
		for _, a := range m.at {
			r.or(a.relevance())
			if t.pk == 'I' {
				r.add(a)
			}
		}
	}
	for _, a := range t.args {
		r.or(a.relevance())
	}
	switch t.op {
	case "ge0", "eq0":
		r.add(t)
		if t.s == "I" || t.op == "ge0" {
			r.addAtoms(t.args[0])
		}
	case "eq", "app", "init", "istype", "has", "hit", "forall", "exists", "not":
		r.add(t)
	case "len":
		r.add(t)
	case "min", "max", "div", "mod", "abs":
		for _, a := range t.args {
			r.addAtoms(a)
		}
	case "ite":
		r.add(t.args[0])
	case "and", "or":
		for _, a := range t.args {
			r.add(a)
		}
	}
	switch t.op {
	case "forall", "exists", "sum", "vec", "prod", "first", "build", "fold", "lam", "vecof":
		r.addAtoms(t.args[0])
	}
	return r
}

// factBits is what a term has to mention for a fact to matter.
func factBits(c *Term) *bits256 {
	if c.op == "not" {
		return factBits(c.args[0])
	}
	if c.op == "forall" {
		r := &bits256{}
		for i := range r {
			r[i] = ^uint64(0)
		}
		return r
	}
	if c.op == "eq0" && c.s != "I" || c.op == "eq" || c.op == "app" {
		r := &bits256{}
		r.add(c)
		r.add(not(c))
		return r
	}
	return c.relevance()
}

// atomID orders the conditions of case distinctions independently of their polarity.
func atomID(c *Term) int {
	if x := not(c); x.op != "not" && x.id < c.id {
		return x.id
	}
	if c.op == "not" {
		return c.args[0].id
	}
	return c.id
}

// firstDecision is the first condition, in the fixed order, of the case distinctions a and b.
func (n *normer) firstDecision(ts ...*Term) *Term {
	var best *Term
	for _, t := range ts {
		if t.op != "ite" {
			continue
		}
		if d := t.args[0]; best == nil || atomID(d) < atomID(best) {
			best = d
		}
	}
	return best
}

// cofactor is the case of t in which the condition d is v.
func cofactor(t, d *Term, v bool) *Term {
	if t.op != "ite" {
		return t
	}
	switch t.args[0] {
	case d:
	case not(d):
		v = !v
	default:
		return t
	}
	if v {
		return t.args[1]
	}
	return t.args[2]
}

func (n *normer) normArgs(t *Term, f *factsT) []*Term {
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = n.norm(a, f)
	}
	return args
}

// bound is a variable for the body of the binder t, named by the height of t so that terms
// are treated alike wherever they occur.
func (n *normer) bound(t *Term) *Term {
	for h := t.h; ; h++ {
		k := raw("kv", fmt.Sprintf("norm%d.%d", n.level, h))
		if !n.active[k] {
			n.active[k] = true
			return k
		}
	}
}

// with extends the facts; equal extensions share one object so that results are reused.
func (n *normer) with(f *factsT, cs ...*Term) *factsT {
	for _, c := range cs {
		if c == tTrue || f.known[c] {
			continue
		}
		if f.ext == nil {
			f.ext = map[*Term]*factsT{}
		}
		g, ok := f.ext[c]
		if !ok {
			g = f.with(c)
			g.parent, g.fact = f, c
			f.ext[c] = g
		}
		f = g
	}
	return f
}

func isSimpleCond(c *Term) bool {
	switch c.op {
	case "ge0", "eq0", "eq", "not", "init":
		return true
	}
	return false
}

// noEdges turns off mergeEdge, for staged comparisons.
var noEdges bool

// mergeEdge drops the case distinction c ? a : b if not-c leaves a single value for some
// index at which a has the value b.
func (n *normer) mergeEdge(f *factsT, c, a, b *Term) *Term {
	if n.level > 1 || noEdges {
		return nil
	}
	if c.op == "not" && c.args[0].op == "eq0" && c.args[0].s == "I" {
		return n.edgeAt(f, c.args[0].args[0], a, b)
	}
	nc := not(c)
	if nc.op != "ge0" {
		return nil
	}
	t := nc.args[0] // t >= 0 and the facts bound it by 0 from above
	if !f.prove(negP('I', t)) {
		return nil
	}
	return n.edgeAt(f, t, a, b)
}

func (n *normer) edgeAt(f *factsT, t, a, b *Term) *Term {
	for _, m := range monosOf('I', t) {
		if len(m.at) != 1 || m.c.CmpAbs(one) != 0 {
			continue
		}
		v := m.at[0]
		s := solveFor(t, v)
		if s == nil || occurs(s, v) {
			continue
		}
		if !occurs(a, v) && !occurs(b, v) {
			continue
		}
		mm := map[*Term]*Term{v: s}
		x, y := subst(a, mm), subst(b, mm)
		if x == y {
			return a
		}
		if n.inner == nil {
			n.inner = newNormer()
			n.inner.level = n.level + 1
		}
		if n.inner.norm(x, f) == n.inner.norm(y, f) {
			return a
		}
	}
	return nil
}

// split finds a threshold 0 < c < cnt at which the body of a quantifier makes a case distinction.
func (n *normer) split(f *factsT, cnt, k, body *Term) *Term {
	var found *Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if found != nil || seen[t] || !t.has(k) {
			return
		}
		seen[t] = true
		if t.op == "ite" && t.args[0].op == "ge0" && t.args[0].has(k) {
			for _, cd := range []*Term{t.args[0], not(t.args[0])} {
				// k < c  <=>  c - k - 1 >= 0
				if cd.op != "ge0" {
					continue
				}
				s := cd.args[0]
				co := big0
				for _, m := range monosOf('I', s) {
					if len(m.at) == 1 && m.at[0] == k {
						co = m.c
					}
				}
				if co.Cmp(minusOne) != 0 {
					continue
				}
				c := addI(addI(s, k), I(1))
				if c.has(k) || isConst(c, 0) {
					continue
				}
				if f.prove(c) && f.prove(subI(cnt, c)) && c != cnt {
					found = c
					return
				}
			}
		}
		for _, m := range t.monos {
			for _, a := range m.at {
				walk(a)
			}
		}
		for _, x := range t.args {
			walk(x)
		}
	}
	walk(body)
	return found
}

var big0 = new(bigInt)

// isLenFact recognises facts about the lengths of all elements of a list.
func isLenFact(c *Term) bool {
	for c.op == "forall" {
		c = c.args[1]
	}
	return c.op == "eq0" && c.s == "I"
}

type quantRw struct {
	vars []*Term
	ns   []*Term
	lhs  *Term
	rhs  *Term
}

func (f *factsT) quantRewrites() []quantRw {
	if f.qrw != nil {
		return *f.qrw
	}
	var out []quantRw
	var cs []*Term
	for c := range f.known {
		if c.op == "forall" && isLenFact(c) {
			cs = append(cs, c)
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, c := range cs {
		var r quantRw
		d := 0
		for c.op == "forall" {
			d++
			v := raw("kv", fmt.Sprintf("qrw%d", d))
			r.vars = append(r.vars, v)
			r.ns = append(r.ns, c.args[0])
			c = openB(c, v)
		}
		for _, m := range monosOf('I', c.args[0]) {
			if len(m.at) == 1 && m.c.CmpAbs(one) == 0 && m.at[0].op == "len" {
				s := solveFor(c.args[0], m.at[0])
				if s == nil {
					continue
				}
				ok := true
				for i, v := range r.vars {
					ok = ok && m.at[0].has(v)
					_ = i
				}
				if ok && !occurs(s, m.at[0]) {
					q := r
					q.lhs, q.rhs = m.at[0], s
					out = append(out, q)
				}
			}
		}
	}
	f.qrw = &out
	return out
}

// quantLen rewrites a length with a fact about all elements of a list.
func (f *factsT) quantLen(t *Term) *Term {
	for _, r := range f.quantRewrites() {
		vs := map[*Term]bool{}
		for _, v := range r.vars {
			vs[v] = true
		}
		b := map[*Term]*Term{}
		if !matchT(r.lhs, t, vs, b) {
			continue
		}
		ok := true
		for i, v := range r.vars {
			x := b[v]
			if x == nil {
				ok = false
				break
			}
			nn := subst(r.ns[i], b)
			if !f.prove(x) || f.simp(ltI(x, nn)) != tTrue {
				ok = false
				break
			}
		}
		if ok {
			return subst(r.rhs, b)
		}
	}
	return nil
}

// matchT matches pattern p with variables vs against t.
func matchT(p, t *Term, vs map[*Term]bool, b map[*Term]*Term) bool {
	if vs[p] {
		if b[p] != nil {
			return b[p] == t
		}
		b[p] = t
		return true
	}
	if p == t {
		return true
	}
	if p.pk != 0 || p.op != t.op || p.s != t.s || len(p.args) != len(t.args) || len(p.args) == 0 {
		return false
	}
	for i := range p.args {
		if !matchT(p.args[i], t.args[i], vs, b) {
			return false
		}
	}
	return true
}
