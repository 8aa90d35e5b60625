package main

import (
	"math/big"
	"strings"
)

type bigInt = big.Int

// Value-level constructors: structs, slices, pointers, polynomials.

func mkPtr(base *Term, path string, idx ...*Term) *Term {
	if path == "" {
		return base
	}
	if base.op == "ptr" {
		return raw("ptr", base.s+path, append(append([]*Term{base.args[0]}, base.args[1:]...), idx...)...)
	}
	return raw("ptr", path, append([]*Term{base}, idx...)...)
}

func mkSlice(arr, off, n *Term) *Term {
	if isConst(off, 0) && arr.op != "obj" && arr.op != "ptr" && n == lenOf(arr) && arr.op != "obj" && arr.op != "ptr" {
		return arr
	}
	return raw("slice", "", arr, off, n)
}

var lenOverride = map[*Term]*Term{}

func lenOf(s *Term) *Term {
	switch s.op {
	case "slice":
		return s.args[2]
	case "nil":
		return I(0)
	case "ite":
		return ite(s.args[0], lenOf(s.args[1]), lenOf(s.args[2]))
	case "append":
		return addI(lenOf(s.args[0]), I(int64(len(s.args)-1)))
	case "concat":
		return addI(lenOf(s.args[0]), lenOf(s.args[1]))
	case "build":
		return addI(lenOf(s.args[2]), s.args[0])
	case "vec":
		return s.args[0]
	case "str":
		return I(int64(len(s.s)))
	}
	if o, ok := lenOverride[s]; ok {
		return o
	}
	if s.op == "ptr" && strings.HasSuffix(s.s, ".Coeffs[#]") {
		return app("ring.N") // every row of a ring element has one entry per coefficient
	}
	for _, p := range lenPatterns {
		b := map[*Term]*Term{}
		if matchVars(p.lhs, s, p.vars, b) {
			return subst(p.rhs, b)
		}
	}
	return raw("len", "", s)
}

// lenPatterns are assumed lengths of the slices inside inputs, for all values of vars.
var lenPatterns []lenPattern

type lenPattern struct {
	vars     map[*Term]bool
	lhs, rhs *Term
}

// matchVars matches t against the pattern p.
func matchVars(p, t *Term, vars map[*Term]bool, b map[*Term]*Term) bool {
	if vars[p] {
		if o, ok := b[p]; ok {
			return o == t
		}
		b[p] = t
		return true
	}
	if p == t {
		return true
	}
	if p.op != t.op || p.s != t.s || p.pk != 0 || t.pk != 0 || len(p.args) != len(t.args) || len(p.args) == 0 {
		return false
	}
	for i := range p.args {
		if !matchVars(p.args[i], t.args[i], vars, b) {
			return false
		}
	}
	return true
}

// bindBuild is init ++ [body(k) : k in 0..n-1].
func bindBuild(init, n, k, body *Term) *Term {
	h := body.h + 1
	b := rename(body, map[*Term]*Term{k: bvar(h)})
	for b.h+1 != h {
		h = b.h + 1
		b = rename(body, map[*Term]*Term{k: bvar(h)})
	}
	t := raw("build", "", n, b, init)
	if t.h < h {
		t.h = h
	}
	return t
}

// mkVec is the vector [body(k) : k in 0..n-1].
func mkVec(n, k, body *Term) *Term {
	if body.op == "at" && body.args[1] == k && !body.args[0].has(k) {
		return raw("vecof", "", n, body.args[0])
	}
	return bind("vec", "", n, k, body)
}

func structT(name string, fields []string, vals []*Term) *Term {
	return raw("struct", name+":"+strings.Join(fields, ","), vals...)
}

func structFields(t *Term) []string {
	i := strings.LastIndexByte(t.s, ':')
	if t.s[i+1:] == "" {
		return nil
	}
	return strings.Split(t.s[i+1:], ",")
}

func projT(t *Term, f string) *Term {
	switch t.op {
	case "struct":
		for i, g := range structFields(t) {
			if g == f {
				return t.args[i]
			}
		}
	case "ite":
		return ite(t.args[0], projT(t.args[1], f), projT(t.args[2], f))
	}
	return raw("proj", f, t)
}

// ---------- field elements ----------

func embF(k byte, t *Term) *Term {
	if c, ok := constOf(t); ok {
		return kbig(k, c)
	}
	return raw("emb", string(k), t)
}

func invF(t *Term) *Term {
	if isConst(t, 1) {
		return t
	}
	return raw("inv", "", t)
}

// ---------- polynomials over the witness field ----------
//
// The value of a polynomial P is represented by an 'F' normal form over scalar atoms and
// polynomial atoms. coef(N,P,j) is the j-th point value, coef(C,P,j) the j-th coefficient.

func isPolyAtom(t *Term) bool {
	switch t.op {
	case "polN", "polC", "quo", "rem":
		return true
	case "ite":
		return isPolyAtom2(t.args[1]) || isPolyAtom2(t.args[2])
	case "fold", "sum":
		return containsPoly(t)
	}
	return false
}

func isPolyAtom2(t *Term) bool {
	if t.pk == 'F' {
		for _, m := range t.monos {
			for _, a := range m.at {
				if isPolyAtom(a) {
					return true
				}
			}
		}
		return false
	}
	return isPolyAtom(t)
}

var cpMemo = map[*Term]bool{}

func containsPoly(t *Term) bool {
	if r, ok := cpMemo[t]; ok {
		return r
	}
	r := false
	switch t.op {
	case "polN", "polC", "quo", "rem":
		r = true
	case "coef", "ev", "at", "init", "app":
		r = false
	default:
		for _, m := range t.monos {
			for _, a := range m.at {
				r = r || containsPoly(a)
			}
		}
		for _, a := range t.args {
			r = r || containsPoly(a)
		}
	}
	cpMemo[t] = r
	return r
}

// coefT is the j-th point value (dom N) or coefficient (dom C) of P.
func coefT(dom string, p, j *Term) *Term {
	if dom == "N" {
		return mapPoly(p, func(a *Term) *Term {
			if a.op == "polN" {
				return elemAt(a.args[0], j)
			}
			return raw("coef", "N", a, j)
		})
	}
	// coefficients: linear in the polynomial part
	res := kconst('F', 0)
	for _, m := range monosOf('F', p) {
		var sc, po []*Term
		for _, a := range m.at {
			if isPolyAtom(a) {
				po = append(po, a)
			} else {
				sc = append(sc, a)
			}
		}
		var c *Term
		switch {
		case len(po) == 0:
			c = ite(eq0('I', j), kconst('F', 1), kconst('F', 0))
		case len(po) == 1 && po[0].op == "polC":
			c = elemAt(po[0].args[0], j)
		default:
			c = raw("coef", "C", mkPoly('F', []mono{{one, po}}), j)
		}
		res = addP('F', res, mulP('F', mkPoly('F', []mono{{m.c, sc}}), c))
	}
	return res
}

// elemAt is the j-th entry of a vector term.
func elemAt(v, j *Term) *Term {
	switch v.op {
	case "vec":
		return openB(v, j)
	case "vecof":
		return raw("at", "", v.args[1], j)
	}
	return raw("at", "", v, j)
}

// mapPoly applies f to every polynomial atom of p, keeping scalars.
func mapPoly(p *Term, f func(*Term) *Term) *Term {
	switch {
	case p.pk == 'F':
		res := kconst('F', 0)
		for _, m := range p.monos {
			x := kbig('F', m.c)
			for _, a := range m.at {
				x = mulP('F', x, mapPoly(a, f))
			}
			res = addP('F', res, x)
		}
		return res
	case !isPolyAtom(p):
		return p
	case p.op == "ite":
		return ite(p.args[0], mapPoly(p.args[1], f), mapPoly(p.args[2], f))
	case p.op == "fold":
		k, acc := freshVar("kv", "e"), freshVar("mu", "e")
		body := mapPoly(openFold(p, k, acc), f)
		return mkFold(p.s, p.args[0], mapPoly(p.args[1], f), k, acc, body)
	case p.op == "sum":
		k := freshVar("kv", "e")
		return sum('F', p.args[0], k, mapPoly(openB(p, k), f))
	}
	return f(p)
}

// evalAt is P(x); a ring homomorphism on the polynomial part.
func evalAt(p, x *Term) *Term {
	return mapPoly(p, func(a *Term) *Term { return raw("ev", "", a, x) })
}

// polyOf abstracts the vector [e(j) : j < n] to the polynomial that has it as point values
// (dom N) or coefficients (dom C).
func polyOf(dom string, n, j, e *Term) *Term {
	if dom == "N" {
		m := map[*Term]*Term{}
		collect(e, func(t *Term) bool {
			if t.op == "coef" && t.s == "N" && t.args[1] == j && !t.args[0].has(j) {
				m[t] = t.args[0]
				return false
			}
			return t.has(j)
		})
		r := subst(e, m)
		if !r.has(j) {
			return r
		}
		// vectors that stand for themselves
		m2 := map[*Term]*Term{}
		collect(r, func(t *Term) bool {
			if t.pk == 0 && t.has(j) && isVectorAtom(t, j) {
				m2[t] = raw("polN", "", mkVec(n, j, t))
				return false
			}
			return t.has(j)
		})
		r2 := subst(r, m2)
		if !r2.has(j) {
			return r2
		}
		return raw("polN", "", mkVec(n, j, e))
	}
	// coefficients: additive split
	res := kconst('F', 0)
	rest := kconst('F', 0)
	for _, m := range monosOf('F', e) {
		var sc, dep []*Term
		for _, a := range m.at {
			if a.has(j) {
				dep = append(dep, a)
			} else {
				sc = append(sc, a)
			}
		}
		if len(dep) == 1 && dep[0].op == "coef" && dep[0].s == "C" && dep[0].args[1] == j && !dep[0].args[0].has(j) {
			res = addP('F', res, mulP('F', mkPoly('F', []mono{{m.c, sc}}), dep[0].args[0]))
		} else {
			rest = addP('F', rest, mkPoly('F', []mono{m}))
		}
	}
	if !isConst(rest, 0) {
		c := big1(rest)
		res = addP('F', res, scaleP('F', raw("polC", "", mkVec(n, j, scaleP('F', rest, c))), c))
	}
	return res
}

// isVectorAtom reports whether t is an elementary j-indexed value (no field arithmetic inside).
func isVectorAtom(t, j *Term) bool {
	switch t.op {
	case "init", "at", "app", "coef":
		return true
	}
	return false
}

// collect walks t; f returns false to stop descending.
func collect(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, m := range t.monos {
			for _, a := range m.at {
				walk(a)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
}

// ---------- ring polynomials (RNS, NTT and Montgomery representation) ----------

// mkRep is the value v held in a representation "m,n": v*R^m, in NTT form iff n is 't'.
func mkRep(tag string, v *Term) *Term {
	if v.pk == 'R' && len(v.monos) == 0 {
		return v
	}
	return raw("rep", tag, v)
}

// big1 is the sign normalisation factor of a polynomial.
func big1(t *Term) *bigInt {
	ms := monosOf('F', t)
	if ms[len(ms)-1].c.Sign() < 0 {
		return minusOne
	}
	return one
}
