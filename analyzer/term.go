package main

import (
	"fmt"
	"math/big"
	"slices"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed node of the value graph. Two values the analysis can prove equal are
// the same *Term.
//
// kind 'p' nodes are polynomials (ints, field elements or ring elements) in normal form.
type Term struct {
	id   int
	op   string
	s    string
	args []*Term

	pk    byte // polynomial kind: 'I', 'F', 'R' (0 if not a polynomial)
	monos []mono

	h   int     // binder height
	fv  []*Term // free loop variables / accumulators, sorted by id
	rel *bits256
	fb  *bits256
	typ any // optional go/types.Type, not part of identity
}

type mono struct {
	c  *big.Int
	at []*Term // atoms sorted by id, with repetition
}

var (
	cons   = map[string]*Term{}
	nextID = 1
)

func intern(key string, mk func() *Term) *Term {
	if t, ok := cons[key]; ok {
		return t
	}
	t := mk()
	t.id = nextID
	nextID++
	cons[key] = t
	return t
}

func mergeFV(a, b []*Term) []*Term {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	out := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].id < b[j].id):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j].id < a[i].id:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

// raw creates a node without simplification.
func raw(op, s string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(s)
	for _, a := range args {
		if a == nil {
			panic("nil arg to " + op + " " + s)
		}
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	return intern(sb.String(), func() *Term {
		t := &Term{op: op, s: s, args: append([]*Term(nil), args...)}
		for _, a := range args {
			t.fv = mergeFV(t.fv, a.fv)
			if a.h > t.h {
				t.h = a.h
			}
		}
		if op == "kv" || op == "mu" {
			t.fv = []*Term{t}
		}
		if isBinder(op) {
			t.h = max(t.h, args[bodyIndex(op)].h+1)
		}
		return t
	})
}

func init() {
	// fix fv of variables: raw() sets fv before id is assigned, which is fine because fv holds pointers.
}

var uniq int

func freshVar(op, hint string) *Term {
	uniq++
	t := raw(op, fmt.Sprintf("%s#%d", hint, uniq))
	return t
}

func (t *Term) has(v *Term) bool {
	for _, f := range t.fv {
		if f == v {
			return true
		}
	}
	return false
}

// ---------- polynomials ----------

func polyKey(k byte, ms []mono) string {
	b := append(make([]byte, 0, 16+24*len(ms)), "poly"...)
	b = append(b, k)
	for _, m := range ms {
		b = append(b, '+')
		if m.c.IsInt64() {
			b = strconv.AppendInt(b, m.c.Int64(), 36)
		} else {
			b = m.c.Append(b, 36)
		}
		for _, a := range m.at {
			b = append(b, '*')
			b = strconv.AppendInt(b, int64(a.id), 36)
		}
	}
	return string(b)
}

func monoKey(at []*Term) string {
	b := make([]byte, 0, 8*len(at))
	for _, a := range at {
		b = append(b, '*')
		b = strconv.AppendInt(b, int64(a.id), 36)
	}
	return string(b)
}

func sameAtoms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func mkPoly(k byte, ms []mono) *Term {
	// normalise: combine, drop zero, sort
	acc := map[string]*mono{}
	var keys []string
	for _, m := range ms {
		key := monoKey(m.at)
		if e, ok := acc[key]; ok {
			e.c = new(big.Int).Add(e.c, m.c)
		} else {
			acc[key] = &mono{c: m.c, at: m.at}
			keys = append(keys, key)
		}
	}
	var out []mono
	for _, key := range keys {
		if acc[key].c.Sign() != 0 {
			out = append(out, *acc[key])
		}
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i].at, out[j].at
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		for x := range a {
			if a[x].id != b[x].id {
				return a[x].id < b[x].id
			}
		}
		return false
	})
	return internPoly(k, out)
}

// internPoly builds a polynomial from combined, sorted monomials.
func internPoly(k byte, out []mono) *Term {
	if len(out) == 1 && len(out[0].at) == 1 && out[0].c.Cmp(one) == 0 {
		return out[0].at[0]
	}
	return intern(polyKey(k, out), func() *Term {
		t := &Term{op: "poly", s: string(k), pk: k, monos: out}
		for _, m := range out {
			for _, a := range m.at {
				t.fv = mergeFV(t.fv, a.fv)
				if a.h > t.h {
					t.h = a.h
				}
			}
		}
		return t
	})
}

var one = big.NewInt(1)
var minusOne = big.NewInt(-1)

// tZero is the content of a fresh numeric object of unknown kind.
var tZero = raw("zero!", "")

// fixZero gives the zeroes of a gated value the kind k.
func fixZero(t *Term, k byte) *Term {
	switch {
	case t == tZero:
		return kconst(k, 0)
	case t.op == "ite":
		a, b := fixZero(t.args[1], k), fixZero(t.args[2], k)
		if a != t.args[1] || b != t.args[2] {
			return ite(t.args[0], a, b)
		}
	}
	return t
}

func monosOf(k byte, t *Term) []mono {
	if t == tZero {
		return nil
	}
	if t.pk == k {
		return t.monos
	}
	return []mono{{one, []*Term{t}}}
}

func kconst(k byte, n int64) *Term {
	if n == 0 {
		return mkPoly(k, nil)
	}
	return mkPoly(k, []mono{{big.NewInt(n), nil}})
}

func kbig(k byte, n *big.Int) *Term {
	if n.Sign() == 0 {
		return mkPoly(k, nil)
	}
	return mkPoly(k, []mono{{n, nil}})
}

func I(n int64) *Term { return kconst('I', n) }

// constOf returns the constant value of a polynomial term.
func constOf(t *Term) (*big.Int, bool) {
	if t.pk == 0 {
		return nil, false
	}
	switch len(t.monos) {
	case 0:
		return new(big.Int), true
	case 1:
		if len(t.monos[0].at) == 0 {
			return t.monos[0].c, true
		}
	}
	return nil, false
}

func isConst(t *Term, n int64) bool {
	c, ok := constOf(t)
	return ok && c.IsInt64() && c.Int64() == n
}

func addP(k byte, a, b *Term) *Term {
	x, y := monosOf(k, a), monosOf(k, b)
	out := make([]mono, 0, len(x)+len(y))
	for len(x) > 0 && len(y) > 0 {
		switch c := cmpAtoms(x[0].at, y[0].at); {
		case c < 0:
			out = append(out, x[0])
			x = x[1:]
		case c > 0:
			out = append(out, y[0])
			y = y[1:]
		default:
			if s := new(big.Int).Add(x[0].c, y[0].c); s.Sign() != 0 {
				out = append(out, mono{s, x[0].at})
			}
			x, y = x[1:], y[1:]
		}
	}
	out = append(append(out, x...), y...)
	return internPoly(k, out)
}

func cmpAtoms(a, b []*Term) int {
	if len(a) != len(b) {
		return len(a) - len(b)
	}
	for x := range a {
		if a[x] != b[x] {
			return a[x].id - b[x].id
		}
	}
	return 0
}

func scaleP(k byte, a *Term, c *big.Int) *Term {
	if c.Sign() == 0 {
		return mkPoly(k, nil)
	}
	x := monosOf(k, a)
	ms := make([]mono, len(x))
	for i, m := range x {
		ms[i] = mono{new(big.Int).Mul(m.c, c), m.at}
	}
	return internPoly(k, ms)
}

func negP(k byte, a *Term) *Term { return scaleP(k, a, minusOne) }

func subP(k byte, a, b *Term) *Term { return addP(k, a, negP(k, b)) }

func mulP(k byte, a, b *Term) *Term {
	var ms []mono
	for _, x := range monosOf(k, a) {
		for _, y := range monosOf(k, b) {
			at := make([]*Term, 0, len(x.at)+len(y.at))
			at = append(at, x.at...)
			at = append(at, y.at...)
			at = mergePow(at)
			if k == 'R' {
				at = cancelAtoms(at)
			}
			sort.Slice(at, func(i, j int) bool { return at[i].id < at[j].id })
			ms = append(ms, mono{new(big.Int).Mul(x.c, y.c), at})
		}
	}
	return mkPoly(k, ms)
}

// mergePow joins the powers of equal bases in a product.
func mergePow(at []*Term) []*Term {
	any := false
	for _, a := range at {
		any = any || a.op == "pow"
	}
	if !any {
		return at
	}
	exp := map[*Term]*Term{}
	for _, a := range at {
		if a.op == "pow" {
			if exp[a.args[0]] == nil {
				exp[a.args[0]] = I(0)
			}
			exp[a.args[0]] = addI(exp[a.args[0]], a.args[1])
		}
	}
	var out []*Term
	for _, a := range at {
		if exp[a] != nil {
			exp[a] = addI(exp[a], I(1))
		} else if a.op != "pow" {
			out = append(out, a)
		}
	}
	for _, a := range at {
		b := a
		if a.op == "pow" {
			b = a.args[0]
		}
		if e := exp[b]; e != nil {
			delete(exp, b)
			p := powT(b, e)
			switch {
			case p.pk == 0:
				out = append(out, p)
			case len(p.monos) == 1 && p.monos[0].c.Cmp(one) == 0:
				out = append(out, p.monos[0].at...)
			default:
				out = append(out, raw("pow", "", b, e))
			}
		}
	}
	return out
}

func addI(a, b *Term) *Term { return addP('I', a, b) }
func subI(a, b *Term) *Term { return subP('I', a, b) }
func mulI(a, b *Term) *Term { return mulP('I', a, b) }

// divI is truncated division of (assumed) nonnegative integers.
func divI(a, b *Term) *Term {
	ca, oka := constOf(a)
	cb, okb := constOf(b)
	if oka && okb && cb.Sign() != 0 {
		return kbig('I', new(big.Int).Quo(ca, cb))
	}
	if okb && cb.Sign() > 0 {
		if cb.Cmp(one) == 0 {
			return a
		}
		// split off the part that is divisible
		var q, r []mono
		for _, m := range monosOf('I', a) {
			quo, rem := new(big.Int).DivMod(m.c, cb, new(big.Int))
			if len(m.at) == 0 {
				q = append(q, mono{quo, nil})
				if rem.Sign() != 0 {
					r = append(r, mono{rem, nil})
				}
			} else if rem.Sign() == 0 {
				q = append(q, mono{quo, m.at})
			} else {
				r = append(r, m)
			}
		}
		rest := mkPoly('I', r)
		if c, ok := constOf(rest); ok && c.Sign() >= 0 && c.Cmp(cb) < 0 {
			return mkPoly('I', q)
		}
		if len(q) > 0 && intrinsicNonneg(rest) {
			return addI(mkPoly('I', q), raw("div", "", rest, b))
		}
	}
	return raw("div", "", a, b)
}

func exactDiv(a *Term, c *big.Int) (*Term, bool) {
	var ms []mono
	for _, m := range monosOf('I', a) {
		q, r := new(big.Int).QuoRem(m.c, c, new(big.Int))
		if r.Sign() != 0 {
			return nil, false
		}
		ms = append(ms, mono{q, m.at})
	}
	return mkPoly('I', ms), true
}

func modI(a, b *Term) *Term {
	ca, oka := constOf(a)
	cb, okb := constOf(b)
	if oka && okb && cb.Sign() != 0 {
		return kbig('I', new(big.Int).Rem(ca, cb))
	}
	if okb && cb.Sign() > 0 {
		if _, ok := exactDiv(a, cb); ok {
			return I(0)
		}
	}
	return raw("mod", "", a, b)
}

// ---------- booleans ----------

var (
	tTrue  = raw("true", "")
	tFalse = raw("false", "")
	tNil   = raw("nil", "")
)

func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func not(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	case "ge0":
		// !(t >= 0)  <=>  -t-1 >= 0
		return ge0(subI(negP('I', a.args[0]), I(1)))
	case "and":
		var xs []*Term
		for _, x := range a.args {
			xs = append(xs, not(x))
		}
		return or(xs...)
	case "or":
		var xs []*Term
		for _, x := range a.args {
			xs = append(xs, not(x))
		}
		return and(xs...)
	case "forall", "exists":
		op := "exists"
		if a.op == "exists" {
			op = "forall"
		}
		if b := not(a.args[1]); b.h == a.args[1].h {
			return raw(op, a.s, a.args[0], b)
		}
		k := freshVar("kv", "n")
		return bind(op, a.s, a.args[0], k, not(openB(a, k)))
	}
	return raw("not", "", a)
}

func nary(op string, unit, zero *Term, xs []*Term) *Term {
	set := map[*Term]bool{}
	var flat []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if !set[x] {
			set[x] = true
			flat = append(flat, x)
		}
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	for _, x := range flat {
		if set[not(x)] {
			return zero
		}
	}
	// absorption and unit resolution
	dual := "or"
	if op == "or" {
		dual = "and"
	}
	for i, x := range flat {
		if x.op != dual {
			continue
		}
		var rest []*Term
		drop := false
		for _, y := range x.args {
			if set[y] {
				drop = true
				break
			}
			if !set[not(y)] {
				rest = append(rest, y)
			}
		}
		if drop || len(rest) != len(x.args) {
			var ys []*Term
			ys = append(ys, flat[:i]...)
			ys = append(ys, flat[i+1:]...)
			if !drop {
				ys = append(ys, nary(dual, zero, unit, rest))
			}
			return nary(op, unit, zero, ys)
		}
	}
	// (x and y) or (x and not y) is x
	if len(flat) <= 24 {
		for i, x := range flat {
			for j := i + 1; j < len(flat) && x.op == dual; j++ {
				y := flat[j]
				if y.op != dual || len(y.args) != len(x.args) {
					continue
				}
				var rest []*Term
				var other *Term
				for _, a := range x.args {
					if slices.Contains(y.args, a) {
						rest = append(rest, a)
					} else if other == nil && slices.Contains(y.args, not(a)) {
						other = a
					} else {
						rest = nil
						break
					}
				}
				if other != nil && len(rest) == len(x.args)-1 {
					ys := append(append(append([]*Term(nil), flat[:i]...), flat[i+1:j]...), flat[j+1:]...)
					return nary(op, unit, zero, append(ys, nary(dual, zero, unit, rest)))
				}
			}
		}
	}
	switch len(flat) {
	case 0:
		return unit
	case 1:
		return flat[0]
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].id < flat[j].id })
	return raw(op, "", flat...)
}

func and(xs ...*Term) *Term { return nary("and", tTrue, tFalse, xs) }
func or(xs ...*Term) *Term  { return nary("or", tFalse, tTrue, xs) }

// ge0 is the condition t >= 0 over integers.
func ge0(t *Term) *Term {
	if c, ok := constOf(t); ok {
		return boolT(c.Sign() >= 0)
	}
	// divide by the gcd of the non-constant coefficients, rounding the constant down
	g := new(big.Int)
	var c *big.Int
	for _, m := range monosOf('I', t) {
		if len(m.at) == 0 {
			c = m.c
			continue
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
	}
	if g.Cmp(one) > 0 {
		var ms []mono
		for _, m := range monosOf('I', t) {
			if len(m.at) == 0 {
				continue
			}
			ms = append(ms, mono{new(big.Int).Quo(m.c, g), m.at})
		}
		if c != nil {
			q := new(big.Int)
			q.Div(c, g) // floor for positive g (Euclidean)
			ms = append(ms, mono{q, nil})
		}
		t = mkPoly('I', ms)
	}
	if b, ok := witnessBound(t); ok {
		return boolT(b)
	}
	if c != nil && len(t.monos) == 2 {
		// a random 64-bit number is below 2^64
		for _, m := range t.monos {
			if len(m.at) == 1 && m.at[0].op == "app" && m.at[0].s == "draw:Sample" {
				two64 := new(big.Int).Lsh(one, 64)
				if m.c.Cmp(one) == 0 && new(big.Int).Add(c, two64).Sign() <= 0 {
					return tFalse
				}
				if m.c.Cmp(big.NewInt(-1)) == 0 && new(big.Int).Add(c, one).Cmp(two64) >= 0 {
					return tTrue
				}
			}
		}
	}
	if intrinsicNonneg(t) {
		return tTrue
	}
	if x, c, k, up := drawQuotient(t); x != nil {
		// x/c >= k is x >= k c, and x/c <= k is x < (k+1) c
		if up {
			return ge0(subI(x, kbig('I', k.Mul(k, c))))
		}
		return not(ge0(subI(x, kbig('I', new(big.Int).Mul(k.Add(k, one), c)))))
	}
	return raw("ge0", "", t)
}

// splitBound states a bound on a minimum, a maximum or a quotient as bounds on its parts.
func splitBound(c *Term, nonneg func(*Term) bool) *Term {
	t := c.args[0]
	for _, m := range t.monos {
		if len(m.at) != 1 || m.c.CmpAbs(one) != 0 {
			continue
		}
		a, up := m.at[0], m.c.Sign() > 0
		rest := subI(t, mkPoly('I', []mono{m}))
		switch {
		case a.op == "min" || a.op == "max":
			x := ge0(addI(rest, scaleP('I', a.args[0], m.c)))
			y := ge0(addI(rest, scaleP('I', a.args[1], m.c)))
			if (a.op == "min") == up {
				return and(x, y)
			}
			return or(x, y)
		case a.op == "div" && notConst(a.args[1]) && len(a.args[0].fv) == 0 && !dividesBy(rest, a.args[1]) && nonneg(a.args[0]) && nonneg(a.args[1]):
			// n/d >= k is n >= k d
			if up {
				return ge0(addI(a.args[0], mulI(a.args[1], rest)))
			}
			return not(ge0(subI(a.args[0], mulI(a.args[1], addI(rest, I(1))))))
		}
	}
	return c
}

// dividesBy reports whether a sum has a quotient by d.
func dividesBy(t, d *Term) bool {
	for _, m := range monosOf('I', t) {
		for _, a := range m.at {
			if a.op == "div" && a.args[1] == d {
				return true
			}
		}
	}
	return false
}

// notConst reports whether a term is not a constant.
func notConst(t *Term) bool {
	_, ok := constOf(t)
	return !ok
}

// drawQuotient recognises d/c - k (up) and k - d/c, for a random 64-bit number d.
func drawQuotient(t *Term) (x *Term, c, k *big.Int, up bool) {
	k = new(big.Int)
	for _, m := range monosOf('I', t) {
		switch {
		case len(m.at) == 0:
			k.Set(m.c)
		case x == nil && len(m.at) == 1 && m.at[0].op == "div" && new(big.Int).Abs(m.c).Cmp(one) == 0:
			d := m.at[0]
			cc, ok := constOf(d.args[1])
			if !ok || cc.Sign() <= 0 || d.args[0].op != "app" || d.args[0].s != "draw:Sample" {
				return nil, nil, nil, false
			}
			x, c, up = d.args[0], cc, m.c.Sign() > 0
		default:
			return nil, nil, nil, false
		}
	}
	if up {
		k.Neg(k)
	}
	return
}

// eq0 is the condition t == 0 for a polynomial of kind k.
// soleAtom is the atom t consists of, up to sign.
func soleAtom(t *Term) *Term {
	if t.pk != 'I' {
		return t
	}
	if len(t.monos) == 1 && len(t.monos[0].at) == 1 && t.monos[0].c.CmpAbs(one) == 0 {
		return t.monos[0].at[0]
	}
	return nil
}

// shiftedBit is s where t is 1<<s.
func shiftedBit(t *Term) *Term {
	if a := soleAtom(t); a != nil && a.op == "shl" && isConst(a.args[0], 1) {
		return a.args[1]
	}
	if c, ok := constOf(t); ok && c.Sign() > 0 && c.TrailingZeroBits()+1 == uint(c.BitLen()) {
		return I(int64(c.BitLen() - 1))
	}
	return nil
}

func eq0(k byte, t *Term) *Term {
	if c, ok := constOf(t); ok {
		return boolT(c.Sign() == 0)
	}
	ms := monosOf(k, t)
	// canonical sign
	if ms[len(ms)-1].c.Sign() < 0 {
		t = negP(k, t)
	}
	if k == 'I' {
		if a := soleAtom(t); a != nil && a.op == "app" && a.s == "&" {
			// one bit of a number
			for i, x := range a.args {
				if s := shiftedBit(x); s != nil {
					return eq0('I', modI(shrI(a.args[1-i], s), I(2)))
				}
			}
		}
		if differenceOfWitnesses(t) {
			return tFalse
		}
		// a sum of nonnegative terms and a positive constant is never zero
		if intrinsicNonneg(subI(t, I(1))) || intrinsicNonneg(subI(negP('I', t), I(1))) {
			return tFalse
		}
		if x, _, _, _ := drawQuotient(t); x != nil {
			return and(ge0(t), ge0(negP('I', t)))
		}
		if p, sh := parity(t); p != nil {
			// a parity is decided by one comparison
			if sh.Sign() == 0 {
				return not(ge0(subI(p, I(1))))
			}
			if sh.IsInt64() && sh.Int64() == -1 {
				return ge0(subI(p, I(1)))
			}
			return tFalse
		}
	}
	return raw("eq0", string(k), t)
}

// parity splits t into a value known to be 0 or 1 and a constant.
func parity(t *Term) (*Term, *big.Int) {
	c := new(big.Int)
	var p *Term
	for _, m := range monosOf('I', t) {
		switch {
		case len(m.at) == 0:
			c = m.c
		case p == nil && len(m.at) == 1 && m.c.IsInt64() && m.c.Int64() == 1 && m.at[0].op == "mod" && m.at[0].args[1] == I(2) && nonnegAtom(m.at[0]):
			p = m.at[0]
		default:
			return nil, nil
		}
	}
	return p, c
}

func ltI(a, b *Term) *Term { return ge0(subI(subI(b, a), I(1))) }
func leI(a, b *Term) *Term { return ge0(subI(b, a)) }

func nonnegAtom(a *Term) bool {
	switch a.op {
	case "len", "kv", "trip", "first", "maplen", "uint", "count", "sk":
		return true
	case "div", "mod", "shr":
		return nonnegTerm(a.args[0])
	case "mapkey":
		return a.s == "u"
	case "app":
		return nonnegApp[a.s]
	case "init":
		return a.s != "" && nonnegInit(a)
	case "max":
		return nonnegTerm(a.args[0]) || nonnegTerm(a.args[1])
	case "min":
		return nonnegTerm(a.args[0]) && nonnegTerm(a.args[1])
	case "ite":
		return nonnegTerm(a.args[1]) && nonnegTerm(a.args[2])
	}
	return false
}

var nonnegApp = map[string]bool{}

func nonnegInit(a *Term) bool {
	return nonnegInitHook != nil && nonnegInitHook(a)
}

var nonnegInitHook func(*Term) bool

func nonnegTerm(t *Term) bool { return intrinsicNonneg(t) }

func intrinsicNonneg(t *Term) bool {
	if t.pk == 0 {
		return nonnegAtom(t)
	}
	for _, m := range t.monos {
		if m.c.Sign() < 0 {
			return false
		}
		for _, a := range m.at {
			if !nonnegAtom(a) {
				return false
			}
		}
	}
	return true
}

// ---------- equality, ite ----------

func nonNil(t *Term) bool {
	switch t.op {
	case "obj", "ptr", "slice", "closure", "err", "struct", "build", "append":
		return true
	case "app":
		return strings.HasPrefix(t.s, "fresh:")
	}
	return false
}

func eqT(a, b *Term, k byte) *Term {
	if a == b {
		return tTrue
	}
	if k != 0 {
		return eq0(k, subP(k, a, b))
	}
	if a == tNil && nonNil(b) || b == tNil && nonNil(a) {
		return tFalse
	}
	if a.op == "ite" {
		return iteB(a.args[0], eqT(a.args[1], b, k), eqT(a.args[2], b, k))
	}
	if b.op == "ite" {
		return iteB(b.args[0], eqT(b.args[1], a, k), eqT(b.args[2], a, k))
	}
	if a.op == "str" && b.op == "str" {
		return tFalse
	}
	if isBoolT(a) || isBoolT(b) {
		return or(and(a, b), and(not(a), not(b)))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return raw("eq", "", a, b)
}

func isBoolT(t *Term) bool {
	switch t.op {
	case "true", "false", "not", "and", "or", "ge0", "eq0", "eq", "forall", "exists":
		return true
	}
	return false
}

func iteB(c, a, b *Term) *Term { return or(and(c, a), and(not(c), b)) }

// ite is the gated merge of two values.
func ite(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if isBoolT(a) || isBoolT(b) {
		return iteB(c, a, b)
	}
	if c.op == "not" {
		return ite(c.args[0], b, a)
	}
	if c.op == "ge0" {
		// canonical polarity of integer comparisons
		n := not(c)
		if n.op == "ge0" && n.id < c.id {
			return ite(n, b, a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if c.op == "ge0" && (a.pk == 0 || a.pk == 'I') && (b.pk == 0 || b.pk == 'I') {
		// selections of the larger or the smaller value
		if d := addP('I', c.args[0], subI(b, a)); isConst(d, 0) || isConst(d, -1) {
			return minmax("max", a, b)
		}
		if d := addP('I', c.args[0], subI(a, b)); isConst(d, 0) || isConst(d, -1) {
			return minmax("min", a, b)
		}
	}
	k := a.pk
	if k == 0 {
		k = b.pk
	}
	if k != 0 && (a.pk == k || b.pk == k) {
		// pull common monomials out
		ma, mb := monosOf(k, a), monosOf(k, b)
		idx := map[string]*big.Int{}
		for _, m := range ma {
			idx[monoKey(m.at)] = m.c
		}
		var common []mono
		for _, m := range mb {
			if c2, ok := idx[monoKey(m.at)]; ok && c2.Cmp(m.c) == 0 {
				common = append(common, m)
			}
		}
		if len(common) > 0 {
			cm := mkPoly(k, common)
			ra, rb := subP(k, a, cm), subP(k, b, cm)
			return addP(k, cm, ite(c, ra, rb))
		}
		// and common factors
		if k == 'F' && len(ma) > 0 && len(mb) > 0 {
			var cf []*Term
			for _, x := range dedupTerms(ma[0].at) {
				n := -1
				for _, m := range append(append([]mono(nil), ma...), mb...) {
					j := 0
					for _, y := range m.at {
						if y == x {
							j++
						}
					}
					if n < 0 || j < n {
						n = j
					}
				}
				for ; n > 0; n-- {
					cf = append(cf, x)
				}
			}
			if len(cf) > 0 {
				f := mkPoly(k, []mono{{one, cf}})
				return mulP(k, f, ite(c, dropFactor(k, ma, cf), dropFactor(k, mb, cf)))
			}
		}
		if ms := monosOf(k, b); k == 'I' && len(ms) > 0 && len(ms[0].at) == 0 {
			kb := kbig(k, ms[0].c)
			return addP(k, kb, raw("ite", "", c, subP(k, a, kb), subP(k, b, kb)))
		}
	}
	// absorb/rep style operators: push through equal heads with a single differing argument
	if a.op == b.op && a.s == b.s && len(a.args) == len(b.args) && a.op == "struct" {
		args := make([]*Term, len(a.args))
		for i := range args {
			args[i] = ite(c, a.args[i], b.args[i])
		}
		return raw(a.op, a.s, args...)
	}
	// one fold or stream with a different start
	if a.op == "fold" && b.op == "fold" && a.s == b.s && a.args[0] == b.args[0] && a.args[2] == b.args[2] {
		t := raw("fold", a.s, a.args[0], ite(c, a.args[1], b.args[1]), a.args[2])
		if h := foldHeight(t); t.h < h {
			t.h = h
		}
		return t
	}
	if a.op == "cat" && len(a.args) == 0 && b == tNil || b.op == "cat" && len(b.args) == 0 && a == tNil {
		return catT()
	}
	if a.op == "cat" && b.op == "cat" {
		n := 0
		for n < len(a.args) && n < len(b.args) && a.args[len(a.args)-1-n] == b.args[len(b.args)-1-n] {
			n++
		}
		if n > 0 {
			x, y := a.args[:len(a.args)-n], b.args[:len(b.args)-n]
			return catT(append([]*Term{ite(c, catT(x...), catT(y...))}, a.args[len(a.args)-n:]...)...)
		}
	}
	return raw("ite", "", c, a, b)
}

// ---------- binders ----------

func bvar(h int) *Term { return raw("bv", strconv.Itoa(h)) }
func bacc(h int) *Term { return raw("ba", strconv.Itoa(h)) }

func withHeight(t *Term, h int) *Term {
	t.h = h
	return t
}

// bind closes body over the loop variable k.
func bind(op, s string, n *Term, k, body *Term) *Term {
	h := body.h + 1
	b := rename(body, map[*Term]*Term{k: bvar(h)})
	for b.h+1 != h {
		h = b.h + 1
		b = rename(body, map[*Term]*Term{k: bvar(h)})
	}
	t := raw(op, s, n, b)
	if t.h < h {
		t.h = h
	}
	return t
}

func binderHeight(t *Term) int {
	// height of the bound variable used by t (body height + 1)
	switch t.op {
	case "fold":
		return max(t.args[2].h, 0) + 1
	}
	return t.args[1].h + 1
}

// open instantiates the body of a binder.
func openB(t *Term, v *Term) *Term {
	h := binderHeight(t)
	m := map[*Term]*Term{bvar(h): v}
	if v.op == "kv" && !t.args[1].has(v) {
		return rename(t.args[1], m)
	}
	return subst(t.args[1], m)
}

func forall(n, k, body *Term) *Term {
	if body == tTrue {
		return tTrue
	}
	if isConst(n, 0) {
		return tTrue
	}
	if isConst(n, 1) {
		return subst(body, map[*Term]*Term{k: I(0)})
	}
	if !body.has(k) {
		return or(eq0('I', n), body)
	}
	if body.op == "and" {
		var xs []*Term
		for _, x := range body.args {
			xs = append(xs, forall(n, k, x))
		}
		return and(xs...)
	}
	if body.op == "or" {
		var in, out []*Term
		for _, x := range body.args {
			if x.has(k) {
				in = append(in, x)
			} else {
				out = append(out, x)
			}
		}
		if len(out) > 0 {
			return or(append(out, forall(n, k, or(in...)))...)
		}
	}
	return bind("forall", "", n, k, body)
}

func exists(n, k, body *Term) *Term { return not(forall(n, k, not(body))) }

// sum is the sum of body over k in [0, n).
func sum(kind byte, n, k, body *Term) *Term {
	if isConst(n, 0) {
		return kconst(kind, 0)
	}
	if isConst(n, 1) {
		return subst(body, map[*Term]*Term{k: I(0)})
	}
	// peel case distinctions on single indices
	if c, a, b, ok := findPeel(body, k); ok {
		// body = (k == c) ? a : b with 0 <= c < n
		last := subI(n, I(1))
		if c == last {
			return addP(kind, subst(a, map[*Term]*Term{k: c}), sum(kind, last, k, b))
		}
		if isConst(c, 0) && n != I(0) && ge0(subI(n, I(1))) == tTrue {
			return addP(kind, subst(a, map[*Term]*Term{k: c}), subP(kind, sum(kind, n, k, b), subst(b, map[*Term]*Term{k: c})))
		}
	}
	res := kconst(kind, 0)
	for _, m := range monosOf(kind, body) {
		var dep, indep []*Term
		for _, a := range m.at {
			if a.op == "pow" && a.has(k) && !a.args[0].has(k) {
				// x^(e0+e1(k)) = x^e0 * x^e1(k)
				e0, e1 := I(0), I(0)
				for _, em := range monosOf('I', a.args[1]) {
					t := mkPoly('I', []mono{em})
					if t.has(k) {
						e1 = addI(e1, t)
					} else {
						e0 = addI(e0, t)
					}
				}
				if !isConst(e0, 0) {
					if p := powT(a.args[0], e0); p.pk == 0 {
						indep = append(indep, p)
					} else if len(p.monos) == 1 && p.monos[0].c.Cmp(one) == 0 {
						indep = append(indep, p.monos[0].at...)
					} else {
						indep = append(indep, raw("pow", "", a.args[0], e0))
					}
				}
				if p := powT(a.args[0], e1); p.pk == 0 {
					dep = append(dep, p)
					continue
				}
				dep = append(dep, raw("pow", "", a.args[0], e1))
				continue
			}
			if a.has(k) {
				dep = append(dep, a)
			} else {
				indep = append(indep, a)
			}
		}
		indep = mergePow(indep)
		sort.Slice(indep, func(i, j int) bool { return indep[i].id < indep[j].id })
		sort.Slice(dep, func(i, j int) bool { return dep[i].id < dep[j].id })
		pre := mkPoly(kind, []mono{{m.c, indep}})
		var s *Term
		if len(dep) == 0 {
			s = n
			if kind != 'I' {
				if c, ok := constOf(n); ok {
					s = kbig(kind, c)
				} else {
					s = raw("emb", string(kind), n)
				}
			}
		} else {
			s = bind("sum", string(kind), n, k, mkPoly(kind, []mono{{one, dep}}))
		}
		res = addP(kind, res, mulP(kind, pre, s))
	}
	return res
}

func findPeel(body, k *Term) (c, a, b *Term, ok bool) {
	var found *Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if found != nil || seen[t] || !t.has(k) {
			return
		}
		seen[t] = true
		if t.op == "ite" && t.args[0].op == "eq0" && t.args[0].s == "I" && t.args[0].has(k) {
			if cc := solveFor(t.args[0].args[0], k); cc != nil {
				found = t.args[0]
				return
			}
		}
		if t.pk != 0 {
			for _, m := range t.monos {
				for _, at := range m.at {
					walk(at)
				}
			}
			return
		}
		for _, x := range t.args {
			walk(x)
		}
	}
	walk(body)
	if found == nil {
		return nil, nil, nil, false
	}
	cc := solveFor(found.args[0], k)
	return cc, assume(body, found, true), assume(body, found, false), true
}

// solveFor solves p == 0 for k when p = ±k + rest.
func solveFor(p, k *Term) *Term {
	var coef *big.Int
	rest := I(0)
	for _, m := range monosOf('I', p) {
		if len(m.at) == 1 && m.at[0] == k {
			coef = m.c
			continue
		}
		for _, a := range m.at {
			if a.has(k) {
				return nil
			}
		}
		rest = addI(rest, mkPoly('I', []mono{m}))
	}
	if coef == nil || coef.CmpAbs(one) != 0 {
		return nil
	}
	if coef.Sign() > 0 {
		return negP('I', rest)
	}
	return rest
}

// assume rewrites t under the assumption that c has the given truth value.
func assume(t, c *Term, val bool) *Term {
	v := tFalse
	if val {
		v = tTrue
	}
	m := map[*Term]*Term{c: v}
	if nc := not(c); nc != c {
		m[nc] = not(v)
	}
	return subst(t, m)
}

// ---------- substitution ----------

func subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	s := &substn{m: m, memo: map[*Term]*Term{}}
	for k := range m {
		if k.op == "bv" || k.op == "ba" {
			s.bv = true
		}
	}
	return s.do(t)
}

// rename replaces variables by variables that do not occur in t. Binders keep their form.
func rename(t *Term, m map[*Term]*Term) *Term {
	s := &substn{m: m, memo: map[*Term]*Term{}, ren: true}
	for k := range m {
		if k.op == "bv" || k.op == "ba" {
			s.bv = true
		}
	}
	return s.do(t)
}

type substn struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
	bv   bool // replaces bound variables of opened binders
	ren  bool // only renames
}

func isBinder(op string) bool {
	switch op {
	case "forall", "exists", "sum", "vec", "build", "prod", "first", "fold", "lam", "catl":
		return true
	}
	return false
}

func bodyIndex(op string) int {
	if op == "fold" {
		return 2
	}
	return 1
}

func (s *substn) do(t *Term) *Term {
	if r, ok := s.m[t]; ok {
		return r
	}
	if len(t.args) == 0 && t.pk == 0 {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	var r *Term
	switch {
	case t.pk != 0:
		changed := false
		for _, mn := range t.monos {
			for _, a := range mn.at {
				if s.do(a) != a {
					changed = true
				}
			}
		}
		if !changed {
			r = t
			break
		}
		if s.ren {
			ms := make([]mono, len(t.monos))
			for i, mn := range t.monos {
				at := make([]*Term, len(mn.at))
				for j, a := range mn.at {
					at[j] = s.do(a)
				}
				sort.Slice(at, func(i, j int) bool { return at[i].id < at[j].id })
				ms[i] = mono{mn.c, at}
			}
			r = mkPoly(t.pk, ms)
			break
		}
		r = kconst(t.pk, 0)
		for _, mn := range t.monos {
			p := kbig(t.pk, mn.c)
			for _, a := range mn.at {
				p = mulP(t.pk, p, s.do(a))
			}
			r = addP(t.pk, r, p)
		}
	default:
		changed := false
		args := make([]*Term, len(t.args))
		bind, bi := isBinder(t.op), bodyIndex(t.op)
		for i, a := range t.args {
			if bind && s.bv && i == bi {
				args[i] = s.under(t, a)
			} else {
				args[i] = s.do(a)
			}
			if args[i] != a {
				changed = true
			}
		}
		switch {
		case !changed:
			r = t
		case bind && s.ren && args[bi].h == t.args[bi].h:
			h := binderHeight(t)
			r = raw(t.op, t.s, args...)
			if r.h < h {
				r.h = h
			}
		default:
			r = rebuild(t, args)
		}
	}
	s.memo[t] = r
	return r
}

// under substitutes in the body of a binder, whose own variables hide equally named ones.
func (s *substn) under(t, body *Term) *Term {
	h := binderHeight(t)
	v, a := bvar(h), bacc(h)
	_, ov := s.m[v]
	_, oa := s.m[a]
	if !ov && !oa {
		return s.do(body)
	}
	m := map[*Term]*Term{}
	for k, x := range s.m {
		if k != v && k != a {
			m[k] = x
		}
	}
	if len(m) == 0 {
		return body
	}
	n := &substn{m: m, memo: map[*Term]*Term{}, ren: s.ren}
	for k := range m {
		n.bv = n.bv || k.op == "bv" || k.op == "ba"
	}
	return n.do(body)
}

// rebuild applies the smart constructor of t to new arguments.
func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "cat":
		return catT(a...)
	case "not":
		return not(a[0])
	case "and":
		return and(a...)
	case "or":
		return or(a...)
	case "ge0":
		return ge0(a[0])
	case "eq0":
		return eq0(t.s[0], a[0])
	case "eq":
		return eqT(a[0], a[1], 0)
	case "ite":
		return ite(a[0], a[1], a[2])
	case "div":
		return divI(a[0], a[1])
	case "mod":
		return modI(a[0], a[1])
	case "shl":
		return shlI(a[0], a[1])
	case "shr":
		return shrI(a[0], a[1])
	case "len":
		return lenOf(a[0])
	case "proj":
		return projT(a[0], t.s)
	case "max", "min":
		return minmax(t.op, a[0], a[1])
	case "inv":
		return invF(a[0])
	case "emb":
		return embF(t.s[0], a[0])
	case "ev":
		return evalAt(a[0], a[1])
	case "at":
		return atT(a[0], a[1:]...)
	case "tproj":
		return tprojT(int(t.s[0]-'0'), a[0])
	case "lam":
		return rebind(t, a)
	case "forall", "exists", "sum", "vec", "build":
		return rebind(t, a)
	case "prod", "first":
		return rebind(t, a)
	case "pow":
		return powT(a[0], a[1])
	case "fold":
		return rebindFold(t, a)
	case "rep":
		return mkRep(t.s, a[0])
	case "slice":
		return mkSlice(a[0], a[1], a[2])
	case "ptr":
		return mkPtr(a[0], t.s, a[1:]...)
	case "coef":
		return coefT(t.s, a[0], a[1])
	case "app":
		return app(t.s, a...)
	}
	return raw(t.op, t.s, a...)
}

// rebind re-canonicalises a binder whose arguments changed under substitution.
func rebind(t *Term, a []*Term) *Term {
	h := binderHeight(t)
	k := freshVar("kv", "r")
	body := rename(a[1], map[*Term]*Term{bvar(h): k})
	switch t.op {
	case "forall":
		return forall(a[0], k, body)
	case "exists":
		return exists(a[0], k, body)
	case "sum":
		return sum(t.s[0], a[0], k, body)
	case "vec":
		return mkVec(a[0], k, body)
	}
	if t.op == "build" {
		r := bindBuild(a[2], a[0], k, body)
		return r
	}
	return bind(t.op, t.s, a[0], k, body)
}

// ---------- fold ----------

// mkFold is the value of acc after acc := body(k, acc) for k = 0..n-1, starting at init.
func mkFold(s string, n, init, k, acc, body *Term) *Term {
	if init == tZero && body.pk != 0 {
		init = kconst(body.pk, 0)
	}
	if init == tNil && body.op == "cat" {
		init = raw("cat", "")
	}
	if isConst(n, 0) || body == acc {
		return init
	}
	if body.op == "ite" {
		// one value, taken under one condition
		if x, g := onlyValue(body, acc); x != nil && x != acc {
			body = ite(g, x, acc)
		}
	}
	if isConst(n, 1) {
		return subst(body, map[*Term]*Term{k: I(0), acc: init})
	}
	if s == "" && body.pk == 'F' {
		// acc := acc * g is a power or a product
		g := kconst('F', 0)
		ok := true
		for _, m := range body.monos {
			cnt := 0
			var rest []*Term
			for _, a := range m.at {
				if a == acc {
					cnt++
				} else {
					rest = append(rest, a)
					ok = ok && !a.has(acc)
				}
			}
			ok = ok && cnt == 1
			g = addP('F', g, mkPoly('F', []mono{{m.c, rest}}))
		}
		if ok {
			if !g.has(k) {
				return mulP('F', init, powT(g, n))
			}
			return mulP('F', init, bind("prod", "F", n, k, g))
		}
	}
	if c, ok := constOf(n); ok && body.op == "app" && body.s == "|" && c.IsInt64() && c.Int64() <= 64 {
		for i := int64(0); i < c.Int64(); i++ {
			init = subst(body, map[*Term]*Term{k: I(i), acc: init})
		}
		return init
	}
	h := body.h + 1
	b := rename(body, map[*Term]*Term{k: bvar(h), acc: bacc(h)})
	for b.h+1 != h {
		h = b.h + 1
		b = rename(body, map[*Term]*Term{k: bvar(h), acc: bacc(h)})
	}
	t := raw("fold", s, n, init, b)
	if t.h < h {
		t.h = h
	}
	return t
}

func foldHeight(t *Term) int { return t.args[2].h + 1 }

// openFold instantiates the body of a fold.
func openFold(t, k, acc *Term) *Term {
	h := foldHeight(t)
	m := map[*Term]*Term{bvar(h): k, bacc(h): acc}
	if k.op == "kv" && acc.op == "mu" && !t.args[2].has(k) && !t.args[2].has(acc) {
		return rename(t.args[2], m)
	}
	return subst(t.args[2], m)
}

func rebindFold(t *Term, a []*Term) *Term {
	h := foldHeight(t)
	k, acc := freshVar("kv", "f"), freshVar("mu", "f")
	body := rename(a[2], map[*Term]*Term{bvar(h): k, bacc(h): acc})
	return mkFold(t.s, a[0], a[1], k, acc, body)
}

// ---------- misc constructors ----------

func shrI(a, b *Term) *Term {
	if c, ok := constOf(b); ok && c.IsInt64() && c.Sign() >= 0 && c.Int64() < 512 {
		return divI(a, kbig('I', new(big.Int).Lsh(one, uint(c.Int64()))))
	}
	return raw("shr", "", a, b)
}

func shlI(a, b *Term) *Term {
	if c, ok := constOf(b); ok && c.IsInt64() && c.Sign() >= 0 && c.Int64() < 512 {
		return scaleP('I', a, new(big.Int).Lsh(one, uint(c.Int64())))
	}
	if !isConst(a, 1) {
		return mulI(a, raw("shl", "", I(1), b))
	}
	return raw("shl", "", a, b)
}

func minmax(op string, a, b *Term) *Term {
	if a == b {
		return a
	}
	ca, oka := constOf(a)
	cb, okb := constOf(b)
	if oka && okb {
		if (ca.Cmp(cb) < 0) == (op == "min") {
			return a
		}
		return b
	}
	d := subI(a, b)
	if intrinsicNonneg(d) {
		if op == "max" {
			return a
		}
		return b
	}
	if intrinsicNonneg(negP('I', d)) {
		if op == "max" {
			return b
		}
		return a
	}
	if cm := commonMonos(a, b); !isConst(cm, 0) {
		return addP('I', cm, minmax(op, subI(a, cm), subI(b, cm)))
	}
	var xs []*Term
	for _, x := range []*Term{a, b} {
		for x.op == op {
			xs = append(xs, x.args[1])
			x = x.args[0]
		}
		xs = append(xs, x)
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].id < xs[j].id })
	r := xs[0]
	for i, x := range xs[1:] {
		if x != xs[i] {
			r = raw(op, "", r, x)
		}
	}
	return r
}

// commonMonos is the sum of the non-constant monomials that a and b share.
func commonMonos(a, b *Term) *Term {
	idx := map[string]*big.Int{}
	for _, m := range monosOf('I', a) {
		idx[monoKey(m.at)] = m.c
	}
	var common []mono
	for _, m := range monosOf('I', b) {
		if c, ok := idx[monoKey(m.at)]; ok && len(m.at) > 0 && c.Cmp(m.c) == 0 {
			common = append(common, m)
		}
	}
	return mkPoly('I', common)
}

func strT(s string) *Term { return raw("str", s) }

func app(name string, args ...*Term) *Term {
	if name == "|" {
		return orT(args...)
	}
	if len(args) == 2 && (name == "f+" || name == "f-" || name == "f*" || name == "f/" || name == "fmin" || name == "fmax") {
		return floatOp(name, args[0], args[1])
	}
	if len(args) == 2 && commutes(name) && args[0].id > args[1].id {
		args = []*Term{args[1], args[0]}
	}
	return raw("app", name, args...)
}

// commutes: floating-point and bitwise operations that do not depend on the order of their operands.
func commutes(name string) bool {
	switch name {
	case "f+", "f*", "fmin", "fmax", "&", "|", "^":
		return true
	}
	return false
}

// ---------- printing ----------

func (t *Term) String() string {
	strBudget = 4000
	return t.str(0)
}

// strBudget bounds the number of nodes that are printed.
var strBudget int

func (t *Term) str(d int) string {
	if strBudget--; d > 24 || strBudget < 0 {
		return "…"
	}
	if t.pk != 0 {
		if len(t.monos) == 0 {
			return "0"
		}
		var parts []string
		for _, m := range t.monos {
			var fs []string
			if m.c.Cmp(one) != 0 || len(m.at) == 0 {
				fs = append(fs, m.c.String())
			}
			for _, a := range m.at {
				fs = append(fs, a.str(d+1))
			}
			parts = append(parts, strings.Join(fs, "*"))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(" + strings.Join(parts, " + ") + ")"
	}
	as := func(xs []*Term) string {
		var p []string
		for _, x := range xs {
			p = append(p, x.str(d+1))
		}
		return strings.Join(p, ", ")
	}
	switch t.op {
	case "true", "false", "nil":
		return t.op
	case "str":
		return strconv.Quote(t.s)
	case "kv", "mu":
		return t.op + t.s
	case "struct":
		// a copy of a whole structure prints as that structure
		fs := structFields(t)
		pre := ""
		for i, a := range t.args {
			s := a.str(d + 1)
			s = strings.TrimSuffix(s, "!")
			if !strings.HasSuffix(s, "."+fs[i]) && !strings.HasPrefix(s, "«") {
				pre = ""
				break
			}
			p := strings.TrimSuffix(strings.Trim(s, "«»"), "."+fs[i])
			if i > 0 && p != pre {
				pre = ""
				break
			}
			pre = p
		}
		if pre != "" {
			return "«" + pre + "»"
		}
	case "bv":
		return "b" + t.s
	case "ba":
		return "a" + t.s
	case "not":
		return "!" + t.args[0].str(d+1)
	case "and":
		var p []string
		for _, x := range t.args {
			p = append(p, x.str(d+1))
		}
		return "(" + strings.Join(p, " && ") + ")"
	case "or":
		var p []string
		for _, x := range t.args {
			p = append(p, x.str(d+1))
		}
		return "(" + strings.Join(p, " || ") + ")"
	case "ge0":
		return t.args[0].str(d+1) + ">=0"
	case "eq0":
		return t.args[0].str(d+1) + "==0"
	case "eq":
		return t.args[0].str(d+1) + "==" + t.args[1].str(d+1)
	case "ite":
		return "(" + t.args[0].str(d+1) + " ? " + t.args[1].str(d+1) + " : " + t.args[2].str(d+1) + ")"
	case "init":
		s := t.s
		for _, a := range t.args[1:] {
			s = strings.Replace(s, "#", a.str(d+1), 1)
		}
		return t.args[0].str(d+1) + s
	case "in":
		return t.s
	case "ptr":
		s := t.s
		for _, a := range t.args[1:] {
			s = strings.Replace(s, "#", a.str(d+1), 1)
		}
		return "&" + t.args[0].str(d+1) + s
	case "obj":
		if len(t.args) == 0 {
			return "obj:" + t.s
		}
		return "obj:" + t.s + "[" + as(t.args) + "]"
	}
	return t.op + ":" + t.s + "(" + as(t.args) + ")"
}

func dedupTerms(xs []*Term) []*Term {
	var out []*Term
	for i, x := range xs {
		if i == 0 || xs[i-1] != x {
			out = append(out, x)
		}
	}
	return out
}

// dropFactor divides every monomial by the product of the atoms cf.
func dropFactor(k byte, ms []mono, cf []*Term) *Term {
	var out []mono
	for _, m := range ms {
		rest := append([]*Term(nil), m.at...)
		for _, x := range cf {
			for i, y := range rest {
				if x == y {
					rest = append(rest[:i:i], rest[i+1:]...)
					break
				}
			}
		}
		out = append(out, mono{m.c, rest})
	}
	return mkPoly(k, out)
}
