package main

import "math/big"

// reroll replaces the stores of an unrolled loop body, which write the elements c*k, ...,
// c*k+c-1 in iteration k, by one store to element k of a loop with c times the iterations.
// The second result gives c for the stores that were replaced.
func reroll(ss []*store, k *Term, sub func(t, at *Term) *Term) ([]*store, map[*store]int64) {
	scale := map[*store]int64{}
	if len(ss) < 2 {
		return ss, scale
	}
	tup := make([]*Term, len(ss))
	for i, s := range ss {
		if len(s.q) > 0 {
			continue
		}
		a := []*Term{sub(s.root, k), sub(s.val, k), sub(s.guard, k)}
		for _, x := range s.idx {
			a = append(a, sub(x, k))
		}
		tup[i] = raw("tup", s.path, a...)
	}
	done := make([]bool, len(ss))
	var out []*store
	for i, s := range ss {
		if tup[i] == nil || done[i] {
			continue
		}
		c := stride(tup[i], k)
		if c < 2 || c > 64 {
			continue
		}
		group := []int{i}
		for r := int64(1); r < c; r++ {
			w := rewriteAffine(tup[i], k, c, addI(scaleP('I', k, big.NewInt(c)), I(r)))
			f := -1
			for j := range ss {
				if tup[j] != nil && !done[j] && tup[j] == w && w != nil {
					f = j
				}
			}
			if f < 0 {
				break
			}
			group = append(group, f)
		}
		if int64(len(group)) < c {
			continue
		}
		mixed := false
		in := map[int]bool{}
		for _, j := range group {
			in[j] = true
		}
		for j := range ss {
			if !in[j] && ss[j].path == s.path && compatRoot(ss[j].root, s.root) {
				mixed = true
			}
		}
		g := rewriteAffine(tup[i], k, c, k)
		if mixed || g == nil {
			continue
		}
		for _, j := range group {
			done[j] = true
		}
		n := &store{root: g.args[0], path: s.path, idx: append([]*Term(nil), g.args[3:]...), val: g.args[1], guard: g.args[2]}
		scale[n] = c
		out = append(out, n)
	}
	if len(out) == 0 {
		return ss, scale
	}
	for i, s := range ss {
		if !done[i] {
			out = append(out, s)
		}
	}
	return out, scale
}

// stride is the smallest coefficient of k in the integer terms of t.
func stride(t, k *Term) int64 {
	r := int64(0)
	collect(t, func(x *Term) bool {
		if x.pk == 'I' {
			for _, m := range x.monos {
				for _, a := range m.at {
					if a == k && m.c.IsInt64() {
						if v := m.c.Int64(); v > 0 && (r == 0 || v < r) {
							r = v
						}
					}
				}
			}
		} else if x == k {
			r = 1
		}
		return x.pk == 0 && x != k || x.pk != 'I'
	})
	return r
}

// rewriteAffine replaces every c*k in t by by; it returns nil if k occurs otherwise.
func rewriteAffine(t, k *Term, c int64, by *Term) *Term {
	memo := map[*Term]*Term{}
	ok := true
	cb := big.NewInt(c)
	var rw func(t *Term) *Term
	rw = func(t *Term) *Term {
		if !ok || !t.has(k) {
			return t
		}
		if r := memo[t]; r != nil {
			return r
		}
		if t == k {
			ok = false
			return t
		}
		var r *Term
		if t.pk != 0 {
			r = kconst(t.pk, 0)
			for _, m := range t.monos {
				co := m.c
				p := kconst(t.pk, 1)
				for _, a := range m.at {
					if a == k {
						q, rem := new(big.Int).QuoRem(co, cb, new(big.Int))
						if t.pk != 'I' || rem.Sign() != 0 {
							ok = false
							return t
						}
						co = q
						p = mulP(t.pk, p, by)
						continue
					}
					p = mulP(t.pk, p, rw(a))
				}
				r = addP(t.pk, r, scaleP(t.pk, p, co))
			}
		} else {
			args := make([]*Term, len(t.args))
			for i, a := range t.args {
				args[i] = rw(a)
			}
			r = rebuild(t, args)
			if refInit[t] {
				refInit[r] = true
			}
			if r.typ == nil {
				r.typ = t.typ
			}
		}
		memo[t] = r
		return r
	}
	r := rw(t)
	if !ok {
		return nil
	}
	return r
}
