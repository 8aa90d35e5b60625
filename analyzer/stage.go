package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// Staged comparison. The value graph of a long protocol is compared from the inside out: the
// terms at its stage boundaries (challenges, the polynomials of a round) are brought to normal
// form and paired between code and reference, innermost first, and each pair is replaced by one
// symbol in everything that depends on it.

type stager struct {
	names  map[string]bool // app, or app/i for its i-th argument
	cnt    int
	rnd    int
	a, b   *side
	splits []*Term // conditions of the case distinction
	split  map[*Term]bool
}

// cases normalises t separately for every combination of the conditions it is split on.
func (s *stager) cases(t *Term, f *factsT) *Term {
	var out []*Term
	var walk func(i int, cs []*Term)
	walk = func(i int, cs []*Term) {
		if i == len(s.splits) {
			out = append(out, normalise(t, f.with(cs...)))
			return
		}
		c := s.splits[i]
		walk(i+1, append(cs[:len(cs):len(cs)], c))
		walk(i+1, append(cs[:len(cs):len(cs)], not(c)))
	}
	walk(0, nil)
	if len(out) == 1 {
		return out[0]
	}
	return raw("app", "cases", out...)
}

type candKey struct {
	t     *Term
	conds string
}

type side struct {
	vals []*Term
	memo map[candKey]*Term
	f    *factsT
	ren  map[*Term]*Term // random atoms already paired
}

// staged lists the boundaries named by a "staged:" line of a comment.
func stagedNames(doc string) map[string]bool {
	for _, l := range strings.Split(doc, "\n") {
		if r, ok := strings.CutPrefix(l, "staged:"); ok {
			m := map[string]bool{}
			for _, x := range strings.Fields(r) {
				m[x] = true
			}
			return m
		}
	}
	return nil
}

// freeOf computes the loose bound variables of terms.
type freeOf map[*Term]map[*Term]bool

func (fr freeOf) of(t *Term) map[*Term]bool {
	if r, ok := fr[t]; ok {
		return r
	}
	r := map[*Term]bool{}
	if t.op == "bv" || t.op == "ba" || t.op == "kv" || t.op == "mu" {
		r[t] = true
	}
	for _, m := range t.monos {
		for _, a := range m.at {
			for x := range fr.of(a) {
				r[x] = true
			}
		}
	}
	switch t.op {
	case "forall", "exists", "sum", "vec", "prod", "first", "lam", "build", "fold":
		body := t.args[1]
		h := binderHeight(t)
		if t.op == "fold" {
			body = t.args[2]
			h = foldHeight(t)
		}
		for x := range fr.of(body) {
			if x != bvar(h) && x != bacc(h) {
				r[x] = true
			}
		}
		for _, a := range t.args {
			if a != body {
				for x := range fr.of(a) {
					r[x] = true
				}
			}
		}
	default:
		for _, a := range t.args {
			for x := range fr.of(a) {
				r[x] = true
			}
		}
	}
	fr[t] = r
	return r
}

// looseVar is the loose bound variable of t, if it has one.
func looseVar(t *Term) *Term {
	for x := range (freeOf{}).of(t) {
		return x
	}
	return nil
}

// innermost are the closed boundary terms that contain no others.
func (s *stager) innermost(ts []*Term) []*Term {
	var out []*Term
	fr := freeOf{}
	memo := map[*Term]bool{} // contains a boundary
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if r, ok := memo[t]; ok {
			return r
		}
		found := false
		for _, m := range t.monos {
			for _, a := range m.at {
				found = walk(a) || found
			}
		}
		for i, a := range t.args {
			in := walk(a)
			arg := fmt.Sprintf("%s/%d", t.s, i)
			if t.op == "app" && !in && (s.names[arg] || s.names["?"+arg]) && a.op != "app" && len(fr.of(a)) <= 1 {
				ok := true
				for x := range fr.of(a) {
					ok = ok && x.op == "bv"
				}
				if ok && !seen[a] {
					seen[a] = true
					out = append(out, a)
					s.split[a] = s.names["?"+arg]
				}
				in = in || ok
			}
			found = in || found
		}
		if t.op == "app" && (s.names[t.s] || s.names["?"+t.s]) && !found && len(fr.of(t)) == 0 {
			out = append(out, t)
			s.split[t] = s.names["?"+t.s]
			found = true
		}
		memo[t] = found
		return found
	}
	for _, t := range ts {
		walk(t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// conditions are the closed conditions under which every occurrence of a term lies.
func (s *stager) conditions(ts []*Term) map[*Term]map[*Term]bool {
	fr := freeOf{}
	var order []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, m := range t.monos {
			for _, a := range m.at {
				walk(a)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
		order = append(order, t)
	}
	for _, t := range ts {
		walk(t)
	}
	conds := map[*Term]map[*Term]bool{}
	reach := func(t *Term, from map[*Term]bool, extra *Term) {
		set := map[*Term]bool{}
		for c := range from {
			set[c] = true
		}
		var add func(c *Term)
		add = func(c *Term) {
			if c.op == "and" {
				for _, a := range c.args {
					add(a)
				}
			} else if len(fr.of(c)) == 0 {
				set[c] = true
			}
		}
		if extra != nil {
			add(extra)
		}
		old, ok := conds[t]
		if !ok {
			conds[t] = set
			return
		}
		for c := range old {
			if !set[c] {
				delete(old, c)
			}
		}
	}
	for _, t := range ts {
		reach(t, nil, nil)
	}
	for i := len(order) - 1; i >= 0; i-- {
		t := order[i]
		from := conds[t]
		for _, m := range t.monos {
			for _, a := range m.at {
				reach(a, from, nil)
			}
		}
		for k, a := range t.args {
			var c *Term
			if t.op == "ite" && k > 0 {
				c = t.args[0]
				if k == 2 {
					c = not(c)
				}
			}
			reach(a, from, c)
		}
	}
	return conds
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// canon renames the random atoms of t: paired ones to their common names, the others by the
// order of their first use.
func (s *stager) canon(sd *side, t *Term) (*Term, map[*Term]*Term) {
	m := map[*Term]*Term{}
	n := s.rnd
	byKey := map[string]int{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "random" && !strings.Contains(t.s, "#") {
			k, ok := byKey[t.s]
			if !ok {
				k = n
				n++
				byKey[t.s] = k
			}
			m[t] = raw("random", fmt.Sprintf("%s:#%d", t.s[:strings.IndexByte(t.s, ':')], k), t.args...)
		}
		for _, mo := range t.monos {
			for _, a := range mo.at {
				walk(a)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return subst(t, m), m
}

// permuted renames the new random atoms of b so that it becomes a.
func (s *stager) permuted(a, b *Term, m map[*Term]*Term) (*Term, map[*Term]*Term) {
	names := map[string]bool{}
	for _, v := range m {
		names[v.s] = true
	}
	var ns []string
	for x := range names {
		ns = append(ns, x)
	}
	sort.Strings(ns)
	if len(ns) < 2 || len(ns) > 9 {
		return nil, nil
	}
	var atoms []*Term
	collect(b, func(x *Term) bool {
		if x.op == "random" && names[x.s] {
			atoms = append(atoms, x)
		}
		return true
	})
	to := map[string]string{}
	used := map[string]bool{}
	cur := func() *Term {
		r := map[*Term]*Term{}
		for _, x := range atoms {
			r[x] = raw("random", to[x.s], x.args...)
		}
		if t := subst(b, r); t == a {
			return t
		}
		return nil
	}
	var try func(i int) *Term
	try = func(i int) *Term {
		if i == len(ns) {
			return cur()
		}
		for _, x := range ns {
			if used[x] || kindOf(x) != kindOf(ns[i]) {
				continue
			}
			used[x], to[ns[i]] = true, x
			if t := try(i + 1); t != nil {
				return t
			}
			used[x] = false
		}
		return nil
	}
	// usually two of them are exchanged
	var t *Term
	for i := range ns {
		for j := i + 1; j < len(ns) && t == nil; j++ {
			if kindOf(ns[i]) != kindOf(ns[j]) {
				continue
			}
			for _, x := range ns {
				to[x] = x
			}
			to[ns[i]], to[ns[j]] = ns[j], ns[i]
			t = cur()
		}
	}
	if t == nil && len(ns) <= 6 {
		t = try(0)
	}
	if t == nil {
		return nil, nil
	}
	out := map[*Term]*Term{}
	for k, v := range m {
		out[k] = raw("random", to[v.s], v.args...)
	}
	return t, out
}

// kindOf is the kind of the random atoms of a common name.
func kindOf(name string) string { return name[:strings.IndexByte(name, ':')] }

// apply replaces terms in everything still to be compared.
func (sd *side) apply(m map[*Term]*Term) {
	for i := range sd.vals {
		sd.vals[i] = subst(sd.vals[i], m)
	}
	g := (&State{}).fs()
	var cs []*Term
	for c := range sd.f.known {
		cs = append(cs, subst(c, m))
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	sd.f = g.with(cs...)
}

// renameRandom gives the random atoms of one site their common name everywhere.
func (sd *side) renameRandom(m map[*Term]*Term) {
	name := map[string]string{}
	for k, v := range m {
		name[k.s] = v.s
	}
	if len(name) == 0 {
		return
	}
	all := map[*Term]*Term{}
	for _, t := range sd.vals {
		collect(t, func(x *Term) bool {
			if x.op == "random" && name[x.s] != "" {
				all[x] = raw("random", name[x.s], x.args...)
			}
			return true
		})
	}
	sd.apply(all)
}

// run pairs the boundaries; it reports the first stage that differs.
func (s *stager) run() []string {
	for s.cnt < 200 {
		as, bs := s.innermost(s.a.vals), s.innermost(s.b.vals)
		if len(as) == 0 && len(bs) == 0 {
			return nil
		}
		type cand struct {
			t, n *Term
			m    map[*Term]*Term
			bv   *Term
			used bool
		}
		mk := func(sd *side, ts []*Term) []*cand {
			var out []*cand
			conds := s.conditions(sd.vals)
			for _, t := range ts {
				if os.Getenv("DBGS") != "" {
					n, tr := dagSize(t)
					fmt.Println("CAND", t.s, t.id, n, tr)
					for _, c := range sortedTerms(conds[t]) {
						fmt.Println("   ", c)
					}
				}
				x, bv := t, looseVar(t)
				if bv != nil {
					k := freshVar("kv", "s")
					x = bind("lam", "", I(0), k, subst(t, map[*Term]*Term{bv: k}))
				}
				cs := sortedTerms(conds[t])
				key := candKey{t, fmt.Sprint(len(sd.f.known))}
				for _, c := range cs {
					key.conds += fmt.Sprint(",", c.id)
				}
				n := sd.memo[key]
				if n == nil {
					g := sd.f.with(cs...)
					if s.split[t] {
						n = s.cases(x, g)
					} else {
						n = normalise(x, g)
					}
					sd.memo[key] = n
				}
				c, m := s.canon(sd, n)
				out = append(out, &cand{t: t, n: c, m: m, bv: bv})
			}
			return out
		}
		ca, cb := mk(s.a, as), mk(s.b, bs)
		progress := false
		pair := func(same func(a, b *cand) bool) {
			for _, a := range ca {
				for _, b := range cb {
					if a.used || b.used || progress || !same(a, b) {
						continue
					}
					name := fmt.Sprintf("%s#%d", a.t.s, s.cnt)
					if a.t.op != "app" {
						name = fmt.Sprintf("%s#%d", a.t.op, s.cnt)
					}
					sym := func(x *cand) *Term {
						if x.bv != nil {
							return raw("app", name, x.bv)
						}
						return raw("app", name)
					}
					s.cnt++
					s.rnd += len(a.m)
					a.used, b.used, progress = true, true, true
					// equal candidates on either side are the same stage
					ma, mb := map[*Term]*Term{}, map[*Term]*Term{}
					for _, x := range ca {
						if x.n == a.n {
							ma[x.t] = sym(x)
						}
					}
					for _, x := range cb {
						if x.n == a.n || x.n == b.n {
							mb[x.t] = sym(x)
						}
					}
					s.a.apply(ma)
					s.b.apply(mb)
					s.a.renameRandom(a.m)
					s.b.renameRandom(b.m)
				}
			}
		}
		pair(func(a, b *cand) bool { return a.n == b.n })
		if !progress {
			// the random atoms correspond in another order
			pair(func(a, b *cand) bool {
				if a.t.op != b.t.op || a.t.s != b.t.s || (a.bv == nil) != (b.bv == nil) || len(a.m) != len(b.m) {
					return false
				}
				n, m := s.permuted(a.n, b.n, b.m)
				if n == nil {
					return false
				}
				b.n, b.m = n, m
				return true
			})
		}
		if !progress {
			pair(func(a, b *cand) bool {
				return a.t.op == b.t.op && a.t.s == b.t.s && (a.bv == nil) == (b.bv == nil) && len(a.m) == len(b.m) && len(differ("", a.n, b.n, s.a.f, 0)) == 0
			})
		}
		if !progress {
			if len(ca) > 0 && len(cb) > 0 {
				return []string{explain("stage "+ca[0].t.s, ca[0].n, cb[0].n)}
			}
			for _, c := range append(ca, cb...) {
				return []string{"stage " + c.t.s + " has no counterpart: " + c.n.String()}
			}
		}
	}
	return []string{"too many stages"}
}
