package main

import (
	"sort"
	"strconv"
	"strings"
)

// History independence: non-interference between the arguments of earlier calls on an object and
// the results of a later one. A unit again<Name> makes the calls; the parameters whose names begin
// with "other" are those of the other calls.

func again(pkg string, names ...string) rule {
	return func(p *Program, r *report) {
		for _, n := range names {
			fi := p.lookup(pkg, "", "again"+n)
			if fi == nil {
				r.add("history", pkg+"."+n, "", false, "the analysed function is missing")
				continue
			}
			o := p.behaviour(fi, through(fi.Decl), false)
			for f := range o.e.inlined {
				if q := p.pos(f.Decl.Pos()); !strings.Contains(q, "verif/spec") {
					r.analysed[funcName(f)+" "+q] = true
				}
			}
			bad := unresolved(o.notes)
			if o.r.st.dead {
				bad = append(bad, "does not return")
			}
			r.add("history", pkg+"."+n+" resolved", "", len(bad) == 0, strings.Join(bad, "\n"))
			if len(bad) > 0 {
				continue
			}
			old := map[string]string{}
			ps := fi.Obj.Signature().Params()
			for i := 0; i < ps.Len(); i++ {
				if nm := ps.At(i).Name(); strings.HasPrefix(nm, "other") {
					old["p"+strconv.Itoa(i)] = nm
				}
			}
			for i, v := range o.vals {
				seen := map[string]bool{}
				reads(v, func(t *Term) {
					if t.op == "in" && old[t.s] != "" {
						seen[old[t.s]] = true
					}
				})
				var l []string
				for k := range seen {
					l = append(l, k)
				}
				sort.Strings(l)
				msg := ""
				if len(l) > 0 {
					msg = "the result depends on what belongs to another use: " + strings.Join(l, ", ")
				} else if u := undecidedTerm(v); u != "" {
					msg = "not resolved: " + u
				}
				r.add("history", pkg+"."+n+" result "+strconv.Itoa(i), "", msg == "", msg)
			}
		}
	}
}

// reads visits the terms that v can depend on. The rows of a ring element beyond the moduli of its
// ring do not exist, so that what stands for them is not visited.
func reads(v *Term, f func(*Term)) {
	type key struct{ t, ring *Term }
	seen := map[key]bool{}
	var walk func(t, ring *Term, row map[*Term]*Term)
	walk = func(t, ring *Term, row map[*Term]*Term) {
		if seen[key{t, ring}] {
			return
		}
		seen[key{t, ring}] = true
		f(t)
		switch t.op {
		case "ntt", "intt":
			walk(t.args[0], ring, row)
			walk(t.args[1], t.args[0], row)
			return
		case "polyraw":
			if ring != nil && t.args[0].op == "lam" {
				m := map[*Term]*Term{}
				for k, x := range row {
					m[k] = x
				}
				m[bvar(binderHeight(t.args[0]))] = ring
				row = m
			}
		case "ite":
			if rowBound(t.args[0], row) {
				walk(t.args[1], ring, row)
				return
			}
		}
		for _, m := range t.monos {
			r := ring
			for _, a := range m.at {
				if a.op == "Rm" || a.op == "Rinv" {
					r = a.args[0]
				}
			}
			for _, a := range m.at {
				walk(a, r, row)
			}
		}
		for _, a := range t.args {
			walk(a, ring, row)
		}
	}
	walk(v, nil, nil)
}

// rowBound reports whether the condition says that a row index lies within its ring's moduli.
func rowBound(c *Term, row map[*Term]*Term) bool {
	if c.op != "ge0" {
		return false
	}
	for b, ring := range row {
		l := addI(addI(c.args[0], b), I(1))
		if l.op == "poly" && len(l.monos) == 1 && len(l.monos[0].at) == 1 {
			l = l.monos[0].at[0]
		}
		if l.op == "len" && l.args[0].String() == ring.String()+".SubRings" {
			return true
		}
	}
	return false
}

// separate is the rule that what a function returns is memory of its own: nothing in it is shared
// with the arguments, with the receiver or with a pooled buffer.
func separate(pkg string, names ...string) rule {
	return func(p *Program, r *report) {
		for _, n := range names {
			fi := p.lookup(pkg, "", "code"+n)
			typ, m, method := strings.Cut(n, ".")
			if method {
				fi = p.lookup(pkg, typ, m)
			}
			if fi == nil {
				r.add("separate", pkg+"."+n, "", false, "the analysed function is missing")
				continue
			}
			name, where := funcName(fi)+" of", p.pos(fi.Decl.Pos())
			if !method {
				name, where = p.site(fi, pkg, n)
			}
			o := p.behaviour(fi, through(fi.Decl), true)
			e, res := o.e, o.r
			for f := range e.inlined {
				if q := p.pos(f.Decl.Pos()); !strings.Contains(q, "verif/spec") {
					r.analysed[funcName(f)+" "+q] = true
				}
			}
			if u := unresolved(e.notes); len(u) > 0 || res.st.dead {
				r.add("separate", name+" "+n, where, false, "unresolved: "+strings.Join(u, "; "))
				continue
			}
			sig := fi.Obj.Signature()
			for i, v := range res.vals {
				t := sig.Results().At(i).Type()
				if !holdsRef(t, 6) || t.String() == "error" {
					continue
				}
				s := &sharing{e: e, st: res.st}
				s.walk(v, t, "result", 9)
				bad := s.bad
				for _, x := range s.out {
					bad = append(bad, x.path+" is "+x.from)
				}
				r.add("separate", name+" "+n+" result "+strconv.Itoa(i), where, len(bad) == 0, strings.Join(bad, "\n"))
			}
		}
	}
}
