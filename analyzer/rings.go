package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Ring discipline. Every ring element belongs to the ring that allocated it; operations of a ring
// and of what was made for a ring (encoders, reconstructors, basis extenders) may only be given
// elements of that ring.

type ringUse struct {
	pos       token.Pos
	arg       string
	got, want string
}

type ringLog struct {
	alloc map[string]string // allocation -> ring
	role  map[string]string // field of an input -> last component of its ring
	uses  []ringUse
}

// ringName names a ring by the input it comes from.
func ringName(t *Term) string {
	if t == nil {
		return "?"
	}
	if o := origin(t); o != "" {
		return o
	}
	return "?"
}

func lastField(s string) string { return s[strings.LastIndexByte(s, '.')+1:] }

// ringsOf are the rings an element may belong to.
func (l *ringLog) ringsOf(t *Term) []string {
	switch t.op {
	case "ite":
		return append(l.ringsOf(t.args[1]), l.ringsOf(t.args[2])...)
	case "val":
		return l.ringsOf(t.args[0])
	case "obj":
		if r := l.alloc[t.s]; r != "" {
			return []string{r}
		}
	case "ptr":
		if t.args[0].op == "obj" && t.s == "!" {
			return l.ringsOf(t.args[0])
		}
		fallthrough
	case "init", "in":
		o := origin(t)
		if o == "" || o[0] == '?' {
			return nil
		}
		if r := l.role[lastField(o)]; r != "" {
			return []string{"*." + r}
		}
	}
	return nil
}

func sameRing(a, b string) bool {
	if strings.HasPrefix(a, "*.") || strings.HasPrefix(b, "*.") {
		return lastField(a) == lastField(b)
	}
	return a == b
}

// ringCheck records the elements that a call is given.
func (e *Engine) ringCheck(c *callCtx, key string) {
	l := e.rings
	ring := func(t *Term) string {
		if t != nil && (t.op == "val" || t.op == "obj") {
			t = c.e.content(c.st, t)
		}
		return ringName(t)
	}
	use := func(what string, t *Term, want string) {
		if want == "?" || want == "" || want[0] == '?' {
			return
		}
		for _, g := range l.ringsOf(t) {
			l.uses = append(l.uses, ringUse{c.call.Pos(), key + " " + what, g, want})
		}
	}
	isPoly := func(i int) bool {
		ps := c.fn.Signature().Params()
		return i < ps.Len() && isRingPoly(ps.At(i).Type())
	}
	all := func(want string) {
		for i, a := range c.args {
			if isPoly(i) {
				use(c.fn.Signature().Params().At(i).Name(), a, want)
			}
		}
	}
	switch {
	case strings.HasPrefix(key, ringPkg+".Ring."):
		all(ring(c.recv))
	case (key == ringPkg+".Poly.Copy" || key == ringPkg+".Poly.Equal") && len(c.args) == 1:
		a := c.args[0]
		if pt, ok := c.fn.Signature().Params().At(0).Type().(*types.Pointer); ok {
			a = c.e.load(c.st, a, pt.Elem())
		}
		for _, w := range l.ringsOf(c.recv) {
			use("operand", a, w)
		}
	case key == ringPkg+".BasisExtender.ModUpQtoP" && len(c.args) == 4:
		b := c.recv
		if b.op == "val" || b.op == "obj" {
			b = c.e.content(c.st, b)
		}
		if b.op == "app" && len(b.args) == 2 {
			use("source", c.args[2], ringName(b.args[0]))
			use("target", c.args[3], ringName(b.args[1]))
		}
	case key == "jindo.encodeChallengeTo" && len(c.args) == 4:
		use("target", c.args[2], ring(c.args[1]))
	case strings.HasPrefix(key, "jindo.Encoder."):
		all(c.ringField("params", "ringQ"))
	case strings.HasPrefix(key, "jindo.RNSReconstructor."):
		all(c.ringField("ringQ"))
	}
}

// ringField names the ring in a field of the receiver.
func (c *callCtx) ringField(path ...string) string {
	t := c.rt
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	ptr := c.recv
	for _, f := range path {
		s := structOf(t)
		if s == nil {
			return "?"
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				t, found = s.Field(i).Type(), true
			}
		}
		if !found {
			return "?"
		}
		ptr = mkPtr(ptr, "."+f)
	}
	v := c.e.load(c.st, ptr, t)
	return ringName(v)
}

// roles finds the ring of every element that a constructor allocates, by field.
func (p *Program) roles(pkg string, names ...string) (role map[string]string, bad []string) {
	role = map[string]string{}
	for _, n := range names {
		fi := p.lookup(pkg, "", n)
		if fi == nil {
			bad = append(bad, n+" is missing")
			continue
		}
		e := newEngine(p)
		e.rings = &ringLog{alloc: map[string]string{}, role: map[string]string{}}
		res := e.evaluate(fi, nil, nil)
		if len(res.vals) == 0 || res.st.dead {
			bad = append(bad, n+" does not return")
			continue
		}
		var walk func(v *Term, t types.Type, field string, depth int)
		walk = func(v *Term, t types.Type, field string, depth int) {
			if depth == 0 {
				return
			}
			if isRingPoly(t) {
				for _, r := range e.rings.ringsOf(v) {
					r = lastField(r)
					if o := role[field]; o != "" && o != r {
						r = "?"
					}
					role[field] = r
				}
				return
			}
			switch u := under(t).(type) {
			case *types.Pointer:
				if s := structOf(u.Elem()); s != nil && v.op == "obj" {
					for i := 0; i < s.NumFields(); i++ {
						f := s.Field(i)
						walk(e.load(res.st, mkPtr(v, "."+f.Name()), f.Type()), f.Type(), f.Name(), depth-1)
					}
				}
			case *types.Slice:
				k := freshVar("kv", "role")
				walk(e.loadElem(res.st.with(ge0(k), ltI(k, lenOf(v))), v, k, u.Elem()), u.Elem(), field, depth-1)
			}
		}
		walk(res.vals[0], fi.Obj.Signature().Results().At(0).Type(), "", 6)
	}
	for f, r := range role {
		if r == "?" || r == "" {
			delete(role, f)
		}
	}
	return
}

// ringDiscipline is the rule that every element is used in its own ring.
func ringDiscipline(pkg string, ctors []string, units ...string) rule {
	return func(p *Program, r *report) {
		role, bad := p.roles(pkg, ctors...)
		r.add("rings", pkg+" constructors", "", len(bad) == 0, strings.Join(bad, "\n"))
		var fs []string
		for f := range role {
			fs = append(fs, f+" in "+role[f])
		}
		sort.Strings(fs)
		r.notes = append(r.notes, "fields: "+strings.Join(fs, ", "))
		type site struct{ where, arg string }
		seen := map[site]string{}
		var order []site
		for _, u := range units {
			c, _ := p.unitFuncs(pkg, u)
			if c == nil {
				r.add("rings", pkg+"."+u, "", false, "the analysed function is missing")
				continue
			}
			e := newEngine(p)
			e.rings = &ringLog{alloc: map[string]string{}, role: role}
			for _, n := range through(c.Decl) {
				e.uncut[n] = true
			}
			e.evaluate(c, nil, nil)
			if n := unresolved(e.notes); len(n) > 0 {
				r.add("rings", pkg+"."+u+" resolved", "", false, strings.Join(n, "\n"))
			}
			for f := range e.inlined {
				if !strings.HasPrefix(f.Obj.Name(), "spec") && !strings.HasPrefix(f.Obj.Name(), "code") {
					r.analysed[funcName(f)+" "+p.pos(f.Decl.Pos())] = true
				}
			}
			for _, x := range e.rings.uses {
				s := site{p.pos(x.pos), strings.TrimPrefix(x.arg, ringPkg+".")}
				if strings.Contains(s.where, "verif/spec") {
					continue
				}
				if _, ok := seen[s]; !ok {
					seen[s] = ""
					order = append(order, s)
				}
				if !sameRing(x.got, x.want) {
					seen[s] = fmt.Sprintf("an element of %s is used in %s", x.got, x.want)
				}
			}
		}
		sort.Slice(order, func(i, j int) bool {
			return order[i].where < order[j].where || order[i].where == order[j].where && order[i].arg < order[j].arg
		})
		for _, s := range order {
			r.add("rings", s.arg, s.where, seen[s] == "", seen[s])
		}
	}
}
