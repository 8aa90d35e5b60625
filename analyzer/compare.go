package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
)

// outcome is the behaviour of a function as terms over its inputs.
type outcome struct {
	pre   *Term
	vals  []*Term
	eff   map[string]*Term // final values of modified input locations
	notes []string
	e     *Engine
	r     *result
	fi    *FuncInfo
}

type diff struct {
	unit  string
	lines []string
	parts []part
	a, b  *outcome

	effects []string
	lazy    bool // compared in stages
	stages  int
}

// withEffects adds the final contents of modified inputs to the results.
func (d *diff) withEffects() (a, b []*Term) {
	a, b = d.a.vals, d.b.vals
	if d.a.r.st.dead || d.b.r.st.dead {
		return
	}
	keys := d.a.touched()
	for k := range d.b.touched() {
		keys[k] = true
	}
	na, ea := d.a.effects(keys, d.lazy)
	_, eb := d.b.effects(keys, d.lazy)
	d.effects = na
	ga, gb := d.a.globals(), d.b.globals()
	for k := range gb {
		ga[k] = gb[k]
	}
	var names []string
	for k := range ga {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		d.effects = append(d.effects, k)
		ea, eb = append(ea, d.a.global(k, ga[k], d.lazy)), append(eb, d.b.global(k, ga[k], d.lazy))
	}
	return append(a[:len(a):len(a)], ea...), append(b[:len(b):len(b)], eb...)
}

// globals are the package variables a function may write to.
func (o *outcome) globals() map[string]types.Type {
	out := map[string]types.Type{}
	if o.r == nil || o.r.st.dead {
		return out
	}
	for n := o.r.st.log; n != nil; n = n.prev {
		g := n.st.root
		for (g.op == "ptr" || g.op == "init") && len(g.args) > 0 {
			g = g.args[0]
		}
		if g.op != "global" {
			continue
		}
		i := strings.LastIndexByte(g.s, '.')
		if pkg := o.e.prog.Pkgs[g.s[:i]]; pkg != nil {
			if v := pkg.Types.Scope().Lookup(g.s[i+1:]); v != nil {
				out[g.s] = v.Type()
			}
		}
	}
	return out
}

// global is the final content of a package variable.
func (o *outcome) global(name string, t types.Type, lazy bool) *Term {
	st := o.r.st
	v := o.e.value(st, o.e.load(st, raw("global", name), t), t, 8)
	v = subst(v, o.e.defs)
	if !lazy {
		v = normalise(v, st.fs())
	}
	return v
}

// unitFuncs are the functions a unit compares.
func (p *Program) unitFuncs(pkg, unit string) (c, s *FuncInfo) {
	c, s = p.lookup(pkg, "", "code"+unit), p.lookup(pkg, "", "spec"+unit)
	if s != nil && c == nil && directive(s.Decl, "of:") != nil {
		c = p.initOf(pkg)
	}
	return
}

// initOf is the initialisation function of a package, if there is exactly one.
func (p *Program) initOf(pkg string) *FuncInfo {
	var out *FuncInfo
	for _, f := range p.Funcs {
		if f.Pkg.Types.Path() == modPath+"/"+pkg && f.Obj.Name() == "init" && f.Decl.Recv == nil {
			if out != nil {
				return nil
			}
			out = f
		}
	}
	return out
}

// part is one compared aspect.
type part struct {
	what  string
	lines []string
}

func (d *diff) part(what string, lines []string) {
	d.parts = append(d.parts, part{what, lines})
	d.lines = append(d.lines, lines...)
}

func (d *diff) String() string {
	if len(d.lines) == 0 {
		return "equal"
	}
	return "DIFFERENT\n  " + strings.Join(d.lines, "\n  ")
}

// behaviour evaluates a function on symbolic inputs.
func (p *Program) behaviour(fi *FuncInfo, uncut []string, lazy bool) *outcome {
	e := newEngine(p)
	for _, u := range uncut {
		if o, ok := strings.CutPrefix(u, "="); ok {
			e.models[o] = opaqueCall
			continue
		}
		e.uncut[u] = true
	}
	r := e.evaluate(fi, nil, nil)
	o := &outcome{e: e, r: r, fi: fi, eff: map[string]*Term{}}
	if r.st.dead {
		o.pre = tFalse
		return o
	}
	base := (&State{}).with(e.assumed...).fs()
	pre := r.pre
	for _, c := range e.ends {
		pre = subst(pre, map[*Term]*Term{c: tTrue})
	}
	o.pre = normalise(subst(pre, e.defs), base)
	f := r.st.fs()
	sig := fi.Obj.Signature()
	for i, v := range r.vals {
		v = e.value(r.st, v, sig.Results().At(i).Type(), 8)
		if os.Getenv("DBGV") != "" {
			println(v.String())
			for c := range f.known {
				println("FACT", c.String())
			}
		}
		v = subst(v, e.defs)
		if !lazy {
			v = normalise(v, f)
		}
		o.vals = append(o.vals, v)
	}
	o.notes = e.notes
	return o
}

// canonRandom renames the sites of random values by the places they are used in: sites that
// are used in the same way, when all other sites look alike, get the same number on both sides.
// Sites with the same use are told apart by the order of first use.
func canonRandom(ts []*Term) []*Term {
	var sites []string
	uses := map[string][]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "random" {
			if uses[t.s] == nil {
				sites = append(sites, t.s)
			}
			uses[t.s] = append(uses[t.s], t)
		}
		for _, mo := range t.monos {
			for _, a := range mo.at {
				walk(a)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	if len(sites) == 0 {
		return ts
	}
	kind := func(s string) string { return s[:strings.IndexByte(s, ':')] }
	sig := map[string]int{}
	if len(sites) > 1 && len(sites) <= 12 {
		for _, s := range sites {
			h := 0
			for _, t := range ts {
				h = h*1000003 + renameRandom(t, func(x string) string {
					if x == s {
						return "this"
					}
					return kind(x) + ":other"
				}).id
			}
			sig[s] = h
		}
	}
	sort.SliceStable(sites, func(i, j int) bool { return sig[sites[i]] < sig[sites[j]] })
	name := map[string]string{}
	for i, s := range sites {
		name[s] = fmt.Sprintf("%s:%d", kind(s), i)
	}
	var out []*Term
	for _, t := range ts {
		out = append(out, renameRandom(t, func(x string) string { return name[x] }))
	}
	return out
}

// renameRandom renames the sites of random values, also below binders.
func renameRandom(t *Term, f func(string) string) *Term {
	memo := map[*Term]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		switch {
		case t.op == "random":
			args := make([]*Term, len(t.args))
			for i, a := range t.args {
				args[i] = walk(a)
			}
			r = raw("random", f(t.s), args...)
		case t.pk != 0:
			p := kconst(t.pk, 0)
			for _, m := range t.monos {
				q := kbig(t.pk, m.c)
				for _, a := range m.at {
					q = mulP(t.pk, q, walk(a))
				}
				p = addP(t.pk, p, q)
			}
			r = p
		case len(t.args) > 0:
			args := make([]*Term, len(t.args))
			same := true
			for i, a := range t.args {
				args[i] = walk(a)
				same = same && args[i] == a
			}
			if !same {
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return walk(t)
}

// through lists the functions named by a "through:" line of a comment.
func through(d *ast.FuncDecl) []string { return directive(d, "through:") }

// opaque lists the functions of which only the arguments matter.
func opaque(d *ast.FuncDecl) []string { return directive(d, "opaque:") }

func directive(d *ast.FuncDecl, name string) []string {
	if d.Doc == nil {
		return nil
	}
	for _, l := range strings.Split(d.Doc.Text(), "\n") {
		if r, ok := strings.CutPrefix(l, name); ok {
			return strings.Fields(r)
		}
	}
	return nil
}

// compare evaluates the code and the reference of a unit.
func (p *Program) compare(pkg, unit string) *diff { return p.compareProj(pkg, unit, "") }

// compareProj compares an aspect: "challenges" only the inputs of the challenges, "verdict"
// everything else.
func (p *Program) compareProj(pkg, unit, proj string) *diff {
	d := &diff{unit: unit}
	c, s := p.unitFuncs(pkg, unit)
	if c == nil || s == nil {
		d.lines = append(d.lines, "unit not found")
		for k, v := range p.Dropped {
			d.lines = append(d.lines, k+": "+v)
		}
		return d
	}
	opaqueJindo = pkg == "buckler"
	uncut := through(s.Decl)
	if pkg == "math/bigpoly" {
		for _, n := range vecCuts {
			uncut = append(uncut, pkg+"."+n)
		}
	}
	staged := stagedNames(s.Decl.Doc.Text())
	lazy := len(staged) > 0
	noEdges = lazy
	independentDraws = len(directive(s.Decl, "draws: independent")) > 0
	for _, o := range opaque(s.Decl) {
		uncut = append(uncut, "="+o)
	}
	d.a, d.b = p.behaviour(c, uncut, lazy), p.behaviour(s, uncut, lazy)
	d.lazy = lazy
	base := (&State{}).with(d.a.e.assumed...).fs()
	d.a.vals, d.b.vals = d.withEffects()
	if lazy && len(d.a.vals) == len(d.b.vals) {
		sa, sb := &side{memo: map[candKey]*Term{}, vals: d.a.vals, f: d.a.r.st.fs()}, &side{memo: map[candKey]*Term{}, vals: d.b.vals, f: d.b.r.st.fs()}
		st := &stager{names: staged, a: sa, b: sb, splits: d.b.e.splits, split: map[*Term]bool{}}
		if l := st.run(); len(l) > 0 {
			d.part("stages", l)
			return d
		}
		for i := range sa.vals {
			sa.vals[i], sb.vals[i] = st.cases(sa.vals[i], sa.f), st.cases(sb.vals[i], sb.f)
		}
		d.a.vals, d.b.vals = sa.vals, sb.vals
		d.stages = st.cnt
	}
	dbgHeights(d.b.vals)
	va, vb := canonRandom(d.a.vals), canonRandom(d.b.vals)
	if proj != "" {
		ca, cb := challengeInputs(va), challengeInputs(vb)
		if proj == "challenges" {
			d.part("challenge inputs", setDiff(ca, cb, d.a.r.st.fs().with(d.a.pre)))
			if len(cb) == 0 {
				d.part("challenge inputs", []string{"the reference has no challenges"})
			}
			return d
		}
		matchSets(ca, cb, d.a.r.st.fs().with(d.a.pre))
		ma, mb := map[*Term]*Term{}, map[*Term]*Term{}
		for t := range ca {
			if !cb[t] {
				ma[t] = raw("anychal", "")
			}
		}
		for t := range cb {
			if !ca[t] {
				mb[t] = raw("anychal", "")
			}
		}
		for i := range va {
			va[i] = subst(va[i], ma)
		}
		for i := range vb {
			vb[i] = subst(vb[i], mb)
		}
	}
	d.part("precondition", decide("precondition", d.a.pre, d.b.pre, base))
	if len(va) != len(vb) || d.a.r.st.dead != d.b.r.st.dead {
		d.part("results", []string{"different number of results"})
		return d
	}
	for i := range vb {
		w := fmt.Sprintf("result %d", i)
		if k := i - (len(vb) - len(d.effects)); k >= 0 {
			w = "contents of input " + d.effects[k]
		}
		d.part(w, decide(w, va[i], vb[i], d.a.r.st.fs()))
	}
	return d
}

// challengeInputs are the transcript outputs values depend on.
func challengeInputs(ts []*Term) map[*Term]bool {
	out := map[*Term]bool{}
	for _, t := range ts {
		collect(t, func(x *Term) bool {
			if x.op == "app" && (x.s == "xof" || x.s == "challenge") {
				out[x] = true
				return false
			}
			return true
		})
	}
	return out
}

// matchSets removes the members of a and b that are equal by case distinction.
func matchSets(a, b map[*Term]bool, f *factsT) {
	for t := range a {
		if b[t] {
			continue
		}
		for u := range b {
			if !a[u] && len(differ("", t, u, f, 0)) == 0 {
				delete(a, t)
				delete(b, u)
				break
			}
		}
	}
}

func setDiff(a, b map[*Term]bool, f *factsT) []string {
	matchSets(a, b, f)
	var x, y []*Term
	for t := range a {
		if !b[t] {
			x = append(x, t)
		}
	}
	for t := range b {
		if !a[t] {
			y = append(y, t)
		}
	}
	if len(x) == 0 && len(y) == 0 {
		return nil
	}
	sort.Slice(x, func(i, j int) bool { return x[i].id < x[j].id })
	sort.Slice(y, func(i, j int) bool { return y[i].id < y[j].id })
	if len(x) == 1 && len(y) == 1 {
		return []string{explain("challenge", x[0], y[0])}
	}
	var out []string
	for i := 0; i < len(x) && i < len(y); i++ {
		out = append(out, explain("challenge", x[i], y[i]))
	}
	for i := len(y); i < len(x); i++ {
		out = append(out, "challenge derived from: "+x[i].String())
	}
	for i := len(x); i < len(y); i++ {
		out = append(out, "challenge not derived from: "+y[i].String())
	}
	return out
}

// decide reports how two value graphs differ, if neither way of comparing finds them equal.
func decide(what string, a, b *Term, f *factsT) []string {
	out := differ(what, a, b, f, 0)
	if len(out) > 0 && sameByCases(a, b, f) {
		return nil
	}
	return out
}

// differ reports how two value graphs differ, after distinguishing the cases of the
// closed conditions that occur in them.
func differ(what string, a, b *Term, f *factsT, depth int) []string {
	if a == b {
		return nil
	}
	if isConnective(a) || isConnective(b) {
		steps := 4000
		if x, y := boolDiff(a, b, f, &steps); x == y {
			return nil
		}
		if x, y := canonical(a, f), canonical(b, f); x == y {
			return nil
		} else if os.Getenv("DBGC") != "" {
			dbgSkel("code", x)
			dbgSkel("spec", y)
		}
	}
	if c := closedDecision(a, b); c != nil && depth < 6 {
		var out []string
		for _, v := range []*Term{c, not(c)} {
			g := f.with(v)
			x, y := normalise(assume(a, c, v == c), g), normalise(assume(b, c, v == c), g)
			out = append(out, differ(what, x, y, g, depth+1)...)
			if len(out) > 0 {
				break
			}
		}
		return out
	}
	return []string{explain(what, a, b)}
}

func isConnective(t *Term) bool { return t.op == "and" || t.op == "or" || t.op == "not" }

// boolDiff looks for a case in which two conditions differ, distinguishing the cases of the
// atoms they are built from. It returns what they are in that case, or equal terms.
func boolDiff(a, b *Term, f *factsT, steps *int) (*Term, *Term) {
	if a == b {
		return a, b
	}
	var c *Term
	var atom func(t *Term)
	atom = func(t *Term) {
		if isConnective(t) {
			for _, x := range t.args {
				atom(x)
			}
			return
		}
		if len(t.fv) == 0 && !hasBound(t) && t != tTrue && t != tFalse && (c == nil || atomID(t) < atomID(c)) {
			c = t
		}
	}
	atom(a)
	atom(b)
	*steps--
	if c == nil || *steps < 0 || !isConnective(a) && !isConnective(b) && a != tTrue && a != tFalse && b != tTrue && b != tFalse {
		return a, b
	}
	for _, v := range []*Term{c, not(c)} {
		if f.simp(v) == tFalse {
			continue
		}
		g := f.with(v)
		x, y := boolDiff(g.simp(assume(a, c, v == c)), g.simp(assume(b, c, v == c)), g, steps)
		if x != y {
			return x, y
		}
	}
	return tTrue, tTrue
}

// closedDecision is the first condition without bound variables that guards a part of a or b.
func closedDecision(ts ...*Term) *Term {
	var best *Term
	seen := map[*Term]bool{}
	var atom func(c *Term)
	atom = func(c *Term) {
		switch c.op {
		case "and", "or", "not":
			for _, x := range c.args {
				atom(x)
			}
			return
		}
		if c.h == 0 && len(c.fv) == 0 && !hasBound(c) && c != tTrue && c != tFalse && (best == nil || atomID(c) < atomID(best)) {
			best = c
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "ite" {
			atom(t.args[0])
		}
		for _, m := range t.monos {
			for _, a := range m.at {
				walk(a)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return best
}

// hasBound reports whether a term without binders mentions bound variables.
func hasBound(t *Term) bool {
	found := false
	collect(t, func(x *Term) bool {
		found = found || x.op == "bv" || x.op == "ba"
		return !found
	})
	return found
}

// explain names the smallest differing subterms.
func explain(what string, a, b *Term) string {
	var out []string
	explainTo(&out, what, a, b)
	if len(out) == 0 {
		out = append(out, fmt.Sprintf("%s:\n    code: %s\n    spec: %s", what, a, b))
	}
	if len(out) > 8 {
		out = append(out[:8], "...")
	}
	return strings.Join(out, "\n  ")
}

// parts of an n-ary commutative node.
func commParts(t *Term) []*Term {
	if t.pk != 0 {
		var r []*Term
		for _, m := range t.monos {
			r = append(r, mkPoly(t.pk, []mono{m}))
		}
		return r
	}
	if t.op == "and" || t.op == "or" || t.op == "anyof" || t.op == "app" && commutes(t.s) {
		return t.args
	}
	return nil
}

func subterms(t *Term) map[*Term]bool {
	m := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if m[t] {
			return
		}
		m[t] = true
		for _, mo := range t.monos {
			for _, a := range mo.at {
				walk(a)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return m
}

func similarity(a, b *Term) float64 {
	x, y := subterms(a), subterms(b)
	n := 0
	for t := range x {
		if y[t] {
			n++
		}
	}
	s := float64(n) / float64(len(x)+len(y)-n)
	if a.op == b.op && a.s == b.s {
		s += 1
	}
	return s
}

func explainTo(out *[]string, path string, a, b *Term) {
	if a == b || len(*out) > 8 {
		return
	}
	leaf := func() {
		if a.op == "bv" && b.op == "bv" || a.op == "ba" && b.op == "ba" {
			// renumbered because of a difference elsewhere
			return
		}
		*out = append(*out, fmt.Sprintf("%s:\n    code: %s\n    spec: %s", path, a, b))
	}
	pair := func(x, y []*Term) {
		in := map[*Term]bool{}
		for _, t := range y {
			in[t] = true
		}
		var da, db []*Term
		for _, t := range x {
			if in[t] {
				delete(in, t)
			} else {
				da = append(da, t)
			}
		}
		for _, t := range y {
			if in[t] {
				db = append(db, t)
			}
		}
		for len(da) > 0 && len(db) > 0 {
			bi, bj, bs := 0, 0, -1.0
			for i := range da {
				for j := range db {
					if s := similarity(da[i], db[j]); s > bs {
						bi, bj, bs = i, j, s
					}
				}
			}
			if bs < 0.3 && (len(da) > 1 || len(db) > 1) {
				break
			}
			explainTo(out, path+"/"+a.op, da[bi], db[bj])
			da = append(da[:bi:bi], da[bi+1:]...)
			db = append(db[:bj:bj], db[bj+1:]...)
		}
		for _, t := range da {
			*out = append(*out, fmt.Sprintf("%s:\n    only in code: %s", path+"/"+a.op, t))
		}
		for _, t := range db {
			*out = append(*out, fmt.Sprintf("%s:\n    only in spec: %s", path+"/"+a.op, t))
		}
	}
	switch {
	case a.pk != 0 && a.pk == b.pk && len(a.monos) == 1 && len(b.monos) == 1 && a.monos[0].c.Cmp(b.monos[0].c) == 0 && len(a.monos[0].at) == len(b.monos[0].at):
		if len(a.monos[0].at) > 1 {
			pair(a.monos[0].at, b.monos[0].at)
		} else if len(a.monos[0].at) == 1 {
			explainTo(out, path, a.monos[0].at[0], b.monos[0].at[0])
		} else {
			leaf()
		}
	case a.pk != 0 && a.pk == b.pk, (a.op == "and" || a.op == "or" || a.op == "anyof") && a.op == b.op, a.op == "app" && b.op == "app" && a.s == b.s && commutes(a.s):
		if len(commParts(a)) == 0 || len(commParts(b)) == 0 || len(commParts(a)) == 1 && len(commParts(b)) == 1 {
			leaf()
			return
		}
		pair(commParts(a), commParts(b))
	case a.pk == 0 && b.pk == 0 && a.op == b.op && a.s == b.s && len(a.args) == len(b.args) && len(a.args) > 0:
		for i := range a.args {
			p := path + fmt.Sprintf("/%s%d", a.op, i)
			if a.op == "app" {
				p = path + fmt.Sprintf("/%s%d", a.s, i)
			}
			if a.op == "struct" {
				p += "." + structFields(a)[i]
			}
			explainTo(out, p, a.args[i], b.args[i])
		}
	default:
		leaf()
	}
}
