package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
)

// Engine evaluates functions of the module to value graphs.
type Engine struct {
	prog     *Program
	pooled   int            // buffers taken from pools
	taken    map[*Term]bool // the same, as objects
	loops    []qv           // enclosing loops
	stack    []*types.Func
	models   map[string]modelFn
	opaque   map[string]bool // functions that are not inlined
	override map[string]*Term
	closures map[*Term]*closure
	paths    map[string]int
	notes    []string
	noteSet  map[string]bool
	readMemo map[readKey]*Term
	recMemo  map[*types.Func]bool
	mutMemo  map[*types.Func]map[types.Object]bool
	inlined  map[*FuncInfo]bool
	budget   int
	rings    *ringLog
	trace    func(fn *types.Func, st *State, args []*Term, res []*Term)
	locTyp   map[string]types.Type
	nLoops   int
	nReads   int
	nCarr    int
	assumed  []*Term
	ends     []*Term // what ends the loops without a condition
	splits   []*Term
	defs     map[*Term]*Term
	uncut    map[string]bool // functions whose summaries are not used
	allocLen map[string]alloc
	objDom   map[string][]qv // the loops an object is allocated in
	born     map[string]int  // when an object was last allocated
	nobj     int
	whole    map[string]map[string]bool // arrays carried as a whole by a loop
}

type closure struct {
	lit *ast.FuncLit
	fr  *Frame
}

type modelFn func(c *callCtx) []*Term

type callCtx struct {
	e    *Engine
	fr   *Frame
	st   *State
	call *ast.CallExpr
	fn   *types.Func
	recv *Term // receiver value (reference for pointer-like receivers)
	args []*Term
	key  string     // deterministic name of the call instance
	rt   types.Type // static type of the receiver
	name string     // name of the callee
}

func newEngine(p *Program) *Engine {
	lenPatterns = nil
	e := &Engine{objDom: map[string][]qv{}, born: map[string]int{}, prog: p, models: map[string]modelFn{}, opaque: map[string]bool{}, override: map[string]*Term{},
		closures: map[*Term]*closure{}, paths: map[string]int{}, noteSet: map[string]bool{},
		readMemo: map[readKey]*Term{}, recMemo: map[*types.Func]bool{}, mutMemo: map[*types.Func]map[types.Object]bool{},
		inlined: map[*FuncInfo]bool{}, budget: 400000, locTyp: map[string]types.Type{},
		defs: map[*Term]*Term{}, uncut: map[string]bool{}, allocLen: map[string]alloc{}, whole: map[string]map[string]bool{}}
	registerModels(e)
	return e
}

func (e *Engine) note(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	if !e.noteSet[s] {
		e.noteSet[s] = true
		e.notes = append(e.notes, s)
	}
}

// Frame is the activation of a function (or closure).
type Frame struct {
	e      *Engine
	pkg    *Pkg
	name   string
	info   *types.Info
	env    map[types.Object]*Term // cells of mutable variables
	vals   map[types.Object]*Term // values of variables that are assigned once
	mut    map[types.Object]bool
	targs  map[*types.TypeParam]types.Type
	path   string
	sig    *types.Signature
	named  []types.Object
	defers *[]func(*State)
}

type exit struct {
	st    *State
	vals  []*Term
	label string
}

type flow struct {
	rets, brks, conts []exit
}

func (e *Engine) pathID(s string) string {
	if id, ok := e.paths[s]; ok {
		return fmt.Sprintf("%d", id)
	}
	e.paths[s] = len(e.paths) + 1
	return fmt.Sprintf("%d", len(e.paths))
}

// key is the deterministic name of a program point in this activation.
func (fr *Frame) key(n ast.Node) string {
	p := fr.e.prog.Fset.Position(n.Pos())
	return fr.name + "." + fr.e.pathID(fmt.Sprintf("%s|%s:%d:%d", fr.path, p.Filename, p.Line, p.Column))
}

func (e *Engine) loopVars() []*Term {
	var ks []*Term
	for _, q := range e.loops {
		ks = append(ks, q.v)
	}
	return ks
}

// alloc is the length of an allocated array in terms of the arguments of the object.
type alloc struct {
	args []*Term
	n    *Term
}

// arrayLen is the length of the array o refers to, if it is known.
func (e *Engine) arrayLen(o *Term) *Term {
	a, ok := e.allocLen[o.s]
	if o.op != "obj" || !ok || len(a.args) != len(o.args) {
		return nil
	}
	m := map[*Term]*Term{}
	for i, x := range a.args {
		m[x] = o.args[i]
	}
	return subst(a.n, m)
}

func (e *Engine) newObj(key string) *Term {
	e.objDom[key] = append([]qv(nil), e.loops...)
	e.nobj++
	e.born[key] = e.nobj
	return raw("obj", key, e.loopVars()...)
}

// objRange is the number of objects o stands for in its i-th argument.
func (e *Engine) objRange(o *Term, i int) *Term {
	d := e.objDom[o.s]
	if o.op != "obj" || len(d) != len(o.args) {
		return omega
	}
	m := map[*Term]*Term{}
	for j, x := range d {
		m[x.v] = o.args[j]
	}
	return subst(d[i].n, m)
}

// ---------- types ----------

func (fr *Frame) typ(x ast.Expr) types.Type { return fr.substT(fr.info.TypeOf(x)) }

func (fr *Frame) substT(t types.Type) types.Type {
	if tp, ok := t.(*types.TypeParam); ok {
		if r, ok := fr.targs[tp]; ok {
			return r
		}
	}
	return t
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func typeKey(t types.Type, targs map[*types.TypeParam]types.Type) string {
	var w func(t types.Type) string
	w = func(t types.Type) string {
		switch t := t.(type) {
		case *types.TypeParam:
			if r, ok := targs[t]; ok && r != t {
				if _, isTP := r.(*types.TypeParam); !isTP {
					return w(r)
				}
			}
			return "E"
		case *types.Named:
			s := t.Obj().Name()
			if t.Obj().Pkg() != nil {
				s = t.Obj().Pkg().Path() + "." + s
			}
			if ta := t.TypeArgs(); ta != nil {
				for i := 0; i < ta.Len(); i++ {
					s += "[" + w(ta.At(i)) + "]"
				}
			}
			return s
		case *types.Pointer:
			return "*" + w(t.Elem())
		case *types.Slice:
			return "[]" + w(t.Elem())
		case *types.Array:
			return fmt.Sprintf("[%d]", t.Len()) + w(t.Elem())
		}
		return t.String()
	}
	return w(t)
}

// isE reports whether t is a field element type (a pointer-like type implementing bignum.Uint).
func isE(t types.Type) bool {
	switch t := t.(type) {
	case *types.TypeParam:
		it, ok := t.Constraint().Underlying().(*types.Interface)
		if !ok {
			return false
		}
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() == "MustSetRandom" {
				return true
			}
		}
		if n, ok := t.Constraint().(*types.Named); ok && n.Obj().Name() == "Uint" {
			return true
		}
	case *types.Pointer:
		if n, ok := t.Elem().(*types.Named); ok && n.Obj().Name() == "Uint" && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			return true
		}
	}
	return false
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), pkg)
}

func isRingPoly(t types.Type) bool { return isNamed(t, "lattigo/v6/ring", "Poly") }

// isOpaqueStruct reports whether values of t are modelled by their content only.
func isOpaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	if opaqueJindo && n.Obj().Pkg().Path() == modPath+"/jindo" {
		switch n.Obj().Name() {
		case "Commitment", "Opening", "Proof":
			return true
		}
	}
	return !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && !isRingPoly(t)
}

// opaqueJindo is set where the proof system is analysed, which does not look into the parts of
// the polynomial commitment.
var opaqueJindo bool

// structOf returns the struct type of t if values of t are split into fields.
func structOf(t types.Type) *types.Struct {
	if t == nil || isRingPoly(t) || isOpaqueStruct(t) {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func isInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBoolTy(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isUnsigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// zero is the zero value of t.
func zero(t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return I(0)
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return strT("")
		case u.Info()&types.IsFloat != 0:
			return raw("flt", "0")
		}
	case *types.Struct:
		if s := structOf(t); s != nil {
			var fs []string
			var vs []*Term
			for i := 0; i < s.NumFields(); i++ {
				fs = append(fs, s.Field(i).Name())
				vs = append(vs, zero(s.Field(i).Type()))
			}
			return structT("", fs, vs)
		}
		return tNil
	}
	return tNil
}

// ---------- memory ----------

type readKey struct {
	log   *node
	facts *plist
	loc   *Term
}

func compatRoot(p, t *Term) bool {
	if p == t {
		return true
	}
	if p.op != t.op {
		return false
	}
	return p.s == t.s && len(p.args) == len(t.args)
}

// read returns the value at a location; def is the value if nothing was written.
func (e *Engine) read(st *State, root *Term, path string, idx []*Term, def func() *Term) *Term {
	loc := raw("loc", path, append([]*Term{root}, idx...)...)
	rk := readKey{st.log, st.facts, loc}
	if r, ok := e.readMemo[rk]; ok {
		return r
	}
	e.nReads++
	// the coefficients of a ring element are also changed by writing the element as a whole
	cpath, coef := strings.CutSuffix(path, ".Coeffs[#][#]")
	cpath += "!"
	type gv struct{ c, v *Term }
	var acc []gv
	f := st.fs()
	done := false
	for n := st.log; n != nil; n = n.prev {
		s := n.st
		whole := coef && s.path == cpath && compatRoot(s.root, root) && len(s.idx) == len(idx)-2
		if !whole && (s.path != path || !compatRoot(s.root, root) || len(s.idx) != len(idx)) {
			continue
		}
		s = s.pattern()
		q := map[*Term]*Term{}
		for _, x := range s.q {
			q[x.v] = x.n
		}
		b := binding{}
		var conds []*Term
		ok := unify(f, s.root, root, q, b, &conds)
		for i := 0; ok && i < len(s.idx); i++ {
			ok = unify(f, s.idx[i], idx[i], q, b, &conds)
		}
		if !ok {
			continue
		}
		for i := len(s.q) - 1; i >= 0; i-- {
			if b[s.q[i].v] == nil {
				// written by every iteration: the last one wins
				if s.q[i].n == omega {
					b[s.q[i].v] = raw("last", "", omega)
				} else {
					b[s.q[i].v] = e.lastIteration(s.q[i].v, subI(subst(s.q[i].n, b), I(1)), subst(s.guard, b))
					conds = append(conds, ge0(b[s.q[i].v]))
				}
			}
		}
		c := f.simp(and(append(conds, subst(s.guard, b))...))
		if c == tFalse {
			continue
		}
		v := subst(s.val, b)
		if whole {
			v = coefR(v, idx[len(idx)-2], idx[len(idx)-1])
		}
		acc = append(acc, gv{c, v})
		if c == tTrue {
			done = true
			break
		}
	}
	var r *Term
	if done {
		r = acc[len(acc)-1].v
		acc = acc[:len(acc)-1]
	} else {
		r = def()
	}
	for i := len(acc) - 1; i >= 0; i-- {
		r = ite(acc[i].c, acc[i].v, r)
	}
	r = st.simpT(r)
	e.readMemo[rk] = r
	return r
}

// lastIteration is the last v <= top for which the guard may hold: where it bounds v from above
// the bound, otherwise top.
func (e *Engine) lastIteration(v, top, guard *Term) *Term {
	if !guard.has(v) {
		return top
	}
	cs := []*Term{guard}
	if guard.op == "and" {
		cs = guard.args
	}
	for _, c := range cs {
		if !c.has(v) {
			continue
		}
		if c.op == "ge0" || c.op == "eq0" && c.s == "I" {
			if up := addI(c.args[0], v); !up.has(v) { // up - v
				top = minmax("min", top, up)
				continue
			}
			if lo := subI(c.args[0], v); !lo.has(v) { // v + lo
				if c.op == "eq0" {
					top = minmax("min", top, negP('I', lo))
				}
				continue
			}
		}
		e.note("a location written by several iterations under a condition on the iteration")
		if debugLoop != "" {
			fmt.Println("lastIteration", v, c)
		}
	}
	return top
}

// initial is the value of a location before the analysed function started.
func (e *Engine) initial(root *Term, path string, idx []*Term, t types.Type) *Term {
	switch root.op {
	case "obj":
		if t == nil && strings.HasSuffix(path, "!") {
			return tZero
		}
		return zero(t)
	case "nil":
		return zero(t)
	}
	r := raw("init", path, append([]*Term{root}, idx...)...)
	if r.typ == nil && t != nil {
		r.typ = t
		switch under(t).(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan:
			refInit[r] = true
		}
		if isE(t) || isRingPoly(t) || isOpaqueStruct(t) {
			refInit[r] = true
		}
	}
	if len(e.override) > 0 {
		if o, ok := e.override[r.String()]; ok {
			return o
		}
	}
	return r
}

func init() {
	nonnegInitHook = func(a *Term) bool {
		t, ok := a.typ.(types.Type)
		return ok && isInt(t)
	}
}

// split separates a pointer term into base, path and indices.
func split(p *Term) (*Term, string, []*Term) {
	if p.op == "ptr" {
		return p.args[0], p.s, p.args[1:]
	}
	return p, "", nil
}

// load reads the value of type t at pointer p.
func (e *Engine) load(st *State, p *Term, t types.Type) *Term {
	if p.op == "ite" {
		return ite(p.args[0], e.load(st, p.args[1], t), e.load(st, p.args[2], t))
	}
	if p.op == "val" {
		return p.args[0]
	}
	base, path, idx := split(p)
	if base.op == "ite" {
		return ite(base.args[0], e.load(st, mkPtr(base.args[1], path, idx...), t), e.load(st, mkPtr(base.args[2], path, idx...), t))
	}
	if base.op == "val" && path != "" {
		return e.projPath(base.args[0], path, idx)
	}
	if base.op == "fold" && path == "!" && base.s == "" {
		if v := e.foldContent(st, base, 0); v != nil {
			return v
		}
	}
	if s := structOf(t); s != nil {
		var fs []string
		var vs []*Term
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			fs = append(fs, f.Name())
			vs = append(vs, e.load(st, mkPtr(p, "."+f.Name()), f.Type()))
		}
		return structT("", fs, vs)
	}
	if isOpaqueStruct(t) {
		// the value is its content
		return e.load(st, mkPtr(p, "!"), nil)
	}
	if a, ok := under(t).(*types.Array); ok {
		j := raw("kv", fmt.Sprintf("arr%d@%s", a.Len(), path))
		n := I(a.Len())
		body := e.load(st.with(ltI(j, n)), mkPtr(p, "[#]", j), a.Elem())
		return mkVec(n, j, body)
	}
	if isCoefSlice(t) && (strings.HasSuffix(path, ".Coeffs") || strings.HasSuffix(path, ".Coeffs[#]")) {
		return p
	}
	if cp, ok := strings.CutSuffix(path, ".Coeffs[#][#]"); ok && t != nil && isInt(t) {
		n := len(idx) - 2
		return e.read(st, base, path, idx, func() *Term { return coefR(e.initR(base, cp, idx[:n]), idx[n], idx[n+1]) })
	}
	return e.read(st, base, path, idx, func() *Term { return e.initial(base, path, idx, t) })
}

// foldContent is the content of the object that a loop selects last.
func (e *Engine) foldContent(st *State, t *Term, kind byte) *Term {
	k, acc := freshVar("kv", "f"), freshVar("mu", "f")
	ok := true
	var leaf func(x *Term) *Term
	leaf = func(x *Term) *Term {
		switch {
		case x == acc:
			return x
		case x.op == "ite" && !x.args[0].has(acc):
			return ite(x.args[0], leaf(x.args[1]), leaf(x.args[2]))
		case x.has(acc):
			ok = false
			return x
		case x == tNil:
			return x
		}
		if kind == 0 {
			return e.content(st, x)
		}
		return e.contentK(st, x, kind)
	}
	body := leaf(openFold(t, k, acc))
	init := t.args[1]
	if init.op != "obj" && init.op != "nil" && init != tNil {
		init = leaf(init)
	}
	if !ok {
		return nil
	}
	return mkFold("", t.args[0], init, k, acc, body)
}

// isCoefSlice recognises the types of the coefficient storage of ring elements.
func isCoefSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	if r, ok := under(s.Elem()).(*types.Slice); ok {
		s = r
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint64
}

// with returns a copy of st with extra facts (not path conditions).
func (st *State) with(cs ...*Term) *State {
	c := st.fork()
	for _, x := range cs {
		c.addFact(x, false)
	}
	return c
}

func (e *Engine) projPath(v *Term, path string, idx []*Term) *Term {
	for path != "" {
		switch path[0] {
		case '.':
			end := strings.IndexAny(path[1:], ".[!")
			if end < 0 {
				end = len(path) - 1
			}
			v = projT(v, path[1:1+end])
			path = path[1+end:]
		case '[':
			v = elemAt(v, idx[0])
			idx = idx[1:]
			path = path[3:]
		default:
			return raw("content", "", v)
		}
	}
	return v
}

// store writes v of type t at pointer p.
func (e *Engine) store(st *State, p *Term, t types.Type, v *Term) {
	e.storeQ(st, nil, p, t, v, tTrue)
}

func (e *Engine) storeQ(st *State, q []qv, p *Term, t types.Type, v, guard *Term) {
	if p.op == "ite" {
		c := p.args[0]
		e.storeQ(st, q, p.args[1], t, st.simpAssume(v, c), and(guard, c))
		e.storeQ(st, q, p.args[2], t, st.simpAssume(v, not(c)), and(guard, not(c)))
		return
	}
	base, path, idx := split(p)
	if base.op == "ite" {
		c := base.args[0]
		e.storeQ(st, q, mkPtr(base.args[1], path, idx...), t, st.simpAssume(v, c), and(guard, c))
		e.storeQ(st, q, mkPtr(base.args[2], path, idx...), t, st.simpAssume(v, not(c)), and(guard, not(c)))
		return
	}
	if base.op == "val" || base.op == "nil" {
		// a conditional store through nil is a path that panics
		if g := st.simp(guard); g != tFalse && (base.op != "nil" || g == tTrue) {
			at := ""
			if n := len(e.stack); n > 0 {
				at = e.stack[n-1].Name()
			}
			e.note("undecided: store into %s in %s if %s", p, at, guard)
		}
		return
	}
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			e.storeQ(st, q, mkPtr(p, "."+f.Name()), f.Type(), projZ(v, f), guard)
		}
		return
	}
	if isOpaqueStruct(t) {
		path += "!"
	}
	if a, ok := under(t).(*types.Array); ok {
		j := raw("kv", fmt.Sprintf("arr%d'%s", a.Len(), path))
		val := zero(a.Elem())
		if v != tNil {
			val = elemAt(v, j)
		}
		e.storeQ(st, append(append([]qv(nil), q...), qv{j, I(a.Len())}), mkPtr(p, "[#]", j), a.Elem(), val, guard)
		return
	}
	guard = st.simp(guard)
	if guard == tFalse {
		return
	}
	st.push(&store{q: q, root: base, path: path, idx: idx, val: v, guard: guard})
	if t != nil && len(q) == 0 {
		e.locTyp[base.op+base.s+path] = t
	}
}

func projZ(v *Term, f *types.Var) *Term {
	if v == tNil {
		return zero(f.Type())
	}
	return projT(v, f.Name())
}

// content reads the content of the object r refers to.
func (e *Engine) content(st *State, r *Term) *Term {
	return e.load(st, mkPtr(r, "!"), nil)
}

// setContent writes the content of the object r refers to.
func (e *Engine) setContent(st *State, r, v *Term) {
	e.store(st, mkPtr(r, "!"), nil, v)
}

// contentK reads the content of a numeric object of kind k.
func (e *Engine) contentK(st *State, r *Term, k byte) *Term {
	if r.op == "ite" {
		return ite(r.args[0], e.contentK(st, r.args[1], k), e.contentK(st, r.args[2], k))
	}
	base, path, idx := split(mkPtr(r, "!"))
	if base.op == "ite" || base.op == "val" {
		return e.content(st, r)
	}
	if base.op == "fold" && base.s == "" && path == "!" {
		if v := e.foldContent(st, base, k); v != nil {
			return v
		}
	}
	if k == 'R' {
		if c, ok := e.rawRing(st, r); ok {
			return c
		}
	}
	return fixZero(e.read(st, base, path, idx, func() *Term {
		if base.op == "obj" {
			return kconst(k, 0)
		}
		return e.initial(base, path, idx, nil)
	}), k)
}

// elemPtr is the address of element i of slice or list s.
func (e *Engine) elemPtr(st *State, s, i *Term) *Term {
	switch s.op {
	case "slice":
		return e.elemPtr(st, s.args[0], addI(s.args[1], i))
	case "ite":
		return ite(s.args[0], e.elemPtr(st, s.args[1], i), e.elemPtr(st, s.args[2], i))
	case "append":
		n := lenOf(s.args[0])
		r := raw("val", "", s.args[len(s.args)-1])
		for x := len(s.args) - 2; x >= 1; x-- {
			r = ite(eq0('I', subI(i, addI(n, I(int64(x-1))))), raw("val", "", s.args[x]), r)
		}
		return ite(st.simp(ltI(i, n)), e.elemPtr(st, s.args[0], i), r)
	case "concat":
		n := lenOf(s.args[0])
		return ite(st.simp(ltI(i, n)), e.elemPtr(st, s.args[0], i), e.elemPtr(st, s.args[1], subI(i, n)))
	case "build":
		n := lenOf(s.args[2])
		return ite(st.simp(ltI(i, n)), e.elemPtr(st, s.args[2], i), raw("val", "", openB(s, subI(i, n))))
	case "vec", "vecof":
		return raw("val", "", elemAt(s, i))
	case "view":
		return shiftPtr(s.args[0], i)
	}
	return mkPtr(s, "[#]", i)
}

// shiftPtr is the address i elements after p.
func shiftPtr(p, i *Term) *Term {
	switch {
	case p.op == "ite":
		return ite(p.args[0], shiftPtr(p.args[1], i), shiftPtr(p.args[2], i))
	case p.op == "ptr" && strings.HasSuffix(p.s, "[#]"):
		a := append([]*Term(nil), p.args...)
		a[len(a)-1] = addI(a[len(a)-1], i)
		return raw("ptr", p.s, a...)
	}
	return mkPtr(p, "[#]", i)
}

func (e *Engine) loadElem(st *State, s, i *Term, t types.Type) *Term {
	return e.load(st, e.elemPtr(st, s, i), t)
}

// ---------- merging ----------

func lcaLog(a, b *node) *node {
	for a != b {
		if a.depth() >= b.depth() {
			a = a.prev
		} else {
			b = b.prev
		}
	}
	return a
}

func lcaFacts(a, b *plist) *plist {
	for a != b {
		if a.depth() >= b.depth() {
			a = a.prev
		} else {
			b = b.prev
		}
	}
	return a
}

func pcSince(f, base *plist) *Term {
	var cs []*Term
	for p := f; p != base; p = p.prev {
		if p.pc {
			cs = append(cs, p.c)
		}
	}
	return and(cs...)
}

// npSince are the conditions without which the code since base panics.
func npSince(f, base *plist) *Term {
	var cs []*Term
	for p := f; p != base; p = p.prev {
		if p.np {
			cs = append(cs, p.c)
		}
	}
	return and(cs...)
}

// panicked turns the path condition at into one without which the code panics, for all that follows it.
func panicked(at, base *plist) {
	if at != base {
		at.pc, at.np = false, true
	}
}

func suffix(l, base *node) []*store {
	var out []*store
	for n := l; n != base; n = n.prev {
		out = append(out, n.st)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// merge2 joins two live states; the result takes a's values under the returned condition.
func (e *Engine) merge2(a, b *State) (*State, *Term) {
	if a.dead {
		return b, tFalse
	}
	if b.dead {
		return a, tTrue
	}
	fb := lcaFacts(a.facts, b.facts)
	lb := lcaLog(a.log, b.log)
	base := factSet(fb)
	ca, cb := base.simp(pcSince(a.facts, fb)), base.simp(pcSince(b.facts, fb))
	r := &State{log: lb, facts: fb}
	c := ca
	if ca == tFalse {
		return b, tFalse
	}
	if cb == tFalse {
		return a, tTrue
	}
	d := base.simp(or(ca, cb))
	if d != tTrue {
		// the rest panics; what tells the two apart decides
		if x := apart(ca, cb); x != nil {
			c = x
		}
	}
	nc := not(c)
	add := func(ss []*store, g *Term) {
		for _, s := range ss {
			ng := base.simp(and(s.guard, g))
			if ng == tFalse {
				continue
			}
			x := *s
			x.guard, x.pat = ng, nil
			r.push(&x)
		}
	}
	add(suffix(a.log, lb), c)
	add(suffix(b.log, lb), nc)
	if d != tTrue {
		r.assume(d)
	}
	na, nb := npSince(a.facts, fb), npSince(b.facts, fb)
	r.require(base.simp(and(or(nc, na), or(c, nb))))
	return r, c
}

// lastDisjunct drops the conjunct of c that is the only disjunct of g the others leave.
func lastDisjunct(c, g *Term) *Term {
	for _, y := range conj(c) {
		rest := map[*Term]bool{}
		var xs []*Term
		for _, x := range conj(c) {
			if x != y {
				rest[x] = true
				xs = append(xs, x)
			}
		}
		only := true
		for _, d := range g.args {
			only = only && (d == y || rest[not(d)])
		}
		if only {
			return and(xs...)
		}
	}
	return c
}

// apart is the part of a that b contradicts, or nil.
func apart(a, b *Term) *Term {
	in := map[*Term]bool{}
	for _, x := range conj(b) {
		in[x] = true
	}
	c := tTrue
	for _, x := range conj(a) {
		if in[not(x)] {
			c = and(c, x)
		}
	}
	if c == tTrue {
		return nil
	}
	return c
}

func conj(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

// mergeExits joins the states of several exits and their values.
func (e *Engine) mergeExits(xs []exit) exit {
	var live []exit
	for _, x := range xs {
		if !x.st.dead {
			live = append(live, x)
		}
	}
	if len(live) == 0 {
		return exit{st: &State{dead: true}}
	}
	acc := live[len(live)-1]
	for i := len(live) - 2; i >= 0; i-- {
		x := live[i]
		st, c := e.merge2(x.st, acc.st)
		vals := make([]*Term, len(x.vals))
		for j := range vals {
			vals[j] = ite(c, x.vals[j], acc.vals[j])
		}
		acc = exit{st: st, vals: vals}
	}
	return acc
}

// ---------- statements ----------

func (fr *Frame) block(st *State, list []ast.Stmt, fl *flow) {
	for _, s := range list {
		if st.dead {
			return
		}
		fr.stmt(st, s, fl, "")
	}
}

func (fr *Frame) stmt(st *State, s ast.Stmt, fl *flow, label string) {
	e := fr.e
	e.budget--
	if e.budget < 0 {
		panic(undecided("analysis budget exceeded in " + fr.name))
	}
	switch s := s.(type) {
	case *ast.BlockStmt:
		fr.block(st, s.List, fl)
	case *ast.ExprStmt:
		fr.evalMulti(st, s.X)
	case *ast.EmptyStmt:
	case *ast.LabeledStmt:
		fr.stmt(st, s.Stmt, fl, s.Label.Name)
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		for _, sp := range gd.Specs {
			vs, ok := sp.(*ast.ValueSpec)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			if len(vs.Values) == 0 {
				for _, id := range vs.Names {
					fr.declare(st, id, zero(fr.substT(fr.info.Defs[id].Type())))
				}
				continue
			}
			vals := fr.evalList(st, vs.Values, len(vs.Names))
			for i, id := range vs.Names {
				fr.declare(st, id, vals[i])
			}
		}
	case *ast.AssignStmt:
		fr.assign(st, s)
	case *ast.IncDecStmt:
		p := fr.addr(st, s.X)
		t := fr.typ(s.X)
		v := e.load(st, p, t)
		op, d := token.ADD, I(1)
		switch {
		case isFloat(t):
			d = raw("flt", "1")
			if s.Tok == token.DEC {
				op = token.SUB
			}
		case s.Tok == token.DEC:
			d = I(-1)
		}
		e.store(st, p, t, fr.binop(st, op, v, d, t))
	case *ast.ReturnStmt:
		var vals []*Term
		if len(s.Results) == 0 {
			for _, o := range fr.named {
				vals = append(vals, fr.getVar(st, o))
			}
		} else {
			vals = fr.evalList(st, s.Results, fr.sig.Results().Len())
			if fr.named != nil {
				for i, o := range fr.named {
					fr.setVar(st, o, vals[i])
				}
			}
		}
		if !st.dead {
			fl.rets = append(fl.rets, exit{st: st.fork(), vals: vals})
			st.left = true
		}
		st.dead = true
	case *ast.IfStmt:
		if s.Init != nil {
			fr.stmt(st, s.Init, fl, "")
		}
		if st.dead {
			return
		}
		c := st.simp(fr.eval(st, s.Cond))
		if st.dead {
			return
		}
		fr.branch(st, c, func(st *State) { fr.block(st, s.Body.List, fl) }, func(st *State) {
			if s.Else != nil {
				fr.stmt(st, s.Else, fl, "")
			}
		})
	case *ast.SwitchStmt:
		fr.switchStmt(st, s, fl, label)
	case *ast.TypeSwitchStmt:
		fr.typeSwitch(st, s, fl, label)
	case *ast.ForStmt:
		fr.forStmt(st, s, fl, label)
	case *ast.RangeStmt:
		fr.rangeStmt(st, s, fl, label)
	case *ast.BranchStmt:
		x := exit{st: st.fork()}
		if s.Label != nil {
			x.label = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			fl.brks = append(fl.brks, x)
		case token.CONTINUE:
			fl.conts = append(fl.conts, x)
		default:
			e.note("%s: unsupported branch %s", fr.e.prog.pos(s.Pos()), s.Tok)
		}
		st.dead, st.left = true, true
	case *ast.DeferStmt:
		// evaluated at function exit; only pure releases are deferred in this module
		call := s.Call
		*fr.defers = append(*fr.defers, func(st *State) { fr.evalMulti(st, call) })
	default:
		e.note("%s: unsupported statement %T", e.prog.pos(s.Pos()), s)
	}
}

// branch runs two alternatives and joins them.
func (fr *Frame) branch(st *State, c *Term, yes, no func(*State)) {
	switch c {
	case tTrue:
		yes(st)
		return
	case tFalse:
		no(st)
		return
	}
	a, b := st.fork(), st.fork()
	a.assume(c)
	b.assume(not(c))
	pa, pb := a.facts, b.facts
	yes(a)
	no(b)
	switch {
	case a.dead && b.dead:
		st.dead, st.left = true, a.left || b.left
		return
	case a.dead && !a.left:
		panicked(pb, st.facts)
	case b.dead && !b.left:
		panicked(pa, st.facts)
	}
	m, _ := fr.e.merge2(a, b)
	*st = *m
}

func (fr *Frame) switchStmt(st *State, s *ast.SwitchStmt, fl *flow, label string) {
	if s.Init != nil {
		fr.stmt(st, s.Init, fl, "")
	}
	var tag *Term
	var tagT types.Type
	if s.Tag != nil {
		tag = fr.eval(st, s.Tag)
		tagT = fr.typ(s.Tag)
	}
	inner := &flow{}
	var dflt *ast.CaseClause
	var run func(st *State, i int)
	cases := s.Body.List
	run = func(st *State, i int) {
		if st.dead {
			return
		}
		if i == len(cases) {
			if dflt != nil {
				fr.block(st, dflt.Body, inner)
			}
			return
		}
		cc := cases[i].(*ast.CaseClause)
		if cc.List == nil {
			dflt = cc
			run(st, i+1)
			return
		}
		var cs []*Term
		for _, x := range cc.List {
			v := fr.eval(st, x)
			if tag != nil {
				v = fr.compare(token.EQL, tag, v, tagT)
			}
			cs = append(cs, v)
		}
		fr.branch(st, st.simp(or(cs...)), func(st *State) { fr.block(st, cc.Body, inner) }, func(st *State) { run(st, i+1) })
	}
	run(st, 0)
	fr.joinBreaks(st, inner, fl, label)
}

// joinBreaks merges unlabelled breaks of a switch into st and forwards the other exits.
func (fr *Frame) joinBreaks(st *State, inner, fl *flow, label string) {
	fl.rets = append(fl.rets, inner.rets...)
	fl.conts = append(fl.conts, inner.conts...)
	xs := []exit{{st: st.fork()}}
	for _, x := range inner.brks {
		if x.label == "" || x.label == label {
			xs = append(xs, exit{st: x.st})
		} else {
			fl.brks = append(fl.brks, x)
		}
	}
	if len(xs) > 1 {
		*st = *fr.e.mergeExits(xs).st
	}
}

func (fr *Frame) typeSwitch(st *State, s *ast.TypeSwitchStmt, fl *flow, label string) {
	var x ast.Expr
	var bound *ast.Ident
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		x = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		x = a.Rhs[0].(*ast.TypeAssertExpr).X
		bound = a.Lhs[0].(*ast.Ident)
	}
	v := fr.eval(st, x)
	// the static type of the operand, looking through any(...)
	var dyn types.Type
	if call, ok := x.(*ast.CallExpr); ok && len(call.Args) == 1 {
		dyn = fr.typ(call.Args[0])
	}
	inner := &flow{}
	var dflt *ast.CaseClause
	var run func(st *State, i int)
	run = func(st *State, i int) {
		if i == len(s.Body.List) {
			if dflt != nil {
				fr.block(st, dflt.Body, inner)
			}
			return
		}
		cc := s.Body.List[i].(*ast.CaseClause)
		if cc.List == nil {
			dflt = cc
			run(st, i+1)
			return
		}
		var cs []*Term
		for _, tx := range cc.List {
			t := fr.info.TypeOf(tx)
			if dyn != nil {
				if _, isIface := dyn.Underlying().(*types.Interface); !isIface || isTypeParamBound(dyn) {
					cs = append(cs, boolT(typeKey(dyn, fr.targs) == typeKey(t, fr.targs)))
					continue
				}
			}
			cs = append(cs, raw("istype", typeKey(t, fr.targs), v))
		}
		fr.branch(st, or(cs...), func(st *State) {
			if bound != nil {
				if o := fr.info.Implicits[cc]; o != nil {
					fr.vals[o] = v
				}
			}
			fr.block(st, cc.Body, inner)
		}, func(st *State) { run(st, i+1) })
	}
	run(st, 0)
	fr.joinBreaks(st, inner, fl, label)
}

func isTypeParamBound(t types.Type) bool {
	_, ok := t.(*types.TypeParam)
	return ok
}

// declare introduces a variable.
func (fr *Frame) declare(st *State, id *ast.Ident, v *Term) {
	if id.Name == "_" {
		return
	}
	o := fr.info.Defs[id]
	if o == nil {
		fr.setVar(st, fr.info.Uses[id], v)
		return
	}
	fr.bindObj(st, o, v)
}

func (fr *Frame) bindObj(st *State, o types.Object, v *Term) {
	if !fr.mut[o] {
		fr.vals[o] = v
		return
	}
	pos := fr.e.prog.Fset.Position(o.Pos())
	cell := fr.e.newObj("L" + fr.name + "." + o.Name() + "." + fr.e.pathID(fmt.Sprintf("%s|%s:%d:%d", fr.path, pos.Filename, pos.Line, pos.Column)))
	fr.env[o] = cell
	fr.e.store(st, cell, fr.substT(o.Type()), v)
}

func (fr *Frame) getVar(st *State, o types.Object) *Term {
	if v, ok := fr.vals[o]; ok {
		return v
	}
	if c, ok := fr.env[o]; ok {
		return fr.e.load(st, c, fr.substT(o.Type()))
	}
	if v, ok := o.(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		if fr.e.prog.sentinel(v) {
			return raw("err", "")
		}
		return fr.e.load(st, raw("global", v.Pkg().Path()+"."+v.Name()), v.Type())
	}
	fr.e.note("unbound variable %s in %s", o.Name(), fr.name)
	return raw("unbound", o.Name())
}

func (fr *Frame) setVar(st *State, o types.Object, v *Term) {
	if c, ok := fr.env[o]; ok {
		fr.e.store(st, c, fr.substT(o.Type()), v)
		return
	}
	if vv, ok := o.(*types.Var); ok && vv.Pkg() != nil && vv.Parent() == vv.Pkg().Scope() {
		fr.e.store(st, raw("global", vv.Pkg().Path()+"."+vv.Name()), vv.Type(), v)
		return
	}
	fr.e.note("assignment to immutable binding %s in %s", o.Name(), fr.name)
}

func (fr *Frame) assign(st *State, s *ast.AssignStmt) {
	e := fr.e
	switch s.Tok {
	case token.DEFINE, token.ASSIGN:
		vals := fr.evalList(st, s.Rhs, len(s.Lhs))
		if st.dead {
			return
		}
		if s.Tok == token.DEFINE {
			for i, l := range s.Lhs {
				fr.declare(st, l.(*ast.Ident), vals[i])
			}
			return
		}
		ptrs := make([]*Term, len(s.Lhs))
		for i, l := range s.Lhs {
			if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
				continue
			}
			ptrs[i] = fr.addr(st, l)
		}
		for i, l := range s.Lhs {
			if ptrs[i] != nil {
				e.store(st, ptrs[i], fr.typ(l), vals[i])
			}
		}
	default:
		op := s.Tok - token.ADD_ASSIGN + token.ADD
		if s.Tok == token.AND_NOT_ASSIGN {
			op = token.AND_NOT
		}
		p := fr.addr(st, s.Lhs[0])
		t := fr.typ(s.Lhs[0])
		r := fr.eval(st, s.Rhs[0])
		e.store(st, p, t, fr.binop(st, op, e.load(st, p, t), r, t))
	}
}

func (fr *Frame) evalList(st *State, xs []ast.Expr, n int) []*Term {
	if len(xs) == 1 && n > 1 {
		vs := fr.evalMulti(st, xs[0])
		for len(vs) < n {
			vs = append(vs, raw("unk", fr.key(xs[0])+fmt.Sprint(len(vs))))
		}
		return vs
	}
	var vs []*Term
	for _, x := range xs {
		vs = append(vs, fr.eval(st, x))
	}
	return vs
}

// ---------- loops ----------

func (fr *Frame) forStmt(st *State, s *ast.ForStmt, fl *flow, label string) {
	if s.Init != nil {
		fr.stmt(st, s.Init, fl, "")
	}
	if st.dead {
		return
	}
	fr.runLoop(st, fl, fr.key(s), label, nil, func(st *State, k *Term, lf *flow) *Term {
		c := tTrue
		if s.Cond != nil {
			c = fr.eval(st, s.Cond)
			st.addFact(c, false)
		}
		fr.block(st, s.Body.List, lf)
		fr.joinConts(st, lf, label)
		if s.Post != nil && !st.dead {
			fr.stmt(st, s.Post, lf, "")
		}
		return c
	})
}

func (fr *Frame) joinConts(st *State, lf *flow, label string) {
	xs := []exit{}
	for _, x := range lf.conts {
		if x.label == "" || x.label == label {
			xs = append(xs, exit{st: x.st})
		} else {
			lf.brks = append(lf.brks, exit{st: x.st, label: "continue " + x.label})
		}
	}
	lf.conts = nil
	if len(xs) == 0 {
		return
	}
	xs = append(xs, exit{st: st.fork()})
	*st = *fr.e.mergeExits(xs).st
}

func (fr *Frame) rangeStmt(st *State, s *ast.RangeStmt, fl *flow, label string) {
	e := fr.e
	t := fr.typ(s.X)
	var kid, vid ast.Expr = s.Key, s.Value
	bindTo := func(st *State, x ast.Expr, v *Term) {
		if x == nil {
			return
		}
		if id, ok := x.(*ast.Ident); ok && id.Name == "_" {
			return
		}
		if s.Tok == token.DEFINE {
			fr.declare(st, x.(*ast.Ident), v)
		} else {
			e.store(st, fr.addr(st, x), fr.typ(x), v)
		}
	}
	key := fr.key(s)
	if p, ok := under(t).(*types.Pointer); ok {
		if _, ok := under(p.Elem()).(*types.Array); ok {
			t = p.Elem()
		}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		var n *Term
		if u.Info()&types.IsInteger != 0 {
			n = fr.eval(st, s.X)
		} else {
			n = lenOf(fr.eval(st, s.X))
		}
		fr.runLoop(st, fl, key, label, n, func(st *State, k *Term, lf *flow) *Term {
			bindTo(st, kid, k)
			if vid != nil {
				bindTo(st, vid, raw("unk", key+"rune", k))
			}
			fr.block(st, s.Body.List, lf)
			fr.joinConts(st, lf, label)
			return nil
		})
	case *types.Slice, *types.Array:
		var n *Term
		var elem func(st *State, k *Term) *Term
		if a, ok := u.(*types.Array); ok {
			n = I(a.Len())
			var p *Term
			if _, isPtr := under(fr.typ(s.X)).(*types.Pointer); isPtr {
				p = fr.eval(st, s.X)
			} else if fr.addressable(s.X) {
				p = fr.addr(st, s.X)
			} else {
				v := fr.eval(st, s.X)
				p = raw("val", "", v)
			}
			elem = func(st *State, k *Term) *Term { return e.load(st, e.elemPtr(st, p, k), a.Elem()) }
		} else {
			sl := fr.eval(st, s.X)
			n = lenOf(sl)
			et := u.(*types.Slice).Elem()
			elem = func(st *State, k *Term) *Term { return e.loadElem(st, sl, k, et) }
		}
		iter := func(st *State, k *Term, lf *flow) *Term {
			bindTo(st, kid, k)
			if vid != nil {
				bindTo(st, vid, elem(st, k))
			}
			fr.block(st, s.Body.List, lf)
			fr.joinConts(st, lf, label)
			return nil
		}
		if c, ok := constOf(n); ok && c.IsInt64() && c.Int64() <= 16 {
			if _, lit := ast.Unparen(s.X).(*ast.CompositeLit); lit || c.Int64() <= 4 {
				fr.unroll(st, fl, label, int(c.Int64()), iter)
				return
			}
		}
		fr.runLoop(st, fl, key, label, n, iter)
	case *types.Map:
		m := fr.eval(st, s.X)
		n := lenOf(m)
		e.note("maprange %s", e.prog.pos(s.Pos()))
		fr.runLoop(st, fl, key, label, n, func(st *State, k *Term, lf *flow) *Term {
			kind := "" // what is known of the keys
			if b, ok := under(u.Key()).(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				kind = "u"
			}
			mk := raw("mapkey", kind, m, k)
			bindTo(st, kid, mk)
			if vid != nil {
				bindTo(st, vid, e.load(st, mkPtr(m, "[#]", mk), u.Elem()))
			}
			fr.block(st, s.Body.List, lf)
			fr.joinConts(st, lf, label)
			return nil
		})
	default:
		e.note("%s: unsupported range over %s", e.prog.pos(s.Pos()), t)
		fr.eval(st, s.X)
		st.dead = true
	}
}

// unroll runs a loop over a few listed values one iteration after the other.
func (fr *Frame) unroll(st *State, fl *flow, label string, n int, iter func(st *State, k *Term, lf *flow) *Term) {
	var outs []exit
	path := fr.path
	for i := 0; i < n && !st.dead; i++ {
		fr.path = fmt.Sprintf("%s#%d", path, i)
		lf := &flow{}
		iter(st, I(int64(i)), lf)
		fl.rets = append(fl.rets, lf.rets...)
		for _, x := range lf.brks {
			if x.label == "" || x.label == label {
				outs = append(outs, exit{st: x.st})
			} else if l, ok := strings.CutPrefix(x.label, "continue "); ok {
				fl.conts = append(fl.conts, exit{st: x.st, label: l})
			} else {
				fl.brks = append(fl.brks, x)
			}
		}
	}
	fr.path = path
	if len(outs) > 0 {
		outs = append(outs, exit{st: st.fork()})
		*st = *fr.e.mergeExits(outs).st
	}
}

// carr is a location (or a family of locations) carried around a loop.
type carr struct {
	key    string
	q      []qv
	root   *Term
	path   string
	idx    []*Term
	exact  bool
	pat    string // exact pattern of the stores that led to it
	mu     *Term
	closed func(k *Term) *Term // induction variable
	prefix func(k *Term, q []*Term) *Term
	init   *Term
	b      *Term
	known  *Term // value independent of the loop-carried state
	typ    types.Type
	id     string
	local  bool
}

func (c *carr) acc() *Term {
	if len(c.q) == 0 {
		return c.mu
	}
	var a []*Term
	for _, x := range c.q {
		a = append(a, x.v)
	}
	return raw("at", "", append([]*Term{c.mu}, a...)...)
}

func hasTerm(t, x *Term) bool {
	if x.op == "kv" || x.op == "mu" {
		return t.has(x)
	}
	found := false
	collect(t, func(y *Term) bool {
		if y == x {
			found = true
		}
		return !found
	})
	return found
}

// runLoop summarises a loop. iter runs one iteration with index k on the given state and
// returns the loop condition (nil if the trip count n is given).
func (fr *Frame) runLoop(st *State, fl *flow, key, label string, n *Term, iter func(st *State, k *Term, lf *flow) *Term) {
	fr.runLoopN(st, fl, key, label, n, nil, 0, iter)
}

// runLoopN takes the number of iterations found by an earlier attempt: the first iteration
// whose condition does not hold, in terms of the solved loop state.
func (fr *Frame) runLoopN(st *State, fl *flow, key, label string, n, trip *Term, tries int, iter func(st *State, k *Term, lf *flow) *Term) {
	e := fr.e
	e.nLoops++
	if n != nil && (isConst(n, 0) || st.simp(eq0('I', n)) == tTrue) {
		return
	}
	base := st.fork()
	k := raw("kv", key)
	_ = k
	var cs []*carr
	var ix []*carr
	byKey := map[string]*carr{}
	ixKey := map[string]*carr{}

	var fin *State
	var lf *flow
	var cond *Term
	var mark *node
	known := n
	if n == nil {
		known = trip
	}
	dom := known
	if dom == nil {
		dom = omega
	}
	isLocal := func(sx *store) bool {
		return sx.root.op == "obj" && strings.HasPrefix(sx.root.s, "L") && len(sx.q) == 0 && len(sx.idx) == 0 && !sx.root.has(k)
	}
	noClose := map[string]bool{}
	// dropMemory forgets the memory locations found under outdated assumptions on the locals
	dropMemory := func() {
		var keep []*carr
		for _, c := range cs {
			if c.local || c.closed != nil {
				keep = append(keep, c)
			}
		}
		cs = keep
		byKey = map[string]*carr{}
		for _, c := range cs {
			byKey[c.id] = c
		}
		ix = nil
		ixKey = map[string]*carr{}
	}
	notes0 := len(e.notes)
	for round := 0; ; round++ {
		for _, n := range e.notes[notes0:] { // of provisional rounds
			delete(e.noteSet, n)
		}
		e.notes = e.notes[:notes0]
		if round > 24 {
			e.note("loop at %s does not stabilise", key)
			break
		}
		s := base.fork()
		if known != nil {
			s.addFact(ltI(k, known), false)
			s.addFact(ge0(subI(known, I(1))), false)
		}
		for _, c := range cs {
			v := c.acc()
			if c.closed != nil {
				v = c.closed(k)
			}
			s.push(&store{q: c.q, root: c.root, path: c.path, idx: c.idx, val: v, guard: tTrue})
		}
		km := raw("kv", key+"m")
		cur := raw("kv", key+"cur")
		for i, c := range ix {
			m := map[*Term]*Term{k: km}
			// of two elements at one location the one of the later iteration counts
			guard := tTrue
			for _, a := range ix[:i] {
				o := overwritten(base, &store{q: a.q, root: a.root, path: a.path, idx: a.idx, guard: tTrue},
					&store{q: c.q, root: c.root, path: c.path, idx: c.idx, guard: tTrue}, k, cur, key, func(t, at *Term) *Term { return t })
				guard = and(guard, not(subst(o, map[*Term]*Term{k: km, cur: k})))
			}
			if c.known != nil {
				sx := &store{q: append([]qv{{km, k}}, substQ(c.q, m)...), root: subst(c.root, m), path: c.path, val: subst(c.known, m), guard: guard}
				for _, i := range c.idx {
					sx.idx = append(sx.idx, subst(i, m))
				}
				s.push(sx)
				continue
			}
			a := []*Term{c.mu, km}
			for _, x := range c.q {
				a = append(a, x.v)
			}
			sx := &store{q: append([]qv{{km, k}}, substQ(c.q, m)...), root: subst(c.root, m), path: c.path, val: raw("at", "", a...), guard: guard}
			for _, i := range c.idx {
				sx.idx = append(sx.idx, subst(i, m))
			}
			s.push(sx)
		}
		mark = s.log
		lf = &flow{}
		e.loops = append(e.loops, qv{k, dom})
		cond = iter(s, k, lf)
		e.loops = e.loops[:len(e.loops)-1]
		fin = s

		changed := false
		// collect the written locations: local variables first
		visit := func(x *State, local bool) {
			for _, sx := range suffix(x.log, mark) {
				if debugLoop != "" && strings.HasPrefix(key, debugLoop) {
					fmt.Println("  round", round, "store", sx.root, sx.path, sx.idx, ":=", sx.val, "if", sx.guard, "q", len(sx.q))
				}
				if isLocal(sx) == local && fr.noteStore(sx, k, key, byKey, ixKey, &cs, &ix, local) {
					changed = true
				}
			}
		}
		visitAll := func(local bool) {
			if !fin.dead {
				visit(fin, local)
			}
			for _, x := range lf.brks {
				visit(x.st, local)
			}
			for _, x := range lf.rets {
				if !local { // a local that is only written on the way out is not carried
					visit(x.st, local)
				}
			}
		}
		visitAll(true)
		if changed {
			dropMemory()
			continue
		}
		// induction variables
		for _, c := range cs {
			if len(c.q) > 0 || fin.dead || noClose[c.id] {
				continue
			}
			b := e.read(fin, c.root, c.path, c.idx, func() *Term { return tNil })
			if c.closed != nil {
				if b != c.closed(addI(k, I(1))) {
					c.closed = nil
					noClose[c.id] = true
					changed = true
				}
				continue
			}
			d := subI(b, c.mu)
			if b.pk == 'I' || b == c.mu || isIntLike(b) {
				if !mentionsMu(d, cs) && !d.has(k) && !mentionsIx(d, ix) {
					i0 := e.read(base, c.root, c.path, c.idx, func() *Term { return e.initial(c.root, c.path, c.idx, c.typ) })
					if isIntLike(i0) || i0.pk == 'I' || i0.op == "init" || i0.op == "app" || i0.op == "at" {
						c.closed = func(k *Term) *Term { return addI(i0, mulI(k, d)) }
						changed = true
					}
				}
			}
		}
		if changed {
			dropMemory()
			continue
		}
		if known == nil && cond != nil {
			if t := tripCount(cond, k, cs, base); t != nil {
				known = t
				dom = t
				dropMemory()
				continue
			}
		}
		visitAll(false)
		if !changed && !fin.dead {
			// values that do not depend on the loop-carried state are known at once
			var keep []*carr
			for _, c := range ix {
				if c.known == nil {
					if v := finalIx(c, suffix(fin.log, mark), k, key); v != nil && !hasMu(v) && len(lf.brks) == 0 {
						c.known = v
						changed = true
					}
				}
				if c.known != nil {
					keep = append(keep, c)
				}
			}
			if changed && len(keep) < len(ix) {
				dropMemory()
				for _, c := range keep {
					ix = append(ix, c)
					ixKey[c.pat] = c
				}
			}
		}
		if !changed {
			break
		}
	}
	if known == nil && (cond == nil || cond == tTrue) { // it ends by other means
		known = omega
	}
	provisional := known == nil || n == nil && known == trip
	if known == nil {
		known = raw("trip", key, e.loopVars()...)
		dom = known
	}
	if known != trip {
		known = base.simpT(known)
	}

	// values at the end of an iteration, in terms of the values at its start
	within := func(s *State, q []qv) *State { // only existing elements
		s = s.fork()
		for _, x := range q {
			if x.n != omega && !x.n.has(k) {
				s.addFact(ge0(x.v), false)
				s.addFact(ltI(x.v, x.n), false)
			}
		}
		return s
	}
	for _, c := range cs {
		c.init = e.read(within(base, c.q), c.root, c.path, c.idx, func() *Term { return e.initial(c.root, c.path, c.idx, c.typ) })
		if !fin.dead {
			c.b = e.read(within(fin, c.q), c.root, c.path, c.idx, func() *Term { return e.initial(c.root, c.path, c.idx, c.typ) })
		} else {
			c.b = c.acc()
		}
		if c.closed != nil {
			cl := c.closed
			c.prefix = func(k *Term, q []*Term) *Term { return cl(k) }
		}
	}
	// recurrences on indexed locations
	var ixStores []*store
	if !fin.dead {
		for _, sx := range suffix(fin.log, mark) {
			if storeIndexed(sx, k) && (sx.root.has(k) || !e.whole[key][fmt.Sprint(rootKey(sx.root, sx.q), sx.path)]) {
				ixStores = append(ixStores, sx)
			}
		}
	}

	solved := map[*Term]*carr{}
	for _, c := range cs {
		if c.prefix != nil {
			solved[c.mu] = c
		}
	}
	ixSol := map[*Term]func(a []*Term) *Term{}
	sub := func(t, at *Term) *Term { // rewrite loop-carried values by their prefix values at iteration `at`
		return replaceMu(t, solved, ixSol, k, at)
	}
	for progress := true; progress; {
		progress = false
		for _, c := range cs {
			if c.prefix != nil {
				continue
			}
			b := sub(c.b, k)
			if othersMu(b, cs, ix, c, solved, ixSol) {
				continue
			}
			c.b = b
			c.prefix = fr.solve(c, k, key)
			solved[c.mu] = c
			progress = true
		}
		for _, c := range ix {
			if ixSol[c.mu] != nil || c.known != nil {
				continue
			}
			if f := fr.solveIx(c, ixStores, k, key, sub, cs, ix, solved, ixSol); f != nil {
				ixSol[c.mu] = f
				progress = true
			}
		}
	}
	for fr.solveJoint(cs, ix, solved, ixSol, k, key, sub) {
	}
	// locations that iterations share in an unresolved way are carried as whole arrays
	grown := false
	for _, c := range ix {
		if ixSol[c.mu] != nil || c.known != nil || c.root.has(k) {
			continue
		}
		used := false
		see := func(t *Term) { used = used || t != nil && t.has(c.mu) }
		for _, d := range cs {
			see(d.b)
		}
		for _, sx := range ixStores {
			see(sx.val)
			see(sx.guard)
			for _, i := range sx.idx {
				see(i)
			}
		}
		for _, x := range append(append([]exit(nil), lf.brks...), lf.rets...) {
			see(pcSince(x.st.facts, base.facts))
			for _, v := range x.vals {
				see(v)
			}
		}
		id := fmt.Sprint(rootKey(c.root, c.q), c.path)
		if used && !e.whole[key][id] {
			if e.whole[key] == nil {
				e.whole[key] = map[string]bool{}
			}
			e.whole[key][id] = true
			grown = true
		}
	}
	if grown {
		fr.runLoopN(st, fl, key, label, n, trip, tries, iter)
		return
	}
	if provisional && cond != nil && tries < 4 {
		if c := sub(cond, k); !mentionsMu(c, cs) && !mentionsIx(c, ix) && !hasTerm(c, raw("trip", key, e.loopVars()...)) {
			if t := bind("first", "", omega, k, not(c)); t != trip {
				fr.runLoopN(st, fl, key, label, n, t, tries+1, iter)
				return
			}
		}
	}
	for _, c := range cs {
		if c.prefix == nil {
			name := "coupled:" + key + ":" + c.key
			e.note("coupled loop state %s", name)
			cc := c
			c.prefix = func(at *Term, q []*Term) *Term {
				return raw("app", name, append([]*Term{at}, q...)...)
			}
			solved[cc.mu] = cc
		}
	}
	for _, c := range ix {
		if ixSol[c.mu] == nil && c.known == nil {
			name := "rec:" + key + ":" + c.key
			ixSol[c.mu] = func(a []*Term) *Term { return raw("app", name, a...) }
		}
	}

	// exits
	type xt struct {
		x   exit
		g   *Term
		ret bool
	}
	var xs []xt
	for _, x := range fr.groupExits(lf.brks) {
		xs = append(xs, xt{x, sub(pcSince(x.st.facts, base.facts), k), false})
	}
	for _, x := range fr.groupExits(lf.rets) {
		xs = append(xs, xt{x, sub(pcSince(x.st.facts, base.facts), k), true})
	}
	bs := base.fs()
	inner := bs.with(ltI(k, known))
	var gs []*Term
	for i := range xs {
		xs[i].g = inner.simp(xs[i].g)
		gs = append(gs, xs[i].g)
	}
	anyG := or(gs...)
	kp := raw("kv", key+"'")

	var scale map[*store]int64
	ixStores, scale = reroll(ixStores, k, sub)

	// effects of iterations [0, cnt)
	effects := func(s *State, cnt *Term) {
		for i, sx := range ixStores {
			m := map[*Term]*Term{k: kp}
			q := []qv{{kp, cnt}}
			if c := scale[sx]; c > 1 {
				q[0].n = scaleP('I', cnt, new(bigInt).SetInt64(c))
			}
			for _, y := range sx.q {
				q = append(q, qv{y.v, subst(sub(y.n, k), m)})
			}
			guard := inner.simp(sub(sx.guard, k))
			if scale[sx] <= 1 {
				for _, ax := range ixStores[:i] {
					if scale[ax] <= 1 {
						guard = and(guard, not(overwritten(base, ax, sx, k, cnt, key, sub)))
					}
				}
			}
			g := subst(guard, m)
			nx := &store{q: q, root: subst(sub(sx.root, k), m), path: sx.path, val: subst(sub(sx.val, k), m), guard: g}
			for _, i := range sx.idx {
				nx.idx = append(nx.idx, subst(sub(i, k), m))
			}
			if g != tFalse {
				s.push(nx)
			}
		}
		for _, c := range cs {
			var qa []*Term
			for _, y := range c.q {
				qa = append(qa, y.v)
			}
			v := c.prefix(cnt, qa)
			if v == c.init {
				continue
			}
			s.push(&store{q: c.q, root: c.root, path: c.path, idx: c.idx, val: s.simpT(v), guard: tTrue})
		}
	}
	partial := func(s *State, x exit, at *Term) {
		m := map[*Term]*Term{k: at}
		for _, sx := range suffix(x.st.log, mark) {
			nx := &store{root: subst(sub(sx.root, k), m), path: sx.path, val: subst(sub(sx.val, k), m), guard: subst(sub(sx.guard, k), m)}
			for _, y := range sx.q {
				nx.q = append(nx.q, qv{y.v, subst(sub(y.n, k), m)})
			}
			for _, i := range sx.idx {
				nx.idx = append(nx.idx, subst(sub(i, k), m))
			}
			s.push(nx)
		}
	}

	// what completed iterations need in order not to panic
	npf := tTrue
	if !fin.dead {
		npf = inner.simp(sub(npSince(fin.facts, base.facts), k))
	}

	// breaks that leave nothing behind only limit the number of iterations
	if anyG != tFalse && !fin.dead && known != omega {
		plain := true
		for _, x := range xs {
			own := x.x.label == "" || x.x.label == label
			plain = plain && !x.ret && own && len(suffix(x.x.st.log, mark)) == 0
		}
		if plain {
			s := base.fork()
			ran := not(anyG)
			if !monotone(anyG, k) {
				km := raw("kv", key+"b")
				ran = forall(addI(k, I(1)), km, subst(not(anyG), map[*Term]*Term{k: km}))
			}
			old := ixStores
			ixStores = nil
			for _, sx := range old {
				if scale[sx] > 1 {
					e.note("loop at %s: conditional unrolled stores", key)
				}
				c := *sx
				c.guard = and(c.guard, ran)
				c.pat = nil
				ixStores = append(ixStores, &c)
			}
			cs0 := cs
			cs = nil
			effects(s, known)
			cs, ixStores = cs0, nil
			first := bind("first", "", known, k, anyG)
			some := bs.simp(exists(known, k, anyG))
			n := ite(some, first, known)
			effects(s, n)
			s.require(bs.simp(forall(n, k, npf)))
			for _, x := range xs {
				np := sub(npSince(x.x.st.facts, base.facts), k)
				s.require(s.fs().simp(or(not(some), subst(or(not(x.g), np), map[*Term]*Term{k: first}))))
			}
			*st = *s
			return
		}
	}

	var outs []exit
	if anyG != tFalse {
		first := bind("first", "", known, k, anyG)
		if anyG == tTrue {
			first = I(0)
		}
		if known == omega && len(e.loopVars()) == 0 {
			e.ends = append(e.ends, subst(anyG, map[*Term]*Term{k: first}))
		}
		for _, x := range xs {
			if x.g == tFalse {
				continue
			}
			s := base.fork()
			var c *Term
			switch {
			case known == omega: // a loop that does not end has no result
				c = tTrue
				if len(xs) > 1 && x.g != anyG {
					c = subst(x.g, map[*Term]*Term{k: first})
					g := subst(anyG, map[*Term]*Term{k: first})
					c = assume(c, g, true)
					for _, y := range conj(g) {
						c = assume(c, y, true)
						if y.op == "or" {
							c = lastDisjunct(c, y)
						}
					}
				}
			case len(xs) == 1 || x.g == anyG:
				c = exists(known, k, x.g)
			default:
				c = and(ltI(first, known), subst(x.g, map[*Term]*Term{k: first}))
			}
			c = bs.simp(c)
			if c == tFalse {
				continue
			}
			s.assume(c)
			if known != omega {
				s.addFact(ltI(first, known), false)
			}
			effects(s, first)
			partial(s, x.x, first)
			s.require(bs.simp(forall(first, k, npf)))
			s.require(s.fs().simp(subst(sub(npSince(x.x.st.facts, base.facts), k), map[*Term]*Term{k: first})))
			var vals []*Term
			for _, v := range x.x.vals {
				vals = append(vals, subst(sub(v, k), map[*Term]*Term{k: first}))
			}
			if x.ret {
				fl.rets = append(fl.rets, exit{st: s, vals: vals})
			} else if x.x.label != "" && x.x.label != label {
				if strings.HasPrefix(x.x.label, "continue ") {
					fl.conts = append(fl.conts, exit{st: s, label: strings.TrimPrefix(x.x.label, "continue ")})
				} else {
					fl.brks = append(fl.brks, exit{st: s, label: x.x.label})
				}
			} else {
				outs = append(outs, exit{st: s})
			}
		}
	}
	// normal termination
	s := base.fork()
	s.left = true
	if anyG != tFalse {
		s.assume(bs.simp(forall(known, k, not(anyG))))
	}
	if fin.dead && anyG == tTrue || known == omega {
		s.dead = true
	} else if fin.dead {
		// every iteration leaves the loop or panics
		s.assume(eq0('I', known))
	} else {
		effects(s, known)
		// conditions that every completed iteration established
		pc := inner.simp(sub(pcSince(fin.facts, base.facts), k))
		if pc != tTrue && anyG == tFalse {
			s.assume(bs.simp(forall(known, k, pc)))
		}
		s.require(bs.simp(forall(known, k, npf)))
	}
	s.left = s.left && s.dead
	outs = append(outs, exit{st: s})
	*st = *e.mergeExits(outs).st
	st.left = st.dead
}

// overwritten is the condition that what b stores in iteration k is overwritten by what a,
// which comes first in the body, stores in a later iteration before cnt.
func overwritten(base *State, a, b *store, k, cnt *Term, key string, sub func(t, at *Term) *Term) *Term {
	if a.path != b.path || !compatRoot(a.root, b.root) || len(a.idx) != len(b.idx) {
		return tFalse
	}
	same := a.root == b.root
	for i := range a.idx {
		same = same && a.idx[i] == b.idx[i]
	}
	if same {
		return tFalse
	}
	kl := raw("kv", key+"later")
	m := map[*Term]*Term{k: kl}
	q := map[*Term]*Term{kl: cnt}
	qs := []*Term{kl}
	for i, x := range a.q {
		v := raw("kv", key+"later"+strconv.Itoa(i))
		q[v] = subst(sub(x.n, k), m)
		m[x.v] = v
		qs = append(qs, v)
	}
	for _, v := range qs {
		q[v] = subst(q[v], m)
	}
	f := base.fork()
	f.addFact(ltI(k, cnt), false)
	f.addFact(ge0(k), false)
	for _, x := range b.q {
		n := sub(x.n, k)
		f.addFact(ge0(x.v), false)
		if n != omega {
			f.addFact(ltI(x.v, n), false)
		}
	}
	f.addFact(sub(b.guard, k), false)
	fs := f.fs()
	bd := binding{}
	var conds []*Term
	at := func(t *Term) *Term { return subst(sub(t, k), m) }
	if !unify(fs, at(a.root), sub(b.root, k), q, bd, &conds) {
		return tFalse
	}
	for i := range a.idx {
		if !unify(fs, at(a.idx[i]), sub(b.idx[i], k), q, bd, &conds) {
			return tFalse
		}
	}
	for i := len(qs) - 1; i >= 0; i-- {
		if v := bd[qs[i]]; v != nil && v.op == "sk" {
			return tFalse // not an invertible function of the iteration
		}
		if bd[qs[i]] == nil {
			if q[qs[i]] == omega {
				return tFalse
			}
			bd[qs[i]] = subI(subst(q[qs[i]], bd), I(1))
		}
	}
	conds = append(conds, ge0(subI(bd[kl], addI(k, I(1)))), subst(at(a.guard), bd))
	return fs.simp(and(conds...))
}

// monotone reports whether the condition stays true once it is true for some k.
func monotone(c, k *Term) bool {
	switch c.op {
	case "or", "and":
		for _, x := range c.args {
			if !monotone(x, k) {
				return false
			}
		}
		return true
	case "ge0":
		for _, m := range monosOf('I', c.args[0]) {
			n := 0
			for _, a := range m.at {
				if a == k {
					n++
				} else if a.has(k) {
					return false
				}
				if !nonnegAtom(a) && mkPoly('I', []mono{m}).has(k) {
					return false
				}
			}
			if n > 0 && m.c.Sign() < 0 {
				return false
			}
		}
		return true
	}
	return !c.has(k)
}

// groupExits merges the exits that leave the loop in the same way.
func (fr *Frame) groupExits(xs []exit) []exit {
	var out []exit
	var groups [][]exit
next:
	for _, x := range xs {
		for i, g := range groups {
			if g[0].label == x.label && len(g[0].vals) == len(x.vals) {
				same := true
				for j, v := range x.vals {
					same = same && v == g[0].vals[j]
				}
				if same {
					groups[i] = append(g, x)
					continue next
				}
			}
		}
		groups = append(groups, []exit{x})
	}
	for _, g := range groups {
		if len(g) == 1 {
			out = append(out, g[0])
			continue
		}
		x := fr.e.mergeExits(g)
		x.label, x.vals = g[0].label, g[0].vals
		out = append(out, x)
	}
	return out
}

func substQ(q []qv, m map[*Term]*Term) []qv {
	var out []qv
	for _, x := range q {
		out = append(out, qv{x.v, subst(x.n, m)})
	}
	return out
}

func mentionsMu(t *Term, cs []*carr) bool {
	for _, c := range cs {
		if t.has(c.mu) {
			return true
		}
	}
	return false
}

func mentionsIx(t *Term, ix []*carr) bool { return mentionsMu(t, ix) }

func othersMu(t *Term, cs, ix []*carr, self *carr, solved map[*Term]*carr, ixSol map[*Term]func([]*Term) *Term) bool {
	for _, c := range cs {
		if c != self && solved[c.mu] == nil && t.has(c.mu) {
			return true
		}
	}
	for _, c := range ix {
		if c != self && ixSol[c.mu] == nil && c.known == nil && t.has(c.mu) {
			return true
		}
	}
	return false
}

func replaceMu(t *Term, solved map[*Term]*carr, ixSol map[*Term]func([]*Term) *Term, k, at *Term) *Term {
	need := false
	for _, f := range t.fv {
		if f.op == "mu" {
			need = true
		}
	}
	if !need {
		return t
	}
	memo := map[*Term]*Term{}
	var rw func(t *Term) *Term
	rw = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		has := false
		for _, f := range t.fv {
			if f.op == "mu" {
				has = true
			}
		}
		if !has {
			return t
		}
		var r *Term
		if t.op == "mu" {
			r = t
			if c := solved[t]; c != nil && len(c.q) == 0 {
				r = c.prefix(at, nil)
			}
		} else if t.op == "at" && t.args[0].op == "mu" && solved[t.args[0]] != nil {
			var a []*Term
			for _, x := range t.args[1:] {
				a = append(a, rw(x))
			}
			r = solved[t.args[0]].prefix(at, a)
		} else if t.op == "at" && t.args[0].op == "mu" && ixSol[t.args[0]] != nil {
			var a []*Term
			for _, x := range t.args[1:] {
				a = append(a, rw(x))
			}
			r = ixSol[t.args[0]](a)
		} else if t.pk != 0 {
			r = kconst(t.pk, 0)
			for _, mn := range t.monos {
				p := kbig(t.pk, mn.c)
				for _, a := range mn.at {
					p = mulP(t.pk, p, rw(a))
				}
				r = addP(t.pk, r, p)
			}
		} else {
			args := make([]*Term, len(t.args))
			for i, a := range t.args {
				args[i] = rw(a)
			}
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rw(t)
}

func storeIndexed(s *store, k *Term) bool {
	if s.root.has(k) {
		return true
	}
	for _, i := range s.idx {
		if i.has(k) {
			return true
		}
	}
	return false
}

// noteStore records the location of a store; it reports whether it is new.
func (fr *Frame) noteStore(s *store, k *Term, key string, byKey, ixKey map[string]*carr, cs, ix *[]*carr, local bool) bool {
	e := fr.e
	typ := e.locTyp[s.root.op+s.root.s+s.path]
	whole := e.whole[key][fmt.Sprint(rootKey(s.root, s.q), s.path)] && !s.root.has(k)
	if storeIndexed(s, k) && !whole {
		// canonical pattern
		m := map[*Term]*Term{}
		var q []qv
		for i, x := range s.q {
			v := raw("kv", fmt.Sprintf("%s.q%d", key, i))
			m[x.v] = v
			q = append(q, qv{v, subst(x.n, m)})
		}
		c := &carr{q: q, root: subst(s.root, m), path: s.path, typ: typ}
		id := fmt.Sprint(c.root.id, c.path)
		for _, i := range s.idx {
			j := subst(i, m)
			c.idx = append(c.idx, j)
			id += fmt.Sprint(":", j.id)
		}
		if ixKey[id] != nil {
			return false
		}
		if len(*ix) > 200 {
			return false
		}
		e.nCarr++
		c.key = fmt.Sprintf("x%d", e.nCarr)
		c.pat = id
		c.mu = raw("mu", key+c.key, e.loopVars()...)
		ixKey[id] = c
		*ix = append(*ix, c)
		return true
	}
	pat := fmt.Sprint(s.path)
	for _, i := range s.idx {
		pat += fmt.Sprint(":", i.id)
	}
	for _, x := range s.q {
		pat += fmt.Sprint("/", x.n.id)
	}
	id := fmt.Sprint(rootKey(s.root, s.q), s.path)
	c := byKey[id]
	if c == nil {
		e.nCarr++
		c = &carr{key: fmt.Sprintf("c%d", e.nCarr), root: s.root, path: s.path, idx: s.idx, pat: pat, exact: len(s.q) == 0, typ: typ, id: id, local: local}
		c.mu = raw("mu", key+c.key, e.loopVars()...)
		if len(s.q) > 0 || whole {
			c.exact = false
			fr.generalise(c, s, key)
		}
		byKey[id] = c
		*cs = append(*cs, c)
		return true
	}
	if c.exact && c.pat != pat {
		c.exact = false
		c.closed = nil
		fr.generalise(c, s, key)
		return true
	}
	return false
}

func rootKey(r *Term, q []qv) string {
	qs := map[*Term]*Term{}
	for _, x := range q {
		qs[x.v] = x.n
	}
	if !hasAny(r, qs) {
		return fmt.Sprint(r.id)
	}
	// a family of roots indexed by the quantified variables
	return r.op + r.s + fmt.Sprint(len(r.args))
}

// generalise turns c into the family of all elements of its region.
func (fr *Frame) generalise(c *carr, s *store, key string) {
	cnt := 0
	c.q = nil
	nq := func() *Term {
		v := raw("kv", fmt.Sprintf("%s.%s.g%d", key, c.key, cnt))
		cnt++
		c.q = append(c.q, qv{v, omega})
		return v
	}
	qs := map[*Term]*Term{}
	for _, x := range s.q {
		qs[x.v] = x.n
	}
	m := map[*Term]*Term{}
	var gen func(t *Term) *Term
	gen = func(t *Term) *Term {
		if !hasAny(t, qs) {
			return t
		}
		if m[t] != nil {
			return m[t]
		}
		if t.pk == 'I' || t.op == "kv" {
			m[t] = nq()
			return m[t]
		}
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = gen(a)
		}
		r := raw(t.op, t.s, args...)
		if refInit[t] {
			refInit[r] = true
		}
		if r.typ == nil {
			r.typ = t.typ
		}
		return r
	}
	c.root = gen(s.root)
	c.idx = nil
	for range s.idx {
		c.idx = append(c.idx, nq())
	}
	for i, x := range c.root.args {
		for j := range c.q {
			if c.q[j].v == x {
				c.q[j].n = fr.e.objRange(c.root, i)
			}
		}
	}
	if n := fr.e.arrayLen(c.root); n != nil && strings.HasPrefix(c.path, "[#]") && len(c.idx) > 0 {
		for i := range c.q {
			if c.q[i].v == c.idx[0] {
				c.q[i].n = n
			}
		}
	}
}

// tripCount derives the number of iterations from an affine condition.
func tripCount(c, k *Term, cs []*carr, base *State) *Term {
	if mentionsMu(c, cs) {
		return nil
	}
	if c.op == "and" {
		var r *Term
		for _, x := range c.args {
			t := tripCount(x, k, cs, base)
			if t == nil {
				return nil
			}
			if r == nil {
				r = t
			} else {
				r = minmax("min", r, t)
			}
		}
		return r
	}
	if c == tTrue {
		return nil
	}
	if c.op == "not" && c.args[0].op == "eq0" && c.args[0].s == "I" {
		// i != n with unit step
		if s := solveFor(c.args[0].args[0], k); s != nil {
			return s
		}
	}
	if c.op != "ge0" {
		return nil
	}
	// a - s*k >= 0
	var coef *Term = I(0)
	rest := I(0)
	for _, m := range monosOf('I', c.args[0]) {
		cnt := 0
		var others []*Term
		for _, a := range m.at {
			if a == k {
				cnt++
			} else {
				if a.has(k) {
					return nil
				}
				others = append(others, a)
			}
		}
		switch cnt {
		case 0:
			rest = addI(rest, mkPoly('I', []mono{m}))
		case 1:
			coef = addI(coef, mkPoly('I', []mono{{m.c, others}}))
		default:
			return nil
		}
	}
	neg := negP('I', coef)
	if isConst(coef, 0) {
		return nil
	}
	if cc, ok := constOf(neg); ok && cc.Sign() > 0 {
		return base.fs().divF(addI(rest, neg), cc)
	}
	// symbolic positive step
	if _, ok := constOf(neg); !ok && intrinsicNonneg(neg) {
		return divI(addI(rest, neg), neg)
	}
	return nil
}

// lamQ abstracts v over the variables q.
func lamQ(q []qv, v *Term) *Term {
	for i := len(q) - 1; i >= 0; i-- {
		n := q[i].n
		if n == omega {
			n = I(0)
		}
		v = bindLamN(n, q[i].v, v)
	}
	return v
}

// atT applies a family of values to indices.
func atT(v *Term, q ...*Term) *Term {
	for len(q) > 0 {
		switch v.op {
		case "lam":
			v = openB(v, q[0])
		case "vec": // elements beyond the length do not exist
			v = openB(v, q[0])
		case "vecof":
			return atT(v.args[1], q...)
		default:
			goto done
		}
		q = q[1:]
	}
done:
	if len(q) == 0 {
		return v
	}
	if v.op == "ite" {
		return ite(v.args[0], atT(v.args[1], q...), atT(v.args[2], q...))
	}
	return raw("at", "", append([]*Term{v}, q...)...)
}

// tupT is a tuple, tprojT its component i.
func tupT(xs ...*Term) *Term { return raw("tup", "", xs...) }

func tprojT(i int, t *Term) *Term {
	switch t.op {
	case "tup":
		return t.args[i]
	case "ite":
		return ite(t.args[0], tprojT(i, t.args[1]), tprojT(i, t.args[2]))
	}
	return raw("tproj", strconv.Itoa(i), t)
}

// solveJoint solves a group of locations whose recurrences depend on each other.
func (fr *Frame) solveJoint(cs, ix []*carr, solved map[*Term]*carr, ixSol map[*Term]func([]*Term) *Term, k *Term, key string, sub func(t, at *Term) *Term) bool {
	var open []*carr
	dep := map[*carr]map[*carr]bool{}
	for _, c := range cs {
		if c.prefix != nil {
			continue
		}
		c.b = sub(c.b, k)
		bad := false
		for _, d := range ix {
			if d.known == nil && ixSol[d.mu] == nil && c.b.has(d.mu) {
				bad = true
			}
		}
		if !bad {
			open = append(open, c)
		}
	}
	isOpen := map[*carr]bool{}
	for _, c := range open {
		isOpen[c] = true
	}
	for _, c := range open {
		dep[c] = map[*carr]bool{}
		for _, d := range cs {
			if d.prefix == nil && c.b.has(d.mu) {
				dep[c][d] = true
			}
		}
	}
	// transitive closure
	for ch := true; ch; {
		ch = false
		for _, c := range open {
			for d := range dep[c] {
				for x := range dep[d] {
					if !dep[c][x] {
						dep[c][x] = true
						ch = true
					}
				}
			}
		}
	}
	var group []*carr
	for _, c := range open {
		var g []*carr
		ok := true
		for _, d := range cs { // in the order of discovery
			if d == c || dep[c][d] {
				ok = ok && isOpen[d]
				g = append(g, d)
			}
		}
		if ok && (group == nil || len(g) < len(group)) {
			group = g
		}
	}
	if group == nil {
		return false
	}
	a := raw("mu", key+"joint!")
	m := map[*Term]*Term{}
	for i, c := range group {
		m[c.mu] = tprojT(i, a)
	}
	var init, body []*Term
	for _, c := range group {
		init = append(init, lamQ(c.q, c.init))
		body = append(body, lamQ(c.q, subst(c.b, m)))
	}
	i0, b := tupT(init...), tupT(body...)
	for i, c := range group {
		i := i
		c.prefix = func(K *Term, q []*Term) *Term { return atT(tprojT(i, mkFold("", K, i0, k, a, b)), q...) }
		solved[c.mu] = c
	}
	// what was waiting for this group
	for progress := true; progress; {
		progress = false
		for _, c := range cs {
			if c.prefix != nil {
				continue
			}
			x := sub(c.b, k)
			if othersMu(x, cs, ix, c, solved, ixSol) {
				continue
			}
			c.b = x
			c.prefix = fr.solve(c, k, key)
			solved[c.mu] = c
			progress = true
		}
	}
	return true
}

// solve finds the value of c at the start of iteration K.
func (fr *Frame) solve(c *carr, k *Term, key string) func(K *Term, q []*Term) *Term {
	var qv0 []*Term
	for _, x := range c.q {
		qv0 = append(qv0, x.v)
	}
	inst := func(f func(K *Term) *Term) func(K *Term, q []*Term) *Term {
		return func(K *Term, q []*Term) *Term {
			r := f(K)
			if len(q) > 0 {
				m := map[*Term]*Term{}
				for i := range q {
					m[qv0[i]] = q[i]
				}
				r = subst(r, m)
			}
			return r
		}
	}
	b, init, acc := c.b, c.init, c.acc()
	if b == acc {
		return inst(func(K *Term) *Term { return init })
	}
	if !b.has(c.mu) {
		if b.has(k) && subst(b, map[*Term]*Term{k: I(-1)}) == init {
			return inst(func(K *Term) *Term { return subst(b, map[*Term]*Term{k: subI(K, I(1))}) })
		}
		return inst(func(K *Term) *Term {
			return ite(ge0(subI(K, I(1))), subst(b, map[*Term]*Term{k: subI(K, I(1))}), init)
		})
	}
	// only the accumulator itself may occur
	a := raw("mu", key+c.key+"!")
	b2 := subst(b, map[*Term]*Term{acc: a})
	if b2.has(c.mu) {
		// the whole family of locations is the accumulator
		a := raw("mu", key+c.key+"!")
		body := lamQ(c.q, subst(b, map[*Term]*Term{c.mu: a}))
		i0 := lamQ(c.q, init)
		return func(K *Term, q []*Term) *Term { return atT(mkFold("", K, i0, k, a, body), q...) }
	}
	// boolean accumulators
	if isBoolT(b2) {
		x1 := subst(b2, map[*Term]*Term{a: tTrue})
		x0 := subst(b2, map[*Term]*Term{a: tFalse})
		if x0 == tFalse {
			return inst(func(K *Term) *Term { return and(init, forall(K, k, x1)) })
		}
		if x1 == tTrue {
			return inst(func(K *Term) *Term { return or(init, exists(K, k, x0)) })
		}
	}
	for _, kind := range []byte{'I', 'F', 'R'} {
		if b2.pk == kind {
			d := subP(kind, b2, a)
			if !d.has(a) {
				kd := kind
				return inst(func(K *Term) *Term { return addP(kd, init, sum(kd, K, k, d)) })
			}
		}
	}
	if j, up := doubling(b2, a); j > 0 {
		return inst(func(K *Term) *Term {
			e := scaleP('I', K, big.NewInt(int64(j)))
			if up {
				return shlI(init, e)
			}
			return shrI(init, e)
		})
	}
	switch b2.op {
	case "append":
		if b2.args[0] == a && len(b2.args) == 2 && !b2.args[1].has(a) {
			x := b2.args[1]
			return inst(func(K *Term) *Term { return bindBuild(init, K, k, x) })
		}
	case "ite":
		// one value, taken in some iterations
		if x, g := onlyValue(b2, a); x != nil && x != a && !x.has(a) && !x.has(k) && !g.has(a) {
			return inst(func(K *Term) *Term { return ite(exists(K, k, g), x, init) })
		}
		g, x, y := b2.args[0], b2.args[1], b2.args[2]
		if !g.has(a) {
			if x == a {
				g, x, y = not(g), y, x
			}
			if y == a && x.op == "append" && x.args[0] == a && len(x.args) == 2 && !x.args[1].has(a) {
				el := raw("opt", "", g, x.args[1])
				return inst(func(K *Term) *Term { return bindBuild(init, K, k, el) })
			}
		}
	}
	return inst(func(K *Term) *Term { return mkFold("", K, init, k, a, b2) })
}

// onlyValue is the only value other than a among the branches of t, with the condition under which it is taken.
func onlyValue(t, a *Term) (*Term, *Term) {
	if t == a {
		return a, tFalse
	}
	if t.op != "ite" {
		return t, tTrue
	}
	x, gx := onlyValue(t.args[1], a)
	y, gy := onlyValue(t.args[2], a)
	if x == nil || y == nil {
		return nil, nil
	}
	if x == a {
		x = y
	}
	if y == a {
		y = x
	}
	if x != y {
		return nil, nil
	}
	return x, or(and(t.args[0], gx), and(not(t.args[0]), gy))
}

// doubling reports that b is a·2^j (up) or a/2^j.
func doubling(b, a *Term) (j int, up bool) {
	pow := func(c *big.Int) int {
		if c.Cmp(one) <= 0 || c.TrailingZeroBits()+1 != uint(c.BitLen()) {
			return 0
		}
		return c.BitLen() - 1
	}
	if b.pk == 'I' && len(b.monos) == 1 && len(b.monos[0].at) == 1 && b.monos[0].at[0] == a {
		return pow(b.monos[0].c), true
	}
	if d := soleAtom(b); d != nil {
		b = d
	}
	if b.op == "div" && b.args[0] == a {
		if c, ok := constOf(b.args[1]); ok {
			return pow(c), false
		}
	}
	return 0, false
}

// finalIx is the final value an iteration writes to c, or nil.
func finalIx(c *carr, ss []*store, k *Term, key string) *Term {
	var v *Term
	for _, s := range ss {
		m := map[*Term]*Term{}
		for i, x := range s.q {
			m[x.v] = raw("kv", fmt.Sprintf("%s.q%d", key, i))
		}
		id := fmt.Sprint(subst(s.root, m).id, s.path)
		for _, i := range s.idx {
			id += fmt.Sprint(":", subst(i, m).id)
		}
		if id != c.pat {
			continue
		}
		if s.guard != tTrue {
			return nil
		}
		v = subst(s.val, m)
	}
	return v
}

func hasMu(t *Term) bool {
	for _, f := range t.fv {
		if f.op == "mu" {
			return true
		}
	}
	return false
}

// solveIx solves recurrences a[f(k)] = B(k, a[f(k-1)]) on indexed locations.
func (fr *Frame) solveIx(c *carr, ss []*store, k *Term, key string, sub func(t, at *Term) *Term, cs, ix []*carr, solved map[*Term]*carr, ixSol map[*Term]func([]*Term) *Term) func([]*Term) *Term {
	v := finalIx(c, ss, k, key)
	if v == nil {
		return nil
	}
	v = sub(v, k)
	if othersMu(v, cs, ix, c, solved, ixSol) {
		return nil
	}
	var qs []*Term
	for _, x := range c.q {
		qs = append(qs, x.v)
	}
	mk := func(f func(K *Term) *Term) func([]*Term) *Term {
		return func(a []*Term) *Term {
			r := f(a[0])
			if len(a) > 1 {
				m := map[*Term]*Term{}
				for i, x := range a[1:] {
					m[qs[i]] = x
				}
				r = subst(r, m)
			}
			return r
		}
	}
	if !v.has(c.mu) {
		return mk(func(K *Term) *Term { return subst(v, map[*Term]*Term{k: K}) })
	}
	prev := raw("at", "", append([]*Term{c.mu, subI(k, I(1))}, qs...)...)
	// find ite(k>=1, prev, init0)
	var site *Term
	collect(v, func(t *Term) bool {
		if t.op == "ite" && (t.args[1] == prev || t.args[2] == prev) {
			site = t
		}
		return site == nil
	})
	arec := func() func([]*Term) *Term {
		if !c.root.has(k) {
			return nil
		}
		// a[k] is a function of k and of earlier elements
		a := raw("mu", key+c.key+"!")
		body := lamQ(c.q, subst(v, map[*Term]*Term{c.mu: a}))
		return func(ar []*Term) *Term {
			return atT(mkFold("arec", addI(ar[0], I(1)), I(0), k, a, body), ar[1:]...)
		}
	}
	if site == nil {
		return arec()
	}
	init0 := site.args[2]
	if site.args[2] == prev {
		init0 = site.args[1]
	}
	init0 = subst(init0, map[*Term]*Term{k: I(0)})
	a := raw("mu", key+c.key+"!")
	b := subst(v, map[*Term]*Term{site: a})
	if b.has(c.mu) || init0.has(c.mu) || init0.has(k) {
		return arec()
	}
	return mk(func(K *Term) *Term { return mkFold("", addI(K, I(1)), init0, k, a, b) })
}

// ---------- expressions ----------

func (fr *Frame) eval(st *State, x ast.Expr) *Term {
	vs := fr.evalMulti(st, x)
	if len(vs) == 0 {
		return tNil
	}
	return vs[0]
}

func constTerm(v constant.Value, t types.Type) *Term {
	switch v.Kind() {
	case constant.Bool:
		return boolT(constant.BoolVal(v))
	case constant.String:
		return strT(constant.StringVal(v))
	case constant.Int, constant.Float:
		if isInt(t) || (v.Kind() == constant.Int && !isFloat(t)) {
			if iv := constant.ToInt(v); iv.Kind() == constant.Int {
				b, _ := new(big.Int).SetString(iv.ExactString(), 10)
				return kbig('I', b)
			}
		}
		return raw("flt", v.ExactString())
	}
	return raw("const", v.String())
}

func (fr *Frame) evalMulti(st *State, x ast.Expr) []*Term {
	e := fr.e
	if tv, ok := fr.info.Types[x]; ok && tv.Value != nil {
		return []*Term{constTerm(tv.Value, tv.Type)}
	}
	switch x := x.(type) {
	case *ast.ParenExpr:
		return fr.evalMulti(st, x.X)
	case *ast.Ident:
		if x.Name == "nil" && fr.info.Uses[x] == types.Universe.Lookup("nil") {
			return []*Term{tNil}
		}
		o := fr.info.Uses[x]
		if o == nil {
			o = fr.info.Defs[x]
		}
		switch o := o.(type) {
		case *types.Var:
			return []*Term{fr.getVar(st, o)}
		case *types.Func:
			return []*Term{raw("func", o.FullName())}
		}
		return []*Term{raw("unk", fr.key(x))}
	case *ast.BasicLit:
		return []*Term{raw("lit", x.Value)}
	case *ast.FuncLit:
		t := raw("closure", fr.key(x), e.loopVars()...)
		e.closures[t] = &closure{lit: x, fr: fr}
		return []*Term{t}
	case *ast.CompositeLit:
		return []*Term{fr.composite(st, x, fr.typ(x))}
	case *ast.UnaryExpr:
		return []*Term{fr.unary(st, x)}
	case *ast.BinaryExpr:
		return []*Term{fr.binary(st, x)}
	case *ast.StarExpr:
		p := fr.eval(st, x.X)
		return []*Term{e.load(st, p, fr.typ(x))}
	case *ast.SelectorExpr:
		return []*Term{fr.selector(st, x)}
	case *ast.IndexExpr:
		if tv, ok := fr.info.Types[x.Index]; ok && tv.IsType() {
			return fr.evalMulti(st, x.X)
		}
		return fr.index(st, x)
	case *ast.IndexListExpr:
		return fr.evalMulti(st, x.X)
	case *ast.SliceExpr:
		return []*Term{fr.sliceExpr(st, x)}
	case *ast.TypeAssertExpr:
		v := fr.eval(st, x.X)
		return []*Term{v, raw("istype", typeKey(fr.info.TypeOf(x.Type), fr.targs), v)}
	case *ast.CallExpr:
		return fr.call(st, x)
	case *ast.KeyValueExpr:
		return fr.evalMulti(st, x.Value)
	}
	e.note("%s: unsupported expression %T", e.prog.pos(x.Pos()), x)
	return []*Term{raw("unk", fr.key(x))}
}

func (fr *Frame) composite(st *State, x *ast.CompositeLit, t types.Type) *Term {
	e := fr.e
	switch u := under(t).(type) {
	case *types.Struct:
		var fs []string
		var vs []*Term
		given := map[string]*Term{}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				given[kv.Key.(*ast.Ident).Name] = fr.elt(st, kv.Value)
			} else {
				given[u.Field(i).Name()] = fr.elt(st, el)
			}
		}
		if isRingPoly(t) {
			o := e.newObj(fr.key(x))
			if c, ok := given["Coeffs"]; ok {
				e.store(st, mkPtr(o, ".Coeffs"), nil, c)
			}
			return o
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fs = append(fs, f.Name())
			if v, ok := given[f.Name()]; ok {
				vs = append(vs, v)
			} else {
				vs = append(vs, zero(f.Type()))
			}
		}
		if isOpaqueStruct(t) {
			return tNil
		}
		return structT("", fs, vs)
	case *types.Slice, *types.Array:
		var et types.Type
		var n int64 = -1
		if s, ok := u.(*types.Slice); ok {
			et = s.Elem()
		} else {
			et = u.(*types.Array).Elem()
			n = u.(*types.Array).Len()
		}
		var vals []*Term
		idx := int64(0)
		arr := e.newObj(fr.key(x))
		type ent struct {
			i int64
			v *Term
		}
		var ents []ent
		mx := int64(0)
		for _, el := range x.Elts {
			var v *Term
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if tv := fr.info.Types[kv.Key]; tv.Value != nil {
					idx, _ = constant.Int64Val(constant.ToInt(tv.Value))
				}
				v = fr.eltT(st, kv.Value, et)
			} else {
				v = fr.eltT(st, el, et)
			}
			ents = append(ents, ent{idx, v})
			vals = append(vals, v)
			idx++
			if idx > mx {
				mx = idx
			}
		}
		if n >= 0 {
			// array value: build a vector term
			j := raw("kv", fr.key(x)+"lit")
			body := zero(et)
			for i := len(ents) - 1; i >= 0; i-- {
				body = ite(eq0('I', subI(j, I(ents[i].i))), ents[i].v, body)
			}
			return mkVec(I(n), j, body)
		}
		for _, en := range ents {
			e.store(st, mkPtr(arr, "[#]", I(en.i)), et, en.v)
		}
		return mkSlice(arr, I(0), I(mx))
	case *types.Map:
		m := e.newObj(fr.key(x))
		for _, el := range x.Elts {
			kv := el.(*ast.KeyValueExpr)
			k := fr.elt(st, kv.Key)
			e.store(st, mkPtr(m, "[#]", k), u.Elem(), fr.eltT(st, kv.Value, u.Elem()))
		}
		return m
	}
	e.note("unsupported composite literal %s", t)
	return raw("unk", fr.key(x))
}

func (fr *Frame) elt(st *State, x ast.Expr) *Term { return fr.eltT(st, x, nil) }

func (fr *Frame) eltT(st *State, x ast.Expr, t types.Type) *Term {
	if cl, ok := x.(*ast.CompositeLit); ok && cl.Type == nil && t != nil {
		if p, ok := under(t).(*types.Pointer); ok {
			o := fr.e.newObj(fr.key(x))
			fr.e.store(st, o, p.Elem(), fr.composite(st, cl, p.Elem()))
			return o
		}
		return fr.composite(st, cl, t)
	}
	return fr.eval(st, x)
}

func (fr *Frame) unary(st *State, x *ast.UnaryExpr) *Term {
	e := fr.e
	switch x.Op {
	case token.AND:
		inner := x.X
		for {
			p, ok := inner.(*ast.ParenExpr)
			if !ok {
				break
			}
			inner = p.X
		}
		if cl, ok := inner.(*ast.CompositeLit); ok {
			t := fr.typ(cl)
			if t.String() == "sync.Pool" {
				o := e.newObj(fr.key(x))
				for _, el := range cl.Elts {
					if kv, ok := el.(*ast.KeyValueExpr); ok {
						e.store(st, mkPtr(o, "."+kv.Key.(*ast.Ident).Name), fr.typ(kv.Value), fr.eval(st, kv.Value))
					}
				}
				return o
			}
			v := fr.composite(st, cl, t)
			o := e.newObj(fr.key(x))
			e.store(st, o, t, v)
			return o
		}
		return fr.addr(st, inner)
	case token.NOT:
		return not(fr.eval(st, x.X))
	case token.SUB:
		v := fr.eval(st, x.X)
		if isFloat(fr.typ(x)) {
			return app("fneg", v)
		}
		return negP('I', v)
	case token.ADD:
		return fr.eval(st, x.X)
	case token.XOR:
		return app("^", fr.eval(st, x.X))
	}
	return raw("unk", fr.key(x))
}

func (fr *Frame) binary(st *State, x *ast.BinaryExpr) *Term {
	e := fr.e
	switch x.Op {
	case token.LAND, token.LOR:
		l := st.simp(fr.eval(st, x.X))
		if st.dead {
			return l
		}
		if x.Op == token.LAND && l == tFalse || x.Op == token.LOR && l == tTrue {
			return l
		}
		s := st.fork()
		g := l
		if x.Op == token.LOR {
			g = not(l)
		}
		s.assume(g)
		r := fr.eval(s, x.Y)
		if s.log != st.log {
			// side effects on the right
			o := st.fork()
			o.assume(not(g))
			m, _ := e.merge2(s, o)
			*st = *m
		}
		if x.Op == token.LAND {
			return and(l, r)
		}
		return or(l, r)
	}
	l := fr.eval(st, x.X)
	r := fr.eval(st, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		t := fr.typ(x.X)
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			t = fr.typ(x.Y)
		}
		return st.simp(fr.compare(x.Op, l, r, t))
	}
	return fr.binop(st, x.Op, l, r, fr.typ(x))
}

// sgnArg recognises a comparison result sgn(d) + c.
func sgnArg(t *Term) (sg *Term, neg bool, c *Term) {
	for _, m := range monosOf('I', t) {
		if len(m.at) == 1 && (m.at[0].op == "sgn" || m.at[0].op == "sgnF") && m.c.CmpAbs(one) == 0 {
			return m.at[0], m.c.Sign() < 0, subI(t, mkPoly('I', []mono{m}))
		}
	}
	return nil, false, nil
}

func geInt(t *Term) *Term {
	if sg, neg, c := sgnArg(t); sg != nil {
		if cc, ok := constOf(c); ok && sg.op == "sgn" {
			d := sg.args[0]
			if neg {
				d = negP('I', d)
			}
			switch {
			case cc.Sign() == 0:
				return ge0(d)
			case cc.Cmp(minusOne) == 0:
				return ge0(subI(d, I(1)))
			case cc.Sign() > 0:
				return tTrue
			default:
				return tFalse
			}
		}
	}
	return ge0(t)
}

func eqInt(t *Term) *Term {
	if sg, neg, c := sgnArg(t); sg != nil {
		if cc, ok := constOf(c); ok {
			if neg {
				cc = new(big.Int).Neg(cc)
			}
			// sgn(d) == -cc
			k := byte('I')
			if sg.op == "sgnF" {
				k = 'F'
			}
			if cc.Sign() == 0 {
				return eq0(k, sg.args[0])
			}
			if k == 'I' {
				if cc.Cmp(minusOne) == 0 {
					return ge0(subI(sg.args[0], I(1)))
				}
				if cc.Cmp(one) == 0 {
					return ge0(subI(negP('I', sg.args[0]), I(1)))
				}
				return tFalse
			}
		}
	}
	return eq0('I', t)
}

func (fr *Frame) compare(op token.Token, l, r *Term, t types.Type) *Term {
	if isInt(t) {
		d := subI(l, r)
		if isUnsigned(t) { // comparisons with zero
			for _, y := range []struct {
				x, c   *Term
				gt, le token.Token
				ge, lt token.Token
			}{{l, r, token.GTR, token.LEQ, token.GEQ, token.LSS}, {r, l, token.LSS, token.GEQ, token.LEQ, token.GTR}} {
				switch {
				case isConst(y.c, 0) && op == y.gt || isConst(y.c, 1) && op == y.ge:
					return not(eqInt(y.x))
				case isConst(y.c, 0) && op == y.le || isConst(y.c, 1) && op == y.lt:
					return eqInt(y.x)
				}
			}
		}
		switch op {
		case token.EQL:
			return eqInt(d)
		case token.NEQ:
			return not(eqInt(d))
		case token.LSS:
			return geInt(subI(negP('I', d), I(1)))
		case token.LEQ:
			return geInt(negP('I', d))
		case token.GTR:
			return geInt(subI(d, I(1)))
		case token.GEQ:
			return geInt(d)
		}
	}
	if isFloat(t) {
		if x, y := intOfFloat(l), intOfFloat(r); x != nil && y != nil && (l.op == "flt" || r.op == "flt") {
			return fr.compare(op, x, y, types.Typ[types.Int])
		}
		switch op {
		case token.EQL, token.NEQ:
			if l.id > r.id {
				l, r = r, l
			}
			c := raw("feq", "", l, r)
			if op == token.NEQ {
				return not(c)
			}
			return c
		case token.LSS:
			return raw("flt<", "", l, r)
		case token.GTR:
			return raw("flt<", "", r, l)
		case token.LEQ:
			return not(raw("flt<", "", r, l))
		case token.GEQ:
			return not(raw("flt<", "", l, r))
		}
	}
	switch op {
	case token.EQL:
		return eqRef(l, r)
	case token.NEQ:
		return not(eqRef(l, r))
	}
	return raw("cmp"+op.String(), "", l, r)
}

func eqRef(l, r *Term) *Term {
	if l.op == "obj" && r.op == "obj" && l.s != r.s {
		return tFalse
	}
	return eqT(l, r, 0)
}

func (fr *Frame) binop(st *State, op token.Token, l, r *Term, t types.Type) *Term {
	if isFloat(t) {
		return app("f"+op.String(), l, r)
	}
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if l.op == "str" && r.op == "str" {
			return strT(l.s + r.s)
		}
		return app("strcat", l, r)
	}
	switch op {
	case token.ADD:
		return addI(l, r)
	case token.SUB:
		if r.op == "mod" && r.args[0] == l {
			// x - x%c is the multiple of c below x
			if c, ok := constOf(r.args[1]); ok && c.Sign() > 0 {
				return mulI(r.args[1], st.fs().divF(l, c))
			}
		}
		return subI(l, r)
	case token.MUL:
		return mulI(l, r)
	case token.QUO:
		if c, ok := constOf(r); ok && c.Sign() > 0 {
			return st.fs().divF(l, c)
		}
		return divI(l, r)
	case token.REM:
		if c, ok := constOf(r); ok && c.Sign() > 0 {
			return st.fs().modF(l, c)
		}
		return modI(l, r)
	case token.SHL:
		return shlI(l, r)
	case token.SHR:
		if c, ok := constOf(r); ok && c.IsInt64() && c.Int64() < 512 && c.Sign() >= 0 {
			return st.fs().divF(l, new(big.Int).Lsh(one, uint(c.Int64())))
		}
		return shrI(l, r)
	case token.AND:
		for i := 0; i < 2; i++ {
			// x & (2^m-1) is x mod 2^m
			if c, ok := constOf(r); ok && c.Sign() > 0 {
				p := new(big.Int).Add(c, one)
				if new(big.Int).And(p, c).Sign() == 0 {
					return st.fs().modF(l, p)
				}
			}
			l, r = r, l
		}
		if l.id > r.id {
			l, r = r, l
		}
		return app("&", l, r)
	case token.OR, token.XOR:
		if l.id > r.id {
			l, r = r, l
		}
		if isConst(l, 0) {
			return r
		}
		if isConst(r, 0) {
			return l
		}
		return app(op.String(), l, r)
	case token.AND_NOT:
		if c, ok := constOf(r); ok && c.Sign() >= 0 {
			p := new(big.Int).Add(c, one)
			if new(big.Int).And(p, c).Sign() == 0 {
				return mulI(kbig('I', p), st.fs().divF(l, p))
			}
		}
		return app("&^", l, r)
	}
	return raw("unk", "binop"+op.String())
}

// addressable reports whether x denotes a location.
func (fr *Frame) addressable(x ast.Expr) bool {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return fr.addressable(x.X)
	case *ast.Ident:
		o := fr.info.Uses[x]
		if o == nil {
			o = fr.info.Defs[x]
		}
		if _, ok := fr.vals[o]; ok {
			return false
		}
		_, ok := o.(*types.Var)
		return ok
	case *ast.SelectorExpr:
		sel := fr.info.Selections[x]
		if sel == nil {
			_, ok := fr.info.Uses[x.Sel].(*types.Var)
			return ok
		}
		if _, ok := under(fr.typ(x.X)).(*types.Pointer); ok {
			return true
		}
		if sel.Indirect() {
			return true
		}
		return fr.addressable(x.X)
	case *ast.IndexExpr:
		switch u := under(fr.typ(x.X)).(type) {
		case *types.Slice, *types.Map, *types.Pointer:
			return true
		case *types.Array:
			_ = u
			return fr.addressable(x.X)
		}
	case *ast.StarExpr:
		return true
	}
	return false
}

// addr is the address of x.
func (fr *Frame) addr(st *State, x ast.Expr) *Term {
	e := fr.e
	switch x := x.(type) {
	case *ast.ParenExpr:
		return fr.addr(st, x.X)
	case *ast.Ident:
		o := fr.info.Uses[x]
		if o == nil {
			o = fr.info.Defs[x]
		}
		if c, ok := fr.env[o]; ok {
			return c
		}
		if v, ok := o.(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			return raw("global", v.Pkg().Path()+"."+v.Name())
		}
		if v, ok := fr.vals[o]; ok {
			return raw("val", "", v)
		}
	case *ast.StarExpr:
		return fr.eval(st, x.X)
	case *ast.SelectorExpr:
		sel := fr.info.Selections[x]
		if sel == nil {
			if v, ok := fr.info.Uses[x.Sel].(*types.Var); ok {
				return raw("global", v.Pkg().Path()+"."+v.Name())
			}
			break
		}
		return fr.fieldAddr(st, x, sel)
	case *ast.IndexExpr:
		t := fr.typ(x.X)
		switch u := under(t).(type) {
		case *types.Slice:
			s := fr.eval(st, x.X)
			i := fr.eval(st, x.Index)
			return e.elemPtr(st, s, i)
		case *types.Map:
			m := fr.eval(st, x.X)
			i := fr.eval(st, x.Index)
			return mkPtr(m, "[#]", i)
		case *types.Array:
			p := fr.addr(st, x.X)
			return mkPtr(p, "[#]", fr.eval(st, x.Index))
		case *types.Pointer:
			_ = u
			p := fr.eval(st, x.X)
			return e.elemPtr(st, p, fr.eval(st, x.Index))
		}
	case *ast.CallExpr, *ast.CompositeLit, *ast.TypeAssertExpr:
		return raw("val", "", fr.eval(st, x))
	}
	e.note("%s: cannot take the address of %T", e.prog.pos(x.Pos()), x)
	return raw("unk", fr.key(x))
}

// fieldAddr is the address of a (possibly promoted) field.
func (fr *Frame) fieldAddr(st *State, x *ast.SelectorExpr, sel *types.Selection) *Term {
	e := fr.e
	t := fr.typ(x.X)
	var p *Term
	if pt, ok := under(t).(*types.Pointer); ok {
		p = fr.eval(st, x.X)
		t = pt.Elem()
	} else if isRingPoly(t) {
		p = fr.eval(st, x.X)
	} else if fr.addressable(x.X) {
		p = fr.addr(st, x.X)
	} else {
		p = raw("val", "", fr.eval(st, x.X))
	}
	idx := sel.Index()
	for n, i := range idx {
		s, ok := under(t).(*types.Struct)
		if !ok {
			break
		}
		f := s.Field(i)
		p = e.fieldPtr(p, f.Name())
		t = f.Type()
		if n < len(idx)-1 {
			if pt, ok := under(t).(*types.Pointer); ok {
				p = e.load(st, p, t)
				t = pt.Elem()
			}
		}
	}
	return p
}

func (e *Engine) fieldPtr(p *Term, f string) *Term {
	switch p.op {
	case "ite":
		return ite(p.args[0], e.fieldPtr(p.args[1], f), e.fieldPtr(p.args[2], f))
	case "val":
		return raw("val", "", projT(p.args[0], f))
	}
	return mkPtr(p, "."+f)
}

func (fr *Frame) selector(st *State, x *ast.SelectorExpr) *Term {
	e := fr.e
	sel := fr.info.Selections[x]
	if sel == nil {
		switch o := fr.info.Uses[x.Sel].(type) {
		case *types.Var:
			if e.prog.sentinel(o) {
				return raw("err", "")
			}
			return e.load(st, raw("global", o.Pkg().Path()+"."+o.Name()), o.Type())
		case *types.Func:
			return raw("func", o.FullName())
		}
		return raw("unk", fr.key(x))
	}
	if sel.Kind() != types.FieldVal {
		r := fr.eval(st, x.X)
		return raw("mval", sel.Obj().(*types.Func).FullName(), r)
	}
	return e.load(st, fr.fieldAddr(st, x, sel), fr.typ(x))
}

func (fr *Frame) index(st *State, x *ast.IndexExpr) []*Term {
	e := fr.e
	t := fr.typ(x.X)
	switch u := under(t).(type) {
	case *types.Slice:
		s := fr.eval(st, x.X)
		i := fr.eval(st, x.Index)
		return []*Term{e.loadElem(st, s, i, u.Elem())}
	case *types.Map:
		m := fr.eval(st, x.X)
		i := fr.eval(st, x.Index)
		return []*Term{e.load(st, mkPtr(m, "[#]", i), u.Elem()), fr.mapHas(st, m, i)}
	case *types.Array:
		if fr.addressable(x.X) {
			return []*Term{e.load(st, fr.addr(st, x), u.Elem())}
		}
		v := fr.eval(st, x.X)
		return []*Term{elemAt(v, fr.eval(st, x.Index))}
	case *types.Pointer:
		if a, ok := under(u.Elem()).(*types.Array); ok {
			p := fr.eval(st, x.X)
			i := fr.eval(st, x.Index)
			return []*Term{e.load(st, e.elemPtr(st, p, i), a.Elem())}
		}
	case *types.Basic:
		return []*Term{app("byteat", fr.eval(st, x.X), fr.eval(st, x.Index))}
	}
	e.note("%s: unsupported index of %s", e.prog.pos(x.Pos()), t)
	return []*Term{raw("unk", fr.key(x))}
}

func (fr *Frame) mapHas(st *State, m, i *Term) *Term { return raw("has", "", m, i) }

func (fr *Frame) sliceExpr(st *State, x *ast.SliceExpr) *Term {
	e := fr.e
	t := fr.typ(x.X)
	var s *Term
	var full *Term
	switch u := under(t).(type) {
	case *types.Array:
		s = fr.addr(st, x.X)
		full = I(u.Len())
		s = raw("slice", "", s, I(0), full)
	case *types.Pointer:
		s = fr.eval(st, x.X)
		if a, ok := under(u.Elem()).(*types.Array); ok {
			full = I(a.Len())
		} else {
			full = lenOf(s)
		}
		s = raw("slice", "", s, I(0), full)
	case *types.Basic:
		v := fr.eval(st, x.X)
		a := []*Term{v}
		if x.Low != nil {
			a = append(a, fr.eval(st, x.Low))
		} else {
			a = append(a, I(0))
		}
		if x.High != nil {
			a = append(a, fr.eval(st, x.High))
		}
		return app("substr", a...)
	default:
		s = fr.eval(st, x.X)
		full = lenOf(s)
	}
	lo, hi := I(0), full
	if x.Low != nil {
		lo = fr.eval(st, x.Low)
	}
	if x.High != nil {
		hi = fr.eval(st, x.High)
	}
	return subSlice(st, s, lo, hi, e)
}

func subSlice(st *State, s, lo, hi *Term, e *Engine) *Term {
	switch s.op {
	case "slice":
		return mkSlice(s.args[0], addI(s.args[1], lo), subI(hi, lo))
	case "nil":
		return tNil
	case "ite":
		return ite(s.args[0], subSlice(st, s.args[1], lo, hi, e), subSlice(st, s.args[2], lo, hi, e))
	case "concat":
		n := lenOf(s.args[0])
		if st.simp(ge0(subI(lo, n))) == tTrue {
			return subSlice(st, s.args[1], subI(lo, n), subI(hi, n), e)
		}
		if st.simp(ge0(subI(n, hi))) == tTrue {
			return subSlice(st, s.args[0], lo, hi, e)
		}
	}
	if isConst(lo, 0) && hi == lenOf(s) {
		return s
	}
	return mkSlice(s, lo, subI(hi, lo))
}

func sortedNotes(n []string) []string {
	out := append([]string(nil), n...)
	sort.Strings(out)
	return out
}

type undecided string

func (u undecided) Error() string { return string(u) }

var debugLoop = os.Getenv("DBGLOOP")
