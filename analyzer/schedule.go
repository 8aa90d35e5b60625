package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// Dependence analysis of transforms. The loop nests of a transform over a vector whose length is
// a power of two are read as a sequence of stages. A stage is a set of updates of disjoint
// elements, given by affine subscripts over the loop counters; the subscripts of the updates, of
// their operands and of the factors are compared with those of the decimation network.

type nv struct { // a value
	k    byte // i int, s slice or view, p pointer to an element, c cell (element), f function, v vector struct, o opaque
	i    ax
	n    ax     // length of a slice
	cell string // array or local object
	at   ax     // offset or index
	flds map[string]nv
	lit  *ast.FuncLit
	cond int // boolean: +1 true, -1 false
}

// upd is the effect of straight-line code: elements and their new values.
type upd struct {
	w   []wr
	pos token.Pos
}

type wr struct {
	root string
	idx  ax
	val  *Term
}

type nest struct {
	loop *counter
	body []nest
	u    *upd
	pos  token.Pos
}

type sched struct {
	p     *Program
	sc    scope
	env   map[types.Object]nv
	depth map[types.Object]int
	carry []map[types.Object]bool
	heap  map[string]*Term // local cells
	atoms map[*Term]wr     // element symbols
	cur   *upd
	out   []nest
	uses  map[string]bool // functions interpreted
	fresh int
	calls int
	guess bool
}

// nestPanic is a panic that the interpreted code raises.
type nestPanic string

func (s *sched) fail(n ast.Node, f string, a ...any) {
	panic(nestErr(fmt.Sprintf(f, a...) + " at " + s.p.pos(n.Pos())))
}

// elem is the symbol of an element's value before the stage.
func (s *sched) elem(root string, idx ax) *Term {
	t := raw("elem", root+"["+idx.String()+"]")
	s.atoms[t] = wr{root: root, idx: idx}
	return t
}

func (s *sched) getCell(n ast.Node, c nv) *Term {
	if strings.HasPrefix(c.cell, "local") {
		if t := s.heap[c.cell]; t != nil {
			return t
		}
		s.fail(n, "element of an earlier iteration")
	}
	if s.cur != nil {
		for i := len(s.cur.w) - 1; i >= 0; i-- {
			if w := s.cur.w[i]; w.root == c.cell && w.idx.eq(c.at) {
				return w.val
			}
		}
	}
	return s.elem(c.cell, c.at)
}

func (s *sched) setCell(n ast.Node, c nv, v *Term) {
	if strings.HasPrefix(c.cell, "local") {
		s.heap[c.cell] = v
		return
	}
	if s.cur == nil {
		s.cur = &upd{pos: n.Pos()}
	}
	for i := range s.cur.w {
		if w := &s.cur.w[i]; w.root == c.cell && w.idx.eq(c.at) {
			w.val = v
			return
		}
	}
	s.cur.w = append(s.cur.w, wr{c.cell, c.at, v})
}

func (s *sched) flush() {
	if s.cur != nil {
		s.out = append(s.out, nest{u: s.cur, pos: s.cur.pos})
		s.cur = nil
	}
}

func (s *sched) newCell() nv {
	s.fresh++
	return nv{k: 'c', cell: fmt.Sprintf("local%d", s.fresh)}
}

func (s *sched) bind(o types.Object, v nv) {
	if o == nil {
		return
	}
	s.env[o] = v
	s.depth[o] = len(s.sc.loops)
}

func (s *sched) assignVar(n ast.Node, o types.Object, v nv) {
	if d := s.depth[o]; d < len(s.sc.loops) {
		for _, c := range s.carry[d:] {
			if !c[o] {
				s.fail(n, "variable %s carried from one iteration to the next", o.Name())
			}
		}
	}
	s.env[o] = v
}

type frame struct {
	s    *sched
	info *types.Info
}

// ret is what a statement did: 0 continues, 1 returned.
func (f *frame) block(list []ast.Stmt) (bool, []nv) {
	for _, st := range list {
		if done, v := f.stmt(st); done {
			return true, v
		}
	}
	return false, nil
}

func (f *frame) stmt(st ast.Stmt) (bool, []nv) {
	s := f.s
	switch x := st.(type) {
	case *ast.ExprStmt:
		f.call(x.X)
	case *ast.AssignStmt:
		f.assign(x)
	case *ast.IncDecStmt:
		v := f.eval(x.X)
		d := axN(1)
		if x.Tok == token.DEC {
			d = axN(-1)
		}
		f.store(x.X, nv{k: 'i', i: v.i.add(d)})
	case *ast.DeclStmt:
		gd, ok := x.Decl.(*ast.GenDecl)
		if !ok {
			break
		}
		for _, sp := range gd.Specs {
			vs, ok := sp.(*ast.ValueSpec)
			if !ok {
				continue
			}
			for i, id := range vs.Names {
				v := nv{k: 'o'}
				if i < len(vs.Values) {
					v = f.eval(vs.Values[i])
				} else if isInt(f.info.Defs[id].Type()) {
					v = nv{k: 'i'}
				}
				s.bind(f.info.Defs[id], v)
			}
		}
	case *ast.BlockStmt:
		return f.block(x.List)
	case *ast.IfStmt:
		if x.Init != nil {
			f.stmt(x.Init)
		}
		switch c := f.cond(x.Cond); {
		case c > 0:
			return f.block(x.Body.List)
		case x.Else != nil:
			return f.stmt(x.Else)
		}
	case *ast.ReturnStmt:
		var vs []nv
		for _, r := range x.Results {
			vs = append(vs, f.eval(r))
		}
		return true, vs
	case *ast.ForStmt:
		f.forLoop(x)
	case *ast.RangeStmt:
		f.rangeLoop(x)
	case *ast.EmptyStmt:
	default:
		s.fail(st, "statement %T", st)
	}
	return false, nil
}

// cond decides a condition.
func (f *frame) cond(x ast.Expr) int {
	v := f.eval(x)
	if v.k != 'b' || v.cond == 0 {
		f.s.fail(x, "condition is not decided")
	}
	return v.cond
}

func (f *frame) assign(x *ast.AssignStmt) {
	s := f.s
	switch x.Tok {
	case token.ASSIGN, token.DEFINE:
		var vs []nv
		if len(x.Lhs) == len(x.Rhs) {
			for _, r := range x.Rhs {
				vs = append(vs, f.eval(r))
			}
		} else {
			vs = f.call(x.Rhs[0])
		}
		if len(vs) != len(x.Lhs) {
			s.fail(x, "assignment")
		}
		for i, l := range x.Lhs {
			if id, ok := l.(*ast.Ident); ok && f.info.Defs[id] != nil {
				s.bind(f.info.Defs[id], vs[i])
				continue
			}
			f.store(l, vs[i])
		}
	default:
		op, ok := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
			token.QUO_ASSIGN: token.QUO, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
			token.REM_ASSIGN: token.REM}[x.Tok]
		if !ok {
			s.fail(x, "assignment")
		}
		f.store(x.Lhs[0], f.arith(x, op, f.eval(x.Lhs[0]), f.eval(x.Rhs[0])))
	}
}

func (f *frame) store(l ast.Expr, v nv) {
	switch y := ast.Unparen(l).(type) {
	case *ast.Ident:
		if y.Name == "_" {
			return
		}
		o := f.info.Uses[y]
		if o == nil {
			o = f.info.Defs[y]
		}
		if _, ok := f.s.env[o]; ok {
			f.s.assignVar(l, o, v)
			return
		}
	}
	f.s.fail(l, "assignment to this")
}

func (f *frame) evalInt(x ast.Expr) ax {
	v := f.eval(x)
	if v.k != 'i' {
		f.s.fail(x, "integer")
	}
	return v.i
}

func (f *frame) eval(x ast.Expr) nv {
	vs := f.evalN(x)
	if len(vs) != 1 {
		f.s.fail(x, "value")
	}
	return vs[0]
}

func (f *frame) evalN(x ast.Expr) []nv {
	s := f.s
	if tv, ok := f.info.Types[x]; ok && tv.Value != nil && tv.Value.Kind() == constant.Int {
		if n, ok := constant.Int64Val(tv.Value); ok {
			return []nv{{k: 'i', i: axN(n)}}
		}
	}
	switch y := x.(type) {
	case *ast.ParenExpr:
		return f.evalN(y.X)
	case *ast.Ident:
		o := f.info.Uses[y]
		if v, ok := s.env[o]; ok {
			return []nv{v}
		}
		if y.Name == "true" || y.Name == "false" {
			return []nv{{k: 'b', cond: map[string]int{"true": 1, "false": -1}[y.Name]}}
		}
		return []nv{{k: 'o'}}
	case *ast.FuncLit:
		return []nv{{k: 'f', lit: y}}
	case *ast.BinaryExpr:
		switch y.Op {
		case token.LAND, token.LOR:
			a := f.cond(y.X)
			if (y.Op == token.LAND) == (a < 0) {
				return []nv{{k: 'b', cond: a}}
			}
			return []nv{{k: 'b', cond: f.cond(y.Y)}}
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			return []nv{{k: 'b', cond: s.decide(y.Op, f.evalInt(y.X), f.evalInt(y.Y))}}
		}
		return []nv{f.arith(y, y.Op, f.eval(y.X), f.eval(y.Y))}
	case *ast.UnaryExpr:
		switch y.Op {
		case token.SUB:
			return []nv{{k: 'i', i: f.evalInt(y.X).scale(-1)}}
		case token.NOT:
			return []nv{{k: 'b', cond: -f.cond(y.X)}}
		case token.AND:
			if ix, ok := ast.Unparen(y.X).(*ast.IndexExpr); ok {
				v := f.eval(ix)
				if v.k == 'c' {
					v.k = 'p'
					return []nv{v}
				}
			}
		}
	case *ast.IndexExpr:
		if tv := f.info.Types[y.X]; tv.IsValue() {
			if _, isSig := tv.Type.Underlying().(*types.Signature); isSig {
				return []nv{{k: 'o'}}
			}
			b := f.eval(y.X)
			i := f.evalInt(y.Index)
			if b.k == 's' {
				if !s.guess && !(s.sc.nonneg(i) && s.sc.nonneg(b.n.sub(i).sub(axN(1)))) {
					s.fail(x, "index %s is not known to be below %s", i, b.n)
				}
				return []nv{{k: 'c', cell: b.cell, at: b.at.add(i)}}
			}
		}
	case *ast.SliceExpr:
		b := f.eval(y.X)
		if b.k == 's' {
			lo, hi := axN(0), b.n
			if y.Low != nil {
				lo = f.evalInt(y.Low)
			}
			if y.High != nil {
				hi = f.evalInt(y.High)
			}
			if !s.guess && !(s.sc.nonneg(lo) && s.sc.nonneg(b.n.sub(hi)) && s.sc.nonneg(hi.sub(lo))) {
				s.fail(x, "slice bounds")
			}
			return []nv{{k: 's', cell: b.cell, at: b.at.add(lo), n: hi.sub(lo)}}
		}
	case *ast.StarExpr:
		return f.evalN(y.X)
	case *ast.SelectorExpr:
		if sel := f.info.Selections[y]; sel != nil && sel.Kind() == types.FieldVal {
			b := f.eval(y.X)
			if v, ok := b.flds[y.Sel.Name]; ok {
				return []nv{v}
			}
		}
		return []nv{{k: 'o'}}
	case *ast.CallExpr:
		return f.call(y)
	}
	s.fail(x, "expression %T", x)
	return nil
}

// decide is the sign of a comparison: 1 it holds, -1 it does not, 0 unknown.
func (s *sched) decide(op token.Token, a, b ax) int {
	d := a.sub(b)
	ge := func(x ax) bool { return s.sc.nonneg(x) }
	pick := func(yes, no bool) int {
		if yes {
			return 1
		}
		if no {
			return -1
		}
		return 0
	}
	switch op {
	case token.GEQ:
		return pick(ge(d), ge(d.scale(-1).sub(axN(1))))
	case token.LSS:
		return -s.decide(token.GEQ, a, b)
	case token.LEQ:
		return s.decide(token.GEQ, b, a)
	case token.GTR:
		return -s.decide(token.LEQ, a, b)
	case token.EQL:
		return pick(len(d.m) == 0, ge(d.sub(axN(1))) || ge(d.scale(-1).sub(axN(1))))
	case token.NEQ:
		return -s.decide(token.EQL, a, b)
	}
	return 0
}

func (f *frame) arith(n ast.Node, op token.Token, l, r nv) nv {
	s := f.s
	if l.k != 'i' || r.k != 'i' {
		s.fail(n, "operands")
	}
	a, b := l.i, r.i
	is := func(x ax) []nv { return []nv{{k: 'i', i: x}} }
	div := func(by lin) (ax, ax) {
		if s.guess {
			if len(a.m) == 0 {
				return a, axN(0)
			}
			return a.mul(axPow(lin{}.add(by, -1))), axN(0)
		}
		q, m, ok := s.sc.div(a, by)
		if !ok {
			s.fail(n, "%s divided by %s is not known to be whole", a, axPow(by))
		}
		return q, m
	}
	switch op {
	case token.ADD:
		return is(a.add(b))[0]
	case token.SUB:
		return is(a.sub(b))[0]
	case token.MUL:
		return is(a.mul(b))[0]
	case token.SHL, token.SHR:
		e, ok := b.lin()
		if !ok {
			break
		}
		if op == token.SHL {
			return is(a.mul(axPow(e)))[0]
		}
		q, _ := div(e)
		return is(q)[0]
	case token.QUO, token.REM:
		if e, ok := b.pow2(); ok && (s.guess || s.sc.nonneg(a)) {
			q, m := div(e)
			if op == token.REM {
				return is(m)[0]
			}
			return is(q)[0]
		}
	case token.AND_NOT:
		if e, ok := b.add(axN(1)).pow2(); ok {
			_, m := div(e)
			return is(a.sub(m))[0]
		}
	case token.AND:
		if e, ok := b.add(axN(1)).pow2(); ok {
			_, m := div(e)
			return is(m)[0]
		}
	}
	s.fail(n, "operation %s on %s and %s", op, a, b)
	return nv{}
}

func (f *frame) call(x ast.Expr) []nv {
	s := f.s
	c, ok := ast.Unparen(x).(*ast.CallExpr)
	if !ok {
		s.fail(x, "call")
	}
	// conversions
	if tv := f.info.Types[c.Fun]; tv.IsType() {
		v := f.eval(c.Args[0])
		t := tv.Type.Underlying()
		if p, ok := t.(*types.Pointer); ok {
			if arr, ok := p.Elem().Underlying().(*types.Array); ok && (v.k == 'p' || v.k == 's') {
				return []nv{{k: 's', cell: v.cell, at: v.at, n: axN(arr.Len())}}
			}
		}
		if v.k == 'p' || v.k == 'i' && isInt(tv.Type) {
			return []nv{v}
		}
		s.fail(x, "conversion")
	}
	fun := ast.Unparen(c.Fun)
	switch y := fun.(type) {
	case *ast.IndexExpr:
		fun = y.X
	case *ast.IndexListExpr:
		fun = y.X
	}
	if lit, ok := fun.(*ast.FuncLit); ok {
		var args []nv
		for _, a := range c.Args {
			args = append(args, f.eval(a))
		}
		return f.inline(x, lit.Type, lit.Body, f.info, nil, nv{}, args)
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := f.info.Uses[id].(*types.Builtin); ok {
			switch b.Name() {
			case "len", "cap":
				if v := f.eval(c.Args[0]); v.k == 's' && b.Name() == "len" {
					return []nv{{k: 'i', i: v.n}}
				}
			case "min", "max":
				v := f.evalInt(c.Args[0])
				for _, a := range c.Args[1:] {
					w := f.evalInt(a)
					d := s.decide(token.LEQ, v, w)
					if d == 0 {
						s.fail(x, "%s", b.Name())
					}
					if (d > 0) != (b.Name() == "min") {
						v = w
					}
				}
				return []nv{{k: 'i', i: v}}
			}
			if b.Name() == "panic" && len(s.sc.loops) == 0 {
				panic(nestPanic("panics at " + s.p.pos(x.Pos())))
			}
			s.fail(x, "call of %s", b.Name())
		}
		if v, ok := s.env[f.info.Uses[id]]; ok && v.k == 'f' {
			var args []nv
			for _, a := range c.Args {
				args = append(args, f.eval(a))
			}
			return f.inline(x, v.lit.Type, v.lit.Body, f.info, nil, nv{}, args)
		}
	}
	if sel, ok := fun.(*ast.SelectorExpr); ok {
		if isE(f.info.TypeOf(sel.X)) {
			return f.field(c, sel)
		}
	}
	var obj *types.Func
	var recv nv
	var re *ast.FieldList
	switch y := fun.(type) {
	case *ast.Ident:
		obj, _ = f.info.Uses[y].(*types.Func)
	case *ast.SelectorExpr:
		obj, _ = f.info.Uses[y.Sel].(*types.Func)
		if s := f.info.Selections[y]; s != nil {
			recv = f.eval(y.X)
		}
	}
	if obj == nil {
		s.fail(x, "call")
	}
	if obj.Pkg() != nil && obj.Pkg().Path() == "math/bits" && len(c.Args) == 1 {
		if e, ok := f.evalInt(c.Args[0]).pow2(); ok {
			switch {
			case strings.HasPrefix(obj.Name(), "TrailingZeros"):
				return []nv{{k: 'i', i: e.ax()}}
			case strings.HasPrefix(obj.Name(), "Len"):
				return []nv{{k: 'i', i: e.add(linC(1), 1).ax()}}
			}
		}
	}
	fi := s.p.Funcs[obj.Origin()]
	if fi == nil || fi.Decl.Body == nil {
		s.fail(x, "call of %s", obj.FullName())
	}
	var args []nv
	for _, a := range c.Args {
		args = append(args, f.eval(a))
	}
	s.uses[funcName(fi)+" "+s.p.pos(fi.Decl.Pos())] = true
	re = fi.Decl.Recv
	return f.inline(x, fi.Decl.Type, fi.Decl.Body, fi.Pkg.Info, re, recv, args)
}

func (f *frame) inline(x ast.Node, ft *ast.FuncType, body *ast.BlockStmt, info *types.Info, re *ast.FieldList, recv nv, args []nv) []nv {
	s := f.s
	if s.calls > 20 {
		s.fail(x, "nesting of calls")
	}
	s.calls++
	defer func() { s.calls-- }()
	if re != nil && len(re.List) > 0 && len(re.List[0].Names) > 0 {
		s.bind(info.Defs[re.List[0].Names[0]], recv)
	}
	i := 0
	for _, p := range ft.Params.List {
		if _, ok := p.Type.(*ast.Ellipsis); ok {
			s.fail(x, "variadic call")
		}
		for _, id := range p.Names {
			if i >= len(args) {
				s.fail(x, "arguments")
			}
			s.bind(info.Defs[id], args[i])
			i++
		}
	}
	g := &frame{s, info}
	_, vs := g.block(body.List)
	return vs
}

// field is an operation on field elements.
func (f *frame) field(c *ast.CallExpr, sel *ast.SelectorExpr) []nv {
	s := f.s
	if sel.Sel.Name == "New" {
		v := s.newCell()
		s.heap[v.cell] = kconst('F', 0)
		return []nv{v}
	}
	r := f.eval(sel.X)
	if r.k != 'c' {
		s.fail(c, "receiver")
	}
	arg := func(i int) *Term {
		v := f.eval(c.Args[i])
		if v.k != 'c' {
			s.fail(c, "operand")
		}
		return s.getCell(c, v)
	}
	var v *Term
	switch sel.Sel.Name {
	case "Add":
		v = addP('F', arg(0), arg(1))
	case "Sub":
		v = subP('F', arg(0), arg(1))
	case "Mul":
		v = mulP('F', arg(0), arg(1))
	case "Neg":
		v = negP('F', arg(0))
	case "Set":
		v = arg(0)
	case "Double":
		v = scaleP('F', arg(0), big.NewInt(2))
	default:
		s.fail(c, "operation %s", sel.Sel.Name)
	}
	s.setCell(c, r, v)
	return []nv{r}
}

// ---------- loops ----------

// carried are the integer variables from outside that the loop assigns.
func (f *frame) carried(from token.Pos, to token.Pos, nodes ...ast.Node) []types.Object {
	var out []types.Object
	seen := map[types.Object]bool{}
	add := func(e ast.Expr) {
		id, ok := ast.Unparen(e).(*ast.Ident)
		if !ok {
			return
		}
		o := f.info.Uses[id]
		if o == nil || seen[o] || o.Pos() >= from && o.Pos() < to {
			return
		}
		if _, ok := f.s.env[o]; ok {
			seen[o] = true
			out = append(out, o)
		}
	}
	for _, n := range nodes {
		if n == nil {
			continue
		}
		ast.Inspect(n, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.AssignStmt:
				for _, l := range y.Lhs {
					add(l)
				}
			case *ast.IncDecStmt:
				add(y.X)
			}
			return true
		})
	}
	return out
}

// step finds the values of the carried variables in iteration k.
func (f *frame) step(x ast.Node, vars []types.Object, list []ast.Stmt, post ast.Stmt, k string) map[types.Object]ax {
	s := f.s
	env := map[types.Object]nv{}
	for o, v := range s.env {
		env[o] = v
	}
	old, oldGuess := s.env, s.guess
	before := map[types.Object]ax{}
	expo := map[types.Object]string{}
	for i, o := range vars {
		v := old[o]
		if v.k != 'i' {
			s.fail(x, "variable %s carried from one iteration to the next", o.Name())
		}
		name := fmt.Sprintf("?%d", i)
		before[o] = axV(name)
		if _, ok := v.i.pow2(); ok {
			expo[o] = name
			before[o] = axPow(lin{v: map[string]int{name: 1}})
		}
		env[o] = nv{k: 'i', i: before[o]}
	}
	// a power of two may also be stepped linearly
	try := func() map[types.Object]ax {
		s.env, s.guess = env, true
		defer func() { s.env, s.guess = old, oldGuess }()
		mentions := func(n ast.Node) bool { return len(f.carried(token.NoPos, token.NoPos, n)) > 0 && touches(f, n, vars) }
		stmts := flat(list)
		if post != nil {
			stmts = append(stmts, post)
		}
		for _, st := range stmts {
			switch y := st.(type) {
			case *ast.AssignStmt:
				ints := len(y.Lhs) == len(y.Rhs)
				for _, l := range y.Lhs {
					ints = ints && f.info.TypeOf(l) != nil && isInt(f.info.TypeOf(l))
				}
				if ints {
					f.assign(y)
				} else if mentions(st) {
					s.fail(st, "carried variables")
				}
			case *ast.IncDecStmt:
				f.stmt(y)
			default:
				if mentions(st) {
					s.fail(st, "carried variables")
				}
			}
		}
		after := map[types.Object]ax{}
		for _, o := range vars {
			after[o] = env[o].i
		}
		return after
	}
	oldCarry := s.carry
	for i := range s.carry {
		m := map[types.Object]bool{}
		for o := range s.carry[i] {
			m[o] = true
		}
		for _, o := range vars {
			m[o] = true
		}
		s.carry[i] = m
	}
	after := try()
	s.carry = oldCarry
	out := map[types.Object]ax{}
	fresh := func(a ax) bool {
		for i := range vars {
			if a.has(fmt.Sprintf("?%d", i)) {
				return false
			}
		}
		return true
	}
	for _, o := range vars {
		v0 := old[o].i
		d := after[o].sub(before[o])
		if fresh(d) {
			out[o] = v0.add(d.mul(axV(k)))
			continue
		}
		if n, ok := expo[o]; ok {
			e, ok := after[o].pow2()
			d := e.add(lin{v: map[string]int{n: 1}}, -1)
			if ok && len(d.v) == 0 {
				e0, _ := v0.pow2()
				out[o] = axPow(e0.add(lin{v: map[string]int{k: 1}}, d.c))
				continue
			}
		}
		s.fail(x, "variable %s is not stepped linearly or geometrically", o.Name())
	}
	return out
}

// trim drops the steps of the carried variables that end the body: their closed forms are used.
func (f *frame) trim(body *ast.BlockStmt, vars []types.Object) *ast.BlockStmt {
	list := body.List
	steps := func(e ast.Expr) bool {
		id, ok := ast.Unparen(e).(*ast.Ident)
		if !ok {
			return false
		}
		for _, o := range vars {
			if f.info.Uses[id] == o {
				return true
			}
		}
		return false
	}
	for len(list) > 0 {
		ok := false
		switch x := list[len(list)-1].(type) {
		case *ast.IncDecStmt:
			ok = steps(x.X)
		case *ast.AssignStmt:
			ok = x.Tok != token.DEFINE
			for _, l := range x.Lhs {
				ok = ok && steps(l)
			}
		}
		if !ok {
			break
		}
		list = list[:len(list)-1]
	}
	return &ast.BlockStmt{Lbrace: body.Lbrace, List: list, Rbrace: body.Rbrace}
}

// flat lists the statements of blocks and of functions called where they are written.
func flat(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, st := range list {
		switch x := st.(type) {
		case *ast.BlockStmt:
			out = append(out, flat(x.List)...)
			continue
		case *ast.ExprStmt:
			if c, ok := ast.Unparen(x.X).(*ast.CallExpr); ok && len(c.Args) == 0 {
				if lit, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && !returns(lit.Body) {
					out = append(out, flat(lit.Body.List)...)
					continue
				}
			}
		}
		out = append(out, st)
	}
	return out
}

func returns(b *ast.BlockStmt) bool {
	found := false
	ast.Inspect(b, func(n ast.Node) bool {
		_, ok := n.(*ast.ReturnStmt)
		found = found || ok
		return true
	})
	return found
}

// touches says whether a node assigns one of the variables.
func touches(f *frame, n ast.Node, vars []types.Object) bool {
	for _, o := range f.carried(token.NoPos, token.NoPos, n) {
		for _, v := range vars {
			if o == v {
				return true
			}
		}
	}
	return false
}

func (f *frame) forLoop(x *ast.ForStmt) {
	s := f.s
	if x.Init != nil {
		f.stmt(x.Init)
	}
	if x.Cond == nil {
		s.fail(x, "loop without condition")
	}
	s.flush()
	s.fresh++
	k := fmt.Sprintf("k%d", s.fresh)
	var post ast.Node
	if x.Post != nil {
		post = x.Post
	}
	vars := f.carried(x.Body.Pos(), x.Body.End(), x.Body, post)
	vars = f.outer(vars, x.Body)
	closed := f.step(x, vars, x.Body.List, x.Post, k)
	n := f.trips(x, closed, k)
	f.iterate(x, x.Body, vars, closed, k, n)
}

// outer drops the variables declared inside the body.
func (f *frame) outer(vars []types.Object, body ast.Node) []types.Object {
	var out []types.Object
	for _, o := range vars {
		if o.Pos() < body.Pos() || o.Pos() >= body.End() {
			out = append(out, o)
		}
	}
	return out
}

// trips is the number of iterations of a loop.
func (f *frame) trips(x *ast.ForStmt, closed map[types.Object]ax, k string) ax {
	s := f.s
	b, ok := ast.Unparen(x.Cond).(*ast.BinaryExpr)
	if !ok {
		s.fail(x, "loop condition")
	}
	old := map[types.Object]nv{}
	for o, v := range closed {
		old[o] = s.env[o]
		s.env[o] = nv{k: 'i', i: v}
	}
	g := s.guess
	s.guess = true
	l, r := f.evalInt(b.X), f.evalInt(b.Y)
	s.guess = g
	for o, v := range old {
		s.env[o] = v
	}
	var d ax // the loop goes on while d >= 0
	switch b.Op {
	case token.LSS:
		d = r.sub(l).sub(axN(1))
	case token.LEQ:
		d = r.sub(l)
	case token.GTR:
		d = l.sub(r).sub(axN(1))
	case token.GEQ:
		d = l.sub(r)
	case token.NEQ: // stepping down or up to it
		d = r.sub(l)
		if !s.sc.nonneg(d.substV(k, axN(0))) {
			d = d.scale(-1)
		}
		d = d.sub(axN(1))
	default:
		s.fail(x, "loop condition")
	}
	lim := func(n ax) ax {
		if !s.sc.nonneg(n) {
			s.fail(x, "number of iterations %s may be negative", n)
		}
		return n
	}
	exp := false
	for _, m := range d.m {
		exp = exp || m.e.v[k] != 0
	}
	if !exp {
		// d = d0 - c*k
		d0 := d.substV(k, axN(0))
		c := d0.sub(d.substV(k, axN(1)))
		if d.substV(k, axV("?")).eq(d0.sub(c.mul(axV("?")))) {
			if e, ok := c.pow2(); ok {
				q, _, ok := s.sc.div(d0.add(c), e)
				if b.Op == token.NEQ {
					if _, m, ok := s.sc.div(d0.add(axN(1)), e); !ok || len(m.m) != 0 {
						s.fail(x, "loop condition")
					}
				}
				if ok {
					return lim(q)
				}
			}
		}
		s.fail(x, "number of iterations: %s >= 0", d)
	}
	// 2^a - 2^b [-1] with k in one of them
	var up, down *lin
	strict := false
	for _, key := range d.keys() {
		m := d.m[key]
		m2 := m
		switch {
		case m.idx != "":
			s.fail(x, "number of iterations: %s >= 0", d)
		case m.c.Cmp(one) == 0 && up == nil:
			up = &m2.e
		case m.c.Cmp(minusOne) == 0 && (len(m.e.v) > 0 || len(d.m) == 2) && down == nil:
			down = &m2.e
		case m.c.Cmp(minusOne) == 0 && len(m.e.v) == 0 && m.e.c == 0:
			strict = true
		default:
			s.fail(x, "number of iterations: %s >= 0", d)
		}
	}
	if up == nil || down == nil {
		s.fail(x, "number of iterations: %s >= 0", d)
	}
	t := up.add(*down, -1) // goes on while t >= 0 (> 0)
	kk := t.v[k]
	if kk != -1 {
		s.fail(x, "number of iterations: %s >= 0", d)
	}
	n := t.add(lin{v: map[string]int{k: 1}}, 1)
	if !strict {
		n = n.add(linC(1), 1)
	}
	if m, ok := s.sc.minLin(n); !ok || m < 0 {
		if hi, ok := s.sc.minLin(lin{}.add(n, -1)); ok && hi >= 0 {
			return axN(0)
		}
		s.fail(x, "number of iterations %s may be negative", n)
	}
	return n.ax()
}

func (f *frame) rangeLoop(x *ast.RangeStmt) {
	s := f.s
	s.flush()
	v := f.eval(x.X)
	n := v.i
	if v.k == 's' {
		n = v.n
	} else if v.k != 'i' {
		s.fail(x, "range")
	}
	if !s.sc.nonneg(n) {
		s.fail(x, "number of iterations %s may be negative", n)
	}
	s.fresh++
	k := fmt.Sprintf("k%d", s.fresh)
	vars := f.outer(f.carried(x.Body.Pos(), x.Body.End(), x.Body), x.Body)
	closed := f.step(x, vars, x.Body.List, nil, k)
	bindKV := func(k ax) {
		if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
			s.bind(f.info.Defs[id], nv{k: 'i', i: k})
		}
		if id, ok := x.Value.(*ast.Ident); ok && id.Name != "_" {
			if v.k != 's' {
				s.fail(x, "range")
			}
			s.bind(f.info.Defs[id], nv{k: 'c', cell: v.cell, at: v.at.add(k)})
		}
	}
	f.iterateWith(x, x.Body, vars, closed, k, n, bindKV)
}

func (f *frame) iterate(x ast.Node, body *ast.BlockStmt, vars []types.Object, closed map[types.Object]ax, k string, n ax) {
	f.iterateWith(x, body, vars, closed, k, n, func(ax) {})
}

func (f *frame) iterateWith(x ast.Node, body *ast.BlockStmt, vars []types.Object, closed map[types.Object]ax, k string, n ax, pre func(k ax)) {
	s := f.s
	c := counter{k, n}
	body = f.trim(body, vars)
	if n.eq(axN(1)) { // a single iteration
		for _, o := range vars {
			s.env[o] = nv{k: 'i', i: closed[o].substV(k, axN(0))}
		}
		pre(axN(0))
		if done, _ := f.block(body.List); done {
			s.fail(x, "return from a loop")
		}
	} else if len(n.m) > 0 {
		outer := s.out
		s.out = nil
		cm := map[types.Object]bool{}
		for _, o := range vars {
			cm[o] = true
		}
		s.carry = append(s.carry, cm)
		s.sc.loops = append(s.sc.loops, c)
		for _, o := range vars {
			for _, m := range closed[o].m {
				if !s.sc.whole(m) {
					s.fail(x, "variable %s = %s is not known to be whole", o.Name(), closed[o])
				}
			}
			s.env[o] = nv{k: 'i', i: closed[o]}
		}
		for h := range s.heap {
			delete(s.heap, h)
		}
		pre(axV(k))
		if done, _ := f.block(body.List); done {
			s.fail(x, "return from a loop")
		}
		s.flush()
		s.sc.loops = s.sc.loops[:len(s.sc.loops)-1]
		s.carry = s.carry[:len(s.carry)-1]
		in := s.out
		s.out = outer
		if len(in) > 0 {
			s.out = append(s.out, nest{loop: &c, body: in, pos: x.Pos()})
		}
		for h := range s.heap {
			delete(s.heap, h)
		}
	}
	for _, o := range vars {
		v := closed[o].substV(k, n)
		ok := true
		for _, m := range v.m {
			ok = ok && s.sc.whole(m)
		}
		if ok {
			s.env[o] = nv{k: 'i', i: v}
		} else {
			s.env[o] = nv{k: 'o'}
		}
	}
}

// ---------- stages ----------

// family is a set of updates with a common shape, one for each value of the counters.
type family struct {
	loops []counter
	u     *upd
}

func (n nest) families(loops []counter) []family {
	if n.u != nil {
		return []family{{append([]counter(nil), loops...), n.u}}
	}
	var out []family
	l := append(append([]counter(nil), loops...), *n.loop)
	for _, b := range n.body {
		out = append(out, b.families(l)...)
	}
	return out
}

func (f family) count() ax {
	n := axN(int64(len(f.u.w)))
	for _, c := range f.loops {
		n = n.mul(c.n)
	}
	return n
}

// stage is a part of the schedule that updates every element once.
type stage struct {
	fams []family
	seg  *counter // repeated
	pos  token.Pos
}

func (s *sched) stages(ns []nest, size ax, in *counter) []stage {
	var out []stage
	var acc []family
	total := ax{}
	first := token.NoPos
	for _, n := range ns {
		fs := n.families(nil)
		cnt := ax{}
		for _, f := range fs {
			cnt = cnt.add(f.count())
		}
		if len(acc) == 0 && !cnt.eq(size) && n.loop != nil && cnt.eq(n.loop.n.mul(size)) && in == nil {
			sub := s.stages(n.body, size, n.loop)
			if len(sub) != 1 {
				panic(nestErr("loop of " + fmt.Sprint(len(sub)) + " stages at " + s.p.pos(n.pos)))
			}
			sub[0].seg = n.loop
			out = append(out, sub[0])
			continue
		}
		if first == token.NoPos {
			first = n.pos
		}
		acc = append(acc, fs...)
		total = total.add(cnt)
		if total.eq(size) {
			out = append(out, stage{fams: acc, pos: first})
			acc, total, first = nil, ax{}, token.NoPos
		}
	}
	if len(acc) > 0 {
		panic(nestErr(fmt.Sprintf("%s updates make no stage of %s at %s", total, size, s.p.pos(first))))
	}
	return out
}

// distinct proves that the subscripts of the families are pairwise different: the offsets and
// the counters are the digits of a mixed radix.
func (s *sched) distinct(loops []counter, subs []ax) error {
	sc := s.sc
	sc.loops = append(append([]counter(nil), s.sc.loops...), loops...)
	type digit struct{ c, n ax }
	var ds []digit
	base := make([]ax, len(subs))
	for i, a := range subs {
		base[i] = a
		for _, l := range loops {
			base[i] = base[i].substV(l.name, axN(0))
		}
	}
	for _, l := range loops {
		var c ax
		for i, a := range subs {
			x := a.substV(l.name, axN(1)).sub(a.substV(l.name, axN(0)))
			if i > 0 && !x.eq(c) || x.has(l.name) {
				return fmt.Errorf("subscript %s", a)
			}
			c = x
		}
		for _, m := range loops {
			if c.has(m.name) {
				return fmt.Errorf("subscript step %s", c)
			}
		}
		ds = append(ds, digit{c, l.n})
	}
	// offsets
	sort.SliceStable(base, func(i, j int) bool { return sc.nonneg(base[j].sub(base[i]).sub(axN(1))) })
	for i := 1; i < len(base); i++ {
		if !sc.nonneg(base[i].sub(base[i-1]).sub(axN(1))) {
			return fmt.Errorf("offsets %s and %s", base[i-1], base[i])
		}
	}
	top := base[len(base)-1].sub(base[0])
	sort.SliceStable(ds, func(i, j int) bool { return sc.nonneg(ds[j].c.sub(ds[i].c).sub(axN(1))) })
	for _, d := range ds {
		if !sc.nonneg(d.c.sub(top).sub(axN(1))) {
			return fmt.Errorf("step %s against %s below it", d.c, top)
		}
		top = top.add(d.c.mul(d.n.sub(axN(1))))
	}
	return nil
}

// bf is one update of a pair of elements.
type bf struct {
	x, y, w ax
	tw      string
}

// pairs reads the writes of a family as butterflies on root.
func (s *sched) pairs(f family, root string, inverse bool) ([]bf, error) {
	type part struct {
		e   wr
		w   *wr
		neg bool
	}
	read := func(w wr) ([]part, error) {
		var ps []part
		if w.root != root {
			return nil, fmt.Errorf("writes to %s", w.root)
		}
		for _, m := range monosOf('F', w.val) {
			var p part
			if m.c.Cmp(one) != 0 && m.c.Cmp(minusOne) != 0 {
				return nil, fmt.Errorf("element %s becomes %s", w.idx, w.val)
			}
			p.neg = m.c.Sign() < 0
			n := 0
			for _, a := range m.at {
				e, ok := s.atoms[a]
				if !ok {
					return nil, fmt.Errorf("element %s becomes %s", w.idx, w.val)
				}
				if e.root == root {
					p.e = e
					n++
				} else if p.w == nil {
					p.w = &e
				} else {
					n = 9
				}
			}
			if n != 1 {
				return nil, fmt.Errorf("element %s becomes %s", w.idx, w.val)
			}
			ps = append(ps, p)
		}
		if len(ps) != 2 {
			return nil, fmt.Errorf("element %s becomes %s", w.idx, w.val)
		}
		return ps, nil
	}
	var out []bf
	lower := map[string]bool{}
	key := func(b bf) string { return b.x.String() + "|" + b.y.String() + "|" + b.w.String() + "|" + b.tw }
	sums := map[string]ax{}
	for _, w := range f.u.w {
		ps, err := read(w)
		if err != nil {
			return nil, err
		}
		a, b := ps[0], ps[1]
		if !inverse {
			if a.w != nil {
				a, b = b, a
			}
			if a.w != nil || b.w == nil || a.neg {
				return nil, fmt.Errorf("element %s becomes %s", w.idx, w.val)
			}
			x := bf{a.e.idx, b.e.idx, b.w.idx, b.w.root}
			switch {
			case !b.neg && w.idx.eq(x.x):
				out = append(out, x)
			case b.neg && w.idx.eq(x.y):
				lower[key(x)] = true
			default:
				return nil, fmt.Errorf("element %s becomes %s", w.idx, w.val)
			}
			continue
		}
		switch {
		case a.w == nil && b.w == nil && !a.neg && !b.neg:
			if w.idx.eq(b.e.idx) {
				a, b = b, a
			}
			if !w.idx.eq(a.e.idx) {
				return nil, fmt.Errorf("element %s becomes %s", w.idx, w.val)
			}
			sums[a.e.idx.String()+"|"+b.e.idx.String()] = a.e.idx
		case a.w != nil && b.w != nil && a.w.root == b.w.root && a.w.idx.eq(b.w.idx) && a.neg != b.neg:
			if a.neg {
				a, b = b, a
			}
			if !w.idx.eq(b.e.idx) {
				return nil, fmt.Errorf("element %s becomes %s", w.idx, w.val)
			}
			out = append(out, bf{a.e.idx, b.e.idx, a.w.idx, a.w.root})
		default:
			return nil, fmt.Errorf("element %s becomes %s", w.idx, w.val)
		}
	}
	for _, b := range out {
		if inverse {
			if _, ok := sums[b.x.String()+"|"+b.y.String()]; !ok {
				return nil, fmt.Errorf("elements %s and %s are not updated together", b.x, b.y)
			}
		} else if !lower[key(b)] {
			return nil, fmt.Errorf("elements %s and %s are not updated together", b.x, b.y)
		}
	}
	if 2*len(out) != len(f.u.w) {
		return nil, fmt.Errorf("%d elements are updated in %d pairs", len(f.u.w), len(out))
	}
	return out, nil
}

// network compares a stage with that of the decimation network with 2^e groups: element
// 2Ti+j with 2Ti+j+T for j<T, with factor 2^e+i.
func (s *sched) network(st stage, e lin, L ax, root, tw string, inverse bool) error {
	l, _ := L.lin()
	T := axPow(l.add(e, -1).add(linC(1), -1))
	m := axPow(e)
	if st.seg != nil {
		s.sc.loops = append(s.sc.loops, *st.seg)
		defer func() { s.sc.loops = s.sc.loops[:len(s.sc.loops)-1] }()
	}
	for i, f := range st.fams {
		if st.seg != nil { // the segment's counter is not part of the stage
			f.loops = f.loops[:len(f.loops):len(f.loops)]
		}
		ps, err := s.pairs(f, root, inverse)
		if err != nil {
			return err
		}
		sc := s.sc
		sc.loops = append(append([]counter(nil), s.sc.loops...), f.loops...)
		var xs []ax
		for _, b := range ps {
			if b.tw != tw {
				return fmt.Errorf("factor from %s", b.tw)
			}
			if !b.y.sub(b.x).eq(T) {
				return fmt.Errorf("pair %s, %s is not %s apart", b.x, b.y, T)
			}
			g := b.w.sub(m)
			j := b.x.sub(g.mul(T).scale(2))
			if !sc.nonneg(g) || !sc.nonneg(m.sub(axN(1)).sub(g)) || !sc.nonneg(j) || !sc.nonneg(T.sub(axN(1)).sub(j)) {
				return fmt.Errorf("pair %s, %s does not have factor %s (group %s, position %s)", b.x, b.y, b.w, g, j)
			}
			xs = append(xs, b.x)
		}
		if err := s.distinct(f.loops, xs); err != nil {
			return fmt.Errorf("pairs are not known to be distinct: %v", err)
		}
		if err := s.apartFrom(st.fams[:i], f, root, inverse); err != nil {
			return err
		}
	}
	return nil
}

// apartFrom proves that the family lies above all earlier ones.
func (s *sched) apartFrom(fs []family, f family, root string, inverse bool) error {
	for _, o := range fs {
		sc := s.sc
		ren := map[string]string{}
		sc.loops = append([]counter(nil), s.sc.loops...)
		for _, l := range o.loops {
			ren[l.name] = l.name + "'"
			n := l.n
			for a, b := range ren {
				n = n.substV(a, axV(b))
			}
			sc.loops = append(sc.loops, counter{l.name + "'", n})
		}
		sc.loops = append(sc.loops, f.loops...)
		for _, a := range o.u.w {
			for _, b := range f.u.w {
				x := a.idx
				for p, q := range ren {
					x = x.substV(p, axV(q))
				}
				if !sc.nonneg(b.idx.sub(x).sub(axN(1))) && !sc.nonneg(x.sub(b.idx).sub(axN(1))) && !pairsApart(sc, a.idx, b.idx, ren, o, f) {
					return fmt.Errorf("updates of %s and %s are not known to be distinct", a.idx, b.idx)
				}
			}
		}
	}
	return nil
}

func pairsApart(sc scope, a, b ax, ren map[string]string, o, f family) bool { return false }

// pointwise reads a stage that sets every element of dst to factor times that of src.
func (s *sched) pointwise(st stage, dst, src, factor string, size ax) error {
	for i, f := range st.fams {
		sc := s.sc
		sc.loops = append(append([]counter(nil), s.sc.loops...), f.loops...)
		var xs []ax
		for _, w := range f.u.w {
			ms := monosOf('F', w.val)
			if w.root != dst || len(ms) != 1 || ms[0].c.Cmp(one) != 0 {
				return fmt.Errorf("%s[%s] becomes %s", w.root, w.idx, w.val)
			}
			n := 1
			if factor != "" {
				n = 2
			}
			ok := len(ms[0].at) == n
			for _, a := range ms[0].at {
				e := s.atoms[a]
				switch {
				case e.root == src && e.idx.eq(w.idx):
				case e.root == factor && factor != "":
				default:
					ok = false
				}
			}
			if n == 2 && ok && s.atoms[ms[0].at[0]].root == s.atoms[ms[0].at[1]].root {
				ok = false
			}
			if !ok || !sc.nonneg(w.idx) || !sc.nonneg(size.sub(w.idx).sub(axN(1))) {
				return fmt.Errorf("%s[%s] becomes %s", w.root, w.idx, w.val)
			}
			xs = append(xs, w.idx)
		}
		if err := s.distinct(f.loops, xs); err != nil {
			return err
		}
		if err := s.apartFrom(st.fams[:i], f, dst, false); err != nil {
			return err
		}
	}
	return nil
}

// transform interprets a transform's method for lengths 2^L, lo <= L <= hi.
// The lengths of the result and of the operand are 2^(L+dOut) and 2^(L+dIn).
func (p *Program) transform(fi *FuncInfo, lo, hi int, inverse bool, inPlace bool, dOut, dIn int) (lines []string, uses map[string]bool, panics bool, err error) {
	s := &sched{p: p, env: map[types.Object]nv{}, depth: map[types.Object]int{}, heap: map[string]*Term{}, atoms: map[*Term]wr{}, uses: map[string]bool{}}
	uses = s.uses
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(nestErr); ok {
				err = fmt.Errorf("%s", string(u))
				return
			}
			if u, ok := x.(nestPanic); ok {
				panics = true
				err = fmt.Errorf("%s", string(u))
				return
			}
			panic(x)
		}
	}()
	s.sc.lo, s.sc.hi = lo, hi
	L := axV("L")
	if lo == hi {
		L = axN(int64(lo))
	}
	ll, _ := L.lin()
	N := axPow(ll)
	src := "v"
	if inPlace {
		src = "vOut"
	}
	twName := "tw"
	if inverse {
		twName = "twInv"
	}
	vec := func(r string) nv { return nv{k: 's', cell: r, n: N} }
	recv := nv{k: 'v', flds: map[string]nv{"rank": {k: 'i', i: N}, "tw": vec("tw"), "twInv": vec("twInv"), "rankInv": {k: 'c', cell: "rankInv"}}}
	f := &frame{s, fi.Pkg.Info}
	s.uses[funcName(fi)+" "+p.pos(fi.Decl.Pos())] = true
	vOut, v := vec("vOut"), vec(src)
	vOut.n, v.n = axPow(ll.add(linC(dOut), 1)), axPow(ll.add(linC(dIn), 1))
	f.inline(fi.Decl, fi.Decl.Type, fi.Decl.Body, fi.Pkg.Info, fi.Decl.Recv, recv, []nv{vOut, v})
	s.flush()
	sts := s.stages(s.out, N, nil)
	// the operand is copied
	if len(sts) == 0 {
		return nil, uses, false, fmt.Errorf("no updates")
	}
	if e := s.pointwise(sts[0], "vOut", src, "", N); e != nil {
		return nil, uses, false, fmt.Errorf("the operand is not copied: %v at %s", e, p.pos(sts[0].pos))
	}
	sts = sts[1:]
	if inverse {
		if len(sts) == 0 {
			return nil, uses, false, fmt.Errorf("the result is not scaled")
		}
		last := sts[len(sts)-1]
		if e := s.pointwise(last, "vOut", "vOut", "rankInv", N); e != nil {
			return nil, uses, false, fmt.Errorf("the result is not scaled: %v at %s", e, p.pos(last.pos))
		}
		sts = sts[:len(sts)-1]
	}
	at := linC(0)
	for _, st := range sts {
		n, e := linC(1), at
		if st.seg != nil {
			x, ok := st.seg.n.lin()
			if !ok {
				return nil, uses, false, fmt.Errorf("number of stages %s", st.seg.n)
			}
			n, e = x, at.add(lin{v: map[string]int{st.seg.name: 1}}, 1)
		}
		if inverse {
			e = ll.add(linC(1), -1).add(e, -1)
		}
		if x := s.network(st, e, L, "vOut", twName, inverse); x != nil {
			return nil, uses, false, fmt.Errorf("stage with %s groups: %v at %s", axPow(e), x, p.pos(st.pos))
		}
		lines = append(lines, fmt.Sprintf("%s groups x%s", axPow(e), n.ax()))
		at = at.add(n, 1)
	}
	if d := at.add(ll, -1); d.c != 0 || len(d.v) != 0 {
		return nil, uses, false, fmt.Errorf("%s stages instead of %s", at.ax(), L)
	}
	return lines, uses, false, nil
}

// schedule is the rule that a transform's loop nests are the decimation network.
func schedule(pkg, recv, name string, inverse bool) rule {
	return func(p *Program, r *report) {
		cons := pkg + "." + recv + "." + name
		fi := p.lookup(pkg, recv, name)
		if fi == nil {
			r.add("stages", cons, "", false, "the function is missing")
			return
		}
		where := p.pos(fi.Decl.Pos())
		for _, inPlace := range []bool{false, true} {
			tag := map[bool]string{false: "", true: " in place"}[inPlace]
			start := 6
			var err error
			var uses map[string]bool
			for ; start <= 12; start += 2 {
				if _, uses, _, err = p.transform(fi, start, -1, inverse, inPlace, 0, 0); err == nil {
					break
				}
			}
			for u := range uses {
				r.analysed[u] = true
			}
			msg := ""
			if err != nil {
				start, msg = 6, err.Error()
			}
			r.add("stages", cons+tag+fmt.Sprintf(" lengths from 2^%d", start), where, err == nil, msg)
			for l := 1; l < start; l++ {
				_, uses, _, err := p.transform(fi, l, l, inverse, inPlace, 0, 0)
				for u := range uses {
					r.analysed[u] = true
				}
				msg := ""
				if err != nil {
					msg = err.Error()
				}
				r.add("stages", fmt.Sprintf("%s%s length 2^%d", cons, tag, l), where, err == nil, msg)
			}
		}
		for _, d := range [][2]int{{1, 0}, {-1, 0}, {0, 1}, {0, -1}, {1, 1}, {-1, -1}} {
			_, _, panics, err := p.transform(fi, 6, -1, inverse, false, d[0], d[1])
			msg := ""
			if !panics {
				msg = "not rejected"
				if err != nil {
					msg += ": " + err.Error()
				}
			}
			r.add("lengths", fmt.Sprintf("%s rejects result of length rank*2^%d, operand of length rank*2^%d", cons, d[0], d[1]), where, panics, msg)
		}
	}
}
