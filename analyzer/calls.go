package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func unparen(x ast.Expr) ast.Expr {
	for {
		p, ok := x.(*ast.ParenExpr)
		if !ok {
			return x
		}
		x = p.X
	}
}

// ---------- mutability of local variables ----------

// rootVar is the variable whose storage x denotes (a part of), or nil.
func rootVar(info *types.Info, x ast.Expr) types.Object {
	switch x := unparen(x).(type) {
	case *ast.Ident:
		if o := info.Uses[x]; o != nil {
			return o
		}
		return info.Defs[x]
	case *ast.SelectorExpr:
		t := info.TypeOf(x.X)
		if t == nil {
			return nil
		}
		if _, ok := under(t).(*types.Pointer); ok || isRingPoly(t) {
			return nil
		}
		if s := info.Selections[x]; s == nil || s.Indirect() {
			return nil
		}
		return rootVar(info, x.X)
	case *ast.IndexExpr:
		t := info.TypeOf(x.X)
		if t == nil {
			return nil
		}
		if _, ok := under(t).(*types.Array); ok {
			return rootVar(info, x.X)
		}
	}
	return nil
}

// mutables collects the variables of body that need a memory cell.
func mutables(info *types.Info, nodes ...ast.Node) map[types.Object]bool {
	mut := map[types.Object]bool{}
	mark := func(x ast.Expr) {
		if o := rootVar(info, x); o != nil {
			mut[o] = true
		}
	}
	for _, n := range nodes {
		if n == nil {
			continue
		}
		ast.Inspect(n, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					if n.Tok == token.DEFINE {
						if id, ok := l.(*ast.Ident); ok && info.Defs[id] == nil && id.Name != "_" {
							mark(l)
						}
						continue
					}
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(n.X)
			case *ast.RangeStmt:
				if n.Tok == token.ASSIGN {
					if n.Key != nil {
						mark(n.Key)
					}
					if n.Value != nil {
						mark(n.Value)
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					mark(n.X)
				}
			case *ast.SliceExpr:
				if t := info.TypeOf(n.X); t != nil {
					if _, ok := under(t).(*types.Array); ok {
						mark(n.X)
					}
				}
			case *ast.SelectorExpr:
				if s := info.Selections[n]; s != nil && s.Kind() == types.MethodVal {
					f := s.Obj().(*types.Func)
					if sig, ok := f.Type().(*types.Signature); ok && sig.Recv() != nil {
						if _, ok := sig.Recv().Type().(*types.Pointer); ok {
							if t := info.TypeOf(n.X); t != nil {
								if _, isP := under(t).(*types.Pointer); !isP && !isRingPoly(t) {
									mark(n.X)
								}
							}
						}
					}
				}
			case *ast.ValueSpec:
				for _, id := range n.Names {
					if o := info.Defs[id]; o != nil && isOpaqueStruct(o.Type()) {
						mut[o] = true
					}
				}
			}
			return true
		})
	}
	return mut
}

// ---------- calls ----------

func (fr *Frame) call(st *State, x *ast.CallExpr) []*Term {
	fun := unparen(x.Fun)
	// conversion
	if tv, ok := fr.info.Types[fun]; ok && tv.IsType() {
		return []*Term{fr.conversion(st, x, fr.substT(tv.Type))}
	}
	var inst *ast.Ident
	switch f := fun.(type) {
	case *ast.IndexExpr:
		fun = unparen(f.X)
	case *ast.IndexListExpr:
		fun = unparen(f.X)
	}
	switch f := fun.(type) {
	case *ast.Ident:
		inst = f
		switch o := fr.info.Uses[f].(type) {
		case *types.Builtin:
			return fr.builtin(st, x, o.Name())
		case *types.Func:
			return fr.invoke(st, x, o, nil, nil, fr.instArgs(inst))
		}
		return fr.callValue(st, x, fr.eval(st, fun))
	case *ast.SelectorExpr:
		inst = f.Sel
		sel := fr.info.Selections[f]
		if sel == nil {
			switch o := fr.info.Uses[f.Sel].(type) {
			case *types.Func:
				return fr.invoke(st, x, o, nil, nil, fr.instArgs(inst))
			case *types.Builtin:
				return fr.builtin(st, x, o.Name())
			}
			return fr.callValue(st, x, fr.eval(st, fun))
		}
		if sel.Kind() != types.MethodVal {
			return fr.callValue(st, x, fr.eval(st, fun))
		}
		fn := sel.Obj().(*types.Func)
		recv, rt := fr.receiver(st, f, sel, fn)
		return fr.invoke(st, x, fn, recv, rt, nil)
	case *ast.FuncLit:
		return fr.callValue(st, x, fr.eval(st, fun))
	}
	return fr.callValue(st, x, fr.eval(st, fun))
}

func (fr *Frame) instArgs(id *ast.Ident) []types.Type {
	in, ok := fr.info.Instances[id]
	if !ok {
		return nil
	}
	var out []types.Type
	for i := 0; i < in.TypeArgs.Len(); i++ {
		out = append(out, fr.substT(in.TypeArgs.At(i)))
	}
	return out
}

// receiver evaluates the receiver of a method call; rt is its static type.
func (fr *Frame) receiver(st *State, f *ast.SelectorExpr, sel *types.Selection, fn *types.Func) (*Term, types.Type) {
	e := fr.e
	t := fr.typ(f.X)
	idx := sel.Index()
	ptrRecv := false
	if sig, ok := fn.Type().(*types.Signature); ok && sig.Recv() != nil {
		_, ptrRecv = sig.Recv().Type().(*types.Pointer)
	}
	if len(idx) == 1 {
		if isE(t) {
			return fr.eval(st, f.X), t
		}
		if isRingPoly(t) {
			return fr.eval(st, f.X), t
		}
		if _, ok := under(t).(*types.Interface); ok {
			return fr.eval(st, f.X), t
		}
		if p, ok := under(t).(*types.Pointer); ok {
			v := fr.eval(st, f.X)
			if isRingPoly(p.Elem()) {
				return e.load(st, v, p.Elem()), p.Elem()
			}
			if ptrRecv {
				return v, p.Elem()
			}
			return e.load(st, v, p.Elem()), p.Elem()
		}
		if ptrRecv {
			if fr.addressable(f.X) {
				return fr.addr(st, f.X), t
			}
			return raw("val", "", fr.eval(st, f.X)), t
		}
		return fr.eval(st, f.X), t
	}
	// promoted through embedded fields
	var p *Term
	if pt, ok := under(t).(*types.Pointer); ok {
		p = fr.eval(st, f.X)
		t = pt.Elem()
	} else if fr.addressable(f.X) {
		p = fr.addr(st, f.X)
	} else {
		p = raw("val", "", fr.eval(st, f.X))
	}
	for _, i := range idx[:len(idx)-1] {
		if pt, ok := under(t).(*types.Pointer); ok {
			p = e.load(st, p, t)
			t = pt.Elem()
		}
		s := under(t).(*types.Struct)
		p = e.fieldPtr(p, s.Field(i).Name())
		t = s.Field(i).Type()
	}
	if _, ok := under(t).(*types.Interface); ok || isRingPoly(t) {
		return e.load(st, p, t), t
	}
	if pt, ok := under(t).(*types.Pointer); ok {
		p = e.load(st, p, t)
		t = pt.Elem()
	}
	if ptrRecv {
		return p, t
	}
	return e.load(st, p, t), t
}

// calleeKey is the name under which a function is modelled.
func (fr *Frame) calleeKey(fn *types.Func, rt types.Type) string {
	pkg := ""
	if fn.Pkg() != nil {
		pkg = strings.TrimPrefix(strings.TrimPrefix(fn.Pkg().Path(), modPath), "/")
	}
	if rt == nil {
		return pkg + "." + fn.Name()
	}
	if isE(rt) {
		return "E." + fn.Name()
	}
	if p, ok := rt.(*types.Pointer); ok {
		rt = p.Elem()
	}
	if n, ok := rt.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			pkg = strings.TrimPrefix(strings.TrimPrefix(n.Obj().Pkg().Path(), modPath), "/")
		}
		if _, ok := n.Underlying().(*types.Struct); ok && n.Obj().Name() == "Uint" && strings.Contains(pkg, "internal/zp") {
			return "E." + fn.Name()
		}
		return pkg + "." + n.Obj().Name() + "." + fn.Name()
	}
	return pkg + ".?." + fn.Name()
}

// invoke calls a declared function or method.
func (fr *Frame) invoke(st *State, x *ast.CallExpr, fn *types.Func, recv *Term, rt types.Type, targs []types.Type) []*Term {
	e := fr.e
	if st.dead {
		return []*Term{tNil}
	}
	sig := fn.Type().(*types.Signature)
	var args []*Term
	np := sig.Params().Len()
	if len(x.Args) == 1 && np > 1 {
		args = fr.evalMulti(st, x.Args[0])
	} else {
		for i, a := range x.Args {
			if sig.Variadic() && i >= np-1 && !x.Ellipsis.IsValid() {
				break
			}
			args = append(args, fr.eval(st, a))
			_ = i
		}
	}
	if sig.Variadic() && !x.Ellipsis.IsValid() {
		et := sig.Params().At(np - 1).Type().(*types.Slice).Elem()
		if len(x.Args) < np {
			args = append(args, tNil)
		} else {
			arr := e.newObj(fr.key(x) + "va")
			n := 0
			for _, a := range x.Args[np-1:] {
				v := fr.eval(st, a)
				e.store(st, mkPtr(arr, "[#]", I(int64(n))), fr.substT(et), v)
				n++
			}
			args = append(args, mkSlice(arr, I(0), I(int64(n))))
		}
	}
	if st.dead {
		return []*Term{tNil}
	}
	key := fr.calleeKey(fn, rt)
	c := &callCtx{e: e, fr: fr, st: st, call: x, fn: fn, recv: recv, args: args, key: fr.key(x), rt: rt, name: key}
	switch fn.Name() {
	case "specAssume": // a condition on the inputs of a unit
		if args[0] != tTrue {
			e.assumed = append(e.assumed, args[0])
			st.addFact(args[0], false)
		}
		return nil
	case "specSplit": // compare separately where the condition holds and where it does not
		e.splits = append(e.splits, args[0])
		return nil
	case "specDefine": // an equation between inputs of a unit
		if len(e.loopVars()) > 0 {
			if args[0].op == "len" {
				p := lenPattern{map[*Term]bool{}, args[0].args[0], args[1]}
				for _, v := range e.loopVars() {
					p.vars[v] = true
				}
				lenPatterns = append(lenPatterns, p)
			}
			return nil
		}
		e.defs[args[0]] = args[1]
		c := eq0('I', subI(args[0], args[1]))
		e.assumed = append(e.assumed, c)
		st.addFact(c, false)
		return nil
	}
	org := fn.Origin()
	if e.rings != nil {
		e.ringCheck(c, key)
	}
	if m := e.models[key]; m != nil && (!e.uncut[key] || e.active(org)) && !(outsideOnly[key] && fn.Pkg() == fr.pkg.Types) {
		return pad(m(c), sig, c)
	}
	fi := e.prog.Funcs[org]
	if fi == nil {
		fi = e.prog.Std[key] // written out in std.go
	}
	if fi != nil && fi.Decl.Body != nil {
		if !e.active(org) && len(e.stack) < 60 {
			return e.inline(fr, st, c, fi, targs)
		}
		e.note("recursive call of %s", key)
	}
	return pad(c.external(), sig, c)
}

// active reports whether a function is being interpreted.
func (e *Engine) active(fn *types.Func) bool {
	for _, g := range e.stack {
		if g == fn {
			return true
		}
	}
	return false
}

// outsideOnly are the functions that are summarised only where another package calls them.
var outsideOnly = map[string]bool{"jindo.Commitment.WriteRawTo": true, "jindo.Verifier.Verify": true, "jindo.Prover.Commit": true, "jindo.Prover.Evaluate": true}

func pad(vs []*Term, sig *types.Signature, c *callCtx) []*Term {
	for len(vs) < sig.Results().Len() {
		vs = append(vs, raw("unk", fmt.Sprintf("%s r%d", c.key, len(vs))))
	}
	return vs
}

// typeArgs maps the type parameters of a function to the types it is used with.
func (fr *Frame) bindTargs(fi *FuncInfo, rt types.Type, targs []types.Type) map[*types.TypeParam]types.Type {
	m := map[*types.TypeParam]types.Type{}
	sig := fi.Obj.Type().(*types.Signature)
	if rp := sig.RecvTypeParams(); rp != nil {
		if p, ok := rt.(*types.Pointer); ok {
			rt = p.Elem()
		}
		if n, ok := rt.(*types.Named); ok && n.TypeArgs() != nil {
			for i := 0; i < rp.Len() && i < n.TypeArgs().Len(); i++ {
				m[rp.At(i)] = fr.substT(n.TypeArgs().At(i))
			}
		}
	}
	if tp := sig.TypeParams(); tp != nil {
		for i := 0; i < tp.Len() && i < len(targs); i++ {
			m[tp.At(i)] = targs[i]
		}
	}
	return m
}

func (e *Engine) inline(fr *Frame, st *State, c *callCtx, fi *FuncInfo, targs []types.Type) []*Term {
	e.inlined[fi] = true
	nf := &Frame{e: e, pkg: fi.Pkg, name: fi.Obj.Name(), info: fi.Pkg.Info,
		env: map[types.Object]*Term{}, vals: map[types.Object]*Term{},
		path: c.key, sig: fi.Obj.Type().(*types.Signature)}
	nf.targs = fr.bindTargs(fi, c.rt, targs)
	if e.mutMemo[fi.Obj] == nil {
		e.mutMemo[fi.Obj] = mutables(nf.info, fi.Decl.Body)
	}
	nf.mut = e.mutMemo[fi.Obj]
	e.stack = append(e.stack, fi.Obj)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	if fi.Decl.Recv != nil && len(fi.Decl.Recv.List) > 0 && len(fi.Decl.Recv.List[0].Names) > 0 {
		if o := nf.info.Defs[fi.Decl.Recv.List[0].Names[0]]; o != nil {
			nf.bindObj(st, o, c.recv)
		}
	}
	return nf.run(st, fi.Decl.Type, fi.Decl.Body, c.args)
}

// run binds the parameters and executes a body; st becomes the state after the call.
func (nf *Frame) run(st *State, ft *ast.FuncType, body *ast.BlockStmt, args []*Term) []*Term {
	e := nf.e
	i := 0
	if ft.Params != nil {
		for _, f := range ft.Params.List {
			if len(f.Names) == 0 {
				i++
				continue
			}
			for _, id := range f.Names {
				if o := nf.info.Defs[id]; o != nil && id.Name != "_" {
					nf.bindObj(st, o, args[i])
				}
				i++
			}
		}
	}
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			for _, id := range f.Names {
				if o := nf.info.Defs[id]; o != nil {
					if nf.named == nil {
						nf.mut = copyMut(nf.mut)
					}
					nf.mut[o] = true
					nf.bindObj(st, o, zero(nf.substT(o.Type())))
					nf.named = append(nf.named, o)
				}
			}
		}
	}
	var defers []func(*State)
	nf.defers = &defers
	fl := &flow{}
	before, born := st.log, e.nobj
	nf.block(st, body.List, fl)
	if !st.dead {
		var vals []*Term
		for _, o := range nf.named {
			vals = append(vals, nf.getVar(st, o))
		}
		fl.rets = append(fl.rets, exit{st: st.fork(), vals: vals})
	}
	x := e.mergeExits(fl.rets)
	*st = *x.st
	if st.dead {
		n := 0
		if nf.sig != nil {
			n = nf.sig.Results().Len()
		}
		var vals []*Term
		for i := 0; i < n; i++ {
			vals = append(vals, tNil)
		}
		return vals
	}
	for i := len(defers) - 1; i >= 0; i-- {
		defers[i](st)
	}
	if len(defers) == 0 {
		nf.joinFresh(st, before, born, x.vals)
	}
	return x.vals
}

// joinFresh replaces a result that is one of several numbers which the call made, depending on
// how it went, by a single new number with the same value.
func (nf *Frame) joinFresh(st *State, before *node, born int, vals []*Term) {
	e := nf.e
	if nf.sig == nil || nf.sig.Results().Len() != len(vals) {
		return
	}
	for j, v := range vals {
		if v.op != "ite" {
			continue
		}
		t := nf.substT(nf.sig.Results().At(j).Type())
		kind := byte(0)
		if isE(t) {
			kind = 'F'
		} else if p, ok := t.(*types.Pointer); ok && isNamed(p.Elem(), "math/big", "Int") {
			kind = 'I'
		}
		if kind == 0 {
			continue
		}
		objs := map[*Term]bool{}
		fresh := true
		var leaves func(x *Term)
		leaves = func(x *Term) {
			switch {
			case x.op == "ite":
				leaves(x.args[1])
				leaves(x.args[2])
			case x.op == "obj" && e.born[x.s] > born:
				objs[x] = true
			default:
				fresh = false
			}
		}
		leaves(v)
		if !fresh || len(objs) < 2 {
			continue
		}
		mentions := func(t *Term) bool {
			found := false
			if t != nil {
				collect(t, func(y *Term) bool {
					found = found || objs[y] || y.op == "closure"
					return !found
				})
			}
			return found
		}
		for i, o := range vals {
			fresh = fresh && (i == j || !mentions(o))
		}
		for n := st.log; n != before && n != nil && fresh; n = n.prev {
			fresh = !mentions(n.st.val)
		}
		if !fresh {
			continue
		}
		o := e.newObj(fmt.Sprintf("%s.join%d", nf.path, j))
		e.setContent(st, o, e.contentK(st, v, kind))
		vals[j] = o
	}
}

func copyMut(m map[types.Object]bool) map[types.Object]bool {
	c := map[types.Object]bool{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

// runClosure calls a function literal.
func (fr *Frame) runClosure(st *State, x *ast.CallExpr, cl *closure, args []*Term) []*Term {
	sig, _ := under(cl.fr.info.TypeOf(cl.lit)).(*types.Signature)
	nf := &Frame{e: fr.e, pkg: cl.fr.pkg, name: cl.fr.name + "λ", info: cl.fr.info, env: map[types.Object]*Term{},
		vals: map[types.Object]*Term{}, mut: cl.fr.mut, targs: cl.fr.targs, path: fr.key(x), sig: sig}
	for k, v := range cl.fr.env {
		nf.env[k] = v
	}
	for k, v := range cl.fr.vals {
		nf.vals[k] = v
	}
	return nf.run(st, cl.lit.Type, cl.lit.Body, args)
}

// callValue calls a function value.
func (fr *Frame) callValue(st *State, x *ast.CallExpr, f *Term) []*Term {
	e := fr.e
	sig, _ := under(fr.typ(x.Fun)).(*types.Signature)
	var args []*Term
	for _, a := range x.Args {
		args = append(args, fr.eval(st, a))
	}
	if cl := e.closures[f]; cl != nil {
		return fr.runClosure(st, x, cl, args)
	}
	if f.op == "ite" && sig != nil {
		var rv [2][]*Term
		a, b := st.fork(), st.fork()
		a.assume(f.args[0])
		b.assume(not(f.args[0]))
		rv[0] = fr.callValue(a, x, f.args[1])
		rv[1] = fr.callValue(b, x, f.args[2])
		m, c := e.merge2(a, b)
		*st = *m
		var out []*Term
		for i := range rv[0] {
			out = append(out, ite(c, rv[0][i], rv[1][i]))
		}
		return out
	}
	e.note("%s: call of an unknown function value", e.prog.pos(x.Pos()))
	var out []*Term
	n := 1
	if sig != nil {
		n = sig.Results().Len()
	}
	for i := 0; i < n; i++ {
		out = append(out, app(fmt.Sprintf("callv%d", i), append([]*Term{f}, args...)...))
	}
	return out
}

// external is the default treatment of a function without a body or model: an uninterpreted
// function of the contents of its arguments.
func (c *callCtx) external() []*Term {
	e := c.e
	e.note("uninterpreted call of %s", c.name)
	sig := c.fn.Type().(*types.Signature)
	var in []*Term
	if c.recv != nil {
		in = append(in, c.val(c.recv, c.rt))
	}
	for i, a := range c.args {
		j := i
		if j >= sig.Params().Len() {
			j = sig.Params().Len() - 1
		}
		in = append(in, c.val(a, c.fr.substT(sig.Params().At(j).Type())))
	}
	var out []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, app(fmt.Sprintf("%s.%d", c.name, i), in...))
	}
	return out
}

// opaqueCall summarises a call by what it is given.
func opaqueCall(c *callCtx) []*Term {
	sig := c.fn.Type().(*types.Signature)
	var in []*Term
	if c.recv != nil {
		t := c.rt
		if sig.Recv() != nil {
			if _, ok := sig.Recv().Type().(*types.Pointer); ok {
				if _, ok := under(t).(*types.Pointer); !ok {
					t = types.NewPointer(t)
				}
			}
		}
		in = append(in, c.val(c.recv, t))
	}
	for i, a := range c.args {
		j := min(i, sig.Params().Len()-1)
		in = append(in, c.val(a, c.fr.substT(sig.Params().At(j).Type())))
	}
	var out []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		name := fmt.Sprintf("call:%s.%d", c.name, i)
		t := c.fr.substT(sig.Results().At(i).Type())
		switch under(t).(type) {
		case *types.Basic:
			nonnegApp[name] = true
			out = append(out, app(name, in...))
		default:
			out = append(out, raw("in", name, in...))
		}
	}
	return out
}

// val is the content a value of type t stands for.
func (c *callCtx) val(v *Term, t types.Type) *Term { return c.e.value(c.st, v, t, 6) }

// value dereferences v structurally.
func (e *Engine) value(st *State, v *Term, t types.Type, d int) *Term {
	if t == nil || d == 0 || v.op == "nil" {
		return v
	}
	if v.op == "ite" {
		return ite(v.args[0], e.value(st, v.args[1], t, d), e.value(st, v.args[2], t, d))
	}
	if isE(t) {
		return e.contentK(st, v, 'F')
	}
	if isRingPoly(t) {
		return e.contentK(st, v, 'R')
	}
	switch u := t.(type) {
	case *types.Named:
		if isOpaqueStruct(u) {
			return v
		}
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		if isNamed(u.Elem(), "math/big", "Int") {
			return e.contentK(st, v, 'I')
		}
		if isOpaqueStruct(u.Elem()) {
			return e.content(st, v)
		}
		if isRefLike(v) && (v.op == "in" || v.op == "init" || v.op == "global") {
			return v
		}
		if structOf(u.Elem()) != nil {
			return e.value(st, e.load(st, v, u.Elem()), u.Elem(), d-1)
		}
		return e.value(st, e.load(st, v, u.Elem()), u.Elem(), d-1)
	case *types.Struct:
		s := structOf(t)
		if s == nil {
			return v
		}
		var fs []string
		var vs []*Term
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			fs = append(fs, f.Name())
			vs = append(vs, e.value(st, projT(v, f.Name()), f.Type(), d-1))
		}
		return structT("", fs, vs)
	case *types.Slice:
		n := lenOf(v)
		if nn, ok := constOf(n); ok && nn.IsInt64() && nn.Int64() == 0 {
			return raw("list", "", I(0))
		}
		j := raw("kv", fmt.Sprintf("deref%d", d))
		body := e.value(st.with(ge0(j), ltI(j, n)), e.loadElem(st.with(ge0(j), ltI(j, n)), v, j, u.Elem()), u.Elem(), d-1)
		return mkVec(n, j, body)
	case *types.Array:
		if v.op == "vec" || v.op == "ite" {
			j := raw("kv", fmt.Sprintf("deref%d", d))
			n := I(u.Len())
			return mkVec(n, j, e.value(st.with(ge0(j), ltI(j, n)), elemAt(v, j), u.Elem(), d-1))
		}
	case *types.Interface:
		if v.op == "obj" && (isNamed(t, "crypto/cipher", "Stream") || isNamed(t, "crypto/cipher", "Block")) {
			return e.content(st, v)
		}
	}
	return v
}

// ---------- conversions ----------

func isUnsafePtr(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func bitsOf(t types.Type) int {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (fr *Frame) conversion(st *State, x *ast.CallExpr, t types.Type) *Term {
	e := fr.e
	from := fr.typ(x.Args[0])
	v := fr.eval(st, x.Args[0])
	if isUnsafePtr(t) {
		if p, ok := under(from).(*types.Pointer); ok {
			return raw("uptr", typeKey(p.Elem(), fr.targs), v)
		}
		return v
	}
	if isUnsafePtr(from) {
		p, ok := under(t).(*types.Pointer)
		if !ok {
			return raw("unsafe", typeKey(t, fr.targs), v)
		}
		if v.op == "uptr" {
			if a, ok := under(p.Elem()).(*types.Array); ok && typeKey(a.Elem(), fr.targs) == v.s {
				r := raw("view", "", v.args[0])
				fr.viewInside(st, x, a.Len())
				return r
			}
			if typeKey(p.Elem(), fr.targs) == v.s {
				return v.args[0]
			}
		}
		e.note("%s: unsafe conversion", e.prog.pos(x.Pos()))
		return raw("unsafe", typeKey(t, fr.targs), v)
	}
	switch {
	case isInt(t) && isInt(from):
		bt, bf := bitsOf(t), bitsOf(from)
		if bt < bf {
			if c, ok := constOf(v); ok && c.Sign() >= 0 && c.BitLen() < bt {
				return v
			}
			if isUnsigned(t) && bt <= 32 {
				return app(fmt.Sprintf("trunc%d", bt), v)
			}
			return app(fmt.Sprintf("conv%d", bt), v)
		}
		return v
	case isFloat(t) && isInt(from):
		return floatOf(v)
	case isInt(t) && isFloat(from):
		// integers that are converted back and forth are below 2^53
		if x := intOfFloat(v); x != nil {
			return x
		}
		return app("f2i", v)
	}
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if bf, ok := under(from).(*types.Basic); ok && bf.Info()&types.IsString != 0 {
			return v
		}
		return app("string", e.value(st, v, from, 3))
	}
	if _, ok := under(t).(*types.Slice); ok {
		if b, ok := under(from).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			j := raw("kv", "strbytes")
			n := lenOf(v)
			return mkVec(n, j, app("byteat", v, j))
		}
	}
	return v
}

// ---------- builtins ----------

func (fr *Frame) builtin(st *State, x *ast.CallExpr, name string) []*Term {
	e := fr.e
	switch name {
	case "len", "cap":
		t := fr.typ(x.Args[0])
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		if a, ok := under(t).(*types.Array); ok {
			return []*Term{I(a.Len())}
		}
		v := fr.eval(st, x.Args[0])
		if _, ok := under(t).(*types.Map); ok {
			return []*Term{e.mapLen(st, v)}
		}
		if name == "cap" {
			return []*Term{raw("cap", "", v)}
		}
		return []*Term{lenOf(v)}
	case "make":
		t := fr.typ(x)
		switch under(t).(type) {
		case *types.Slice:
			n := fr.eval(st, x.Args[1])
			o := e.newObj(fr.key(x))
			e.allocLen[o.s] = alloc{o.args, n}
			return []*Term{mkSlice(o, I(0), n)}
		}
		return []*Term{e.newObj(fr.key(x))}
	case "new":
		return []*Term{e.newObj(fr.key(x))}
	case "append":
		s := fr.eval(st, x.Args[0])
		if x.Ellipsis.IsValid() {
			b := fr.eval(st, x.Args[1])
			if sl, ok := under(fr.typ(x.Args[0])).(*types.Slice); ok && isConst(lenOf(s), 0) && b.op != "str" && !isString(fr.typ(x.Args[1])) {
				// a copy of b
				o := e.newObj(fr.key(x) + "ap")
				n := lenOf(b)
				j := raw("kv", fr.key(x)+"ap")
				in := st.with(ge0(j), ltI(j, n))
				v := e.loadElem(in, b, j, sl.Elem())
				e.storeQ(st, []qv{{j, n}}, mkPtr(o, "[#]", j), sl.Elem(), v, tTrue)
				return []*Term{mkSlice(o, I(0), n)}
			}
			return []*Term{concatT(s, b)}
		}
		a := []*Term{s}
		for _, y := range x.Args[1:] {
			a = append(a, fr.eval(st, y))
		}
		return []*Term{raw("append", "", a...)}
	case "copy":
		d, s := fr.eval(st, x.Args[0]), fr.eval(st, x.Args[1])
		n := minmaxF(st, "min", lenOf(d), lenOf(s))
		et := fr.typ(x.Args[0]).Underlying().(*types.Slice).Elem()
		j := raw("kv", fr.key(x)+"cp")
		in := st.with(ge0(j), ltI(j, n))
		var v *Term
		if b, ok := under(fr.typ(x.Args[1])).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			v = app("byteat", s, j)
		} else {
			v = e.loadElem(in, s, j, et)
		}
		e.storeQ(st, []qv{{j, n}}, e.elemPtr(in, d, j), et, v, tTrue)
		return []*Term{n}
	case "clear":
		t := fr.typ(x.Args[0])
		d := fr.eval(st, x.Args[0])
		if sl, ok := under(t).(*types.Slice); ok {
			j := raw("kv", fr.key(x)+"cl")
			e.storeQ(st, []qv{{j, lenOf(d)}}, e.elemPtr(st.with(ge0(j), ltI(j, lenOf(d))), d, j), sl.Elem(), zero(sl.Elem()), tTrue)
			return nil
		}
		e.note("%s: clear of a map", e.prog.pos(x.Pos()))
		return nil
	case "min", "max":
		r := fr.eval(st, x.Args[0])
		fl := isFloat(fr.typ(x))
		for _, y := range x.Args[1:] {
			v := fr.eval(st, y)
			if fl {
				r = app("f"+name, r, v)
			} else {
				r = minmaxF(st, name, r, v)
			}
		}
		return []*Term{r}
	case "panic":
		fr.eval(st, x.Args[0])
		st.dead = true
		return []*Term{tNil}
	case "delete":
		fr.eval(st, x.Args[0])
		e.note("%s: delete", e.prog.pos(x.Pos()))
		return nil
	case "print", "println":
		return nil
	case "recover":
		return []*Term{tNil}
	}
	e.note("%s: builtin %s", e.prog.pos(x.Pos()), name)
	return []*Term{raw("unk", fr.key(x))}
}

func minmaxF(st *State, op string, a, b *Term) *Term {
	switch st.simp(leI(a, b)) {
	case tTrue:
		if op == "min" {
			return a
		}
		return b
	case tFalse:
		if op == "min" {
			return b
		}
		return a
	}
	if st.simp(leI(b, a)) == tTrue {
		if op == "min" {
			return b
		}
		return a
	}
	return minmax(op, a, b)
}

func concatT(a, b *Term) *Term {
	if a.op == "nil" {
		return b
	}
	if b.op == "nil" || isConst(lenOf(b), 0) {
		return a
	}
	return raw("concat", "", a, b)
}

func (e *Engine) mapLen(st *State, m *Term) *Term { return lenOf(m) }

// ---------- entry ----------

// entry evaluates fn on symbolic inputs named after its parameters.
type result struct {
	vals  []*Term
	st    *State
	recv  *Term
	args  []*Term
	names []string
	types []types.Type
	init  *State
	pre   *Term
}

// symbolic makes the symbolic value of a parameter.
func (e *Engine) symbolic(name string, t types.Type) *Term {
	switch under(t).(type) {
	case *types.Basic:
		r := raw("in", name)
		if isInt(t) {
			r = raw("init", "", raw("in", name))
			r.typ = t
		}
		return r
	case *types.Struct:
		if s := structOf(t); s != nil {
			return e.load(&State{}, raw("in", name), t)
		}
	}
	return raw("in", name)
}

// evaluate runs function fi from state st (nil: empty) with inputs named by names (receiver first).
func (e *Engine) evaluate(fi *FuncInfo, st *State, override map[string]*Term) *result {
	if st == nil {
		st = &State{}
	}
	sig := fi.Obj.Type().(*types.Signature)
	r := &result{init: st.fork()}
	targs := map[*types.TypeParam]types.Type{}
	nf := &Frame{e: e, pkg: fi.Pkg, name: fi.Obj.Name(), info: fi.Pkg.Info,
		env: map[types.Object]*Term{}, vals: map[types.Object]*Term{},
		path: "", sig: sig, targs: targs}
	e.inlined[fi] = true
	if e.mutMemo[fi.Obj] == nil {
		e.mutMemo[fi.Obj] = mutables(nf.info, fi.Decl.Body)
	}
	nf.mut = e.mutMemo[fi.Obj]
	e.stack = append(e.stack, fi.Obj)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	if rv := sig.Recv(); rv != nil {
		t := rv.Type()
		r.recv = e.symbolic("recv", t)
		r.names = append(r.names, "recv")
		r.types = append(r.types, t)
		if len(fi.Decl.Recv.List[0].Names) > 0 {
			if o := nf.info.Defs[fi.Decl.Recv.List[0].Names[0]]; o != nil {
				nf.bindObj(st, o, r.recv)
			}
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		nm := fmt.Sprintf("p%d", i)
		v := override[nm]
		if v == nil {
			v = e.symbolic(nm, p.Type())
		}
		r.args = append(r.args, v)
		r.names = append(r.names, nm)
		r.types = append(r.types, p.Type())
	}
	r.vals = nf.run(st, fi.Decl.Type, fi.Decl.Body, r.args)
	r.st = st
	r.pre = and(pcSince(st.facts, r.init.facts), npSince(st.facts, r.init.facts))
	if st.dead {
		r.pre = tFalse
	}
	return r
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// viewInside makes it a condition of the path that the n elements viewed through an unsafe
// conversion of an element's address belong to the slice.
func (fr *Frame) viewInside(st *State, x *ast.CallExpr, n int64) {
	e := fr.e
	if c, ok := unparen(x.Args[0]).(*ast.CallExpr); ok && len(c.Args) == 1 {
		if a, ok := unparen(c.Args[0]).(*ast.UnaryExpr); ok && a.Op == token.AND {
			if ix, ok := unparen(a.X).(*ast.IndexExpr); ok {
				if _, ok := under(fr.typ(ix.X)).(*types.Slice); ok {
					s, i := fr.eval(st, ix.X), fr.eval(st, ix.Index)
					st.require(st.simp(and(ge0(i), ge0(subI(lenOf(s), addI(i, I(n)))))))
					return
				}
			}
		}
	}
	e.note("%s: unsafe view of unknown extent", e.prog.pos(x.Pos()))
}
