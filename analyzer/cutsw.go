package main

import "go/types"

// Summaries of reflection and of the walks over circuits, and of the polynomial commitment
// where the proof system is analysed.

func registerWalkCuts(e *Engine) {
	M := e.models
	M["reflect.TypeOf"] = func(c *callCtx) []*Term {
		t := c.fr.typ(c.call.Args[0])
		if _, ok := under(t).(*types.Interface); !ok {
			return []*Term{app("typeof", strT(typeKey(t, c.fr.targs)))}
		}
		return []*Term{app("typeof", c.args[0])}
	}
	M["reflect.ValueOf"] = func(c *callCtx) []*Term { return []*Term{app("reflect.ValueOf", c.args[0])} }
	for _, m := range []string{"Type.Elem", "Type.Kind", "Value.Type", "Value.Kind", "Value.Elem", "Value.IsNil", "Value.NumField", "Value.Field",
		"Value.Len", "Value.Index", "Value.Interface", "Value.CanSet"} {
		name := "reflect." + m
		M[name] = func(c *callCtx) []*Term { return []*Term{app(name, append([]*Term{c.recv}, c.args...)...)} }
	}
	pw := func(c *callCtx, kind string, s *Term, root, cnt *Term, rank *Term, et types.Type) {
		j := raw("kv", c.key+"walk"+kind)
		v := mkSlice(raw("in", "walked:"+kind, root, j), I(0), rank)
		c.e.storeQ(c.st, []qv{{j, cnt}}, c.e.elemPtr(c.st, s, j), et, v, tTrue)
	}
	walk := func(c *callCtx, prover bool) []*Term {
		i := 0 // prover or verifier
		owner := c.args[0]
		root := c.args[1]
		st := c.e
		_ = i
		sig := c.fn.Signature()
		ownT := sig.Params().At(0).Type().(*types.Pointer).Elem()
		fld := func(p *Term, path string, t types.Type) *Term { return st.load(c.st, mkPtr(p, path), t) }
		ctxT := structField(ownT, "ctx")
		ctx := fld(owner, ".ctx", ctxT)
		rank := fld(ctx, ".rank", types.Typ[types.Int])
		u64 := types.Typ[types.Uint64]
		kind := "verify"
		if prover {
			kind = "prove"
		}
		fail := app("walk.fails", strT(kind), root)
		cnt := app("walk.count", strT("pw"), root)
		pwA := fld(ctx, ".pwAssignCnt", u64)
		c.st.addFact(or(fail, ge0(subI(pwA, cnt))), false)
		et := c.fr.substT(sig.Params().At(2).Type().(*types.Slice).Elem())
		pw(c, "pw", c.args[2], root, cnt, rank, et)
		c.e.store(c.st, mkPtr(c.recv, ".pwCnt"), u64, cnt)
		if prover {
			wcnt := app("walk.count", strT("w"), root)
			c.st.addFact(or(fail, ge0(subI(fld(ctx, ".wAssignCnt", u64), wcnt))), false)
			pw(c, "w", c.args[3], root, wcnt, rank, c.fr.substT(sig.Params().At(3).Type().(*types.Slice).Elem()))
			c.e.store(c.st, mkPtr(c.recv, ".wCnt"), u64, wcnt)
		}
		return []*Term{ite(fail, raw("err", ""), tNil)}
	}
	// a walk of one part inside the walk that is analysed: it continues the counters and
	// gets the same targets
	part := func(kind string, w, v *Term, c *callCtx, more ...*Term) []*Term {
		u64 := types.Typ[types.Uint64]
		pw := c.e.load(c.st, mkPtr(w, ".pwCnt"), u64)
		ws := c.e.load(c.st, mkPtr(w, ".wCnt"), u64)
		a := append([]*Term{strT(kind), v, pw, ws}, more...)
		c.e.store(c.st, mkPtr(w, ".pwCnt"), u64, app("part.pw", a...))
		c.e.store(c.st, mkPtr(w, ".wCnt"), u64, app("part.w", a...))
		c.setStream(w, "!parts", catT(c.stream(w, "!parts"), app("part", a...)))
		return []*Term{ite(app("part.fails", a...), raw("err", ""), tNil)}
	}
	recs := func(name, kind string, whole func(c *callCtx) []*Term) {
		org := "buckler.walker." + name
		M[org] = func(c *callCtx) []*Term {
			if c.e.uncut[org] || whole == nil {
				v := c.args[len(c.args)-1]
				more := []*Term(nil)
				if kind != "first" {
					v = c.args[1]
					more = append([]*Term{c.args[0]}, c.args[2:]...)
				}
				return part(kind, c.recv, v, c, more...)
			}
			return whole(c)
		}
		M["buckler."+name+"Part"] = func(c *callCtx) []*Term {
			if kind == "first" {
				return part(kind, c.args[0], c.args[1], c)
			}
			return part(kind, c.args[0], c.args[2], c, append([]*Term{c.args[1]}, c.args[3:]...)...)
		}
	}
	recs("firstWalk", "first", nil)
	recs("vrfWalk", "verify", func(c *callCtx) []*Term { return walk(c, false) })
	recs("prvWalk", "prove", func(c *callCtx) []*Term { return walk(c, true) })
	// a circuit's definition records constraints in the context; its numbers of assigned
	// witnesses, its rank and its type are out of its reach
	M["buckler.Circuit.Define"] = func(c *callCtx) []*Term {
		ctx := c.args[0]
		p := under(c.fn.Signature().Params().At(0).Type()).(*types.Pointer)
		ct := c.fr.substT(p.Elem())
		s := structOf(ct)
		var vs []*Term
		for i := 0; i < s.NumFields(); i++ {
			v := c.e.load(c.st, mkPtr(ctx, "."+s.Field(i).Name()), s.Field(i).Type())
			if _, ok := under(s.Field(i).Type()).(*types.Map); ok && v.op == "obj" {
				v = app("new map")
			} else {
				v = c.val(v, s.Field(i).Type())
			}
			vs = append(vs, v)
		}
		before := app("context", vs...)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			switch f.Name() {
			case "rank", "pwAssignCnt", "wAssignCnt", "circType":
				continue
			}
			name := "defined:" + f.Name()
			var v *Term
			switch under(f.Type()).(type) {
			case *types.Basic:
				nonnegApp[name] = true
				v = app(name, c.recv, before)
			case *types.Slice:
				n := app(name+".len", c.recv, before)
				nonnegApp[n.s] = true
				v = mkSlice(raw("in", name, c.recv, before), I(0), n)
			default:
				v = raw("in", name, c.recv, before)
			}
			c.e.store(c.st, mkPtr(ctx, "."+f.Name()), f.Type(), v)
		}
		return nil
	}
	M["reflect.Value.Set"] = func(c *callCtx) []*Term {
		c.set(c.recv, app("set", c.args[0]))
		return nil
	}
	M["jindo.Commitment.WriteRawTo"] = func(c *callCtx) []*Term {
		c.write(c.args[0], app("commitment", c.e.content(c.st, c.recv)))
		return nil
	}
	M["jindo.Verifier.Verify"] = func(c *callCtx) []*Term {
		coms := c.vecOf(c.args[1], func(p *Term, in *State) *Term { return p })
		return []*Term{raw("app", "jindo.Verify", c.recv, c.F(c.args[0]), coms, c.vecF(c.args[2]), c.args[3])}
	}
	M["jindo.Prover.Commit"] = func(c *callCtx) []*Term {
		com, op := c.obj(), c.obj2("opening")
		r := c.random("commit")
		v := c.vecF(c.args[0])
		c.set(com, app("jindo.Commit", c.recv, v, r))
		c.set(op, app("jindo.Open", c.recv, v, r))
		return []*Term{com, op}
	}
}

func init() {
	for _, n := range []string{"walk.count", "part.pw", "part.w", "reflect.Value.NumField", "reflect.Value.Len"} {
		nonnegApp[n] = true
	}
}

func (c *callCtx) obj2(tag string) *Term { return c.e.newObj(c.key + tag) }

func structField(t types.Type, name string) types.Type {
	s := structOf(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

func init() {
	registerMore = append(registerMore, func(e *Engine) {
		e.models["jindo.Prover.Evaluate"] = func(c *callCtx) []*Term {
			polys := c.vecOf(c.args[1], func(p *Term, in *State) *Term {
				d := *c
				d.st = in
				return d.vecF(p)
			})
			content := func(i int) *Term {
				return c.vecOf(c.args[i], func(p *Term, in *State) *Term { return c.e.content(in, p) })
			}
			a := []*Term{c.recv, c.F(c.args[0]), polys, content(2), content(3)}
			n := lenOf(c.args[1])
			arr := c.obj2("evals")
			c.e.allocLen[arr.s] = alloc{arr.args, n}
			j := raw("kv", c.key+"evals")
			o := raw("obj", c.key+"evalsElt", append(c.e.loopVars(), j)...)
			c.e.storeQ(c.st, []qv{{j, n}}, mkPtr(arr, "[#]", j), anyRef, o, tTrue)
			s := mkSlice(arr, I(0), n)
			c.fill(s, n, "evals", func(j *Term) *Term { return app("at:jindo", app("jindo.Eval", a...), j) })
			pf := c.obj2("evalproof")
			c.set(pf, app("jindo.EvalProof", append(a, c.random("evaluate"))...))
			return []*Term{s, pf}
		}
	})
}
