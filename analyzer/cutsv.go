package main

import "go/types"

// Summaries of the checks of the verifier, which have units of their own.

func registerVerifierCuts(e *Engine) {
	for _, n := range []string{"arithCheck", "linCheck", "sumCheck"} {
		n := n
		e.models["buckler.Verifier."+n] = func(c *callCtx) []*Term {
			args := []*Term{c.recv}
			for i, a := range c.args {
				if _, ok := c.fn.Signature().Params().At(i).Type().Underlying().(*types.Slice); ok {
					args = append(args, c.vecF(a))
				} else {
					args = append(args, c.F(a))
				}
			}
			return []*Term{app("verifier."+n, args...)}
		}
	}
}

// registerProverCuts summarises the parts of the prover, which have units of their own.
func registerProverCuts(e *Engine) {
	M := e.models
	wd := func(c *callCtx, i int) []*Term {
		t := c.fr.substT(c.fn.Signature().Params().At(i).Type())
		var out []*Term
		for _, f := range []string{"pwEcdNTT", "wEcdNTT"} {
			ft := c.fr.substT(structField(t, f))
			out = append(out, c.e.value(c.st, projT(c.args[i], f), ft, 8))
		}
		return out
	}
	vec := func(c *callCtx, tag string, n *Term, args ...*Term) *Term {
		arr := c.obj2(tag + "arr")
		c.e.allocLen[arr.s] = alloc{arr.args, n}
		j := raw("kv", c.key+tag)
		o := raw("obj", c.key+tag+"elt", append(c.e.loopVars(), j)...)
		c.e.storeQ(c.st, []qv{{j, n}}, mkPtr(arr, "[#]", j), anyRef, o, tTrue)
		s := mkSlice(arr, I(0), n)
		c.fill(s, n, tag, func(j *Term) *Term { return app("at:prover", app("prover."+tag, args...), j) })
		return s
	}
	ctxInt := func(c *callCtx, f string) *Term {
		sig := c.fn.Signature()
		ctx := c.e.load(c.st, mkPtr(c.recv, ".ctx"), structField(sig.Recv().Type().(*types.Pointer).Elem(), "ctx"))
		return c.e.load(c.st, mkPtr(ctx, "."+f), types.Typ[types.Int])
	}
	poly := func(c *callCtx, i int) *Term {
		t := c.fr.substT(c.fn.Signature().Params().At(i).Type())
		return c.e.value(c.st, c.args[i], t, 8)
	}
	jrank := func(c *callCtx) *Term {
		return app("jindo.Rank", c.recv)
	}
	const P = "buckler.Prover."
	M[P+"arithCheck"] = func(c *callCtx) []*Term {
		a := append([]*Term{c.recv, c.F(c.args[0])}, wd(c, 1)...)
		return []*Term{vec(c, "arith", subI(ctxInt(c, "arithCheckMaxRank"), ctxInt(c, "rank")), a...)}
	}
	M[P+"linCheck"] = func(c *callCtx) []*Term {
		a := append([]*Term{c.recv, c.F(c.args[0]), c.F(c.args[1]), poly(c, 2), c.projMatrix()}, wd(c, 3)...)
		n := ctxInt(c, "rank")
		return []*Term{vec(c, "linQuo", n, a...), vec(c, "linLo", subI(n, I(1)), a...), vec(c, "linHi", jrank(c), a...)}
	}
	M[P+"sumCheck"] = func(c *callCtx) []*Term {
		a := append([]*Term{c.recv, c.F(c.args[0]), poly(c, 1)}, wd(c, 2)...)
		n := ctxInt(c, "rank")
		return []*Term{vec(c, "sumQuo", subI(ctxInt(c, "sumCheckMaxRank"), n), a...), vec(c, "sumLo", subI(n, I(1)), a...), vec(c, "sumHi", jrank(c), a...)}
	}
}

// projMatrix is the content of the projection matrix of the receiver's context.
func (c *callCtx) projMatrix() *Term { return tNil }
