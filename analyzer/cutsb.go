package main

import "go/types"

// Summaries used where the proof system is analysed.

func registerBucklerCuts(e *Engine) {
	M := e.models
	M["buckler.idToWitness"] = func(c *callCtx) []*Term {
		kind := "w"
		if n, ok := c.fr.typ(c.call).(*types.Named); ok && n.Obj().Name() == "PublicWitness" {
			kind = "pw"
		}
		arr := c.e.newObj(c.key + "arr")
		o := c.e.newObj(c.key + "elt")
		c.set(o, app("witF", strT(kind), c.args[0]))
		c.e.store(c.st, mkPtr(arr, "[#]", I(0)), anyRef, o)
		return []*Term{mkSlice(arr, I(0), I(1))}
	}
	M["buckler.witnessToID"] = func(c *callCtx) []*Term {
		p := c.e.loadElem(c.st, c.args[0], I(0), anyRef)
		return []*Term{widOf(c.F(p))}
	}
	// decompositions, which have units of their own
	M["buckler.decomposeBase"] = func(c *callCtx) []*Term {
		x := c.I(c.args[0])
		n := app("dcmp.len", x)
		arr := c.obj2("basearr")
		c.e.allocLen[arr.s] = alloc{arr.args, n}
		j := raw("kv", c.key+"base")
		o := raw("obj", c.key+"baseelt", append(c.e.loopVars(), j)...)
		c.e.storeQ(c.st, []qv{{j, n}}, mkPtr(arr, "[#]", j), anyRef, o, tTrue)
		s := mkSlice(arr, I(0), n)
		c.fill(s, n, "weight", func(j *Term) *Term { return app("dcmp.weight", x, j) })
		return []*Term{s}
	}
	M["buckler.decomposeBig"] = func(c *callCtx) []*Term {
		x, q := c.I(c.args[0]), c.I(c.args[2])
		base := c.vecOf(c.args[1], func(p *Term, in *State) *Term { return c.e.contentK(in, p, 'I') })
		n := lenOf(c.args[1])
		arr := c.obj2("digits")
		c.e.allocLen[arr.s] = alloc{arr.args, n}
		j := raw("kv", c.key+"digits")
		c.e.storeQ(c.st, []qv{{j, n}}, mkPtr(arr, "[#]", j), types.Typ[types.Int64], app("dcmp.digit", x, base, q, j), tTrue)
		return []*Term{mkSlice(arr, I(0), n)}
	}
	// the checkers of approximate norms, known by their parameters
	M["buckler.newProjChecker"] = func(c *callCtx) []*Term {
		return []*Term{app("fresh:projChecker", c.args[0])}
	}
	M["buckler.newProjRecomposeChecker"] = func(c *callCtx) []*Term {
		return []*Term{app("fresh:projRecomposeChecker", c.I(c.args[0]))}
	}
}

// widOf is the number of the witness whose first element is v.
func widOf(v *Term) *Term {
	switch {
	case v.op == "ite":
		return ite(v.args[0], widOf(v.args[1]), widOf(v.args[2]))
	case v.op == "app" && v.s == "witF":
		return v.args[1]
	}
	return app("wid", v)
}

func init() { nonnegApp["wid"], nonnegApp["dcmp.len"] = true, true }
