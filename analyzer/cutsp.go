package main

import (
	"go/types"
	"strings"
)

// Summaries of the number-theoretic transforms and of pooled buffers.

func registerPolyCuts(e *Engine) {
	M := e.models
	const bp = "math/bigpoly."
	for _, k := range []string{"Cyclic", "Cyclotomic"} {
		kind := strings.ToLower(k)
		M[bp+"New"+k+"Transformer"] = func(c *callCtx) []*Term {
			t := c.obj()
			c.e.store(c.st, mkPtr(t, ".rank"), types.Typ[types.Int], c.args[0])
			c.e.store(c.st, mkPtr(t, ".!kind"), types.Typ[types.Int], strT(kind))
			return []*Term{t}
		}
		for _, d := range []string{"FwdNTTTo", "InvNTTTo"} {
			d := d
			M[bp+k+"Transformer."+d] = func(c *callCtx) []*Term {
				rank := c.e.load(c.st, mkPtr(c.recv, ".rank"), types.Typ[types.Int])
				c.nttCut(kind, d, rank)
				return nil
			}
		}
	}
	for _, d := range []string{"FwdNTTTo", "InvNTTTo"} {
		d := d
		M[bp+"transformer."+d] = func(c *callCtx) []*Term {
			k := c.e.load(c.st, mkPtr(c.recv, ".!kind"), types.Typ[types.Int])
			for _, kind := range []string{"cyclic", "cyclotomic"} {
				if k == strT(kind) {
					c.nttCut(kind, d, c.e.load(c.st, mkPtr(c.recv, ".rank"), types.Typ[types.Int]))
					return nil
				}
			}
			c.e.note("transform of an unknown kind")
			return nil
		}
	}
	M["math/bigpoly.bitReverseInPlace"] = func(c *callCtx) []*Term {
		v := c.vecF(c.args[0])
		n := lenOf(c.args[0])
		c.fill(c.args[0], n, "rev", func(j *Term) *Term { return app("bitrev", v, j) })
		return nil
	}
	M["sync.Pool.Get"] = func(c *callCtx) []*Term {
		f := c.e.load(c.st, mkPtr(c.recv, ".New"), types.NewSignatureType(nil, nil, nil, nil, nil, false))
		cl := c.e.closures[f]
		if cl == nil {
			c.e.note("%s", "pool without a known constructor: "+f.String())
			return nil
		}
		v := c.fr.runClosure(c.st, c.call, cl, nil)[0]
		// nothing is known of what the previous user left in the buffer
		cs := c.e.load(c.st, mkPtr(v, ".Coeffs"), types.NewSlice(anyRef))
		c.e.pooled++
		if c.e.taken == nil {
			c.e.taken = map[*Term]bool{}
		}
		c.e.taken[rootObj(v)], c.e.taken[rootObj(cs)] = true, true
		id := I(int64(c.e.pooled))
		c.fill(cs, lenOf(cs), "pool", func(j *Term) *Term { return app("stale", id, j) })
		c.e.store(c.st, mkPtr(v, ".IsNTT"), types.Typ[types.Bool], app("staleflag", id))
		return []*Term{v}
	}
	M["sync.Pool.Put"] = func(c *callCtx) []*Term { return nil }
	for _, d := range []string{"TransformTo", "TransposeTo"} {
		d := d
		M["buckler.LinearChecker."+d] = func(c *callCtx) []*Term {
			v := c.vecF(c.args[1])
			recv := c.recv
			c.fill(c.args[0], lenOf(c.args[0]), "lc", func(j *Term) *Term { return app("lc:"+d, recv, v, j) })
			return nil
		}
	}
}

// nttCut writes the transform of the second argument to the first.
func (c *callCtx) nttCut(kind, dir string, rank *Term) {
	for i := range c.args {
		c.st.require(eq0('I', subI(lenOf(c.args[i]), rank)))
	}
	if c.st.dead {
		return
	}
	v := c.vecF(c.args[1])
	c.fill(c.args[0], rank, "ntt", func(j *Term) *Term { return app(dir+":"+kind, rank, v, j) })
}

// rootObj is the object that a reference points into.
func rootObj(t *Term) *Term {
	for (t.op == "ptr" || t.op == "slice") && len(t.args) > 0 {
		t = t.args[0]
	}
	return t
}
