package main

// Summaries of the vector operations of bigpoly, which have units of their own. They are not
// used where that package itself is analysed.

var vecCuts = []string{"copyVecTo", "addVecTo", "subVecTo", "negVecTo", "scalarMulVecTo", "mulVecTo"}

func registerVecCuts(e *Engine) {
	const bp = "math/bigpoly."
	op := func(name string, f func(c *callCtx, x []*Term) *Term) {
		e.models[bp+name] = func(c *callCtx) []*Term {
			n := lenOf(c.args[0])
			var vs []*Term
			for _, a := range c.args[1:] {
				if name == "scalarMulVecTo" && a == c.args[2] {
					vs = append(vs, c.F(a))
				} else {
					vs = append(vs, c.vecF(a))
				}
			}
			c.fill(c.args[0], n, name, func(j *Term) *Term {
				var x []*Term
				for i, v := range vs {
					if name == "scalarMulVecTo" && i == 1 {
						x = append(x, v)
					} else {
						x = append(x, atT(v, j))
					}
				}
				return f(c, x)
			})
			return nil
		}
	}
	op("copyVecTo", func(c *callCtx, x []*Term) *Term { return x[0] })
	op("addVecTo", func(c *callCtx, x []*Term) *Term { return addP('F', x[0], x[1]) })
	op("subVecTo", func(c *callCtx, x []*Term) *Term { return addP('F', x[0], negP('F', x[1])) })
	op("negVecTo", func(c *callCtx, x []*Term) *Term { return negP('F', x[0]) })
	op("scalarMulVecTo", func(c *callCtx, x []*Term) *Term { return mulP('F', x[0], x[1]) })
	op("mulVecTo", func(c *callCtx, x []*Term) *Term { return mulP('F', x[0], x[1]) })
}
