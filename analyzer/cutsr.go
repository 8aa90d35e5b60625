package main

// Summaries of the parameter search: generators of primes and rings over them.

func init() {
	registerMore = append(registerMore, func(e *Engine) {
		const ring = "github.com/tuneinsight/lattigo/v6/ring."
		M := e.models
		M[ring+"NewNTTFriendlyPrimesGenerator"] = func(c *callCtx) []*Term {
			return []*Term{app("primeGen", c.args[0], c.args[1])}
		}
		next := func(dir string) func(c *callCtx) []*Term {
			return func(c *callCtx) []*Term {
				g := c.e.content(c.st, c.recv)
				k := c.args[0]
				c.e.setContent(c.st, c.recv, app("primeGen:after"+dir, g, k))
				return []*Term{app("primes"+dir, g, k), app("primes"+dir+".err", g, k)}
			}
		}
		for _, d := range []string{"Upstream", "Downstream", "Alternating"} {
			M[ring+"NTTFriendlyPrimesGenerator.Next"+d+"Primes"] = next(d)
		}
		M[ring+"NewRing"] = func(c *callCtx) []*Term {
			n, q := c.args[0], c.val(c.args[1], c.fr.substT(c.fn.Signature().Params().At(1).Type()))
			return []*Term{app("newRing", n, q), app("newRing.err", n, q)}
		}
	})
}
