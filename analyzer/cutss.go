package main

import (
	"go/types"
	"math/big"
	"strings"
)

// Summaries for the samplers themselves: inside their package the draws of a generator are a
// stream numbered by position, and the key stream of a cipher is a function of its key and the
// position.

// independentDraws: draws are told apart by call site and iteration instead of by position.
var independentDraws bool

func init() {
	for _, n := range []string{"NewRoundedGaussianSampler", "NewRoundedGaussianSamplerWithSeed", "NewTwinCDTGaussianSampler", "NewCOSACSampler",
		"TwinCDTGaussianSampler.SafeCopy", "TwinCDTGaussianSampler.StdDev", "RoundedGaussianSampler.Sample", "TwinCDTGaussianSampler.Sample", "COSACSampler.Sample",
		"UniformSampler.SampleN", "UniformSampler.SampleFloat"} {
		outsideOnly[csp+n] = true
	}
	registerMore = append(registerMore, func(e *Engine) {
		M := e.models
		draws := func(name string, outside func(c *callCtx) []*Term) func(c *callCtx) []*Term {
			return func(c *callCtx) []*Term {
				if c.fr.pkg.Types != c.fn.Pkg() && outside != nil {
					return outside(c)
				}
				k := c.e.content(c.st, c.recv)
				if independentDraws {
					return []*Term{app("draw:"+name, k, c.random("smp"))}
				}
				p := c.pos(c.recv)
				c.e.storeQ(c.st, nil, mkPtr(c.recv, "!pos"), types.Typ[types.Int], addI(p, I(1)), tTrue)
				return []*Term{app("draw:"+name, k, p)}
			}
		}
		nonnegApp["draw:Sample"] = true
		M[csp+"UniformSampler.Sample"] = draws("Sample", M[csp+"UniformSampler.Sample"])
		M[csp+"RoundedGaussianSampler.normFloat"] = draws("normFloat", nil)

		M["crypto/cipher.Stream.XORKeyStream"] = func(c *callCtx) []*Term {
			k, p := c.e.content(c.st, c.recv), c.pos(c.recv)
			dst, src := c.args[0], c.args[1]
			n := lenOf(src)
			j := raw("kv", c.key+"ks")
			in := c.st.with(ge0(j), ltI(j, n))
			b := types.Typ[types.Uint8]
			v := c.e.loadElem(in, src, j, b)
			x := app("keystream", k, addI(p, j))
			if !isConst(v, 0) {
				x = app("^", v, x)
			}
			c.e.storeQ(c.st, []qv{{j, n}}, c.e.elemPtr(in, dst, j), b, x, tTrue)
			c.e.storeQ(c.st, nil, mkPtr(c.recv, "!pos"), types.Typ[types.Int], addI(p, n), tTrue)
			return nil
		}
		nonnegApp["keystream"] = true
		M["crypto/sha512.Sum384"] = func(c *callCtx) []*Term {
			h := c.bytesOf(c.args[0])
			j := raw("kv", c.key+"h")
			nonnegApp["sha384"] = true
			return []*Term{mkVec(I(48), j, app("sha384", h, j))}
		}
		M["crypto/rand.Read"] = func(c *callCtx) []*Term {
			n := lenOf(c.args[0])
			r := c.random("rand")
			j := raw("kv", c.key+"rd")
			in := c.st.with(ge0(j), ltI(j, n))
			nonnegApp["randbyte"] = true
			c.e.storeQ(c.st, []qv{{j, n}}, c.e.elemPtr(in, c.args[0], j), types.Typ[types.Uint8], app("randbyte", r, j), tTrue)
			return []*Term{n, raw("in", "randerr", c.e.loopVars()...)}
		}
		M["crypto/aes.NewCipher"] = func(c *callCtx) []*Term {
			o := c.obj()
			c.set(o, app("aes", c.bytesOf(c.args[0])))
			return []*Term{o, tNil}
		}
		M["crypto/cipher.NewCTR"] = func(c *callCtx) []*Term {
			o := c.obj()
			c.set(o, app("ctr", c.e.content(c.st, c.args[0]), c.bytesOf(c.args[1])))
			return []*Term{o}
		}
	})
}

// shiftedOr takes apart c*(x|y|...) where c is a power of two.
func shiftedOr(x *Term) (*Term, *Term) {
	if x.pk != 'I' || len(x.monos) != 1 || len(x.monos[0].at) != 1 {
		return nil, nil
	}
	m := x.monos[0]
	o := m.at[0]
	if o.op != "app" || o.s != "|" || m.c.Sign() <= 0 || new(big.Int).And(m.c, new(big.Int).Sub(m.c, one)).Sign() != 0 {
		return nil, nil
	}
	return kbig('I', m.c), o
}

// orT is the disjunction of the bits of its operands, in a fixed order.
func orT(xs ...*Term) *Term {
	var ts []*Term
	seen := map[*Term]bool{}
	var add func(x *Term)
	add = func(x *Term) {
		if x.op == "app" && x.s == "|" {
			for _, y := range x.args {
				add(y)
			}
			return
		}
		if c, o := shiftedOr(x); o != nil {
			for _, y := range o.args {
				add(mulI(c, y))
			}
			return
		}
		if isConst(x, 0) || seen[x] {
			return
		}
		seen[x] = true
		i := len(ts)
		for i > 0 && ts[i-1].id > x.id {
			i--
		}
		ts = append(ts[:i], append([]*Term{x}, ts[i:]...)...)
	}
	for _, x := range xs {
		add(x)
	}
	switch len(ts) {
	case 0:
		return I(0)
	case 1:
		return ts[0]
	}
	return raw("app", "|", ts...)
}

var _ = strings.HasPrefix
