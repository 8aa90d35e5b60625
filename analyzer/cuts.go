package main

import (
	"go/types"
	"strings"
)

// Functions that are summarised where they are called and analysed on their own.

// genericE is the vector of the contents of a slice of field elements.
func (c *callCtx) vecF(s *Term) *Term {
	return c.vecOf(s, func(p *Term, in *State) *Term { return c.e.contentK(in, p, 'F') })
}

func (c *callCtx) vecOf(s *Term, f func(p *Term, in *State) *Term) *Term {
	n := lenOf(s)
	if isConst(n, 0) {
		return raw("list", "", I(0))
	}
	j := raw("kv", "vec")
	in := c.st.with(ge0(j), ltI(j, n))
	p := c.e.loadElem(in, s, j, anyRef)
	return mkVec(n, j, f(p, in))
}

// anyRef is a reference type used to read slices of references.
var anyRef types.Type = types.NewPointer(types.NewStruct(nil, nil))

// fillE stores f(j) in the j-th element object of s for j < n.
func (c *callCtx) fill(s, n *Term, tag string, f func(j *Term) *Term) {
	j := raw("kv", c.key+tag)
	in := c.st.with(ge0(j), ltI(j, n))
	p := c.e.loadElem(in, s, j, anyRef)
	c.e.storeQ(c.st, []qv{{j, n}}, mkPtr(p, "!"), nil, f(j), tTrue)
}

func (c *callCtx) param(i int) *Term { return c.args[i] }

func registerJindoCuts(e *Engine) {
	M := e.models
	M["jindo.encodeChallengeTo"] = func(c *callCtx) []*Term {
		c.set(c.args[2], app("encChal", c.args[0], c.args[1], c.bytesOf(c.args[3])))
		return nil
	}
	M["jindo.RNSReconstructor.reconstructTo"] = func(c *callCtx) []*Term {
		v := c.R(c.args[1])
		key := c.recvKey()
		c.fill(c.args[0], app("ring.N"), "rc", func(j *Term) *Term { return app("recons", key, v, j) })
		return nil
	}
	M["jindo.RNSReconstructor.setBigCoeffTo"] = func(c *callCtx) []*Term {
		v := c.vecOf(c.args[1], func(p *Term, in *State) *Term { return c.e.contentK(in, p, 'I') })
		c.set(c.args[0], app("bigcoef", c.recvKey(), v))
		return nil
	}
	M["jindo.Encoder.baseEncodeTo"] = func(c *callCtx) []*Term {
		c.set(c.args[0], app("base", c.recvKey(), c.vecF(c.args[1])))
		return nil
	}
	M["jindo.Encoder.encodeTo"] = func(c *callCtx) []*Term {
		c.set(c.args[0], app("enc", c.recvKey(), c.vecF(c.args[1])))
		return nil
	}
	M["jindo.Encoder.randEncodeTo"] = func(c *callCtx) []*Term {
		c.set(c.args[0], app("renc", c.recvKey(), c.vecF(c.args[1]), c.args[2], c.random("enc")))
		return nil
	}
	M["jindo.Encoder.DecodeTo"] = func(c *callCtx) []*Term {
		v := c.R(c.args[1])
		n := lenOf(c.args[0])
		key := c.recvKey()
		c.fill(c.args[0], n, "dc", func(j *Term) *Term { return app("dec", key, v, j) })
		return nil
	}
	M["jindo.NewCommitKey"] = func(c *callCtx) []*Term {
		ck := raw("in", "commitkey", c.val(c.args[0], c.fr.substT(c.fn.Signature().Params().At(0).Type())), c.bytesOf(c.args[1]))
		c.e.store(c.st, mkPtr(ck, ".crs"), c.fn.Signature().Params().At(1).Type(), c.args[1])
		return []*Term{ck}
	}
	registerSamplers(e)
}

// recvKey identifies what the receiver was made for: its parameters or its ring.
func (c *callCtx) recvKey() *Term {
	t := c.rt
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	s := structOf(t)
	if s == nil {
		return c.recv
	}
	var ks []*Term
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		ft := f.Type()
		if n, ok := ft.(*types.Named); ok && n.Obj().Name() == "Parameters" {
			ks = append(ks, c.e.value(c.st, c.e.load(c.st, mkPtr(c.recv, "."+f.Name()), ft), ft, 6))
		} else if p, ok := ft.(*types.Pointer); ok && isNamed(p.Elem(), "lattigo/v6/ring", "Ring") {
			ks = append(ks, c.e.value(c.st, c.e.load(c.st, mkPtr(c.recv, "."+f.Name()), ft), ft, 6))
		}
	}
	if len(ks) == 0 {
		return c.recv
	}
	return raw("key", "", ks...)
}

const csp = "math/csprng."

// registerSamplers models the samplers: an unseeded sampler gives a fresh random value per
// call, a seeded one is a deterministic stream of draws.
func registerSamplers(e *Engine) {
	M := e.models
	mk := func(name string, kind string) {
		M[csp+name] = func(c *callCtx) []*Term {
			o := c.obj()
			c.set(o, app("sampler:"+kind, c.args...))
			return []*Term{o}
		}
	}
	mk("NewUniformSampler", "uniform")
	mk("NewRoundedGaussianSampler", "rounded")
	mk("NewTwinCDTGaussianSampler", "twincdt")
	mk("NewCOSACSampler", "cosac")
	seeded := func(kind string) func(c *callCtx) []*Term {
		return func(c *callCtx) []*Term {
			o := c.obj()
			c.set(o, app("seeded:"+kind, c.bytesOf(c.args[0])))
			return []*Term{o}
		}
	}
	M[csp+"NewUniformSamplerWithSeed"] = seeded("uniform")
	M[csp+"NewRoundedGaussianSamplerWithSeed"] = seeded("rounded")
	M[csp+"TwinCDTGaussianSampler.SafeCopy"] = func(c *callCtx) []*Term {
		o := c.obj()
		c.set(o, c.e.content(c.st, c.recv))
		return []*Term{o}
	}
	M[csp+"TwinCDTGaussianSampler.StdDev"] = func(c *callCtx) []*Term {
		k := c.e.content(c.st, c.recv)
		if k.op == "app" && k.s == "sampler:twincdt" {
			return []*Term{k.args[0]}
		}
		return []*Term{app("stddev", k)}
	}
	smp := func(name string) func(c *callCtx) []*Term {
		return func(c *callCtx) []*Term {
			k := c.e.content(c.st, c.recv)
			a := append([]*Term{k}, c.args...)
			if k.op == "app" && strings.HasPrefix(k.s, "seeded:") {
				abs := c.stream(c.recv, "!abs")
				v := app("draw:"+name, append(a, abs)...)
				c.setStream(c.recv, "!abs", catT(abs, app("drawn:"+name, c.args...)))
				return []*Term{v}
			}
			return []*Term{app("sample:"+name, append(a, c.random("smp"))...)}
		}
	}
	for _, n := range []string{"RoundedGaussianSampler.Sample", "TwinCDTGaussianSampler.Sample", "COSACSampler.Sample",
		"UniformSampler.Sample", "UniformSampler.SampleN", "UniformSampler.SampleFloat"} {
		M[csp+n] = smp(n)
	}
}
