package main

import (
	"fmt"
	"go/types"
	"strings"
)

const ringPkg = "github.com/tuneinsight/lattigo/v6/ring"

func (c *callCtx) F(r *Term) *Term { return c.e.contentK(c.st, r, 'F') }
func (c *callCtx) I(r *Term) *Term { return c.e.contentK(c.st, r, 'I') }
func (c *callCtx) R(r *Term) *Term { return c.e.contentK(c.st, r, 'R') }
func (c *callCtx) set(r, v *Term)  { c.e.setContent(c.st, r, v) }
func (c *callCtx) obj() *Term      { return c.e.newObj(c.key) }

// bytesOf is the content of a byte slice.
func (c *callCtx) bytesOf(s *Term) *Term {
	return c.e.value(c.st, s, types.NewSlice(types.Typ[types.Uint8]), 4)
}

// ---------- byte streams ----------

// catT concatenates byte strings.
func catT(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		if x.op == "cat" {
			out = append(out, x.args...)
		} else if x != tNil {
			out = append(out, x)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return raw("cat", "", out...)
}

// catLoop is body(0) ++ ... ++ body(n-1).
func catLoop(n, k, body *Term) *Term {
	if isConst(n, 0) || body.op == "cat" && len(body.args) == 0 {
		return catT()
	}
	return bind("catl", "", n, k, body)
}

func (c *callCtx) stream(r *Term, name string) *Term {
	e := c.e
	base, path, idx := split(mkPtr(r, name))
	if base.op == "ite" {
		return ite(base.args[0], c.stream(mkPtr(base.args[1], path[:len(path)-len(name)], idx...), name), c.stream(mkPtr(base.args[2], path[:len(path)-len(name)], idx...), name))
	}
	return e.read(c.st, base, path, idx, func() *Term {
		if base.op == "obj" {
			return catT()
		}
		return raw("stream0", path, append([]*Term{base}, idx...)...)
	})
}

func (c *callCtx) setStream(r *Term, name string, v *Term) {
	c.e.storeQ(c.st, nil, mkPtr(r, name), nil, v, tTrue)
}

func (c *callCtx) pos(r *Term) *Term {
	e := c.e
	base, path, idx := split(mkPtr(r, "!pos"))
	if base.op == "ite" {
		sub := func(b *Term) *Term { return c.pos(mkPtr(b, path[:len(path)-len("!pos")], idx...)) }
		return ite(base.args[0], sub(base.args[1]), sub(base.args[2]))
	}
	return e.read(c.st, base, path, idx, func() *Term { return I(0) })
}

func (c *callCtx) write(r, v *Term) {
	if p := c.pos(r); !isConst(p, 0) {
		v = app("afterread", p, v)
	}
	c.setStream(r, "!abs", catT(c.stream(r, "!abs"), v))
}

func (c *callCtx) readXOF(r, buf *Term) {
	abs, pos := c.stream(r, "!abs"), c.pos(r)
	n := lenOf(buf)
	j := raw("kv", c.key+"rd")
	in := c.st.with(ge0(j), ltI(j, n))
	c.e.storeQ(c.st, []qv{{j, n}}, c.e.elemPtr(in, buf, j), types.Typ[types.Uint8], app("xof", abs, addI(pos, j)), tTrue)
	c.e.storeQ(c.st, nil, mkPtr(r, "!pos"), types.Typ[types.Int], addI(pos, n), tTrue)
}

// ---------- ring elements ----------

// ringsOf collects the rings a value is tied to.
func ringsOf(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	collect(t, func(x *Term) bool {
		switch x.op {
		case "Rm", "Rinv", "ntt", "intt", "rns":
			out[x.args[0]] = true
			return x.op == "ntt" || x.op == "intt"
		case "init", "app", "ringmix":
			return false
		}
		return true
	})
	return out
}

func inRing(r, x *Term) *Term {
	for q := range ringsOf(x) {
		if q != r && !q.has(r) {
			return app("ringmix", r, x)
		}
	}
	return x
}

func ringN(r *Term) *Term { return app("ring.N") }

func isScalarR(a *Term) bool {
	switch a.op {
	case "Rm", "Rinv", "rns", "rnsinit":
		return true
	}
	return false
}

// linR applies a linear map to every monomial's vector part.
func linR(p *Term, f func(*Term) *Term) *Term {
	res := kconst('R', 0)
	for _, m := range monosOf('R', p) {
		var sc, po []*Term
		for _, a := range m.at {
			if isScalarR(a) {
				sc = append(sc, a)
			} else {
				po = append(po, a)
			}
		}
		var v *Term
		if len(po) == 1 && po[0].op == "sum" {
			k := freshVar("kv", "lr")
			v = sum('R', po[0].args[0], k, linR(openB(po[0], k), f))
		} else if len(po) == 1 && po[0].op == "ite" {
			v = ite(po[0].args[0], linR(po[0].args[1], f), linR(po[0].args[2], f))
		} else {
			v = f(mkPoly('R', []mono{{one, po}}))
		}
		res = addP('R', res, mulP('R', mkPoly('R', []mono{{m.c, sc}}), v))
	}
	return res
}

func nttT(r, p *Term) *Term {
	return linR(p, func(x *Term) *Term {
		if x.op == "intt" && x.args[0] == r {
			return x.args[1]
		}
		return raw("ntt", "", r, x)
	})
}

func inttT(r, p *Term) *Term {
	return linR(p, func(x *Term) *Term {
		if x.op == "ntt" && x.args[0] == r {
			return x.args[1]
		}
		return raw("intt", "", r, x)
	})
}

func rmT(r *Term) *Term   { return raw("Rm", "", r) }
func rinvT(r *Term) *Term { return raw("Rinv", "", r) }

// mulR multiplies and cancels Montgomery factors.
func mulR(a, b *Term) *Term { return mulP('R', a, b) }

// cancelAtoms drops matching Montgomery factors of a product.
func cancelAtoms(at []*Term) []*Term {
	for i, a := range at {
		if a.op != "Rm" {
			continue
		}
		for j, b := range at {
			if b.op == "Rinv" && b.args[0] == a.args[0] {
				var n []*Term
				for x, y := range at {
					if x != i && x != j {
						n = append(n, y)
					}
				}
				return cancelAtoms(n)
			}
		}
	}
	return at
}

// scalarR is the value of an RNS scalar.
func (c *callCtx) scalarR(s *Term) *Term {
	base, path, idx := split(mkPtr(s, "!"))
	if base.op == "ite" || base.op == "val" {
		return c.e.content(c.st, s)
	}
	return c.e.read(c.st, base, path, idx, func() *Term {
		return raw("rnsinit", path, append([]*Term{base}, idx...)...)
	})
}

// rawRing reads a ring polynomial from its raw coefficients if those were written last.
func (e *Engine) rawRing(st *State, r *Term) (*Term, bool) {
	base, path, idx := split(r)
	rp := path + ".Coeffs[#][#]"
	found := false
	f := st.fs()
	for n := st.log; n != nil; n = n.prev {
		s := n.st
		if !compatRoot(s.root, base) || (s.path != path+"!" && s.path != rp) {
			continue
		}
		q := map[*Term]*Term{}
		for _, x := range s.q {
			q[x.v] = x.n
		}
		b := binding{}
		var conds []*Term
		ok := unify(f, s.root, base, q, b, &conds)
		for i := 0; ok && i < len(idx); i++ {
			ok = unify(f, s.idx[i], idx[i], q, b, &conds)
		}
		if !ok || f.simp(and(conds...)) == tFalse {
			continue
		}
		if s.path == rp {
			found = true
		}
		break
	}
	if !found {
		return nil, false
	}
	k, i := raw("kv", "rawk"), raw("kv", "rawi")
	in := st.with(ge0(k), ge0(i), ltI(i, app("ring.N")))
	v := e.read(in, base, rp, append(append([]*Term(nil), idx...), k, i), func() *Term {
		return coefR(e.initR(base, path, idx), k, i)
	})
	if v.op == "app" && v.s == "coefR" && v.args[1] == k && v.args[2] == i && !v.args[0].has(k) && !v.args[0].has(i) {
		return v.args[0], true
	}
	return raw("polyraw", "", bind("lam", "", I(0), k, bind("lam", "", app("ring.N"), i, v))), true
}

// coefR is the raw coefficient i of p for the modulus k.
func coefR(p, k, i *Term) *Term {
	switch {
	case p.op == "ite":
		return ite(p.args[0], coefR(p.args[1], k, i), coefR(p.args[2], k, i))
	case isConst(p, 0) || p == tZero:
		return I(0)
	case p.op == "polyraw":
		return openB(openB(p.args[0], k), i)
	}
	return app("coefR", p, k, i)
}

func (e *Engine) initR(base *Term, path string, idx []*Term) *Term {
	if base.op == "obj" {
		return kconst('R', 0)
	}
	return e.initial(base, path+"!", idx, nil)
}

// ---------- transcripts ----------

func transcriptStream(name *Term) string { return "!b:" + name.s }

// ---------- registration ----------

func registerModels(e *Engine) {
	M := e.models
	bytesT := types.NewSlice(types.Typ[types.Uint8])
	_ = bytesT

	// field elements
	fset := func(c *callCtx, v *Term) []*Term { c.set(c.recv, v); return []*Term{c.recv} }
	M["E.New"] = func(c *callCtx) []*Term { return []*Term{c.obj()} }
	M["E.Set"] = func(c *callCtx) []*Term { return fset(c, c.F(c.args[0])) }
	M["E.SetUint64"] = func(c *callCtx) []*Term { return fset(c, embF('F', c.args[0])) }
	M["E.SetInt64"] = func(c *callCtx) []*Term { return fset(c, embF('F', c.args[0])) }
	M["E.SetBytes"] = func(c *callCtx) []*Term { return fset(c, app("F.bytes", c.bytesOf(c.args[0]))) }
	M["E.Unmarshal"] = func(c *callCtx) []*Term { c.set(c.recv, app("F.unmarshal", c.bytesOf(c.args[0]))); return nil }
	M["E.SetBigInt"] = func(c *callCtx) []*Term { return fset(c, embF('F', c.I(c.args[0]))) }
	M["E.MustSetRandom"] = func(c *callCtx) []*Term { return fset(c, c.random("F")) }
	M["E.Slice"] = func(c *callCtx) []*Term {
		v := c.F(c.recv)
		n := lenOf(c.args[0])
		j := raw("kv", c.key+"limb")
		in := c.st.with(ge0(j), ltI(j, n))
		c.e.storeQ(c.st, []qv{{j, n}}, c.e.elemPtr(in, c.args[0], j), types.Typ[types.Uint64], app("limb", v, j), tTrue)
		return nil
	}
	M["E.BigInt"] = func(c *callCtx) []*Term { c.set(c.args[0], toInt(c.F(c.recv))); return []*Term{c.args[0]} }
	M["E.Marshal"] = func(c *callCtx) []*Term { return []*Term{raw("bytes", "", app("marshal", c.F(c.recv)))} }
	M["E.Limb"] = func(c *callCtx) []*Term { return []*Term{app("F.limbs")} }
	M["E.Add"] = func(c *callCtx) []*Term { return fset(c, addP('F', c.F(c.args[0]), c.F(c.args[1]))) }
	M["E.Sub"] = func(c *callCtx) []*Term { return fset(c, subP('F', c.F(c.args[0]), c.F(c.args[1]))) }
	M["E.Mul"] = func(c *callCtx) []*Term { return fset(c, mulP('F', c.F(c.args[0]), c.F(c.args[1]))) }
	M["E.Neg"] = func(c *callCtx) []*Term { return fset(c, negP('F', c.F(c.args[0]))) }
	M["E.Inverse"] = func(c *callCtx) []*Term { return fset(c, invF(c.F(c.args[0]))) }
	M["E.Cmp"] = func(c *callCtx) []*Term { return []*Term{raw("sgnF", "", subP('F', c.F(c.recv), c.F(c.args[0])))} }
	M["math/big.Int.ProbablyPrime"] = func(c *callCtx) []*Term { return []*Term{app("big.ProbablyPrime", c.I(c.recv), c.args[0])} }
	M["math/bignum.Exp"] = func(c *callCtx) []*Term {
		o := c.obj()
		c.set(o, powT(c.F(c.args[0]), c.args[1]))
		return []*Term{o}
	}

	// big integers
	bi := func(name string, f func(c *callCtx, a []*Term) *Term, n int) {
		M["math/big.Int."+name] = func(c *callCtx) []*Term {
			var a []*Term
			for i := 0; i < n; i++ {
				a = append(a, c.I(c.args[i]))
			}
			for i := n; i < len(c.args); i++ {
				a = append(a, c.args[i])
			}
			c.set(c.recv, f(c, a))
			return []*Term{c.recv}
		}
	}
	bi("Set", func(c *callCtx, a []*Term) *Term { return a[0] }, 1)
	bi("Add", func(c *callCtx, a []*Term) *Term { return addI(a[0], a[1]) }, 2)
	bi("Sub", func(c *callCtx, a []*Term) *Term { return subI(a[0], a[1]) }, 2)
	bi("Mul", func(c *callCtx, a []*Term) *Term { return mulI(a[0], a[1]) }, 2)
	bi("Neg", func(c *callCtx, a []*Term) *Term { return negP('I', a[0]) }, 1)
	bi("Abs", func(c *callCtx, a []*Term) *Term { return absI(c.st, a[0]) }, 1)
	bi("SetInt64", func(c *callCtx, a []*Term) *Term { return a[0] }, 0)
	bi("SetUint64", func(c *callCtx, a []*Term) *Term { return a[0] }, 0)
	bi("Lsh", func(c *callCtx, a []*Term) *Term { return shlI(a[0], a[1]) }, 1)
	bi("Rsh", func(c *callCtx, a []*Term) *Term {
		if c.st.simp(ge0(a[0])) == tTrue {
			if k, ok := constOf(a[1]); ok && k.IsInt64() && k.Int64() < 4096 {
				return c.st.fs().divF(a[0], new(bigInt).Lsh(one, uint(k.Int64())))
			}
			return shrI(a[0], a[1])
		}
		return app("big.Rsh", a...)
	}, 1)
	bi("Sqrt", func(c *callCtx, a []*Term) *Term { return raw("isqrt", "", a[0]) }, 1)
	bi("And", func(c *callCtx, a []*Term) *Term {
		for i := 0; i < 2; i++ {
			if isConst(a[i], 1) && c.st.simp(ge0(a[1-i])) == tTrue {
				return c.st.fs().modF(a[1-i], kbig('I', new(bigInt).SetInt64(2)).mustConst())
			}
		}
		return app("big.And", a...)
	}, 2)
	for _, nm := range []string{"Mod", "Div", "Quo", "Rem", "Exp", "ModInverse", "GCD", "Or", "Xor", "Not"} {
		nm := nm
		k := 2
		if nm == "Exp" {
			k = 3
		}
		if nm == "Not" {
			k = 1
		}
		bi(nm, func(c *callCtx, a []*Term) *Term { return app("big."+nm, a...) }, k)
	}
	M["math/big.NewInt"] = func(c *callCtx) []*Term { o := c.obj(); c.set(o, c.args[0]); return []*Term{o} }
	M["math/big.Int.Cmp"] = func(c *callCtx) []*Term { return []*Term{sgnT(subI(c.I(c.recv), c.I(c.args[0])))} }
	M["math/big.Int.CmpAbs"] = func(c *callCtx) []*Term {
		return []*Term{sgnT(subI(absI(c.st, c.I(c.recv)), absI(c.st, c.I(c.args[0]))))}
	}
	M["math/big.Int.Sign"] = func(c *callCtx) []*Term { return []*Term{sgnT(c.I(c.recv))} }
	M["math/big.Int.SetBits"] = func(c *callCtx) []*Term {
		c.set(c.recv, app("big.ofBits", c.e.value(c.st, c.args[0], c.fn.Signature().Params().At(0).Type(), 3)))
		return []*Term{c.recv}
	}
	M["math/big.Int.BitLen"] = func(c *callCtx) []*Term { return []*Term{raw("bitlen", "", c.I(c.recv))} }
	M["math/big.Int.Uint64"] = func(c *callCtx) []*Term { return []*Term{c.I(c.recv)} }
	M["math/big.Int.Int64"] = func(c *callCtx) []*Term { return []*Term{c.I(c.recv)} }
	M["math/big.Int.Float64"] = func(c *callCtx) []*Term { return []*Term{app("big2f", c.I(c.recv)), raw("acc", "", c.I(c.recv))} }
	M["math/big.Int.String"] = func(c *callCtx) []*Term { return []*Term{app("bigstr", c.I(c.recv))} }
	M["math/big.Int.Bit"] = func(c *callCtx) []*Term { return []*Term{app("big.Bit", c.I(c.recv), c.args[0])} }
	M["math/big.Int.IsInt64"] = func(c *callCtx) []*Term { return []*Term{raw("isint64", "", c.I(c.recv))} }
	M["math/big.Int.IsUint64"] = func(c *callCtx) []*Term { return []*Term{raw("isuint64", "", c.I(c.recv))} }
	M["math/big.Int.DivMod"] = func(c *callCtx) []*Term {
		x, y := c.I(c.args[0]), c.I(c.args[1])
		c.set(c.recv, app("big.Div", x, y))
		c.set(c.args[2], app("big.Mod", x, y))
		return []*Term{c.recv, c.args[2]}
	}
	M["math/big.Int.QuoRem"] = func(c *callCtx) []*Term {
		x, y := c.I(c.args[0]), c.I(c.args[1])
		c.set(c.recv, app("big.Quo", x, y))
		c.set(c.args[2], app("big.Rem", x, y))
		return []*Term{c.recv, c.args[2]}
	}

	// big.Float: every method is an uninterpreted function of the contents of its operands and, as
	// the precision of the receiver matters, of the receiver
	fl := func(c *callCtx, r *Term) *Term {
		base, path, idx := split(mkPtr(r, "!"))
		return c.e.read(c.st, base, path, idx, func() *Term {
			if base.op == "obj" {
				return app("big.Float0")
			}
			return c.e.initial(base, path, idx, nil)
		})
	}
	arg := func(c *callCtx, i int) *Term {
		t := c.fn.Signature().Params().At(i).Type()
		switch {
		case isPtrTo(t, "math/big", "Float"):
			return fl(c, c.args[i])
		case isPtrTo(t, "math/big", "Int"):
			return c.I(c.args[i])
		}
		return c.args[i]
	}
	for _, nm := range []string{"SetPrec", "SetMode", "SetUint64", "SetInt64", "SetInt", "SetFloat64", "Set", "Add", "Sub", "Mul", "Quo", "Neg", "Abs", "Sqrt"} {
		nm := nm
		M["math/big.Float."+nm] = func(c *callCtx) []*Term {
			as := []*Term{fl(c, c.recv)}
			for i := range c.args {
				as = append(as, arg(c, i))
			}
			c.set(c.recv, app("big.Float."+nm, as...))
			return []*Term{c.recv}
		}
	}
	for _, nm := range []string{"Float64", "Int64", "Uint64", "Cmp", "Sign", "IsInf", "IsInt"} {
		nm := nm
		M["math/big.Float."+nm] = func(c *callCtx) []*Term {
			as := []*Term{fl(c, c.recv)}
			for i := range c.args {
				as = append(as, arg(c, i))
			}
			return []*Term{app("big.Float."+nm, as...), app("big.Float."+nm+".acc", as...)}[:c.fn.Signature().Results().Len()]
		}
	}
	M["math/big.NewFloat"] = func(c *callCtx) []*Term { o := c.obj(); c.set(o, app("big.NewFloat", c.args[0])); return []*Term{o} }

	// errors and formatting
	errf := func(c *callCtx) []*Term { return []*Term{raw("err", "")} }
	M["fmt.Errorf"] = errf
	M["errors.New"] = errf
	M["fmt.Sprintf"] = func(c *callCtx) []*Term { return []*Term{raw("sprintf", c.key)} }

	// SHAKE and other byte sinks
	M["crypto/sha3.NewSHAKE128"] = func(c *callCtx) []*Term { o := c.obj(); return []*Term{o} }
	M["crypto/sha3.NewSHAKE256"] = func(c *callCtx) []*Term {
		o := c.obj()
		c.setStream(o, "!abs", catT(strT("SHAKE256")))
		return []*Term{o}
	}
	wr := func(c *callCtx) []*Term {
		c.write(c.recv, c.byteStr(c.args[0]))
		return []*Term{lenOf(c.args[0]), tNil}
	}
	M["crypto/sha3.SHAKE.Write"] = wr
	M["io.Writer.Write"] = wr
	M["bytes.Buffer.Write"] = wr
	M["bytes.Buffer.Bytes"] = func(c *callCtx) []*Term { return []*Term{raw("bytes", "", c.stream(c.recv, "!abs"))} }
	M["bytes.Buffer.Reset"] = func(c *callCtx) []*Term { c.setStream(c.recv, "!abs", catT()); return nil }
	M["crypto/sha3.SHAKE.Reset"] = func(c *callCtx) []*Term {
		c.setStream(c.recv, "!abs", catT())
		c.e.storeQ(c.st, nil, mkPtr(c.recv, "!pos"), types.Typ[types.Int], I(0), tTrue)
		return nil
	}
	M["crypto/sha3.SHAKE.Read"] = func(c *callCtx) []*Term {
		c.readXOF(c.recv, c.args[0])
		return []*Term{lenOf(c.args[0]), tNil}
	}
	M["io.Reader.Read"] = M["crypto/sha3.SHAKE.Read"]

	registerRing(e)
	registerTranscript(e)
	registerJindoCuts(e)
	registerBucklerCuts(e)
	registerPolyCuts(e)
	registerVecCuts(e)
	registerWalkCuts(e)
	registerVerifierCuts(e)
	registerProverCuts(e)
	for _, f := range registerMore {
		f(e)
	}
}

// registerMore are further summaries.
var registerMore []func(e *Engine)

func (t *Term) mustConst() *bigInt { c, _ := constOf(t); return c }

// byteStr is the byte string held by a slice.
func (c *callCtx) byteStr(s *Term) *Term {
	switch s.op {
	case "bytes":
		return s.args[0]
	case "nil":
		return catT()
	case "ite":
		return ite(s.args[0], c.byteStr(s.args[1]), c.byteStr(s.args[2]))
	case "concat":
		return catT(c.byteStr(s.args[0]), c.byteStr(s.args[1]))
	}
	return c.bytesOf(s)
}

func (c *callCtx) random(kind string) *Term {
	return raw("random", kind+":"+c.key, c.e.loopVars()...)
}

func toInt(v *Term) *Term {
	if v.op == "emb" {
		return raw("toInt", "", v)
	}
	return raw("toInt", "", v)
}

func sgnT(t *Term) *Term {
	if c, ok := constOf(t); ok {
		return I(int64(c.Sign()))
	}
	return raw("sgn", "", t)
}

func absI(st *State, a *Term) *Term {
	if st.simp(ge0(a)) == tTrue {
		return a
	}
	ms := monosOf('I', a)
	if len(ms) > 0 && ms[0].c.Sign() < 0 {
		a = negP('I', a)
	}
	return raw("abs", "", a)
}

func powT(x, n *Term) *Term {
	if c, ok := constOf(n); ok && c.IsInt64() && c.Int64() >= 0 && c.Int64() <= 64 {
		r := kconst('F', 1)
		for i := int64(0); i < c.Int64(); i++ {
			r = mulP('F', r, x)
		}
		return r
	}
	if x.op == "pow" {
		return powT(x.args[0], mulI(x.args[1], n))
	}
	if x.pk == 'F' && len(x.monos) == 1 {
		// a power of a product
		r := kconst('F', 1)
		if x.monos[0].c.Cmp(one) != 0 {
			r = raw("pow", "", kbig('F', x.monos[0].c), n)
		}
		for _, a := range x.monos[0].at {
			r = mulP('F', r, powT(a, n))
		}
		return r
	}
	return raw("pow", "", x, n)
}

func registerRing(e *Engine) {
	M := e.models
	R := func(name string, f func(c *callCtx) []*Term) {
		M[ringPkg+".Ring."+name] = func(c *callCtx) []*Term {
			// some methods have pointer receivers: identify the ring by its content
			if rv := c.fn.Signature().Recv(); rv != nil {
				if _, ok := rv.Type().(*types.Pointer); ok {
					d := *c
					d.recv = c.e.content(c.st, c.recv)
					return f(&d)
				}
			}
			return f(c)
		}
	}
	P := func(name string, f func(c *callCtx) []*Term) { M[ringPkg+".Poly."+name] = f }
	out1 := func(f func(c *callCtx, r, a *Term) *Term) func(c *callCtx) []*Term {
		return func(c *callCtx) []*Term {
			c.set(c.args[1], f(c, c.recv, inRing(c.recv, c.R(c.args[0]))))
			return nil
		}
	}
	out2 := func(f func(c *callCtx, r, a, b *Term) *Term) func(c *callCtx) []*Term {
		return func(c *callCtx) []*Term {
			r := c.recv
			c.set(c.args[2], f(c, r, inRing(r, c.R(c.args[0])), inRing(r, c.R(c.args[1]))))
			return nil
		}
	}
	out3 := func(f func(c *callCtx, r, a, b, o *Term) *Term) func(c *callCtx) []*Term {
		return func(c *callCtx) []*Term {
			r := c.recv
			c.set(c.args[2], f(c, r, inRing(r, c.R(c.args[0])), inRing(r, c.R(c.args[1])), inRing(r, c.R(c.args[2]))))
			return nil
		}
	}
	chain := func(c *callCtx, r *Term) *Term {
		if r.op == "init" && strings.HasSuffix(r.s, "!") {
			r = mkPtr(r.args[0], strings.TrimSuffix(r.s, "!"), r.args[1:]...)
			r = c.e.load(c.st, r, c.rt)
		}
		t := c.rt
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if f := st.Field(i); f.Name() == "SubRings" {
					return lenOf(c.e.load(c.st, mkPtr(r, ".SubRings"), f.Type()))
				}
			}
		}
		return app("ring.Len", r)
	}
	R("NewPoly", func(c *callCtx) []*Term {
		o := c.obj()
		if l := c.e.rings; l != nil {
			l.alloc[o.s] = ringName(c.recv)
		}
		vars := map[*Term]bool{}
		for _, v := range c.e.loopVars() {
			vars[v] = true
		}
		lenPatterns = append(lenPatterns, lenPattern{vars, mkPtr(o, ".Coeffs"), chain(c, c.recv)})
		return []*Term{o}
	})
	R("N", func(c *callCtx) []*Term { return []*Term{app("ring.N")} })
	R("Level", func(c *callCtx) []*Term { return []*Term{subI(chain(c, c.recv), I(1))} })
	R("ModuliChainLength", func(c *callCtx) []*Term { return []*Term{chain(c, c.recv)} })
	R("MFormLazy", out1(func(c *callCtx, r, a *Term) *Term { return mulR(a, rmT(r)) }))
	R("MForm", out1(func(c *callCtx, r, a *Term) *Term { return mulR(a, rmT(r)) }))
	R("IMForm", out1(func(c *callCtx, r, a *Term) *Term { return mulR(a, rinvT(r)) }))
	R("NTT", out1(func(c *callCtx, r, a *Term) *Term { return nttT(r, a) }))
	R("INTT", out1(func(c *callCtx, r, a *Term) *Term { return inttT(r, a) }))
	R("Neg", out1(func(c *callCtx, r, a *Term) *Term { return negP('R', a) }))
	R("Add", out2(func(c *callCtx, r, a, b *Term) *Term { return addP('R', a, b) }))
	R("Sub", out2(func(c *callCtx, r, a, b *Term) *Term { return subP('R', a, b) }))
	R("MulCoeffsMontgomery", out2(func(c *callCtx, r, a, b *Term) *Term { return mulR(mulP('R', a, b), rinvT(r)) }))
	R("MulCoeffsMontgomeryThenAdd", out3(func(c *callCtx, r, a, b, o *Term) *Term {
		return addP('R', o, mulR(mulP('R', a, b), rinvT(r)))
	}))
	R("MulCoeffsMontgomeryThenSub", out3(func(c *callCtx, r, a, b, o *Term) *Term {
		return subP('R', o, mulR(mulP('R', a, b), rinvT(r)))
	}))
	R("MulRNSScalarMontgomery", func(c *callCtx) []*Term {
		r := c.recv
		c.set(c.args[2], mulR(mulP('R', inRing(r, c.R(c.args[0])), c.scalarR(c.args[1])), rinvT(r)))
		return nil
	})
	R("MulScalar", func(c *callCtx) []*Term {
		r := c.recv
		c.set(c.args[2], mulP('R', inRing(r, c.R(c.args[0])), rnsOf(r, c.args[1])))
		return nil
	})
	R("MulScalarBigint", func(c *callCtx) []*Term {
		r := c.recv
		c.set(c.args[2], mulP('R', inRing(r, c.R(c.args[0])), rnsOf(r, c.I(c.args[1]))))
		return nil
	})
	R("MulScalarThenAdd", func(c *callCtx) []*Term {
		r := c.recv
		c.set(c.args[2], addP('R', inRing(r, c.R(c.args[2])), mulP('R', inRing(r, c.R(c.args[0])), rnsOf(r, c.args[1]))))
		return nil
	})
	R("MulScalarThenSub", func(c *callCtx) []*Term {
		r := c.recv
		c.set(c.args[2], subP('R', inRing(r, c.R(c.args[2])), mulP('R', inRing(r, c.R(c.args[0])), rnsOf(r, c.args[1]))))
		return nil
	})
	R("NewRNSScalarFromBigint", func(c *callCtx) []*Term {
		o := c.obj()
		c.set(o, rnsOf(c.recv, c.I(c.args[0])))
		return []*Term{o}
	})
	R("MFormRNSScalar", func(c *callCtx) []*Term {
		c.set(c.args[1], mulR(c.scalarR(c.args[0]), rmT(c.recv)))
		return nil
	})
	P("Copy", func(c *callCtx) []*Term { c.set(c.recv, c.R(c.args[0])); return nil })
	P("CopyLvl", func(c *callCtx) []*Term { c.set(c.recv, c.R(c.args[1])); return nil })
	P("CopyNew", func(c *callCtx) []*Term {
		o := c.obj()
		c.set(o, c.R(c.recv))
		if l := c.e.rings; l != nil {
			if rs := l.ringsOf(c.recv); len(rs) == 1 {
				l.alloc[o.s] = rs[0]
			}
		}
		return []*Term{raw("val", "", o)}
	})
	P("Zero", func(c *callCtx) []*Term { c.set(c.recv, kconst('R', 0)); return nil })
	P("Level", func(c *callCtx) []*Term { return []*Term{subI(lenOf(mkPtr(c.recv, ".Coeffs")), I(1))} })
	P("N", func(c *callCtx) []*Term { return []*Term{app("ring.N")} })
	P("Equal", func(c *callCtx) []*Term {
		o := c.args[0]
		if p, ok := c.fn.Type().(*types.Signature).Params().At(0).Type().(*types.Pointer); ok {
			o = c.e.load(c.st, o, p.Elem())
		}
		return []*Term{eq0('R', subP('R', c.R(c.recv), c.R(o)))}
	})
	P("WriteTo", func(c *callCtx) []*Term {
		c.write(c.args[0], app("wire", c.R(c.recv)))
		return []*Term{app("wirelen", c.recv), tNil}
	})
	M[ringPkg+".BasisExtender.ModUpQtoP"] = func(c *callCtx) []*Term {
		v := c.R(c.args[2])
		c.set(c.args[3], app("modup", c.recv, c.args[0], c.args[1], v))
		return nil
	}
}

func rnsOf(r, v *Term) *Term {
	if c, ok := constOf(v); ok && c.CmpAbs(one) == 0 {
		return kbig('R', c)
	}
	return raw("rns", "", r, v)
}

// ---------- Fiat-Shamir transcripts ----------

func registerTranscript(e *Engine) {
	const fs = "github.com/consensys/gnark-crypto/fiat-shamir"
	e.models[fs+".NewTranscript"] = func(c *callCtx) []*Term {
		o := c.obj()
		names := c.e.value(c.st, c.args[1], types.NewSlice(types.Typ[types.String]), 3)
		c.e.storeQ(c.st, nil, mkPtr(o, "!names"), nil, names, tTrue)
		c.e.storeQ(c.st, nil, mkPtr(o, "!hash"), nil, c.args[0], tTrue)
		return []*Term{o}
	}
	e.models[fs+".Transcript.Bind"] = func(c *callCtx) []*Term {
		nm := c.args[0]
		if nm.op != "str" {
			c.e.note("transcript binding with a computed name")
			nm = strT("?")
		}
		// a binding made after its challenge was computed has no effect
		done := c.fsDone(nm)
		s := transcriptStream(nm)
		old := c.stream(c.recv, s)
		c.setStream(c.recv, s, ite(done, old, catT(old, c.byteStr(c.args[1]))))
		return []*Term{ite(done, raw("err", ""), tNil)}
	}
	e.models[fs+".Transcript.ComputeChallenge"] = func(c *callCtx) []*Term {
		nm := c.args[0]
		if nm.op != "str" {
			c.e.note("challenge with a computed name")
			nm = strT("?")
		}
		names := c.e.read(c.st, c.recv, "!names", nil, func() *Term { return tNil })
		idx := -1
		var prev string
		if names.op == "vec" {
			if n, ok := constOf(names.args[0]); ok {
				for i := int64(0); i < n.Int64(); i++ {
					if x := elemAt(names, I(i)); x == nm {
						idx = int(i)
						break
					} else {
						prev = x.s
					}
				}
			}
		}
		if idx < 0 {
			c.e.note("challenge %s is not declared", nm.s)
			return []*Term{tNil, raw("err", "")}
		}
		done := c.fsDone(nm)
		var pv *Term = tNil
		okPrev := tTrue
		if idx > 0 {
			okPrev = c.fsDone(strT(prev))
			pv = c.e.read(c.st, c.recv, "!c:"+prev, nil, func() *Term { return tNil })
		}
		val := app("fs.chal", nm, pv, c.stream(c.recv, transcriptStream(nm)))
		old := c.e.read(c.st, c.recv, "!c:"+nm.s, nil, func() *Term { return tNil })
		v := ite(done, old, val)
		c.e.storeQ(c.st, nil, mkPtr(c.recv, "!c:"+nm.s), nil, v, okPrev)
		c.e.storeQ(c.st, nil, mkPtr(c.recv, "!d:"+nm.s), types.Typ[types.Bool], or(done, okPrev), tTrue)
		return []*Term{raw("bytes", "", v), ite(or(done, okPrev), tNil, raw("err", ""))}
	}
}

func (c *callCtx) fsDone(nm *Term) *Term {
	return c.e.read(c.st, c.recv, "!d:"+nm.s, nil, func() *Term { return tFalse })
}

var _ = fmt.Sprint
var _ = strings.Contains

func isPtrTo(t types.Type, pkg, name string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isNamed(p.Elem(), pkg, name)
}
