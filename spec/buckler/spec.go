// Reference formulation of the proof system. The analyzer type-checks this file together
// with the package under analysis and compares value graphs; it is never compiled or run.
package buckler

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha3"
	"math/big"
	"math/bits"
	"reflect"

	fiatshamir "github.com/consensys/gnark-crypto/fiat-shamir"
	"github.com/sp301415/ringo-snark/jindo"
	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
)

func specAssume(c bool)       {}
func specSplit(c bool)        {}
func specDefine(x int, y int) {}

// ---------- constraints ----------

func codeAddTerm[E bignum.Uint[E]](c *ArithmeticConstraint[E], coeff E, pw PublicWitness[E], w ...Witness[E]) {
	c.AddTermWithConst(coeff, pw, w...)
}

func specAddTerm[E bignum.Uint[E]](c *ArithmeticConstraint[E], coeff E, pw PublicWitness[E], w ...Witness[E]) {
	c.coeffs = append(c.coeffs, coeff)
	c.hasCoeffPublicWitness = append(c.hasCoeffPublicWitness, pw != nil)
	id := uint64(0)
	if pw != nil {
		id = witnessToID(pw)
	}
	c.coeffsPublicWitness = append(c.coeffsPublicWitness, id)
	ids := make([]uint64, len(w))
	for i := 0; i < len(w); i++ {
		ids[i] = witnessToID(w[i])
	}
	c.witness = append(c.witness, ids)
	c.wRank = max(c.wRank, len(w))
}

func codePlusTerm[E bignum.Uint[E]](c *ArithmeticConstraint[E], pw PublicWitness[E], w ...Witness[E]) {
	c.AddTerm(pw, w...)
}

func specPlusTerm[E bignum.Uint[E]](c *ArithmeticConstraint[E], pw PublicWitness[E], w ...Witness[E]) {
	var z E
	specAddTerm(c, z.New().SetUint64(1), pw, w...)
}

func codeMinusTerm[E bignum.Uint[E]](c *ArithmeticConstraint[E], pw PublicWitness[E], w ...Witness[E]) {
	c.SubTerm(pw, w...)
}

func specMinusTerm[E bignum.Uint[E]](c *ArithmeticConstraint[E], pw PublicWitness[E], w ...Witness[E]) {
	var z E
	specAddTerm(c, z.New().Neg(z.New().SetUint64(1)), pw, w...)
}

func codeMaxRank[E bignum.Uint[E]](c *ArithmeticConstraint[E], rank int) int { return c.maxRank(rank) }

func specMaxRank[E bignum.Uint[E]](c *ArithmeticConstraint[E], rank int) int {
	m := 0
	for i := 0; i < len(c.witness); i++ {
		d := len(c.witness[i]) * rank
		if c.hasCoeffPublicWitness[i] {
			d += rank - 1
		}
		m = max(m, d)
	}
	return m + 1
}

func codeBatch[E bignum.Uint[E]](ctx *Context[E]) int { return ctx.batch() }

func specBatch[E bignum.Uint[E]](ctx *Context[E]) int {
	n := int(ctx.wCnt)
	if len(ctx.arithConstraints) > 0 {
		n++
	}
	if len(ctx.linCheckConstraints) > 0 {
		n += 4
	}
	if len(ctx.sumCheckConstraints) > 0 {
		n += 4
	}
	return n
}

func codeCommitRank[E bignum.Uint[E]](ctx *Context[E]) int { return ctx.commitRank() }

func specCommitRank[E bignum.Uint[E]](ctx *Context[E]) int {
	rank := 0
	if ctx.wCnt > 0 {
		rank = ctx.rank + 1
	}
	for i := 0; i < len(ctx.arithConstraints); i++ {
		rank = max(rank, ctx.arithConstraints[i].maxRank(ctx.rank)-ctx.rank)
	}
	if len(ctx.linCheckConstraints) > 0 {
		rank = max(rank, 2*ctx.rank)
	}
	for i := 0; i < len(ctx.sumCheckConstraints); i++ {
		rank = max(rank, ctx.sumCheckConstraints[i].maxRank(ctx.rank)+ctx.rank+1)
	}
	return rank
}

func codeArith[E bignum.Uint[E]](ctx *Context[E], c ArithmeticConstraint[E]) {
	ctx.AddArithmeticConstraint(c)
}

func specArith[E bignum.Uint[E]](ctx *Context[E], c ArithmeticConstraint[E]) {
	ctx.arithConstraints = append(ctx.arithConstraints, c)
	ctx.arithCheckMaxRank = max(ctx.arithCheckMaxRank, c.maxRank(ctx.rank))
}

func codeSum[E bignum.Uint[E]](ctx *Context[E], c ArithmeticConstraint[E], sum *big.Int) {
	ctx.AddSumCheckConstraintBig(c, sum)
}

func specSum[E bignum.Uint[E]](ctx *Context[E], c ArithmeticConstraint[E], sum *big.Int) {
	ctx.sumCheckConstraints = append(ctx.sumCheckConstraints, c)
	ctx.sumCheckSums = append(ctx.sumCheckSums, sum)
	ctx.sumCheckMaxRank = max(ctx.sumCheckMaxRank, c.maxRank(ctx.rank))
}

func codeLin[E bignum.Uint[E]](ctx *Context[E], wOut, wIn Witness[E], chker LinearChecker[E]) {
	ctx.AddLinearConstraint(wOut, wIn, chker)
}

func specLin[E bignum.Uint[E]](ctx *Context[E], wOut, wIn Witness[E], chker LinearChecker[E]) {
	ctx.arithCheckMaxRank = max(ctx.arithCheckMaxRank, 2*ctx.rank-1)
	if _, ok := ctx.linCheckConstraints[chker]; !ok {
		ctx.linCheckers = append(ctx.linCheckers, chker)
	}
	ctx.linCheckConstraints[chker] = append(ctx.linCheckConstraints[chker], [2]uint64{witnessToID(wOut), witnessToID(wIn)})
}

// ---------- norm constraints ----------

func specTernary[E bignum.Uint[E]](ctx *Context[E], w Witness[E]) {
	var z E
	var c ArithmeticConstraint[E]
	c.AddTermWithConst(z.New().SetInt64(1), nil, w, w, w)
	c.AddTermWithConst(z.New().SetInt64(-1), nil, w)
	ctx.AddArithmeticConstraint(c)
}

func codeInfNorm[E bignum.Uint[E]](ctx *Context[E], w Witness[E], bound *big.Int) {
	ctx.AddInfNormConstraintBig(w, bound)
}

func specInfNorm[E bignum.Uint[E]](ctx *Context[E], w Witness[E], bound *big.Int) {
	var z E
	if bound.Sign() < 0 {
		panic("negative")
	}
	if bound.Sign() == 0 {
		var c ArithmeticConstraint[E]
		c.AddTermWithConst(z.New().SetInt64(1), nil, w)
		ctx.AddArithmeticConstraint(c)
		return
	}
	if bound.Cmp(big.NewInt(1)) == 0 {
		specTernary(ctx, w)
		return
	}
	base := decomposeBase(bound)
	id := witnessToID(w)
	d := make([]Witness[E], len(base))
	for i := 0; i < len(base); i++ {
		d[i] = idToWitness[E, Witness[E]](ctx.wCnt + uint64(i))
	}
	ctx.wCnt += uint64(len(base))
	ctx.infDcmpWitness[id] = append(ctx.infDcmpWitness[id], d)
	ctx.infDcmpBound[id] = append(ctx.infDcmpBound[id], bound)
	for i := 0; i < len(base); i++ {
		specTernary(ctx, d[i])
	}
	var c ArithmeticConstraint[E]
	c.AddTermWithConst(z.New().SetInt64(1), nil, w)
	for i := 0; i < len(base); i++ {
		b := z.New().SetBigInt(base[i])
		c.AddTermWithConst(z.New().Neg(b), nil, d[i])
	}
	ctx.AddArithmeticConstraint(c)
}

func codeSqNorm[E bignum.Uint[E]](ctx *Context[E], w Witness[E], bound *big.Int) {
	ctx.AddSqNormConstraintBig(w, bound)
}

func specSqNorm[E bignum.Uint[E]](ctx *Context[E], w Witness[E], bound *big.Int) {
	if bound.Sign() < 0 {
		panic("negative")
	}
	var z E
	id := witnessToID(w)
	d := idToWitness[E, Witness[E]](ctx.wCnt)
	base := idToWitness[E, PublicWitness[E]](ctx.pwCnt)
	mask := idToWitness[E, PublicWitness[E]](ctx.pwCnt + 1)
	ctx.wCnt++
	ctx.pwCnt += 2
	ctx.twoDcmpBound[id] = append(ctx.twoDcmpBound[id], bound)
	ctx.twoDcmpBase[id] = append(ctx.twoDcmpBase[id], base)
	ctx.twoDcmpMask[id] = append(ctx.twoDcmpMask[id], mask)
	ctx.twoDcmpWitness[id] = append(ctx.twoDcmpWitness[id], d)

	// the digits are binary, and zero outside of the mask
	var c ArithmeticConstraint[E]
	c.AddTermWithConst(z.New().SetInt64(1), nil, d, d)
	c.AddTermWithConst(z.New().SetInt64(-1), mask, d)
	ctx.AddArithmeticConstraint(c)
	// <w, w> - <base, d> = 0
	var s ArithmeticConstraint[E]
	s.AddTermWithConst(z.New().SetInt64(1), nil, w, w)
	s.AddTermWithConst(z.New().SetInt64(-1), base, d)
	ctx.AddSumCheckConstraintBig(s, big.NewInt(0))
}

func codeApproxNorm[E bignum.Uint[E]](ctx *Context[E], w Witness[E], bound *big.Int) {
	ctx.AddApproxInfNormConstraintBig(w, bound)
}

func specApproxNorm[E bignum.Uint[E]](ctx *Context[E], w Witness[E], bound *big.Int) {
	if bound.Sign() < 0 {
		panic("negative")
	}
	if bound.Sign() == 0 {
		ctx.AddInfNormConstraintBig(w, bound)
		return
	}
	if ctx.projChecker == nil {
		ctx.projChecker = newProjChecker[E](ctx.rank)
	}
	id := witnessToID(w)
	proj := idToWitness[E, Witness[E]](ctx.wCnt)
	dcmp := idToWitness[E, Witness[E]](ctx.wCnt + 1)
	ctx.wCnt += 2
	ctx.AddLinearConstraint(proj, w, ctx.projChecker)
	ctx.projWitness[id] = append(ctx.projWitness[id], proj)
	slack := new(big.Int).Mul(new(big.Int).SetUint64(uint64(ctx.rank)), bound)
	ctx.projInfDcmpBound[witnessToID(proj)] = slack
	ctx.projInfDcmpWitness[witnessToID(proj)] = dcmp
	ctx.AddLinearConstraint(proj, dcmp, newProjRecomposeChecker[E](slack))
	specTernary(ctx, dcmp)
	ctx.wSecond = append(ctx.wSecond, proj, dcmp)
}

func codeNormsU[E bignum.Uint[E]](ctx *Context[E], kind int, w Witness[E], bound uint64) {
	if kind == 0 {
		ctx.AddInfNormConstraint(w, bound)
	} else if kind == 1 {
		ctx.AddSqTwoNormConstraint(w, bound)
	} else {
		ctx.AddApproxInfNormConstraint(w, bound)
	}
}

func specNormsU[E bignum.Uint[E]](ctx *Context[E], kind int, w Witness[E], bound uint64) {
	b := new(big.Int).SetUint64(bound)
	if kind == 0 {
		ctx.AddInfNormConstraintBig(w, b)
	} else if kind == 1 {
		ctx.AddSqNormConstraintBig(w, b)
	} else {
		ctx.AddApproxInfNormConstraintBig(w, b)
	}
}

// ---------- decompositions ----------

func codeDcmpBase(x *big.Int) []*big.Int { return decomposeBase(x) }

// specDcmpBase is ceil(x/2), ceil((x-b0)/2), ..., 1.
// through: buckler.decomposeBase
func specDcmpBase(x *big.Int) []*big.Int {
	n := x.BitLen()
	if n == 0 {
		return nil
	}
	base := make([]*big.Int, n)
	for i := 0; i < n-1; i++ {
		b := new(big.Int).Set(x)
		for j := 0; j < i; j++ {
			b.Sub(b, base[j])
		}
		base[i] = new(big.Int).Rsh(b, 1)
		base[i].Add(base[i], b.And(b, big.NewInt(1)))
	}
	base[n-1] = big.NewInt(1)
	return base
}

func codeDcmp(x *big.Int, base []*big.Int, q *big.Int) []int64 { return decomposeBig(x, base, q) }

// through: buckler.decomposeBig
func specDcmp(x *big.Int, base []*big.Int, q *big.Int) []int64 {
	r := new(big.Int).Set(x)
	if r.Cmp(new(big.Int).Rsh(q, 1)) > 0 {
		r.Sub(r, q)
	}
	out := make([]int64, len(base))
	for i := 0; i < len(base); i++ {
		if r.Cmp(base[i]) >= 0 {
			r.Sub(r, base[i])
			out[i] = 1
		} else if r.Cmp(new(big.Int).Neg(base[i])) <= 0 {
			r.Add(r, base[i])
			out[i] = -1
		}
	}
	return out
}

func codeWitnessID[E bignum.Uint[E]](id uint64, w Witness[E], pw PublicWitness[E]) (Witness[E], PublicWitness[E], uint64, uint64) {
	return idToWitness[E, Witness[E]](id), idToWitness[E, PublicWitness[E]](id), witnessToID(w), witnessToID(pw)
}

// through: buckler.idToWitness buckler.witnessToID
func specWitnessID[E bignum.Uint[E]](id uint64, w Witness[E], pw PublicWitness[E]) (Witness[E], PublicWitness[E], uint64, uint64) {
	var z E
	a, b := make([]uint64, z.Limb()), make([]uint64, z.Limb())
	w[0].Slice(a)
	pw[0].Slice(b)
	return Witness[E]{z.New().SetUint64(2*id + 2)}, PublicWitness[E]{z.New().SetUint64(2*id + 3)}, a[0]>>1 - 1, b[0]>>1 - 1
}

// ---------- verifier ----------

func codeVrfEval[E bignum.Uint[E]](v *Verifier[E], x E, cs []ArithmeticConstraint[E], ev, pw []E) E {
	return v.evalCircuit(x, cs, ev, pw)
}

// specTermEval is a term of a constraint at the evaluation point.
func specTermEval[E bignum.Uint[E]](c ArithmeticConstraint[E], i int, ev, pw []E) E {
	var z E
	t := z.New().Set(c.coeffs[i])
	if c.hasCoeffPublicWitness[i] {
		t.Mul(t, pw[c.coeffsPublicWitness[i]])
	}
	for j := 0; j < len(c.witness[i]); j++ {
		t.Mul(t, ev[c.witness[i][j]])
	}
	return t
}

func specConstraintEval[E bignum.Uint[E]](c ArithmeticConstraint[E], ev, pw []E) E {
	var z E
	s := z.New()
	for i := 0; i < len(c.witness); i++ {
		s.Add(s, specTermEval(c, i, ev, pw))
	}
	return s
}

func specVrfEval[E bignum.Uint[E]](v *Verifier[E], x E, cs []ArithmeticConstraint[E], ev, pw []E) E {
	var z E
	out := z.New()
	for k := 0; k < len(cs); k++ {
		out.Mul(out, x)
		out.Add(out, specConstraintEval(cs[k], ev, pw))
	}
	return out
}

func codeVrfArith[E bignum.Uint[E]](v *Verifier[E], x, van, quo E, ev, pw []E) bool {
	return v.arithCheck(x, van, quo, ev, pw)
}

// through: buckler.Verifier.arithCheck
func specVrfArith[E bignum.Uint[E]](v *Verifier[E], x, van, quo E, ev, pw []E) bool {
	var z E
	return specVrfEval(v, x, v.ctx.arithConstraints, ev, pw).Cmp(z.New().Mul(van, quo)) == 0
}

func codeVrfSum[E bignum.Uint[E]](v *Verifier[E], x, mask, pt, van, maskSum, quo, lo, hi E, ev, pw []E) bool {
	return v.sumCheck(x, mask, pt, van, maskSum, quo, lo, hi, ev, pw)
}

// through: buckler.Verifier.sumCheck
func specVrfSum[E bignum.Uint[E]](v *Verifier[E], x, mask, pt, van, maskSum, quo, lo, hi E, ev, pw []E) bool {
	var z E
	// the remainder has no constant term and fewer than rank coefficients
	shift := bignum.Exp(pt, uint64(v.JindoParams.Rank()-(v.ctx.rank-1)))
	if shift.Mul(shift, lo).Cmp(hi) != 0 {
		return false
	}
	n := len(v.ctx.sumCheckConstraints)
	l := z.New()
	for k := 0; k < n; k++ {
		l.Mul(l, x)
		l.Add(l, specConstraintEval(v.ctx.sumCheckConstraints[k], ev, pw))
	}
	s := z.New()
	for k := 0; k < len(v.ctx.sumCheckSums); k++ {
		s.Mul(s, x)
		s.Add(s, z.New().SetBigInt(v.ctx.sumCheckSums[k]))
	}
	// x * (circuit - sum/rank) + mask - maskSum = quo * van + lo * pt
	s.Mul(s, z.New().Inverse(z.New().SetUint64(uint64(v.ctx.rank))))
	lhs := z.New().Mul(x, l)
	lhs.Add(lhs, mask)
	rhs := z.New().Mul(quo, van)
	rhs.Add(rhs, z.New().Mul(lo, pt))
	rhs.Add(rhs, maskSum)
	rhs.Add(rhs, z.New().Mul(x, s))
	return lhs.Cmp(rhs) == 0
}

// ---------- encoder ----------

func codeEcd[E bignum.Uint[E]](rank, embed int, v []E) *bigpoly.Poly[E] {
	specAssume(rank >= 1 && embed >= rank)
	return newEncoder[E](rank, embed).Encode(v)
}

func specEcd[E bignum.Uint[E]](rank, embed int, v []E) *bigpoly.Poly[E] {
	specAssume(rank >= 1 && embed >= rank)
	p := bigpoly.NewPoly[E](embed, false)
	specEcdTo(rank, embed, p, v)
	return p
}

func codeEcdTo[E bignum.Uint[E]](rank, embed int, p *bigpoly.Poly[E], v []E) {
	specAssume(rank >= 1 && embed >= rank)
	newEncoder[E](rank, embed).EncodeTo(p, v)
}

func specEcdTo[E bignum.Uint[E]](rank, embed int, p *bigpoly.Poly[E], v []E) {
	specAssume(rank >= 1 && embed >= rank)
	var z E
	w := make([]E, rank)
	for i := 0; i < rank; i++ {
		w[i] = z.New()
	}
	bigpoly.NewCyclicTransformer[E](rank).InvNTTTo(w, v[:rank])
	for i := 0; i < rank; i++ {
		p.Coeffs[i].Set(w[i])
	}
	for i := rank; i < len(p.Coeffs); i++ {
		p.Coeffs[i].SetUint64(0)
	}
	p.IsNTT = false
}

func codeRandEcd[E bignum.Uint[E]](rank, embed int, v []E) *bigpoly.Poly[E] {
	specAssume(rank >= 1 && embed > rank)
	return newEncoder[E](rank, embed).RandEncode(v)
}

func specRandEcd[E bignum.Uint[E]](rank, embed int, v []E) *bigpoly.Poly[E] {
	specAssume(rank >= 1 && embed > rank)
	var z E
	p := newEncoder[E](rank, embed).Encode(v)
	// a fresh multiple of X^rank - 1
	r := z.New()
	r.MustSetRandom()
	p.Coeffs[rank].Set(r)
	p.Coeffs[0].Sub(p.Coeffs[0], r)
	return p
}

// specSetupV gives the verifier the parts that Compile makes for it.
func specSetupV[E bignum.Uint[E]](v *Verifier[E], emb int) {
	specAssume(v.ctx.rank >= 1 && emb > v.ctx.rank)
	v.ecd = newEncoder[E](v.ctx.rank, emb)
	v.polyEval = bigpoly.NewCyclicEvaluator[E](emb)
}

func codeVrfLin[E bignum.Uint[E]](v *Verifier[E], emb int, x, y, mask, pt, van, maskSum, quo, lo, hi E, ev []E) bool {
	specSetupV(v, emb)
	return v.linCheck(x, y, mask, pt, van, maskSum, quo, lo, hi, ev)
}

// through: buckler.Verifier.linCheck
func specVrfLin[E bignum.Uint[E]](v *Verifier[E], emb int, x, y, mask, pt, van, maskSum, quo, lo, hi E, ev []E) bool {
	specSetupV(v, emb)
	var z E
	shift := bignum.Exp(pt, uint64(v.JindoParams.Rank()-(v.ctx.rank-1)))
	if shift.Mul(shift, lo).Cmp(hi) != 0 {
		return false
	}
	n := v.ctx.rank
	c := make([]E, n)
	c[0] = z.New().SetUint64(1)
	for i := 1; i < n; i++ {
		c[i] = z.New().Mul(c[i-1], y)
	}
	cEval := v.ecd.Encode(c).Evaluate(pt)
	l := z.New()
	for k := 0; k < len(v.ctx.linCheckers); k++ {
		chk := v.ctx.linCheckers[k]
		d := make([]E, n)
		for i := 0; i < n; i++ {
			d[i] = z.New()
		}
		chk.TransposeTo(d, c)
		dEval := v.ecd.Encode(d).Evaluate(pt)
		ids := v.ctx.linCheckConstraints[chk]
		for i := 0; i < len(ids); i++ {
			// <c, out> = <M^T c, in>
			t := z.New().Mul(dEval, ev[ids[i][1]])
			t.Sub(t, z.New().Mul(cEval, ev[ids[i][0]]))
			l.Mul(l, x)
			l.Add(l, t)
		}
	}
	lhs := z.New().Mul(x, l)
	lhs.Add(lhs, mask)
	rhs := z.New().Mul(quo, van)
	rhs.Add(rhs, z.New().Mul(lo, pt))
	rhs.Add(rhs, maskSum)
	return lhs.Cmp(rhs) == 0
}

// ---------- verification ----------

func codeVerify[E bignum.Uint[E]](v *Verifier[E], emb int, c Circuit[E], pf *Proof[E]) bool {
	specSetupV(v, emb)
	return v.Verify(c, pf)
}

// specShape is the form of an acceptable proof.
func specShape[E bignum.Uint[E]](ctx *Context[E], pf *Proof[E]) bool {
	if pf == nil || len(pf.Witness) != ctx.batch() || len(pf.Evals) != ctx.batch() {
		return false
	}
	for i := 0; i < len(pf.Witness); i++ {
		if pf.Witness[i] == nil {
			return false
		}
	}
	var null E
	for i := 0; i < len(pf.Evals); i++ {
		if any(pf.Evals[i]) == any(null) {
			return false
		}
	}
	if ctx.HasLinearCheck() && any(pf.LinCheckMaskSum) == any(null) {
		return false
	}
	if ctx.HasSumCheck() && any(pf.SumCheckMaskSum) == any(null) {
		return false
	}
	return true
}

// specPublic are the public witnesses of an assignment, followed by those made by the compiler.
func specPublic[E bignum.Uint[E]](ctx *Context[E], c Circuit[E], v *Verifier[E]) ([]PublicWitness[E], bool) {
	var z E
	pw := make([]PublicWitness[E], ctx.pwCnt)
	wk := &walker[E]{}
	if wk.vrfWalk(v, reflect.ValueOf(c), pw) != nil || wk.pwCnt != ctx.pwAssignCnt {
		return nil, false
	}
	for i := ctx.pwAssignCnt; i < ctx.pwCnt; i++ {
		pw[i] = make(PublicWitness[E], ctx.rank)
		for j := 0; j < ctx.rank; j++ {
			pw[i][j] = z.New()
		}
	}
	for id, bounds := range ctx.twoDcmpBound {
		for k := 0; k < len(bounds); k++ {
			b := decomposeBase(bounds[k])
			bID := witnessToID(ctx.twoDcmpBase[id][k])
			mID := witnessToID(ctx.twoDcmpMask[id][k])
			for i := 0; i < len(b); i++ {
				pw[bID][i].SetBigInt(b[i])
				pw[mID][i].SetInt64(1)
			}
		}
	}
	return pw, true
}

func specSecond[E bignum.Uint[E]](ctx *Context[E], i uint64) bool {
	for _, w := range ctx.wSecond {
		if witnessToID(w) == i {
			return true
		}
	}
	return false
}

func specVerify[E bignum.Uint[E]](v *Verifier[E], emb int, c Circuit[E], pf *Proof[E]) bool {
	specSetupV(v, emb)
	var z E
	ctx := v.ctx
	if ctx.circType != reflect.TypeOf(c).Elem() || !specShape(ctx, pf) {
		return false
	}
	pw, ok := specPublic(ctx, c, v)
	if !ok {
		return false
	}
	t := fiatshamir.NewTranscript(sha256.New(), "projConst", "arithBatchConst", "linCheckBatchConst", "linCheckConst", "sumCheckBatchConst", "evalPoint")
	commit := func(name string, c *jindo.Commitment) {
		var buf bytes.Buffer
		c.WriteRawTo(&buf)
		t.Bind(name, buf.Bytes())
	}

	// first round: the public witnesses, the commitments to the witnesses
	pwEcd := make([]*bigpoly.Poly[E], len(pw))
	for i := 0; i < len(pw); i++ {
		pwEcd[i] = v.ecd.Encode(pw[i])
	}
	for i := 0; i < len(pw); i++ {
		t.Bind("projConst", pwEcd[i].Marshal())
	}
	for i := uint64(0); i < ctx.wCnt; i++ {
		if !specSecond(ctx, i) {
			commit("projConst", pf.Witness[i])
		}
	}
	proj, err := t.ComputeChallenge("projConst")
	if err != nil {
		return false
	}

	// the projection matrix
	if ctx.projChecker != nil {
		chk := ctx.projChecker.(*projChecker[E])
		xof := sha3.NewSHAKE128()
		xof.Write(proj)
		for j := 0; j < ctx.rank; j++ {
			var b [16]byte
			var rest [16]byte
			xof.Read(b[:])
			xof.Read(rest[:])
			for i := 0; i < 128; i++ {
				chk.proj[i][j] = b[i>>3]&(1<<(i&7)) == 0
			}
		}
	}

	// second round: commitments to the projections, masks
	for _, w := range ctx.wSecond {
		commit("arithBatchConst", pf.Witness[witnessToID(w)])
	}
	n := ctx.wCnt
	lin, sum := n, n
	if ctx.HasLinearCheck() {
		commit("arithBatchConst", pf.Witness[n])
		t.Bind("arithBatchConst", pf.LinCheckMaskSum.Marshal())
		n++
	}
	if ctx.HasSumCheck() {
		sum = n
		commit("arithBatchConst", pf.Witness[n])
		t.Bind("arithBatchConst", pf.SumCheckMaskSum.Marshal())
		n++
	}
	arithB, err := t.ComputeChallenge("arithBatchConst")
	if err != nil {
		return false
	}
	linB, err := t.ComputeChallenge("linCheckBatchConst")
	if err != nil {
		return false
	}
	linC, err := t.ComputeChallenge("linCheckConst")
	if err != nil {
		return false
	}
	sumB, err := t.ComputeChallenge("sumCheckBatchConst")
	if err != nil {
		return false
	}

	// third round: quotients and remainders
	for i := n; i < uint64(len(pf.Witness)); i++ {
		commit("evalPoint", pf.Witness[i])
	}
	pt, err := t.ComputeChallenge("evalPoint")
	if err != nil {
		return false
	}
	x := z.New().SetBytes(pt)

	if !v.polyVerifier.Verify(x, pf.Witness, pf.Evals, pf.EvalProof) {
		return false
	}

	pwEv := make([]E, len(pw))
	for i := 0; i < len(pw); i++ {
		pwEv[i] = pwEcd[i].Evaluate(x)
	}
	van := bignum.Exp(x, uint64(ctx.rank))
	van = z.New().Sub(van, z.New().SetUint64(1))

	k := n
	if ctx.HasArithmeticCheck() {
		if !v.arithCheck(z.New().SetBytes(arithB), van, pf.Evals[k], pf.Evals, pwEv) {
			return false
		}
		k++
	}
	if ctx.HasLinearCheck() {
		if !v.linCheck(z.New().SetBytes(linB), z.New().SetBytes(linC), pf.Evals[lin], x, van, pf.LinCheckMaskSum, pf.Evals[k], pf.Evals[k+1], pf.Evals[k+2], pf.Evals) {
			return false
		}
		k += 3
	}
	if ctx.HasSumCheck() {
		return v.sumCheck(z.New().SetBytes(sumB), pf.Evals[sum], x, van, pf.SumCheckMaskSum, pf.Evals[k], pf.Evals[k+1], pf.Evals[k+2], pf.Evals, pwEv)
	}
	return true
}

// ---------- prover ----------

// specSetupP gives the prover the parts that Compile makes for it.
func specSetupP[E bignum.Uint[E]](p *Prover[E], emb int) {
	specAssume(p.ctx.rank >= 1 && emb > p.ctx.rank)
	p.ecd = newEncoder[E](p.ctx.rank, emb)
	p.polyEval = bigpoly.NewCyclicEvaluator[E](emb)
}

func codePrvEval[E bignum.Uint[E]](p *Prover[E], emb int, x E, cs []ArithmeticConstraint[E], wd witnessData[E]) *bigpoly.Poly[E] {
	specSetupP(p, emb)
	return p.evalCircuit(x, cs, wd)
}

func specPrvEval[E bignum.Uint[E]](p *Prover[E], emb int, x E, cs []ArithmeticConstraint[E], wd witnessData[E]) *bigpoly.Poly[E] {
	specSetupP(p, emb)
	out := p.polyEval.NewPoly(true)
	s := p.polyEval.NewPoly(true)
	t := p.polyEval.NewPoly(true)
	for k := 0; k < len(cs); k++ {
		for j := 0; j < emb; j++ {
			s.Coeffs[j].SetUint64(0)
		}
		for i := 0; i < len(cs[k].witness); i++ {
			for j := 0; j < emb; j++ {
				t.Coeffs[j].SetUint64(1)
			}
			for j := 0; j < len(cs[k].witness[i]); j++ {
				p.polyEval.MulTo(t, wd.wEcdNTT[cs[k].witness[i][j]], t)
			}
			if cs[k].hasCoeffPublicWitness[i] {
				p.polyEval.MulTo(t, t, wd.pwEcdNTT[cs[k].coeffsPublicWitness[i]])
			}
			p.polyEval.ScalarMulAddTo(s, t, cs[k].coeffs[i])
		}
		p.polyEval.ScalarMulAddTo(s, out, x)
		for j := 0; j < emb; j++ {
			out.Coeffs[j].Set(s.Coeffs[j])
		}
	}
	return out
}

func codePrvMask[E bignum.Uint[E]](p *Prover[E], emb int, n int) (*bigpoly.Poly[E], E) {
	specAssume(n <= emb)
	specSetupP(p, emb)
	return p.sumCheckMask(n)
}

// specPrvMask is a random polynomial of fewer than n coefficients and its sum over the roots of
// unity, divided by their number.
func specPrvMask[E bignum.Uint[E]](p *Prover[E], emb int, n int) (*bigpoly.Poly[E], E) {
	specAssume(n <= emb)
	specSetupP(p, emb)
	var z E
	r := p.ctx.rank
	mask := p.polyEval.NewPoly(false)
	for i := 0; i < r; i++ {
		mask.Coeffs[i].MustSetRandom()
	}
	sum := z.New().Set(mask.Coeffs[0])
	for i := r; i < n; i++ {
		mask.Coeffs[i].MustSetRandom()
		mask.Coeffs[i-r].Sub(mask.Coeffs[i-r], mask.Coeffs[i])
	}
	return mask, sum
}

func codePrvArith[E bignum.Uint[E]](p *Prover[E], emb int, x E, wd witnessData[E]) []E {
	specAssume(p.ctx.arithCheckMaxRank <= emb)
	specSetupP(p, emb)
	return p.arithCheck(x, wd)
}

// specPrvArith is the quotient of the batched constraints by X^rank - 1.
//
// through: buckler.Prover.arithCheck
func specPrvArith[E bignum.Uint[E]](p *Prover[E], emb int, x E, wd witnessData[E]) []E {
	specAssume(p.ctx.arithCheckMaxRank <= emb)
	specSetupP(p, emb)
	quo, _ := p.polyEval.QuoRemByVanishing(p.polyEval.InvNTT(specPrvEval(p, emb, x, p.ctx.arithConstraints, wd)), p.ctx.rank)
	return quo.Coeffs[:p.ctx.arithCheckMaxRank-p.ctx.rank]
}

func codePrvSum[E bignum.Uint[E]](p *Prover[E], emb int, x E, mask *bigpoly.Poly[E], wd witnessData[E]) (quo, lo, hi []E) {
	specAssume(p.ctx.sumCheckMaxRank <= emb && p.JindoParams.Rank() >= p.ctx.rank)
	specSetupP(p, emb)
	return p.sumCheck(x, mask, wd)
}

// specRemainder splits the remainder without its constant term into the polynomial and its
// multiple by the power of X that only remainders of small degree survive.
func specRemainder[E bignum.Uint[E]](r *bigpoly.Poly[E], rank, n int) (lo, hi []E) {
	var z E
	lo = make([]E, rank-1)
	for i := 0; i < rank-1; i++ {
		lo[i] = z.New().Set(r.Coeffs[i+1])
	}
	hi = make([]E, n)
	for i := 0; i < n; i++ {
		hi[i] = z.New()
		if i >= n-(rank-1) {
			hi[i].Set(r.Coeffs[i-(n-(rank-1))+1])
		}
	}
	return
}

// through: buckler.Prover.sumCheck
func specPrvSum[E bignum.Uint[E]](p *Prover[E], emb int, x E, mask *bigpoly.Poly[E], wd witnessData[E]) (quo, lo, hi []E) {
	specAssume(p.ctx.sumCheckMaxRank <= emb && p.JindoParams.Rank() >= p.ctx.rank)
	specSetupP(p, emb)
	ev := p.polyEval.InvNTT(p.polyEval.ScalarMul(specPrvEval(p, emb, x, p.ctx.sumCheckConstraints, wd), x))
	q, r := p.polyEval.QuoRemByVanishing(p.polyEval.Add(mask, ev), p.ctx.rank)
	lo, hi = specRemainder(r, p.ctx.rank, p.JindoParams.Rank())
	return q.Coeffs[:p.ctx.sumCheckMaxRank-p.ctx.rank], lo, hi
}

func codePrvLin[E bignum.Uint[E]](p *Prover[E], emb int, x, y E, mask *bigpoly.Poly[E], wd witnessData[E]) (quo, lo, hi []E) {
	specAssume(2*p.ctx.rank <= emb && p.JindoParams.Rank() >= p.ctx.rank)
	specSetupP(p, emb)
	return p.linCheck(x, y, mask, wd)
}

// through: buckler.Prover.linCheck
func specPrvLin[E bignum.Uint[E]](p *Prover[E], emb int, x, y E, mask *bigpoly.Poly[E], wd witnessData[E]) (quo, lo, hi []E) {
	specAssume(2*p.ctx.rank <= emb && p.JindoParams.Rank() >= p.ctx.rank)
	specSetupP(p, emb)
	var z E
	n := p.ctx.rank
	c := make([]E, n)
	d := make([]E, n)
	c[0] = z.New().SetUint64(1)
	d[0] = z.New()
	for i := 1; i < n; i++ {
		c[i] = z.New().Mul(c[i-1], y)
		d[i] = z.New()
	}
	cEcd := p.polyEval.NTT(p.ecd.Encode(c))
	sum := p.polyEval.NewPoly(true)
	t := p.polyEval.NewPoly(true)
	dEcd := p.polyEval.NewPoly(true)
	for k := 0; k < len(p.ctx.linCheckers); k++ {
		chk := p.ctx.linCheckers[k]
		chk.TransposeTo(d, c)
		p.ecd.EncodeTo(dEcd, d)
		p.polyEval.NTTTo(dEcd, dEcd)
		ids := p.ctx.linCheckConstraints[chk]
		for i := 0; i < len(ids); i++ {
			// <M^T c, in> - <c, out>
			p.polyEval.ScalarMulTo(sum, sum, x)
			p.polyEval.MulTo(t, wd.wEcdNTT[ids[i][1]], dEcd)
			p.polyEval.AddTo(sum, sum, t)
			p.polyEval.MulTo(t, wd.wEcdNTT[ids[i][0]], cEcd)
			p.polyEval.SubTo(sum, sum, t)
		}
	}
	ev := p.polyEval.Add(p.polyEval.InvNTT(p.polyEval.ScalarMul(sum, x)), mask)
	q, r := p.polyEval.QuoRemByVanishing(ev, n)
	lo, hi = specRemainder(r, n, p.JindoParams.Rank())
	return q.Coeffs[:n], lo, hi
}

// ---------- proving ----------

func codeProve[E bignum.Uint[E]](p *Prover[E], emb int, c Circuit[E]) (*Proof[E], error) {
	specAssumeP(p, emb)
	specSetupP(p, emb)
	return p.Prove(c)
}

// specAssumeP are the sizes that Compile chooses.
func specAssumeP[E bignum.Uint[E]](p *Prover[E], emb int) {
	specAssume(p.ctx.arithCheckMaxRank <= emb && p.ctx.sumCheckMaxRank <= emb && 2*p.ctx.rank <= emb && p.JindoParams.Rank() >= p.ctx.rank)
	specAssume(p.ctx.arithCheckMaxRank >= p.ctx.rank && p.ctx.sumCheckMaxRank >= p.ctx.rank)
}

// specWitnesses are the witnesses of an assignment, followed by zeros for those of the compiler.
func specWitnesses[E bignum.Uint[E]](p *Prover[E], c Circuit[E]) (pw []PublicWitness[E], w []Witness[E], err error) {
	var z E
	ctx := p.ctx
	pw = make([]PublicWitness[E], ctx.pwCnt)
	w = make([]Witness[E], ctx.wCnt)
	wk := &walker[E]{}
	if err = wk.prvWalk(p, reflect.ValueOf(c), pw, w); err != nil {
		return nil, nil, err
	}
	if wk.pwCnt != ctx.pwAssignCnt || wk.wCnt != ctx.wAssignCnt {
		return nil, nil, errCntMismatch
	}
	for i := ctx.pwAssignCnt; i < ctx.pwCnt; i++ {
		pw[i] = make(PublicWitness[E], ctx.rank)
		for j := 0; j < ctx.rank; j++ {
			pw[i][j] = z.New()
		}
	}
	for i := ctx.wAssignCnt; i < ctx.wCnt; i++ {
		w[i] = make(Witness[E], ctx.rank)
		for j := 0; j < ctx.rank; j++ {
			w[i][j] = z.New()
		}
	}
	return pw, w, nil
}

// staged: jindo.Commit/1 fs.chal xof prover.arith prover.linQuo prover.linLo prover.linHi prover.sumQuo prover.sumLo prover.sumHi ?jindo.Eval/2 ?jindo.Eval/3 ?jindo.Eval/4
func specProve[E bignum.Uint[E]](p *Prover[E], emb int, c Circuit[E]) (*Proof[E], error) {
	specAssumeP(p, emb)
	specSetupP(p, emb)
	specSplit(p.ctx.HasArithmeticCheck())
	specSplit(p.ctx.HasLinearCheck())
	specSplit(p.ctx.HasSumCheck())
	var z E
	ctx := p.ctx
	if ctx.circType != reflect.TypeOf(c).Elem() {
		return nil, errCntMismatch
	}
	pw, w, err := specWitnesses(p, c)
	if err != nil {
		return nil, err
	}
	q := z.New().SetInt64(-1).BigInt(new(big.Int))
	q.Add(q, big.NewInt(1))

	// digits of norm constraints
	for id, bounds := range ctx.infDcmpBound {
		for k := 0; k < len(bounds); k++ {
			base := decomposeBase(bounds[k])
			for i := 0; i < ctx.rank; i++ {
				d := decomposeBig(w[id][i].BigInt(new(big.Int)), base, q)
				ids := ctx.infDcmpWitness[id][k]
				for j := 0; j < len(ids); j++ {
					w[witnessToID(ids[j])][i].SetInt64(d[j])
				}
			}
		}
	}
	for id, bounds := range ctx.twoDcmpBound {
		for k := 0; k < len(bounds); k++ {
			base := decomposeBase(bounds[k])
			bID := witnessToID(ctx.twoDcmpBase[id][k])
			mID := witnessToID(ctx.twoDcmpMask[id][k])
			for i := 0; i < len(base); i++ {
				pw[bID][i].SetBigInt(base[i])
				pw[mID][i].SetInt64(1)
			}
			norm := big.NewInt(0)
			for i := 0; i < ctx.rank; i++ {
				x := w[id][i].BigInt(new(big.Int))
				norm.Add(norm, new(big.Int).Mul(x, x))
			}
			d := decomposeBig(new(big.Int).Mod(norm, q), base, q)
			dID := witnessToID(ctx.twoDcmpWitness[id][k])
			for i := 0; i < len(d); i++ {
				w[dID][i].SetInt64(d[i])
			}
		}
	}

	t := fiatshamir.NewTranscript(sha256.New(), "projConst", "arithBatchConst", "linCheckBatchConst", "linCheckConst", "sumCheckBatchConst", "evalPoint")
	coms := make([]*jindo.Commitment, ctx.batch())
	opens := make([]*jindo.Opening, ctx.batch())
	polys := make([][]E, ctx.batch())
	commit := func(name string, i uint64, v []E) {
		polys[i] = v
		coms[i], opens[i] = p.polyProver.Commit(v)
		var buf bytes.Buffer
		coms[i].WriteRawTo(&buf)
		t.Bind(name, buf.Bytes())
	}
	wd := witnessData[E]{pw: pw, w: w}
	wd.pwEcd = make([]*bigpoly.Poly[E], len(pw))
	wd.pwEcdNTT = make([]*bigpoly.Poly[E], len(pw))
	for i := 0; i < len(pw); i++ {
		wd.pwEcd[i] = p.ecd.Encode(pw[i])
		wd.pwEcdNTT[i] = p.polyEval.NTT(wd.pwEcd[i])
		t.Bind("projConst", wd.pwEcd[i].Marshal())
	}
	wd.wEcd = make([]*bigpoly.Poly[E], len(w))
	wd.wEcdNTT = make([]*bigpoly.Poly[E], len(w))
	for i := uint64(0); i < ctx.wCnt; i++ {
		if specSecond(ctx, i) {
			continue
		}
		wd.wEcd[i] = p.ecd.RandEncode(w[i])
		wd.wEcdNTT[i] = p.polyEval.NTT(wd.wEcd[i])
		commit("projConst", i, wd.wEcd[i].Coeffs[:ctx.rank+1])
	}
	proj, err := t.ComputeChallenge("projConst")
	if err != nil {
		return nil, err
	}
	if ctx.projChecker != nil {
		chk := ctx.projChecker.(*projChecker[E])
		xof := sha3.NewSHAKE128()
		xof.Write(proj)
		for j := 0; j < ctx.rank; j++ {
			var b [32]byte
			xof.Read(b[:])
			for i := 0; i < 128; i++ {
				chk.proj[i][j] = b[i>>3]&(1<<(i&7)) == 0
			}
		}
		for id, ws := range ctx.projWitness {
			for k := 0; k < len(ws); k++ {
				chk.TransformTo(w[witnessToID(ws[k])], w[id])
			}
		}
		for id, wDcmp := range ctx.projInfDcmpWitness {
			base := decomposeBase(ctx.projInfDcmpBound[id])
			dID := witnessToID(wDcmp)
			for i := 0; i < 128; i++ {
				d := decomposeBig(w[id][i].BigInt(new(big.Int)), base, q)
				for j := 0; j < len(base); j++ {
					w[dID][i*len(base)+j].SetInt64(d[j])
				}
			}
		}
	}
	for _, x := range ctx.wSecond {
		i := witnessToID(x)
		wd.wEcd[i] = p.ecd.RandEncode(w[i])
		wd.wEcdNTT[i] = p.polyEval.NTT(wd.wEcd[i])
		commit("arithBatchConst", i, wd.wEcd[i].Coeffs[:ctx.rank+1])
	}
	n := ctx.wCnt
	var linMask, sumMask *bigpoly.Poly[E]
	var linSum, sumSum E
	if ctx.HasLinearCheck() {
		linMask, linSum = p.sumCheckMask(2 * ctx.rank)
		commit("arithBatchConst", n, linMask.Coeffs[:2*ctx.rank])
		t.Bind("arithBatchConst", linSum.Marshal())
		n++
	}
	if ctx.HasSumCheck() {
		sumMask, sumSum = p.sumCheckMask(ctx.sumCheckMaxRank)
		commit("arithBatchConst", n, sumMask.Coeffs[:ctx.sumCheckMaxRank])
		t.Bind("arithBatchConst", sumSum.Marshal())
		n++
	}
	arithB, err := t.ComputeChallenge("arithBatchConst")
	if err != nil {
		return nil, err
	}
	if ctx.HasArithmeticCheck() {
		commit("evalPoint", n, p.arithCheck(z.New().SetBytes(arithB), wd))
		n++
	}
	linB, err := t.ComputeChallenge("linCheckBatchConst")
	if err != nil {
		return nil, err
	}
	linC, err := t.ComputeChallenge("linCheckConst")
	if err != nil {
		return nil, err
	}
	if ctx.HasLinearCheck() {
		quo, lo, hi := p.linCheck(z.New().SetBytes(linB), z.New().SetBytes(linC), linMask, wd)
		commit("evalPoint", n, quo)
		commit("evalPoint", n+1, lo)
		commit("evalPoint", n+2, hi)
		n += 3
	}
	sumB, err := t.ComputeChallenge("sumCheckBatchConst")
	if err != nil {
		return nil, err
	}
	if ctx.HasSumCheck() {
		quo, lo, hi := p.sumCheck(z.New().SetBytes(sumB), sumMask, wd)
		commit("evalPoint", n, quo)
		commit("evalPoint", n+1, lo)
		commit("evalPoint", n+2, hi)
		n += 3
	}
	pt, err := t.ComputeChallenge("evalPoint")
	if err != nil {
		return nil, err
	}
	evals, pf := p.polyProver.Evaluate(z.New().SetBytes(pt), polys, coms, opens)
	return &Proof[E]{Witness: coms, LinCheckMaskSum: linSum, SumCheckMaskSum: sumSum, Evals: evals, EvalProof: pf}, nil
}

// ---------- linear checkers ----------

// randomProj is a projection with the given choice of entries.
func randomProj[E bignum.Uint[E]](rank int, bit func(i, j int) bool) *projChecker[E] {
	c := newProjChecker[E](rank).(*projChecker[E])
	for i := 0; i < 128; i++ {
		for j := 0; j < rank; j++ {
			c.proj[i][j] = bit(i, j)
		}
	}
	return c
}

func codeProj[E bignum.Uint[E]](rank int, out, v []E) {
	newProjChecker[E](rank).(*projChecker[E]).TransformTo(out, v)
}

// specProj: a new projection selects nothing.
// through: buckler.newProjChecker
func specProj[E bignum.Uint[E]](rank int, out, v []E) {
	for i := 0; i < 128; i++ {
		out[i].SetUint64(0)
	}
	for i := 128; i < len(out); i++ {
		out[i].SetUint64(0)
	}
}

func codeProjMul[E bignum.Uint[E]](rank int, bits [][]bool, out, v []E) {
	randomProj[E](rank, func(i, j int) bool { return bits[i][j] }).TransformTo(out, v)
}

// specProjMul is the product with the matrix of selected entries.
// through: buckler.newProjChecker
func specProjMul[E bignum.Uint[E]](rank int, bits [][]bool, out, v []E) {
	var z E
	for i := 0; i < 128; i++ {
		s := z.New()
		for j := 0; j < rank; j++ {
			if bits[i][j] {
				s.Add(s, v[j])
			}
		}
		out[i].Set(s)
	}
	for i := 128; i < len(out); i++ {
		out[i].SetUint64(0)
	}
}

func codeProjTr[E bignum.Uint[E]](rank int, bits [][]bool, out, v []E) {
	randomProj[E](rank, func(i, j int) bool { return bits[i][j] }).TransposeTo(out, v)
}

// specProjTr is the product with the transpose of the same matrix.
// through: buckler.newProjChecker
func specProjTr[E bignum.Uint[E]](rank int, bits [][]bool, out, v []E) {
	var z E
	for j := 0; j < rank; j++ {
		s := z.New()
		for i := 0; i < 128; i++ {
			if bits[i][j] {
				s.Add(s, v[i])
			}
		}
		out[j].Set(s)
	}
}

func codeRecomp[E bignum.Uint[E]](bound *big.Int, out, v []E) {
	newProjRecomposeChecker[E](bound).(*projRecomposeChecker[E]).TransformTo(out, v)
}

// specRecomp recomposes consecutive runs of digits.
// through: buckler.newProjRecomposeChecker
func specRecomp[E bignum.Uint[E]](bound *big.Int, out, v []E) {
	var z E
	base := decomposeBase(bound)
	n := len(base)
	for i := 0; i < len(out); i++ {
		s := z.New()
		if i < len(out)/n {
			for j := 0; j < n; j++ {
				s.Add(s, z.New().Mul(z.New().SetBigInt(base[j]), v[i*n+j]))
			}
		}
		out[i].Set(s)
	}
}

func codeRecompTr[E bignum.Uint[E]](bound *big.Int, out, v []E) {
	newProjRecomposeChecker[E](bound).(*projRecomposeChecker[E]).TransposeTo(out, v)
}

// specRecompTr spreads every value over the digits it stands for.
// through: buckler.newProjRecomposeChecker
func specRecompTr[E bignum.Uint[E]](bound *big.Int, out, v []E) {
	var z E
	base := decomposeBase(bound)
	n := len(base)
	for k := 0; k < len(out); k++ {
		s := z.New()
		if k < len(out)/n*n {
			s.Mul(z.New().SetBigInt(base[k%n]), v[k/n])
		}
		out[k].Set(s)
	}
}

func codeNTTFwd[E bignum.Uint[E]](rank int, out, v []E) {
	NewNTTChecker[E](rank).(*nttChecker[E]).TransformTo(out, v)
}

func specNTTFwd[E bignum.Uint[E]](rank int, out, v []E) {
	bigpoly.NewCyclotomicTransformer[E](rank).FwdNTTTo(out, v)
}

func codeNTTTr[E bignum.Uint[E]](rank int, out, v []E) {
	NewNTTChecker[E](rank).(*nttChecker[E]).TransposeTo(out, v)
}

// specNTTTr: entry i of the transform is the value at the root with exponent 2*rev(i)+1, and
// rev(rank-1-i) = rank-1-rev(i), so that reversing the values inverts the roots.
func specNTTTr[E bignum.Uint[E]](rank int, out, v []E) {
	var z E
	for i := 0; i < rank; i++ {
		out[i].Mul(z.New().SetUint64(uint64(rank)), v[rank-1-i])
	}
	bigpoly.NewCyclotomicTransformer[E](rank).InvNTTTo(out, out)
}

func codeAutFwd[E bignum.Uint[E]](rank, idx int, ntt bool, out, v []E) {
	NewAutChecker(bigpoly.NewCyclotomicEvaluator[E](rank), idx, ntt).(*autChecker[E]).TransformTo(out, v)
}

func specAutFwd[E bignum.Uint[E]](rank, idx int, ntt bool, out, v []E) {
	modInverse(uint64(idx), uint64(2*rank))
	p := &bigpoly.Poly[E]{Coeffs: v, IsNTT: ntt}
	o := &bigpoly.Poly[E]{Coeffs: out}
	bigpoly.NewCyclotomicEvaluator[E](rank).AutTo(o, p, idx)
}

func codeAutTr[E bignum.Uint[E]](rank, idx int, ntt bool, out, v []E) {
	NewAutChecker(bigpoly.NewCyclotomicEvaluator[E](rank), idx, ntt).(*autChecker[E]).TransposeTo(out, v)
}

// specAutTr: an automorphism permutes monomials up to sign, and so does its inverse, which is its
// transpose.
func specAutTr[E bignum.Uint[E]](rank, idx int, ntt bool, out, v []E) {
	inv := modInverse(uint64(idx), uint64(2*rank))
	p := &bigpoly.Poly[E]{Coeffs: v, IsNTT: ntt}
	o := &bigpoly.Poly[E]{Coeffs: out}
	bigpoly.NewCyclotomicEvaluator[E](rank).AutTo(o, p, int(inv))
}

func codeModInv(x, m uint64) uint64 { return modInverse(x, m) }

// specModInv is Euclid's algorithm; u*x and v*x stay congruent to a and b modulo m.
func specModInv(x, m uint64) uint64 {
	a, b := x%m, m
	u, v := uint64(1), uint64(0)
	for b > 0 {
		q := a / b
		r := a - b*q
		w := u - v*q
		a, u = b, v
		b, v = r, w
	}
	if a == 1 {
		return u % m
	}
	panic("not invertible")
}

// ---------- walks over circuits and assignments ----------

// The walk of a part, which the analyzer knows.
func firstWalkPart[E bignum.Uint[E]](w *walker[E], v reflect.Value) error { return nil }
func prvWalkPart[E bignum.Uint[E]](w *walker[E], prv *Prover[E], v reflect.Value, pw []PublicWitness[E], sw []Witness[E]) error {
	return nil
}
func vrfWalkPart[E bignum.Uint[E]](w *walker[E], vrf *Verifier[E], v reflect.Value, pw []PublicWitness[E]) error {
	return nil
}

func codeFirstWalk[E bignum.Uint[E]](w *walker[E], v reflect.Value) error { return w.firstWalk(v) }

// specFirstWalk numbers the witnesses in the order in which they are met.
// through: buckler.walker.firstWalk
func specFirstWalk[E bignum.Uint[E]](w *walker[E], v reflect.Value) error {
	if v.Type() == reflect.TypeOf(PublicWitness[E]{}) {
		if !v.CanSet() {
			return errReadOnly
		}
		v.Set(reflect.ValueOf(idToWitness[E, PublicWitness[E]](w.pwCnt)))
		w.pwCnt = w.pwCnt + 1
		return nil
	}
	if v.Type() == reflect.TypeOf(Witness[E]{}) {
		if !v.CanSet() {
			return errReadOnly
		}
		v.Set(reflect.ValueOf(idToWitness[E, Witness[E]](w.wCnt)))
		w.wCnt = w.wCnt + 1
		return nil
	}
	return specParts(v, func(p reflect.Value) error { return firstWalkPart(w, p) })
}

// specParts visits the parts of a value until one fails.
func specParts(v reflect.Value, visit func(reflect.Value) error) error {
	k := v.Kind()
	if k == reflect.Pointer || k == reflect.Interface {
		if v.IsNil() {
			return nil
		}
		return visit(v.Elem())
	}
	if k == reflect.Struct {
		for i := 0; i < v.NumField(); i++ {
			if err := visit(v.Field(i)); err != nil {
				return err
			}
		}
		return nil
	}
	if k == reflect.Slice || k == reflect.Array {
		for i := 0; i < v.Len(); i++ {
			if err := visit(v.Index(i)); err != nil {
				return err
			}
		}
		return nil
	}
	if k == reflect.Invalid {
		return errReadOnly
	}
	return nil
}

func codePrvWalk[E bignum.Uint[E]](w *walker[E], prv *Prover[E], v reflect.Value, pw []PublicWitness[E], sw []Witness[E]) error {
	err := w.prvWalk(prv, v, pw, sw)
	if err != nil {
		// what a failed walk leaves behind is not used
		if w.pwCnt < uint64(len(pw)) {
			pw[w.pwCnt] = nil
		}
		if w.wCnt < uint64(len(sw)) {
			sw[w.wCnt] = nil
		}
	}
	return err
}

// specPrvWalk collects the witnesses in the order in which the circuit numbered them.
// through: buckler.walker.prvWalk
func specPrvWalk[E bignum.Uint[E]](w *walker[E], prv *Prover[E], v reflect.Value, pw []PublicWitness[E], sw []Witness[E]) error {
	err := specPrvCollect(w, prv, v, pw, sw)
	if err != nil {
		if w.pwCnt < uint64(len(pw)) {
			pw[w.pwCnt] = nil
		}
		if w.wCnt < uint64(len(sw)) {
			sw[w.wCnt] = nil
		}
	}
	return err
}

func specPrvCollect[E bignum.Uint[E]](w *walker[E], prv *Prover[E], v reflect.Value, pw []PublicWitness[E], sw []Witness[E]) error {
	if v.Type() == reflect.TypeOf(PublicWitness[E]{}) {
		if w.pwCnt >= prv.ctx.pwAssignCnt {
			return errCntMismatch
		}
		x := v.Interface().(PublicWitness[E])
		pw[w.pwCnt] = x
		if len(x) != prv.ctx.rank {
			return errRankMismatch
		}
		w.pwCnt = w.pwCnt + 1
		return nil
	}
	if v.Type() == reflect.TypeOf(Witness[E]{}) {
		if w.wCnt >= prv.ctx.wAssignCnt {
			return errCntMismatch
		}
		x := v.Interface().(Witness[E])
		sw[w.wCnt] = x
		if len(x) != prv.ctx.rank {
			return errRankMismatch
		}
		w.wCnt = w.wCnt + 1
		return nil
	}
	return specParts(v, func(p reflect.Value) error { return prvWalkPart(w, prv, p, pw, sw) })
}

func codeVrfWalk[E bignum.Uint[E]](w *walker[E], vrf *Verifier[E], v reflect.Value, pw []PublicWitness[E]) error {
	err := w.vrfWalk(vrf, v, pw)
	if err != nil && w.pwCnt < uint64(len(pw)) {
		pw[w.pwCnt] = nil // what a failed walk leaves behind is not used
	}
	return err
}

// specVrfWalk collects the public witnesses in the order in which the circuit numbered them.
// through: buckler.walker.vrfWalk
func specVrfWalk[E bignum.Uint[E]](w *walker[E], vrf *Verifier[E], v reflect.Value, pw []PublicWitness[E]) error {
	err := specVrfCollect(w, vrf, v, pw)
	if err != nil && w.pwCnt < uint64(len(pw)) {
		pw[w.pwCnt] = nil
	}
	return err
}

func specVrfCollect[E bignum.Uint[E]](w *walker[E], vrf *Verifier[E], v reflect.Value, pw []PublicWitness[E]) error {
	if v.Type() == reflect.TypeOf(PublicWitness[E]{}) {
		if w.pwCnt >= vrf.ctx.pwAssignCnt {
			return errCntMismatch
		}
		x := v.Interface().(PublicWitness[E])
		pw[w.pwCnt] = x
		if len(x) != vrf.ctx.rank {
			return errRankMismatch
		}
		w.pwCnt = w.pwCnt + 1
		return nil
	}
	return specParts(v, func(p reflect.Value) error { return vrfWalkPart(w, vrf, p, pw) })
}

// ---------- compilation ----------

func codeCompile[E bignum.Uint[E]](rank int, c Circuit[E], crs []byte) (*Prover[E], *Verifier[E], error) {
	return Compile(rank, c, crs)
}

// specCompile numbers the witnesses, collects the constraints and then makes both parties for
// the same sizes, reference string and constraints.
// opaque: jindo.NewParameters jindo.NewProver jindo.NewVerifier buckler.newEncoder math/bigpoly.NewCyclicEvaluator buckler.Context.commitRank buckler.Context.batch
func specCompile[E bignum.Uint[E]](rank int, c Circuit[E], crs []byte) (*Prover[E], *Verifier[E], error) {
	t := reflect.TypeOf(c)
	if t.Kind() != reflect.Pointer {
		return nil, nil, errReadOnly
	}
	w := &walker[E]{circuitType: t.Elem()}
	err := firstWalkPart(w, reflect.ValueOf(c))
	if err != nil {
		return nil, nil, err
	}
	ctx := &Context[E]{rank: rank, pwCnt: w.pwCnt, wCnt: w.wCnt, pwAssignCnt: w.pwCnt, wAssignCnt: w.wCnt, circType: w.circuitType}
	ctx.linCheckConstraints = map[LinearChecker[E]][][2]uint64{}
	ctx.infDcmpBound = map[uint64][]*big.Int{}
	ctx.infDcmpWitness = map[uint64][][]Witness[E]{}
	ctx.twoDcmpBound = map[uint64][]*big.Int{}
	ctx.twoDcmpBase = map[uint64][]PublicWitness[E]{}
	ctx.twoDcmpMask = map[uint64][]PublicWitness[E]{}
	ctx.twoDcmpWitness = map[uint64][]Witness[E]{}
	ctx.projWitness = map[uint64][]Witness[E]{}
	ctx.projInfDcmpBound = map[uint64]*big.Int{}
	ctx.projInfDcmpWitness = map[uint64]Witness[E]{}
	c.Define(ctx)
	size := ctx.arithCheckMaxRank
	if ctx.sumCheckMaxRank > size {
		size = ctx.sumCheckMaxRank
	}
	// the least power of two that holds every product
	emb := 1 << bits.Len(uint(size-1))
	params := jindo.NewParameters[E](ctx.commitRank(), ctx.batch())
	prv := &Prover[E]{JindoParams: params, ctx: ctx}
	prv.polyEval = bigpoly.NewCyclicEvaluator[E](emb)
	prv.ecd = newEncoder[E](rank, emb)
	prv.polyProver = jindo.NewProver[E](params, crs)
	vrf := &Verifier[E]{JindoParams: params, ctx: ctx}
	vrf.polyEval = bigpoly.NewCyclicEvaluator[E](emb)
	vrf.ecd = newEncoder[E](rank, emb)
	vrf.polyVerifier = jindo.NewVerifier[E](params, crs)
	return prv, vrf, nil
}
