package buckler

import (
	"math/big"

	"github.com/sp301415/ringo-snark/math/bignum"
)

// Values that the caller goes on using: the parameters named other… are written to them after the
// constraint was added, which must not change it.

// through: buckler.ArithmeticConstraint.AddTermWithConst
func againTerm[E bignum.Uint[E]](coeff, other E, pw PublicWitness[E], w ...Witness[E]) *ArithmeticConstraint[E] {
	c := new(ArithmeticConstraint[E])
	c.AddTermWithConst(coeff, pw, w...)
	coeff.Set(other)
	return c
}

func againSum[E bignum.Uint[E]](rank int, wk *walker[E], c ArithmeticConstraint[E], sum, other *big.Int, coeff, otherE E, w ...Witness[E]) *Context[E] {
	ctx := newContext(rank, wk)
	ctx.AddSumCheckConstraintBig(c, sum)
	sum.Set(other)
	c.AddTermWithConst(otherE, nil, w...)
	return ctx
}

func againArith[E bignum.Uint[E]](rank int, wk *walker[E], c ArithmeticConstraint[E], other E, w ...Witness[E]) *Context[E] {
	ctx := newContext(rank, wk)
	ctx.AddArithmeticConstraint(c)
	c.AddTermWithConst(other, nil, w...)
	return ctx
}

func againInfNorm[E bignum.Uint[E]](rank int, wk *walker[E], w Witness[E], bound, other *big.Int) (*Context[E], []*big.Int) {
	ctx := newContext(rank, wk)
	ctx.AddInfNormConstraintBig(w, bound)
	bound.Set(other)
	return ctx, ctx.infDcmpBound[witnessToID(w)]
}

func againSqNorm[E bignum.Uint[E]](rank int, wk *walker[E], w Witness[E], bound, other *big.Int) (*Context[E], []*big.Int) {
	ctx := newContext(rank, wk)
	ctx.AddSqNormConstraintBig(w, bound)
	bound.Set(other)
	return ctx, ctx.twoDcmpBound[witnessToID(w)]
}

func againApproxNorm[E bignum.Uint[E]](rank int, wk *walker[E], w Witness[E], bound, other *big.Int) (*Context[E], []*big.Int) {
	ctx := newContext(rank, wk)
	ctx.AddApproxInfNormConstraintBig(w, bound)
	bound.Set(other)
	return ctx, []*big.Int{ctx.projInfDcmpBound[ctx.wCnt-2]}
}
