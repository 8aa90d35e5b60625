package bigpoly

import (
	"math/big"

	"github.com/sp301415/ringo-snark/math/bignum"
)

// through: math/bigpoly.NewCyclicTransformer
func codeCyclicTr[E bignum.Uint[E]](rank int) *CyclicTransformer[E] {
	return NewCyclicTransformer[E](rank)
}

func specTables[E bignum.Uint[E]](order, n int) (tw, twInv []E) {
	var z E
	q := z.New()
	q.SetBigInt(big.NewInt(-1))
	phi := q.BigInt(new(big.Int))
	p := new(big.Int).Add(phi, big.NewInt(1))
	g := z.New()
	h := new(big.Int)
	for x := big.NewInt(2); x.Cmp(p) < 0; x.Add(x, big.NewInt(1)) {
		h.Exp(x, new(big.Int).Div(phi, big.NewInt(int64(order))), p)
		if new(big.Int).Exp(h, big.NewInt(int64(order/2)), p).Cmp(big.NewInt(1)) != 0 {
			g.SetBigInt(h)
			break
		}
	}
	gInv := z.New().Inverse(g)
	tw = make([]E, n)
	twInv = make([]E, n)
	tw[0] = z.New().SetUint64(1)
	twInv[0] = z.New().SetUint64(1)
	for i := 1; i < n; i++ {
		tw[i] = z.New().Mul(tw[i-1], g)
		twInv[i] = z.New().Mul(twInv[i-1], gInv)
	}
	bitReverseInPlace(tw)
	bitReverseInPlace(twInv)
	return
}

// through: math/bigpoly.NewCyclotomicTransformer
func codeCyclotomicTr[E bignum.Uint[E]](rank int) *CyclotomicTransformer[E] {
	return NewCyclotomicTransformer[E](rank)
}

// through: math/bigpoly.NewCyclotomicTransformer
func specCyclotomicTr[E bignum.Uint[E]](rank int) *CyclotomicTransformer[E] {
	if rank <= 0 || rank&(rank-1) != 0 {
		panic("")
	}
	var z E
	q := z.New()
	q.SetBigInt(big.NewInt(-1))
	if new(big.Int).Mod(q.BigInt(new(big.Int)), big.NewInt(int64(2*rank))).Sign() != 0 {
		panic("")
	}
	tr := &CyclotomicTransformer[E]{rank: rank}
	tr.tw, tr.twInv = specTables[E](2*rank, rank)
	tr.rankInv = z.New().SetUint64(uint64(rank))
	tr.rankInv.Inverse(tr.rankInv)
	return tr
}

// through: math/bigpoly.NewCyclicTransformer
func specCyclicTr[E bignum.Uint[E]](rank int) *CyclicTransformer[E] {
	if rank <= 0 || rank&(rank-1) != 0 {
		panic("")
	}
	var z E
	q := z.New()
	q.SetBigInt(big.NewInt(-1))
	if new(big.Int).Mod(q.BigInt(new(big.Int)), big.NewInt(int64(2*rank))).Sign() != 0 {
		panic("")
	}
	tr := &CyclicTransformer[E]{rank: rank, tw: make([]E, rank), twInv: make([]E, rank)}
	a, b := specTables[E](rank, rank/2)
	for m := 1; m <= rank/2; m *= 2 {
		for i := 0; i < m; i++ {
			tr.tw[m+i] = a[i]
		}
	}
	for m := rank / 2; m >= 1; m /= 2 {
		for i := 0; i < m; i++ {
			tr.twInv[m+i] = b[i]
		}
	}
	tr.rankInv = z.New().SetUint64(uint64(rank))
	tr.rankInv.Inverse(tr.rankInv)
	return tr
}
