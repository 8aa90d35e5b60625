package main

import (
	"math"
	"math/big"
)

func codeFindModulus(bitStart, bitEnd int) (*big.Int, uint64, uint64) {
	return findModulus(bitStart, bitEnd)
}

func specFindModulus(bitStart, bitEnd int) (*big.Int, uint64, uint64) {
	top := int(math.Ceil(math.Log2(float64(bitEnd))))
	for l := 1; l < top; l++ {
		k := uint64(1) << l
		lo := uint64(math.Floor(math.Exp2((float64(bitStart) - 1) / float64(k))))
		hi := uint64(math.Ceil(math.Exp2(float64(bitEnd) / float64(k))))
		if lo <= 1<<25 {
			for b := lo; b <= min(hi, 1<<25); b++ {
				q := new(big.Int).Exp(new(big.Int).SetUint64(b), new(big.Int).SetUint64(k), nil)
				p := new(big.Int).Add(q, big.NewInt(1))
				if bitStart <= p.BitLen() && p.BitLen() < bitEnd && p.ProbablyPrime(64) && new(big.Int).Mod(q, big.NewInt(1<<31)).Sign() == 0 {
					return p, b, k
				}
			}
		}
	}
	return nil, 0, 0
}
