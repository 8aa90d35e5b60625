package jindo

import "github.com/sp301415/ringo-snark/math/bignum"

func codeProverCopy[E bignum.Uint[E]](params Parameters, crs []byte) *Prover[E] {
	specParams(params)
	return NewProver[E](params, crs).SafeCopy()
}

// specProverCopy: a copy of a new prover is a new prover.
func specProverCopy[E bignum.Uint[E]](params Parameters, crs []byte) *Prover[E] {
	specParams(params)
	return NewProver[E](params, crs)
}

func codeCopyCommit[E bignum.Uint[E]](params Parameters, crs []byte, v []E) (*Commitment, *Opening) {
	specParams(params)
	return NewProver[E](params, crs).SafeCopy().Commit(v)
}

// specCopyCommit: a copy of a prover commits as the prover does.
func specCopyCommit[E bignum.Uint[E]](params Parameters, crs []byte, v []E) (*Commitment, *Opening) {
	specParams(params)
	return NewProver[E](params, crs).Commit(v)
}
