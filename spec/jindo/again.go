package jindo

import (
	"math/big"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// Objects that are used again: the parameters named other… are those of the other calls, on which
// the results of a call must not depend.

func specElems[E bignum.Uint[E]](n int) []E {
	var z E
	v := make([]E, n)
	for i := range v {
		v[i] = z.New()
	}
	return v
}

func specInts(n int) []*big.Int {
	v := make([]*big.Int, n)
	for i := range v {
		v[i] = new(big.Int)
	}
	return v
}

// through: jindo.Encoder.randEncodeTo jindo.Encoder.encodeTo jindo.Encoder.baseEncodeTo jindo.Encoder.DecodeTo jindo.RNSReconstructor.reconstructTo
func againEncoder[E bignum.Uint[E]](params Parameters, other []E, otherPoly ring.Poly, otherDev float64, v []E, p ring.Poly, dev float64) (ring.Poly, ring.Poly, []E) {
	specParams(params)
	ecd := newEncoder[E](params)
	ecd.randEncodeTo(params.ringQ.NewPoly(), other, otherDev)
	ecd.encodeTo(params.ringQ.NewPoly(), other)
	ecd.DecodeTo(specElems[E](params.slots), otherPoly)
	x, y, w := params.ringQ.NewPoly(), params.ringQ.NewPoly(), specElems[E](params.slots)
	ecd.randEncodeTo(x, v, dev)
	ecd.encodeTo(y, v)
	ecd.DecodeTo(w, p)
	return x, y, w
}

// through: jindo.RNSReconstructor.reconstructTo jindo.RNSReconstructor.setBigCoeffTo
func againReconstruct(r *ring.Ring, other ring.Poly, otherInts []*big.Int, p ring.Poly, v []*big.Int) ([]*big.Int, ring.Poly) {
	rns := newRNSReconstructor(r)
	rns.reconstructTo(specInts(r.N()), other)
	rns.setBigCoeffTo(r.NewPoly(), otherInts)
	w, q := specInts(r.N()), r.NewPoly()
	rns.reconstructTo(w, p)
	rns.setBigCoeffTo(q, v)
	return w, q
}

func againProver[E bignum.Uint[E]](params Parameters, crs []byte, otherV [][]E, otherX E, v [][]E, x E, com []*Commitment, open []*Opening) (*Commitment, *Opening, []E, *Proof) {
	specParams(params)
	p := NewProver[E](params, crs)
	otherCom, otherOpen := p.Commit(otherV[0])
	p.Evaluate(otherX, otherV, []*Commitment{otherCom}, []*Opening{otherOpen})
	c, o := p.Commit(v[0])
	y, pf := p.Evaluate(x, v, com, open)
	return c, o, y, pf
}

func againVerifier[E bignum.Uint[E]](params Parameters, crs []byte, otherX E, otherCom []*Commitment, otherY []E, otherPf *Proof, x E, com []*Commitment, y []E, pf *Proof) bool {
	specParams(params)
	vrf := NewVerifier[E](params, crs)
	vrf.Verify(otherX, otherCom, otherY, otherPf)
	return vrf.Verify(x, com, y, pf)
}

// what was returned stays as it is while the object is used on
func againKeepProver[E bignum.Uint[E]](params Parameters, crs []byte, otherV [][]E, otherX E, v [][]E, x E, com []*Commitment, open []*Opening) (*Commitment, *Opening, []E, *Proof) {
	specParams(params)
	p := NewProver[E](params, crs)
	c, o := p.Commit(v[0])
	y, pf := p.Evaluate(x, v, com, open)
	otherCom, otherOpen := p.Commit(otherV[0])
	p.Evaluate(otherX, otherV, []*Commitment{otherCom}, []*Opening{otherOpen})
	return c, o, y, pf
}

// through: jindo.Encoder.encodeTo jindo.Encoder.baseEncodeTo
func againKeepEncoder[E bignum.Uint[E]](params Parameters, other, v []E) ring.Poly {
	specParams(params)
	ecd := newEncoder[E](params)
	p := ecd.encode(v)
	ecd.encode(other)
	return p
}
