// Reference formulation of the commitment scheme. The analyzer type-checks this file together
// with the package under analysis and compares value graphs; it is never compiled or run.
package jindo

import (
	"crypto/sha3"
	"encoding/binary"
	"math"
	"math/big"
	"math/bits"

	"github.com/sp301415/ringo-snark/math/bignum"
	"github.com/sp301415/ringo-snark/math/bigpoly"
	"github.com/sp301415/ringo-snark/math/csprng"
	"github.com/tuneinsight/lattigo/v6/ring"
)

// ---------- assumptions ----------

func specAssume(c bool)       {}
func specDefine(x int, y int) {}

// specParams states what every complete parameter set satisfies (checked for NewParameters).
func specParams(p Parameters) {
	specAssume(p.batch >= 1)
	specAssume(p.rows >= 2)
	specAssume(p.cols >= 1)
	specAssume(p.slots >= 1)
	specAssume(p.inMSISRank >= 1)
	specAssume(p.outMSISRank >= 1)
	specAssume(p.ecd.exp >= 1)
	specAssume(p.ecd.exp*p.slots <= p.ringQ.N())
	specDefine(p.inComDcmpLen, (p.cols+1)*p.inMSISRank)
	specDefine(p.rank, (p.rows-1)*p.cols*p.slots)
}

// specOpenings states the shape of the openings made by Commit.
func specOpenings(p Parameters, open []*Opening) {
	for i := 0; i < p.batch; i++ {
		specDefine(len(open[i].InCommit), p.inComDcmpLen)
		specDefine(len(open[i].Encode), p.cols+1)
		specDefine(len(open[i].MLWE), p.cols+1)
		for j := 0; j < p.cols+1; j++ {
			specDefine(len(open[i].Encode[j]), p.rows)
			specDefine(len(open[i].MLWE[j]), p.mlweRank+p.inMSISRank)
		}
	}
}

// ---------- verification ----------

func codeVerify[E bignum.Uint[E]](params Parameters, crs []byte, x E, com []*Commitment, y []E, pf *Proof) bool {
	specParams(params)
	return NewVerifier[E](params, crs).Verify(x, com, y, pf)
}

func specValidPoly(r *ring.Ring, p ring.Poly) bool {
	if len(p.Coeffs) != r.ModuliChainLength() {
		return false
	}
	for i := 0; i < len(p.Coeffs); i++ {
		if len(p.Coeffs[i]) != r.N() {
			return false
		}
		for j := 0; j < len(p.Coeffs[i]); j++ {
			if p.Coeffs[i][j] >= r.SubRings[i].Modulus {
				return false
			}
		}
	}
	return true
}

func specValidPolys(r *ring.Ring, p []ring.Poly, n int) bool {
	if len(p) != n {
		return false
	}
	for i := 0; i < n; i++ {
		if !specValidPoly(r, p[i]) {
			return false
		}
	}
	return true
}

func specStatement[E bignum.Uint[E]](crs []byte, x E, com []*Commitment, y []E) *sha3.SHAKE {
	h := sha3.NewSHAKE128()
	h.Write(crs)
	for i := 0; i < len(com); i++ {
		for j := 0; j < len(com[i].Value); j++ {
			com[i].Value[j].WriteTo(h)
		}
	}
	h.Write(x.Marshal())
	for i := 0; i < len(y); i++ {
		h.Write(y[i].Marshal())
	}
	return h
}

func specInv(r *ring.Ring, p ring.Poly) ring.Poly {
	q := r.NewPoly()
	r.IMForm(p, q)
	r.INTT(q, q)
	return q
}

// specNorm is the sum of the squared coefficients of p in balanced representation.
func specNorm[E bignum.Uint[E]](rec *RNSReconstructor, N int, p ring.Poly) *big.Int {
	c := make([]*big.Int, N)
	for i := range c {
		c[i] = new(big.Int)
	}
	rec.reconstructTo(c, p)
	s := new(big.Int)
	for i := range c {
		s.Add(s, new(big.Int).Mul(c[i], c[i]))
	}
	return s
}

func specShort(s *big.Int, bound float64) bool {
	f, _ := new(big.Int).Sqrt(s).Float64()
	return f < bound
}

func specVerify[E bignum.Uint[E]](params Parameters, crs []byte, x E, com []*Commitment, y []E, pf *Proof) bool {
	specParams(params)
	var null E
	r, rOut := params.ringQ, params.ringQOut
	batch, rows, cols, slots := params.batch, params.rows, params.cols, params.slots
	if len(com) != batch || len(y) != batch || pf == nil {
		return false
	}
	if !specValidPolys(rOut, pf.InCommit, params.inComDcmpLen) || !specValidPolys(r, pf.Partial, cols) ||
		!specValidPoly(r, pf.PartialMask) || !specValidPolys(r, pf.Encode, rows) ||
		!specValidPolys(r, pf.MLWE, params.mlweRank+params.inMSISRank) {
		return false
	}
	for i := 0; i < batch; i++ {
		if com[i] == nil || !specValidPolys(rOut, com[i].Value, params.outMSISRank) || any(y[i]) == any(null) {
			return false
		}
	}

	h := specStatement(crs, x, com, y)
	w := make([]ring.Poly, batch)
	wOut := make([]ring.Poly, batch)
	if batch > 1 {
		seed := make([]byte, 16*batch)
		h.Read(seed)
		for i := 0; i < batch; i++ {
			w[i] = r.NewPoly()
			wOut[i] = rOut.NewPoly()
			encodeChallengeTo(params, r, w[i], seed[16*i:16*i+16])
			encodeChallengeTo(params, rOut, wOut[i], seed[16*i:16*i+16])
		}
		h = specStatement(crs, x, com, y)
		h.Write(seed)
	}
	for i := 0; i < cols; i++ {
		pf.Partial[i].WriteTo(h)
	}
	pf.PartialMask.WriteTo(h)
	c := make([]ring.Poly, cols)
	for i := 0; i < cols; i++ {
		b := make([]byte, 16)
		h.Read(b)
		c[i] = r.NewPoly()
		encodeChallengeTo(params, r, c[i], b)
	}

	ck := NewCommitKey(params, crs)
	ecd := newEncoder[E](params)
	rec := newRNSReconstructor(r)
	recOut := newRNSReconstructor(rOut)

	// outer commitment
	cut := rOut.NewRNSScalarFromBigint(new(big.Int).Lsh(big.NewInt(1), uint(params.logOutCutOff)))
	rOut.MFormRNSScalar(cut, cut)
	sq := new(big.Int)
	for i := 0; i < params.inComDcmpLen; i++ {
		sq.Add(sq, specNorm[E](recOut, rOut.N(), specInv(rOut, pf.InCommit[i])))
	}
	for i := 0; i < params.outMSISRank; i++ {
		t := rOut.NewPoly()
		if batch > 1 {
			for j := 0; j < batch; j++ {
				rOut.MulCoeffsMontgomeryThenAdd(com[j].Value[i], wOut[j], t)
			}
		} else {
			t.Copy(com[0].Value[i])
		}
		rOut.MulRNSScalarMontgomery(t, cut, t)
		for j := 0; j < params.inComDcmpLen; j++ {
			rOut.MulCoeffsMontgomeryThenSub(ck.Out[i][j], pf.InCommit[j], t)
		}
		sq.Add(sq, specNorm[E](recOut, rOut.N(), specInv(rOut, t)))
	}
	if !specShort(sq, params.inComDcmpTwoNm) {
		return false
	}

	// inner commitment
	inCut := r.NewRNSScalarFromBigint(new(big.Int).Lsh(big.NewInt(1), uint(params.logInCutOff)))
	r.MFormRNSScalar(inCut, inCut)
	up := ring.NewBasisExtender(rOut, r)
	sq = new(big.Int)
	for i := 0; i < rows; i++ {
		sq.Add(sq, specNorm[E](rec, r.N(), specInv(r, pf.Encode[i])))
	}
	for i := 0; i < params.mlweRank+params.inMSISRank; i++ {
		sq.Add(sq, specNorm[E](rec, r.N(), specInv(r, pf.MLWE[i])))
	}
	for i := 0; i < params.inMSISRank; i++ {
		t := r.NewPoly()
		u := r.NewPoly()
		for j := 0; j < cols; j++ {
			up.ModUpQtoP(rOut.Level(), r.Level(), specInv(rOut, pf.InCommit[j*params.inMSISRank+i]), u)
			r.MForm(u, u)
			r.NTT(u, u)
			r.MulCoeffsMontgomeryThenAdd(u, c[j], t)
		}
		up.ModUpQtoP(rOut.Level(), r.Level(), specInv(rOut, pf.InCommit[cols*params.inMSISRank+i]), u)
		r.MForm(u, u)
		r.NTT(u, u)
		r.Add(t, u, t)
		r.MulRNSScalarMontgomery(t, inCut, t)
		for j := 0; j < rows; j++ {
			r.MulCoeffsMontgomeryThenSub(ck.In[i][j], pf.Encode[j], t)
		}
		for j := 0; j < params.mlweRank; j++ {
			r.MulCoeffsMontgomeryThenSub(ck.MLWE[i][j], pf.MLWE[j], t)
		}
		r.Sub(t, pf.MLWE[params.mlweRank+i], t)
		sq.Add(sq, specNorm[E](rec, r.N(), specInv(r, t)))
	}
	if !specShort(sq, params.resTwoNm) {
		return false
	}

	// consistency of the response with the partial evaluations
	t := r.NewPoly()
	zero := r.NewPoly()
	e := r.NewPoly()
	for i := 0; i < rows-1; i++ {
		ecd.encodeTo(e, []E{bignum.Exp(x, uint64(i*cols*slots))})
		r.MulCoeffsMontgomeryThenAdd(e, pf.Encode[i], t)
	}
	ecd.encodeTo(e, []E{x})
	r.MulCoeffsMontgomeryThenAdd(e, pf.Encode[rows-1], t)
	for i := 0; i < cols; i++ {
		r.MulCoeffsMontgomeryThenSub(c[i], pf.Partial[i], t)
	}
	r.Sub(t, pf.PartialMask, t)
	if !t.Equal(&zero) {
		return false
	}

	// the partial evaluations add up to the claimed value
	yy := x.New()
	if batch > 1 {
		for i := 0; i < batch; i++ {
			d := make([]E, slots)
			for j := range d {
				d[j] = x.New()
			}
			ecd.DecodeTo(d, specInv(r, w[i]))
			yy.Add(yy, x.New().Mul(d[0], y[i]))
		}
	} else {
		yy.Set(y[0])
	}
	s := x.New()
	for i := 0; i < cols; i++ {
		d := make([]E, slots)
		for j := range d {
			d[j] = x.New()
		}
		ecd.DecodeTo(d, specInv(r, pf.Partial[i]))
		for j := 0; j < slots; j++ {
			s.Add(s, x.New().Mul(d[j], bignum.Exp(x, uint64(i*slots+j))))
		}
	}
	return s.Cmp(yy) == 0
}

// ---------- commitment ----------

func codeCommit[E bignum.Uint[E]](params Parameters, crs []byte, v []E) (*Commitment, *Opening) {
	specParams(params)
	specAssume(len(v) >= 1)
	return NewProver[E](params, crs).Commit(v)
}

func specCommit[E bignum.Uint[E]](params Parameters, crs []byte, v []E) (*Commitment, *Opening) {
	specParams(params)
	specAssume(len(v) >= 1) // the first entry is always read
	if len(v) > params.rank {
		panic("too long")
	}
	var z E
	r, rOut := params.ringQ, params.ringQOut
	rows, cols, slots := params.rows, params.cols, params.slots
	ck := NewCommitKey(params, crs)
	ecd := newEncoder[E](params)
	rec := newRNSReconstructor(r)
	recOut := newRNSReconstructor(rOut)
	rounded := csprng.NewRoundedGaussianSampler()
	cdt := csprng.NewTwinCDTGaussianSampler(params.mlweStdDev)

	com := &Commitment{Value: make([]ring.Poly, params.outMSISRank)}
	open := &Opening{
		InCommit: make([]ring.Poly, params.inComDcmpLen),
		Encode:   make([][]ring.Poly, cols+1),
		MLWE:     make([][]ring.Poly, cols+1),
	}
	for i := range open.InCommit {
		open.InCommit[i] = rOut.NewPoly()
	}

	// the last row is random, the first row is corrected by it
	last := make([]E, cols*slots)
	first := make([]E, cols*slots)
	for i := 0; i < cols*slots-1; i++ {
		last[i] = z.New().MustSetRandom()
	}
	last[cols*slots-1] = z.New()
	first[0] = z.New().Set(v[0])
	for i := 1; i < cols*slots; i++ {
		first[i] = z.New()
		if i < len(v) {
			first[i].Sub(v[i], last[i-1])
		} else {
			first[i].Neg(last[i-1])
		}
	}

	for i := 0; i < cols+1; i++ {
		open.Encode[i] = make([]ring.Poly, rows)
		open.MLWE[i] = make([]ring.Poly, params.mlweRank+params.inMSISRank)
		for j := range open.Encode[i] {
			open.Encode[i][j] = r.NewPoly()
		}
		for j := range open.MLWE[i] {
			open.MLWE[i][j] = r.NewPoly()
		}
		if i < cols {
			ecd.randEncodeTo(open.Encode[i][0], first[i*slots:(i+1)*slots], params.ecdBlindStdDev)
			for j := 1; j < rows-1; j++ {
				lo := (j*cols + i) * slots
				if lo <= len(v) {
					ecd.randEncodeTo(open.Encode[i][j], v[lo:min(lo+slots, len(v))], params.ecdStdDev)
				}
			}
			ecd.randEncodeTo(open.Encode[i][rows-1], last[i*slots:(i+1)*slots], params.ecdStdDev)
		} else {
			ecd.randEncodeTo(open.Encode[i][0], specRandom[E](slots), params.maskBlindStdDev)
			for j := 1; j < rows-1; j++ {
				if j*cols*slots <= len(v) {
					ecd.randEncodeTo(open.Encode[i][j], specRandom[E](slots), params.maskStdDev)
				}
			}
			ecd.randEncodeTo(open.Encode[i][rows-1], specRandom[E](slots), params.maskStdDev)
		}
		for j := range open.MLWE[i] {
			for k := 0; k < r.N(); k++ {
				if i < cols {
					setCoeffSigned(r, open.MLWE[i][j], cdt.Sample(0), k)
				} else {
					setCoeffSigned(r, open.MLWE[i][j], rounded.Sample(0, params.maskMLWEStdDev), k)
				}
			}
			r.MForm(open.MLWE[i][j], open.MLWE[i][j])
			r.NTT(open.MLWE[i][j], open.MLWE[i][j])
		}

		for j := 0; j < params.inMSISRank; j++ {
			t := r.NewPoly()
			for k := 0; k < rows; k++ {
				r.MulCoeffsMontgomeryThenAdd(ck.In[j][k], open.Encode[i][k], t)
			}
			for k := 0; k < params.mlweRank; k++ {
				r.MulCoeffsMontgomeryThenAdd(ck.MLWE[j][k], open.MLWE[i][k], t)
			}
			r.Add(t, open.MLWE[i][params.mlweRank+j], t)
			specShift(rec, recOut, r, rOut, open.InCommit[i*params.inMSISRank+j], specInv(r, t), params.logInCutOff)
		}
	}

	for i := range com.Value {
		com.Value[i] = rOut.NewPoly()
		t := rOut.NewPoly()
		for j := range open.InCommit {
			rOut.MulCoeffsMontgomeryThenAdd(ck.Out[i][j], open.InCommit[j], t)
		}
		specShift(recOut, recOut, rOut, rOut, com.Value[i], specInv(rOut, t), params.logOutCutOff)
	}
	return com, open
}

func specRandom[E bignum.Uint[E]](n int) []E {
	var z E
	m := make([]E, n)
	for k := range m {
		m[k] = z.New().MustSetRandom()
	}
	return m
}

// specShift drops the lowest bits of every coefficient of t.
func specShift(rec, recOut *RNSReconstructor, r, rOut *ring.Ring, out, t ring.Poly, bits uint64) {
	c := make([]*big.Int, r.N())
	for k := range c {
		c[k] = new(big.Int)
	}
	rec.reconstructTo(c, t)
	for k := range c {
		c[k].Rsh(c[k], uint(bits))
	}
	recOut.setBigCoeffTo(out, c)
	rOut.MForm(out, out)
	rOut.NTT(out, out)
}

// ---------- evaluation ----------

func codeEvaluate[E bignum.Uint[E]](params Parameters, crs []byte, x E, v [][]E, com []*Commitment, open []*Opening) ([]E, *Proof) {
	specParams(params)
	specOpenings(params, open)
	return NewProver[E](params, crs).Evaluate(x, v, com, open)
}

func specEvaluate[E bignum.Uint[E]](params Parameters, crs []byte, x E, v [][]E, com []*Commitment, open []*Opening) ([]E, *Proof) {
	specParams(params)
	specOpenings(params, open)
	r, rOut := params.ringQ, params.ringQOut
	batch, rows, cols, slots := params.batch, params.rows, params.cols, params.slots
	if len(v) != len(com) || len(v) != len(open) || len(v) != batch {
		panic("lengths")
	}
	for i := 0; i < batch; i++ {
		if len(v[i]) > params.rank {
			panic("too long")
		}
	}
	ecd := newEncoder[E](params)
	y := make([]E, batch)
	for i := 0; i < batch; i++ {
		y[i] = (&bigpoly.Poly[E]{Coeffs: v[i]}).Evaluate(x)
	}
	h := specStatement(crs, x, com, y)
	w := make([]ring.Poly, batch)
	wOut := make([]ring.Poly, batch)
	if batch > 1 {
		seed := make([]byte, 16*batch)
		h.Read(seed)
		for i := 0; i < batch; i++ {
			w[i] = r.NewPoly()
			wOut[i] = rOut.NewPoly()
			encodeChallengeTo(params, r, w[i], seed[16*i:16*i+16])
			encodeChallengeTo(params, rOut, wOut[i], seed[16*i:16*i+16])
		}
		h = specStatement(crs, x, com, y)
		h.Write(seed)
	}

	pf := &Proof{
		InCommit:    make([]ring.Poly, params.inComDcmpLen),
		Partial:     make([]ring.Poly, cols),
		PartialMask: r.NewPoly(),
		Encode:      make([]ring.Poly, rows),
		MLWE:        make([]ring.Poly, params.mlweRank+params.inMSISRank),
	}
	inCom := make([]ring.Poly, params.inComDcmpLen)
	for k := range inCom {
		inCom[k] = rOut.NewPoly()
		if batch > 1 {
			for i := 0; i < batch; i++ {
				rOut.MulCoeffsMontgomeryThenAdd(open[i].InCommit[k], wOut[i], inCom[k])
			}
		} else {
			inCom[k].Copy(open[0].InCommit[k])
		}
		pf.InCommit[k] = *inCom[k].CopyNew()
	}
	enc := make([][]ring.Poly, cols+1)
	mlwe := make([][]ring.Poly, cols+1)
	for j := 0; j < cols+1; j++ {
		enc[j] = make([]ring.Poly, rows)
		mlwe[j] = make([]ring.Poly, params.mlweRank+params.inMSISRank)
		for k := range enc[j] {
			enc[j][k] = r.NewPoly()
			if batch > 1 {
				for i := 0; i < batch; i++ {
					r.MulCoeffsMontgomeryThenAdd(open[i].Encode[j][k], w[i], enc[j][k])
				}
			} else {
				enc[j][k].Copy(open[0].Encode[j][k])
			}
		}
		for k := range mlwe[j] {
			mlwe[j][k] = r.NewPoly()
			if batch > 1 {
				for i := 0; i < batch; i++ {
					r.MulCoeffsMontgomeryThenAdd(open[i].MLWE[j][k], w[i], mlwe[j][k])
				}
			} else {
				mlwe[j][k].Copy(open[0].MLWE[j][k])
			}
		}
	}

	// partial evaluations of the rows
	partial := make([]ring.Poly, cols+1)
	for i := 0; i < cols+1; i++ {
		partial[i] = r.NewPoly()
		for j := 0; j < rows-1; j++ {
			r.MulCoeffsMontgomeryThenAdd(ecd.encode([]E{bignum.Exp(x, uint64(j*cols*slots))}), enc[i][j], partial[i])
		}
		r.MulCoeffsMontgomeryThenAdd(ecd.encode([]E{x}), enc[i][rows-1], partial[i])
	}
	for i := 0; i < cols; i++ {
		pf.Partial[i] = partial[i]
	}
	pf.PartialMask = partial[cols]
	for i := 0; i < cols; i++ {
		pf.Partial[i].WriteTo(h)
	}
	pf.PartialMask.WriteTo(h)
	c := make([]ring.Poly, cols)
	for i := 0; i < cols; i++ {
		b := make([]byte, 16)
		h.Read(b)
		c[i] = r.NewPoly()
		encodeChallengeTo(params, r, c[i], b)
	}

	// responses
	for k := range pf.Encode {
		pf.Encode[k] = *enc[cols][k].CopyNew()
		for j := 0; j < cols; j++ {
			r.MulCoeffsMontgomeryThenAdd(c[j], enc[j][k], pf.Encode[k])
		}
	}
	for k := range pf.MLWE {
		pf.MLWE[k] = *mlwe[cols][k].CopyNew()
		for j := 0; j < cols; j++ {
			r.MulCoeffsMontgomeryThenAdd(c[j], mlwe[j][k], pf.MLWE[k])
		}
	}
	return y, pf
}

// ---------- keys ----------

// through: jindo.NewCommitKey
func codeCommitKey(params Parameters, crs []byte) *CommitKey {
	specParams(params)
	return NewCommitKey(params, crs)
}

func specUniform(r *ring.Ring, u *csprng.UniformSampler, n, m int) [][]ring.Poly {
	a := make([][]ring.Poly, n)
	for i := 0; i < n; i++ {
		a[i] = make([]ring.Poly, m)
		for j := 0; j < m; j++ {
			a[i][j] = r.NewPoly()
			for k := 0; k < r.N(); k++ {
				for l := 0; l < r.ModuliChainLength(); l++ {
					a[i][j].Coeffs[l][k] = u.SampleN(r.SubRings[l].Modulus)
				}
			}
		}
	}
	return a
}

// through: jindo.NewCommitKey
func specCommitKey(params Parameters, crs []byte) *CommitKey {
	specParams(params)
	u := csprng.NewUniformSamplerWithSeed(crs)
	ck := &CommitKey{crs: append([]byte{}, crs...)}
	ck.In = specUniform(params.ringQ, u, params.inMSISRank, params.rows)
	ck.MLWE = specUniform(params.ringQ, u, params.inMSISRank, params.mlweRank)
	ck.Out = specUniform(params.ringQOut, u, params.outMSISRank, params.inComDcmpLen)
	return ck
}

// ---------- encodings ----------

// specBase is base encoding: the digits of v[i] go to the coefficients i, i+slots, ...
func specBase[E bignum.Uint[E]](params Parameters, out ring.Poly, v []E) {
	if len(v) > params.slots {
		panic("too long")
	}
	for i := 0; i < params.slots; i++ {
		if i < len(v) {
			c := make([]uint64, v[i].Limb())
			v[i].Slice(c)
			for j := 0; j < params.ecd.exp-1; j++ {
				d := divMod64(c, params.ecd.base)
				for k := 0; k <= out.Level(); k++ {
					out.Coeffs[k][j*params.slots+i] = d
				}
			}
			for k := 0; k <= out.Level(); k++ {
				out.Coeffs[k][(params.ecd.exp-1)*params.slots+i] = c[0]
			}
		} else {
			for j := 0; j < params.ecd.exp; j++ {
				for k := 0; k <= out.Level(); k++ {
					out.Coeffs[k][j*params.slots+i] = 0
				}
			}
		}
	}
}

// through: jindo.encodeChallengeTo
func codeChallenge(params Parameters, r *ring.Ring, seed []byte) ring.Poly {
	specParams(params)
	p := r.NewPoly()
	encodeChallengeTo(params, r, p, seed)
	return p
}

// through: jindo.encodeChallengeTo
func specChallenge(params Parameters, r *ring.Ring, seed []byte) ring.Poly {
	specParams(params)
	p := r.NewPoly()
	c := []uint64{binary.BigEndian.Uint64(seed[:8]), binary.BigEndian.Uint64(seed[8:])}
	bound := params.ChallengeBound()
	m := 2*bound + 1
	for i := 0; i < params.ecd.exp; i++ {
		d := divMod64(c, m)
		for k := 0; k <= p.Level(); k++ {
			if d <= bound {
				p.Coeffs[k][i*params.slots] = d
			} else {
				p.Coeffs[k][i*params.slots] = r.SubRings[k].Modulus - (m - d)
			}
		}
	}
	r.MForm(p, p)
	r.NTT(p, p)
	return p
}

// through: jindo.Encoder.encodeTo jindo.Encoder.baseEncodeTo
func codeEncode[E bignum.Uint[E]](params Parameters, v []E) ring.Poly {
	specParams(params)
	return newEncoder[E](params).encode(v)
}

// through: jindo.Encoder.encodeTo jindo.Encoder.baseEncodeTo
func specEncode[E bignum.Uint[E]](params Parameters, v []E) ring.Poly {
	specParams(params)
	p := params.ringQ.NewPoly()
	specBase(params, p, v)
	params.ringQ.MForm(p, p)
	params.ringQ.NTT(p, p)
	return p
}

// through: jindo.Encoder.DecodeTo
func codeDecode[E bignum.Uint[E]](params Parameters, v []E, p ring.Poly) []E {
	specParams(params)
	newEncoder[E](params).DecodeTo(v, p)
	return v
}

// through: jindo.Encoder.DecodeTo
func specDecode[E bignum.Uint[E]](params Parameters, v []E, p ring.Poly) []E {
	specParams(params)
	if len(v) > params.slots {
		panic("too long")
	}
	var z E
	c := make([]*big.Int, params.ringQ.N())
	for i := range c {
		c[i] = new(big.Int)
	}
	newRNSReconstructor(params.ringQ).reconstructTo(c, p)
	for i := 0; i < params.slots; i++ {
		a := z.New()
		for j := 0; j < params.ecd.exp; j++ {
			a.Mul(a, z.New().SetUint64(params.ecd.base))
			a.Add(a, z.New().SetBigInt(c[(params.ecd.exp-1-j)*params.slots+i]))
		}
		v[i].Set(a)
	}
	return v
}

// through: jindo.RNSReconstructor.reconstructTo
func codeReconstruct(r *ring.Ring, v []*big.Int, p ring.Poly) []*big.Int {
	newRNSReconstructor(r).reconstructTo(v, p)
	return v
}

// through: jindo.RNSReconstructor.reconstructTo
func specReconstruct(r *ring.Ring, v []*big.Int, p ring.Poly) []*big.Int {
	for i := 0; i < r.N(); i++ {
		first := toBalanced(p.Coeffs[0][i], r.SubRings[0].Modulus)
		small := true
		for j := 1; j < len(r.SubRings); j++ {
			if toBalanced(p.Coeffs[j][i], r.SubRings[j].Modulus) != first {
				small = false
			}
		}
		if small {
			v[i].SetInt64(first)
		} else {
			s := new(big.Int)
			for j := 0; j < len(r.SubRings); j++ {
				q := new(big.Int).SetUint64(r.SubRings[j].Modulus)
				d := new(big.Int).Div(r.Modulus(), q)
				g := new(big.Int).Mul(d, new(big.Int).ModInverse(d, q))
				s.Add(s, g.Mod(g, r.Modulus()).Mul(g, new(big.Int).SetUint64(p.Coeffs[j][i])))
			}
			s.Mod(s, r.Modulus())
			if s.Cmp(new(big.Int).Rsh(r.Modulus(), 1)) >= 0 {
				s.Sub(s, r.Modulus())
			}
			v[i].Set(s)
		}
	}
	return v
}

// through: jindo.RNSReconstructor.setBigCoeffTo
func codeSetBigCoeff(r *ring.Ring, p ring.Poly, v []*big.Int) ring.Poly {
	newRNSReconstructor(r).setBigCoeffTo(p, v)
	return p
}

// through: jindo.RNSReconstructor.setBigCoeffTo
func specSetBigCoeff(r *ring.Ring, p ring.Poly, v []*big.Int) ring.Poly {
	for i := 0; i < r.N(); i++ {
		for l := 0; l < len(r.SubRings); l++ {
			p.Coeffs[l][i] = new(big.Int).Mod(v[i], new(big.Int).SetUint64(r.SubRings[l].Modulus)).Uint64()
		}
	}
	return p
}

// through: jindo.Encoder.randEncodeTo
func codeRandEncode[E bignum.Uint[E]](params Parameters, delta []float64, v []E, stdDev float64) ring.Poly {
	specParams(params)
	specDefine(len(delta), params.ecd.exp)
	p := params.ringQ.NewPoly()
	ecd := newEncoder[E](params)
	ecd.deltaInv = delta
	ecd.randEncodeTo(p, v, stdDev)
	return p
}

// specRandEncode adds (X^slots - base) times a discrete Gaussian centred such that the sum
// is a discrete Gaussian centred at zero.
// through: jindo.Encoder.randEncodeTo
func specRandEncode[E bignum.Uint[E]](params Parameters, delta []float64, v []E, stdDev float64) ring.Poly {
	specParams(params)
	specDefine(len(delta), params.ecd.exp)
	r := params.ringQ
	p := r.NewPoly()
	ecd := newEncoder[E](params)
	cdt := csprng.NewTwinCDTGaussianSampler(params.ecdStdDev)
	cosac := csprng.NewCOSACSampler()
	ecd.baseEncodeTo(p, v)
	f := make([]float64, r.N())
	for i := 0; i < params.ecd.exp; i++ {
		if delta[i] != 0 { // the digit contributes
			s := (i + 1) * params.slots
			for j := 0; j < r.N(); j++ {
				if j < s {
					f[j+r.N()-s] += delta[i] * float64(p.Coeffs[0][j])
				} else {
					f[j-(r.N()-(r.N()-s))] -= delta[i] * float64(p.Coeffs[0][j])
				}
			}
		}
	}
	h := r.NewPoly()
	g := r.NewPoly()
	for i := 0; i < r.N(); i++ {
		var c int64
		if stdDev == cdt.StdDev() {
			c = cdt.Sample(-f[i])
		} else {
			c = cosac.Sample(-f[i], stdDev)
		}
		setCoeffSigned(r, h, c, i)
	}
	r.MForm(h, h)
	for i := 0; i < r.N(); i++ {
		for k := 0; k < len(h.Coeffs); k++ {
			if i < params.slots {
				g.Coeffs[k][i] = r.SubRings[k].Modulus - h.Coeffs[k][i+r.N()-params.slots]
			} else {
				g.Coeffs[k][i] = h.Coeffs[k][i-params.slots]
			}
		}
	}
	r.MulScalarThenSub(h, params.ecd.base, g)
	r.MForm(p, p)
	r.Add(p, g, p)
	r.NTT(p, p)
	return p
}

func codeDivMod64(x []uint64, y uint64) (uint64, []uint64) {
	return divMod64(x, y), x
}

// specDivMod64 is schoolbook division, most significant word first.
func specDivMod64(x []uint64, y uint64) (uint64, []uint64) {
	r := uint64(0)
	for i := 0; i < len(x); i++ {
		j := len(x) - 1 - i
		q, s := bits.Div64(r, x[j], y)
		x[j] = q
		r = s
	}
	return r, x
}

func codeSetCoeffSigned(r *ring.Ring, p ring.Poly, c int64, i int) ring.Poly {
	setCoeffSigned(r, p, c, i)
	return p
}

func specSetCoeffSigned(r *ring.Ring, p ring.Poly, c int64, i int) ring.Poly {
	for l := 0; l <= r.Level(); l++ {
		if c < 0 {
			q := int64(r.SubRings[l].Modulus)
			p.Coeffs[l][i] = uint64(c%q + q)
		} else {
			p.Coeffs[l][i] = uint64(c)
		}
	}
	return p
}

// through: jindo.Encoder.baseEncodeTo
func codeBaseEncode[E bignum.Uint[E]](params Parameters, p ring.Poly, v []E) ring.Poly {
	specParams(params)
	newEncoder[E](params).baseEncodeTo(p, v)
	return p
}

// through: jindo.Encoder.baseEncodeTo
func specBaseEncode[E bignum.Uint[E]](params Parameters, p ring.Poly, v []E) ring.Poly {
	specParams(params)
	specBase(params, p, v)
	return p
}

func codeDelta[E bignum.Uint[E]](params Parameters) []float64 {
	specParams(params)
	return newEncoder[E](params).deltaInv
}

// specDelta is -base^i / (base^exp + 1), rounded from a precision that holds the modulus,
// without the entries that are too small to matter.
func specDelta[E bignum.Uint[E]](params Parameters) []float64 {
	specParams(params)
	b := params.ecd.base
	m := new(big.Int).Exp(new(big.Int).SetUint64(b), new(big.Int).SetUint64(uint64(params.ecd.exp)), nil)
	bf := new(big.Float).SetPrec(uint(m.BitLen())).SetUint64(b)
	m.Add(m, big.NewInt(1))
	q := new(big.Float).Quo(big.NewFloat(1), new(big.Float).SetPrec(uint(m.BitLen())).SetInt(m))
	q.Neg(q)
	small := math.Exp2(-50) / (float64(b) * float64(params.ecd.exp))
	out := make([]float64, params.ecd.exp)
	for i := range out {
		out[i], _ = q.Float64()
		q.Mul(q, bf)
		if math.Abs(out[i]) < small {
			out[i] = 0
		}
	}
	return out
}

// ---------- parameters ----------

func codeFindRank(d, q, beta float64) int { return findMSISRank(d, q, beta) }

// specFindRank is the least module rank for which the short-vector bound beta is hard (root Hermite factor 1.005).
func specFindRank(d, q, beta float64) int {
	if beta > q {
		panic("")
	}
	return int(math.Ceil(math.Log2(beta) * math.Log2(beta) / (4 * d * math.Log2(q) * math.Log2(1.005))))
}

func codeEncodeParams[E bignum.Uint[E]]() encodeParameters { return newEncodeParameters[E]() }

// specEncodeParams writes the modulus as base^exp + 1, exp the largest possible power of two.
func specEncodeParams[E bignum.Uint[E]]() encodeParameters {
	var z E
	b := z.New().SetBigInt(big.NewInt(-1)).BigInt(new(big.Int))
	exp := 1
	for {
		r := new(big.Int).Sqrt(b)
		if new(big.Int).Mul(r, r).Cmp(b) != 0 {
			break
		}
		b.Set(r)
		exp *= 2
	}
	if !b.IsUint64() {
		panic("")
	}
	return encodeParameters{base: b.Uint64(), exp: exp}
}

// specModulus splits the smallest modulus for the bound into limbs of equal size below 2^60.
func specModulus(beta float64) (limbs, bits int, q float64) {
	logQ := math.Ceil(math.Log2(beta))
	limbs = int(math.Ceil(logQ / 60.0))
	bits = int(math.Ceil(logQ / float64(limbs)))
	return limbs, bits, math.Exp2(float64(bits * limbs))
}

// specRing is the ring of degree d with NTT-friendly primes whose product is at least q.
func specRing(d int, q float64) (*ring.Ring, bool) {
	limbs := int(math.Ceil(math.Log2(q) / 60))
	bits := int(math.Ceil(math.Log2(q) / float64(limbs)))
	gen := ring.NewNTTFriendlyPrimesGenerator(uint64(bits), 2*uint64(d))
	primes, err := gen.NextUpstreamPrimes(limbs)
	if err != nil {
		return nil, false
	}
	r, err := ring.NewRing(d, primes)
	if err != nil {
		panic(err)
	}
	return r, true
}

func codeNewParams[E bignum.Uint[E]](targetN, batch int) Parameters {
	return NewParameters[E](targetN, batch)
}

// specNewParams is the smallest parameter set over all numbers of columns for which both moduli stay below the limit.
func specNewParams[E bignum.Uint[E]](targetN, batch int) Parameters {
	if targetN < 1 || batch < 1 {
		panic("")
	}
	ecd := newEncodeParameters[E]()
	t := float64(batch)
	b := float64(ecd.base)
	k := float64(ecd.exp)
	d := float64(max(k, 256))
	l := d / k
	nu := rlweRank / d
	var best Parameters
	size := math.Inf(1)
	for cols := 1; cols <= int(math.Ceil(float64(targetN)/l)); cols *= 2 {
		n := float64(cols)
		m := math.Ceil(float64(targetN) / (n * l))

		x := math.Sqrt(k) * b
		c := math.Sqrt(k) * min(b, math.Exp2(120/k)) / 2
		batching := math.Sqrt(t) * c

		sEcd := 2 / (b - 1) * (b + 1) * eta
		sEcdBlind := 2 * x / (b - 1) * (b + 1) * eta
		sMask := 2 * c / (b - 1) * (b + 1) * eta
		sMaskBlind := 2 * c * x / (b - 1) * (b + 1) * eta
		sMLWE := 2 * math.Sqrt2 * eta
		sMaskMLWE := 2 * c * math.Sqrt2 * eta

		f := tailCut * (b + 1) * sEcd
		f0 := tailCut * (b + 1) * math.Sqrt(m+1) * sEcdBlind
		fn := tailCut * (b + 1) * math.Sqrt(n+1) * sMask
		f0n := tailCut * (b + 1) * math.Sqrt((m+1)*n+1) * sMaskBlind

		res := math.Sqrt(n)*c*f + fn
		res0 := math.Sqrt(n)*c*f0 + f0n
		partial := math.Sqrt(m)*x*f + f0
		resMLWE := math.Sqrt(n)*c*(tailCut*sMLWE) + tailCut*math.Sqrt(n+1)*sMaskMLWE
		if t > 1 {
			res *= batching
			res0 *= batching
			partial *= batching
			resMLWE *= batching
		}
		resEcdTwo := math.Sqrt(d * (m*res*res + res0*res0))

		extract := 1.0
		if t > 1 {
			extract = 2 * c
		}

		ok := true
		var q, resTwo float64
		mu := 1
		for {
			mlweTwo := math.Sqrt(d*(float64(mu)+nu)) * resMLWE
			resTwo = math.Sqrt(resEcdTwo*resEcdTwo + mlweTwo*mlweTwo)
			var beta float64
			if t == 1 {
				beta = 2 * extract * (2 * c) * (2 * (resTwo + resTwo))
			} else {
				beta = 2 * extract * ((2 * c) * (2 * c)) * (2 * (2 * c) * (resTwo + resTwo))
			}
			_, _, q = specModulus(beta)
			if math.Log2(q) > maxLogQ {
				ok = false
				break
			}
			if findMSISRank(d, q, beta) <= mu {
				break
			}
			mu++
		}
		if !ok {
			continue
		}
		rank := float64(mu)

		cut := resTwo / ((1 + math.Sqrt(n)*c) * math.Sqrt(rank*d))
		if t > 1 {
			cut /= batching
		}
		digits := q / cut
		if t > 1 {
			digits *= batching
		}
		digitsTwo := math.Sqrt((n+1)*rank*d) * digits

		beta := 2 * extract * (2 * (digitsTwo + digitsTwo))
		_, _, qq := specModulus(beta)
		if math.Log2(qq) > maxLogQ {
			continue
		}
		outRank := float64(findMSISRank(d, qq, beta))
		outCut := digitsTwo / (math.Sqrt(outRank * d))
		if t > 1 {
			outCut /= batching
		}

		var p Parameters
		p.batch = batch
		p.rows, p.cols, p.rank = int(m)+1, cols, int(n)*int(m)*int(l)
		p.ecd, p.slots = ecd, int(d)/ecd.exp
		p.inMSISRank, p.outMSISRank, p.mlweRank = mu, int(outRank), int(nu)
		p.logInCutOff, p.logOutCutOff = uint64(math.Floor(math.Log2(cut))), uint64(math.Floor(math.Log2(outCut)))
		p.inComDcmpLen = (cols + 1) * mu
		g := math.Sqrt(2 * math.Pi)
		p.ecdStdDev, p.ecdBlindStdDev = sEcd/g, sEcdBlind/g
		p.maskStdDev, p.maskBlindStdDev = sMask/g, sMaskBlind/g
		p.mlweStdDev, p.maskMLWEStdDev = sMLWE/g, sMaskMLWE/g
		p.resTwoNm = resTwo + resTwo
		p.inComDcmpTwoNm = digitsTwo + digitsTwo
		p.comSize = t * outRank * d * math.Log2(qq/outCut)
		p.pfSize = n*d*math.Log2(partial) + d*math.Log2(q) + m*d*math.Log2(res) + d*math.Log2(res0) +
			(rank+nu)*d*math.Log2(resMLWE) + (n+1)*rank*d*math.Log2(digits)

		if p.comSize+p.pfSize >= size {
			continue
		}
		if p.ringQ, ok = specRing(int(d), q); !ok {
			continue
		}
		if p.ringQOut, ok = specRing(int(d), qq); !ok {
			continue
		}
		size = p.comSize + p.pfSize
		best = p
	}
	if math.IsInf(size, 1) {
		panic("")
	}
	return best
}
