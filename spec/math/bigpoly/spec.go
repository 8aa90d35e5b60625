// Reference formulation of the polynomial arithmetic. The analyzer type-checks this file
// together with the package under analysis and compares value graphs; it is never compiled or run.
package bigpoly

import (
	"bytes"
	"math/big"

	"github.com/sp301415/ringo-snark/math/bignum"
)

func specAssume(c bool)       {}
func specDefine(x int, y int) {}

// ---------- vectors ----------

func codeVecAdd[E bignum.Uint[E]](out, a, b []E) {
	specAssume(len(a) >= len(out))
	specAssume(len(b) >= len(out))
	addVecTo(out, a, b)
}

func specVecAdd[E bignum.Uint[E]](out, a, b []E) {
	specAssume(len(a) >= len(out))
	specAssume(len(b) >= len(out))
	for i := 0; i < len(out); i++ {
		out[i].Add(a[i], b[i])
	}
}

func codeVec[E bignum.Uint[E]](kind int, out, a, b []E, c E) {
	specAssume(len(a) >= len(out))
	specAssume(len(b) >= len(out))
	switch kind {
	case 0:
		copyVecTo(out, a)
	case 1:
		subVecTo(out, a, b)
	case 2:
		negVecTo(out, a)
	case 3:
		scalarMulVecTo(out, a, c)
	case 4:
		mulVecTo(out, a, b)
	case 5:
		addVecTo(out, out, a)
	case 6:
		subVecTo(out, out, a)
	case 7:
		mulVecTo(out, a, out)
	case 8:
		subVecTo(out, a, out)
	}
}

func specVec[E bignum.Uint[E]](kind int, out, a, b []E, c E) {
	specAssume(len(a) >= len(out))
	specAssume(len(b) >= len(out))
	for i := 0; i < len(out); i++ {
		switch kind {
		case 0:
			out[i].Set(a[i])
		case 1:
			out[i].Sub(a[i], b[i])
		case 2:
			out[i].Neg(a[i])
		case 3:
			out[i].Mul(a[i], c)
		case 4:
			out[i].Mul(a[i], b[i])
		case 5:
			out[i].Add(out[i], a[i])
		case 6:
			out[i].Sub(out[i], a[i])
		case 7:
			out[i].Mul(a[i], out[i])
		case 8:
			out[i].Sub(a[i], out[i])
		}
	}
}

// ---------- polynomials ----------

func codeNewPoly[E bignum.Uint[E]](rank int, isNTT bool) *Poly[E] {
	return NewPoly[E](rank, isNTT)
}

func specNewPoly[E bignum.Uint[E]](rank int, isNTT bool) *Poly[E] {
	var z E
	c := make([]E, rank)
	for i := 0; i < rank; i++ {
		c[i] = z.New()
	}
	return &Poly[E]{Coeffs: c, IsNTT: isNTT}
}

func codeMarshal[E bignum.Uint[E]](p *Poly[E]) ([]byte, int) {
	return p.Marshal(), p.Rank()
}

func specMarshal[E bignum.Uint[E]](p *Poly[E]) ([]byte, int) {
	var b bytes.Buffer
	n := 0
	for _, c := range p.Coeffs {
		b.Write(c.Marshal())
		n++
	}
	return b.Bytes(), len(p.Coeffs)
}

func codeCopyFrom[E bignum.Uint[E]](p, q *Poly[E]) {
	p.CopyFrom(q)
}

func specCopyFrom[E bignum.Uint[E]](p, q *Poly[E]) {
	if len(p.Coeffs) != len(q.Coeffs) {
		panic("lengths")
	}
	for i := 0; i < len(p.Coeffs); i++ {
		p.Coeffs[i].Set(q.Coeffs[i])
	}
	p.IsNTT = q.IsNTT
}

func codeEvalPoly[E bignum.Uint[E]](p *Poly[E], x E) E {
	return p.Evaluate(x)
}

func specEvalPoly[E bignum.Uint[E]](p *Poly[E], x E) E {
	if p.IsNTT {
		panic("NTT")
	}
	var z E
	s := z.New()
	for i := 0; i < len(p.Coeffs); i++ {
		s.Mul(s, x)
		s.Add(s, p.Coeffs[len(p.Coeffs)-1-i])
	}
	return s
}

func codeClear[E bignum.Uint[E]](p *Poly[E]) {
	p.Clear()
}

func specClear[E bignum.Uint[E]](p *Poly[E]) {
	var z E
	for i := 0; i < len(p.Coeffs); i++ {
		p.Coeffs[i].Set(z.New())
	}
}

// ---------- evaluators ----------

func codeCyclicNeg[E bignum.Uint[E]](rank int, out, p *Poly[E], c E) {
	NewCyclicEvaluator[E](rank).NegTo(out, p)
}

func specCyclicNeg[E bignum.Uint[E]](rank int, out, p *Poly[E], c E) {
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Sub(z.New(), p.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = p.IsNTT
}

func codeCyclicNegIn[E bignum.Uint[E]](rank int, out *Poly[E], c E) {
	NewCyclicEvaluator[E](rank).NegTo(out, out)
}

func specCyclicNegIn[E bignum.Uint[E]](rank int, out *Poly[E], c E) {
	p := out
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Sub(z.New(), p.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = p.IsNTT
}

func codeCyclicScalarMul[E bignum.Uint[E]](rank int, out, p *Poly[E], c E) {
	NewCyclicEvaluator[E](rank).ScalarMulTo(out, p, c)
}

func specCyclicScalarMul[E bignum.Uint[E]](rank int, out, p *Poly[E], c E) {
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Mul(c, p.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = p.IsNTT
}

func codeCyclicScalarMulIn[E bignum.Uint[E]](rank int, out *Poly[E], c E) {
	NewCyclicEvaluator[E](rank).ScalarMulTo(out, out, c)
}

func specCyclicScalarMulIn[E bignum.Uint[E]](rank int, out *Poly[E], c E) {
	p := out
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Mul(c, p.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = p.IsNTT
}

func codeCyclicScalarMulAdd[E bignum.Uint[E]](rank int, out, p *Poly[E], c E) {
	NewCyclicEvaluator[E](rank).ScalarMulAddTo(out, p, c)
}

func specCyclicScalarMulAdd[E bignum.Uint[E]](rank int, out, p *Poly[E], c E) {
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || out.IsNTT != p.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Add(t.Mul(c, p.Coeffs[i]), out.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = p.IsNTT
}

func codeCyclicScalarMulAddIn[E bignum.Uint[E]](rank int, out *Poly[E], c E) {
	NewCyclicEvaluator[E](rank).ScalarMulAddTo(out, out, c)
}

func specCyclicScalarMulAddIn[E bignum.Uint[E]](rank int, out *Poly[E], c E) {
	p := out
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || out.IsNTT != p.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Add(t.Mul(c, p.Coeffs[i]), out.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = p.IsNTT
}

func codeCyclicScalarMulSub[E bignum.Uint[E]](rank int, out, p *Poly[E], c E) {
	NewCyclicEvaluator[E](rank).ScalarMulSubTo(out, p, c)
}

func specCyclicScalarMulSub[E bignum.Uint[E]](rank int, out, p *Poly[E], c E) {
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || out.IsNTT != p.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Sub(out.Coeffs[i], t.Mul(c, p.Coeffs[i]))
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = p.IsNTT
}

func codeCyclicScalarMulSubIn[E bignum.Uint[E]](rank int, out *Poly[E], c E) {
	NewCyclicEvaluator[E](rank).ScalarMulSubTo(out, out, c)
}

func specCyclicScalarMulSubIn[E bignum.Uint[E]](rank int, out *Poly[E], c E) {
	p := out
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || out.IsNTT != p.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Sub(out.Coeffs[i], t.Mul(c, p.Coeffs[i]))
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = p.IsNTT
}

func codeCyclotomicNeg[E bignum.Uint[E]](rank int, out, p *Poly[E], c E) {
	NewCyclotomicEvaluator[E](rank).NegTo(out, p)
}

func specCyclotomicNeg[E bignum.Uint[E]](rank int, out, p *Poly[E], c E) {
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Sub(z.New(), p.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = p.IsNTT
}

func codeCyclotomicScalarMul[E bignum.Uint[E]](rank int, out, p *Poly[E], c E) {
	NewCyclotomicEvaluator[E](rank).ScalarMulTo(out, p, c)
}

func specCyclotomicScalarMul[E bignum.Uint[E]](rank int, out, p *Poly[E], c E) {
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Mul(c, p.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = p.IsNTT
}

func codeCyclotomicScalarMulAdd[E bignum.Uint[E]](rank int, out, p *Poly[E], c E) {
	NewCyclotomicEvaluator[E](rank).ScalarMulAddTo(out, p, c)
}

func specCyclotomicScalarMulAdd[E bignum.Uint[E]](rank int, out, p *Poly[E], c E) {
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || out.IsNTT != p.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Add(t.Mul(c, p.Coeffs[i]), out.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = p.IsNTT
}

func codeCyclotomicScalarMulSub[E bignum.Uint[E]](rank int, out, p *Poly[E], c E) {
	NewCyclotomicEvaluator[E](rank).ScalarMulSubTo(out, p, c)
}

func specCyclotomicScalarMulSub[E bignum.Uint[E]](rank int, out, p *Poly[E], c E) {
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || out.IsNTT != p.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Sub(out.Coeffs[i], t.Mul(c, p.Coeffs[i]))
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = p.IsNTT
}

func codeCyclicAdd[E bignum.Uint[E]](rank int, out, p, q *Poly[E]) {
	NewCyclicEvaluator[E](rank).AddTo(out, p, q)
}

func specCyclicAdd[E bignum.Uint[E]](rank int, out, p, q *Poly[E]) {
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Add(p.Coeffs[i], q.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = p.IsNTT
}

func codeCyclicAddL[E bignum.Uint[E]](rank int, out, q *Poly[E]) {
	NewCyclicEvaluator[E](rank).AddTo(out, out, q)
}

func specCyclicAddL[E bignum.Uint[E]](rank int, out, q *Poly[E]) {
	p := out
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Add(p.Coeffs[i], q.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = p.IsNTT
}

func codeCyclicAddR[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	NewCyclicEvaluator[E](rank).AddTo(out, p, out)
}

func specCyclicAddR[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	q := out
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Add(p.Coeffs[i], q.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = p.IsNTT
}

func codeCyclicAddSq[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	NewCyclicEvaluator[E](rank).AddTo(out, p, p)
}

func specCyclicAddSq[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	q := p
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Add(p.Coeffs[i], q.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = p.IsNTT
}

func codeCyclicSub[E bignum.Uint[E]](rank int, out, p, q *Poly[E]) {
	NewCyclicEvaluator[E](rank).SubTo(out, p, q)
}

func specCyclicSub[E bignum.Uint[E]](rank int, out, p, q *Poly[E]) {
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Sub(p.Coeffs[i], q.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = p.IsNTT
}

func codeCyclicSubL[E bignum.Uint[E]](rank int, out, q *Poly[E]) {
	NewCyclicEvaluator[E](rank).SubTo(out, out, q)
}

func specCyclicSubL[E bignum.Uint[E]](rank int, out, q *Poly[E]) {
	p := out
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Sub(p.Coeffs[i], q.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = p.IsNTT
}

func codeCyclicSubR[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	NewCyclicEvaluator[E](rank).SubTo(out, p, out)
}

func specCyclicSubR[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	q := out
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Sub(p.Coeffs[i], q.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = p.IsNTT
}

func codeCyclicSubSq[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	NewCyclicEvaluator[E](rank).SubTo(out, p, p)
}

func specCyclicSubSq[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	q := p
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Sub(p.Coeffs[i], q.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = p.IsNTT
}

func codeCyclicMul[E bignum.Uint[E]](rank int, out, p, q *Poly[E]) {
	NewCyclicEvaluator[E](rank).MulTo(out, p, q)
}

func specCyclicMul[E bignum.Uint[E]](rank int, out, p, q *Poly[E]) {
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT || !p.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Mul(p.Coeffs[i], q.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = true
}

func codeCyclicMulL[E bignum.Uint[E]](rank int, out, q *Poly[E]) {
	NewCyclicEvaluator[E](rank).MulTo(out, out, q)
}

func specCyclicMulL[E bignum.Uint[E]](rank int, out, q *Poly[E]) {
	p := out
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT || !p.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Mul(p.Coeffs[i], q.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = true
}

func codeCyclicMulR[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	NewCyclicEvaluator[E](rank).MulTo(out, p, out)
}

func specCyclicMulR[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	q := out
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT || !p.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Mul(p.Coeffs[i], q.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = true
}

func codeCyclicMulSq[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	NewCyclicEvaluator[E](rank).MulTo(out, p, p)
}

func specCyclicMulSq[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	q := p
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT || !p.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Mul(p.Coeffs[i], q.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = true
}

func codeCyclicMulAdd[E bignum.Uint[E]](rank int, out, p, q *Poly[E]) {
	NewCyclicEvaluator[E](rank).MulAddTo(out, p, q)
}

func specCyclicMulAdd[E bignum.Uint[E]](rank int, out, p, q *Poly[E]) {
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT || !p.IsNTT || !out.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Add(t.Mul(p.Coeffs[i], q.Coeffs[i]), out.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = true
}

func codeCyclicMulAddL[E bignum.Uint[E]](rank int, out, q *Poly[E]) {
	NewCyclicEvaluator[E](rank).MulAddTo(out, out, q)
}

func specCyclicMulAddL[E bignum.Uint[E]](rank int, out, q *Poly[E]) {
	p := out
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT || !p.IsNTT || !out.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Add(t.Mul(p.Coeffs[i], q.Coeffs[i]), out.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = true
}

func codeCyclicMulAddR[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	NewCyclicEvaluator[E](rank).MulAddTo(out, p, out)
}

func specCyclicMulAddR[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	q := out
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT || !p.IsNTT || !out.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Add(t.Mul(p.Coeffs[i], q.Coeffs[i]), out.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = true
}

func codeCyclicMulAddSq[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	NewCyclicEvaluator[E](rank).MulAddTo(out, p, p)
}

func specCyclicMulAddSq[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	q := p
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT || !p.IsNTT || !out.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Add(t.Mul(p.Coeffs[i], q.Coeffs[i]), out.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = true
}

func codeCyclicMulSub[E bignum.Uint[E]](rank int, out, p, q *Poly[E]) {
	NewCyclicEvaluator[E](rank).MulSubTo(out, p, q)
}

func specCyclicMulSub[E bignum.Uint[E]](rank int, out, p, q *Poly[E]) {
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT || !p.IsNTT || !out.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Sub(out.Coeffs[i], t.Mul(p.Coeffs[i], q.Coeffs[i]))
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = true
}

func codeCyclicMulSubL[E bignum.Uint[E]](rank int, out, q *Poly[E]) {
	NewCyclicEvaluator[E](rank).MulSubTo(out, out, q)
}

func specCyclicMulSubL[E bignum.Uint[E]](rank int, out, q *Poly[E]) {
	p := out
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT || !p.IsNTT || !out.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Sub(out.Coeffs[i], t.Mul(p.Coeffs[i], q.Coeffs[i]))
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = true
}

func codeCyclicMulSubR[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	NewCyclicEvaluator[E](rank).MulSubTo(out, p, out)
}

func specCyclicMulSubR[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	q := out
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT || !p.IsNTT || !out.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Sub(out.Coeffs[i], t.Mul(p.Coeffs[i], q.Coeffs[i]))
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = true
}

func codeCyclicMulSubSq[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	NewCyclicEvaluator[E](rank).MulSubTo(out, p, p)
}

func specCyclicMulSubSq[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	q := p
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT || !p.IsNTT || !out.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Sub(out.Coeffs[i], t.Mul(p.Coeffs[i], q.Coeffs[i]))
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = true
}

func codeCyclotomicAdd[E bignum.Uint[E]](rank int, out, p, q *Poly[E]) {
	NewCyclotomicEvaluator[E](rank).AddTo(out, p, q)
}

func specCyclotomicAdd[E bignum.Uint[E]](rank int, out, p, q *Poly[E]) {
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Add(p.Coeffs[i], q.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = p.IsNTT
}

func codeCyclotomicSub[E bignum.Uint[E]](rank int, out, p, q *Poly[E]) {
	NewCyclotomicEvaluator[E](rank).SubTo(out, p, q)
}

func specCyclotomicSub[E bignum.Uint[E]](rank int, out, p, q *Poly[E]) {
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Sub(p.Coeffs[i], q.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = p.IsNTT
}

func codeCyclotomicMul[E bignum.Uint[E]](rank int, out, p, q *Poly[E]) {
	NewCyclotomicEvaluator[E](rank).MulTo(out, p, q)
}

func specCyclotomicMul[E bignum.Uint[E]](rank int, out, p, q *Poly[E]) {
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT || !p.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Mul(p.Coeffs[i], q.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = true
}

func codeCyclotomicMulAdd[E bignum.Uint[E]](rank int, out, p, q *Poly[E]) {
	NewCyclotomicEvaluator[E](rank).MulAddTo(out, p, q)
}

func specCyclotomicMulAdd[E bignum.Uint[E]](rank int, out, p, q *Poly[E]) {
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT || !p.IsNTT || !out.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Add(t.Mul(p.Coeffs[i], q.Coeffs[i]), out.Coeffs[i])
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = true
}

func codeCyclotomicMulSub[E bignum.Uint[E]](rank int, out, p, q *Poly[E]) {
	NewCyclotomicEvaluator[E](rank).MulSubTo(out, p, q)
}

func specCyclotomicMulSub[E bignum.Uint[E]](rank int, out, p, q *Poly[E]) {
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || len(q.Coeffs) != rank || p.IsNTT != q.IsNTT || !p.IsNTT || !out.IsNTT {
		panic("input")
	}
	for i := 0; i < rank; i++ {
		t := z.New()
		t.Sub(out.Coeffs[i], t.Mul(p.Coeffs[i], q.Coeffs[i]))
		out.Coeffs[i].Set(t)
	}
	out.IsNTT = true
}

func codeCyclicAddNew[E bignum.Uint[E]](rank int, p, q *Poly[E]) *Poly[E] {
	return NewCyclicEvaluator[E](rank).Add(p, q)
}

func specCyclicAddNew[E bignum.Uint[E]](rank int, p, q *Poly[E]) *Poly[E] {
	out := NewPoly[E](rank, false)
	specCyclicAdd(rank, out, p, q)
	return out
}

func codeCyclicSubNew[E bignum.Uint[E]](rank int, p, q *Poly[E]) *Poly[E] {
	return NewCyclicEvaluator[E](rank).Sub(p, q)
}

func specCyclicSubNew[E bignum.Uint[E]](rank int, p, q *Poly[E]) *Poly[E] {
	out := NewPoly[E](rank, false)
	specCyclicSub(rank, out, p, q)
	return out
}

func codeCyclicMulNew[E bignum.Uint[E]](rank int, p, q *Poly[E]) *Poly[E] {
	return NewCyclicEvaluator[E](rank).Mul(p, q)
}

func specCyclicMulNew[E bignum.Uint[E]](rank int, p, q *Poly[E]) *Poly[E] {
	out := NewPoly[E](rank, false)
	specCyclicMul(rank, out, p, q)
	return out
}

func codeCyclicNegNew[E bignum.Uint[E]](rank int, p *Poly[E]) *Poly[E] {
	return NewCyclicEvaluator[E](rank).Neg(p)
}

func specCyclicNegNew[E bignum.Uint[E]](rank int, p *Poly[E]) *Poly[E] {
	out := NewPoly[E](rank, false)
	var c E
	specCyclicNeg(rank, out, p, c)
	return out
}

func codeCyclicScalarMulNew[E bignum.Uint[E]](rank int, p *Poly[E], c E) *Poly[E] {
	return NewCyclicEvaluator[E](rank).ScalarMul(p, c)
}

func specCyclicScalarMulNew[E bignum.Uint[E]](rank int, p *Poly[E], c E) *Poly[E] {
	out := NewPoly[E](rank, false)
	specCyclicScalarMul(rank, out, p, c)
	return out
}

func codeCyclicNTT[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	NewCyclicEvaluator[E](rank).NTTTo(out, p)
}

func specCyclicNTT[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || p.IsNTT != false {
		panic("input")
	}
	NewCyclicTransformer[E](rank).FwdNTTTo(out.Coeffs, p.Coeffs)
	out.IsNTT = true
}

func codeCyclicNTTIn[E bignum.Uint[E]](rank int, out *Poly[E]) {
	NewCyclicEvaluator[E](rank).NTTTo(out, out)
}

func specCyclicNTTIn[E bignum.Uint[E]](rank int, out *Poly[E]) {
	p := out
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || p.IsNTT != false {
		panic("input")
	}
	NewCyclicTransformer[E](rank).FwdNTTTo(out.Coeffs, p.Coeffs)
	out.IsNTT = true
}

func codeCyclicNTTNew[E bignum.Uint[E]](rank int, p *Poly[E]) *Poly[E] {
	return NewCyclicEvaluator[E](rank).NTT(p)
}

func specCyclicNTTNew[E bignum.Uint[E]](rank int, p *Poly[E]) *Poly[E] {
	out := NewPoly[E](rank, false)
	specCyclicNTT(rank, out, p)
	return out
}

func codeCyclicInvNTT[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	NewCyclicEvaluator[E](rank).InvNTTTo(out, p)
}

func specCyclicInvNTT[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || p.IsNTT != true {
		panic("input")
	}
	NewCyclicTransformer[E](rank).InvNTTTo(out.Coeffs, p.Coeffs)
	out.IsNTT = false
}

func codeCyclicInvNTTIn[E bignum.Uint[E]](rank int, out *Poly[E]) {
	NewCyclicEvaluator[E](rank).InvNTTTo(out, out)
}

func specCyclicInvNTTIn[E bignum.Uint[E]](rank int, out *Poly[E]) {
	p := out
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || p.IsNTT != true {
		panic("input")
	}
	NewCyclicTransformer[E](rank).InvNTTTo(out.Coeffs, p.Coeffs)
	out.IsNTT = false
}

func codeCyclicInvNTTNew[E bignum.Uint[E]](rank int, p *Poly[E]) *Poly[E] {
	return NewCyclicEvaluator[E](rank).InvNTT(p)
}

func specCyclicInvNTTNew[E bignum.Uint[E]](rank int, p *Poly[E]) *Poly[E] {
	out := NewPoly[E](rank, false)
	specCyclicInvNTT(rank, out, p)
	return out
}

func codeCyclicNew[E bignum.Uint[E]](rank int, isNTT bool) (*Poly[E], int) {
	e := NewCyclicEvaluator[E](rank)
	return e.NewPoly(isNTT), e.Rank()
}

func specCyclicNew[E bignum.Uint[E]](rank int, isNTT bool) (*Poly[E], int) {
	return NewPoly[E](rank, isNTT), rank
}

func codeCyclotomicAddNew[E bignum.Uint[E]](rank int, p, q *Poly[E]) *Poly[E] {
	return NewCyclotomicEvaluator[E](rank).Add(p, q)
}

func specCyclotomicAddNew[E bignum.Uint[E]](rank int, p, q *Poly[E]) *Poly[E] {
	out := NewPoly[E](rank, false)
	specCyclotomicAdd(rank, out, p, q)
	return out
}

func codeCyclotomicSubNew[E bignum.Uint[E]](rank int, p, q *Poly[E]) *Poly[E] {
	return NewCyclotomicEvaluator[E](rank).Sub(p, q)
}

func specCyclotomicSubNew[E bignum.Uint[E]](rank int, p, q *Poly[E]) *Poly[E] {
	out := NewPoly[E](rank, false)
	specCyclotomicSub(rank, out, p, q)
	return out
}

func codeCyclotomicMulNew[E bignum.Uint[E]](rank int, p, q *Poly[E]) *Poly[E] {
	return NewCyclotomicEvaluator[E](rank).Mul(p, q)
}

func specCyclotomicMulNew[E bignum.Uint[E]](rank int, p, q *Poly[E]) *Poly[E] {
	out := NewPoly[E](rank, false)
	specCyclotomicMul(rank, out, p, q)
	return out
}

func codeCyclotomicNegNew[E bignum.Uint[E]](rank int, p *Poly[E]) *Poly[E] {
	return NewCyclotomicEvaluator[E](rank).Neg(p)
}

func specCyclotomicNegNew[E bignum.Uint[E]](rank int, p *Poly[E]) *Poly[E] {
	out := NewPoly[E](rank, false)
	var c E
	specCyclotomicNeg(rank, out, p, c)
	return out
}

func codeCyclotomicScalarMulNew[E bignum.Uint[E]](rank int, p *Poly[E], c E) *Poly[E] {
	return NewCyclotomicEvaluator[E](rank).ScalarMul(p, c)
}

func specCyclotomicScalarMulNew[E bignum.Uint[E]](rank int, p *Poly[E], c E) *Poly[E] {
	out := NewPoly[E](rank, false)
	specCyclotomicScalarMul(rank, out, p, c)
	return out
}

func codeCyclotomicNTT[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	NewCyclotomicEvaluator[E](rank).NTTTo(out, p)
}

func specCyclotomicNTT[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || p.IsNTT != false {
		panic("input")
	}
	NewCyclotomicTransformer[E](rank).FwdNTTTo(out.Coeffs, p.Coeffs)
	out.IsNTT = true
}

func codeCyclotomicNTTIn[E bignum.Uint[E]](rank int, out *Poly[E]) {
	NewCyclotomicEvaluator[E](rank).NTTTo(out, out)
}

func specCyclotomicNTTIn[E bignum.Uint[E]](rank int, out *Poly[E]) {
	p := out
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || p.IsNTT != false {
		panic("input")
	}
	NewCyclotomicTransformer[E](rank).FwdNTTTo(out.Coeffs, p.Coeffs)
	out.IsNTT = true
}

func codeCyclotomicNTTNew[E bignum.Uint[E]](rank int, p *Poly[E]) *Poly[E] {
	return NewCyclotomicEvaluator[E](rank).NTT(p)
}

func specCyclotomicNTTNew[E bignum.Uint[E]](rank int, p *Poly[E]) *Poly[E] {
	out := NewPoly[E](rank, false)
	specCyclotomicNTT(rank, out, p)
	return out
}

func codeCyclotomicInvNTT[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	NewCyclotomicEvaluator[E](rank).InvNTTTo(out, p)
}

func specCyclotomicInvNTT[E bignum.Uint[E]](rank int, out, p *Poly[E]) {
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || p.IsNTT != true {
		panic("input")
	}
	NewCyclotomicTransformer[E](rank).InvNTTTo(out.Coeffs, p.Coeffs)
	out.IsNTT = false
}

func codeCyclotomicInvNTTIn[E bignum.Uint[E]](rank int, out *Poly[E]) {
	NewCyclotomicEvaluator[E](rank).InvNTTTo(out, out)
}

func specCyclotomicInvNTTIn[E bignum.Uint[E]](rank int, out *Poly[E]) {
	p := out
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || p.IsNTT != true {
		panic("input")
	}
	NewCyclotomicTransformer[E](rank).InvNTTTo(out.Coeffs, p.Coeffs)
	out.IsNTT = false
}

func codeCyclotomicInvNTTNew[E bignum.Uint[E]](rank int, p *Poly[E]) *Poly[E] {
	return NewCyclotomicEvaluator[E](rank).InvNTT(p)
}

func specCyclotomicInvNTTNew[E bignum.Uint[E]](rank int, p *Poly[E]) *Poly[E] {
	out := NewPoly[E](rank, false)
	specCyclotomicInvNTT(rank, out, p)
	return out
}

func codeCyclotomicNew[E bignum.Uint[E]](rank int, isNTT bool) (*Poly[E], int) {
	e := NewCyclotomicEvaluator[E](rank)
	return e.NewPoly(isNTT), e.Rank()
}

func specCyclotomicNew[E bignum.Uint[E]](rank int, isNTT bool) (*Poly[E], int) {
	return NewPoly[E](rank, isNTT), rank
}

// ---------- division by X^n - 1 ----------

func codeQuoRem[E bignum.Uint[E]](rank, n int, p *Poly[E]) (*Poly[E], *Poly[E]) {
	specAssume(n >= 1)
	return NewCyclicEvaluator[E](rank).QuoRemByVanishing(p, n)
}

// specQuoRem folds the coefficients from the top: s[i] = p[i] + s[i+n].
func specQuoRem[E bignum.Uint[E]](rank, n int, p *Poly[E]) (*Poly[E], *Poly[E]) {
	specAssume(n >= 1)
	if len(p.Coeffs) != rank || p.IsNTT {
		panic("input")
	}
	quo, rem := NewPoly[E](rank, false), NewPoly[E](rank, false)
	for i := 0; i < rank; i++ {
		rem.Coeffs[i].Set(p.Coeffs[i])
	}
	for k := 0; k < rank-n; k++ {
		i := rank - 1 - k - n
		quo.Coeffs[i].Set(rem.Coeffs[i+n])
		rem.Coeffs[i].Add(p.Coeffs[i], rem.Coeffs[i+n])
		rem.Coeffs[i+n].SetUint64(0)
	}
	return quo, rem
}

// ---------- automorphisms ----------

func codeAut[E bignum.Uint[E]](rank int, out, p *Poly[E], idx int) {
	specAssume(!p.IsNTT)
	NewCyclotomicEvaluator[E](rank).AutTo(out, p, idx)
}

// specAut sends X^i to X^(i*idx), where X^rank = -1.
func specAut[E bignum.Uint[E]](rank int, out, p *Poly[E], idx int) {
	specAssume(!p.IsNTT)
	var z E
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || idx%2 == 0 {
		panic("input")
	}
	k := idx % (2 * rank)
	if k < 0 {
		k += 2 * rank
	}
	// every position is written because i*k mod 2*rank, folded, is a permutation for odd k
	t := NewCyclotomicEvaluator[E](rank).pool.Get().(*Poly[E]).Coeffs
	for i := 0; i < rank; i++ {
		e := i * k % (2 * rank)
		if e < rank {
			t[e].Set(p.Coeffs[i])
		} else {
			t[e-rank].Sub(z.New(), p.Coeffs[i])
		}
	}
	for i := 0; i < rank; i++ {
		out.Coeffs[i].Set(t[i])
	}
	out.IsNTT = false
}

func codeAutNTT[E bignum.Uint[E]](rank int, out, p *Poly[E], idx int) {
	specAssume(p.IsNTT)
	NewCyclotomicEvaluator[E](rank).AutTo(out, p, idx)
}

// specAutNTT permutes the values: in natural order entry i is the value at the (2i+1)-th power
// of the root, which the automorphism moves to the ((2i+1)*idx)-th power.
func specAutNTT[E bignum.Uint[E]](rank int, out, p *Poly[E], idx int) {
	specAssume(p.IsNTT)
	if len(out.Coeffs) != rank || len(p.Coeffs) != rank || idx%2 == 0 {
		panic("input")
	}
	k := idx % (2 * rank)
	if k < 0 {
		k += 2 * rank
	}
	t := NewPoly[E](rank, true)
	for i := 0; i < rank; i++ {
		t.Coeffs[i].Set(p.Coeffs[i])
	}
	bitReverseInPlace(t.Coeffs)
	for i := 0; i < rank; i++ {
		out.Coeffs[i].Set(t.Coeffs[((2*i+1)*k%(2*rank)-1)/2])
	}
	bitReverseInPlace(out.Coeffs)
	out.IsNTT = true
}

func codeAutNew[E bignum.Uint[E]](rank int, p *Poly[E], idx int) *Poly[E] {
	return NewCyclotomicEvaluator[E](rank).Aut(p, idx)
}

func specAutNew[E bignum.Uint[E]](rank int, p *Poly[E], idx int) *Poly[E] {
	op := NewCyclotomicEvaluator[E](rank)
	out := NewPoly[E](rank, p.IsNTT)
	op.AutTo(out, p, idx)
	return out
}

func codeAutIn[E bignum.Uint[E]](rank int, p *Poly[E], idx int) {
	NewCyclotomicEvaluator[E](rank).AutTo(p, p, idx)
}

func specAutIn[E bignum.Uint[E]](rank int, p *Poly[E], idx int) {
	t := NewPoly[E](rank, p.IsNTT)
	NewCyclotomicEvaluator[E](rank).AutTo(t, p, idx)
	for i := 0; i < rank; i++ {
		p.Coeffs[i].Set(t.Coeffs[i])
	}
	p.IsNTT = t.IsNTT
}

func codeModSwitch[E bignum.Uint[E]](rank int, out *Poly[E], v []*big.Int, q *big.Int) {
	NewCyclotomicEvaluator[E](rank).ModSwitchTo(out, v, q)
}

// specModSwitch rounds v * p / q to the nearest integer modulo p.
func specModSwitch[E bignum.Uint[E]](rank int, out *Poly[E], v []*big.Int, q *big.Int) {
	if len(v) != rank {
		panic("input")
	}
	var z E
	p := new(big.Int).Add(z.New().SetInt64(-1).BigInt(new(big.Int)), big.NewInt(1))
	for i := 0; i < rank; i++ {
		t := new(big.Int).Mul(p, v[i])
		r := new(big.Int).Mod(t, q)
		if r.Cmp(new(big.Int).Rsh(q, 1)) > 0 {
			r.Sub(r, q)
		}
		t.Sub(t, r)
		t.Div(t, q)
		out.Coeffs[i].SetBigInt(t.Mod(t, p))
	}
	out.IsNTT = false
}

func codeModSwitchNew[E bignum.Uint[E]](rank int, v []*big.Int, q *big.Int) *Poly[E] {
	return NewCyclotomicEvaluator[E](rank).ModSwitch(v, q)
}

func specModSwitchNew[E bignum.Uint[E]](rank int, v []*big.Int, q *big.Int) *Poly[E] {
	out := NewPoly[E](rank, true)
	specModSwitch(rank, out, v, q)
	return out
}
