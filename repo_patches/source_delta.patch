From 530fab8dca7fbaecdfcdeea2a2223781b2e10b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 01/23] fix: bind claimed evaluations before deriving jindo
 challenges

The batching and response challenges of the jindo evaluation protocol were
derived without absorbing the claimed evaluations, so evaluations satisfying
one known linear relation could be forged.
---
 jindo/prover.go   | 16 +++++++++++-----
 jindo/verifier.go |  6 ++++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/jindo/prover.go b/jindo/prover.go
index 1e9642e..efbe5e6 100644
--- a/jindo/prover.go
+++ b/jindo/prover.go
@@ -217,12 +217,20 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 		}
 	}
 
+	evals := make([]E, p.params.batch)
+	for i := 0; i < p.params.batch; i++ {
+		evals[i] = (&bigpoly.Poly[E]{Coeffs: v[i]}).Evaluate(x)
+	}
+
 	oracle := sha3.NewSHAKE128()
 	p.ck.WriteRawTo(oracle)
 	for i := range p.params.batch {
 		com[i].WriteRawTo(oracle)
 	}
 	oracle.Write(x.Marshal())
+	for i := range p.params.batch {
+		oracle.Write(evals[i].Marshal())
+	}
 
 	var batchOut, batch []ring.Poly
 
@@ -245,6 +253,9 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 			com[i].WriteRawTo(oracle)
 		}
 		oracle.Write(x.Marshal())
+		for i := range p.params.batch {
+			oracle.Write(evals[i].Marshal())
+		}
 		oracle.Write(batchBytes)
 
 		openBatch = NewOpening(p.params)
@@ -315,11 +326,6 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 		}
 	}
 
-	evals := make([]E, p.params.batch)
-	for i := 0; i < p.params.batch; i++ {
-		evals[i] = (&bigpoly.Poly[E]{Coeffs: v[i]}).Evaluate(x)
-	}
-
 	return evals, pf
 }
 
diff --git a/jindo/verifier.go b/jindo/verifier.go
index d54ff81..03652cc 100644
--- a/jindo/verifier.go
+++ b/jindo/verifier.go
@@ -59,6 +59,9 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 		com[i].WriteRawTo(oracle)
 	}
 	oracle.Write(x.Marshal())
+	for i := 0; i < v.params.batch; i++ {
+		oracle.Write(y[i].Marshal())
+	}
 
 	var batch, batchOut []ring.Poly
 	if v.params.batch > 1 {
@@ -79,6 +82,9 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 			com[i].WriteRawTo(oracle)
 		}
 		oracle.Write(x.Marshal())
+		for i := 0; i < v.params.batch; i++ {
+			oracle.Write(y[i].Marshal())
+		}
 		oracle.Write(batchBytes)
 	}
 
-- 
2.43.0


From 38048c528ad5b6e17576cf11d71c2b3a406393c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 02/23] fix: bind public witnesses to the buckler transcript

None of the challenges depended on the public witnesses, so the transform was
not strong Fiat-Shamir: a prover could pick the statement after the challenges.
---
 buckler/prover.go   | 1 +
 buckler/verifier.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/buckler/prover.go b/buckler/prover.go
index 4d2a4c1..0502fca 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -126,6 +126,7 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 	for i := range wData.pw {
 		wData.pwEcd[i] = p.ecd.Encode(wData.pw[i])
 		wData.pwEcdNTT[i] = p.polyEval.NTT(wData.pwEcd[i])
+		oracle.Bind("projConst", wData.pwEcd[i].Marshal())
 	}
 
 	wData.wEcd = make([]*bigpoly.Poly[E], p.ctx.wCnt)
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 8f6558d..038cfbd 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -71,6 +71,7 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 	pwEcd := make([]*bigpoly.Poly[E], v.ctx.pwCnt)
 	for i := range pw {
 		pwEcd[i] = v.ecd.Encode(pw[i])
+		oracle.Bind("projConst", pwEcd[i].Marshal())
 	}
 
 	for i := range v.ctx.wCnt {
-- 
2.43.0


From 8942a63339ebf5fbee1ef3224abb2c2e629bf679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 03/23] fix: give every batched constraint its own power of the
 batching challenge

All arithmetic (and sumcheck) constraints were multiplied by the same challenge,
so violations of different constraints could cancel out.
---
 buckler/prover.go   | 2 +-
 buckler/verifier.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/buckler/prover.go b/buckler/prover.go
index 0502fca..fb618c7 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -372,7 +372,7 @@ func (p *Prover[E]) evalCircuit(batchConst E, constraints []ArithmeticConstraint
 			}
 			p.polyEval.AddTo(eval, eval, term)
 		}
-		p.polyEval.ScalarMulTo(eval, eval, batchConst)
+		p.polyEval.ScalarMulTo(pOut, pOut, batchConst)
 		p.polyEval.AddTo(pOut, pOut, eval)
 	}
 
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 038cfbd..77550c7 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -233,7 +233,7 @@ func (v *Verifier[E]) evalCircuit(batchConst E, constraints []ArithmeticConstrai
 			}
 			eval.Add(eval, term)
 		}
-		eval.Mul(eval, batchConst)
+		out.Mul(out, batchConst)
 		out.Add(out, eval)
 	}
 
-- 
2.43.0


From 6b37df7190696c101664ff2ea4e4d2aedfae00cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 04/23] fix: enforce the declared sums of sumcheck constraints

The verifier never used the declared sums, so only a zero sum could be proven
and a declared nonzero sum was replaced by zero.
---
 buckler/verifier.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/buckler/verifier.go b/buckler/verifier.go
index 77550c7..6573c8f 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -312,5 +312,15 @@ func (v *Verifier[E]) sumCheck(batchConst, sumCheckMaskEval, evalPoint, vanishEv
 	test.Add(test, rem)
 	test.Add(test, sumCheckMaskSum)
 
+	sum := z.New()
+	for i := range v.ctx.sumCheckSums {
+		sum.Mul(sum, batchConst)
+		sum.Add(sum, z.New().SetBigInt(v.ctx.sumCheckSums[i]))
+	}
+	sum.Mul(sum, batchConst)
+	rankInv := z.New().SetUint64(uint64(v.ctx.rank))
+	sum.Mul(sum, rankInv.Inverse(rankInv))
+	test.Add(test, sum)
+
 	return eval.Cmp(test) == 0
 }
-- 
2.43.0


From 7457104a352caa5d170067003420e84283ad31d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 05/23] fix: range-check the decomposed projection of
 approximate norm constraints

The ternary constraint on the digits was commented out, so the approximate
infinity norm constraint did not bound anything.
---
 buckler/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buckler/context.go b/buckler/context.go
index 8a4edef..49ca08a 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -222,7 +222,7 @@ func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.In
 	ctx.projInfDcmpBound[witnessToID(wProj)] = slackBound
 	ctx.projInfDcmpWitness[witnessToID(wProj)] = wProjDcmp
 	ctx.AddLinearConstraint(wProj, wProjDcmp, newProjRecomposeChecker[E](slackBound))
-	// ctx.AddInfNormConstraint(wProjDcmp, 1)
+	ctx.AddInfNormConstraint(wProjDcmp, 1)
 
 	ctx.wSecond = append(ctx.wSecond, wProj, wProjDcmp)
 }
-- 
2.43.0


From c818e8c0a12c45198de94a55bef2f2d5ea73aa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 06/23] fix: decompose bounds that are powers of two (and zero)
 completely

decomposeBase dropped a digit when the bound was a power of two, so honest
witnesses attaining the bound could not be proven, and it panicked for 0 and 1.
---
 buckler/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/buckler/utils.go b/buckler/utils.go
index 54f2fcf..9f7730a 100644
--- a/buckler/utils.go
+++ b/buckler/utils.go
@@ -8,8 +8,8 @@ func decomposeBase(x *big.Int) []*big.Int {
 	one := big.NewInt(1)
 
 	dcmpLen := x.BitLen()
-	if new(big.Int).Lsh(one, x.TrailingZeroBits()).Cmp(x) == 0 {
-		dcmpLen -= 1
+	if dcmpLen == 0 {
+		return nil
 	}
 
 	base := make([]*big.Int, dcmpLen)
-- 
2.43.0


From cd46a560952694601ed9e3f4cc4a6264a3066531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 07/23] fix: reset the squared norm accumulator for every
 two-norm constraint

With two or more squared two-norm constraints, the decomposition of the later
ones included the norms of the earlier ones and honest proofs were rejected.
---
 buckler/prover.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/buckler/prover.go b/buckler/prover.go
index fb618c7..159aec5 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -96,6 +96,7 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 			wData.pw[pwMaskID][i].SetInt64(1)
 		}
 
+		sqNm.SetUint64(0)
 		for i := range p.ctx.rank {
 			wData.w[id][i].BigInt(bigCoeff)
 			mul.Mul(bigCoeff, bigCoeff)
-- 
2.43.0


From b50379a5453f1e3464fa2e1a06563395e284b8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 08/23] fix: reject negative norm bounds instead of dropping
 the constraint

A negative infinity norm bound silently added no constraint at all, and the
other norm constraints decomposed the absolute value of the bound.
---
 buckler/context.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/buckler/context.go b/buckler/context.go
index 49ca08a..6f8e8c4 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -119,7 +119,7 @@ func (ctx *Context[E]) AddInfNormConstraintBig(w Witness[E], bound *big.Int) {
 
 	switch {
 	case bound.Sign() < 0:
-		return
+		panic("AddInfNormConstraint: bound must be nonnegative")
 	case bound.Sign() == 0:
 		var zeroConstraint ArithmeticConstraint[E]
 		zeroConstraint.AddTermWithConst(z.New().SetInt64(1), nil, w)
@@ -169,6 +169,10 @@ func (ctx *Context[E]) AddSqTwoNormConstraint(w Witness[E], bound uint64) {
 // AddSqTwoNormConstraintBig adds a squared two-norm constraint to the context.
 // Note that this only proves the constraint over modulo witness modulus.
 func (ctx *Context[E]) AddSqNormConstraintBig(w Witness[E], bound *big.Int) {
+	if bound.Sign() < 0 {
+		panic("AddSqNormConstraint: bound must be nonnegative")
+	}
+
 	var z E
 
 	id := witnessToID(w)
@@ -204,6 +208,14 @@ func (ctx *Context[E]) AddApproxInfNormConstraint(w Witness[E], bound uint64) {
 // AddApproxInfNormConstraint adds a approximate inf-norm constraint to the context.
 // The slack is around rank.
 func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.Int) {
+	switch {
+	case bound.Sign() < 0:
+		panic("AddApproxInfNormConstraint: bound must be nonnegative")
+	case bound.Sign() == 0:
+		ctx.AddInfNormConstraintBig(w, bound)
+		return
+	}
+
 	if ctx.projChecker == nil {
 		ctx.projChecker = newProjChecker[E](ctx.rank)
 	}
-- 
2.43.0


From 950027cbde20f2b0df17a48234ace1e73a99af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 09/23] fix: propagate errors found while walking circuits and
 assignments

Errors of nested walks were dropped, so a witness of the wrong rank in a circuit
field was never reported and the following witnesses moved to other slots.
---
 buckler/compile.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/buckler/compile.go b/buckler/compile.go
index 6fe2285..bf0a9ee 100644
--- a/buckler/compile.go
+++ b/buckler/compile.go
@@ -68,15 +68,19 @@ func (w *walker[E]) firstWalk(v reflect.Value) error {
 	switch v.Kind() {
 	case reflect.Pointer, reflect.Interface:
 		if !v.IsNil() {
-			w.firstWalk(v.Elem())
+			return w.firstWalk(v.Elem())
 		}
 	case reflect.Struct:
 		for i := range v.NumField() {
-			w.firstWalk(v.Field(i))
+			if err := w.firstWalk(v.Field(i)); err != nil {
+				return err
+			}
 		}
 	case reflect.Slice, reflect.Array:
 		for i := range v.Len() {
-			w.firstWalk(v.Index(i))
+			if err := w.firstWalk(v.Index(i)); err != nil {
+				return err
+			}
 		}
 	case reflect.Invalid:
 		return fmt.Errorf("walk: invalid kind")
@@ -108,15 +112,19 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 	switch v.Kind() {
 	case reflect.Pointer, reflect.Interface:
 		if !v.IsNil() {
-			w.prvWalk(prv, v.Elem(), pw, sw)
+			return w.prvWalk(prv, v.Elem(), pw, sw)
 		}
 	case reflect.Struct:
 		for i := range v.NumField() {
-			w.prvWalk(prv, v.Field(i), pw, sw)
+			if err := w.prvWalk(prv, v.Field(i), pw, sw); err != nil {
+				return err
+			}
 		}
 	case reflect.Slice, reflect.Array:
 		for i := range v.Len() {
-			w.prvWalk(prv, v.Index(i), pw, sw)
+			if err := w.prvWalk(prv, v.Index(i), pw, sw); err != nil {
+				return err
+			}
 		}
 	case reflect.Invalid:
 		return fmt.Errorf("walk: invalid kind")
@@ -140,15 +148,19 @@ func (w *walker[E]) vrfWalk(vrf *Verifier[E], v reflect.Value, pw []PublicWitnes
 	switch v.Kind() {
 	case reflect.Pointer, reflect.Interface:
 		if !v.IsNil() {
-			w.vrfWalk(vrf, v.Elem(), pw)
+			return w.vrfWalk(vrf, v.Elem(), pw)
 		}
 	case reflect.Struct:
 		for i := range v.NumField() {
-			w.vrfWalk(vrf, v.Field(i), pw)
+			if err := w.vrfWalk(vrf, v.Field(i), pw); err != nil {
+				return err
+			}
 		}
 	case reflect.Slice, reflect.Array:
 		for i := range v.Len() {
-			w.vrfWalk(vrf, v.Index(i), pw)
+			if err := w.vrfWalk(vrf, v.Index(i), pw); err != nil {
+				return err
+			}
 		}
 	case reflect.Invalid:
 		return fmt.Errorf("walk: invalid kind")
-- 
2.43.0


From 55cac320ef1f7a86cee0ee04ab349b98a4fed7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 10/23] fix: reject assignments with more or fewer witnesses
 than the circuit

Missing witnesses were replaced by zeros (also on the verifier's side), and
additional ones were written to the slots of auxiliary witnesses.
---
 buckler/compile.go  | 10 ++++++++++
 buckler/context.go  |  8 ++++++++
 buckler/prover.go   |  3 +++
 buckler/verifier.go |  3 +++
 4 files changed, 24 insertions(+)

diff --git a/buckler/compile.go b/buckler/compile.go
index bf0a9ee..0aca5a0 100644
--- a/buckler/compile.go
+++ b/buckler/compile.go
@@ -13,6 +13,7 @@ import (
 var (
 	errReadOnly     = fmt.Errorf("cannot set value")
 	errRankMismatch = fmt.Errorf("witness rank mismatch")
+	errCntMismatch  = fmt.Errorf("witness count mismatch")
 )
 
 func idToWitness[E bignum.Uint[E], W Witness[E] | PublicWitness[E]](id uint64) W {
@@ -93,6 +94,9 @@ func (w *walker[E]) firstWalk(v reflect.Value) error {
 func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[E], sw []Witness[E]) error {
 	switch v.Type() {
 	case reflect.TypeOf(PublicWitness[E]{}):
+		if w.pwCnt >= prv.ctx.pwAssignCnt {
+			return errCntMismatch
+		}
 		pw[w.pwCnt] = v.Interface().(PublicWitness[E])
 		if len(pw[w.pwCnt]) != prv.ctx.rank {
 			return errRankMismatch
@@ -101,6 +105,9 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 		return nil
 
 	case reflect.TypeOf(Witness[E]{}):
+		if w.wCnt >= prv.ctx.wAssignCnt {
+			return errCntMismatch
+		}
 		sw[w.wCnt] = v.Interface().(Witness[E])
 		if len(sw[w.wCnt]) != prv.ctx.rank {
 			return errRankMismatch
@@ -137,6 +144,9 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 func (w *walker[E]) vrfWalk(vrf *Verifier[E], v reflect.Value, pw []PublicWitness[E]) error {
 	switch v.Type() {
 	case reflect.TypeOf(PublicWitness[E]{}):
+		if w.pwCnt >= vrf.ctx.pwAssignCnt {
+			return errCntMismatch
+		}
 		pw[w.pwCnt] = v.Interface().(PublicWitness[E])
 		if len(pw[w.pwCnt]) != vrf.ctx.rank {
 			return errRankMismatch
diff --git a/buckler/context.go b/buckler/context.go
index 6f8e8c4..5dce38b 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -17,6 +17,11 @@ type Context[E bignum.Uint[E]] struct {
 	// wCnt is the number of witnesses.
 	wCnt uint64
 
+	// pwAssignCnt is the number of public witnesses assigned by the user.
+	pwAssignCnt uint64
+	// wAssignCnt is the number of witnesses assigned by the user.
+	wAssignCnt uint64
+
 	// wSecond are the witnesses in the second round.
 	wSecond []Witness[E]
 
@@ -57,6 +62,9 @@ func newContext[E bignum.Uint[E]](rank int, walker *walker[E]) *Context[E] {
 		pwCnt: walker.pwCnt,
 		wCnt:  walker.wCnt,
 
+		pwAssignCnt: walker.pwCnt,
+		wAssignCnt:  walker.wCnt,
+
 		circType: walker.circuitType,
 
 		linCheckConstraints: make(map[LinearChecker[E]][][2]uint64),
diff --git a/buckler/prover.go b/buckler/prover.go
index 159aec5..b5d89ca 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -55,6 +55,9 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 	if err := wk.prvWalk(p, reflect.ValueOf(c), wData.pw, wData.w); err != nil {
 		return nil, err
 	}
+	if wk.pwCnt != p.ctx.pwAssignCnt || wk.wCnt != p.ctx.wAssignCnt {
+		return nil, errCntMismatch
+	}
 
 	for i := wk.pwCnt; i < p.ctx.pwCnt; i++ {
 		wData.pw[i] = make(PublicWitness[E], p.ctx.rank)
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 6573c8f..5a0c87f 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -38,6 +38,9 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 	if err := wk.vrfWalk(v, reflect.ValueOf(c), pw); err != nil {
 		return false
 	}
+	if wk.pwCnt != v.ctx.pwAssignCnt {
+		return false
+	}
 
 	for i := wk.pwCnt; i < v.ctx.pwCnt; i++ {
 		pw[i] = make(PublicWitness[E], v.ctx.rank)
-- 
2.43.0


From 0cd75240256307755064cb7aeeb262dfdd2130ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 11/23] fix: sample jindo challenges from the full range of the
 challenge bound

The challenge coefficients were reduced modulo the (already halved) bound and
halved again. For moduli of the form b^64+1 the bound is 1, so every challenge
was zero and the verifier accepted any proof with zero responses.
---
 jindo/params.go | 2 +-
 jindo/utils.go  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/jindo/params.go b/jindo/params.go
index d5d94f0..d075b46 100644
--- a/jindo/params.go
+++ b/jindo/params.go
@@ -356,7 +356,7 @@ func (p Parameters) Slots() int {
 
 // ChallengeBound is the challenge bound.
 func (p Parameters) ChallengeBound() uint64 {
-	return min(p.ecd.base, 1<<(120/p.ecd.exp)) / 2
+	return max(min(p.ecd.base, 1<<(120/p.ecd.exp))/2, 1)
 }
 
 // InMSISRank is the rank of the inner MSIS commitment.
diff --git a/jindo/utils.go b/jindo/utils.go
index c9784a0..739354f 100644
--- a/jindo/utils.go
+++ b/jindo/utils.go
@@ -28,9 +28,9 @@ func encodeChallengeTo(params Parameters, ringQ *ring.Ring, pOut ring.Poly, chal
 
 	cInfNm := uint64(params.ChallengeBound())
 	for i := 0; i < params.ecd.exp; i++ {
-		r := divMod64(c, cInfNm)
-		if r > cInfNm/2 {
-			r = cInfNm - r
+		r := divMod64(c, 2*cInfNm+1)
+		if r > cInfNm {
+			r = 2*cInfNm + 1 - r
 			for k := 0; k <= pOut.Level(); k++ {
 				pOut.Coeffs[k][i*params.slots] = ringQ.SubRings[k].Modulus - r
 			}
-- 
2.43.0


From 109984d019b2fc9aaa4d3b496b34f00bea2afeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 12/23] fix: keep unrolled copies inside their slices

Polynomials of rank below 8 (and vectors of mismatching lengths) were read and
written out of bounds by the unsafe 8-element blocks.
---
 math/bigpoly/ntt.go  | 68 +++++++++++---------------------------------
 math/bigpoly/poly.go | 18 +++---------
 math/bigpoly/vec.go  | 22 ++++++++++++++
 3 files changed, 42 insertions(+), 66 deletions(-)

diff --git a/math/bigpoly/ntt.go b/math/bigpoly/ntt.go
index d95489c..ae33ade 100644
--- a/math/bigpoly/ntt.go
+++ b/math/bigpoly/ntt.go
@@ -96,41 +96,23 @@ func NewCyclicTransformer[E bignum.Uint[E]](rank int) *CyclicTransformer[E] {
 
 // FwdNTTTo computes vOut = NTT(v).
 func (ntt *CyclicTransformer[E]) FwdNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
+	if len(vOut) != ntt.rank || len(v) != ntt.rank {
+		panic("inconsistent input(s)")
 	}
 
+	copyVecTo(vOut, v)
+
 	nttInPlace(vOut, ntt.tw)
 }
 
 // InvNTTTo computes vOut = INTT(v).
 func (ntt *CyclicTransformer[E]) InvNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
+	if len(vOut) != ntt.rank || len(v) != ntt.rank {
+		panic("inconsistent input(s)")
 	}
 
+	copyVecTo(vOut, v)
+
 	inttInPlace(vOut, ntt.twInv)
 	scalarMulVecTo(vOut, vOut, ntt.rankInv)
 }
@@ -204,41 +186,23 @@ func NewCyclotomicTransformer[E bignum.Uint[E]](rank int) *CyclotomicTransformer
 
 // FwdNTTTo computes vOut = NTT(v).
 func (ntt *CyclotomicTransformer[E]) FwdNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
+	if len(vOut) != ntt.rank || len(v) != ntt.rank {
+		panic("inconsistent input(s)")
 	}
 
+	copyVecTo(vOut, v)
+
 	nttInPlace(vOut, ntt.tw)
 }
 
 // InvNTTTo computes vOut = INTT(v).
 func (ntt *CyclotomicTransformer[E]) InvNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
+	if len(vOut) != ntt.rank || len(v) != ntt.rank {
+		panic("inconsistent input(s)")
 	}
 
+	copyVecTo(vOut, v)
+
 	inttInPlace(vOut, ntt.twInv)
 	scalarMulVecTo(vOut, vOut, ntt.rankInv)
 }
diff --git a/math/bigpoly/poly.go b/math/bigpoly/poly.go
index 8674f9e..2591323 100644
--- a/math/bigpoly/poly.go
+++ b/math/bigpoly/poly.go
@@ -2,7 +2,6 @@ package bigpoly
 
 import (
 	"bytes"
-	"unsafe"
 
 	"github.com/sp301415/ringo-snark/math/bignum"
 )
@@ -42,21 +41,12 @@ func (p *Poly[E]) Marshal() []byte {
 
 // CopyFrom copies p0 to p.
 func (p *Poly[E]) CopyFrom(p0 *Poly[E]) {
-	for i := 0; i < len(p.Coeffs); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&p.Coeffs[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&p0.Coeffs[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
+	if len(p.Coeffs) != len(p0.Coeffs) {
+		panic("inconsistent input(s)")
 	}
 
+	copyVecTo(p.Coeffs, p0.Coeffs)
+
 	p.IsNTT = p0.IsNTT
 }
 
diff --git a/math/bigpoly/vec.go b/math/bigpoly/vec.go
index 8c39c46..256b18d 100644
--- a/math/bigpoly/vec.go
+++ b/math/bigpoly/vec.go
@@ -6,6 +6,28 @@ import (
 	"github.com/sp301415/ringo-snark/math/bignum"
 )
 
+func copyVecTo[E bignum.Uint[E]](xOut, x0 []E) {
+	M := (len(xOut) >> 3) << 3
+	for i := 0; i < M; i += 8 {
+		wOut := (*[8]E)(unsafe.Pointer(&xOut[i]))
+		w0 := (*[8]E)(unsafe.Pointer(&x0[i]))
+
+		wOut[0].Set(w0[0])
+		wOut[1].Set(w0[1])
+		wOut[2].Set(w0[2])
+		wOut[3].Set(w0[3])
+
+		wOut[4].Set(w0[4])
+		wOut[5].Set(w0[5])
+		wOut[6].Set(w0[6])
+		wOut[7].Set(w0[7])
+	}
+
+	for i := M; i < len(xOut); i++ {
+		xOut[i].Set(x0[i])
+	}
+}
+
 func addVecTo[E bignum.Uint[E]](xOut, x0, x1 []E) {
 	M := (len(xOut) >> 3) << 3
 	for i := 0; i < M; i += 8 {
-- 
2.43.0


From 37bdb115cc477c368a3b3cb91ee3573d55d7670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 13/23] fix: check the domain of the accumulator in fused
 multiply-add operations

MulAddTo, MulSubTo, ScalarMulAddTo and ScalarMulSubTo accumulated into a
polynomial of the other domain and relabelled the mixture.
---
 math/bigpoly/base_op.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/math/bigpoly/base_op.go b/math/bigpoly/base_op.go
index ce855bc..a06d5cf 100644
--- a/math/bigpoly/base_op.go
+++ b/math/bigpoly/base_op.go
@@ -101,6 +101,9 @@ func (op *baseOperator[E]) ScalarMulTo(pOut, p *Poly[E], c E) {
 // ScalarMulAddTo computes pOut += c * p.
 func (op *baseOperator[E]) ScalarMulAddTo(pOut, p *Poly[E], c E) {
 	checkUnaryOperable(op.rank, pOut, p)
+	if pOut.IsNTT != p.IsNTT {
+		panic("inconsistent input(s)")
+	}
 
 	pBuf := op.pool.Get().(*Poly[E])
 	defer op.pool.Put(pBuf)
@@ -113,6 +116,9 @@ func (op *baseOperator[E]) ScalarMulAddTo(pOut, p *Poly[E], c E) {
 // ScalarMulSubTo computes pOut -= c * p.
 func (op *baseOperator[E]) ScalarMulSubTo(pOut, p *Poly[E], c E) {
 	checkUnaryOperable(op.rank, pOut, p)
+	if pOut.IsNTT != p.IsNTT {
+		panic("inconsistent input(s)")
+	}
 
 	pBuf := op.pool.Get().(*Poly[E])
 	defer op.pool.Put(pBuf)
@@ -143,7 +149,7 @@ func (op *baseOperator[E]) MulTo(pOut, p0, p1 *Poly[E]) {
 // MulAddTo computes pOut +=  p0 * p1.
 func (op *baseOperator[E]) MulAddTo(pOut, p0, p1 *Poly[E]) {
 	checkBinaryOperable(op.rank, pOut, p0, p1)
-	if !p0.IsNTT || !p1.IsNTT {
+	if !pOut.IsNTT || !p0.IsNTT || !p1.IsNTT {
 		panic("input(s) not in NTT domain")
 	}
 
@@ -158,7 +164,7 @@ func (op *baseOperator[E]) MulAddTo(pOut, p0, p1 *Poly[E]) {
 // MulSubTo computes pOut -= p0 * p1.
 func (op *baseOperator[E]) MulSubTo(pOut, p0, p1 *Poly[E]) {
 	checkBinaryOperable(op.rank, pOut, p0, p1)
-	if !p0.IsNTT || !p1.IsNTT {
+	if !pOut.IsNTT || !p0.IsNTT || !p1.IsNTT {
 		panic("input(s) not in NTT domain")
 	}
 
-- 
2.43.0


From 72903468461c8a76608e9d76e9a91e2f2164fbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 14/23] fix: overwrite the buffer given to UniformSampler.Read

The keystream was XORed into the previous contents of the buffer, so the output
depended on them, and reading with equal seeds could give different bytes.
---
 math/csprng/uniform.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/csprng/uniform.go b/math/csprng/uniform.go
index bdb915e..f1d06de 100644
--- a/math/csprng/uniform.go
+++ b/math/csprng/uniform.go
@@ -56,6 +56,7 @@ func NewUniformSamplerWithSeed(seed []byte) *UniformSampler {
 // Read implements the [io.Reader] interface.
 // It always succeeds, with n == len(p) and err == nil.
 func (s *UniformSampler) Read(p []byte) (n int, err error) {
+	clear(p)
 	s.prng.XORKeyStream(p, p)
 	return len(p), nil
 }
-- 
2.43.0


From 024f8b7001c051ceb953c42cf6f3332473595a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 15/23] fix: make the parameter search terminate and return
 complete parameters

The search for the inner MSIS rank never ended once the modulus exceeded the
maximum, a failed prime search left parameters of the failed candidate behind,
and an unsuccessful search returned zero parameters with nil rings.
---
 jindo/params.go | 56 ++++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/jindo/params.go b/jindo/params.go
index d075b46..1a8190e 100644
--- a/jindo/params.go
+++ b/jindo/params.go
@@ -144,6 +144,7 @@ func NewParameters[E bignum.Uint[E]](targetN, batch int) Parameters {
 
 	maxCols := int(math.Ceil(float64(targetN) / l))
 	minSize := math.Inf(1)
+search:
 	for nn := 1; nn <= maxCols; nn <<= 1 {
 		n := float64(nn)
 		m := math.Ceil(float64(targetN) / (n * l))
@@ -207,10 +208,10 @@ func NewParameters[E bignum.Uint[E]](targetN, batch int) Parameters {
 			q = math.Exp2(float64(qBits * qLimbs))
 
 			if math.Log2(q) > maxLogQ {
-				continue
+				continue search
 			}
 
-			if findMSISRank(d, q, inMSISBeta) == mu {
+			if findMSISRank(d, q, inMSISBeta) <= mu {
 				inMSISRank = float64(mu)
 				break
 			}
@@ -256,26 +257,6 @@ func NewParameters[E bignum.Uint[E]](targetN, batch int) Parameters {
 		pfSize += ((n + 1) * inMSISRank * d) * math.Log2(inDcmpInf) // Inner Commitments
 
 		if comSize+pfSize < minSize {
-			minSize = comSize + pfSize
-
-			params.batch = batch
-
-			params.rank = int(n) * int(m) * int(l)
-			params.rows = int(m) + 1
-			params.cols = int(n)
-
-			params.ecd = ecd
-			params.slots = int(d) / ecd.exp
-
-			params.inMSISRank = int(inMSISRank)
-			params.outMSISRank = int(outMSISRank)
-			params.mlweRank = int(nu)
-
-			params.logInCutOff = uint64(math.Floor(math.Log2(inCutOffInf)))
-			params.logOutCutOff = uint64(math.Floor(math.Log2(outCutOffInf)))
-
-			params.inComDcmpLen = int((n + 1) * inMSISRank)
-
 			qLimbs := int(math.Ceil(math.Log2(q) / 60))
 			qBits := int(math.Ceil(math.Log2(q) / float64(qLimbs)))
 			qGen := ring.NewNTTFriendlyPrimesGenerator(uint64(qBits), 2*uint64(d))
@@ -283,7 +264,7 @@ func NewParameters[E bignum.Uint[E]](targetN, batch int) Parameters {
 			if err != nil {
 				continue
 			}
-			params.ringQ, err = ring.NewRing(int(d), q)
+			ringQ, err := ring.NewRing(int(d), q)
 			if err != nil {
 				panic(err)
 			}
@@ -295,11 +276,34 @@ func NewParameters[E bignum.Uint[E]](targetN, batch int) Parameters {
 			if err != nil {
 				continue
 			}
-			params.ringQOut, err = ring.NewRing(int(d), qq)
+			ringQOut, err := ring.NewRing(int(d), qq)
 			if err != nil {
 				panic(err)
 			}
 
+			minSize = comSize + pfSize
+
+			params.batch = batch
+
+			params.rank = int(n) * int(m) * int(l)
+			params.rows = int(m) + 1
+			params.cols = int(n)
+
+			params.ecd = ecd
+			params.slots = int(d) / ecd.exp
+
+			params.inMSISRank = int(inMSISRank)
+			params.outMSISRank = int(outMSISRank)
+			params.mlweRank = int(nu)
+
+			params.logInCutOff = uint64(math.Floor(math.Log2(inCutOffInf)))
+			params.logOutCutOff = uint64(math.Floor(math.Log2(outCutOffInf)))
+
+			params.inComDcmpLen = int((n + 1) * inMSISRank)
+
+			params.ringQ = ringQ
+			params.ringQOut = ringQOut
+
 			params.ecdStdDev = ecdStdDev / math.Sqrt(2*math.Pi)
 			params.ecdBlindStdDev = ecdBlindStdDev / math.Sqrt(2*math.Pi)
 			params.maskStdDev = maskStdDev / math.Sqrt(2*math.Pi)
@@ -316,6 +320,10 @@ func NewParameters[E bignum.Uint[E]](targetN, batch int) Parameters {
 		}
 	}
 
+	if math.IsInf(minSize, 1) {
+		panic("NewParameters: no suitable parameters found")
+	}
+
 	return params
 }
 
-- 
2.43.0


From f0c78dd9a6125975c9055a1a1db764739862e3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 16/23] fix: allocate outer commitments and inner commitment
 proofs in the outer ring

They were allocated in the inner ring, although all operations on them are over
the outer ring: residues of the wrong moduli were absorbed and stored.
---
 jindo/entities.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jindo/entities.go b/jindo/entities.go
index 4c27ac9..4784494 100644
--- a/jindo/entities.go
+++ b/jindo/entities.go
@@ -85,7 +85,7 @@ type Commitment struct {
 func NewCommitment(params Parameters) *Commitment {
 	com := make([]ring.Poly, params.outMSISRank)
 	for i := range com {
-		com[i] = params.ringQ.NewPoly()
+		com[i] = params.ringQOut.NewPoly()
 	}
 
 	return &Commitment{
@@ -165,7 +165,7 @@ func NewProof(params Parameters) *Proof {
 
 	inCom := make([]ring.Poly, params.inComDcmpLen)
 	for i := 0; i < params.inComDcmpLen; i++ {
-		inCom[i] = params.ringQ.NewPoly()
+		inCom[i] = params.ringQOut.NewPoly()
 	}
 
 	return &Proof{
-- 
2.43.0


From ebe17e23ff66e4decd303514e12d3950b0b742ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 17/23] fix: reject malformed proofs instead of panicking

A proof with missing, nil, misshapen or unreduced parts made Verify panic.
---
 buckler/verifier.go | 24 +++++++++++++++++++++++
 jindo/entities.go   | 46 +++++++++++++++++++++++++++++++++++++++++++++
 jindo/verifier.go   | 13 ++++++++++---
 3 files changed, 80 insertions(+), 3 deletions(-)

diff --git a/buckler/verifier.go b/buckler/verifier.go
index 5a0c87f..455c48c 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -31,6 +31,10 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 		return false
 	}
 
+	if !v.isWellFormed(pf) {
+		return false
+	}
+
 	var z E
 
 	pw := make([]PublicWitness[E], v.ctx.pwCnt)
@@ -220,6 +224,26 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 	return true
 }
 
+// isWellFormed returns true if pf has every part that the verifier uses.
+func (v *Verifier[E]) isWellFormed(pf *Proof[E]) bool {
+	if pf == nil || len(pf.Witness) != v.ctx.batch() || len(pf.Evals) != v.ctx.batch() {
+		return false
+	}
+
+	var null E
+	for i := range pf.Witness {
+		if pf.Witness[i] == nil || any(pf.Evals[i]) == any(null) {
+			return false
+		}
+	}
+
+	if v.ctx.HasLinearCheck() && any(pf.LinCheckMaskSum) == any(null) {
+		return false
+	}
+
+	return !v.ctx.HasSumCheck() || any(pf.SumCheckMaskSum) != any(null)
+}
+
 func (v *Verifier[E]) evalCircuit(batchConst E, constraints []ArithmeticConstraint[E], evals []E, pwEvals []E) E {
 	var z E
 
diff --git a/jindo/entities.go b/jindo/entities.go
index 4784494..c1f613f 100644
--- a/jindo/entities.go
+++ b/jindo/entities.go
@@ -99,6 +99,11 @@ func (com *Commitment) WriteRawTo(w io.Writer) {
 	}
 }
 
+// isValid returns true if com is a well-formed commitment for params.
+func (com *Commitment) isValid(params Parameters) bool {
+	return com != nil && isValidPolyVec(params.ringQOut, com.Value, params.outMSISRank)
+}
+
 // Opening is an opening of a commitment.
 type Opening struct {
 	InCommit []ring.Poly
@@ -177,3 +182,44 @@ func NewProof(params Parameters) *Proof {
 		InCommit: inCom,
 	}
 }
+
+// isValid returns true if pf is a well-formed proof for params.
+func (pf *Proof) isValid(params Parameters) bool {
+	return pf != nil &&
+		isValidPolyVec(params.ringQOut, pf.InCommit, params.inComDcmpLen) &&
+		isValidPolyVec(params.ringQ, pf.Partial, params.cols) &&
+		isValidPoly(params.ringQ, pf.PartialMask) &&
+		isValidPolyVec(params.ringQ, pf.Encode, params.rows) &&
+		isValidPolyVec(params.ringQ, pf.MLWE, params.mlweRank+params.inMSISRank)
+}
+
+// isValidPolyVec returns true if p is a vector of n reduced polynomials of ringQ.
+func isValidPolyVec(ringQ *ring.Ring, p []ring.Poly, n int) bool {
+	if len(p) != n {
+		return false
+	}
+	for i := range p {
+		if !isValidPoly(ringQ, p[i]) {
+			return false
+		}
+	}
+	return true
+}
+
+// isValidPoly returns true if p is a reduced polynomial of ringQ.
+func isValidPoly(ringQ *ring.Ring, p ring.Poly) bool {
+	if len(p.Coeffs) != ringQ.ModuliChainLength() {
+		return false
+	}
+	for i := range p.Coeffs {
+		if len(p.Coeffs[i]) != ringQ.N() {
+			return false
+		}
+		for j := range p.Coeffs[i] {
+			if p.Coeffs[i][j] >= ringQ.SubRings[i].Modulus {
+				return false
+			}
+		}
+	}
+	return true
+}
diff --git a/jindo/verifier.go b/jindo/verifier.go
index 03652cc..b895b5e 100644
--- a/jindo/verifier.go
+++ b/jindo/verifier.go
@@ -47,10 +47,17 @@ func NewVerifier[E bignum.Uint[E]](params Parameters, crs []byte) *Verifier[E] {
 }
 
 // Verify verfies the polynomial commitment.
+// Returns false if com, y or pf is malformed.
 func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
-	switch {
-	case len(com) != v.params.batch || len(y) != v.params.batch:
-		panic("len(v) != params.batch")
+	if len(com) != v.params.batch || len(y) != v.params.batch || !pf.isValid(v.params) {
+		return false
+	}
+
+	var null E
+	for i := range v.params.batch {
+		if !com[i].isValid(v.params) || any(y[i]) == any(null) {
+			return false
+		}
 	}
 
 	oracle := sha3.NewSHAKE128()
-- 
2.43.0


From 98707f62cbdc51d438513d1b3525694cf3e2e656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 18/23] fix: support several norm constraints of the same kind
 on one witness

A later constraint replaced the bookkeeping of an earlier one, so the auxiliary
witnesses of the earlier one stayed zero and honest proofs were rejected.
---
 buckler/context.go  | 42 ++++++++++++++---------------
 buckler/prover.go   | 65 +++++++++++++++++++++++++--------------------
 buckler/verifier.go | 18 +++++++------
 3 files changed, 67 insertions(+), 58 deletions(-)

diff --git a/buckler/context.go b/buckler/context.go
index 5dce38b..67fb37a 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -40,16 +40,16 @@ type Context[E bignum.Uint[E]] struct {
 	linCheckers         []LinearChecker[E]
 	linCheckConstraints map[LinearChecker[E]][][2]uint64
 
-	infDcmpBound   map[uint64]*big.Int
-	infDcmpWitness map[uint64][]Witness[E]
+	infDcmpBound   map[uint64][]*big.Int
+	infDcmpWitness map[uint64][][]Witness[E]
 
-	twoDcmpBound   map[uint64]*big.Int
-	twoDcmpBase    map[uint64]PublicWitness[E]
-	twoDcmpMask    map[uint64]PublicWitness[E]
-	twoDcmpWitness map[uint64]Witness[E]
+	twoDcmpBound   map[uint64][]*big.Int
+	twoDcmpBase    map[uint64][]PublicWitness[E]
+	twoDcmpMask    map[uint64][]PublicWitness[E]
+	twoDcmpWitness map[uint64][]Witness[E]
 
 	projChecker        LinearChecker[E]
-	projWitness        map[uint64]Witness[E]
+	projWitness        map[uint64][]Witness[E]
 	projInfDcmpBound   map[uint64]*big.Int
 	projInfDcmpWitness map[uint64]Witness[E]
 }
@@ -69,15 +69,15 @@ func newContext[E bignum.Uint[E]](rank int, walker *walker[E]) *Context[E] {
 
 		linCheckConstraints: make(map[LinearChecker[E]][][2]uint64),
 
-		infDcmpBound:   make(map[uint64]*big.Int),
-		infDcmpWitness: make(map[uint64][]Witness[E]),
+		infDcmpBound:   make(map[uint64][]*big.Int),
+		infDcmpWitness: make(map[uint64][][]Witness[E]),
 
-		twoDcmpBound:   make(map[uint64]*big.Int),
-		twoDcmpBase:    make(map[uint64]PublicWitness[E]),
-		twoDcmpMask:    make(map[uint64]PublicWitness[E]),
-		twoDcmpWitness: make(map[uint64]Witness[E]),
+		twoDcmpBound:   make(map[uint64][]*big.Int),
+		twoDcmpBase:    make(map[uint64][]PublicWitness[E]),
+		twoDcmpMask:    make(map[uint64][]PublicWitness[E]),
+		twoDcmpWitness: make(map[uint64][]Witness[E]),
 
-		projWitness:        make(map[uint64]Witness[E]),
+		projWitness:        make(map[uint64][]Witness[E]),
 		projInfDcmpBound:   make(map[uint64]*big.Int),
 		projInfDcmpWitness: make(map[uint64]Witness[E]),
 	}
@@ -148,8 +148,8 @@ func (ctx *Context[E]) AddInfNormConstraintBig(w Witness[E], bound *big.Int) {
 	for i := ctx.wCnt; i < ctx.wCnt+uint64(len(dcmpBase)); i++ {
 		wDcmp = append(wDcmp, idToWitness[E, Witness[E]](i))
 	}
-	ctx.infDcmpWitness[id] = wDcmp
-	ctx.infDcmpBound[id] = bound
+	ctx.infDcmpWitness[id] = append(ctx.infDcmpWitness[id], wDcmp)
+	ctx.infDcmpBound[id] = append(ctx.infDcmpBound[id], bound)
 	ctx.wCnt += uint64(len(dcmpBase))
 
 	for i := range wDcmp {
@@ -191,10 +191,10 @@ func (ctx *Context[E]) AddSqNormConstraintBig(w Witness[E], bound *big.Int) {
 	pwMask := idToWitness[E, PublicWitness[E]](ctx.pwCnt + 1)
 	ctx.pwCnt += 2
 
-	ctx.twoDcmpBound[id] = bound
-	ctx.twoDcmpBase[id] = pwBase
-	ctx.twoDcmpMask[id] = pwMask
-	ctx.twoDcmpWitness[id] = wDcmp
+	ctx.twoDcmpBound[id] = append(ctx.twoDcmpBound[id], bound)
+	ctx.twoDcmpBase[id] = append(ctx.twoDcmpBase[id], pwBase)
+	ctx.twoDcmpMask[id] = append(ctx.twoDcmpMask[id], pwMask)
+	ctx.twoDcmpWitness[id] = append(ctx.twoDcmpWitness[id], wDcmp)
 
 	var binConstraint ArithmeticConstraint[E]
 	binConstraint.AddTermWithConst(z.New().SetInt64(1), nil, wDcmp, wDcmp)
@@ -232,7 +232,7 @@ func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.In
 	ctx.wCnt++
 
 	ctx.AddLinearConstraint(wProj, w, ctx.projChecker)
-	ctx.projWitness[witnessToID(w)] = wProj
+	ctx.projWitness[witnessToID(w)] = append(ctx.projWitness[witnessToID(w)], wProj)
 
 	wProjDcmp := idToWitness[E, Witness[E]](ctx.wCnt)
 	ctx.wCnt++
diff --git a/buckler/prover.go b/buckler/prover.go
index b5d89ca..7ccbbc2 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -77,40 +77,45 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 
 	bigCoeff := new(big.Int)
 
-	for id, wDcmps := range p.ctx.infDcmpWitness {
-		base := decomposeBase(p.ctx.infDcmpBound[id])
-		for i := range p.ctx.rank {
-			wData.w[id][i].BigInt(bigCoeff)
-			dcmp := decomposeBig(bigCoeff, base, mod)
-			for j, wDcmp := range wDcmps {
-				wData.w[witnessToID(wDcmp)][i].SetInt64(dcmp[j])
+	for id, bounds := range p.ctx.infDcmpBound {
+		for k, bound := range bounds {
+			base := decomposeBase(bound)
+			wDcmps := p.ctx.infDcmpWitness[id][k]
+			for i := range p.ctx.rank {
+				wData.w[id][i].BigInt(bigCoeff)
+				dcmp := decomposeBig(bigCoeff, base, mod)
+				for j, wDcmp := range wDcmps {
+					wData.w[witnessToID(wDcmp)][i].SetInt64(dcmp[j])
+				}
 			}
 		}
 	}
 
 	sqNm, mul := new(big.Int), new(big.Int)
-	for id, bound := range p.ctx.twoDcmpBound {
-		base := decomposeBase(bound)
-
-		pwBaseID := witnessToID(p.ctx.twoDcmpBase[id])
-		pwMaskID := witnessToID(p.ctx.twoDcmpMask[id])
-		for i := range base {
-			wData.pw[pwBaseID][i].SetBigInt(base[i])
-			wData.pw[pwMaskID][i].SetInt64(1)
-		}
+	for id, bounds := range p.ctx.twoDcmpBound {
+		for k, bound := range bounds {
+			base := decomposeBase(bound)
+
+			pwBaseID := witnessToID(p.ctx.twoDcmpBase[id][k])
+			pwMaskID := witnessToID(p.ctx.twoDcmpMask[id][k])
+			for i := range base {
+				wData.pw[pwBaseID][i].SetBigInt(base[i])
+				wData.pw[pwMaskID][i].SetInt64(1)
+			}
 
-		sqNm.SetUint64(0)
-		for i := range p.ctx.rank {
-			wData.w[id][i].BigInt(bigCoeff)
-			mul.Mul(bigCoeff, bigCoeff)
-			sqNm.Add(sqNm, mul)
-		}
-		sqNm.Mod(sqNm, mod)
+			sqNm.SetUint64(0)
+			for i := range p.ctx.rank {
+				wData.w[id][i].BigInt(bigCoeff)
+				mul.Mul(bigCoeff, bigCoeff)
+				sqNm.Add(sqNm, mul)
+			}
+			sqNm.Mod(sqNm, mod)
 
-		dcmp := decomposeBig(sqNm, base, mod)
-		wDcmpID := witnessToID(p.ctx.twoDcmpWitness[id])
-		for i := range dcmp {
-			wData.w[wDcmpID][i].SetInt64(dcmp[i])
+			dcmp := decomposeBig(sqNm, base, mod)
+			wDcmpID := witnessToID(p.ctx.twoDcmpWitness[id][k])
+			for i := range dcmp {
+				wData.w[wDcmpID][i].SetInt64(dcmp[i])
+			}
 		}
 	}
 
@@ -180,8 +185,10 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 			}
 		}
 
-		for id, wProj := range p.ctx.projWitness {
-			chk.TransformTo(wData.w[witnessToID(wProj)], wData.w[id])
+		for id, wProjs := range p.ctx.projWitness {
+			for _, wProj := range wProjs {
+				chk.TransformTo(wData.w[witnessToID(wProj)], wData.w[id])
+			}
 		}
 
 		for id, wDcmp := range p.ctx.projInfDcmpWitness {
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 455c48c..04716d4 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -53,14 +53,16 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 		}
 	}
 
-	for id, bound := range v.ctx.twoDcmpBound {
-		base := decomposeBase(bound)
-
-		pwBaseID := witnessToID(v.ctx.twoDcmpBase[id])
-		pwMaskID := witnessToID(v.ctx.twoDcmpMask[id])
-		for i := range base {
-			pw[pwBaseID][i].SetBigInt(base[i])
-			pw[pwMaskID][i].SetInt64(1)
+	for id, bounds := range v.ctx.twoDcmpBound {
+		for k, bound := range bounds {
+			base := decomposeBase(bound)
+
+			pwBaseID := witnessToID(v.ctx.twoDcmpBase[id][k])
+			pwMaskID := witnessToID(v.ctx.twoDcmpMask[id][k])
+			for i := range base {
+				pw[pwBaseID][i].SetBigInt(base[i])
+				pw[pwMaskID][i].SetInt64(1)
+			}
 		}
 	}
 
-- 
2.43.0


From 9e4e8d427ff6953f3d395c49d3c6f9316875f412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 19/23] fix: use values instead of table indices in the
 twin-CDT sampler

The thresholds of the two tables were compared with the index of a table entry
instead of the value it stands for, and the scan for the common prefix stopped one
entry early, so samples around non-zero centers were biased.
---
 math/csprng/gaussian_twin_cdt.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/math/csprng/gaussian_twin_cdt.go b/math/csprng/gaussian_twin_cdt.go
index 34f8214..fa9b24e 100644
--- a/math/csprng/gaussian_twin_cdt.go
+++ b/math/csprng/gaussian_twin_cdt.go
@@ -22,7 +22,7 @@ func computeCDT(center, sigma float64) []uint64 {
 		xf := float64(x)
 		rho := math.Exp(-(xf-center)*(xf-center)/(2*sigma*sigma)) / norm
 		cdf += rho
-		if cdf > 1 {
+		if cdf >= 1 {
 			table[i] = math.MaxUint64
 		} else {
 			table[i] = uint64(math.Round(cdf * math.Exp2(64)))
@@ -92,13 +92,18 @@ func (s *TwinCDTGaussianSampler) Sample(center float64) int64 {
 		v1 -= 1
 	}
 
+	if c1 < c0 {
+		// The table for center one is the table for center zero, shifted by one.
+		v1 += 1
+	}
+
 	if v0 == v1 {
 		return int64(v0) + int64(cFloor) + s.tailLo
 	}
 
 	cdf := 0.0
 	norm := math.Sqrt(2*math.Pi) * s.stdDev
-	for x := s.tailLo; x <= int64(v0); x++ {
+	for x := s.tailLo; x <= int64(v0)+s.tailLo; x++ {
 		xf := float64(x)
 		cdf += math.Exp(-(xf-cFrac)*(xf-cFrac)/(2*s.stdDev*s.stdDev)) / norm
 	}
-- 
2.43.0


From 7c07b8c78c99b0e4ccffb74a5ccd2e8e35eac064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:03 +0000
Subject: [PATCH 20/23] fix: let the COSAC sampler's rounding step return only
 nonzero offsets

Zero is returned by the first step with its full weight; returning it from
the second step as well made it more than twice as likely.
---
 math/csprng/gaussian_cosac.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/csprng/gaussian_cosac.go b/math/csprng/gaussian_cosac.go
index ea64185..985611c 100644
--- a/math/csprng/gaussian_cosac.go
+++ b/math/csprng/gaussian_cosac.go
@@ -29,10 +29,10 @@ func (s *COSACSampler) sampleRound(cFrac, stdDev float64) int64 {
 		var cmp bool
 		if b == 0 {
 			yRound = math.Round(y) - 1
-			cmp = yRound <= 0.5
+			cmp = yRound <= -0.5
 		} else {
 			yRound = math.Round(y) + 1
-			cmp = yRound >= -0.5
+			cmp = yRound >= 0.5
 		}
 
 		if cmp {
-- 
2.43.0


From a4ab409e67c97403aaa211740ad56c7b47e49f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:03 +0000
Subject: [PATCH 21/23] fix: initialise the top of the ziggurat in the rounded
 Gaussian sampler

With fn[0] = 0 every point of the topmost layer was accepted.
---
 math/csprng/gaussian_rounded.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/csprng/gaussian_rounded.go b/math/csprng/gaussian_rounded.go
index a289c73..2a9fe90 100644
--- a/math/csprng/gaussian_rounded.go
+++ b/math/csprng/gaussian_rounded.go
@@ -29,6 +29,7 @@ func init() {
 	}
 
 	const scale = 1 << floatPrec
+	fn[0] = normal(0)
 	for i := 1; i < blockSize; i++ {
 		kn[i] = uint64((xn[i-1] / xn[i]) * scale)
 		wn[i] = xn[i] / scale
-- 
2.43.0


From 5962511becc77d0824be929c52281c5896277cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:53 +0000
Subject: [PATCH 22/23] fix: end the search for a modulus at the largest base

Beyond the largest base every candidate was skipped one by one, up to the
square root of the modulus: ranges such as 51-128 bits never ended.
---
 jindo-modulus/main.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/jindo-modulus/main.go b/jindo-modulus/main.go
index c188ea0..0e02b56 100644
--- a/jindo-modulus/main.go
+++ b/jindo-modulus/main.go
@@ -42,7 +42,7 @@ func findModulus(bitStart, bitEnd int) (p *big.Int, b uint64, k uint64) {
 			continue
 		}
 
-		for b := bStart; b <= min(math.MaxUint64, bEnd); b++ {
+		for b := bStart; b <= min(baseBound, bEnd); b++ {
 			bBig := big.NewInt(int64(b))
 			bExpBig := new(big.Int).Exp(bBig, kBig, nil)
 			p.Add(bExpBig, big.NewInt(1))
@@ -59,10 +59,6 @@ func findModulus(bitStart, bitEnd int) (p *big.Int, b uint64, k uint64) {
 				continue
 			}
 
-			if b > baseBound {
-				continue
-			}
-
 			return p, b, k
 		}
 	}
-- 
2.43.0


From 234263220c7fc12ba9f1727b4150f37c0dd268bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:09 +0000
Subject: [PATCH 23/23] fix: constraints keep their own copies of coefficients,
 sums and bounds

---
 buckler/constraint.go | 2 +-
 buckler/context.go    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/buckler/constraint.go b/buckler/constraint.go
index 5f5711c..41a9255 100644
--- a/buckler/constraint.go
+++ b/buckler/constraint.go
@@ -31,7 +31,7 @@ func (c *ArithmeticConstraint[E]) SubTerm(coeffPublicWitness PublicWitness[E], w
 // Specifically, it adds coeff * coeffPublicWitness * witness[0] * ... * witness[n] to the constraint.
 // If coeffPublicWitness is nil, it is ignored.
 func (c *ArithmeticConstraint[E]) AddTermWithConst(coeff E, coeffPublicWitness PublicWitness[E], witness ...Witness[E]) {
-	c.coeffs = append(c.coeffs, coeff)
+	c.coeffs = append(c.coeffs, coeff.New().Set(coeff))
 
 	if coeffPublicWitness != nil {
 		c.hasCoeffPublicWitness = append(c.hasCoeffPublicWitness, true)
diff --git a/buckler/context.go b/buckler/context.go
index 67fb37a..6f1b9bf 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -97,7 +97,7 @@ func (ctx *Context[E]) AddSumCheckConstraint(c ArithmeticConstraint[E], sum uint
 // AddSumCheckConstraintBig adds a sumcheck constraint to the context.
 func (ctx *Context[E]) AddSumCheckConstraintBig(c ArithmeticConstraint[E], sum *big.Int) {
 	ctx.sumCheckConstraints = append(ctx.sumCheckConstraints, c)
-	ctx.sumCheckSums = append(ctx.sumCheckSums, sum)
+	ctx.sumCheckSums = append(ctx.sumCheckSums, new(big.Int).Set(sum))
 	ctx.sumCheckMaxRank = max(ctx.sumCheckMaxRank, c.maxRank(ctx.rank))
 }
 
@@ -149,7 +149,7 @@ func (ctx *Context[E]) AddInfNormConstraintBig(w Witness[E], bound *big.Int) {
 		wDcmp = append(wDcmp, idToWitness[E, Witness[E]](i))
 	}
 	ctx.infDcmpWitness[id] = append(ctx.infDcmpWitness[id], wDcmp)
-	ctx.infDcmpBound[id] = append(ctx.infDcmpBound[id], bound)
+	ctx.infDcmpBound[id] = append(ctx.infDcmpBound[id], new(big.Int).Set(bound))
 	ctx.wCnt += uint64(len(dcmpBase))
 
 	for i := range wDcmp {
@@ -191,7 +191,7 @@ func (ctx *Context[E]) AddSqNormConstraintBig(w Witness[E], bound *big.Int) {
 	pwMask := idToWitness[E, PublicWitness[E]](ctx.pwCnt + 1)
 	ctx.pwCnt += 2
 
-	ctx.twoDcmpBound[id] = append(ctx.twoDcmpBound[id], bound)
+	ctx.twoDcmpBound[id] = append(ctx.twoDcmpBound[id], new(big.Int).Set(bound))
 	ctx.twoDcmpBase[id] = append(ctx.twoDcmpBase[id], pwBase)
 	ctx.twoDcmpMask[id] = append(ctx.twoDcmpMask[id], pwMask)
 	ctx.twoDcmpWitness[id] = append(ctx.twoDcmpWitness[id], wDcmp)
-- 
2.43.0

