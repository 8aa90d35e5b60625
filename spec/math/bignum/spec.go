package bignum

// through: math/bignum.Exp
func codeExp[E Uint[E]](x E, e uint64) E { return Exp(x, e) }

// through: math/bignum.Exp
// specExp is square-and-multiply: r * t^e is the power that is asked for, before and after each step.
func specExp[E Uint[E]](x E, e uint64) E {
	var z E
	r := z.New().SetUint64(1)
	t := z.New().Set(x)
	for ; e != 0; e /= 2 {
		if e%2 == 1 {
			r.Mul(r, t)
		}
		t.Mul(t, t)
	}
	return r
}
