package main

import "math/big"

// smallInt: floating-point numbers represent c and its neighbours exactly.
func smallInt(c *big.Int) bool { return c.BitLen() < 53 }

// intOfFloat is the integer that v was converted from, or nil.
func intOfFloat(v *Term) *Term {
	if v.op == "app" && v.s == "i2f" {
		return v.args[0]
	}
	if v.op == "flt" {
		if c, ok := new(big.Int).SetString(v.s, 10); ok && smallInt(c) {
			return kbig('I', c)
		}
	}
	return nil
}

// floatOf converts an integer.
func floatOf(v *Term) *Term {
	if c, ok := constOf(v); ok && smallInt(c) && c.Sign() >= 0 {
		return raw("flt", c.String())
	}
	return app("i2f", v)
}

func isFlt(t *Term, s string) bool { return t.op == "flt" && t.s == s }

// floatOp is the floating-point operation op ("f+", …). Whole numbers are taken to stay below
// 2^53; sums and products commute but do not associate.
func floatOp(op string, l, r *Term) *Term {
	if x, y := intOfFloat(l), intOfFloat(r); x != nil && y != nil {
		switch op {
		case "f+":
			return floatOf(addI(x, y))
		case "f-":
			return floatOf(subI(x, y))
		case "f*":
			return floatOf(mulI(x, y))
		case "fmin", "fmax":
			if l.op == "flt" || r.op == "flt" {
				return floatOf(minmax(op[1:], x, y))
			}
		}
	}
	// signs move out of products and quotients, and x + (-y) is x - y
	neg := func(t *Term) (*Term, bool) {
		if t.op == "app" && t.s == "fneg" {
			return t.args[0], true
		}
		return t, false
	}
	a, na := neg(l)
	b, nb := neg(r)
	mul := op == "f*" || op == "f/"
	switch {
	case mul && na != nb:
		return app("fneg", floatOp(op, a, b))
	case mul && na && nb:
		return floatOp(op, a, b)
	case op == "f+" && isFlt(l, "0"), op == "f*" && isFlt(l, "1"):
		return r
	case op == "f+" && isFlt(r, "0"), op == "f-" && isFlt(r, "0"), op == "f*" && isFlt(r, "1"), op == "f/" && isFlt(r, "1"):
		return l
	case op == "f+" && nb && !na:
		return floatOp("f-", a, b)
	case op == "f+" && na && !nb:
		return floatOp("f-", b, a)
	case op == "f-" && nb:
		return floatOp("f+", l, b)
	}
	if commutes(op) && l.id > r.id {
		l, r = r, l
	}
	return raw("app", op, l, r)
}
