package main

import (
	"math/big"
	"strings"
)

// Witness numbers recorded by the compiler. Every constraint builder numbers the witnesses it
// introduces afresh, after those of the assignment, so numbers of different origin differ.

func witClass(t *Term) string {
	// the fields read on the way to the value, innermost root last
	path := func(x *Term) string {
		p := ""
		for len(x.args) > 0 {
			switch x.op {
			case "init":
				p += x.s + "/"
			case "app", "content", "ptr", "elem", "at", "coef":
			default:
				return p
			}
			x = x.args[0]
		}
		return p
	}
	switch {
	case t.pk == 'I' && len(t.monos) == 1 && len(t.monos[0].at) == 1 && t.monos[0].c.Cmp(one) == 0:
		return witClass(t.monos[0].at[0])
	case t.op == "mapkey":
		p := path(t.args[0])
		switch {
		case strings.Contains(p, ".projInfDcmp"):
			return "w:proj"
		case strings.Contains(p, ".infDcmp"), strings.Contains(p, ".twoDcmp"), strings.Contains(p, ".projWitness"):
			return "w:user"
		}
	case t.op == "app" && t.s == "wid":
		p := path(t.args[0])
		switch {
		case strings.Contains(p, ".wSecond"):
			return "w:second"
		case strings.Contains(p, ".projInfDcmpWitness"):
			return "w:projdigits"
		case strings.Contains(p, ".projWitness"):
			return "w:proj"
		case strings.Contains(p, ".infDcmpWitness"):
			return "w:digits"
		case strings.Contains(p, ".twoDcmpWitness"):
			return "w:normdigits"
		case strings.Contains(p, ".twoDcmpBase"):
			return "p:base"
		case strings.Contains(p, ".twoDcmpMask"):
			return "p:mask"
		}
	}
	return ""
}

// differentWitnesses reports whether a and b are numbers of different origin.
func differentWitnesses(a, b *Term) bool {
	x, y := witClass(a), witClass(b)
	if second(x) && y == "w:second" || second(y) && x == "w:second" {
		return false
	}
	return x != "" && y != "" && x != y && x[0] == y[0]
}

// second reports whether witnesses of the class belong to the second round.
func second(cl string) bool { return cl == "w:proj" || cl == "w:projdigits" }

// differenceOfWitnesses reports whether t is the difference of numbers of different origin.
func differenceOfWitnesses(t *Term) bool {
	if t.pk != 'I' || len(t.monos) != 2 {
		return false
	}
	a, b := t.monos[0], t.monos[1]
	if len(a.at) != 1 || len(b.at) != 1 || a.c.CmpAbs(one) != 0 || b.c.CmpAbs(one) != 0 || a.c.Sign() == b.c.Sign() {
		return false
	}
	return differentWitnesses(a.at[0], b.at[0])
}

// countOf names a number of witnesses.
func countOf(a *Term) string {
	switch {
	case a.op == "init" && strings.HasSuffix(a.s, "Cnt"):
		return a.s[strings.LastIndex(a.s, ".")+1:]
	case a.op == "app" && a.s == "walk.count":
		return a.args[0].s + "AssignCnt"
	}
	return ""
}

// witnessBound decides t >= 0 where t compares a witness number with the number of witnesses of
// the assignment, or of the circuit: those of the compiler follow those of the assignment.
func witnessBound(t *Term) (holds, ok bool) {
	if t.pk != 'I' || len(t.monos) < 2 || len(t.monos) > 3 {
		return false, false
	}
	c := new(big.Int)
	var w, n *Term
	sg := 0
	for _, m := range t.monos {
		switch {
		case len(m.at) == 0:
			c = m.c
		case len(m.at) != 1 || m.c.CmpAbs(one) != 0:
			return false, false
		default:
			a := m.at[0]
			if countOf(a) != "" {
				n = a
			} else {
				w = a
				sg = m.c.Sign()
			}
		}
	}
	if w == nil || n == nil {
		return false, false
	}
	cl := witClass(w)
	if cl == "" {
		return false, false
	}
	f := countOf(n)
	if (f == "wCnt" || f == "wAssignCnt") != (cl[0] == 'w') {
		return false, false
	}
	below := false // w < n
	switch f {
	case "wCnt", "pwCnt":
		below = true
	case "wAssignCnt", "pwAssignCnt":
		below = cl == "w:user"
	default:
		return false, false
	}
	switch {
	case below && sg < 0: // n - w + c with n - w >= 1
		if c.Cmp(big.NewInt(-1)) >= 0 {
			return true, true
		}
	case below: // w - n + c with w - n <= -1
		if c.Sign() <= 0 {
			return false, true
		}
	case sg > 0: // w - n + c with w - n >= 0
		if c.Sign() >= 0 {
			return true, true
		}
	default: // n - w + c with n - w <= 0
		if c.Sign() < 0 {
			return false, true
		}
	}
	return false, false
}
