package main

import (
	"fmt"
	"os"
)

func dbgSkel(w string, t *Term) {
	names := map[*Term]string{}
	var show func(t *Term) string
	show = func(t *Term) string {
		switch {
		case isConnective(t):
			s := t.op + "("
			for _, x := range t.args {
				s += show(x) + " "
			}
			return s + ")"
		case t.op == "forall" || t.op == "exists":
			fmt.Fprintln(os.Stderr, "   CNT", t.args[0].id, dshort(t.args[0], 5))
			return t.op + fmt.Sprint(t.args[0].id) + "[" + show(t.args[1]) + "]"
		}
		if names[t] == "" {
			defer func() { fmt.Fprintln(os.Stderr, "   ", t.id, t.op, dshort(t, 7)) }()
			names[t] = fmt.Sprintf("%s#%d", t.op, t.id)
		}
		return names[t]
	}
	fmt.Fprintln(os.Stderr, w, show(t))
	ts := map[int]*Term{}
	collect(t, func(x *Term) bool { ts[x.id] = x; return true })
	var a, b int
	fmt.Sscan(os.Getenv("DBGC"), &a, &b)
	dbgPair(ts, a, b)
}

func dshort(t *Term, d int) string {
	if d == 0 {
		return "…"
	}
	if t.pk != 0 {
		s := ""
		for _, m := range t.monos {
			s += "+" + m.c.String()
			for _, a := range m.at {
				s += "*" + dshort(a, d-1)
			}
		}
		return "(" + s + ")"
	}
	s := t.op + ":" + t.s + "("
	for _, x := range t.args {
		s += dshort(x, d-1) + ","
	}
	return s + ")"
}

func dbgPair(ts map[int]*Term, a, b int) {
	if ts[a] != nil && ts[b] != nil {
		var path func(x, y *Term, d int)
		path = func(x, y *Term, d int) {
			if x == y {
				return
			}
			fmt.Fprintln(os.Stderr, "DIFF", d, dshort(x, 3), "  //  ", dshort(y, 3))
			if x.op == y.op && x.s == y.s && len(x.args) == len(y.args) && x.pk == 0 {
				for i := range x.args {
					path(x.args[i], y.args[i], d+1)
				}
			} else if x.pk != 0 && y.pk == x.pk && len(x.monos) == len(y.monos) {
				for i := range x.monos {
					if len(x.monos[i].at) == len(y.monos[i].at) {
						for j := range x.monos[i].at {
							path(x.monos[i].at[j], y.monos[i].at[j], d+1)
						}
					}
				}
			}
		}
		path(ts[a], ts[b], 0)
	}
}
