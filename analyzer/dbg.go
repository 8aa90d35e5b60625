package main

import (
	"fmt"
	"os"
	"sort"
	"time"
)

func dagSize(t *Term) (n int, tree float64) {
	m := map[*Term]float64{}
	var w func(t *Term) float64
	w = func(t *Term) float64 {
		if v, ok := m[t]; ok {
			return v
		}
		s := 1.0
		for _, mo := range t.monos {
			for _, a := range mo.at {
				s += w(a)
			}
		}
		for _, a := range t.args {
			s += w(a)
		}
		m[t] = s
		return s
	}
	tree = w(t)
	return len(m), tree
}

// dbgStages prints sizes and normalisation times of the challenges of a function, innermost first.
func (p *Program) dbgStages(fi *FuncInfo) {
	e := newEngine(p)
	t0 := time.Now()
	r := e.evaluate(fi, nil, nil)
	fmt.Println("evaluated", time.Since(t0), "facts", len(r.st.fs().known))
	f := r.st.fs()
	n, tr := dagSize(r.pre)
	fmt.Println("pre", n, tr)
	var vs []*Term
	sig := fi.Obj.Signature()
	for i, v := range r.vals {
		v = e.value(r.st, v, sig.Results().At(i).Type(), 8)
		vs = append(vs, v)
		n, tr := dagSize(v)
		fmt.Println("val", i, n, tr, time.Since(t0))
	}
	m := map[*Term]*Term{}
	for k := 0; k < 20; k++ {
		// innermost challenge
		var best *Term
		for _, v := range vs {
			var w func(t *Term) bool
			seen := map[*Term]bool{}
			w = func(t *Term) bool {
				if seen[t] {
					return false
				}
				seen[t] = true
				found := false
				for _, mo := range t.monos {
					for _, a := range mo.at {
						found = w(a) || found
					}
				}
				for _, a := range t.args {
					found = w(a) || found
				}
				if t.op == "app" && (t.s == "challenge" || t.s == "xof") {
					if best == nil {
						best = t
					}
					return true
				}
				return found
			}
			w(v)
		}
		if best == nil {
			break
		}
		n, tr := dagSize(best)
		t1 := time.Now()
		fmt.Println("challenge", best.s, n, tr)
		if os.Getenv("NN") == "" {
			x := normalise(best, f)
			n, tr = dagSize(x)
			fmt.Println("   normalised", n, tr, time.Since(t1), "steps", lastNormer.steps)
			cnt := map[*Term]int{}
			for k := range lastNormer.memo {
				cnt[k.t]++
			}
			hist := map[int]int{}
			var ts []*Term
			for t, c := range cnt {
				hist[c]++
				ts = append(ts, t)
			}
			sort.Slice(ts, func(i, j int) bool { return cnt[ts[i]] > cnt[ts[j]] })
			for _, t := range ts[:min(len(ts), 3)] {
				s := t.String()
				if len(s) > 200 {
					s = s[:200]
				}
				fmt.Println("      ", cnt[t], t.id, s)
			}
			fmt.Println(len(cnt), "distinct terms")
			if os.Getenv("CTX") != "" {
				c := 0
				for k := range lastNormer.memo {
					if k.t == ts[0] && c < 10 {
						c++
						fmt.Println("CONTEXT")
						for g := k.f; g.parent != nil; g = g.parent {
							s := g.fact.String()
							if len(s) > 300 {
								s = s[:300]
							}
							fmt.Println("   ", s)
						}
					}
				}
			}
			if os.Getenv("CTX") != "" {
				os.Exit(0)
			}
		}
		if os.Getenv("VV") != "" {
			fmt.Println(best.String())
		}
		m = map[*Term]*Term{best: raw("chal", fmt.Sprint(k))}
		for i := range vs {
			vs[i] = subst(vs[i], m)
		}
		g := (&State{}).fs()
		for c := range f.known {
			c = subst(c, m)
			g = g.with(c)
		}
		f = g
	}
	for i, v := range vs {
		t1 := time.Now()
		n, tr := dagSize(v)
		fmt.Println("val", i, n, tr)
		dbgTree(v, 9, "")
		if os.Getenv("NN") == "" {
			x := normalise(v, f)
			n, tr = dagSize(x)
			fmt.Println("   normalised", n, tr, time.Since(t1))
		}
	}
}

func dbgTree(t *Term, d int, ind string) {
	n, tr := dagSize(t)
	s := t.String()
	if len(s) > 120 {
		s = s[:120]
	}
	fmt.Println(ind, t.op, t.s, n, tr, s)
	if d > 0 && n > 600 {
		for _, a := range t.args {
			dbgTree(a, d-1, ind+"  ")
		}
	}
}
