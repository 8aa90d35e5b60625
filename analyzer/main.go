package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) == 5 && os.Args[1] == "check" {
		os.Exit(check(os.Args[2], os.Args[3], os.Args[4]))
	}
	if f := os.Getenv("PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() { time.Sleep(80 * time.Second); pprof.StopCPUProfile(); os.Exit(3) }()
	}
	p, err := load(os.Args[1], os.Environ(), "", os.Getenv("OVERLAY"))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if len(os.Args) > 3 && os.Args[2] == "cmp" {
		defer pprof.StopCPUProfile()
		for _, a := range os.Args[3:] {
			i := strings.LastIndex(a, "/")
			d := p.compare(a[:i], a[i+1:])
			fmt.Println("==", a, d.String())
			if os.Getenv("V") != "" {
				for i := range d.a.vals {
					fmt.Println("code", i, d.a.vals[i], "\nspec", i, d.b.vals[i])
				}
				fmt.Println("notes", d.a.e.notes, d.b.e.notes)
			}
		}
		return
	}
	for _, a := range os.Args[2:] {
		f := strings.Split(a, "/")
		pkg := strings.Join(f[:len(f)-1], "/")
		nm := f[len(f)-1]
		recv := ""
		if i := strings.Index(nm, "."); i >= 0 {
			recv, nm = nm[:i], nm[i+1:]
		}
		fi := p.lookup(pkg, recv, nm)
		if fi == nil {
			fmt.Println("no function", a)
			continue
		}
		if os.Getenv("STAGES") != "" {
			p.dbgStages(fi)
			continue
		}
		e := newEngine(p)
		for _, u := range through(fi.Decl) {
			e.uncut[u] = true
		}
		r := e.evaluate(fi, nil, nil)
		fmt.Println("==", a)
		nf := r.st.fs()
		for i, v := range r.vals {
			v = normalise(v, nf)
			fmt.Printf("ret%d = %s\n", i, v)
		}
		fmt.Println("pre =", r.pre)
		for _, s := range suffix(r.st.log, nil) {
			if s.root.op == "obj" && os.Getenv("ALL") == "" {
				continue
			}
			fmt.Printf("  store q=%v %s%s%v := %s  if %s\n", s.q, s.root, s.path, s.idx, s.val, s.guard)
		}
		for _, n := range e.notes {
			fmt.Println("note:", n)
		}
	}
}
