package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// obligation is one thing a check decided.
type obligation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where"`
	OK        bool   `json:"ok"`
	Detail    string `json:"detail,omitempty"`
}

func (o obligation) key() string { return o.Rule + " | " + o.Construct }

// report collects the obligations of a check and what was analysed.
type report struct {
	obs      []obligation
	analysed map[string]bool
	notes    []string
}

func (r *report) add(rule, construct, where string, ok bool, detail string) {
	r.obs = append(r.obs, obligation{rule, construct, where, ok, detail})
}

// rule is a part of a property's decision procedure.
type rule func(p *Program, r *report)

type property struct {
	id    string
	title string
	min   int // number of obligations confirmed by hand
	rules []rule
	what  string // explanation for the evidence file
}

// pureExternals are library functions without effects whose result is a function of the
// contents of the arguments.
var pureExternals = []string{
	"math.", "math/bits.", "encoding/binary.bigEndian.", "encoding/binary.littleEndian.", "math/big.NewFloat",
	"math/big.Float.", "crypto/sha256.New", "math/big.Int.Bits", ringPkg + ".Ring.Modulus", ringPkg + ".NewBasisExtender", "sort.Search",
	"slices.BinarySearch",
}

// unresolved filters the notes of an evaluation to those that make its result unreliable.
func unresolved(notes []string) []string {
	var out []string
	for _, n := range notes {
		if f, ok := strings.CutPrefix(n, "uninterpreted call of "); ok {
			pure := false
			for _, p := range pureExternals {
				if strings.HasPrefix(f, p) {
					pure = true
				}
			}
			if pure {
				continue
			}
		}
		if strings.HasPrefix(n, "maprange ") {
			// a range over a map takes the entries in some fixed unknown order; a result
			// that depends on the order has a value graph that names it
			continue
		}
		out = append(out, n)
	}
	return out
}

// undecidedTerm finds a part of a value graph the analysis could not resolve.
func undecidedTerm(ts ...*Term) string {
	found := ""
	for _, t := range ts {
		collect(t, func(x *Term) bool {
			switch {
			case x.op == "unk":
				found = x.String()
			case x.op == "app":
				for _, p := range []string{"array:", "coupled:", "rec:", "trip:", "callv"} {
					if strings.HasPrefix(x.s, p) {
						found = x.s
					}
				}
			}
			return found == ""
		})
	}
	return found
}

// inputStores are the locations reachable from the inputs that a function may write.
func (o *outcome) inputStores() map[string]bool {
	out := map[string]bool{}
	if o.r == nil || o.r.st.dead {
		return out
	}
	for n := o.r.st.log; n != nil; n = n.prev {
		s := n.st
		root := s.root
		for root.op == "init" || root.op == "ptr" {
			if len(root.args) == 0 {
				break
			}
			root = root.args[0]
		}
		if root.op == "in" && !strings.HasPrefix(root.s, "commitkey") && !strings.HasPrefix(root.s, "pool:") || root.op == "global" {
			path := s.path
			if s.root.op == "init" || s.root.op == "ptr" {
				path = s.root.s + path
			}
			out[root.s+strings.TrimRight(path, "!")] = true
		}
	}
	return out
}

// site names the function a unit analyses and where it is.
func (p *Program) site(c *FuncInfo, pkg, unit string) (string, string) {
	name, where := pkg+"."+unit, ""
	var best *FuncInfo
	for fi := range p.calledIn(c) {
		if strings.HasPrefix(fi.Obj.Name(), "spec") || strings.HasPrefix(fi.Obj.Name(), "code") {
			continue
		}
		if best == nil || fi.Decl.Name.Name == unit || best.Decl.Name.Name != unit && strings.HasPrefix(best.Decl.Name.Name, "New") {
			best = fi
		}
	}
	if best != nil {
		name = funcName(best)
		where = p.pos(best.Decl.Pos())
	}
	return name, where
}

func funcName(fi *FuncInfo) string {
	n := fi.Obj.Name()
	if r := fi.Obj.Signature().Recv(); r != nil {
		t := r.Type().String()
		if i := strings.LastIndexByte(t, '.'); i >= 0 {
			t = t[i+1:]
		}
		if i := strings.IndexByte(t, '['); i >= 0 {
			t = t[:i]
		}
		n = t + "." + n
	}
	return strings.TrimPrefix(fi.Pkg.Path, modPath+"/") + "." + n
}

// unit compares the value graph of a function with its reference.
func unit(pkg, name, proj string) rule {
	return func(p *Program, r *report) {
		c, sp := p.unitFuncs(pkg, name)
		if c == nil || sp == nil {
			why := "the analysed function is missing or was changed beyond the reference"
			for _, n := range []string{"code", "spec"} {
				if d := p.Dropped[pkg+"."+n+name]; d != "" {
					why += "\n" + d
				}
			}
			r.add("value graph", pkg+"."+name, "", false, why)
			return
		}
		fn, where := p.site(c, pkg, name)
		d := p.compareProj(pkg, name, proj)
		if d.a != nil {
			for fi := range d.a.e.inlined {
				if !strings.HasPrefix(fi.Obj.Name(), "spec") && !strings.HasPrefix(fi.Obj.Name(), "code") {
					r.analysed[funcName(fi)+" "+p.pos(fi.Decl.Pos())] = true
				}
			}
		}
		tag := name
		if proj != "" {
			tag += " (" + proj + ")"
		}
		if d.a == nil {
			r.add("value graph", fn+" "+tag, where, false, strings.Join(d.lines, "\n"))
			return
		}
		for _, part := range d.parts {
			r.add("value graph: "+part.what, fn+" "+tag, where, len(part.lines) == 0, strings.Join(part.lines, "\n"))
		}
		und := unresolved(d.a.notes)
		for _, o := range []*outcome{d.a, d.b} {
			if u := undecidedTerm(o.vals...); u != "" {
				und = append(und, "unresolved "+u)
			}
		}
		r.add("value graph: resolved", fn+" "+tag, where, len(und) == 0, strings.Join(und, "\n"))
		if proj == "" {
			var extra []string
			sb := d.b.inputStores()
			for s := range d.a.inputStores() {
				if !sb[s] {
					extra = append(extra, "writes to "+s)
				}
			}
			sort.Strings(extra)
			r.add("inputs unchanged", fn+" "+tag, where, len(extra) == 0, strings.Join(extra, "\n"))
		}
	}
}

type finding struct {
	kind, property, rest string
}

func readFindings(path string) []finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		kind, rest, ok := strings.Cut(l, ": property=")
		if !ok || strings.HasPrefix(l, "#") {
			continue
		}
		id, rest, _ := strings.Cut(rest, " ")
		out = append(out, finding{kind, id, rest})
	}
	return out
}

// check decides a property and returns the exit code.
func check(verif, repo, id string) (code int) {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var pr *property
	for i := range properties {
		if properties[i].id == id {
			pr = &properties[i]
		}
	}
	r := &report{analysed: map[string]bool{}}
	nfn, npkg := 0, 0
	func() {
		defer func() {
			if x := recover(); x != nil {
				r.add("analysis", "analyzer", "", false, fmt.Sprintf("the analysis did not complete: %v", x))
			}
		}()
		if pr == nil {
			r.add("analysis", "analyzer", "", false, "unknown property "+id)
			return
		}
		p, err := load(repo, nil, "", filepath.Join(verif, "spec"))
		if err != nil {
			r.add("analysis", "type check", "", false, err.Error())
			return
		}
		nfn, npkg = p.Nfn, len(p.Order)
		for _, f := range pr.rules {
			f(p, r)
		}
		if len(r.obs) < pr.min {
			r.add("analysis", "number of obligations", "", false, fmt.Sprintf("%d obligations, at least %d expected", len(r.obs), pr.min))
		}
	}()

	known := map[string]string{}
	for _, f := range readFindings(filepath.Join(verif, "known-findings.txt")) {
		if f.kind == "known" && f.property == id {
			known[f.rest] = f.rest
		}
	}
	var bad []obligation
	ok := 0
	for _, o := range r.obs {
		if o.OK {
			ok++
			continue
		}
		if k, hit := known[o.key()]; hit {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			continue
		}
		bad = append(bad, o)
	}

	var fns []string
	for f := range r.analysed {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	what := ""
	if pr != nil {
		what = pr.what
	}
	var samples []string
	for i, o := range r.obs {
		if i < 40 {
			samples = append(samples, fmt.Sprintf("%s | %s | %s | ok=%v", o.Rule, o.Construct, o.Where, o.OK))
		}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":        what,
			"obligations":        len(r.obs),
			"discharged":         ok,
			"packages_loaded":    npkg,
			"functions_loaded":   nfn,
			"functions_analysed": fns,
			"samples":            samples,
		},
		"assumptions": assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
	}
	replay := filepath.Join(verif, "evidence", id+".violation.txt")
	os.Remove(replay)
	if len(bad) == 0 {
		fmt.Printf("%s: %d obligations discharged, %d functions analysed, %.1fs\n", id, ok, len(fns), time.Since(start).Seconds())
		return 0
	}
	var w strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&w, "rule: %s\nconstruct: %s\nwhere: %s\n%s\n\n", o.Rule, o.Construct, o.Where, o.Detail)
	}
	os.WriteFile(replay, []byte(w.String()), 0o644)
	out := w.String()
	if len(out) > 6000 {
		out = strings.ToValidUTF8(out[:6000], "") + "...\n"
	}
	fmt.Print(out)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return 1
}
