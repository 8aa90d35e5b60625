package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Ownership analysis of copies. What a copy still shares with the original is read off the value
// graph of the copying method; what the methods of the type may write is read off their stores.
// Nothing that is shared may be written, and no generator of randomness may be shared.

// origin names the input location that a reference was read from, "" for fresh objects and
// "?" for anything else.
func origin(t *Term) string {
	switch t.op {
	case "in":
		return t.s
	case "init", "ptr":
		if len(t.args) > 0 {
			if o := origin(t.args[0]); o != "" && o[0] != '?' {
				return o + fieldsOf(t.s)
			} else {
				return o
			}
		}
	case "obj", "nil":
		return ""
	case "global":
		return "?global " + t.s
	case "slice":
		return origin(t.args[0])
	}
	return "?" + t.op
}

type shared struct {
	path string // in the copy
	from string // in the original
	t    types.Type
}

type sharing struct {
	e   *Engine
	st  *State
	out []shared
	bad []string
}

func (s *sharing) leaf(v *Term, t types.Type, path string, fresh func(v *Term)) {
	if v.op == "ite" {
		s.leaf(v.args[1], t, path, fresh)
		s.leaf(v.args[2], t, path, fresh)
		return
	}
	switch o := origin(v); {
	case v.op == "nil":
	case o == "":
		if s.e.taken[rootObj(v)] {
			s.out = append(s.out, shared{path, "a pooled buffer", t})
		}
		fresh(v)
	case o[0] != '?':
		s.out = append(s.out, shared{path, o, t})
	case v.op == "vec" || v.op == "append" || v.op == "concat" || v.op == "vecof" || v.op == "build":
		fresh(v)
	case isE(t) || isRingPoly(t): // a value computed anew
	default:
		s.bad = append(s.bad, path+": "+clip(v.String(), 200))
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (s *sharing) walk(v *Term, t types.Type, path string, depth int) {
	if t == nil || depth == 0 {
		s.bad = append(s.bad, path+": too deep")
		return
	}
	if isE(t) || isRingPoly(t) {
		s.leaf(v, t, path, func(*Term) {})
		return
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		s.leaf(v, t, path, func(v *Term) {
			if n, ok := types.Unalias(u.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
				return // a fresh library object
			}
			s.fields(v, u.Elem(), path, depth-1)
		})
	case *types.Slice:
		if !refLike(u.Elem()) && under(u.Elem()) != nil {
			s.leaf(v, t, path, func(*Term) {})
			return
		}
		s.leaf(v, t, path, func(v *Term) {
			k := freshVar("kv", "share")
			s.walk(s.e.loadElem(s.st.with(leI(I(0), k), ltI(k, lenOf(v))), v, k, u.Elem()), u.Elem(), path+"[]", depth-1)
		})
	case *types.Map, *types.Interface, *types.Signature, *types.Chan:
		s.leaf(v, t, path, func(*Term) {})
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !holdsRef(f.Type(), 6) {
				continue
			}
			var x *Term
			if v.op == "struct" {
				x = projT(v, f.Name())
			} else if o := origin(v); o != "" && o[0] != '?' {
				s.inherit(o+"."+f.Name(), f.Type(), path+"."+f.Name(), 6)
				continue
			} else {
				s.bad = append(s.bad, path+": "+clip(v.String(), 200))
				return
			}
			s.walk(x, f.Type(), path+"."+f.Name(), depth-1)
		}
	case *types.Array:
		if holdsRef(u.Elem(), 6) {
			if o := origin(v); o != "" && o[0] != '?' {
				s.inherit(o, u.Elem(), path+"[]", 6)
			} else if v.op == "vec" {
				s.walk(elemAt(v, freshVar("kv", "share")), u.Elem(), path+"[]", depth-1)
			} else {
				s.bad = append(s.bad, path+": "+clip(v.String(), 200))
			}
		}
	}
}

// inherit records the references inside a struct copied from the original.
func (s *sharing) inherit(from string, t types.Type, path string, depth int) {
	if depth == 0 {
		return
	}
	if !isE(t) && !isRingPoly(t) {
		switch u := under(t).(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				s.inherit(from+"."+f.Name(), f.Type(), path+"."+f.Name(), depth-1)
			}
			return
		case *types.Array:
			s.inherit(from, u.Elem(), path+"[]", depth-1)
			return
		case *types.Basic:
			return
		}
	}
	s.out = append(s.out, shared{path, from, t})
}

func (s *sharing) fields(v *Term, t types.Type, path string, depth int) {
	u, ok := under(t).(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if holdsRef(f.Type(), 6) {
			s.walk(s.e.load(s.st, mkPtr(v, "."+f.Name()), f.Type()), f.Type(), path+"."+f.Name(), depth)
		}
	}
}

func holdsRef(t types.Type, depth int) bool {
	if depth == 0 || isE(t) || isRingPoly(t) {
		return true
	}
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsRef(u.Field(i).Type(), depth-1) {
				return true
			}
		}
		return false
	case *types.Array:
		return holdsRef(u.Elem(), depth-1)
	case *types.Basic:
		return false
	}
	return true
}

// generator tells whether values of a type hold a generator's state.
func generator(t types.Type, depth int) bool {
	if depth == 0 || t == nil {
		return false
	}
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		switch pk := n.Obj().Pkg().Path(); {
		case strings.HasPrefix(pk, "crypto/"), strings.HasPrefix(pk, "math/rand"), pk == "hash", pk == "bufio":
			return true
		case pk == "math/big" || pk == "sync" || strings.Contains(pk, "lattigo"):
			return strings.Contains(strings.ToLower(n.Obj().Name()), "sampler")
		}
	}
	if isE(t) || isRingPoly(t) {
		return false
	}
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if generator(u.Field(i).Type(), depth-1) {
				return true
			}
		}
	case *types.Slice:
		return generator(u.Elem(), depth-1)
	case *types.Array:
		return generator(u.Elem(), depth-1)
	case *types.Interface:
		return !types.IsInterface(t) || u.NumMethods() > 0 && isNamed(t, "crypto/cipher", "Stream")
	}
	return false
}

// copier is a type with a copying method.
type copier struct{ pkg, typ, method string }

// wrote is a location of the receiver that a method may write through a reference.
type wrote struct {
	key string // the reference written through
	by  string
}

// methods are the methods of a type, by name.
func (p *Program) methods(pkg, typ string, skip map[string]bool) []*FuncInfo {
	var fis []*FuncInfo
	for _, fi := range p.Funcs {
		rv := fi.Obj.Signature().Recv()
		if rv == nil || fi.Pkg.Types.Path() != modPath+"/"+pkg || skip[fi.Obj.Name()] || fi.Decl.Body == nil {
			continue
		}
		if p.lookup(pkg, typ, fi.Obj.Name()) == fi {
			fis = append(fis, fi)
		}
	}
	sort.Slice(fis, func(i, j int) bool { return fis[i].Obj.Name() < fis[j].Obj.Name() })
	return fis
}

// methodWrites are the receiver's references that the methods of a type write through.
func (p *Program) methodWrites(pkg, typ string, skip map[string]bool, r *report) (out []wrote) {
	fis := p.methods(pkg, typ, skip)
	for _, fi := range fis {
		e := newEngine(p)
		res := e.evaluate(fi, nil, nil)
		r.analysed[funcName(fi)+" "+p.pos(fi.Decl.Pos())] = true
		for f := range e.inlined {
			r.analysed[funcName(f)+" "+p.pos(f.Decl.Pos())] = true
		}
		if u := unresolved(e.notes); len(u) > 0 {
			r.add("writes", funcName(fi), p.pos(fi.Decl.Pos()), false, "unresolved: "+strings.Join(u, "; "))
			continue
		}
		ws := map[string]bool{}
		for n := res.st.log; n != nil; n = n.prev {
			root := n.st.root
			o := origin(root)
			switch {
			case o == "":
				continue
			case strings.HasPrefix(o, "?global"):
				ws[strings.TrimPrefix(o, "?")] = true
			case o == "recv": // the receiver's own memory, or something it holds by a path
				if k := refPrefix(n.st.path); k != "" {
					ws["recv"+k] = true
				}
			case strings.HasPrefix(o, "recv."):
				ws[o] = true
			}
		}
		var l []string
		for k := range ws {
			l = append(l, k)
		}
		sort.Strings(l)
		for _, k := range l {
			out = append(out, wrote{k, funcName(fi)})
		}
	}
	return
}

// refPrefix is the reference that a path from the receiver passes through last.
func refPrefix(path string) string {
	i := strings.LastIndex(path, "[#]")
	if i < 0 {
		return ""
	}
	return fieldsOf(path[:i])
}

// ownership is the rule that copies share nothing that the methods of the copied types write.
func ownership(cs ...copier) rule {
	return func(p *Program, r *report) {
		writes := map[string][]wrote{}
		for _, c := range cs {
			writes[c.pkg+"."+c.typ] = p.methodWrites(c.pkg, c.typ, map[string]bool{c.method: true}, r)
		}
		for _, c := range cs {
			name := c.pkg + "." + c.typ + "." + c.method
			fi := p.lookup(c.pkg, c.typ, c.method)
			if fi == nil {
				r.add("ownership", name, "", false, "the method is missing")
				continue
			}
			where := p.pos(fi.Decl.Pos())
			e := newEngine(p)
			res := e.evaluate(fi, nil, nil)
			r.analysed[funcName(fi)+" "+where] = true
			for f := range e.inlined {
				r.analysed[funcName(f)+" "+p.pos(f.Decl.Pos())] = true
			}
			s := &sharing{e: e, st: res.st}
			t := fi.Obj.Signature().Results().At(0).Type()
			if len(res.vals) > 0 && !res.st.dead {
				s.walk(res.vals[0], t, "copy", 9)
			} else {
				s.bad = append(s.bad, "no result")
			}
			s.bad = append(s.bad, unresolved(e.notes)...)
			r.add("ownership", name+" resolved", where, len(s.bad) == 0, strings.Join(s.bad, "\n"))
			// everything written below the receiver, with that of the types it holds
			all := p.writesBelow(fi.Obj.Signature().Recv().Type(), "recv", writes, 5)
			seen := map[string]bool{}
			for _, x := range s.out {
				if seen[x.path+x.from] {
					continue
				}
				seen[x.path+x.from] = true
				msg := ""
				if generator(x.t, 6) {
					msg = "the copy shares the generator " + x.from
				}
				for _, w := range all {
					if w.key == x.from || strings.HasPrefix(w.key, x.from+".") {
						msg = fmt.Sprintf("the copy shares %s, which %s writes", x.from, w.by)
					}
				}
				r.add("ownership", name+" "+x.path+" = "+x.from, where, msg == "", msg)
			}
			for _, w := range all {
				if strings.HasPrefix(w.key, "global") {
					r.add("ownership", name+" "+w.key, where, false, w.by+" writes the package variable "+w.key)
				}
			}
		}
	}
}

// writesBelow lists the writes through references below a location of type t.
func (p *Program) writesBelow(t types.Type, at string, writes map[string][]wrote, depth int) (out []wrote) {
	if depth == 0 {
		return nil
	}
	if q, ok := types.Unalias(t).(*types.Pointer); ok {
		t = q.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		k := strings.TrimPrefix(n.Obj().Pkg().Path(), modPath+"/") + "." + n.Obj().Name()
		for _, w := range writes[k] {
			out = append(out, wrote{strings.Replace(w.key, "recv", at, 1), w.by})
		}
		if !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			return
		}
	}
	if isE(t) || isRingPoly(t) {
		return
	}
	if u, ok := under(t).(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			out = append(out, p.writesBelow(f.Type(), at+"."+f.Name(), writes, depth-1)...)
		}
	}
	return
}
