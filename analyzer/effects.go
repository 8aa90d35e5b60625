package main

import (
	"fmt"
	"go/types"
	"strings"
)

// locKey names a location by the fields that lead to it, without indices.
func locKey(t *Term) string {
	switch t.op {
	case "in", "global":
		return t.s
	case "init", "ptr":
		if len(t.args) > 0 {
			return locKey(t.args[0]) + fieldsOf(t.s)
		}
	}
	return "?" + t.op
}

func fieldsOf(path string) string {
	path = strings.ReplaceAll(path, "[#]", "")
	return strings.ReplaceAll(path, "!", "")
}

// touched are the input locations a function may write.
func (o *outcome) touched() map[string]bool {
	out := map[string]bool{}
	if o.r == nil || o.r.st.dead {
		return out
	}
	for n := o.r.st.log; n != nil; n = n.prev {
		if k := locKey(n.st.root); !strings.HasPrefix(k, "?") {
			out[k+fieldsOf(n.st.path)] = true
		}
	}
	return out
}

// effects are the final contents of the inputs a function may modify.
func (o *outcome) effects(keys map[string]bool, lazy bool) (names []string, vals []*Term) {
	f := o.r.st.fs()
	args := o.r.args
	if o.r.recv != nil {
		args = append([]*Term{o.r.recv}, args...)
	}
	for i, v := range args {
		key := o.r.names[i]
		if !anyBelow(keys, key) || !refLike(o.r.types[i]) {
			continue
		}
		t := o.e.effect(o.r.st, v, o.r.types[i], key, keys, 12)
		names = append(names, key)
		t = subst(t, o.e.defs)
		if !lazy {
			t = normalise(t, f)
		}
		vals = append(vals, t)
	}
	return
}

func refLike(t types.Type) bool {
	if isE(t) || isRingPoly(t) {
		return true
	}
	switch u := under(t).(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		return true
	case *types.Struct:
		return true
	case *types.Interface:
		_ = u
		return false
	}
	return false
}

// anyBelow tells whether a modified location may lie at or below key.
func anyBelow(keys map[string]bool, key string) bool {
	for k := range keys {
		if k == key || strings.HasPrefix(k, key+".") || strings.HasPrefix(k, key) && key != "" && len(k) > len(key) && k[len(key)] == '.' {
			return true
		}
	}
	return false
}

// effect is like value, but follows pointers of the input to locations in keys.
func (e *Engine) effect(st *State, v *Term, t types.Type, key string, keys map[string]bool, d int) *Term {
	if d == 0 || t == nil || v.op == "nil" || !anyBelow(keys, key) {
		return v
	}
	if v.op == "ite" {
		return ite(v.args[0], e.effect(st, v.args[1], t, key, keys, d), e.effect(st, v.args[2], t, key, keys, d))
	}
	if isE(t) || isRingPoly(t) {
		return e.value(st, v, t, d)
	}
	if n, ok := t.(*types.Named); ok && isOpaqueStruct(n) {
		return v
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		if isNamed(u.Elem(), "math/big", "Int") || isOpaqueStruct(u.Elem()) {
			return e.value(st, v, t, d)
		}
		return e.effect(st, e.load(st, v, u.Elem()), u.Elem(), key, keys, d-1)
	case *types.Struct:
		s := structOf(t)
		if s == nil {
			return v
		}
		var fs []string
		var vs []*Term
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if k := key + "." + f.Name(); anyBelow(keys, k) {
				fs = append(fs, f.Name())
				vs = append(vs, e.effect(st, projT(v, f.Name()), f.Type(), k, keys, d-1))
			}
		}
		return structT("", fs, vs)
	case *types.Slice:
		if v.op != "init" && v.op != "in" && v.op != "ptr" {
			return e.value(st, v, t, d)
		}
		n := lenOf(v)
		j := raw("kv", fmt.Sprintf("deref%d", d))
		in := st.with(ge0(j), ltI(j, n))
		return mkVec(n, j, e.effect(in, e.loadElem(in, v, j, u.Elem()), u.Elem(), key, keys, d-1))
	case *types.Map:
		k := raw("kv", fmt.Sprintf("key%d", d))
		return mkVec(raw("maplen", "", v), k, e.effect(st, e.load(st, mkPtr(v, "[#]", k), u.Elem()), u.Elem(), key, keys, d-1))
	}
	return e.value(st, v, t, d)
}
