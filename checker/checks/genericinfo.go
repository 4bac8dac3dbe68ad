package checks

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"mockeycheck/absint"
)

func init() {
	rule("generic-info", "generic type information is compared as a whole and its n-th type is the n-th word of the dictionary", 1, ruleGenericInfo)
	rule("generic-order", "replacements of generic targets take the dictionary where the compiler passes it", 2, ruleGenericOrder)
	decides("C33", "generic-info", "generic-order", "adapt-to", "adapt-when")
	decides("C12", "generic-order")
}

func ruleGenericInfo(c *Ctx, r *Report) {
	m := c.Model(Linux)
	eq := m.valueMethod("GenericInfo", "Equal")
	ps := Params(eq)
	need(len(ps) == 2, "parameters of %s", fnKey(eq))
	in := m.Interp()
	same := absint.Eq(ps[0], ps[1], true)
	for _, e := range in.Call(absint.NewState(), eq, ps, nil, "R") {
		r.Paths++
		r.Ob(fnKey(eq))
		if e.Kind != absint.XReturn || len(e.Vals) != 1 {
			r.Bad(fnKey(eq), m.P.Pos(eq.Pos()), "comparing may not return", describe(m.P, e)...)
			continue
		}
		v := e.Vals[0]
		// decided by a branch
		if known := e.St.Eval(same); known != 0 && known == e.St.Eval(v) {
			continue
		}
		if v != same {
			r.Bad(fnKey(eq), m.P.Pos(eq.Pos()), "the result is not whether both are the same: "+v.String(), describe(m.P, e)...)
		}
	}
	r.Problems(in, fnKey(eq))

	used := m.valueMethod("GenericInfo", "UsedParamType")
	ps = Params(used)
	need(len(ps) == 2, "parameters of %s", fnKey(used))
	in = m.Interp()
	word := absint.Add(ps[0], absint.MulC(ps[1], 8))
	for _, e := range in.Call(absint.NewState(), used, ps, nil, "R") {
		r.Paths++
		r.Ob(fnKey(used))
		if e.Kind != absint.XReturn || len(e.Vals) != 1 {
			r.Bad(fnKey(used), m.P.Pos(used.Pos()), "asking for a type may not return", describe(m.P, e)...)
			continue
		}
		if !isTypeAt(e.Vals[0], word) {
			r.Bad(fnKey(used), m.P.Pos(used.Pos()), "the result is not the type that the n-th word of the dictionary points to: "+e.Vals[0].String(), describe(m.P, e)...)
		}
	}
	r.Problems(in, fnKey(used))
}

// valueMethod finds a method of a type itself, not of pointers to it.
func (m *Model) valueMethod(typ, name string) *ssa.Function {
	t := m.Root.Type(typ)
	need(t != nil, "type %s", typ)
	sel := m.P.SSA.MethodSets.MethodSet(t.Type()).Lookup(m.Root.Pkg, name)
	need(sel != nil, "method %s.%s", typ, name)
	return m.P.SSA.MethodValue(sel)
}

// isTypeAt: the term is the type of an interface value whose first word was read from memory at the address.
func isTypeAt(t, addr *absint.Term) bool {
	if t.Op == "Type" && t.Args[0].Op == "ValueOf" {
		t = t.Args[0].Args[0]
	}
	switch {
	case t.Op == "pun" && t.Aux == "0:8" && len(t.Args) == 2:
		t = t.Args[1]
	case t.Op == "word" && t.Aux == "0:16" && t.Args[0].Op == "struct" && len(t.Args[0].Args) > 0:
		t = t.Args[0].Args[0]
	default:
		return false
	}
	for t.Op == "cast" {
		t = t.Args[0]
	}
	if t.Op != "init" || len(t.Args) != 1 {
		return false
	}
	sizes := types.SizesFor("gc", "amd64")
	a := t.Args[0]
	if a.Op == "ia" {
		// an element of the dictionary seen as an array of words
		b := a.Args[0]
		for b.Op == "sliceof" || b.Op == "sub" && b.Args[1] == absint.Int(0) {
			b = b.Args[0]
		}
		T, _ := b.Val.(types.Type)
		if b.Op != "cast" || T == nil {
			return false
		}
		arr, ok := T.Underlying().(*types.Array)
		return ok && sizes.Sizeof(arr.Elem()) == 8 && absint.Add(b.Args[0], absint.MulC(a.Args[1], 8)) == addr
	}
	if T, _ := a.Val.(types.Type); a.Op == "cast" && (T == nil || sizes.Sizeof(T) != 8) {
		return false
	}
	for a.Op == "cast" {
		a = a.Args[0]
	}
	return a == addr
}

// ruleGenericOrder: since Go 1.20 the compiler passes the dictionary of a generic function first, that of a method of a
// generic type after the receiver.
func ruleGenericOrder(c *Ctx, r *Report) {
	m := c.Model(Linux)
	ro := m.Roles()
	seen := map[string]bool{}
	for _, h := range m.Hooks(r) {
		if h.Opaque || h.Builder == nil || len(h.Ends) == 0 {
			continue
		}
		st := h.Patch.Snap
		if st.Eval(h.In.LoadAt(st, ro.Generic.addr(h.Builder), ro.Generic.typ())) != 1 {
			continue
		}
		r.Ob(fnKey(h.Fn))
		A := absint.TypeOfV(absint.ValueOf(h.In.LoadAt(st, ro.Target.addr(h.Builder), ro.Target.typ())))
		msg := ""
		switch {
		case sameType(st, h.T, m.genericType(A, nil)):
			msg = "the dictionary is expected before the receiver, but methods of generic types get it after the receiver since Go 1.20"
		default:
			msg = "undecided: the replacement of a generic target has type " + h.T.String()
		}
		if !seen[msg] {
			seen[msg] = true
			r.Bad("type of replacements", m.P.Pos(h.Fn.Pos()), msg)
		}
	}
}
