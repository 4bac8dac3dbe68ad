package checks

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mockeycheck/absint"
)

// field is a field of a struct of the library, found by what the public API does with it.
type field struct {
	T   types.Type // struct type
	I   int
	Key string
}

func (f *field) addr(base *absint.Term) *absint.Term { return absint.FieldAddr(base, f.T, f.I) }
func (f *field) typ() types.Type                     { return f.T.Underlying().(*types.Struct).Field(f.I).Type() }
func (f *field) name() string {
	n := f.Key
	if nt, ok := f.T.(*types.Named); ok {
		n = nt.Obj().Name()
	}
	return n + "." + f.T.Underlying().(*types.Struct).Field(f.I).Name()
}

// Roles are the fields that hold the configuration and state of mocks.
type Roles struct {
	When, Hook    *field // of a condition
	Conds         *field // of the builder: the declared branches
	Filter, Gid   *field // of the builder
	Target        *field // of the builder: what is mocked
	Times, Mocked *field // of the mocker: counters
	Builder       *field // of the mocker
	CondBuilder   *field // of a condition: the builder it belongs to (may be missing)
	Generic       *field // of the builder: whether the target is generic
	Unsafe        *field // of the builder: whether to skip the length check
	Origin        *field // of the builder: the variable for the original
	MockTarget    *field // of the mocker: the target as a reflect.Value (may be missing)
	ViaPointer    bool   // branches are held by pointer
	FilterVals    map[string]int64
}

func (m *Model) fieldOf(t *absint.Term) *field {
	if t.Op != "fa" {
		return nil
	}
	i := strings.LastIndex(t.Aux, "#")
	n := 0
	for _, c := range t.Aux[i+1:] {
		n = n*10 + int(c-'0')
	}
	T := m.typeByKey(t.Aux[:i])
	if T == nil {
		return nil
	}
	return &field{T: T, I: n, Key: t.Aux}
}

func (m *Model) typeByKey(k string) types.Type {
	for _, p := range m.P.Pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && absint.TypeKey(tn.Type()) == k {
				return tn.Type()
			}
		}
	}
	return nil
}

// storesOn gives the fields of module structs a path stores to, with the values.
func (m *Model) storesOn(evs []*absint.Event) map[string][]*absint.Event {
	out := map[string][]*absint.Event{}
	for _, e := range flat(evs) {
		if e.Kind == absint.EvStore && e.Args[0].Op == "fa" {
			if f := m.fieldOf(e.Args[0]); f != nil {
				out[f.Key] = append(out[f.Key], e)
			}
		}
	}
	return out
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isPtrOrSlice(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		return true
	}
	return false
}

// setBy finds the one field all normal paths of a setter store a fitting value to.
func (m *Model) setBy(f *ssa.Function, ok func(fd *field, v *absint.Term) bool) *field {
	in := m.Interp()
	var found *field
	n := 0
	for _, r := range in.Call(absint.NewState(), f, Params(f), nil, "R") {
		if r.Kind != absint.XReturn {
			continue
		}
		n++
		stores := m.storesOn(r.St.Events())
		which := func(fits func(v *absint.Term) bool) (all []*field) {
			for _, es := range stores {
				for _, e := range es {
					if fd := m.fieldOf(e.Args[0]); fd != nil && ok(fd, e.Args[1]) && fits(e.Args[1]) {
						all = append(all, fd)
						break
					}
				}
			}
			return
		}
		all := which(func(*absint.Term) bool { return true })
		if len(all) > 1 {
			// other things are noted besides: the field is the one that gets the function made
			all = which(func(v *absint.Term) bool { return hasOp(v, "MakeFunc") })
			need(len(all) == 1, "what %s sets is ambiguous", fnKey(f))
		}
		need(len(all) > 0, "%s does not set anything on some path", fnKey(f))
		here := all[0]
		if found != nil && found.Key != here.Key {
			need(false, "%s sets %s on one path and %s on another", fnKey(f), found.name(), here.name())
		}
		found = here
	}
	need(found != nil && n > 0, "what %s sets", fnKey(f))
	return found
}

func hasOp(t *absint.Term, op string) bool {
	found := false
	absint.Walk(t, func(x *absint.Term) { found = found || x.Op == op })
	return found
}

// Roles resolves the roles of fields.
func (m *Model) Roles() *Roles {
	if v, ok := m.C.memo["roles"]; ok {
		return v.(*Roles)
	}
	ro := &Roles{FilterVals: map[string]int64{}}
	notStruct := func(fd *field, v *absint.Term) bool { return !isPtrOrSlice(fd.typ()) }
	ro.When = m.setBy(m.Method("MockBuilder", "When"), notStruct)
	ro.Hook = m.setBy(m.Method("MockBuilder", "To"), notStruct)
	need(ro.When.Key != ro.Hook.Key, "conditions and replacements are kept in one field")
	need(types.Identical(ro.When.T, ro.Hook.T), "conditions and replacements are kept in different structures")
	fg := m.Method("MockBuilder", "FilterGoRoutine")
	need(len(fg.Params) == 3, "parameters of FilterGoRoutine")
	ro.Filter = m.setBy(fg, func(fd *field, v *absint.Term) bool { return v == absint.ParamOf(fg.Params[1]) })
	ro.Gid = m.setBy(fg, func(fd *field, v *absint.Term) bool { return v == absint.ParamOf(fg.Params[2]) })
	for _, n := range []string{"Disable", "Include", "Exclude"} {
		c, ok := m.Root.Members[n].(*ssa.NamedConst)
		need(ok, "constant %s", n)
		v, _ := constant.Int64Val(c.Value.Value)
		ro.FilterVals[n] = v
	}
	mock := m.Func("Mock")
	need(len(mock.Params) >= 1, "parameters of Mock")
	// the builder keeps the target
	bt := m.Root.Type("MockBuilder")
	need(bt != nil, "type MockBuilder")
	in := m.Interp()
	for _, r := range in.Call(absint.NewState(), mock, Params(mock), nil, "R") {
		if r.Kind != absint.XReturn {
			continue
		}
		need(len(r.Vals) == 1, "results of Mock")
		st := bt.Type().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			a := absint.FieldAddr(r.Vals[0], bt.Type(), i)
			if in.LoadAt(r.St, a, st.Field(i).Type()) == absint.ParamOf(mock.Params[0]) {
				ro.Target = m.fieldOf(a)
			}
			if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
				et := sl.Elem()
				if p, ok := et.Underlying().(*types.Pointer); ok {
					et = p.Elem()
					ro.ViaPointer = true
				}
				if types.Identical(et, ro.When.T) {
					ro.Conds = m.fieldOf(a)
				}
			}
		}
	}
	need(ro.Target != nil, "the builder's field for the target")
	need(ro.Conds != nil, "the builder's list of conditions")
	ro.Times = m.counter("Times")
	ro.Mocked = m.counter("MockTimes")
	need(ro.Times.Key != ro.Mocked.Key, "both counters are the same field")
	mt := m.Root.Type("Mocker")
	st := mt.Type().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), types.NewPointer(bt.Type())) {
			ro.Builder = m.fieldOf(absint.FieldAddr(absint.Param("m"), mt.Type(), i))
		}
	}
	need(ro.Builder != nil, "the mocker's field for its builder")
	build := m.Method("MockBuilder", "Build")
	bin := m.Interp()
	for _, r := range bin.Call(absint.NewState(), build, Params(build), nil, "R") {
		if r.Kind != absint.XReturn || ro.MockTarget != nil {
			continue
		}
		want := absint.ValueOf(bin.LoadAt(absint.NewState(), ro.Target.addr(Params(build)[0]), ro.Target.typ()))
		for i := 0; i < st.NumFields(); i++ {
			a := absint.FieldAddr(r.Vals[0], mt.Type(), i)
			if bin.LoadAt(r.St, a, st.Field(i).Type()) == want {
				ro.MockTarget = m.fieldOf(a)
			}
		}
		break
	}
	cst := ro.When.T.Underlying().(*types.Struct)
	for i := 0; i < cst.NumFields(); i++ {
		if types.Identical(cst.Field(i).Type(), types.NewPointer(bt.Type())) {
			ro.CondBuilder = m.fieldOf(absint.FieldAddr(absint.Param("c"), ro.When.T, i))
		}
	}
	og := m.Method("MockBuilder", "Origin")
	ro.Origin = m.setBy(og, func(fd *field, v *absint.Term) bool { return v == absint.ParamOf(og.Params[1]) })
	ro.Generic = m.optionField("OptGeneric")
	ro.Unsafe = m.optionField("OptUnsafe")
	need(ro.Generic.Key != ro.Unsafe.Key, "both options set one field")
	m.C.memo["roles"] = ro
	return ro
}

// MockWith analyses Mock with a list of options.
func (m *Model) MockWith(opts ...string) (*absint.Interp, []*absint.Result) {
	mock := m.Func("Mock")
	need(len(mock.Params) == 2, "parameters of Mock")
	var os []*absint.Term
	for _, o := range opts {
		os = append(os, absint.FuncTerm(m.Func(o)))
	}
	in := m.Interp()
	return in, in.Call(absint.NewState(), mock, []*absint.Term{absint.ParamOf(mock.Params[0]), absint.List(os...)}, nil, "R")
}

// optionField finds the flag of the builder an option sets.
func (m *Model) optionField(opt string) *field {
	bt := m.Root.Type("MockBuilder")
	st := bt.Type().Underlying().(*types.Struct)
	vals := func(opts ...string) map[int]*absint.Term {
		out := map[int]*absint.Term{}
		in, rs := m.MockWith(opts...)
		n := 0
		for _, r := range rs {
			if r.Kind != absint.XReturn {
				continue
			}
			n++
			for i := 0; i < st.NumFields(); i++ {
				if isBool(st.Field(i).Type()) {
					out[i] = in.LoadAt(r.St, absint.FieldAddr(r.Vals[0], bt.Type(), i), st.Field(i).Type())
				}
			}
		}
		need(n == 1, "Mock with %v returns in %d ways", opts, n)
		return out
	}
	off, on := vals(), vals(opt)
	var f *field
	for i := 0; i < st.NumFields(); i++ {
		if on[i] != off[i] {
			need(f == nil, "the flag %s sets is ambiguous", opt)
			f = m.fieldOf(absint.FieldAddr(absint.Param("b"), bt.Type(), i))
		}
	}
	need(f != nil, "%s sets nothing", opt)
	return f
}

// counter finds the field a method of the mocker reports.
func (m *Model) counter(method string) *field {
	f := m.Method("Mocker", method)
	in := m.Interp()
	var found *field
	for _, r := range in.Call(absint.NewState(), f, Params(f), nil, "R") {
		if r.Kind != absint.XReturn {
			continue
		}
		need(len(r.Vals) == 1, "results of %s", method)
		var here *field
		absint.Walk(r.Vals[0], func(t *absint.Term) {
			if t.Op == "init" {
				a := t.Args[0]
				if a.Op == "atomicval" {
					a = a.Args[0]
				}
				if fd := m.fieldOf(a); fd != nil && !isPtrOrSlice(fd.typ()) {
					here = fd
				}
			}
		})
		need(here != nil, "the counter %s reports", method)
		need(found == nil || found.Key == here.Key, "%s reports different counters", method)
		found = here
	}
	need(found != nil, "the counter %s reports", method)
	return found
}
