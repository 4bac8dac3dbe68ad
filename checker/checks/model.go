package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mockeycheck/absint"
	"mockeycheck/load"
)

// Model is the root package with its roles resolved.
type Model struct {
	C    *Ctx
	P    *load.Program
	Root *ssa.Package

	Assert    *ssa.Function
	Goid      *ssa.Function
	Patchers  map[*ssa.Function]bool // functions that install a patch
	Unpatch   *ssa.Function
	Printers  map[*ssa.Function]bool
	Callers   map[*ssa.Function]bool
	PatchType types.Type

	hookProblems []string
	watch        func(*absint.Term) bool // reads by replacements to record

	goid map[*absint.Interp]*absint.Term // the goroutine the analysed code runs on
}

// Model resolves the roles for a configuration.
func (c *Ctx) Model(cfg load.Config) *Model {
	k := "model:" + cfg.String()
	if v, ok := c.memo[k]; ok {
		absint.SetProgram(v.(*Model).P.SSA)
		return v.(*Model)
	}
	p := c.Prog(cfg)
	absint.SetProgram(p.SSA)
	m := &Model{C: c, goid: map[*absint.Interp]*absint.Term{}, P: p, Root: p.Root(), Patchers: map[*ssa.Function]bool{}, Printers: map[*ssa.Function]bool{}, Callers: map[*ssa.Function]bool{}}
	need(m.Root != nil, "root package")
	tool := p.Pkg("internal/tool")
	monkey := p.Pkg("internal/monkey")
	need(tool != nil && monkey != nil, "packages internal/tool and internal/monkey")
	m.Assert = tool.Func("Assert")
	m.Goid = tool.Func("GetGoroutineID")
	need(m.Assert != nil && m.Goid != nil, "tool.Assert and tool.GetGoroutineID")
	pf := monkey.Func("PatchFunc")
	need(pf != nil && pf.Signature.Results().Len() == 1, "monkey.PatchFunc")
	m.PatchType = pf.Signature.Results().At(0).Type()
	m.Unpatch = p.SSA.LookupMethod(m.PatchType, monkey.Pkg, "Unpatch")
	need(m.Unpatch != nil, "(*monkey.Patch).Unpatch")
	for _, mem := range monkey.Members {
		if f, ok := mem.(*ssa.Function); ok && f.Object() != nil && f.Object().Exported() {
			if rs := f.Signature.Results(); rs.Len() == 1 && types.Identical(rs.At(0).Type(), m.PatchType) {
				m.Patchers[f] = true
			}
		}
	}
	// functions that do nothing but print
	for _, mem := range tool.Members {
		f, ok := mem.(*ssa.Function)
		if !ok || f == m.Assert || len(f.Blocks) == 0 || strings.HasPrefix(f.Name(), "init") {
			continue
		}
		if f.Signature.Results().Len() == 0 && f.Signature.Params().Len() > 0 && isPrinter(p, f) {
			m.Printers[f] = true
		}
		if f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && isFrame(f.Signature.Results().At(0).Type()) {
			m.Callers[f] = true
		}
	}
	c.memo[k] = m
	return m
}

func isFrame(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	n := 0
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "PC", "Function", "File", "Line":
			n++
		}
	}
	return n == 4
}

var printNames = map[string]bool{"fmt.Printf": true, "fmt.Println": true, "fmt.Print": true, "fmt.Fprintf": true, "fmt.Fprintln": true, "fmt.Fprint": true,
	"log.Printf": true, "log.Println": true, "log.Print": true, "builtin.println": true, "builtin.print": true, "(*log.Logger).Printf": true}

func isPrinter(p *load.Program, f *ssa.Function) bool {
	in := absint.New(p.SSA, p.Module, p.Sizes)
	in.MaxSteps = 5000
	var args []*absint.Term
	for _, q := range f.Params {
		args = append(args, absint.ParamOf(q))
	}
	for _, r := range in.Call(absint.NewState(), f, args, nil, "P") {
		if r.Kind != absint.XReturn {
			return false
		}
		for _, e := range flat(r.St.Events()) {
			switch {
			case e.Kind == absint.EvCall && printNames[e.Name]:
			case e.Kind == absint.EvStore && localAddr(e.Args[0]):
			case e.Kind == absint.EvLoop:
			default:
				return false
			}
		}
	}
	return len(in.Problems) == 0
}

// localAddr: memory allocated by the analysed code itself.
func localAddr(a *absint.Term) bool {
	for {
		switch a.Op {
		case "fa", "ia", "cast", "sliceof", "sub", "capped", "mkslice":
			a = a.Args[0]
			continue
		}
		return a.Op == "alloc"
	}
}

// The goroutine that configures a mock and the one that calls the mocked function.
var (
	goidConfig *absint.Term
	goidCall   *absint.Term
)

func init() { goidConfig, goidCall = absint.Sym("goid:config"), absint.Sym("goid:call") }

// Interp makes an interpreter with the standard summaries.
func (m *Model) Interp() *absint.Interp {
	in := absint.New(m.P.SSA, m.P.Module, m.P.Sizes)
	in.UserExits = true
	in.NonRetaining = map[*ssa.Function]bool{m.Assert: true}
	for f := range m.Printers {
		in.NonRetaining[f] = true
	}
	in.Initial = func(addr *absint.Term) *absint.Term {
		ro, ok := m.C.memo["roles"].(*Roles)
		if ok && ro.MockTarget != nil && addr.Op == "fa" && addr.Aux == ro.MockTarget.Key {
			// a mock is of the function its builder was made for (rule builder)
			return absint.ValueOf(absint.Init(ro.Target.addr(absint.Init(ro.Builder.addr(addr.Args[0])))))
		}
		if !ok || ro.CondBuilder == nil || addr.Op != "fa" || addr.Aux != ro.CondBuilder.Key {
			return nil
		}
		// a branch belongs to the builder that lists it (rule builder)
		p := addr.Args[0]
		if ro.ViaPointer {
			if p.Op != "init" {
				return nil
			}
			p = p.Args[0]
		}
		if p.Op != "ia" || p.Args[0].Op != "init" {
			return nil
		}
		if a := p.Args[0].Args[0]; a.Op == "fa" && a.Aux == ro.Conds.Key {
			return a.Args[0]
		}
		return nil
	}
	in.Intrinsics[m.Assert] = assertIntrinsic
	for f := range m.Printers {
		in.Intrinsics[f] = func(c *absint.CallCtx) []*absint.Result { return c.Return() }
	}
	for f := range m.Callers {
		in.Intrinsics[f] = func(c *absint.CallCtx) []*absint.Result {
			r := c.ResSym(0)
			e := c.Emit(absint.EvIntr, "caller")
			e.Res = []*absint.Term{r}
			return c.Return(r)
		}
	}
	in.Intrinsics[m.Goid] = func(c *absint.CallCtx) []*absint.Result {
		if t := m.goid[in]; t != nil {
			return c.Return(t)
		}
		return c.Return(goidConfig)
	}
	for f := range m.Patchers {
		in.Intrinsics[f] = func(c *absint.CallCtx) []*absint.Result {
			s2 := c.St.Clone()
			d := *c
			d.St = s2
			d.Emit(absint.EvPanic, "patch rejected")
			r := absint.Mk("patchof", c.Path, c.Args...)
			e := c.Emit(absint.EvIntr, "patch", c.Args...)
			e.Res = []*absint.Term{r}
			c.St.Assume(absint.Eq(r, absint.Nil, false), false)
			return []*absint.Result{{St: c.St, Kind: absint.XReturn, Vals: []*absint.Term{r}}, {St: s2, Kind: absint.XPanic, Pos: c.Pos}}
		}
	}
	in.Intrinsics[m.Unpatch] = func(c *absint.CallCtx) []*absint.Result {
		c.Emit(absint.EvIntr, "unpatch", c.Args...)
		return c.Return()
	}
	in.Volatile = func(a *absint.Term) bool {
		for a.Op == "fa" || a.Op == "ia" || a.Op == "cast" {
			a = a.Args[0]
		}
		return a.Op == "glob"
	}
	in.Invoke = func(c *absint.CallCtx) ([]*absint.Result, bool) {
		impl := m.implementers(c.Name)
		if len(impl) == 0 {
			return nil, false
		}
		for _, f := range impl {
			if !m.pure(f) {
				// an operation of the module: it returns or panics, and is looked at on its own
				e := c.Emit(absint.EvInvoke, f.Name(), append([]*absint.Term{c.Recv}, c.Args...)...)
				var vs []*absint.Term
				for k := 0; k < c.Sig.Results().Len(); k++ {
					vs = append(vs, c.ResSym(k))
				}
				e.Res = vs
				if in.AfterUser != nil {
					in.AfterUser(c.St, e)
				}
				return c.Return(vs...), true
			}
		}
		var vs []*absint.Term
		for k := 0; k < c.Sig.Results().Len(); k++ {
			vs = append(vs, absint.Mk("inv:"+impl[0].Name(), fmt.Sprint(k), append([]*absint.Term{c.Recv}, c.Args...)...))
		}
		return c.Return(vs...), true
	}
	return in
}

// assertIntrinsic: an assertion that fails panics (rule assert).
func assertIntrinsic(c *absint.CallCtx) []*absint.Result {
	cond := c.Args[0]
	var out []*absint.Result
	s2 := c.St.Clone()
	if c.St.Assume(cond, true) {
		out = append(out, &absint.Result{St: c.St, Kind: absint.XReturn})
	}
	if s2.Assume(cond, false) {
		d := *c
		d.St = s2
		var as []*absint.Term
		for _, a := range c.Args[1:] {
			as = append(as, c.In.Contents(s2, a))
		}
		d.Emit(absint.EvPanic, "assert", as...)
		s2.Panicking(absint.Mk("assertion", "", as...))
		out = append(out, &absint.Result{St: s2, Kind: absint.XPanic, Pos: c.Pos})
	}
	return out
}

// implementers gives the methods of the module a call through an interface of the
// module with an unexported method can reach.
func (m *Model) implementers(method string) []*ssa.Function {
	k := "impl:" + method
	if v, ok := m.C.memo[k]; ok {
		return v.([]*ssa.Function)
	}
	var out []*ssa.Function
	for _, p := range m.P.Pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || !types.IsInterface(tn.Type()) {
				continue
			}
			it := tn.Type().Underlying().(*types.Interface)
			sealed := false
			var meth *types.Func
			for i := 0; i < it.NumMethods(); i++ {
				f := it.Method(i)
				if !f.Exported() {
					sealed = true
				}
				if f.FullName() == method {
					meth = f
				}
			}
			if !sealed || meth == nil {
				continue
			}
			for _, q := range m.P.Pkgs {
				qs := q.Types.Scope()
				for _, tname := range qs.Names() {
					t, ok := qs.Lookup(tname).(*types.TypeName)
					if !ok || t.IsAlias() || types.IsInterface(t.Type()) {
						continue
					}
					if nt, ok := t.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
						continue
					}
					for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
						if types.Implements(T, it) {
							if f := m.P.SSA.LookupMethod(T, meth.Pkg(), meth.Name()); f != nil {
								dup := false
								for _, g := range out {
									dup = dup || g == f
								}
								if !dup {
									out = append(out, f)
								}
							}
							break
						}
					}
				}
			}
		}
	}
	m.C.memo[k] = out
	return out
}

// pure: the function only computes a value.
func (m *Model) pure(f *ssa.Function) bool {
	k := "pure:" + f.String()
	if v, ok := m.C.memo[k]; ok {
		return v.(bool)
	}
	m.C.memo[k] = false
	in := absint.New(m.P.SSA, m.P.Module, m.P.Sizes)
	in.MaxSteps = 5000
	for g := range m.Printers {
		in.Intrinsics[g] = func(c *absint.CallCtx) []*absint.Result { return c.Return() }
	}
	ok := true
	for _, r := range in.Call(absint.NewState(), f, Params(f), nil, "P") {
		if r.Kind != absint.XReturn {
			ok = false
		}
		for _, e := range flat(r.St.Events()) {
			switch {
			case e.Kind == absint.EvStore && localAddr(e.Args[0]):
			case e.Kind == absint.EvLoop, e.Kind == absint.EvRGet:
			default:
				ok = false
			}
		}
	}
	if len(in.Problems) > 0 {
		ok = false
	}
	m.C.memo[k] = ok
	return ok
}

// Method finds a method of an exported type of the root package (pointer receiver allowed).
func (m *Model) Method(typ, name string) *ssa.Function {
	t := m.Root.Type(typ)
	need(t != nil, "type %s", typ)
	f := m.P.SSA.LookupMethod(types.NewPointer(t.Type()), m.Root.Pkg, name)
	need(f != nil, "method (*%s).%s", typ, name)
	return f
}

// API lists the exported methods of types of the root package.
func (m *Model) API(typs ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, t := range typs {
		tt := m.Root.Type(t)
		need(tt != nil, "type %s", t)
		ms := m.P.SSA.MethodSets.MethodSet(types.NewPointer(tt.Type()))
		for i := 0; i < ms.Len(); i++ {
			if !ms.At(i).Obj().Exported() {
				continue
			}
			if f := m.P.SSA.MethodValue(ms.At(i)); f != nil && len(f.Blocks) > 0 {
				out = append(out, f)
			}
		}
	}
	return out
}

// Func finds an exported function of the root package.
func (m *Model) Func(name string) *ssa.Function {
	f := m.Root.Func(name)
	need(f != nil, "function %s", name)
	return f
}

// Params makes parameter terms.
func Params(f *ssa.Function) []*absint.Term {
	var out []*absint.Term
	for _, p := range f.Params {
		out = append(out, absint.ParamOf(p))
	}
	return out
}

// Problems reports what the interpreter could not model.
func (r *Report) Problems(in *absint.Interp, what string) bool {
	for f := range in.Entered {
		r.Functions[fnKey(f)] = true
	}
	for _, p := range sortedKeys(in.Problems) {
		r.Bad("undecided:"+what, "-", "undecided: "+p)
	}
	return len(in.Problems) > 0
}
