package checks

import (
	"fmt"

	"golang.org/x/tools/go/ssa"

	"mockeycheck/absint"
)

func init() {
	rule("origin", "the origin function runs the original with its own arguments after those its signature leaves out", 20, func(c *Ctx, r *Report) { r.take(c.origins().calls) })
	rule("origin-accept", "only origins are accepted that have the parameters of the target, and those that have are", 8, func(c *Ctx, r *Report) { r.take(c.origins().accept) })
	rule("origin-binding", "an origin function is bound to the original from the installation on and to one call of it only", 20, func(c *Ctx, r *Report) { r.take(c.origins().binding) })
	decides("C24", "origin-accept")
	decides("C14", "origin", "origin-binding")
}

type originReports struct{ calls, accept, binding *Report }

// origins decides the three origin rules at once.
func (c *Ctx) origins() *originReports {
	if v, ok := c.memo["origins"]; ok {
		return v.(*originReports)
	}
	mk := func(id string) *Report { return &Report{Rule: id, Functions: map[string]bool{}} }
	o := &originReports{mk("origin"), mk("origin-accept"), mk("origin-binding")}
	ruleOrigin(c, o)
	c.memo["origins"] = o
	return o
}

// take makes the contents of another report this one's.
func (r *Report) take(o *Report) {
	id, title := r.Rule, r.Title
	*r = *o
	r.Rule, r.Title = id, title
}

// originSig relates the signature of an origin variable P to that of the target.
func (m *Model) originSig(in *absint.Interp, st *absint.State, B, P *absint.Term) *sig {
	s := m.sigOf(in, st, B, absint.Nil)
	s.U = absint.TypeOfV(absint.Mk("Elem", "", absint.ValueOf(P)))
	s.nU = absint.Mk("NumIn", "", s.U)
	s.lead = -1
	return s
}

func (s *sig) isPtr(P *absint.Term) int {
	return s.st.Eval(absint.Eq(absint.Mk("Kind", "", absint.TypeOfV(absint.ValueOf(P))), absint.Int(22), true))
}

func ruleOrigin(c *Ctx, o *originReports) {
	r, ra, rb := o.calls, o.accept, o.binding
	m := c.Model(Linux)
	ro := m.Roles()
	shifts := map[string]bool{}
	judged := map[*absint.Result]bool{}
	for _, h := range m.Hooks(r) {
		if h.Opaque || h.Mocker == nil || h.Builder == nil {
			continue // reported by dispatch
		}
		for f := range h.In.Entered {
			r.Functions[fnKey(f)] = true
			ra.Functions[fnKey(f)] = true
			rb.Functions[fnKey(f)] = true
		}
		key := fnKey(h.Fn)
		pos := m.P.Pos(h.Patch.Pos)
		P := h.In.LoadAt(h.Patch.Snap, ro.Origin.addr(h.Builder), ro.Origin.typ())
		set := isNilT(h.Path.St, P)
		if P == absint.Nil {
			set = 1
		}
		var cell, U *absint.Term
		var shift int64
		if set != 1 {
			cell = absint.Mk("Elem", "", absint.ValueOf(P))
			s := m.originSig(h.In, h.Path.St, h.Builder, P)
			U = s.U
			if set == 0 {
				r.Bad("origin of "+key, pos, "undecided whether an origin is declared where the replacement is made", describe(m.P, h.Path)...)
				continue
			}
			ra.Ob("origin accepted: " + key)
			why := ""
			switch {
			case s.isPtr(P) != 1:
				why = "it need not be a pointer"
			case s.isFunc(U) != 1:
				why = "it need not be a function variable"
			case s.variadicMatch() != 1:
				why = "it may be variadic while the target is not, or the other way round"
			case s.gen == 0:
				why = "it is undecided whether the target is generic"
			case s.match(0) == 1:
			case s.match(1) == 1:
				shift = 1
			default:
				why = "its parameters are not known to be those of the target"
			}
			if why != "" {
				ra.Bad("origin of "+key, pos, "an origin is accepted although "+why, describe(m.P, h.Path)...)
				continue
			}
			if s.gen == 1 {
				shift++
			}
			shifts[fmt.Sprint(s.gen, shift)] = true
		}
		bound := false // before the first call already
		for _, e := range flat(h.Path.St.Events()) {
			if e.Kind != absint.EvRSet {
				continue
			}
			if set == 1 || e.Args[0] != cell {
				r.Bad("origin of "+key, m.P.Pos(e.Pos), "a variable that is not the origin is set: "+e.Args[0].String())
				continue
			}
			bound = true
			r.Ob("origin bound: " + key)
			if shift > 0 {
				r.Bad("origin of "+key, m.P.Pos(e.Pos), "an origin whose signature leaves out arguments is bound when no call is being served")
				continue
			}
			for _, msg := range m.originCalls(h, h.Path.St, e, U, shift, r) {
				r.Bad("origin of "+key, m.P.Pos(e.Pos), msg, describe(m.P, h.Path)...)
			}
		}
		if set != 1 && !bound {
			rb.Bad("origin variable", pos, "is bound only by calls of the target: before the first one it does not run the original")
		}
		for _, e := range h.Ends {
			r.Paths++
			r.Ob("origin in " + key)
			rb.Ob("origin in " + key)
			n := 0
			started := false
			for _, ev := range e.St.Events() {
				if dispatchLoop(ev) || isUserCall(ev) {
					started = true
				}
				if ev.Loop != nil {
					for _, x := range flat([]*absint.Event{ev}) {
						if x.Kind == absint.EvRSet {
							r.Bad("origin of "+key, m.P.Pos(x.Pos), "a variable is set once for every branch looked at")
						}
					}
				}
				if ev.Kind != absint.EvRSet {
					continue
				}
				if set == 1 || ev.Args[0] != cell {
					r.Bad("origin of "+key, m.P.Pos(ev.Pos), "a call sets a variable that is not the origin: "+ev.Args[0].String())
					continue
				}
				n++
				if started {
					r.Bad("origin of "+key, m.P.Pos(ev.Pos), "the origin is bound only after functions of the user ran")
				}
				if shift > 0 {
					rb.Bad("origin variable", m.P.Pos(ev.Pos), "is bound anew by every call with the receiver of that call: a nested or concurrent call replaces the receiver of the calls in progress")
				}
				// the closure does not depend on the way the call ends
				if k := e; !judged[k] {
					judged[k] = true
					for _, msg := range m.originCalls(h, e.St, ev, U, shift, r) {
						r.Bad("origin of "+key, m.P.Pos(ev.Pos), msg, describe(m.P, e)...)
					}
				}
			}
			if set != 1 && n == 0 && (!bound || shift > 0) {
				r.Bad("origin of "+key, pos, "a call does not bind the origin", describe(m.P, e)...)
			}
		}
	}
	need(len(shifts) == 0 || len(shifts) >= 4, "only %d of the 4 combinations of receiver and generic type information are accepted for origins", len(shifts))
	m.originRejected(ra)
}

// originCalls analyses a call of the function an origin variable is set to.
func (m *Model) originCalls(h *HookRun, at *absint.State, set *absint.Event, U *absint.Term, shift int64, r *Report) []string {
	v := set.Args[1]
	in := h.In
	if v.Op != "MakeFunc" {
		return []string{"undecided: the origin is set to something that is not a function made by reflect.MakeFunc: " + v.String()}
	}
	var bad []string
	if v.Args[0] != U {
		bad = append(bad, fmt.Sprintf("the origin is set to a function of type %s and not of the variable's type", v.Args[0]))
	}
	st := at.Clone()
	st.ResetEvents()
	st.DropOwnership()
	inner := absint.Fresh("innerargs")
	st.Assume(absint.Eq(absint.Len(inner), absint.Mk("NumIn", "", U), true), true)
	ends, ok := in.CallTerm(st, v.Args[1], []*absint.Term{inner}, "O")
	if !ok {
		return append(bad, "undecided: the function the origin is set to cannot be looked into")
	}
	want := absint.SubSlice(inner, absint.Int(0), absint.Len(inner))
	if shift > 0 {
		want = absint.Cat(absint.SubSlice(h.Args, absint.Int(0), absint.Int(shift)), want)
	}
	for _, e := range ends {
		r.Paths++
		r.Ob("origin call")
		if msg := forwards(in, e, absint.Mk("Elem", "", h.Proxy), h.T, want, "the original function"); msg != "" {
			bad = append(bad, msg)
		}
	}
	return bad
}

// originRejected: a way Build panics with an origin declared has a reason.
func (m *Model) originRejected(r *Report) {
	ro := m.Roles()
	fn := m.Method("MockBuilder", "Build")
	in := m.Interp()
	ps := Params(fn)
	P := in.LoadAt(absint.NewState(), ro.Origin.addr(ps[0]), ro.Origin.typ())
	for _, res := range in.Call(m.initial(in), fn, ps, nil, "R") {
		if res.Kind == absint.XReturn || isNilT(res.St, P) == 1 {
			continue
		}
		reason := len(patchEvents(res)) > 0
		for _, e := range flat(res.St.Events()) {
			if e.Kind == absint.EvPanic && e.Name == "patch rejected" {
				reason = true
			}
		}
		for _, l := range res.St.Lits() {
			// a mock that is in force already
			if a, b, ok := absint.EqSides(l.T); ok && l.Pos && (mentionsGlobal(a) || mentionsGlobal(b)) {
				reason = true
			}
		}
		s := m.originSig(in, res.St, ps[0], P)
		r.Ob("origin rejected")
		if reason || s.isPtr(P) == -1 || s.isFunc(s.U) == -1 || s.variadicMatch() == -1 || s.match(0) == -1 && s.match(1) == -1 {
			continue
		}
		// a target that is no function, or an unfit one
		if s.isFunc(s.A) == -1 {
			continue
		}
		r.Bad("origin of "+fnKey(fn), m.P.Pos(panicPos(res)), "a matching origin may be rejected", describe(m.P, res)...)
	}
	r.Problems(in, fnKey(fn))
}

// initial is the state after the initialisation of the library's own package: no mock is in force.
func (m *Model) initial(in *absint.Interp) *absint.State {
	st := absint.NewState()
	fi := m.Root.Func("init")
	need(fi != nil, "package initialisation")
	old := map[*ssa.Function]absint.Intrinsic{}
	for _, p := range m.P.Pkgs {
		sp := m.P.SSA.Package(p.Types)
		if sp == nil || sp == m.Root {
			continue
		}
		if f := sp.Func("init"); f != nil {
			old[f] = in.Intrinsics[f]
			in.Intrinsics[f] = func(c *absint.CallCtx) []*absint.Result { return c.Return() }
		}
	}
	if g, ok := m.Root.Members["init$guard"].(*ssa.Global); ok {
		st.SetCell(absint.GlobalAddr(g), absint.False)
	}
	v := in.Volatile
	in.Volatile = nil
	rs := in.Call(st, fi, nil, nil, "init")
	in.Volatile = v
	for f, x := range old {
		if x == nil {
			delete(in.Intrinsics, f)
		} else {
			in.Intrinsics[f] = x
		}
	}
	need(len(rs) == 1 && rs[0].Kind == absint.XReturn, "package initialisation has one way through it: %d", len(rs))
	rs[0].St.ResetEvents()
	return rs[0].St
}
