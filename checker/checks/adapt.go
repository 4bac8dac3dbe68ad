package checks

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mockeycheck/absint"
)

func init() {
	rule("adapt-to", "replacements are accepted exactly when they match and get exactly the arguments they declare", 20, func(c *Ctx, r *Report) { ruleAdapt(c, r, "To", false) })
	rule("adapt-when", "conditions are accepted exactly when they match and get exactly the arguments they declare", 20, func(c *Ctx, r *Report) { ruleAdapt(c, r, "When", true) })
	decides("C12", "adapt-to", "adapt-when")
	decides("C24", "adapt-to", "adapt-when")
}

// sig is what a path knows about how the signature of a user function matches the target's.
type sig struct {
	m      *Model
	ro     *Roles
	in     *absint.Interp
	st     *absint.State
	A, U   *absint.Term // types of target and user function
	gen    int          // the target is generic
	lead   int          // the user function declares GenericInfo first
	nA, nU *absint.Term
}

func (m *Model) genericInfo() *absint.Term {
	t := m.Root.Type("GenericInfo")
	need(t != nil, "type GenericInfo")
	return absint.RType(t.Type())
}

func (m *Model) sigOf(in *absint.Interp, st *absint.State, B, user *absint.Term) *sig {
	ro := m.Roles()
	s := &sig{m: m, ro: ro, in: in, st: st}
	s.A = absint.TypeOfV(absint.ValueOf(in.LoadAt(st, ro.Target.addr(B), ro.Target.typ())))
	s.U = absint.TypeOfV(absint.ValueOf(user))
	s.gen = st.Eval(in.LoadAt(st, ro.Generic.addr(B), ro.Generic.typ()))
	s.nA, s.nU = absint.Mk("NumIn", "", s.A), absint.Mk("NumIn", "", s.U)
	s.lead = st.Eval(absint.Eq(absint.Mk("In", "", s.U, absint.Int(0)), m.genericInfo(), false))
	if st.Entails(absint.MulC(s.nU, -1)) {
		s.lead = -1
	}
	return s
}

func bi(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// match: parameters of the user function after lead are those of the target from r on.
// 1: known, -1: known not to, 0: not known.
func (s *sig) match(r int64) int {
	if s.lead == 0 {
		return 0
	}
	sh := bi(s.lead == 1)
	d := absint.Sub(absint.Sub(s.nA, absint.Int(r)), absint.Sub(s.nU, absint.Int(sh))) // == 0
	switch {
	case s.st.EqualInts(d, absint.Int(0)):
	case s.st.Entails(absint.Sub(d, absint.Int(1))) || s.st.Entails(absint.Sub(absint.Int(-1), d)) || s.st.Eval(absint.Eq(d, absint.Int(0), true)) == -1:
		return -1
	default:
		// fewer parameters than the receiver takes
		if s.st.Entails(absint.Sub(absint.Int(r-1), s.nA)) {
			return -1
		}
		return 0
	}
	n := absint.Sub(s.nA, absint.Int(r))
	if s.st.Entails(absint.MulC(n, -1)) {
		return 1
	}
	return s.pairs(s.st.Lits(), s.st.Events(), r, sh, n)
}

// pairs looks for a loop comparing all parameters, or a pair known to differ.
func (s *sig) pairs(lits []absint.Lit, evs []*absint.Event, r, sh int64, n *absint.Term) int {
	idx := func(l absint.Lit) (x, y *absint.Term, ok bool) {
		if l.T.Op != "eq" || len(l.T.Args) != 2 {
			return
		}
		a, b := l.T.Args[0], l.T.Args[1]
		for k := 0; k < 2; k++ {
			if a.Op == "In" && b.Op == "In" && a.Args[0] == s.A && b.Args[0] == s.U {
				return a.Args[1], b.Args[1], true
			}
			a, b = b, a
		}
		return
	}
	for _, l := range lits {
		if x, y, ok := idx(l); ok && !l.Pos && s.st.EqualInts(absint.Sub(x, y), absint.Int(r-sh)) {
			if s.st.Entails(absint.Sub(x, absint.Int(r))) && s.st.Entails(absint.Sub(absint.Sub(s.nA, x), absint.Int(1))) {
				return -1
			}
		}
	}
	for _, e := range flat(evs) {
		L := e.Loop
		if L == nil || L.Count == nil || len(L.Conts) == 0 {
			continue
		}
		all := true
		for _, it := range L.Conts {
			found := false
			for _, l := range it.Lits {
				x, y, ok := idx(l)
				if !ok || !l.Pos {
					continue
				}
				if v, ok := absint.Sub(absint.Sub(x, y), absint.Int(r-sh)).IsInt(); !ok || v != 0 {
					continue
				}
				// the indices run from r, one by one, over all parameters
				at := func(k *absint.Term) *absint.Term { return absint.Subst(x, L.Kappa, k) }
				d := absint.Sub(at(absint.Add(L.Kappa, absint.Int(1))), x)
				step, _ := d.IsInt()
				last := at(absint.Sub(L.Count, absint.Int(1)))
				cnt := s.st.Entails(absint.Sub(L.Count, n))
				switch {
				case step == 1 && s.st.EqualInts(at(absint.Int(0)), absint.Int(r)) && cnt:
					found = true
				case step == 1 && s.st.Entails(absint.Sub(absint.Int(r), at(absint.Int(0)))) && s.st.Entails(absint.Sub(last, absint.Sub(s.nA, absint.Int(1)))):
					found = true
				case step == -1 && s.st.EqualInts(at(absint.Int(0)), absint.Sub(s.nA, absint.Int(1))) && cnt:
					found = true
				}
			}
			all = all && found
		}
		if all {
			return 1
		}
	}
	return 0
}

func (s *sig) variadicMatch() int {
	return s.st.Eval(absint.Eq(absint.Mk("IsVariadic", "", s.A), absint.Mk("IsVariadic", "", s.U), false))
}

func (s *sig) isFunc(T *absint.Term) int {
	return s.st.Eval(absint.Eq(absint.Mk("Kind", "", T), absint.Int(19), true))
}

// accepted explains why the signature may not have been accepted; "" and the receiver
// shift when it must be.
func (s *sig) accepted(cond bool) (string, int64) {
	if s.isFunc(s.U) != 1 {
		return "it need not be a function", 0
	}
	if s.variadicMatch() != 1 {
		return "it may be variadic while the target is not, or the other way round", 0
	}
	if s.lead == 0 {
		return "undecided whether it declares generic type information", 0
	}
	if s.lead == 1 && s.gen != 1 {
		return "it may declare generic type information although the target is not generic", 0
	}
	if cond {
		if !s.st.EqualInts(absint.Mk("NumOut", "", s.U), absint.Int(1)) {
			return "it need not have exactly one result", 0
		}
		if s.st.Eval(absint.Eq(absint.Mk("Kind", "", absint.Mk("Out", "", s.U, absint.Int(0))), absint.Int(1), true)) != 1 {
			return "its result need not be boolean", 0
		}
	}
	switch {
	case s.match(0) == 1:
		return "", 0
	case s.match(1) == 1:
		return "", 1
	}
	return "its parameters are not known to be those of the target", 0
}

// rejected tells whether the path knows a reason to reject.
func (s *sig) rejected(cond bool) bool {
	if s.isFunc(s.U) == -1 || s.variadicMatch() == -1 || s.lead == 1 && s.gen == -1 {
		return true
	}
	if cond {
		no := absint.Mk("NumOut", "", s.U)
		d := absint.Eq(no, absint.Int(1), true)
		if s.st.Eval(d) == -1 {
			return true
		}
		if s.st.Eval(absint.Eq(absint.Mk("Kind", "", absint.Mk("Out", "", s.U, absint.Int(0))), absint.Int(1), true)) == -1 {
			return true
		}
	}
	return s.match(0) == -1 && s.match(1) == -1
}

// madeFor finds the function a path stores as condition or replacement.
func (m *Model) madeFor(in *absint.Interp, r *absint.Result, f *field) (*absint.Event, *absint.Term) {
	var ev *absint.Event
	for _, e := range flat(r.St.Events()) {
		if e.Kind == absint.EvStore && e.Args[0].Op == "fa" && e.Args[0].Aux == f.Key && e.Args[1] != absint.Nil {
			ev = e
		}
	}
	if ev == nil {
		return nil, nil
	}
	v := ev.Args[1]
	if v.Op == "Iface" {
		v = v.Args[0]
	}
	return ev, v
}

// sameType: two type terms are the same type.
func sameType(st *absint.State, a, b *absint.Term) bool {
	if a == b {
		return true
	}
	return a.Op == "FuncOf" && b.Op == "FuncOf" && a.Args[2] == b.Args[2] && st.SameSeq(a.Args[0], b.Args[0]) && st.SameSeq(a.Args[1], b.Args[1])
}

// genericType is the type of a function with generic type information in front.
func (m *Model) genericType(A, outs *absint.Term) *absint.Term {
	ins := absint.Cat(absint.List(m.genericInfo()), absint.AllOf("In", A))
	if outs == nil {
		outs = absint.AllOf("Out", A)
	}
	return absint.Mk("FuncOf", "", ins, outs, absint.Mk("IsVariadic", "", A))
}

// adaptEntries are the ways to declare a condition or replacement.
func (m *Model) adaptEntries(name string) []*ssa.Function {
	return []*ssa.Function{m.Method("MockBuilder", name), m.Method("Mocker", name)}
}

func ruleAdapt(c *Ctx, r *Report, name string, cond bool) {
	m := c.Model(Linux)
	ro := m.Roles()
	fld := ro.Hook
	if cond {
		fld = ro.When
	}
	for _, fn := range m.adaptEntries(name) {
		ps := Params(fn)
		need(len(ps) == 2, "parameters of %s", fnKey(fn))
		in := m.Interp()
		key := fnKey(fn)
		shifts := map[string]bool{}
		for _, res := range in.Call(absint.NewState(), fn, ps, nil, "R") {
			B := ps[0]
			if isPtrTo(fn.Params[0].Type(), m.Root.Type("Mocker").Type()) {
				B = in.LoadAt(absint.NewState(), ro.Builder.addr(B), ro.Builder.typ())
			}
			r.Paths++
			r.Ob(key)
			ev, v := m.madeFor(in, res, fld)
			if res.Kind == absint.XPanic && ev == nil {
				// rejected: there must be a reason
				s := m.sigOf(in, res.St, B, ps[1])
				if !s.rejected(cond) && !m.otherReason(in, res, B, ps[0], fld) {
					r.Bad(key, m.P.Pos(panicPos(res)), "a matching function may be rejected", describe(m.P, res)...)
				}
				continue
			}
			if ev == nil {
				if res.Kind == absint.XReturn {
					r.Bad(key, m.P.Pos(fn.Pos()), "the function given is not recorded", describe(m.P, res)...)
				}
				continue
			}
			if res.Kind != absint.XReturn && !cond && name != "To" {
				continue
			}
			// accepted
			s := m.sigOf(in, res.St, B, ps[1])
			why, recv := s.accepted(cond)
			if why != "" {
				r.Bad(key, m.P.Pos(ev.Pos), "a function is accepted although "+why, describe(m.P, res)...)
				continue
			}
			if v.Op != "MakeFunc" {
				r.Bad(key, m.P.Pos(ev.Pos), "undecided: what is recorded is not a function made by reflect.MakeFunc", v.String())
				continue
			}
			g := bi(s.gen == 1)
			wantT := s.A
			if s.gen == 0 {
				r.Bad(key, m.P.Pos(ev.Pos), "undecided whether the target is generic where the function is adapted")
				continue
			}
			if cond {
				outs := absint.List(absint.Mk("Out", "", s.U, absint.Int(0)))
				ins := absint.AllOf("In", s.A)
				if s.gen == 1 {
					ins = absint.Cat(absint.List(m.genericInfo()), ins)
				}
				wantT = absint.Mk("FuncOf", "", ins, outs, absint.Mk("IsVariadic", "", s.A))
			} else if s.gen == 1 {
				wantT = m.genericType(s.A, nil)
			}
			if !sameType(res.St, v.Args[0], wantT) {
				r.Bad(key, m.P.Pos(ev.Pos), fmt.Sprintf("the function recorded has type %s and not %s", v.Args[0], wantT))
				continue
			}
			shifts[fmt.Sprint(s.gen, s.lead, recv)] = true
			// a call
			args := absint.Fresh("callargs")
			st := res.St.Clone()
			st.ResetEvents()
			st.DropOwnership()
			n0 := absint.Add(s.nA, absint.Int(g))
			st.Assume(absint.Eq(absint.Len(args), n0, true), true)
			want := absint.SubSlice(args, absint.Int(g+recv), n0)
			if s.gen == 1 && s.lead == 1 {
				want = absint.Cat(absint.List(in.LoadAt(st, absint.IndexAddr(args, absint.Int(0)), nil)), want)
			}
			states := []*absint.State{st}
			if fn == m.adaptEntries(name)[0] {
				states = append(states, m.later(in, st, B)...)
			}
			call := func(st *absint.State, root string) []*absint.Result {
				st = st.Clone()
				st.ResetEvents()
				ends, _ := in.CallTerm(st, v.Args[1], []*absint.Term{args}, root)
				return ends
			}
			if ends := call(st, "A"); len(ends) > 0 {
				first, more := afterCalls(st, ends, "A", call)
				states[0] = first
				states = append(states, more...)
			}
			for i, st := range states {
				st = st.Clone()
				st.ResetEvents()
				ends, ok := in.CallTerm(st, v.Args[1], []*absint.Term{args}, "A")
				if !ok {
					r.Bad(key, m.P.Pos(ev.Pos), "undecided: the function recorded cannot be looked into")
					continue
				}
				for _, e := range ends {
					r.Paths++
					r.Ob(key + " call")
					if msg := adaptedCall(m, in, e, ps[1], s.U, want, cond); msg != "" {
						if i > 0 {
							msg = "after further declarations: " + msg
						}
						r.Bad(key, m.P.Pos(ev.Pos), msg, describe(m.P, e)...)
					}
				}
			}
		}
		r.Problems(in, key)
		if len(shifts) < 6 {
			r.Bad(key, m.P.Pos(fn.Pos()), fmt.Sprintf("only %d of the 6 combinations of receiver and generic type information are accepted", len(shifts)))
		}
	}
}

func panicPos(r *absint.Result) (p tokenPos) {
	for _, e := range flat(r.St.Events()) {
		if e.Kind == absint.EvPanic {
			p = e.Pos
		}
	}
	if p == 0 {
		p = r.Pos
	}
	return
}

// otherReason: the declaration is refused for the state of the builder, not for the signature.
func (m *Model) otherReason(in *absint.Interp, r *absint.Result, B, recv *absint.Term, fld *field) bool {
	ro := m.Roles()
	if recv != B {
		// reconfiguration of a mock with several branches
		S := in.LoadAt(r.St, ro.Conds.addr(B), ro.Conds.typ())
		if r.St.Eval(absint.Eq(absint.Len(S), absint.Int(1), true)) == -1 {
			return true
		}
		// no repair of the installation is possible when it is rejected
		for _, e := range flat(r.St.Events()) {
			if e.Kind == absint.EvPanic && (e.Name == "patch rejected") {
				return true
			}
		}
		return false
	}
	// one is declared already
	S := in.LoadAt(absint.NewState(), ro.Conds.addr(B), ro.Conds.typ())
	a := absint.IndexAddr(S, absint.Sub(absint.Len(S), absint.Int(1)))
	if ro.ViaPointer {
		a = in.LoadAt(absint.NewState(), a, nil)
	}
	if isNilT(r.St, in.LoadAt(absint.NewState(), fld.addr(a), fld.typ())) == -1 {
		return true
	}
	return r.St.Entails(absint.MulC(absint.Len(S), -1))
}

// adaptedCall judges one way through an adapted function.
func adaptedCall(m *Model, in *absint.Interp, e *absint.Result, user, U, want *absint.Term, cond bool) string {
	return forwards(in, e, absint.ValueOf(user), U, want, "the user's function")
}

// forwards: a way through a function made by the library does nothing but call f, whose
// type is U, once with the arguments wanted and return its results.
func forwards(in *absint.Interp, e *absint.Result, f, U, want *absint.Term, what string) string {
	var calls []*absint.Event
	for _, x := range flat(e.St.Events()) {
		switch {
		case isUserCall(x):
			calls = append(calls, x)
		case x.Kind == absint.EvPanic && len(x.Args) == 1 && x.Args[0].Op == "recovered":
			// a panic of the user's function goes on; see below
		case x.Kind == absint.EvPanic || x.Kind == absint.EvRSet || x.Kind == absint.EvGo || x.Kind == absint.EvLock:
			return "an adapted function does more than call the user's: " + x.String()
		case x.Kind == absint.EvAppend:
			return "arguments are appended to memory of the caller"
		case x.Kind == absint.EvStore && !localAddr(x.Args[0]):
			return "a call of an adapted function writes to shared memory: " + x.String()
		}
	}
	if len(calls) != 1 {
		return fmt.Sprintf("%s is called %d times", what, len(calls))
	}
	x := calls[0]
	if x.Kind != absint.EvRCall || x.Args[0] != f {
		return fmt.Sprintf("%s is called and not %s", x.Args[0], what)
	}
	if msg := callShape(e.St, x, U); msg != "" {
		return msg
	}
	got := x.Args[1]
	if !e.St.SameSeq(got, want) {
		return fmt.Sprintf("%s gets %s and not %s", what, got, want)
	}
	if e.Kind == absint.XPanic && e.St.PanicValue() != absint.Sym("userpanic") {
		return "the panic of " + what + " goes on as another one"
	}
	if e.Kind == absint.XReturn {
		if len(e.Vals) != 1 || len(x.Res) != 1 || e.Vals[0] != x.Res[0] && in.Contents(e.St, e.Vals[0]) != in.Contents(e.St, x.Res[0]) {
			return "the results are not those of " + what
		}
	}
	return ""
}

// callShape: a variadic function is called with the slice of its last arguments.
func callShape(st *absint.State, x *absint.Event, F *absint.Term) string {
	v := st.Eval(absint.Mk("IsVariadic", "", F))
	if v == 0 {
		v = st.Eval(absint.Mk("IsVariadic", "", absint.TypeOfV(x.Args[0])))
	}
	switch {
	case x.Name == "CallSlice" && v != 1:
		return "a function that need not be variadic is called with CallSlice"
	case x.Name == "Call" && v != -1:
		return "a function that may be variadic is called so that its variadic arguments are packed anew"
	}
	return ""
}

// later gives the states a builder can be in after further declarations, as far as these
// change more than the function they are about.
func (m *Model) later(in *absint.Interp, st *absint.State, B *absint.Term) []*absint.State {
	ro := m.Roles()
	known := map[string]bool{ro.When.Key: true, ro.Hook.Key: true, ro.Conds.Key: true}
	if ro.CondBuilder != nil {
		known[ro.CondBuilder.Key] = true
	}
	own := func(a *absint.Term) bool {
		return a.Op == "fa" && known[a.Aux]
	}
	setters := []*ssa.Function{m.Method("MockBuilder", "To"), m.Method("MockBuilder", "When"), m.Method("MockBuilder", "Return")}
	more, ok := m.C.memo["later"].(bool)
	if !ok {
		for _, f := range setters {
			for _, r := range in.Call(absint.NewState(), f, Params(f), nil, "R") {
				for _, e := range flat(r.St.Events()) {
					more = more || e.Kind == absint.EvStore && !own(e.Args[0]) && !localAddr(e.Args[0])
				}
			}
		}
		m.C.memo["later"] = more
	}
	if !more {
		return nil
	}
	noted := func(st *absint.State) string {
		var out []string
		for a, v := range st.Cells() {
			if !own(a) && !localAddr(a) {
				out = append(out, fmt.Sprintf("%p=%p", a, v))
			}
		}
		sort.Strings(out)
		return strings.Join(out, ";")
	}
	seen := map[string]bool{noted(st): true}
	var out []*absint.State
	from := []*absint.State{st}
	for round := 0; round < 2; round++ {
		var next []*absint.State
		for _, s0 := range from {
			for k, f := range setters {
				for _, r := range in.Call(s0.Clone(), f, []*absint.Term{B, absint.Param(fmt.Sprintf("later%d.%d", round, k))}, nil, fmt.Sprintf("L%d.%d", round, k)) {
					if r.Kind != absint.XReturn || seen[noted(r.St)] {
						continue
					}
					seen[noted(r.St)] = true
					s1 := r.St.Clone()
					s1.ResetEvents()
					next = append(next, s1)
				}
			}
		}
		out = append(out, next...)
		from = next
	}
	return out
}
