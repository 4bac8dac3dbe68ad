package checks

import (
	"fmt"

	"mockeycheck/absint"
)

func init() {
	rule("dispatch", "a call of a mocked function runs exactly the branch that applies, once, with the arguments of the call, and returns its results", 60, ruleDispatch)
	rule("counters", "each call is counted once, each executed replacement is counted once, atomically", 60, ruleCounters)
	rule("filter", "the goroutine filter decides whether the branches are looked at", 60, ruleFilter)
}

// hookCtx resolves what the events of a hook mean.
type hookCtx struct {
	m  *Model
	ro *Roles
	h  *HookRun
}

func isUserCall(e *absint.Event) bool {
	return e.Kind == absint.EvRCall || e.Kind == absint.EvDyn || e.Kind == absint.EvInvoke
}

func (c *hookCtx) origin() *absint.Term { return absint.Mk("Elem", "", c.h.Proxy) }

func (c *hookCtx) conds(st *absint.State) *absint.Term {
	return c.h.In.LoadAt(st, c.ro.Conds.addr(c.h.Builder), c.ro.Conds.typ())
}

func (c *hookCtx) cond(st *absint.State, j *absint.Term, f *field) *absint.Term {
	a := absint.IndexAddr(c.conds(st), j)
	if c.ro.ViaPointer {
		a = c.h.In.LoadAt(st, a, nil)
	}
	return c.h.In.LoadAt(st, f.addr(a), f.typ())
}

func isNilT(st *absint.State, v *absint.Term) int { return st.Eval(absint.Eq(v, absint.Nil, false)) }

// yes tells whether the condition function answered true (1), false (-1) or is unknown.
func (c *hookCtx) yes(st *absint.State, e *absint.Event) int {
	if len(e.Res) == 0 {
		return 0
	}
	return st.Eval(absint.Mk("Bool", "", c.h.In.LoadAt(st, absint.IndexAddr(e.Res[0], absint.Int(0)), nil)))
}

// run is the user-visible part of one way through a hook.
type run struct {
	loop  *absint.Event // the dispatch loop
	calls []*absint.Event
	k     *absint.Term
}

func dispatchLoop(e *absint.Event) bool {
	if e.Loop == nil {
		return false
	}
	for _, it := range e.Loop.Conts {
		for _, x := range flat(it.Events) {
			if isUserCall(x) {
				return true
			}
		}
	}
	return false
}

func (c *hookCtx) parse(r *absint.Result) (*run, string) {
	u := &run{k: absint.Int(0)}
	for _, e := range r.St.Events() {
		switch {
		case dispatchLoop(e):
			if u.loop != nil || len(u.calls) > 0 {
				return nil, "the branches are looked at more than once"
			}
			u.loop = e
			u.k = e.Loop.Count
			if u.k == nil {
				u.k = e.Loop.Kappa
			}
		case isUserCall(e):
			u.calls = append(u.calls, e)
		}
	}
	return u, ""
}

// judge decides one way through the hook; "" when right.
func (c *hookCtx) judge(r *absint.Result) string {
	u, bad := c.parse(r)
	if bad != "" {
		return bad
	}
	for _, e := range flat(r.St.Events()) {
		if isUserCall(e) {
			if len(e.Args) != 2 || e.Args[1] != c.h.Args {
				return "a function is called with arguments other than those of the call"
			}
		}
		if e.Kind == absint.EvPanic && len(e.Args) == 1 && e.Args[0].Op == "recovered" {
			continue // goes on below
		}
		if e.Kind == absint.EvPanic || e.Kind == absint.EvGo {
			return "the replacement itself panics or starts a goroutine: " + e.String()
		}
	}
	st := r.St
	if r.Kind == absint.XPanic && st.PanicValue() != absint.Sym("userpanic") {
		return "the panic of a condition, replacement or the original goes on as another one"
	}
	n := absint.Len(c.conds(st))
	if u.loop != nil {
		for _, it := range u.loop.Loop.Conts {
			var calls []*absint.Event
			for _, e := range flat(it.Events) {
				if isUserCall(e) {
					calls = append(calls, e)
				}
			}
			w := c.cond(it.St, u.loop.Loop.Kappa, c.ro.When)
			switch {
			case len(calls) == 0:
				return "a branch is passed over without asking its condition"
			case len(calls) > 1:
				return "more than the condition runs for a branch that does not apply"
			case calls[0].Args[0] != absint.ValueOf(w):
				return fmt.Sprintf("branch %s asks %s and not its own condition", u.loop.Loop.Kappa, calls[0].Args[0])
			case c.yes(it.St, calls[0]) != -1:
				return "a branch is passed over although its condition does not answer false"
			}
		}
	}
	// what follows the branches that did not apply
	calls := u.calls
	w := c.cond(st, u.k, c.ro.When)
	hk := c.cond(st, u.k, c.ro.Hook)
	inRange := st.Entails(absint.Sub(absint.Sub(n, u.k), absint.Int(1)))
	normal := r.Kind == absint.XReturn
	asked := false
	if len(calls) > 0 && calls[0].Args[0] == absint.ValueOf(w) && w != hk {
		if !inRange || isNilT(st, w) != -1 {
			return "a condition that is not set is called"
		}
		asked = true
		if len(calls) == 1 {
			if normal {
				return "nothing runs after the condition of a branch"
			}
			return ""
		}
		if c.yes(st, calls[0]) != 1 {
			return "a branch runs although its condition does not answer true"
		}
		calls = calls[1:]
	}
	if len(calls) == 0 {
		if normal {
			return "neither a replacement nor the original function runs"
		}
		return "the replacement does not return although nothing it called panics"
	}
	if len(calls) > 1 {
		return "more than one replacement runs in a call"
	}
	f := calls[0].Args[0]
	matched := inRange && (asked || isNilT(st, w) == 1)
	switch {
	case f == c.origin():
		switch {
		case matched:
			if isNilT(st, hk) != 1 {
				return "the original function runs although the branch that applies may have a replacement"
			}
		case asked:
			return "undecided: the branch asked is not known to be one"
		case u.loop != nil || c.mayLook(st):
			// no branch applies: all must have been asked
			if !st.Entails(absint.Sub(u.k, n)) && !c.filteredOut(st) {
				return "the original function runs although not all branches were asked"
			}
			if u.loop != nil && c.filteredOut(st) {
				return "branches are asked on a goroutine the mock does not apply to"
			}
		}
	case f == absint.ValueOf(hk):
		if !matched {
			return fmt.Sprintf("the replacement of branch %s runs although its condition did not answer true", u.k)
		}
		if isNilT(st, hk) != -1 {
			return "a replacement that is not set is called"
		}
	default:
		return fmt.Sprintf("%s is called, which is neither the original function nor the replacement of the branch that applies", f)
	}
	if normal {
		if len(r.Vals) != 1 || len(calls[0].Res) != 1 || !c.sameSlice(st, r.Vals[0], calls[0].Res[0]) {
			return "the results returned are not those of the function that ran"
		}
	}
	return ""
}

func (c *hookCtx) sameSlice(st *absint.State, a, b *absint.Term) bool {
	return a == b || c.h.In.Contents(st, a) == c.h.In.Contents(st, b)
}

// eligible evaluates the filter for each combination of filter and goroutine that the
// facts of the path allow.
func (c *hookCtx) eligible(st *absint.State) (yes, no bool) {
	F := c.h.In.LoadAt(c.h.Patch.Snap, c.ro.Filter.addr(c.h.Builder), c.ro.Filter.typ())
	G := c.h.In.LoadAt(c.h.Patch.Snap, c.ro.Gid.addr(c.h.Builder), c.ro.Gid.typ())
	for name, v := range c.ro.FilterVals {
		for _, same := range []bool{true, false} {
			s := st.Clone()
			if !s.Assume(absint.Eq(F, absint.Int(v), true), true) {
				continue
			}
			if !s.Assume(absint.Eq(goidCall, G, true), same) {
				continue
			}
			if name == "Disable" || name == "Include" && same || name == "Exclude" && !same {
				yes = true
			} else {
				no = true
			}
		}
	}
	return
}

func (c *hookCtx) filteredOut(st *absint.State) bool {
	y, n := c.eligible(st)
	return !y && n
}

func (c *hookCtx) mayLook(st *absint.State) bool {
	y, _ := c.eligible(st)
	return y
}

// eachHook runs a judgement on every way through every hook.
func eachHook(c *Ctx, r *Report, judge func(x *hookCtx, e *absint.Result) string) {
	m := c.Model(Linux)
	ro := m.Roles()
	for _, h := range m.Hooks(r) {
		if h.Opaque {
			// a hook kept from an earlier configuration is installed again: it was
			// analysed where it was made
			if h.Patch.Args[1].Op != "init" {
				r.Bad(h.Entry+"#hook", m.P.Pos(h.Patch.Pos), fmt.Sprintf("undecided: the replacement installed is %s, which cannot be looked into", h.Patch.Args[1]))
			}
			continue
		}
		if h.Mocker == nil || h.Builder == nil {
			r.Bad(h.Entry+"#hook", m.P.Pos(h.Patch.Pos), "undecided: the mock a replacement belongs to is not known")
			continue
		}
		for f := range h.In.Entered {
			r.Functions[fnKey(f)] = true
		}
		x := &hookCtx{m: m, ro: ro, h: h}
		for _, e := range h.Ends {
			r.Paths++
			r.Ob(h.Entry)
			if msg := judge(x, e); msg != "" {
				key := fnKey(h.Fn)
				pos := "-"
				if h.Patch.Args[1].Args[1].Val != nil || true {
					pos = m.P.Pos(h.Patch.Pos)
				}
				r.Bad("hook of "+key, pos, msg, describe(m.P, e)...)
			}
		}
	}
}

func ruleDispatch(c *Ctx, r *Report) {
	eachHook(c, r, func(x *hookCtx, e *absint.Result) string { return x.judge(e) })
}

func ruleCounters(c *Ctx, r *Report) {
	eachHook(c, r, func(x *hookCtx, e *absint.Result) string {
		times, mocked := x.ro.Times.addr(x.h.Mocker), x.ro.Mocked.addr(x.h.Mocker)
		nt, nm := 0, 0
		ran := false
		started := false
		for _, ev := range e.St.Events() {
			if ev.Loop != nil {
				for _, it := range ev.Loop.Conts {
					for _, y := range flat(it.Events) {
						if len(y.Args) > 0 && (y.Args[0] == times || y.Args[0] == mocked) {
							return "a counter changes once for every branch looked at"
						}
					}
				}
			}
			if dispatchLoop(ev) || isUserCall(ev) {
				started = true
			}
			if isUserCall(ev) && ev.Args[0] != x.origin() && !x.isWhen(e.St, ev) {
				ran = true
				if nm != 1 {
					return "a replacement runs that is not counted before"
				}
			}
			if len(ev.Args) == 0 || ev.Args[0] != times && ev.Args[0] != mocked {
				continue
			}
			switch ev.Kind {
			case absint.EvAtomic:
				if ev.Name == "Load" {
					continue
				}
				if ev.Name != "Add" || len(ev.Args) < 2 || ev.Args[1] != absint.Int(1) {
					return "a counter is changed other than by adding one: " + ev.String()
				}
			case absint.EvStore:
				return "a counter is written without atomic operations: calls on several goroutines would be lost"
			default:
				continue
			}
			if ev.Args[0] == times {
				nt++
				if started {
					return "the call is counted after functions of the user ran, which may panic"
				}
			} else {
				nm++
			}
		}
		if nt != 1 {
			return fmt.Sprintf("a call adds %d to the number of calls", nt)
		}
		want := 0
		if ran {
			want = 1
		}
		if nm != want {
			return fmt.Sprintf("a call that runs %d replacements adds %d to their number", want, nm)
		}
		return ""
	})
	m := c.Model(Linux)
	ro := m.Roles()
	// reading and resetting
	for name, f := range map[string]*field{"Times": ro.Times, "MockTimes": ro.Mocked} {
		fn := m.Method("Mocker", name)
		in := m.Interp()
		for _, res := range in.Call(absint.NewState(), fn, Params(fn), nil, "R") {
			r.Ob(fnKey(fn))
			if res.Kind != absint.XReturn {
				r.Bad(fnKey(fn), m.P.Pos(fn.Pos()), "does not return on some path", describe(m.P, res)...)
				continue
			}
			a := f.addr(Params(fn)[0])
			ok := false
			for _, e := range flat(res.St.Events()) {
				if e.Kind == absint.EvAtomic && e.Name == "Load" && e.Args[0] == a && contains(res.Vals[0], a) {
					ok = true
				}
				if e.Kind == absint.EvStore && !localAddr(e.Args[0]) {
					r.Bad(fnKey(fn), m.P.Pos(e.Pos), "reading a counter changes something", e.String())
				}
			}
			if !ok {
				r.Bad(fnKey(fn), m.P.Pos(fn.Pos()), "the counter reported is not read atomically or not the value reported", describe(m.P, res)...)
			}
		}
		r.Problems(in, fnKey(fn))
	}
}

func contains(t, x *absint.Term) bool {
	found := false
	absint.Walk(t, func(y *absint.Term) {
		if y == x {
			found = true
		}
	})
	return found
}

// isWhen: the event asks a condition.
func (c *hookCtx) isWhen(st *absint.State, e *absint.Event) bool {
	u, _ := c.parse(&absint.Result{St: st})
	if u == nil {
		return false
	}
	return e.Args[0] == absint.ValueOf(c.cond(st, u.k, c.ro.When))
}

func ruleFilter(c *Ctx, r *Report) {
	eachHook(c, r, func(x *hookCtx, e *absint.Result) string {
		u, bad := x.parse(e)
		if bad != "" {
			return ""
		}
		looked := u.loop != nil
		for _, ev := range u.calls {
			if ev.Args[0] != x.origin() {
				looked = true
			}
		}
		yes, no := x.eligible(e.St)
		n := absint.Len(x.conds(e.St))
		switch {
		case looked && no:
			return "the branches are looked at on a goroutine the filter leaves out"
		case !looked && yes && !e.St.Entails(absint.MulC(n, -1)):
			// the branch that applies may be the first without condition or replacement
			w, hk := x.cond(e.St, u.k, x.ro.When), x.cond(e.St, u.k, x.ro.Hook)
			if isNilT(e.St, w) == 1 && isNilT(e.St, hk) == 1 {
				return ""
			}
			return "the branches are not looked at on a goroutine the filter lets through"
		}
		return ""
	})
	m := c.Model(Linux)
	ro := m.Roles()
	for name, want := range map[string]string{"IncludeCurrentGoRoutine": "Include", "ExcludeCurrentGoRoutine": "Exclude"} {
		for _, T := range []string{"MockBuilder", "Mocker"} {
			fn := m.Method(T, name)
			in := m.Interp()
			n := 0
			for _, res := range in.Call(absint.NewState(), fn, Params(fn), nil, "R") {
				if res.Kind != absint.XReturn {
					continue
				}
				r.Ob(fnKey(fn))
				n++
				B := Params(fn)[0]
				if T == "Mocker" {
					B = in.LoadAt(absint.NewState(), ro.Builder.addr(B), ro.Builder.typ())
				}
				if v := in.LoadAt(res.St, ro.Filter.addr(B), ro.Filter.typ()); v != absint.Int(ro.FilterVals[want]) {
					r.Bad(fnKey(fn), m.P.Pos(fn.Pos()), fmt.Sprintf("sets the filter to %s and not to %s", v, want))
				}
				if v := in.LoadAt(res.St, ro.Gid.addr(B), ro.Gid.typ()); v != goidConfig {
					r.Bad(fnKey(fn), m.P.Pos(fn.Pos()), fmt.Sprintf("records %s and not the goroutine that asks", v))
				}
			}
			if n == 0 {
				r.Bad(fnKey(fn), m.P.Pos(fn.Pos()), "never returns")
			}
			r.Problems(in, fnKey(fn))
		}
	}
	for _, T := range []string{"MockBuilder", "Mocker"} {
		fn := m.Method(T, "FilterGoRoutine")
		in := m.Interp()
		ps := Params(fn)
		need(len(ps) == 3, "parameters of %s", fnKey(fn))
		for _, res := range in.Call(absint.NewState(), fn, ps, nil, "R") {
			if res.Kind != absint.XReturn {
				continue
			}
			r.Ob(fnKey(fn))
			B := ps[0]
			if T == "Mocker" {
				B = in.LoadAt(absint.NewState(), ro.Builder.addr(B), ro.Builder.typ())
			}
			if in.LoadAt(res.St, ro.Filter.addr(B), ro.Filter.typ()) != ps[1] || in.LoadAt(res.St, ro.Gid.addr(B), ro.Gid.typ()) != ps[2] {
				r.Bad(fnKey(fn), m.P.Pos(fn.Pos()), "does not record the filter and goroutine given")
			}
		}
		r.Problems(in, fnKey(fn))
	}
	// a mock without a filter applies to all goroutines
	if ro.FilterVals["Disable"] != 0 {
		mock := m.Func("Mock")
		in := m.Interp()
		for _, res := range in.Call(absint.NewState(), mock, Params(mock), nil, "R") {
			if res.Kind == absint.XReturn && in.LoadAt(res.St, ro.Filter.addr(res.Vals[0]), ro.Filter.typ()) != absint.Int(ro.FilterVals["Disable"]) {
				r.Bad(fnKey(mock), m.P.Pos(mock.Pos()), "a new mock has a goroutine filter")
			}
		}
	}
}
