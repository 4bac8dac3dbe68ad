package checks

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mockeycheck/absint"
)

func init() {
	rule("locks", "no lock is waited for by its holder, kept, or held while the user's code runs, and locks nest in one order", 10, ruleLocks)
	rule("history-locks", "no operation waits for a lock held, and the function of a context runs without locks", 10, historyRule("locks"))
	decides("C37", "locks", "history-locks")
	decides("C36", "dispatch", "adapt-to", "adapt-when", "answer", "origin", "history-context")
}

// lockUse tells what is wrong with the locks a path takes.
func lockUse(evs []*absint.Event) (string, *absint.Event) {
	for _, e := range flat(evs) {
		holds := false
		for _, l := range e.Locks {
			if len(e.Args) > 0 && l == e.Args[0] {
				holds = true
			}
		}
		switch {
		case e.Kind == absint.EvLock && holds:
			return "waits for a lock it holds: " + e.Args[0].String(), e
		case e.Kind == absint.EvUnlock && !holds:
			return "releases a lock it does not hold: " + e.Args[0].String(), e
		case usersCall(e) && len(e.Locks) > 0:
			return "calls a function of the user's while it holds " + e.Locks[len(e.Locks)-1].String(), e
		}
	}
	return "", nil
}

// usersCall: a call of a function of the user's, and not of a method only the library has.
func usersCall(e *absint.Event) bool {
	return e.Kind == absint.EvRCall || e.Kind == absint.EvDyn || e.Kind == absint.EvInvoke && token.IsExported(e.Name)
}

// ruleLocks follows every way through the public functions and through calls of what
// they install.
func ruleLocks(c *Ctx, r *Report) {
	m := c.Model(Linux)
	type edge struct{ a, b string }
	order := map[edge]*absint.Event{}
	look := func(key string, pos token.Pos, res *absint.Result) {
		r.Paths++
		msg, e := lockUse(res.St.Events())
		if msg == "" && len(res.St.Held()) > 0 && res.Kind != absint.XUndecided {
			msg = "ends with a lock held: " + res.St.Held()[0].String()
		}
		if msg != "" {
			if e != nil && e.Pos.IsValid() {
				pos = e.Pos
			}
			r.Bad(key, m.P.Pos(pos), msg, describe(m.P, res)...)
		}
		for _, e := range flat(res.St.Events()) {
			if e.Kind != absint.EvLock {
				continue
			}
			for _, h := range e.Locks {
				if h != e.Args[0] {
					order[edge{m.lockName(h), m.lockName(e.Args[0])}] = e
				}
			}
		}
	}
	fns := m.ownMethods()
	for _, f := range rootFuncs(m) {
		fns = append(fns, f)
	}
	for _, f := range fns {
		r.Ob(fnKey(f))
		in := m.Interp()
		for _, res := range in.Call(absint.NewState(), f, Params(f), nil, "R") {
			look(fnKey(f), f.Pos(), res)
		}
		r.Problems(in, fnKey(f))
	}
	for _, h := range m.Hooks(r) {
		if h.Opaque {
			continue // reported by others
		}
		r.Ob("call of what " + h.Entry + " installs")
		for _, res := range h.Ends {
			look("hook of "+h.Entry, res.Pos, res)
		}
	}
	// locks held while others are waited for
	var es []edge
	for e := range order {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool { return es[i].a+" "+es[i].b < es[j].a+" "+es[j].b })
	after := map[string][]string{}
	for _, e := range es {
		after[e.a] = append(after[e.a], e.b)
	}
	for _, e := range es {
		seen := map[string]bool{}
		var reach func(x string) bool
		reach = func(x string) bool {
			if x == e.a {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for _, y := range after[x] {
				if reach(y) {
					return true
				}
			}
			return false
		}
		r.Ob("order of " + e.a + " and " + e.b)
		if reach(e.b) {
			r.Bad("order of "+e.a+" and "+e.b, m.P.Pos(order[e].Pos), "the locks are waited for in either order while the other one is held")
		}
	}
}

// lockName names the lock by the field or variable it is.
func (m *Model) lockName(l *absint.Term) string {
	if fd := m.fieldOf(l); fd != nil {
		return fd.name()
	}
	return l.String()
}

// rootFuncs are the exported functions of the package that may take a lock: those that
// look up methods and the like are left out.
// ownMethods gives the exported methods of all types of the root package: values of types
// that are not exported get to the user through interfaces.
func (m *Model) ownMethods() []*ssa.Function {
	var out []*ssa.Function
	sc := m.Root.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
			continue
		}
		if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
			out = append(out, m.API(n)...)
		}
	}
	return out
}

func rootFuncs(m *Model) []*ssa.Function {
	var out []*ssa.Function
	for _, x := range m.Root.Members {
		f, ok := x.(*ssa.Function)
		if ok && token.IsExported(f.Name()) && len(f.Blocks) > 0 && m.mayLock(f, map[*ssa.Function]bool{}) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func (m *Model) mayLock(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f == nil || seen[f] {
		return false
	}
	seen[f] = true
	if strings.HasPrefix(f.String(), "(*sync.") && strings.HasSuffix(f.Name(), "Lock") {
		return true
	}
	if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/bytedance/mockey") {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil && m.mayLock(g, seen) {
					return true
				}
				if x.Common().IsInvoke() {
					for _, g := range m.implementers(x.Common().Method.Name()) {
						if m.mayLock(g, seen) {
							return true
						}
					}
				}
			case *ssa.MakeClosure:
				if m.mayLock(x.Fn.(*ssa.Function), seen) {
					return true
				}
			}
		}
	}
	return false
}
