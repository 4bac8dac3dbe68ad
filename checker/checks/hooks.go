package checks

import (
	"go/types"
	"golang.org/x/tools/go/ssa"

	"fmt"
	"sort"
	"strings"

	"mockeycheck/absint"
)

// HookRun is the analysis of a replacement the library made and installs.
type HookRun struct {
	Fn     *ssa.Function
	Entry  string // the API function on whose path it is installed
	Path   *absint.Result
	Patch  *absint.Event
	T      *absint.Term // type of the replacement
	Args   *absint.Term // the arguments of a mocked call
	Proxy  *absint.Term // value of the proxy pointer given to the patch
	In     *absint.Interp
	Ends   []*absint.Result
	N0     int // number of facts before the call
	Opaque bool

	Mocker, Builder *absint.Term
}

// patchOf gives the successful patch events of a path.
func patchEvents(r *absint.Result) []*absint.Event {
	var out []*absint.Event
	for _, e := range flat(r.St.Events()) {
		if e.Kind == absint.EvIntr && e.Name == "patch" {
			out = append(out, e)
		}
	}
	return out
}

// runHook analyses a call of the replacement installed by a patch event.
func (m *Model) runHook(in *absint.Interp, entry string, path *absint.Result, ev *absint.Event, st *absint.State, root string) *HookRun {
	h := &HookRun{Entry: entry, Path: path, Patch: ev, In: in}
	if len(ev.Args) < 3 || st == nil {
		return nil
	}
	hook := ev.Args[1]
	h.Proxy = ev.Args[2]
	if hook.Op != "MakeFunc" {
		h.Opaque = true
		return h
	}
	h.T = hook.Args[0]
	h.Args = absint.Fresh("callargs")
	st = st.Clone()
	st.ResetEvents()
	st.DropOwnership()
	st.DropLocks()
	st.Assume(absint.Eq(absint.Len(h.Args), absint.Mk("NumIn", "", h.T), true), true)
	h.N0 = len(st.Lits())
	m.goid[in] = goidCall
	in.OpaqueMade = true
	defer func() { delete(m.goid, in); in.OpaqueMade = false }()
	rs, ok := in.CallTerm(st, hook.Args[1], []*absint.Term{h.Args}, root)
	if !ok {
		h.Opaque = true
		return h
	}
	h.Ends = rs
	return h
}

// runCalls analyses a call of the replacement after any number of calls that only added to
// counters, and one after each call that left something else behind.
func (m *Model) runCalls(in *absint.Interp, entry string, path *absint.Result, ev *absint.Event, st *absint.State) []*HookRun {
	h := m.runHook(in, entry, path, ev, st, "H")
	if h == nil {
		return nil
	}
	if h.Opaque {
		return []*HookRun{h}
	}
	first, more := afterCalls(st, h.Ends, "H", func(st *absint.State, root string) []*absint.Result {
		if n := m.runHook(in, entry, path, ev, st, root); n != nil {
			return n.Ends
		}
		return nil
	})
	if first != st {
		h = m.runHook(in, entry, path, ev, first, "H")
	}
	out := []*HookRun{h}
	for _, s := range more {
		if n := m.runHook(in, entry, path, ev, s, "H"); n != nil {
			out = append(out, n)
		}
	}
	return out
}

// afterCalls gives the states in which a function that keeps something between its calls
// may be called: the first one, with the counters it adds to at any number, those one call
// leaves, and one with everything that goes up with each call at any number.
func afterCalls(st *absint.State, ends []*absint.Result, root string, call func(*absint.State, string) []*absint.Result) (*absint.State, []*absint.State) {
	first := st
	stores := false
	for _, e := range ends {
		for _, x := range flat(e.St.Events()) {
			a := keptBy(x, root)
			if a == nil {
				continue
			}
			if x.Kind == absint.EvAtomic && x.Name == "Add" {
				if v := first.Kept(a); v != nil {
					if _, ok := v.IsInt(); ok {
						if first == st {
							first = st.Clone()
						}
						first.SetKept(a, absint.Fresh("counted"))
					}
				}
				continue
			}
			stores = stores || x.Name != "Load"
		}
	}
	if !stores {
		return first, nil
	}
	var more []*absint.State
	seen := map[string]bool{}
	var grown *absint.State
	for _, e := range call(first, "G") {
		if e.Kind == absint.XUndecided {
			continue
		}
		k := ""
		for _, x := range flat(e.St.Events()) {
			if a := keptBy(x, "G"); a != nil && (x.Kind == absint.EvStore || x.Name != "Add" && x.Name != "Load") {
				k += fmt.Sprintf("%p=%p;", a, e.St.Kept(a))
			}
		}
		if k == "" || seen[k] || len(seen) >= 12 {
			continue
		}
		seen[k] = true
		more = append(more, e.St)
		for _, e2 := range call(e.St, "I") {
			for _, x := range flat(e2.St.Events()) {
				a := keptBy(x, "I")
				if a == nil || first.Kept(a) == nil || e.St.Kept(a) == nil || e2.St.Kept(a) == nil {
					continue
				}
				v0, ok0 := first.Kept(a).IsInt()
				v1, ok1 := e.St.Kept(a).IsInt()
				v2, ok2 := e2.St.Kept(a).IsInt()
				if ok0 && ok1 && ok2 && v1-v0 == v2-v1 && v1 != v0 {
					if grown == nil {
						grown = first.Clone()
					}
					grown.SetKept(a, absint.Fresh("counted"))
				}
			}
		}
	}
	if grown != nil {
		more = append(more, grown)
	}
	return first, more
}

// keptBy: the memory a call changes that was there before it and is the library's.
func keptBy(x *absint.Event, root string) *absint.Term {
	if x.Kind != absint.EvStore && x.Kind != absint.EvAtomic {
		return nil
	}
	a := x.Args[0]
	for {
		switch a.Op {
		case "fa", "ia", "cast", "sliceof", "sub", "capped", "oncedone", "atomicval":
			a = a.Args[0]
			continue
		}
		break
	}
	if (a.Op == "alloc" || a.Op == "mkslice") && strings.HasPrefix(a.Aux, root+"/") {
		return nil
	}
	return x.Args[0]
}

// Hooks analyses every replacement the public API can install.
func (m *Model) Hooks(rep *Report) []*HookRun {
	for _, p := range m.hookProblems {
		rep.Bad("undecided:hooks", "-", "undecided: "+p)
	}
	if v, ok := m.C.memo["hooks"]; ok && m.watch == nil {
		return v.([]*HookRun)
	}
	ro := m.Roles()
	var out []*HookRun
	seen := map[string]bool{}
	prob := map[string]bool{}
	for _, f := range m.API("Mocker", "MockBuilder") {
		in := m.Interp()
		in.Watch = m.watch
		for _, r := range in.Call(absint.NewState(), f, Params(f), nil, "R") {
			if r.Kind != absint.XReturn {
				continue
			}
			for _, e := range patchEvents(r) {
				st := relevant(f, e)
				settle(st, r, e)
				k := fnKey(f) + hookState(f, r, e, st)
				if seen[k] {
					continue
				}
				seen[k] = true
				hs := m.runCalls(in, fnKey(f), r, e, st)
				if len(hs) == 0 {
					prob[fnKey(f)+": a patch without a replacement"] = true
					continue
				}
				for _, h := range hs {
					h.Fn = f
					if isPtrTo(f.Params[0].Type(), ro.Builder.T) {
						h.Mocker = Params(f)[0]
					} else if len(r.Vals) > 0 {
						h.Mocker = r.Vals[0]
					}
					if h.Mocker != nil {
						h.Builder = in.LoadAt(e.Snap, ro.Builder.addr(h.Mocker), ro.Builder.typ())
					}
					out = append(out, h)
				}
			}
		}
		for p := range in.Problems {
			prob[fnKey(f)+": "+p] = true
		}
	}
	m.hookProblems = sortedKeys(prob)
	for _, p := range m.hookProblems {
		rep.Bad("undecided:hooks", "-", "undecided: "+p)
	}
	if m.watch == nil {
		m.C.memo["hooks"] = out
	}
	return out
}

func isPtrTo(p, t types.Type) bool {
	q, ok := p.Underlying().(*types.Pointer)
	return ok && types.Identical(q.Elem(), t)
}

// relevant is the state before a patch without the facts a call does not depend on:
// those about the registry of mocks and about the function values given by the user.
// Knowing less is safe.
func relevant(f *ssa.Function, e *absint.Event) *absint.State {
	if e.Snap == nil {
		return nil
	}
	drop := map[*absint.Term]bool{}
	for i, p := range f.Params {
		if i == 0 {
			continue
		}
		switch p.Type().Underlying().(type) {
		case *types.Interface, *types.Slice:
			drop[absint.ParamOf(p)] = true
		}
	}
	return e.Snap.Forget(func(l absint.Lit) bool {
		keep := true
		absint.Walk(l.T, func(x *absint.Term) {
			if x.Op == "glob" || drop[x] || x.Op == "sym" && strings.HasPrefix(x.Aux, "?") {
				keep = false
			}
		})
		return keep
	})
}

// settle gives the fields written after the patch the values they end up with: calls come
// later than that.
func settle(st *absint.State, r *absint.Result, patch *absint.Event) {
	if st == nil {
		return
	}
	after := false
	for _, e := range flat(r.St.Events()) {
		if e == patch {
			after = true
		}
		if !after || e.Kind != absint.EvStore || e.Args[0].Op != "fa" {
			continue
		}
		if v := r.St.Cell(e.Args[0]); v != nil {
			st.SetCell(e.Args[0], v)
		}
	}
}

// hookState identifies what a hook can depend on: the memory reachable from the hook
// and the mock, and the facts.
func hookState(f *ssa.Function, r *absint.Result, e *absint.Event, st *absint.State) string {
	var parts []string
	reach := map[*absint.Term]bool{}
	var todo []*absint.Term
	add := func(v *absint.Term, top bool) {
		absint.WalkIf(v, func(x *absint.Term) bool {
			if x.Op == "MakeFunc" && !top {
				return false
			}
			if (x.Op == "alloc" || x.Op == "param") && !reach[x] {
				reach[x] = true
				todo = append(todo, x)
			}
			return true
		})
	}
	for _, a := range e.Args {
		parts = append(parts, fmt.Sprintf("%p", a))
		add(a, true)
	}
	for _, v := range r.Vals {
		add(v, false)
	}
	for _, p := range Params(f)[:1] {
		add(p, false)
	}
	if st == nil {
		return strings.Join(parts, ";")
	}
	var fs []string
	for _, l := range st.Lits() {
		fs = append(fs, fmt.Sprintf("%p=%v", l.T, l.Pos))
	}
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for a, v := range st.Cells() {
			root := a
			for root.Op == "fa" || root.Op == "ia" || root.Op == "cast" || root.Op == "init" || root.Op == "sliceof" {
				root = root.Args[0]
			}
			if root != x || mentionsGlobal(v) {
				continue
			}
			k := fmt.Sprintf("%p", v)
			if v.Op == "MakeFunc" || v.Op == "iface" && strings.Contains(v.String(), "MakeFunc") {
				k = "made"
			}
			fs = append(fs, fmt.Sprintf("%p:%s", a, k))
			add(v, false)
		}
		for _, q := range st.Quantified() {
			if contains(q[0], x) {
				for _, v := range q {
					fs = append(fs, fmt.Sprintf("%p", v))
				}
			}
		}
	}
	sort.Strings(fs)
	return strings.Join(append(parts, fs...), ";")
}

func mentionsGlobal(t *absint.Term) bool {
	found := false
	absint.Walk(t, func(x *absint.Term) {
		if x.Op == "glob" {
			found = true
		}
	})
	return found
}
