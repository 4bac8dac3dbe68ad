package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mockeycheck/absint"
)

// The history rules decide what sequences of operations on mocks do. A sequence is
// analysed over a heap whose shape is known (the registry of mocks starts as package
// initialisation leaves it); functions, variables and values of the user are unknown.
// What every operation does to code, variables and the registry is compared with what
// a small model of the properties says.

func init() {
	rule("history-context", "the end of a context removes its mocks, last one first, and no others", 10, historyRule("context"))
	rule("history-mock", "installing and removing are idempotent and keep the registry in step", 10, historyRule("mock"))
	rule("history-remock", "a rejected re-mock changes nothing and names the mock in force", 5, historyRule("remock"))
	rule("history-reconfigure", "reconfiguring removes the mock and installs the changed one", 2, historyRule("reconfigure"))
	rule("history-variable", "a mocked variable holds the given value and gets its own back", 5, historyRule("variable"))
	rule("history-alive", "what an installed mock jumps to is reachable from the registry", 10, historyRule("alive"))
	decides("C05", "history-context", "history-mock")
	decides("C06", "history-mock")
	decides("C07", "history-remock")
	decides("C11", "history-reconfigure", "dispatch")
	decides("C16", "history-variable")
	decides("C29", "history-alive")
}

type hMock struct {
	Name      string
	Var       bool
	Target    *absint.Term // function value or pointer to the variable
	Obj       *absint.Term // what building returned
	Builder   *absint.Term
	Given     *absint.Term // replacement or value in force when installed
	Installed bool
	Patch     *absint.Term // the installation
	Caller    *absint.Term // recorded location
	Orig      *absint.Term // value of the variable when the mock was created
	Args      []*absint.Term
	Conds     int
	Flavour   string // unsafe, generic, origin, filter
}

type hModel struct {
	mocks  map[string]*hMock
	ctxs   [][]string // installed mocks by context
	mark   int        // events before this one are accounted for
	locks  int
	budget int
	pos    int // position in the script
	trace  string
}

func (d *hModel) clone() *hModel {
	n := *d
	n.mocks = map[string]*hMock{}
	for k, m := range d.mocks {
		c := *m
		n.mocks[k] = &c
	}
	n.ctxs = nil
	for _, c := range d.ctxs {
		n.ctxs = append(n.ctxs, append([]string(nil), c...))
	}
	return &n
}

// conflict gives the mock of the innermost context that has the same target.
func (d *hModel) conflict(target *absint.Term) *hMock {
	for _, n := range d.ctxs[len(d.ctxs)-1] {
		if d.mocks[n].Target == target {
			return d.mocks[n]
		}
	}
	return nil
}

// above tells whether another mock of the same target was installed later in an inner context.
func (d *hModel) above(m *hMock) bool {
	seen := false
	for _, c := range d.ctxs {
		for _, n := range c {
			if n == m.Name {
				seen = true
			} else if seen && d.mocks[n].Target == m.Target {
				return true
			}
		}
	}
	return false
}

func (d *hModel) remove(n string) {
	for i, c := range d.ctxs {
		for k, x := range c {
			if x == n {
				d.ctxs[i] = append(append([]string(nil), c[:k]...), c[k+1:]...)
				break
			}
		}
	}
	d.mocks[n].Installed = false
}

// hEffect is an expected effect.
type hEffect struct {
	kind string // patch, unpatch, set, restore
	mock string
	val  *absint.Term
}

type hist struct {
	m       *Model
	c       *Ctx
	in      *absint.Interp
	rep     map[string]*Report
	models  []*hModel
	cell    *absint.Term
	n       int
	init    *absint.State
	key     string
	quiet   bool
	fails   int
	ops     int
	script  []string
	alpha   []string
	reject  bool   // also follow the paths where patching fails
	flavour string // how mocks are made
	twice   bool   // the framework runs the function of a context twice

	specs   map[string]*hMock
	fn      *absint.Term   // function given to PatchConvey
	others  []*absint.Term // items given instead
	cargs   *absint.Term   // its arguments
	cend    []endKind
	ures    int
	learnt  int
	symbols map[*absint.Term]bool
}

type endKind struct {
	kind string
	ret  *absint.Term
}

func (h *hist) state(st *absint.State) *hModel {
	n, _ := st.Cell(h.cell).IsInt()
	return h.models[n]
}

func (h *hist) put(st *absint.State, d *hModel) {
	h.models = append(h.models, d)
	st.SetCell(h.cell, absint.Int(int64(len(h.models)-1)))
}

func (h *hist) ob(aspect, site string) {
	h.rep[aspect].Ob(site)
}

func (h *hist) bad(aspects []string, op string, d *hModel, msg string, st *absint.Result) {
	h.fails++
	if h.quiet || h.fails > 40 {
		return
	}
	det := []string{"history: " + d.trace}
	if st != nil {
		det = append(det, describe(h.m.P, st)...)
		if len(det) > 30 {
			det = append(det[:1], det[len(det)-29:]...)
		}
	}
	for _, a := range aspects {
		h.rep[a].Bad("history:"+op, h.opPos(op), msg, det...)
	}
}

// locks checks the locks taken since the last operation.
func (h *hist) locks(op string, d *hModel, r *absint.Result) {
	h.ob("locks", d.trace)
	h.rep["locks"].Paths++
	if msg, _ := lockUse(r.St.Events()[min(d.mark, len(r.St.Events())):]); msg != "" {
		h.bad([]string{"locks"}, op, d, msg, r)
	}
}

func (h *hist) opPos(op string) string {
	f := map[string]string{"build": "MockBuilder.Build", "patch": "Mocker.Patch", "unpatch": "Mocker.UnPatch", "release": "Mocker.Release",
		"build variable": "MockerVar.To", "patch variable": "MockerVar.Patch", "unpatch variable": "MockerVar.UnPatch"}[op]
	if f == "" {
		switch op {
		case "UnPatchAll", "PatchConvey":
			return h.m.P.Pos(h.m.Func(op).Pos())
		}
		return "-"
	}
	p := strings.Split(f, ".")
	return h.m.P.Pos(h.m.Method(p[0], p[1]).Pos())
}

func (h *hist) call(st *absint.State, f *ssa.Function, args ...*absint.Term) []*absint.Result {
	h.n++
	return h.in.Call(st, f, args, nil, absint.NewRoot(h.n))
}

// effects are what a path did to code, variables and by panicking since the mark.
func (h *hist) effects(st *absint.State, d *hModel) []*absint.Event {
	var out []*absint.Event
	for _, e := range flat(st.Events()[d.mark:]) {
		switch {
		case e.Kind == absint.EvIntr && (e.Name == "patch" || e.Name == "unpatch"):
		case e.Kind == absint.EvRSet, e.Kind == absint.EvDyn, e.Kind == absint.EvRCall, e.Kind == absint.EvGo:
		case e.Kind == absint.EvStore && !localAddr(e.Args[0]) && !mentionsGlobal(e.Args[0]):
		default:
			continue
		}
		out = append(out, e)
	}
	return out
}

func panics(st *absint.State, d *hModel) []*absint.Event {
	var out []*absint.Event
	for _, e := range flat(st.Events()[d.mark:]) {
		if e.Kind == absint.EvPanic {
			out = append(out, e)
		}
	}
	return out
}

func patchRejected(st *absint.State, d *hModel) bool {
	for _, e := range panics(st, d) {
		if e.Name == "patch rejected" {
			return true
		}
	}
	return false
}

// agree compares effects with the expected ones and says what differs.
func (h *hist) agree(st *absint.State, d *hModel, want []hEffect) string {
	got := h.effects(st, d)
	var gs, ws []string
	for _, e := range got {
		gs = append(gs, h.name(d, e))
	}
	for _, w := range want {
		ws = append(ws, w.kind+" "+w.mock)
	}
	say := func() string {
		return fmt.Sprintf("does %s instead of %s", orNothing(gs), orNothing(ws))
	}
	if len(got) != len(want) {
		return say()
	}
	for i, e := range got {
		w := want[i]
		m := d.mocks[w.mock]
		switch w.kind {
		case "unpatch":
			if e.Name != "unpatch" || m.Patch == nil || len(e.Args) == 0 || e.Args[0] != m.Patch {
				return say()
			}
		case "patch":
			if e.Name != "patch" || len(e.Args) < 3 || e.Args[0] != absint.ValueOf(m.Target) {
				return say()
			}
			if w.val != nil && !h.reaches(st, []*absint.Term{e.Args[1]}, w.val) {
				return "installs a replacement that does not know the declared one"
			}
		case "set", "restore":
			if e.Kind != absint.EvRSet || !contains(e.Args[0], m.Target) {
				return say()
			}
			if w.kind == "set" && e.Args[1] != w.val {
				return "sets the variable to something other than the value given: " + e.Args[1].String()
			}
			if w.kind == "restore" {
				zero := absint.Mk("Zero", "", absint.TypeOfV(absint.Mk("Elem", "", absint.ValueOf(m.Target))))
				isNil := st.Eval(absint.Eq(m.Orig, absint.Nil, false))
				ok := e.Args[1] == absint.ValueOf(m.Orig) && isNil != 1 || h.zeroOf(e.Args[1], m.Target, zero) && isNil == 1
				if !ok {
					return "sets the variable to something other than its value before: " + e.Args[1].String()
				}
			}
		}
	}
	return ""
}

// zeroOf: the zero value of the type of the variable.
func (h *hist) zeroOf(v, ptr, zero *absint.Term) bool {
	return v == zero || v.Op == "Zero" && contains(v, ptr) && !strings.Contains(v.String(), "PtrTo")
}

func orNothing(s []string) string {
	if len(s) == 0 {
		return "nothing"
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func (h *hist) name(d *hModel, e *absint.Event) string {
	for _, n := range sortedMocks(d.mocks) {
		m := d.mocks[n]
		switch {
		case e.Name == "unpatch" && len(e.Args) > 0 && m.Patch != nil && e.Args[0] == m.Patch:
			return "unpatch " + n
		case e.Name == "patch" && len(e.Args) > 0 && contains(e.Args[0], m.Target):
			return "patch " + n
		case e.Kind == absint.EvRSet && contains(e.Args[0], m.Target):
			return "set " + n
		}
	}
	return e.Kind + " " + e.Name
}

func sortedMocks(ms map[string]*hMock) []string {
	b := map[string]bool{}
	for k := range ms {
		b[k] = true
	}
	return sortedKeys(b)
}

// reaches: a term is found in memory reachable from others.
func (h *hist) reaches(st *absint.State, from []*absint.Term, what *absint.Term) bool {
	return h.reach(st, from)[what]
}

// reach gives all terms found in memory reachable from the given ones.
func (h *hist) reach(st *absint.State, from []*absint.Term) map[*absint.Term]bool {
	return h.reachWithout(st, from, nil)
}

// reachWithout does not follow the objects to stop at.
func (h *hist) reachWithout(st *absint.State, from []*absint.Term, stop map[*absint.Term]bool) map[*absint.Term]bool {
	by := map[*absint.Term][]*absint.Term{}
	for a, v := range st.Cells() {
		by[rootOf(a)] = append(by[rootOf(a)], v)
	}
	seen := map[*absint.Term]bool{}
	todo := append([]*absint.Term(nil), from...)
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		absint.WalkIf(x, func(t *absint.Term) bool {
			if seen[t] {
				return false
			}
			seen[t] = true
			if !stop[t] {
				todo = append(todo, by[t]...)
			}
			// what a patch keeps of its operands are addresses
			return t.Op != "patchof"
		})
	}
	return seen
}

func rootOf(a *absint.Term) *absint.Term {
	for {
		switch a.Op {
		case "fa", "ia", "cast", "sliceof", "sub", "capped", "mkslice", "region", "own":
			if len(a.Args) == 0 {
				return a
			}
			a = a.Args[0]
			continue
		}
		return a
	}
}

// absurd prunes paths on which two different functions or variables of the user have the
// same address. That their types or contents are equal is possible and explored.
func (h *hist) absurd(st *absint.State) bool {
	for _, l := range st.Lits() {
		if !l.Pos {
			continue
		}
		a, b, ok := absint.EqSides(l.T)
		if !ok {
			continue
		}
		if x, y := h.identity(a), h.identity(b); x != nil && y != nil && x != y {
			return true
		}
	}
	return false
}

// identity is the function or variable of the user that a term is the address of.
func (h *hist) identity(t *absint.Term) *absint.Term {
	for len(t.Args) > 0 {
		switch t.Op {
		case "Pointer", "UnsafePointer", "ValueOf", "cast", "conv", "Iface", "iface", "Interface":
			t = t.Args[0]
		case "UnsafeAddr", "Addr":
			if t.Args[0].Op != "Elem" {
				return nil
			}
			t = t.Args[0].Args[0]
		default:
			return nil
		}
	}
	if h.symbols[t] {
		return t
	}
	return nil
}

// ---- operations ----

// step checks what an operation did and continues the surviving paths.
func (h *hist) step(op string, aspects []string, before *hModel, rs []*absint.Result, want []hEffect, after func(r *absint.Result, d *hModel)) []*absint.State {
	var out []*absint.State
	h.ops++
	for _, r := range rs {
		if h.absurd(r.St) {
			continue
		}
		d := h.state(r.St).clone()
		if len(d.mocks) < len(before.mocks) {
			continue
		}
		rejected := patchRejected(r.St, d)
		if rejected && !h.reject {
			continue
		}
		for _, a := range aspects {
			h.ob(a, d.trace)
			h.rep[a].Paths++
		}
		if r.Kind == absint.XUndecided {
			h.bad(aspects, op, d, "undecided: "+op, r)
			continue
		}
		h.locks(op, d, r)
		if len(r.St.Held()) != d.locks {
			h.bad(append([]string{"mock"}, aspects...), op, d, "leaves a lock held", r)
			continue
		}
		if rejected {
			// the installation itself failed: nothing else may have happened
			var w []hEffect
			for _, e := range want {
				if e.kind == "patch" {
					break
				}
				w = append(w, e)
			}
			if msg := h.agree(r.St, d, w); msg != "" {
				h.bad(aspects, op, d, "when patching fails, "+msg, r)
				continue
			}
			for _, e := range w {
				if e.kind == "unpatch" {
					d.remove(e.mock)
				}
			}
			if r.Kind == absint.XReturn {
				h.bad(aspects, op, d, "goes on after patching failed", r)
				continue
			}
			for _, e := range want {
				if e.kind == "patch" && d.mocks[e.mock].Obj == nil {
					delete(d.mocks, e.mock)
				}
			}
			r.St.Resume()
			d.mark = len(r.St.Events())
			h.put(r.St, d)
			out = append(out, r.St)
			continue
		}
		if msg := h.agree(r.St, d, want); msg != "" {
			h.bad(aspects, op, d, msg, r)
			continue
		}
		fails := h.fails
		after(r, d)
		if h.fails != fails {
			continue
		}
		r.St.Resume()
		h.alive(r, d, op)
		d.mark = len(r.St.Events())
		h.put(r.St, d)
		out = append(out, r.St)
	}
	return out
}

// alive: what installed mocks jump to is reachable from the library's globals.
func (h *hist) alive(r *absint.Result, d *hModel, op string) {
	var roots []*absint.Term
	for a := range r.St.Cells() {
		if g := rootOf(a); g.Op == "glob" && strings.HasPrefix(g.Aux, h.m.P.Module) {
			roots = append(roots, g)
		}
	}
	var seen map[*absint.Term]bool
	for _, n := range sortedMocks(d.mocks) {
		m := d.mocks[n]
		if !m.Installed || m.Var || len(m.Args) < 3 {
			continue
		}
		if seen == nil {
			seen = h.reach(r.St, roots)
		}
		h.ob("alive", d.trace)
		h.rep["alive"].Paths++
		for i, what := range []*absint.Term{m.Args[1], m.Args[2], m.Patch} {
			if i == 1 {
				// the variable the trampoline is stored in
				for what.Op == "ValueOf" || what.Op == "Iface" {
					what = what.Args[0]
				}
				if what.Op != "New" {
					absint.Walk(m.Args[2], func(t *absint.Term) {
						if t.Op == "New" {
							what = t
						}
					})
				}
			}
			if !seen[what] {
				h.bad([]string{"alive"}, op, d, [...]string{"the replacement", "the proxy to the original", "the moved code"}[i]+" of an installed mock is not reachable from the registry of mocks", r)
			}
		}
	}
}

func (h *hist) lastCaller(st *absint.State, d *hModel) *absint.Term {
	var c *absint.Term
	for _, e := range flat(st.Events()[d.mark:]) {
		if e.Kind == absint.EvIntr && e.Name == "caller" {
			c = e.Res[0]
		}
	}
	return c
}

func (h *hist) installed(r *absint.Result, d *hModel, n string) {
	m := d.mocks[n]
	m.Installed = true
	m.Caller = h.lastCaller(r.St, d)
	for _, e := range h.effects(r.St, d) {
		if e.Name == "patch" {
			m.Patch = e.Res[0]
			m.Args = e.Args
		}
	}
	k := len(d.ctxs) - 1
	d.ctxs[k] = append(d.ctxs[k], n)
}

// install is the common part of building and patching.
func (h *hist) install(op, n string, d *hModel, rs []*absint.Result, then func(r *absint.Result, d *hModel)) []*absint.State {
	m := d.mocks[n]
	aspects := []string{"mock"}
	if m.Var {
		aspects = []string{"mock", "variable"}
		op += " variable"
	}
	if c := d.conflict(m.Target); c != nil {
		return h.step(op, append(aspects, "remock"), d, rs, nil, func(r *absint.Result, d *hModel) {
			if r.Kind != absint.XPanic {
				h.bad([]string{"remock"}, op, d, "mocking what another mock of the context has mocked is accepted", r)
				return
			}
			named := c.Caller == nil
			if c.Caller != nil {
				for _, e := range panics(r.St, d) {
					for _, a := range e.Args {
						named = named || contains(a, c.Caller)
					}
				}
			}
			if !named {
				h.bad([]string{"remock"}, op, d, "the panic for a re-mock does not mention where the mock in force was installed", r)
			}
			if op == "build" || op == "build variable" {
				delete(d.mocks, n)
			}
		})
	}
	e := hEffect{"patch", n, m.Given}
	if m.Var {
		e.kind = "set"
		e.val = h.hookValue(m)
	}
	return h.step(op, append(aspects, "remock"), d, rs, []hEffect{e}, func(r *absint.Result, d *hModel) {
		if r.Kind != absint.XReturn {
			h.bad(append(aspects, "remock"), op, d, "ends by "+r.Kind.String()+" after an acceptable installation", r)
			return
		}
		if then != nil {
			then(r, d)
		}
		h.installed(r, d, n)
		if d.mocks[n].Caller == nil {
			h.bad([]string{"remock"}, op, d, "does not record where the mock was installed", r)
		}
	})
}

func (h *hist) hookValue(m *hMock) *absint.Term {
	if m.Given == absint.Nil {
		return absint.Mk("Zero", "", absint.TypeOfV(absint.Mk("Elem", "", absint.ValueOf(m.Target))))
	}
	return absint.ValueOf(m.Given)
}

func (h *hist) builder() string { return "MockBuilder" }

// chain runs calls one after the other on the result of the one before; paths that do
// not return end the chain.
func (h *hist) chain(st *absint.State, first *absint.Term, calls ...func(st *absint.State, x *absint.Term) []*absint.Result) []*absint.Result {
	cur := []*absint.Result{{St: st, Kind: absint.XReturn, Vals: []*absint.Term{first}}}
	for _, f := range calls {
		var next []*absint.Result
		for _, r := range cur {
			if r.Kind != absint.XReturn || len(r.Vals) == 0 {
				next = append(next, r)
				continue
			}
			next = append(next, f(r.St, r.Vals[0])...)
		}
		cur = next
	}
	return cur
}

// make builds the mock with a name.
func (h *hist) make(st *absint.State, m *hMock) []*absint.Result {
	if m.Var {
		to := h.m.Method("MockerVar", "To")
		return h.chain(st, nil, func(st *absint.State, _ *absint.Term) []*absint.Result {
			return h.call(st, h.m.Func("MockValue"), m.Target)
		}, func(st *absint.State, x *absint.Term) []*absint.Result {
			d := h.state(st).clone()
			if mm := d.mocks[m.Name]; mm != nil {
				for _, e := range flat(st.Events()[d.mark:]) {
					if e.Kind == absint.EvRGet && contains(e.Args[0], m.Target) {
						mm.Orig = e.Res[0]
					}
				}
				h.put(st, d)
			}
			return h.call(st, to, x, m.Given)
		})
	}
	return h.chain(st, nil, func(st *absint.State, _ *absint.Term) []*absint.Result {
		switch m.Flavour {
		case "unsafe":
			return h.call(st, h.m.Func("MockUnsafe"), m.Target)
		case "generic":
			return h.call(st, h.m.Func("MockGeneric"), m.Target)
		}
		return h.call(st, h.m.Func("Mock"), m.Target, absint.Nil)
	}, func(st *absint.State, x *absint.Term) []*absint.Result {
		switch m.Flavour {
		case "origin":
			return h.call(st, h.m.Method("MockBuilder", "Origin"), x, newVal(m, "first"))
		case "filter":
			return h.call(st, h.m.Method("MockBuilder", "FilterGoRoutine"), x, absint.Int(2), absint.Sym("goroutine"))
		}
		return []*absint.Result{{St: st, Kind: absint.XReturn, Vals: []*absint.Term{x}}}
	}, func(st *absint.State, x *absint.Term) []*absint.Result {
		if m.Conds < 2 {
			return []*absint.Result{{St: st, Kind: absint.XReturn, Vals: []*absint.Term{x}}}
		}
		return h.chain(st, x, func(st *absint.State, x *absint.Term) []*absint.Result {
			return h.call(st, h.m.Method("MockBuilder", "When"), x, newVal(m, "w"))
		}, func(st *absint.State, x *absint.Term) []*absint.Result {
			return h.call(st, h.m.Method("MockBuilder", "Return"), x, absint.List(newVal(m, "r")))
		})
	}, func(st *absint.State, x *absint.Term) []*absint.Result {
		return h.call(st, h.m.Method("MockBuilder", "To"), x, m.Given)
	}, func(st *absint.State, x *absint.Term) []*absint.Result {
		if d := h.state(st).clone(); d.mocks[m.Name] != nil {
			d.mocks[m.Name].Builder = x
			h.put(st, d)
		}
		return h.call(st, h.m.Method("MockBuilder", "Build"), x)
	})
}

func typName(m *hMock) string {
	if m.Var {
		return "MockerVar"
	}
	return "Mocker"
}

// do runs one operation.
func (h *hist) do(st *absint.State, tok string) []*absint.State {
	d := h.state(st).clone()
	if d.trace != "" {
		d.trace += " "
	}
	d.trace += tok
	d.mark = len(st.Events())
	d.locks = len(st.Held())
	h.put(st, d)
	n := tok[len(tok)-1:]
	if strings.ContainsAny(tok[:1], "+-~^=") && d.mocks[n] == nil {
		return []*absint.State{st} // it could not be built
	}
	switch {
	case tok == "*":
		return h.unpatchAll(st, d)
	case tok == "(":
		return h.context(st, d)
	case tok[0] == '+':
		m := d.mocks[n]
		if m.Installed {
			rs := h.call(st, h.m.Method(typName(m), "Patch"), m.Obj)
			return h.step(opName("patch", m), asp(m), d, rs, nil, h.returnsSelf(opName("patch", m), n, asp(m)))
		}
		rs := h.call(st, h.m.Method(typName(m), "Patch"), m.Obj)
		return h.install("patch", n, d, rs, nil)
	case tok[0] == '-':
		m := d.mocks[n]
		rs := h.call(st, h.m.Method(typName(m), "UnPatch"), m.Obj)
		return h.step(opName("unpatch", m), asp(m), d, rs, h.undo(d, n), h.removed(opName("unpatch", m), n, asp(m), true))
	case tok[0] == '~':
		return h.reconfigure(st, d, tok, n)
	case tok[0] == '^':
		m := d.mocks[n]
		rs := h.call(st, h.m.Method(typName(m), "Release"), m.Obj)
		return h.step("release", []string{"reconfigure"}, d, rs, h.undo(d, n), func(r *absint.Result, d *hModel) {
			h.removed("release", n, []string{"reconfigure"}, false)(r, d)
			if r.Kind == absint.XReturn && (len(r.Vals) != 1 || r.Vals[0] != d.mocks[n].Builder) {
				h.bad([]string{"reconfigure"}, "release", d, "does not return the builder of the mock", r)
			}
			h.released(r, d, n)
			d.mocks[n].Given = absint.Nil
		})
	case tok[0] == '=':
		// declare again on a released builder
		m := d.mocks[n]
		v := newVal(m, "")
		if m.Conds > 1 {
			v = h.specs[n].Given
		}
		rs := h.chain(st, m.Builder, func(st *absint.State, x *absint.Term) []*absint.Result {
			return h.call(st, h.m.Method("MockBuilder", "To"), x, v)
		}, func(st *absint.State, x *absint.Term) []*absint.Result {
			return h.call(st, h.m.Method("MockBuilder", "Build"), x)
		})
		m.Given = v
		return h.install("build", n, d, rs, func(r *absint.Result, d *hModel) {
			if len(r.Vals) == 1 {
				d.mocks[n].Obj = r.Vals[0]
			}
		})
	}
	m := h.specs[tok]
	c := *m
	d.mocks[tok] = &c
	h.put(st, d)
	rs := h.make(st, m)
	return h.install("build", tok, d, rs, func(r *absint.Result, d *hModel) {
		if len(r.Vals) == 1 {
			d.mocks[tok].Obj = r.Vals[0]
		}
	})
}

func asp(m *hMock) []string {
	if m.Var {
		return []string{"mock", "variable"}
	}
	return []string{"mock"}
}

func opName(op string, m *hMock) string {
	if m.Var {
		return op + " variable"
	}
	return op
}

func (h *hist) returnsSelf(op, n string, aspects []string) func(r *absint.Result, d *hModel) {
	return func(r *absint.Result, d *hModel) {
		if r.Kind != absint.XReturn {
			h.bad(aspects, op, d, "ends by "+r.Kind.String(), r)
			return
		}
		if len(r.Vals) != 1 || r.Vals[0] != d.mocks[n].Obj {
			h.bad(aspects, op, d, "does not return the mock", r)
		}
	}
}

func (h *hist) removed(op, n string, aspects []string, self bool) func(r *absint.Result, d *hModel) {
	return func(r *absint.Result, d *hModel) {
		if r.Kind != absint.XReturn {
			h.bad(aspects, op, d, "ends by "+r.Kind.String(), r)
			return
		}
		if self {
			h.returnsSelf(op, n, aspects)(r, d)
		}
		if d.mocks[n].Installed {
			d.remove(n)
		}
	}
}

// undo is the effect of removing a mock.
func (h *hist) undo(d *hModel, n string) []hEffect {
	m := d.mocks[n]
	switch {
	case !m.Installed:
		return nil
	case m.Var:
		return []hEffect{{"restore", n, nil}}
	}
	return []hEffect{{"unpatch", n, nil}}
}

func (h *hist) undoTop(d *hModel) []hEffect {
	top := d.ctxs[len(d.ctxs)-1]
	var out []hEffect
	for i := len(top) - 1; i >= 0; i-- {
		out = append(out, h.undo(d, top[i])...)
	}
	return out
}

func dropTop(d *hModel) {
	for _, n := range append([]string(nil), d.ctxs[len(d.ctxs)-1]...) {
		d.remove(n)
	}
}

func (h *hist) unpatchAll(st *absint.State, d *hModel) []*absint.State {
	rs := h.call(st, h.m.Func("UnPatchAll"))
	return h.step("UnPatchAll", []string{"context"}, d, rs, h.undoTop(d), func(r *absint.Result, d *hModel) {
		if r.Kind != absint.XReturn {
			h.bad([]string{"context"}, "UnPatchAll", d, "ends by "+r.Kind.String(), r)
		}
		dropTop(d)
	})
}

// change is a way to reconfigure an installed mock.
type change struct {
	method string
	args   func(m *hMock) []*absint.Term
	// fields that may change, and what they must know or be afterwards
	fields map[string]func(h *hist, m *hMock) (is, knows *absint.Term)
	single bool // only for mocks with one branch
}

func newVal(m *hMock, what string) *absint.Term {
	return absint.Sym("new:" + typName(m) + ":" + what + m.Name)
}

func knows(what string) func(h *hist, m *hMock) (is, knows *absint.Term) {
	return func(h *hist, m *hMock) (*absint.Term, *absint.Term) { return nil, newVal(m, what) }
}

func is(t func(h *hist, m *hMock) *absint.Term) func(h *hist, m *hMock) (is, knows *absint.Term) {
	return func(h *hist, m *hMock) (*absint.Term, *absint.Term) { return t(h, m), nil }
}

func given(what string) func(m *hMock) []*absint.Term {
	return func(m *hMock) []*absint.Term { return []*absint.Term{newVal(m, what)} }
}

func filterIs(n string) func(h *hist, m *hMock) (is, knows *absint.Term) {
	return is(func(h *hist, m *hMock) *absint.Term { return absint.Int(h.m.Roles().FilterVals[n]) })
}

type cfgField = func(h *hist, m *hMock) (is, knows *absint.Term)

var changes = map[string]*change{
	"~": {"To", given(""), map[string]cfgField{"hook": knows("")}, true},
	"w": {"When", given("w"), map[string]cfgField{"when": knows("w")}, true},
	"r": {"Return", func(m *hMock) []*absint.Term { return []*absint.Term{absint.List(newVal(m, "r"))} },
		map[string]cfgField{"hook": knows("r")}, true},
	"o": {"Origin", given("o"), map[string]cfgField{"origin": is(func(h *hist, m *hMock) *absint.Term { return newVal(m, "o") })}, false},
	"f": {"FilterGoRoutine", func(m *hMock) []*absint.Term { return []*absint.Term{newVal(m, "f"), newVal(m, "g")} },
		map[string]cfgField{"filter": is(func(h *hist, m *hMock) *absint.Term { return newVal(m, "f") }), "gid": is(func(h *hist, m *hMock) *absint.Term { return newVal(m, "g") })}, false},
	"i": {"IncludeCurrentGoRoutine", func(m *hMock) []*absint.Term { return nil },
		map[string]cfgField{"filter": filterIs("Include"), "gid": is(func(h *hist, m *hMock) *absint.Term { return goidConfig })}, false},
	"e": {"ExcludeCurrentGoRoutine", func(m *hMock) []*absint.Term { return nil },
		map[string]cfgField{"filter": filterIs("Exclude"), "gid": is(func(h *hist, m *hMock) *absint.Term { return goidConfig })}, false},
}

// config is the configuration of a mock.
func (h *hist) config(st *absint.State, builder *absint.Term) map[string]*absint.Term {
	ro := h.m.Roles()
	out := map[string]*absint.Term{}
	get := func(n string, f *field, base *absint.Term) { out[n] = h.in.LoadAt(st, f.addr(base), f.typ()) }
	get("filter", ro.Filter, builder)
	get("gid", ro.Gid, builder)
	get("origin", ro.Origin, builder)
	get("generic", ro.Generic, builder)
	get("unsafe", ro.Unsafe, builder)
	get("target", ro.Target, builder)
	conds := h.in.LoadAt(st, ro.Conds.addr(builder), ro.Conds.typ())
	out["branches"] = absint.Len(conds)
	n, ok := absint.Len(conds).IsInt()
	if !ok {
		return out
	}
	for k := int64(0); k < n; k++ {
		c := absint.IndexAddr(conds, absint.Int(k))
		if ro.ViaPointer {
			c = h.in.LoadAt(st, c, types.NewPointer(ro.When.T))
		}
		x := ""
		if k > 0 {
			x = fmt.Sprint(k)
		}
		get("when"+x, ro.When, c)
		get("hook"+x, ro.Hook, c)
		if ro.CondBuilder != nil {
			get("owner"+x, ro.CondBuilder, c)
		}
	}
	return out
}

func (h *hist) reconfigure(st *absint.State, d *hModel, tok, n string) []*absint.State {
	m := d.mocks[n]
	kind := "~"
	if len(tok) == 3 {
		kind = tok[1:2]
	}
	if m.Var && kind == "b" {
		// a value that may not fit
		v := newVal(m, "bad")
		op, asp := "MockerVar.To", []string{"variable"}
		fits := absint.Mk("AssignableTo", "", absint.TypeOfV(absint.ValueOf(v)), absint.Mk("ElemT", "", absint.TypeOfV(absint.ValueOf(m.Target))))
		s2 := st.Clone()
		var out []*absint.State
		if st.Assume(fits, false) && st.Assume(absint.Eq(v, absint.Nil, false), false) {
			rs := h.call(st, h.m.Method(typName(m), "To"), m.Obj, v)
			out = append(out, h.step(op, asp, d, rs, nil, func(r *absint.Result, d *hModel) {
				if r.Kind != absint.XPanic {
					h.bad(asp, op, d, "a value that is not assignable to the variable is accepted", r)
				}
			})...)
		}
		if s2.Assume(absint.Eq(v, absint.Nil, false), true) {
			rs := h.call(s2, h.m.Method(typName(m), "To"), m.Obj, v)
			zero := absint.Mk("Zero", "", absint.TypeOfV(absint.Mk("Elem", "", absint.ValueOf(m.Target))))
			w := append(h.undo(d, n), hEffect{"set", n, zero})
			out = append(out, h.step(op, asp, d, rs, w, func(r *absint.Result, d *hModel) {
				h.returnsSelf(op, n, asp)(r, d)
				if d.mocks[n].Installed {
					d.remove(n)
				}
				d.mocks[n].Given = absint.Nil
				h.installed(r, d, n)
			})...)
		}
		return out
	}
	if m.Var {
		v := newVal(m, "")
		rs := h.call(st, h.m.Method(typName(m), "To"), m.Obj, v)
		w := append(h.undo(d, n), hEffect{"set", n, absint.ValueOf(v)})
		return h.step("reconfigure variable", []string{"variable"}, d, rs, w, func(r *absint.Result, d *hModel) {
			h.returnsSelf("reconfigure variable", n, []string{"variable"})(r, d)
			if d.mocks[n].Installed {
				d.remove(n)
			}
			d.mocks[n].Given = v
			h.installed(r, d, n)
		})
	}
	ch := changes[kind]
	aspects := []string{"reconfigure"}
	op := ch.method
	before := h.config(st, m.Builder)
	f := h.m.Method("Mocker", ch.method)
	rs := h.call(st, f, append([]*absint.Term{m.Obj}, ch.args(m)...)...)
	if br, ok := before["branches"].IsInt(); ch.single && (!ok || br != 1) {
		return h.step(op, aspects, d, rs, nil, func(r *absint.Result, d *hModel) {
			if r.Kind != absint.XPanic {
				h.bad(aspects, op, d, "a mock with several branches can be reconfigured", r)
			}
			after := h.config(r.St, m.Builder)
			for k, v := range before {
				if after[k] != v {
					h.bad(aspects, op, d, "a refused reconfiguration changes the "+k, r)
				}
			}
		})
	}
	var val *absint.Term
	for _, f := range ch.fields {
		if _, k := f(h, m); k != nil {
			val = k
		}
	}
	w := append(h.undo(d, n), hEffect{"patch", n, val})
	return h.step(op, aspects, d, rs, w, func(r *absint.Result, d *hModel) {
		h.returnsSelf(op, n, aspects)(r, d)
		if r.Kind == absint.XReturn {
			var pe *absint.Event
			for _, e := range h.effects(r.St, d) {
				if e.Name == "patch" {
					pe = e
				}
			}
			after := h.config(r.St, m.Builder)
			for _, k := range sortedTerms(after) {
				v := after[k]
				f := ch.fields[k]
				if f == nil {
					if before[k] != v {
						h.bad(aspects, op, d, "also changes the "+k, r)
					}
					continue
				}
				is, kn := f(h, m)
				if is != nil && v != is {
					h.bad(aspects, op, d, "the "+k+" is not changed as asked: "+v.String(), r)
				}
				if kn != nil && !h.reaches(r.St, []*absint.Term{v}, kn) {
					h.bad(aspects, op, d, "the "+k+" is not changed as asked: "+v.String(), r)
				}
			}
			// the replacement belongs to the changed configuration
			if pe != nil && !h.reaches(r.St, []*absint.Term{pe.Args[1]}, m.Builder) && val == nil {
				h.bad(aspects, op, d, "the replacement installed does not know the configuration", r)
			}
		}
		if d.mocks[n].Installed {
			h.tooEarly(op, r, d, d.mocks[n])
			d.remove(n)
		}
		d.mocks[n].Given = val
		h.installed(r, d, n)
	})
}

// tooEarly: a mock that is in force is not changed before it is removed.
func (h *hist) tooEarly(op string, r *absint.Result, d *hModel, m *hMock) {
	ro := h.m.Roles()
	for _, e := range flat(r.St.Events()[d.mark:]) {
		if e.Kind == absint.EvIntr && e.Name == "unpatch" {
			return
		}
		if e.Kind != absint.EvStore || e.Args[0].Op != "fa" {
			continue
		}
		for _, f := range []*field{ro.When, ro.Hook, ro.Filter, ro.Gid, ro.Origin, ro.Conds} {
			if e.Args[0].Aux == f.Key {
				h.bad([]string{"reconfigure"}, op, d, "the configuration of a mock is changed while it is in force", r)
				return
			}
		}
		if e.Args[0].Args[0] == m.Obj && (hasOp(e.Args[1], "MakeFunc") || hasOp(e.Args[1], "New")) {
			h.bad([]string{"reconfigure", "alive"}, op, d, "what an installed mock jumps to is replaced while it is in force", r)
			return
		}
	}
}

func sortedTerms(m map[string]*absint.Term) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeys(b)
}

// release checks what releasing leaves.
func (h *hist) released(r *absint.Result, d *hModel, n string) {
	m := d.mocks[n]
	cfg := h.config(r.St, m.Builder)
	if k, ok := cfg["branches"].IsInt(); !ok || k < 1 || cfg["when"] != absint.Nil || cfg["hook"] != absint.Nil || k > 1 {
		h.bad([]string{"reconfigure"}, "release", d, "the builder is not ready for a new declaration", r)
	}
}

// ---- contexts ----

func (h *hist) context(st *absint.State, d *hModel) []*absint.State {
	name := absint.Iface(types.Typ[types.String], absint.Str("name"))
	other := absint.Sym("item:T")
	items := h.in.SliceOf(st, absint.NewRoot(h.n)+"items", types.NewInterfaceType(nil, nil), name, other, h.fn)
	depth := len(d.ctxs)
	rs := h.call(st, h.m.Func("PatchConvey"), items)
	// what the contexts did is checked where they end
	return h.step("PatchConvey", []string{"context"}, d, rs, nil, func(r *absint.Result, d *hModel) {
		if len(d.ctxs) != depth {
			h.bad([]string{"context"}, "PatchConvey", d, "the function given to PatchConvey is not run as a context", r)
		}
		if r.Kind.String() != d.endKind() && len(h.effects(r.St, d)) == 0 {
			h.bad([]string{"context"}, "PatchConvey", d, "a function ending by "+d.endKind()+" makes PatchConvey end by "+r.Kind.String(), r)
		}
	})
}

// items: lists without a function are handed on unchanged.
func (h *hist) items() {
	name := absint.Iface(types.Typ[types.String], absint.Str("name"))
	T := absint.Sym("item:T")
	for _, l := range [][]*absint.Term{{name}, {name, absint.Nil}, {name, T}, {name, T, absint.Nil}, {name, T, T, absint.Nil}} {
		st := h.init.Clone()
		d := h.state(st).clone()
		h.others = l
		items := h.in.SliceOf(st, absint.NewRoot(h.n)+"items", types.NewInterfaceType(nil, nil), l...)
		for _, r := range h.call(st, h.m.Func("PatchConvey"), items) {
			if h.absurd(r.St) {
				continue
			}
			h.rep["context"].Paths++
			if r.Kind != absint.XReturn {
				h.bad([]string{"context"}, "PatchConvey", d, "a list of items without a function makes PatchConvey end by "+r.Kind.String(), r)
			} else if len(h.effects(r.St, d)) > 0 {
				h.bad([]string{"context"}, "PatchConvey", d, "a list of items without a function has an effect", r)
			}
		}
		h.others = nil
	}
}

func (d *hModel) endKind() string {
	for i := len(d.trace) - 1; i >= 0; i-- {
		switch d.trace[i] {
		case '!':
			return absint.XPanic.String()
		case 'x':
			return absint.XGoexit.String()
		case ')':
			return absint.XReturn.String()
		}
	}
	return "?"
}

// convey models the framework: it runs the function it is given and lets panics and
// exits through.
func (h *hist) convey(c *absint.CallCtx) []*absint.Result {
	if len(c.Args) != 1 {
		h.bad([]string{"context"}, "PatchConvey", h.state(c.St), "the framework is not given the items", nil)
		return c.Return()
	}
	d := h.state(c.St)
	items := h.in.Contents(c.St, c.Args[0])
	bad := func(msg string) []*absint.Result {
		h.bad([]string{"context"}, "PatchConvey", d, msg, &absint.Result{St: c.St, Kind: absint.XReturn})
		return c.Return()
	}
	if h.others != nil {
		h.ob("context", "items")
		if items.Op != "list" || len(items.Args) != len(h.others) {
			return bad("the framework is not given all items: " + items.String())
		}
		for i, x := range h.others {
			if items.Args[i] != x {
				return bad("an item that is no function is changed: " + items.String())
			}
		}
		return c.Return()
	}
	if items.Op != "list" || len(items.Args) != 3 {
		return bad("the framework is not given all items: " + items.String())
	}
	if items.Args[1] != absint.Sym("item:T") || items.Args[0] != absint.Iface(types.Typ[types.String], absint.Str("name")) {
		return bad("an item that is no function is changed: " + items.String())
	}
	f := items.Args[2]
	if f.Op != "Iface" || f.Args[0].Op != "MakeFunc" {
		return bad("the function item is not wrapped: " + f.String())
	}
	mf := f.Args[0]
	if mf.Args[0] != absint.TypeOfV(absint.ValueOf(h.fn)) {
		return bad("the wrapped function has another type: " + mf.Args[0].String())
	}
	n := 1
	if h.twice {
		n = 2
	}
	cur := []*absint.Result{{St: c.St, Kind: absint.XReturn}}
	for k := 0; k < n; k++ {
		var next []*absint.Result
		for _, r := range cur {
			if r.Kind != absint.XReturn {
				next = append(next, r)
				continue
			}
			c2 := *c
			c2.St = r.St
			h.ures++
			for _, e := range c2.ApplyIn(mf.Args[1], []*absint.Term{h.cargs}, fmt.Sprintf("!%d", h.ures)) {
				if h.leave(e) {
					e.Vals = nil
					next = append(next, e)
				}
			}
		}
		cur = next
	}
	return cur
}

// leave checks what the end of a context did.
func (h *hist) leave(r *absint.Result) bool {
	if h.absurd(r.St) {
		return false
	}
	d := h.state(r.St).clone()
	op := []string{"context"}
	if r.Kind == absint.XUndecided {
		h.bad(op, "PatchConvey", d, "undecided: PatchConvey", r)
		return false
	}
	if len(d.ctxs) < 2 {
		h.bad(op, "PatchConvey", d, "the function given to PatchConvey is not run", r)
		return false
	}
	h.ob("context", d.trace)
	h.rep["context"].Paths++
	h.locks("PatchConvey", d, r)
	if msg := h.agree(r.St, d, h.undoTop(d)); msg != "" {
		h.bad(op, "PatchConvey", d, "the end of a context "+msg, r)
		return false
	}
	end := h.cend[len(h.cend)-1]
	_ = end
	if r.Kind.String() != d.endKind() {
		h.bad(op, "PatchConvey", d, "a function ending by "+d.endKind()+" ends by "+r.Kind.String(), r)
		return false
	}
	if r.Kind == absint.XPanic && r.St.PanicValue() != absint.Sym("userpanic") {
		h.bad(op, "PatchConvey", d, "the panic of a function goes on as another one", r)
		return false
	}
	if r.Kind == absint.XReturn && (len(r.Vals) != 1 || r.Vals[0] != absint.Sym("userresults")) {
		h.bad(op, "PatchConvey", d, "the results of the function are not passed on", r)
		return false
	}
	dropTop(d)
	d.ctxs = d.ctxs[:len(d.ctxs)-1]
	h.alive(r, d, "PatchConvey")
	d.mark = len(r.St.Events())
	h.put(r.St, d)
	return true
}

// user models the function given to PatchConvey: the operations of the history.
func (h *hist) user(c *absint.CallCtx, f, args *absint.Term) ([]*absint.Result, bool) {
	if !contains(f, h.fn) {
		return nil, false
	}
	d := h.state(c.St).clone()
	if args != h.in.Contents(c.St, h.cargs) {
		h.bad([]string{"context"}, "PatchConvey", d, "the function is called with other arguments: "+args.String(), &absint.Result{St: c.St})
	}
	h.locks("PatchConvey", d, &absint.Result{St: c.St})
	if len(c.St.Held()) > 0 {
		h.bad([]string{"locks"}, "PatchConvey", d, "the function is run while a lock is held: "+c.St.Held()[0].String(), &absint.Result{St: c.St})
	}
	if msg := h.agree(c.St, d, nil); msg != "" {
		h.bad([]string{"context"}, "PatchConvey", d, "the start of a context "+msg, &absint.Result{St: c.St})
		return nil, true
	}
	d.ctxs = append(d.ctxs, nil)
	d.mark = len(c.St.Events())
	h.put(c.St, d)
	h.cend = append(h.cend, endKind{})
	var out []*absint.Result
	h.explore(c.St, true, func(st *absint.State, end string) {
		d := h.state(st).clone()
		d.mark = len(st.Events())
		h.put(st, d)
		r := &absint.Result{St: st, Pos: c.Pos}
		switch end {
		case ")":
			r.Kind = absint.XReturn
			r.Vals = []*absint.Term{absint.Sym("userresults")}
		case ")!":
			r.Kind = absint.XPanic
			st.Panicking(absint.Sym("userpanic"))
		default:
			r.Kind = absint.XGoexit
		}
		out = append(out, r)
	})
	return out, true
}

// ---- exploration ----

// legal lists the operations of the alphabet possible now.
func (h *hist) legal(d *hModel, inner bool) []string {
	var out []string
	for _, t := range h.alpha {
		n := t[len(t)-1:]
		m := d.mocks[n]
		switch t[0] {
		case '+':
			if m == nil {
				continue
			}
		case '-', '^', '~':
			if m == nil || m.Installed && d.above(m) {
				continue
			}
			if t[0] == '~' && !m.Installed {
				if d.conflict(m.Target) != nil {
					continue
				}
			}
			if t[0] == '~' && m.Installed && m.reinstalled(d) {
				continue
			}
		case '*':
		case '(':
			if len(d.ctxs) >= 3 {
				continue
			}
		case ')':
			if !inner {
				continue
			}
		default:
			if m != nil {
				continue
			}
		}
		out = append(out, t)
	}
	return out
}

// reinstalled: reconfiguring moves the mock into the innermost context, where another
// mock of the target may be.
func (m *hMock) reinstalled(d *hModel) bool {
	for _, n := range d.ctxs[len(d.ctxs)-1] {
		if n != m.Name && d.mocks[n].Target == m.Target {
			return true
		}
	}
	return false
}

func (h *hist) explore(st *absint.State, inner bool, leave func(st *absint.State, end string)) {
	d := h.state(st)
	if h.fails > 60 {
		return
	}
	if h.script != nil {
		if d.pos >= len(h.script) {
			if inner {
				h.end(st, ")", leave)
				return
			}
			leave(st, "")
			return
		}
		t := h.script[d.pos]
		n := d.clone()
		n.pos++
		h.put(st, n)
		if t[0] == ')' {
			h.end(st, t, leave)
			return
		}
		for _, s := range h.do(st, t) {
			h.explore(s, inner, leave)
		}
		return
	}
	if d.budget == 0 {
		if inner {
			h.end(st, ")", leave)
			return
		}
		leave(st, "")
		return
	}
	for _, t := range h.legal(d, inner) {
		s := st.Clone()
		n := d.clone()
		n.budget--
		h.put(s, n)
		if t[0] == ')' {
			h.end(s, t, leave)
			continue
		}
		for _, x := range h.do(s, t) {
			h.explore(x, inner, leave)
		}
	}
}

func (h *hist) end(st *absint.State, t string, leave func(st *absint.State, end string)) {
	d := h.state(st).clone()
	d.trace += " " + t
	h.put(st, d)
	leave(st, t)
}

func (h *hist) run() {
	st := h.init.Clone()
	h.explore(st, false, func(st *absint.State, _ string) {
		h.do(st, "*")
	})
}

// ---- set-up ----

func (h *hist) setup(spare int64) {
	in := h.m.Interp()
	in.Concrete, in.Spare, in.UserExits, in.Volatile = true, spare, false, nil
	in.NoSnap = true
	in.User = h.user
	in.External = map[string]absint.Intrinsic{"github.com/smartystreets/goconvey/convey.Convey": h.convey}
	h.in = in
	in.MaxSteps = 1 << 40
	h.cell = absint.Alloc("history", types.Typ[types.Int])
	h.fn, h.cargs = absint.Sym("item:F"), absint.Fresh("ctxargs")
	st := absint.NewState()
	fi := h.m.Root.Func("init")
	need(fi != nil, "package initialisation")
	for _, p := range h.m.P.Pkgs {
		sp := h.m.P.SSA.Package(p.Types)
		if sp == nil || sp == h.m.Root {
			continue
		}
		if f := sp.Func("init"); f != nil {
			in.Intrinsics[f] = func(c *absint.CallCtx) []*absint.Result { return c.Return() }
		}
	}
	if g, ok := h.m.Root.Members["init$guard"].(*ssa.Global); ok {
		st.SetCell(absint.GlobalAddr(g), absint.False)
	}
	h.models = []*hModel{{mocks: map[string]*hMock{}, ctxs: [][]string{nil}}}
	st.SetCell(h.cell, absint.Int(0))
	rs := in.Call(st, fi, nil, nil, "init")
	need(len(rs) == 1 && rs[0].Kind == absint.XReturn, "package initialisation has one way through it: %d", len(rs))
	h.init = rs[0].St
	h.init.ResetEvents()
	T := func(n string) *absint.Term { return absint.Sym("target:" + n) }
	h.specs = map[string]*hMock{}
	h.symbols = map[*absint.Term]bool{}
	for n, t := range map[string]string{"A": "T1", "B": "T1", "C": "T2", "D": "T3", "M": "T4"} {
		h.specs[n] = &hMock{Name: n, Target: T(t), Given: absint.Sym("hook:" + n), Conds: 1, Flavour: h.flavour}
		if h.flavour == "branches" {
			h.specs[n].Conds = 2
		}
		h.symbols[T(t)] = true
	}
	for n, t := range map[string]string{"V": "P1", "W": "P1", "X": "P2", "N": "P3"} {
		h.specs[n] = &hMock{Name: n, Var: true, Target: T(t), Given: absint.Sym("value:" + n)}
		h.symbols[T(t)] = true
	}
	h.specs["N"].Given = absint.Nil
	h.specs["M"].Conds = 2
	if h.flavour == "branches" {
		h.specs["M"].Conds = 1
	}
	for _, n := range sortedMocks(h.specs) {
		m := h.specs[n]
		for _, t := range []*absint.Term{m.Target, m.Given, newVal(m, ""), newVal(m, "w"), newVal(m, "o"), newVal(m, "first")} {
			if t != absint.Nil {
				h.init.Assume(absint.Eq(t, absint.Nil, false), false)
			}
		}
	}
	h.init.Assume(absint.Eq(h.fn, absint.Nil, false), false)
	h.init.Assume(absint.Eq(absint.Sym("item:T"), absint.Nil, false), false)
	h.init.Assume(absint.Eq(absint.Mk("Kind", "", absint.TypeOfV(absint.ValueOf(h.fn))), absint.Int(19), true), true)
	h.init.Assume(absint.Eq(absint.Mk("Kind", "", absint.TypeOfV(absint.ValueOf(absint.Sym("item:T")))), absint.Int(19), true), false)
	// signatures do not matter here: take functions without parameters and results
	for _, n := range sortedMocks(h.specs) {
		if m := h.specs[n]; !m.Var {
			for _, f := range []*absint.Term{m.Target, m.Given, newVal(m, ""), newVal(m, "w")} {
				t := absint.TypeOfV(absint.ValueOf(f))
				outs := int64(0)
				if f == newVal(m, "w") {
					outs = 1
				}
				h.init.Assume(absint.Eq(absint.Mk("NumIn", "", t), absint.Int(0), true), true)
				h.init.Assume(absint.Eq(absint.Mk("NumOut", "", t), absint.Int(outs), true), true)
			}
			for _, o := range []string{"o", "first"} {
				ot := absint.Mk("ElemT", "", absint.TypeOfV(absint.ValueOf(newVal(m, o))))
				h.init.Assume(absint.Eq(absint.Mk("NumIn", "", ot), absint.Int(0), true), true)
				h.init.Assume(absint.Eq(absint.Mk("NumOut", "", ot), absint.Int(0), true), true)
			}
		}
	}
	// the user's functions and values fit: facts of one way each mock can be made
	h.quiet = true
	for _, n := range sortedMocks(h.specs) {
		h.learn(func(st *absint.State) []*absint.Result {
			return h.make(st, h.specs[n])
		}, "making a mock")
	}
	for _, n := range sortedMocks(h.specs) {
		m := h.specs[n]
		for _, k := range []string{"~", "w", "r", "o", "f", "i", "e"} {
			k := k
			if m.Var && k != "~" || m.Conds > 1 && strings.Contains("~wr", k) {
				continue
			}
			h.learn(func(st *absint.State) []*absint.Result {
				return h.chain(st, nil, func(st *absint.State, _ *absint.Term) []*absint.Result { return h.make(st, m) },
					func(st *absint.State, x *absint.Term) []*absint.Result {
						args := []*absint.Term{newVal(m, "")}
						if !m.Var {
							args = changes[k].args(m)
						}
						return h.call(st, h.m.Method(typName(m), changes[k].method), append([]*absint.Term{x}, args...)...)
					})
			}, "reconfiguring a mock")
		}
	}
	h.quiet = false
	h.fails = 0
}

// learn takes over the facts about the user's values of one way an operation succeeds.
func (h *hist) learn(f func(st *absint.State) []*absint.Result, what string) {
	for _, r := range f(h.init.Clone()) {
		if r.Kind != absint.XReturn || h.absurd(r.St) {
			continue
		}
		for _, l := range r.St.Lits() {
			keep := true
			absint.Walk(l.T, func(t *absint.Term) {
				if t.Op == "rget" || t.Op == "patchof" || t.Op == "alloc" {
					keep = false
				}
			})
			if keep {
				need(h.init.Assume(l.T, l.Pos), "%s: contradicting conditions", what)
			}
		}
		return
	}
	need(false, "%s always fails", what)
}

var aspects = []string{"context", "mock", "remock", "reconfigure", "variable", "alive", "locks"}

// curated histories
var histories = []string{
	"A C D -C *", "A C D -A *", "A C D -D *", "A C D * A", "A C * *", "A C -A -C A B",
	"A -A +A *", "A +A +A -A -A *", "A -A B +A -B +A", "A B -A B", "A * B +A",
	"A ( C D ) D", "A ( C D )! D", "A ( C D )x D", "A ( * ) *", "A ( C * D ) *",
	"A ( -A C ) A", "A ( -A +A ) -A +A *", "A C ( -A D ) -C *", "A C D ( -C ) *",
	"A ( B ) -A", "A ( B -B ) +A *", "A ( B * ) * B", "A ( ( B ) -A ) B",
	"A ( C ( D ) -C ) *", "A ( C ( D )! +A ) *", "( A ( C ( D -A ) ) )", "( A )! ( A )x ( A )",
	"A V ( X ) *", "V W -V W", "V ( W ) -V", "V X N * V", "V -V +V +V *", "N -N V", "V ( -V X ) V", "V ( -V +V ) +V -V",
	"V ~bV *", "V -V ~bV", "V ( ~bV ) -V +V", "V ~V *", "V -V ~V *", "A ~A *", "A -A ~A -A", "A ( ~A ) +A", "A C ~A -C *", "A ^A B", "A C ^A *", "A -A ^A C", "A ( ^A B ) B",
	"A ~wA", "A ~rA -A", "A ~oA", "A ~fA", "A ~iA ~eA *", "A -A ~wA", "A -A ~fA", "A ( ~iA ) +A", "A ~wA ~rA ~oA ~fA ~A *",
	"A ^A =A -A", "M ^M =M", "M ~M", "M ~wM", "M ~rM", "M ~fM ~iM", "M -M ~M +M ~rM *",
	"A V C X -V -A *", "A V C X ( D N )! *",
}

func (h *hist) all(spare int64) {
	h.setup(spare)
	h.items()
	for _, s := range histories {
		h.script = strings.Fields(s)
		h.run()
	}
	h.twice = true
	for _, s := range []string{"A ( C ) C", "( A ( C ) )"} {
		// run twice: the operations of the second run are those of the first
		h.script = strings.Fields(s)
		h.run()
	}
	h.twice = false
	h.reject = true
	for _, s := range []string{"A B C", "A ~A B", "A -A +A *", "A ( C )", "V A -V"} {
		h.script = strings.Fields(s)
		h.run()
	}
	h.reject = false
	h.script = nil
}

func (c *Ctx) histories() map[string]*Report {
	if v, ok := c.memo["histories"]; ok {
		return v.(map[string]*Report)
	}
	h := &hist{m: c.Model(Linux), c: c, rep: map[string]*Report{}}
	h.m.Roles()
	for _, a := range aspects {
		h.rep[a] = &Report{Rule: "history-" + a, Functions: map[string]bool{}}
	}
	c.memo["histories"] = h.rep
	h.all(0)
	h.enumerate(c)
	for _, h.flavour = range []string{"unsafe", "generic", "origin", "filter", "branches"} {
		h.all(0)
	}
	h.flavour = ""
	for _, a := range aspects {
		h.rep[a].Problems(h.in, "histories")
	}
	if c.Thorough {
		h.all(4)
		h.enumerate(c)
		for _, a := range aspects {
			h.rep[a].Problems(h.in, "histories")
		}
	}
	return h.rep
}

func (h *hist) enumerate(c *Ctx) {
	depth := 3
	if c.Thorough {
		depth = 5
	}
	for _, al := range []string{"A B +A -A * ( ) )!", "A C V -A +A -V * ( )"} {
		h.alpha = strings.Fields(al)
		h.script = nil
		h.init = h.init.Clone()
		d := h.state(h.init).clone()
		d.budget = depth
		h.put(h.init, d)
		h.run()
	}
}

func historyRule(aspect string) func(c *Ctx, r *Report) {
	return func(c *Ctx, r *Report) {
		x := c.histories()[aspect]
		id, title := r.Rule, r.Title
		*r = *x
		r.Rule, r.Title = id, title
		for i := range r.Findings {
			r.Findings[i].Rule = id
		}
	}
}
