package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"mockeycheck/absint"
)

func init() {
	rule("in-flight", "a call that entered a mock goes the same way whether or not the mock is removed meanwhile", 10, ruleInFlight)
	rule("in-flight-memory", "removing a mock does not release memory calls in progress may still run", 1, ruleInFlightMemory)
	decides("C27", "in-flight", "in-flight-memory")
}

// ruleInFlightMemory: calls that entered the replacement may run the moved original at any
// later time; nothing waits for them, so what the proxy runs may not be given back.
func ruleInFlightMemory(c *Ctx, r *Report) {
	eachPatching(c, r, func(p *patching) {
		if !p.removed() {
			return
		}
		r.Ob("removal after a way through " + p.key)
		mem, _, _ := p.moved()
		for i, e := range p.evs {
			if i < p.nInst {
				continue
			}
			for _, x := range flat([]*absint.Event{e}) {
				switch {
				case x.Kind == absint.EvCall && (x.Name == "syscall.Munmap" || x.Name == "syscall.Mprotect"):
					what := "releases"
					if x.Name == "syscall.Mprotect" {
						what = "changes the protection of"
						if v, ok := x.Args[1].IsInt(); ok && v&5 == 5 {
							continue
						}
					}
					if q, _ := p.place(x.Args[0]); q == mem || x.Args[0] == mem {
						p.known(r, "moved code", what+" the memory of the moved code while calls in progress may run it")
					} else {
						p.bad(r, "moved code", x, "%s memory that is not known to be unused by calls in progress: %s", what, x.Args[0])
					}
				case x.Kind == absint.EvCopy || x.Kind == absint.EvStore && x.Args[0].Op == "ia":
					if q, _ := p.place(x.Args[0]); q != nil && q == mem {
						p.bad(r, "moved code", x, "is overwritten while calls in progress may run it")
					}
				case x.Kind == absint.EvRSet && x.Args[0] == absint.Mk("Elem", "", p.proxy):
					p.bad(r, "proxy", x, "is changed while calls in progress may call it")
				}
			}
		}
	})
}

// flight is a mock whose calls are followed.
type flight struct {
	name  string
	decls []func(h *hist, st *absint.State, x *absint.Term) []*absint.Result
	orig  bool
}

// ruleInFlight follows calls of mocks over heaps of known shape, as the history rules do:
// first alone, then with the mock removed before the first step of the replacement, and in
// the middle of every function of the user it calls.
func ruleInFlight(c *Ctx, r *Report) {
	h := &hist{m: c.Model(Linux), c: c, rep: map[string]*Report{}}
	h.m.Roles()
	for _, a := range aspects {
		h.rep[a] = &Report{Rule: "history-" + a, Functions: map[string]bool{}}
	}
	h.setup(0)
	A := h.specs["A"]
	when, ret, orig := newVal(A, "w"), newVal(A, "r"), newVal(A, "o")
	on := func(method string, args ...*absint.Term) func(h *hist, st *absint.State, x *absint.Term) []*absint.Result {
		return func(h *hist, st *absint.State, x *absint.Term) []*absint.Result {
			return h.call(st, h.m.Method("MockBuilder", method), append([]*absint.Term{x}, args...)...)
		}
	}
	flights := []flight{
		{"To", []func(*hist, *absint.State, *absint.Term) []*absint.Result{on("To", A.Given)}, false},
		{"When.To", []func(*hist, *absint.State, *absint.Term) []*absint.Result{on("When", when), on("To", A.Given)}, false},
		{"When.Return.To", []func(*hist, *absint.State, *absint.Term) []*absint.Result{on("When", when), on("Return", absint.List(ret)), on("To", A.Given)}, false},
		{"When.To.Origin", []func(*hist, *absint.State, *absint.Term) []*absint.Result{on("When", when), on("To", A.Given), on("Origin", orig)}, true},
		{"To.Include", []func(*hist, *absint.State, *absint.Term) []*absint.Result{on("To", A.Given), on("IncludeCurrentGoRoutine")}, false},
	}
	ops := []struct {
		name string
		do   func(st *absint.State, obj *absint.Term) []*absint.Result
	}{
		{"Mocker.UnPatch", func(st *absint.State, obj *absint.Term) []*absint.Result {
			return h.call(st, h.m.Method("Mocker", "UnPatch"), obj)
		}},
		{"Mocker.Release", func(st *absint.State, obj *absint.Term) []*absint.Result {
			return h.call(st, h.m.Method("Mocker", "Release"), obj)
		}},
		{"UnPatchAll", func(st *absint.State, _ *absint.Term) []*absint.Result {
			return h.call(st, h.m.Func("UnPatchAll"))
		}},
	}
	in := h.in
	in.Recursion = 8
	cell := absint.Alloc("inflight", types.Typ[types.Int])
	for _, f := range flights {
		f := f
		at, removal, obj := -1, ops[0], (*absint.Term)(nil)
		var bound, proxy *absint.Term
		var remove func(st *absint.State) []*absint.State
		broken := ""
		remove = func(st *absint.State) []*absint.State {
			u := in.User
			in.User = nil
			defer func() { in.User = u }()
			held := map[*absint.Term]bool{}
			for _, l := range st.Held() {
				held[l] = true
			}
			mark := len(st.Events())
			var out []*absint.State
			for _, x := range removal.do(st, obj) {
				if h.absurd(x.St) {
					continue
				}
				for _, e := range flat(x.St.Events()[mark:]) {
					if e.Kind == absint.EvLock && len(e.Args) > 0 && held[e.Args[0]] && !strings.Contains(e.Name, "nlock") {
						broken = "waits for a lock the call holds"
					}
					if e.Kind == absint.EvRSet && e.Args[0] == proxy {
						broken = "changes the function that runs the original"
					}
				}
				if x.Kind != absint.XReturn {
					broken = "ends by " + x.Kind.String()
					continue
				}
				out = append(out, x.St)
			}
			return out
		}
		in.User = func(c *absint.CallCtx, fn, args *absint.Term) ([]*absint.Result, bool) {
			c.Emit(absint.EvIntr, "in-flight call", fn, args)
			n, _ := c.St.Cell(cell).IsInt()
			c.St.SetCell(cell, absint.Int(n+1))
			sts := []*absint.State{c.St}
			if int(n)+1 == at {
				sts = remove(c.St)
			}
			var out []*absint.Result
			for _, st := range sts {
				vals := absint.List()
				if contains(fn, when) {
					vals = absint.List(absint.Sym(fmt.Sprintf("answer:%d", n)))
				}
				done := &absint.Result{St: st, Kind: absint.XReturn, Vals: []*absint.Term{vals}, Pos: c.Pos}
				if !f.orig || !contains(fn, A.Given) {
					out = append(out, done)
					continue
				}
				// the replacement calls the origin
				last := bound
				for _, e := range flat(st.Events()) {
					if e.Kind == absint.EvRSet && e.Args[0] == absint.Mk("Elem", "", absint.ValueOf(orig)) {
						last = e.Args[1]
					}
				}
				if last == nil || last.Op != "MakeFunc" {
					st.Panicking(absint.Sym("the origin variable is no function"))
					out = append(out, &absint.Result{St: st, Kind: absint.XPanic, Pos: c.Pos})
					continue
				}
				rs, ok := in.CallTerm(st, last.Args[1], []*absint.Term{args}, "O")
				if !ok {
					r.Bad("in-flight "+f.name, "-", "undecided: the function the origin is set to cannot be looked into")
					return nil, true
				}
				for _, x := range rs {
					x.Pos = c.Pos
					out = append(out, x)
				}
			}
			return out, true
		}
		// the call, and what it does when it starts in a state
		call := func(st *absint.State, hook *absint.Term) map[string]*absint.Result {
			out := map[string]*absint.Result{}
			st = st.Clone()
			st.ResetEvents()
			st.DropOwnership()
			st.SetCell(cell, absint.Int(0))
			h.m.goid[in] = goidCall
			defer delete(h.m.goid, in)
			// an origin may have been bound at the installation
			starts := []*absint.State{st}
			if at == 0 {
				starts = remove(st)
			}
			for _, st := range starts {
				ends, ok := in.CallTerm(st, hook.Args[1], []*absint.Term{absint.List()}, "H")
				if !ok {
					r.Bad("in-flight "+f.name, "-", "undecided: the replacement cannot be looked into")
					return nil
				}
				for _, e := range ends {
					if h.absurd(e.St) {
						continue
					}
					out[outcome(e)] = e
				}
			}
			return out
		}
		u := in.User
		in.User = nil
		rs := h.chain(h.init.Clone(), nil, func(st *absint.State, _ *absint.Term) []*absint.Result {
			return h.call(st, h.m.Func("Mock"), A.Target, absint.Nil)
		}, func(st *absint.State, x *absint.Term) []*absint.Result {
			var calls []func(*absint.State, *absint.Term) []*absint.Result
			for _, d := range append(f.decls, on("Build")) {
				d := d
				calls = append(calls, func(st *absint.State, x *absint.Term) []*absint.Result { return d(h, st, x) })
			}
			return h.chain(st, x, calls...)
		})
		in.User = u
		built := 0
		for _, b := range rs {
			if b.Kind != absint.XReturn || len(b.Vals) == 0 || h.absurd(b.St) {
				continue
			}
			ps := patchEvents(b)
			if len(ps) != 1 || len(ps[0].Args) < 3 || ps[0].Args[1].Op != "MakeFunc" {
				r.Bad("in-flight "+f.name, "-", "undecided: building does not install one replacement", describe(h.m.P, b)...)
				continue
			}
			built++
			obj = b.Vals[0]
			hook := ps[0].Args[1]
			bound, proxy = nil, absint.Mk("Elem", "", ps[0].Args[2])
			for _, e := range flat(b.St.Events()) {
				if e.Kind == absint.EvRSet && e.Args[0] == absint.Mk("Elem", "", absint.ValueOf(orig)) {
					bound = e.Args[1]
				}
			}
			at = -1
			alone := call(b.St, hook)
			points := 0
			for _, e := range alone {
				n, _ := e.St.Cell(cell).IsInt()
				if int(n) > points {
					points = int(n)
				}
			}
			need(points > 0, "functions called by a mock declared with %s", f.name)
			for _, op := range ops {
				removal = op
				for at = 0; at <= points; at++ {
					r.Ob(fmt.Sprintf("%s, %s at point %d of the call", f.name, op.name, at))
					broken = ""
					got := call(b.St, hook)
					when := "before its first step"
					if at > 0 {
						when = "while a function it calls runs"
					}
					if broken != "" {
						r.Bad("removal "+op.name, h.m.P.Pos(h.opFn(op.name).Pos()), "while a call of the mock is in progress "+broken)
					}
					for k, e := range got {
						r.Paths++
						if alone[k] == nil {
							r.Bad("removal "+op.name, h.m.P.Pos(h.opFn(op.name).Pos()), fmt.Sprintf("a call in progress goes another way when %s happens %s: it %s", op.name, when, plain(k)),
								append([]string{"mock declared with " + f.name}, describe(h.m.P, e)...)...)
						}
					}
					for k := range alone {
						if got[k] == nil && len(got) > 0 && broken == "" {
							r.Bad("removal "+op.name, h.m.P.Pos(h.opFn(op.name).Pos()), fmt.Sprintf("a call in progress does not do what it would when %s happens %s: it never %s", op.name, when, plain(k)),
								"mock declared with "+f.name)
						}
					}
				}
			}
		}
		need(built > 0, "a mock declared with %s is built", f.name)
	}
	for f := range in.Entered {
		r.Functions[fnKey(f)] = true
	}
	r.Problems(in, "in-flight")
}

// outcome is what a call did as far as the user can tell.
func outcome(e *absint.Result) string {
	var out []string
	for _, x := range e.St.Events() {
		if x.Name == "in-flight call" {
			out = append(out, "calls "+x.Args[0].String()+" with "+x.Args[1].String())
		}
	}
	end := e.Kind.String()
	for _, v := range e.Vals {
		end += " " + v.String()
	}
	return strings.Join(append(out, "ends by "+end), ", then ")
}

var address = regexp.MustCompile(`<?0x[0-9a-f]+>?`)

func plain(s string) string { return address.ReplaceAllString(s, "") }

func (h *hist) opFn(name string) interface{ Pos() token.Pos } {
	if i := strings.Index(name, "."); i >= 0 {
		return h.m.Method(name[:i], name[i+1:])
	}
	return h.m.Func(name)
}
