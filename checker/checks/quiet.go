package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mockeycheck/absint"
	"mockeycheck/load"
)

func init() {
	rule("quiet", "nothing is printed after start-up unless debug mode is on, and only the environment turns it on", 4, ruleQuiet)
	decides("C35", "quiet")
}

func ruleQuiet(c *Ctx, r *Report) {
	for _, cfg := range Platforms {
		r.Config = cfg.String()
		q := &quiet{c: c, r: r, p: c.Prog(cfg)}
		absint.SetProgram(q.p.SSA)
		q.run()
	}
	r.Config = ""
}

type quiet struct {
	c       *Ctx
	r       *Report
	p       *load.Program
	off, on []*absint.State       // after start-up
	flags   map[*absint.Term]bool // memory that is different in debug mode
	zero    map[*absint.Term]bool // of which nothing is written otherwise
	callers map[*ssa.Function][]*ssa.Function
	used    map[*ssa.Function]bool // as a value
}

// prints: the call writes to standard output or error, or may.
func prints(ci ssa.CallInstruction) bool {
	cc := ci.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return b.Name() == "print" || b.Name() == "println"
	}
	g := cc.StaticCallee()
	if g == nil {
		return false
	}
	switch pkg := pkgOf(g); {
	case pkg == "fmt" && strings.HasPrefix(g.Name(), "Print"):
		return true
	case pkg == "fmt" && strings.HasPrefix(g.Name(), "Fprint"), pkg == "io" && strings.HasPrefix(g.Name(), "WriteString"):
		return !buffer(cc.Args[0])
	case pkg == "log" || strings.HasPrefix(pkg, "log/"):
		return true
	case pkg == "os" && strings.HasPrefix(g.Name(), "Write") && g.Signature.Recv() != nil:
		return true
	case pkg == "syscall" && (g.Name() == "Write" || g.Name() == "WriteConsole"):
		return true
	case pkg == "runtime/debug" && g.Name() == "PrintStack":
		return true
	}
	return false
}

// buffer: a writer made of memory.
func buffer(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	switch v.Type().String() {
	case "*bytes.Buffer", "*strings.Builder":
		return true
	}
	return false
}

func (q *quiet) interp() *absint.Interp {
	in := absint.New(q.p.SSA, q.p.Module, q.p.Sizes)
	in.External = map[string]absint.Intrinsic{}
	stringModels(in)
	q.env(in)
	in.Recovers = true
	in.External["runtime.Version"] = func(c *absint.CallCtx) []*absint.Result { return c.Return(absint.Str("go1.23.12")) }
	return in
}

func (q *quiet) run() {
	p, r := q.p, q.r
	q.callers, q.used = map[*ssa.Function][]*ssa.Function{}, map[*ssa.Function]bool{}
	var printing []*ssa.Function
	start := map[*ssa.Function]bool{}
	for _, f := range moduleFunctions(p) {
		printer := false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, isCall := i.(ssa.CallInstruction)
				if isCall {
					printer = printer || prints(ci)
					if g := ci.Common().StaticCallee(); g != nil {
						q.callers[g] = append(q.callers[g], f)
					}
				}
				for k, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && !(isCall && k == 0 && !ci.Common().IsInvoke()) {
						q.used[g] = true
					}
				}
			}
		}
		if printer {
			printing = append(printing, f)
		}
		if f.Synthetic != "" && f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			start[f] = true
		}
	}
	// functions that run at start-up only
	for ch := true; ch; {
		ch = false
		for _, f := range moduleFunctions(p) {
			if start[f] || q.used[f] || len(q.callers[f]) == 0 || f.Parent() != nil {
				continue
			}
			all := true
			for _, g := range q.callers[f] {
				all = all && start[g]
			}
			if all {
				start[f], ch = true, true
			}
		}
	}
	q.startUp()
	q.setters(start)
	seen := map[*ssa.Function]bool{}
	todo := printing
	spoken := false // in debug mode
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		if seen[f] || start[f] {
			continue
		}
		seen[f] = true
		key := fnKey(f)
		r.Functions[key] = true
		r.Ob(key)
		msg, where := q.speaks(f, q.off)
		if m, _ := q.speaks(f, q.on); m != "" && !strings.HasPrefix(m, "undecided") {
			spoken = true
		}
		if msg == "" {
			continue
		}
		if len(q.callers[f]) > 0 && !q.used[f] && !q.public(f) && f.Parent() == nil && !strings.HasPrefix(msg, "undecided") {
			// whether it is reached is up to its callers
			todo = append(todo, q.callers[f]...)
			continue
		}
		r.Bad(key, where, msg)
	}
	if !spoken {
		r.Bad("debug mode", "-", debugVar+"=true does not turn debug mode on")
	}
}

func (q *quiet) public(f *ssa.Function) bool {
	return f.Pkg == q.p.Root() && f.Object() != nil && f.Object().Exported()
}

// speaks: a function prints after a start without debug mode.
func (q *quiet) speaks(f *ssa.Function, starts []*absint.State) (string, string) {
	for _, st0 := range starts {
		in := q.interp()
		in.InitialT = func(a *absint.Term, T types.Type) *absint.Term {
			if T != nil && q.zero[a] {
				return absint.Zero(T)
			}
			return nil
		}
		st := st0.Clone()
		st.ResetEvents()
		var free []*absint.Term
		for _, v := range f.FreeVars {
			free = append(free, absint.Param("free."+v.Name()))
		}
		for _, x := range in.Call(st, f, Params(f), free, "Q") {
			q.r.Paths++
			for _, e := range flat(x.St.Events()) {
				if e.Kind == absint.EvCall && (isPrint(e) || q.writes(e)) && !inMemory(e) {
					return "prints although debug mode is off", q.p.Pos(e.Pos)
				}
			}
			if x.Kind == absint.XUndecided {
				return "undecided: whether it prints", q.p.Pos(f.Pos())
			}
		}
		for b := range in.Problems {
			return "undecided: whether it prints: " + b, q.p.Pos(f.Pos())
		}
	}
	return "", ""
}

func (q *quiet) writes(e *absint.Event) bool {
	return strings.HasPrefix(e.Name, "log.") || strings.HasPrefix(e.Name, "(*log.") || strings.HasPrefix(e.Name, "io.WriteString") || e.Name == "syscall.Write" || e.Name == "runtime/debug.PrintStack"
}

// env models the environment.
func (q *quiet) env(in *absint.Interp) {
	name := func(c *absint.CallCtx) string {
		n, _ := c.Args[0].Val.(string)
		return n
	}
	in.External["os.Getenv"] = func(c *absint.CallCtx) []*absint.Result {
		if name(c) == debugVar {
			return c.Return(debugEnv)
		}
		return c.Return(absint.Sym("environment:" + name(c)))
	}
	in.External["os.LookupEnv"] = func(c *absint.CallCtx) []*absint.Result {
		if name(c) == debugVar {
			return c.Return(debugEnv, hasDebugEnv)
		}
		return c.Return(absint.Sym("environment:"+name(c)), absint.Sym("environment has:"+name(c)))
	}
}

var (
	debugEnv    = absint.Sym("environment " + debugVar)
	hasDebugEnv = absint.Sym("environment has " + debugVar)
)

// global: the address is in a variable of the package level of the library.
func (q *quiet) global(a *absint.Term) *absint.Term {
	for {
		switch b := rootOf(a); {
		case b.Op == "atomicval":
			a = b.Args[0]
		case b.Op == "glob" && strings.HasPrefix(b.Aux, q.p.Module):
			return b
		default:
			return nil
		}
	}
}

// inMemory: the call writes to a buffer.
func inMemory(e *absint.Event) bool {
	if len(e.Args) == 0 || e.Args[0].Op != "iface" {
		return false
	}
	T, ok := e.Args[0].Val.(types.Type)
	return ok && (T.String() == "*bytes.Buffer" || T.String() == "*strings.Builder")
}

// startUp analyses the package initialisation with and without the environment variable.
func (q *quiet) startUp() {
	p := q.p
	var home []*ssa.Package
	for _, f := range moduleFunctions(p) {
		if usesConst(f, debugVar) && f.Pkg != nil {
			home = append(home, f.Pkg)
			break
		}
	}
	need(len(home) == 1, "the code that looks at %s", debugVar)
	q.flags = map[*absint.Term]bool{}
	q.zero = map[*absint.Term]bool{}
	for _, on := range []bool{true, false} {
		in := q.interp()
		in.InitialT = func(a *absint.Term, T types.Type) *absint.Term {
			if T != nil && q.global(a) != nil {
				return absint.Zero(T)
			}
			return nil
		}
		for _, o := range p.SSA.AllPackages() {
			if f := o.Func("init"); f != nil && o != home[0] {
				in.Intrinsics[f] = func(c *absint.CallCtx) []*absint.Result { return c.Return() }
			}
		}
		// the check of the compiler flags ends one way or another
		for _, f := range moduleFunctions(p) {
			if f.Pkg == home[0] && asks(f) && !usesConst(f, debugVar) {
				in.Intrinsics[f] = func(c *absint.CallCtx) []*absint.Result {
					c.St.ResetEvents()
					var vs []*absint.Term
					for range make([]int, c.Fn.Signature.Results().Len()) {
						vs = append(vs, absint.Fresh("flagcheck"))
					}
					return c.Return(vs...)
				}
			}
		}
		st := absint.NewState()
		if gu, ok := home[0].Members["init$guard"].(*ssa.Global); ok {
			st.SetCell(absint.GlobalAddr(gu), absint.False)
		}
		st.Assume(absint.Eq(debugEnv, absint.Str("true"), false), on)
		if on {
			st.Assume(hasDebugEnv, true)
		}
		for _, x := range in.Call(st, home[0].Func("init"), nil, nil, "init") {
			q.r.Paths++
			q.r.Ob("start-up")
			if x.Kind != absint.XReturn {
				q.r.Bad("start-up", "-", "undecided: the package may not start")
				continue
			}
			if on {
				q.on = append(q.on, x.St)
			} else {
				q.off = append(q.off, x.St)
			}
		}
		for b := range in.Problems {
			q.r.Bad("start-up", "-", "undecided: "+b)
		}
	}
	need(len(q.on) > 0 && len(q.off) > 0, "a start with and one without debug mode")
	// globals that differ
	for _, s := range q.on {
		for a, v := range s.Cells() {
			if q.global(a) == nil {
				continue
			}
			for _, o := range q.off {
				w := o.Cells()[a]
				if w != nil && s.Eval(v) != o.Eval(w) {
					q.flags[a] = true
				}
				if w == nil && (v == absint.False || v == absint.Nil || v == absint.Int(0)) || w == v {
					continue
				}
				if w == nil {
					q.zero[a] = true
				}
				q.flags[a] = true
			}
		}
	}
	// everything else may have changed when the library is used
	for _, ss := range [][]*absint.State{q.on, q.off} {
		for _, s := range ss {
			for a := range s.Cells() {
				if q.global(a) != nil && !q.flags[a] {
					s.DropCell(a)
				}
			}
			s.ResetEvents()
		}
	}
}

func usesConst(f *ssa.Function, s string) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			for _, op := range i.Operands(nil) {
				if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == `"`+s+`"` {
					return true
				}
			}
		}
	}
	return false
}

// setters: only the start-up and the function for it turn debug mode on.
func (q *quiet) setters(start map[*ssa.Function]bool) {
	globals := map[*ssa.Global]bool{}
	for a := range q.flags {
		for _, pk := range q.p.SSA.AllPackages() {
			for _, mem := range pk.Members {
				if g, ok := mem.(*ssa.Global); ok && q.global(a) == absint.GlobalAddr(g) {
					globals[g] = true
				}
			}
		}
	}
	var names []string
	for g := range globals {
		names = append(names, g.Name())
	}
	sort.Strings(names)
	for _, f := range moduleFunctions(q.p) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if g := globalRoot(s.Addr); g != nil && globals[g] {
						q.r.Ob(fnKey(f) + " switches")
						if !start[f] && f.Name() != "SetDebugMode" && !q.onlyFrom(f, start) {
							q.r.Bad(fnKey(f), q.p.Pos(i.Pos()), "debug mode changes after start-up without being asked for")
						}
					}
				}
				if ci, ok := i.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && g.Name() == "SetDebugMode" && q.p.InModule(pkgOf(g)) && !start[f] {
						q.r.Bad(fnKey(f), q.p.Pos(i.Pos()), "debug mode is turned on without being asked for")
					}
				}
			}
		}
	}
	if len(globals) == 0 && len(q.flags) > 0 {
		q.r.Bad("start-up", "-", fmt.Sprintf("undecided: where debug mode is kept (%v)", names))
	}
}

// onlyFrom: called by the start-up and SetDebugMode only.
func (q *quiet) onlyFrom(f *ssa.Function, start map[*ssa.Function]bool) bool {
	if q.used[f] || len(q.callers[f]) == 0 || q.public(f) {
		return false
	}
	for _, g := range q.callers[f] {
		if !start[g] && g.Name() != "SetDebugMode" {
			return false
		}
	}
	return true
}
