package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mockeycheck/absint"
	"mockeycheck/load"
)

func init() {
	rule("gcflags", "at start-up the warning is printed exactly when the code of a probe whose only call can be inlined has no call before its end, unless it is switched off", 4, ruleGcflags)
	decides("C32", "gcflags")
}

const gcflagsEnv = "MOCKEY_CHECK_GCFLAGS"

func ruleGcflags(c *Ctx, r *Report) {
	cfgs := []load.Config{Linux, LinuxARM}
	if c.Thorough {
		cfgs = append(cfgs, load.Config{GOOS: "darwin", GOARCH: "arm64"}, load.Config{GOOS: "darwin", GOARCH: "amd64"}, Windows, load.Config{GOOS: "linux", GOARCH: "amd64", Tags: "race"})
	}
	for _, cfg := range cfgs {
		r.Config = cfg.String()
		g := &gcflags{c: c, r: r, l: c.Low(cfg), p: c.Prog(cfg), seen: map[*ssa.Function]bool{}}
		g.run()
	}
	r.Config = ""
}

type gcflags struct {
	c    *Ctx
	r    *Report
	l    *low
	p    *load.Program
	seen map[*ssa.Function]bool // probes looked at
	pos  string
}

func (g *gcflags) bad(format string, a ...interface{}) {
	g.r.Bad("start-up check", g.pos, fmt.Sprintf(format, a...))
}

// asks: the function looks at the variable that switches the check off.
func asks(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if call, ok := i.(ssa.CallInstruction); ok {
				for _, a := range call.Common().Args {
					if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == `"`+gcflagsEnv+`"` {
						return true
					}
				}
			}
		}
	}
	return false
}

func (g *gcflags) run() {
	p, r := g.p, g.r
	var home *ssa.Package
	for _, f := range moduleFunctions(p) {
		if asks(f) && f.Pkg != nil {
			home = f.Pkg
			g.pos = p.Pos(f.Pos())
		}
	}
	need(home != nil && home.Func("init") != nil, "the start-up check of the compiler flags (%s)", gcflagsEnv)
	in := absint.New(p.SSA, p.Module, p.Sizes)
	in.External = map[string]absint.Intrinsic{}
	stringModels(in)
	envs := map[string]*absint.Term{}
	in.External["os.Getenv"] = func(c *absint.CallCtx) []*absint.Result {
		n, ok := c.Args[0].Val.(string)
		if !ok {
			return undecided(c)
		}
		if envs[n] == nil {
			envs[n] = absint.Sym("environment " + n)
		}
		return c.Return(envs[n])
	}
	in.External["os.LookupEnv"] = func(c *absint.CallCtx) []*absint.Result {
		n, ok := c.Args[0].Val.(string)
		if !ok {
			return undecided(c)
		}
		if envs[n] == nil {
			envs[n] = absint.Sym("environment " + n)
		}
		set := absint.Sym("environment has " + n)
		// a variable that is not set is empty
		return c.Return(envs[n], set)
	}
	in.External["runtime.Version"] = func(c *absint.CallCtx) []*absint.Result {
		return c.Return(absint.Str("go1.23.12"))
	}
	for _, q := range p.SSA.AllPackages() {
		if f := q.Func("init"); f != nil && q != home {
			in.Intrinsics[f] = func(c *absint.CallCtx) []*absint.Result { return c.Return() }
		}
	}
	st := absint.NewState()
	if gu, ok := home.Members["init$guard"].(*ssa.Global); ok {
		st.SetCell(absint.GlobalAddr(gu), absint.False)
	}
	verdicts := map[string]int{}
	for _, x := range in.Call(st, home.Func("init"), nil, nil, "init") {
		r.Paths++
		r.Ob("way through the start-up check")
		if x.Kind != absint.XReturn {
			g.bad("undecided: the package may not start")
			continue
		}
		printed := 0
		for _, e := range x.St.Events() {
			if isPrint(e) {
				printed++
			}
			if e.Loop != nil {
				for _, y := range flat([]*absint.Event{e}) {
					if isPrint(y) {
						printed += 2
					}
				}
			}
		}
		env := envs[gcflagsEnv]
		off := 0
		if env != nil {
			off = x.St.Eval(absint.Eq(env, absint.Str("false"), false))
		}
		if off == 1 {
			verdicts["off"]++
			if printed > 0 {
				g.bad("warns although %s=false", gcflagsEnv)
			}
			continue
		}
		v := g.verdict(x)
		verdicts[v]++
		switch {
		case v == "call" && printed > 0:
			g.bad("warns although the probe makes its call")
		case v == "end" && printed == 0 && off == 0:
			g.bad("does not warn although the probe's call is inlined")
		case v == "end" && printed == 0:
			g.bad("does not warn although the probe's call is inlined and the check is not switched off")
		case v == "":
			g.bad("undecided: what it finds need not depend on the code of a probe")
		}
	}
	for _, v := range []string{"off", "call", "end"} {
		r.Ob("the start-up check can find: " + v)
		if verdicts[v] == 0 {
			g.bad("has no way on which it finds: " + map[string]string{"off": "it is switched off", "call": "the probe makes its call", "end": "the probe ends without a call"}[v])
		}
	}
	for f := range in.Entered {
		r.Functions[fnKey(f)+" "+r.Config] = true
	}
	for b := range in.Problems {
		g.bad("undecided: " + b)
	}
}

func isPrint(e *absint.Event) bool {
	if e.Kind != absint.EvCall && e.Kind != absint.EvIntr {
		return false
	}
	n := e.Name
	return n == "builtin.println" || n == "builtin.print" || strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint") ||
		strings.HasPrefix(n, "log.Print") || strings.HasPrefix(n, "(*os.File).Write")
}

// verdict tells what a way through the check finds in the probe: "call", "end", "limit" or nothing.
func (g *gcflags) verdict(x *absint.Result) string {
	l := g.l
	arm := g.p.Config.GOARCH == "arm64"
	name := "CALL"
	if arm {
		name = "BL"
	}
	is := func(st *absint.State, inst *absint.Term, name string) int {
		k := l.opcode(name)
		need(k != nil, "opcode %s", name)
		return st.Eval(absint.Eq(l.instField(inst, "Op"), k, true))
	}
	// the probe
	var base *absint.Term
	for _, e := range flat(x.St.Events()) {
		at, _, _, ok := decodeCall(e)
		if !ok {
			continue
		}
		for t, f := range probesIn(at) {
			if base != nil && base != t {
				g.bad("undecided: looks at the code of more than one function")
				return "limit"
			}
			base = t
			if !g.seen[f] {
				g.seen[f] = true
				g.probe(f)
			}
		}
	}
	if base == nil {
		return ""
	}
	p := &patching{l: l, key: "start-up check", res: x, st: x.St, evs: x.St.Events(), nInst: len(x.St.Events()), w: -1}
	marks := p.marksFrom(base, func(st *absint.State, inst, err *absint.Term) string {
		// passed over: neither a call nor the end
		if is(st, inst, "RET") == 1 {
			return "end"
		}
		if is(st, inst, name) == 1 {
			return "call"
		}
		if is(st, inst, "RET") == 0 {
			return "an instruction that may be the end of the probe is passed over"
		}
		if is(st, inst, name) == 0 {
			return "an instruction that may be a call is passed over"
		}
		return ""
	})
	// the last instruction looked at decides
	var last, at *absint.Term
	failed := false
	for _, e := range p.evs {
		if a, inst, err, ok := decodeCall(e); ok {
			last, at = inst, absint.Sub(a, base)
			failed = x.St.Eval(isNil(err)) == -1
		}
	}
	known := func(t *absint.Term) (bad []string, ok bool) {
		for _, m := range marks {
			if m.at == t || p.same(m.at, t) {
				return m.bad, true
			}
		}
		return nil, false
	}
	if failed {
		last = nil
	}
	if last != nil && is(x.St, last, name) != 1 && is(x.St, last, "RET") != 1 {
		last = nil
	}
	if last == nil {
		// gave up: at what, or after how much?
		if at != nil && failed {
			if _, ok := known(at); ok {
				return "limit"
			}
		}
		const enough = 64
		for _, m := range marks {
			if len(m.bad) == 0 && l.proves(x.St, absint.Sub(m.at, absint.Int(enough))) {
				return "limit"
			}
		}
		g.bad("undecided: gives up before the end of the probe")
		return "limit"
	}
	bad, ok := known(at)
	if !ok {
		g.bad("undecided: the instructions of the probe need not be decoded one after the other from its entry")
		return "limit"
	}
	for _, b := range bad {
		switch b {
		case "end":
			g.bad("looks beyond the end of the probe")
		case "call":
			return "call"
		default:
			g.bad("%s", b)
		}
	}
	if is(x.St, last, name) == 1 {
		return "call"
	}
	return "end"
}

// probesIn finds the addresses of functions' code in a term.
func probesIn(t *absint.Term) map[*absint.Term]*ssa.Function {
	out := map[*absint.Term]*ssa.Function{}
	var walk func(t *absint.Term)
	walk = func(t *absint.Term) {
		if t == nil {
			return
		}
		if t.Op == "Pointer" {
			var f *ssa.Function
			n := 0
			var inner func(u *absint.Term)
			inner = func(u *absint.Term) {
				if u == nil {
					return
				}
				if h, ok := u.Val.(*ssa.Function); ok {
					f = h
					n++
				}
				for _, a := range u.Args {
					inner(a)
				}
			}
			inner(t)
			if n == 1 {
				out[t] = f
			}
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return out
}

// probe checks that exactly inlining takes the calls out of a function.
func (g *gcflags) probe(f *ssa.Function) {
	pos := g.p.Pos(f.Pos())
	key := fnKey(f)
	g.r.Ob("probe " + key)
	g.r.Functions[key+" "+g.r.Config] = true
	calls := 0
	ok := g.plain(f, 0, func(h *ssa.Function) { calls++ })
	if !ok {
		g.r.Bad(key, pos, "makes calls, or may make them, that inlining does not take away, so the check finds a call whether or not functions are inlined")
	}
	if calls == 0 {
		g.r.Bad(key, pos, "makes no call, so the check never finds one")
	}
}

// plain: the function consists of arithmetic and of calls of such functions that are inlined when anything is.
func (g *gcflags) plain(f *ssa.Function, depth int, call func(*ssa.Function)) bool {
	if depth > 2 || len(f.Blocks) != 1 || f.Recover != nil {
		return false
	}
	n := 0
	for _, i := range f.Blocks[0].Instrs {
		n++
		switch x := i.(type) {
		case *ssa.Return, *ssa.DebugRef, *ssa.Jump:
		case *ssa.BinOp:
			b, ok := x.X.Type().Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsNumeric == 0 || strings.Contains("/ % << >>", x.Op.String()) {
				return false
			}
		case *ssa.Convert, *ssa.ChangeType:
			b, ok := x.(ssa.Value).Type().Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsNumeric == 0 {
				return false
			}
		case *ssa.Call:
			h := x.Call.StaticCallee()
			if h == nil || h == f || len(h.Blocks) == 0 || h.Parent() != nil || pragma(g.p, h, "noinline") || pragma(g.p, h, "uintptrescapes") || !g.plain(h, depth+1, func(*ssa.Function) {}) {
				return false
			}
			call(h)
		default:
			return false
		}
	}
	return n < 20
}

// pragma: the function is declared with a directive to the compiler.
func pragma(p *load.Program, f *ssa.Function, name string) bool {
	if f.Object() == nil {
		return true
	}
	d := p.Decl(f.Object())
	if d == nil {
		return true
	}
	if d.Doc == nil {
		return false
	}
	for _, c := range d.Doc.List {
		if strings.HasPrefix(c.Text, "//go:"+name) {
			return true
		}
	}
	return false
}
