package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mockeycheck/absint"
	"mockeycheck/load"
)

func init() {
	rule("generic-body", "a generic mock patches the one function that the instantiation calls, which no helper call of the compiler is taken for", 1, ruleGeneric)
	decides("C21", "generic-body")
}

// helper is a runtime function the compiler adds calls of.
type helper struct {
	name   string // in the runtime
	inside bool   // called at places inside of it, too
	race   bool   // with race detection only
}

// helpers are what the wrapper of an instantiation may call besides its body: the compiler copies and zeroes large
// arguments and results with the duff functions and reports what the wrapper does to the race detector.
var helpers = []helper{
	{"duffcopy", true, false}, {"duffzero", true, false},
	{"racefuncenter", false, true}, {"racefuncexit", false, true}, {"raceread", false, true}, {"racewrite", false, true},
	{"racereadrange", false, true}, {"racewriterange", false, true},
}

func ruleGeneric(c *Ctx, r *Report) {
	for _, cfg := range []load.Config{Linux, LinuxARM, {GOOS: "linux", GOARCH: "amd64", Tags: "race"}} {
		r.Config = cfg.String()
		l := c.Low(cfg)
		n := 0
		for _, p := range l.genericPatchings(r) {
			if p.res.Kind == absint.XReturn {
				n++
				g := &generic{p: p, r: r}
				g.judge()
			}
		}
		if n == 0 {
			r.Bad("installation", "", "no way of installing a generic mock succeeds")
		}
	}
	r.Config = ""
}

// initialise runs the initialisation of the packages whose variables the installation reads.
func (l *low) initialise(in *absint.Interp, r *Report) *absint.State {
	pkgs := map[*ssa.Package]bool{}
	var roots []*ssa.Function
	for f := range l.m.Patchers {
		roots = append(roots, f)
	}
	seen := map[*ssa.Function]bool{}
	for len(roots) > 0 {
		f := roots[0]
		roots = roots[1:]
		if seen[f] || !in.InModule(f) {
			continue
		}
		seen[f] = true
		if f.Pkg != nil {
			pkgs[f.Pkg] = true
		}
		roots = append(roots, callees(f)...)
	}
	var ps []*ssa.Package
	for p := range pkgs {
		// packages of which only functions without an effect on addresses are used need no initialisation
		if p.Pkg.Name() == "inst" || strings.HasSuffix(p.Pkg.Path(), "internal/monkey") {
			ps = append(ps, p)
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Pkg.Path() > ps[j].Pkg.Path() })
	for _, q := range in.Prog.AllPackages() {
		if f := q.Func("init"); f != nil {
			in.Intrinsics[f] = func(c *absint.CallCtx) []*absint.Result {
				return []*absint.Result{{St: c.St, Kind: absint.XReturn}}
			}
		}
	}
	st := absint.NewState()
	for _, p := range ps {
		f := p.Func("init")
		if f == nil {
			continue
		}
		delete(in.Intrinsics, f)
		var after []*absint.State
		for _, x := range in.Call(st, f, nil, nil, "init "+p.Pkg.Path()) {
			if x.Kind == absint.XReturn {
				after = append(after, x.St)
			}
		}
		if len(after) != 1 {
			r.Bad("initialisation", "", fmt.Sprintf("undecided: the initialisation of %s ends in %d ways", p.Pkg.Path(), len(after)))
			return nil
		}
		st = after[0]
	}
	return st
}

func (l *low) genericPatchings(r *Report) (out []*patching) {
	in := l.patchInterp()
	st := l.initialise(in, r)
	if st == nil {
		return nil
	}
	for f := range l.m.Patchers {
		p := &patching{l: l, key: fnKey(f), f: f}
		g := p.generic()
		if g == nil {
			continue
		}
		s := st.Clone()
		if !s.Assume(g, true) {
			continue
		}
		ps := Params(f)
		for _, x := range in.Call(s, f, ps, nil, "I") {
			q := &patching{l: l, key: fnKey(f), f: f, res: x, st: x.St, evs: x.St.Events(), nInst: len(x.St.Events()), target: ps[0], w: -1}
			for i, e := range q.evs {
				if e.Kind == absint.EvIntr && e.Name == "codewrite" {
					q.w, q.T = i, e.Args[0]
				}
			}
			out = append(out, q)
		}
	}
	for f := range in.Entered {
		r.Functions[fnKey(f)] = true
	}
	for b := range in.Problems {
		r.Bad("analysis", "", "undecided: "+b)
	}
	return out
}

// generic judges one way of installing a generic mock.
type generic struct {
	p    *patching
	l    *low
	r    *Report
	w    *loopWays
	base *absint.Term            // where the wrapper starts
	cur  *absint.Term            // position in it at the start of an iteration
	acc  []*absint.Binding       // what is kept of the calls found
	call []*callSite             // per way through an iteration
	end  map[string]*absint.Term // last address of a helper
}

// callSite is the instruction looked at on one way through an iteration.
type callSite struct {
	inst, next *absint.Term // next: address of the instruction relative to which the destination is given
	isCall     int
	changes    bool // something is kept of it
}

func (g *generic) bad(format string, a ...interface{}) {
	g.p.bad(g.r, "body of an instantiation", nil, format, a...)
}

func (g *generic) judge() {
	p := g.p
	g.l = p.l
	g.base = absint.Mk("Pointer", "", p.target)
	g.r.Ob("body patched on a way through " + p.key)
	if p.w < 0 {
		g.bad("is not patched at all")
		return
	}
	if !g.walk() {
		return
	}
	g.sites()
	g.stop()
	if g.helperEnds() {
		g.helpers()
	}
	g.one()
}

// walk finds the loop that goes through the wrapper.
func (g *generic) walk() bool {
	p := g.p
	var why []string
	for _, e := range p.evs[:p.w] {
		if e.Loop == nil {
			continue
		}
		touches := false
		for _, c := range e.Loop.Conts {
			for _, x := range c.Events {
				if at, _, _, ok := decodeCall(x); ok && absint.Contains(at, g.base) {
					touches = true
				}
			}
		}
		if !touches {
			continue
		}
		g.w = g.l.loop(e, p.res)
		marks := p.marksFrom(g.base, func(st *absint.State, inst, err *absint.Term) string {
			if p.l.m.P.Config.GOARCH != "arm64" && st.Eval(isNil(err)) != 1 {
				return "an instruction that could not be decoded is taken for one"
			}
			return ""
		})
		var cands []*absint.Term
		for _, b := range e.Loop.Binds {
			cands = append(cands, b.Val, absint.Sub(b.Val, g.base))
		}
		cands = append(cands, absint.MulC(e.Loop.Kappa, 4))
		for _, cand := range cands {
			for _, mk := range marks {
				if mk.at == g.w.out(cand) || mk.at != nil && p.same(mk.at, g.w.out(cand)) {
					if len(mk.bad) == 0 {
						g.cur = cand
					} else {
						why = mk.bad
					}
				}
			}
		}
		break
	}
	switch {
	case g.w == nil:
		g.bad("is not searched for: no loop decodes the instructions of the wrapper")
	case g.cur == nil && why != nil:
		g.bad("is searched for in the wrong places: %s", strings.Join(why, "; "))
	case g.cur == nil:
		g.bad("undecided: the instructions of the wrapper need not be decoded one after the other from its entry")
	}
	return g.cur != nil
}

func (g *generic) op(st *absint.State, inst *absint.Term, name string) int {
	k := g.l.opcode(name)
	need(k != nil, "opcode %s", name)
	return st.Eval(absint.Eq(g.l.instField(inst, "Op"), k, true))
}

func (g *generic) arm() bool { return g.l.m.P.Config.GOARCH == "arm64" }

// sites looks at what each way through an iteration decodes.
func (g *generic) sites() {
	name := "CALL"
	if g.arm() {
		name = "BL"
	}
	for _, c := range g.w.rec.Conts {
		var s *callSite
		for _, x := range c.Events {
			at, inst, _, ok := decodeCall(x)
			if !ok || !g.l.same(c.St, absint.Sub(at, g.base), g.cur) {
				continue
			}
			next := at
			if !g.arm() {
				next = absint.Add(at, g.l.instField(inst, "Len"))
			}
			s = &callSite{inst: inst, next: next, isCall: g.op(c.St, inst, name)}
			if g.op(c.St, inst, "RET") != -1 {
				g.bad("is looked for beyond the end of the wrapper (its first RET)")
			}
		}
		g.call = append(g.call, s)
	}
	// what is kept: values that stay the same when the instruction is no call
	for bi, b := range g.w.rec.Binds {
		keeps, changes := true, false
		for i, c := range g.w.rec.Conts {
			if g.call[i] == nil {
				continue
			}
			if bi < len(c.Next) && c.Next[bi] != b.Val {
				if g.call[i].isCall == -1 {
					keeps = false
				} else {
					changes = true
				}
			}
		}
		if keeps && changes && b.Val.Op == "sym" {
			g.acc = append(g.acc, b)
			for i, c := range g.w.rec.Conts {
				if g.call[i] != nil && c.Next[bi] != b.Val {
					g.call[i].changes = true
				}
			}
		}
	}
	for i := range g.w.rec.Conts {
		if s := g.call[i]; s == nil {
			g.bad("undecided: a way round the loop decodes nothing at its position")
		} else if s.isCall == 0 {
			if s.changes {
				g.bad("may be something that is not called: an instruction need not be a call to be counted as one")
			} else {
				g.bad("may be overlooked: an instruction that may be a call is passed over")
			}
		}
	}
}

// minScan is how much of a wrapper has to be looked at: one with large arguments and results, copied field by field,
// has some thousand bytes.
const minScan = 4096

// stop: the search ends at the RET of the wrapper, or after a fair number of bytes.
func (g *generic) stop() {
	p := g.p
	at := absint.Add(g.base, g.w.out(g.cur))
	after := false
	for _, e := range p.evs[:p.w] {
		if e.Loop == g.w.rec {
			after = true
		}
		if a, inst, _, ok := decodeCall(e); ok && after && p.same(a, at) {
			if g.op(p.st, inst, "RET") == 1 {
				return
			}
			g.bad("is searched for only up to an instruction that need not be the end of the wrapper")
			return
		}
	}
	s := p.st.Clone()
	if s.Assume(absint.Ge0(absint.Sub(absint.Int(minScan-1), g.w.out(g.cur))), true) && !g.l.proves(s, absint.Int(-1)) {
		g.bad("is searched for only in the first bytes of the wrapper")
	}
}

// dest is the destination of a call: is d the one of site s?
func (g *generic) dest(st *absint.State, s *callSite, d *absint.Term) bool {
	rel, lo, hi := g.rel(st, s)
	if rel == nil {
		return false
	}
	x, _, _, ok := g.mod64(absint.Sub(d, s.next), rel, lo, hi)
	return ok && x == rel
}

// rel is the distance in a call instruction and what is known about it.
func (g *generic) rel(st *absint.State, s *callSite) (rel *absint.Term, lo, hi int64) {
	args := g.l.instField(s.inst, "Args")
	name := "Rel"
	lo, hi = -1<<31, 1<<31-1
	if g.arm() {
		name, lo, hi = "PCRel", -1<<27, 1<<27-1
	}
	var T types.Type
	for _, path := range decoders {
		if q := g.l.m.P.All[path]; q != nil && q.Types != nil {
			if o := q.Types.Scope().Lookup(name); o != nil {
				T = o.Type()
			}
		}
	}
	if T == nil || args == nil {
		return nil, 0, 0
	}
	rel = absint.Mk("unbox", absint.TypeKey(T), absint.Mk("elem", "", args, absint.Int(0)))
	if g.l.proves(st, rel) {
		lo = 0
	} else if g.l.proves(st, absint.Sub(absint.Int(-1), rel)) {
		hi = -1
	}
	return
}

// mod64 rewrites a number as a combination of rel, valid modulo 2^64, and gives its bounds.
func (g *generic) mod64(t, rel *absint.Term, lo, hi int64) (out *absint.Term, l, h int64, ok bool) {
	m, c, isLin := absint.LinOf(t)
	if !isLin {
		m, c = map[*absint.Term]int64{t: 1}, 0
	}
	out, l, h = absint.Int(c), c, c
	for a, k := range m {
		var x *absint.Term
		var xl, xh int64
		switch {
		case a == rel:
			x, xl, xh = rel, lo, hi
		case a.Op == "conv":
			x, xl, xh, ok = g.mod64(a.Args[0], rel, lo, hi)
			if !ok {
				return
			}
			switch to := a.Aux; {
			case to == "uintptr" || to == "uint64" || to == "uint" || to == "int64" || to == "int":
			case to == "int32" && xl >= -1<<31 && xh < 1<<31:
			case to == "uint32" && xl >= 0 && xh < 1<<32:
			case to == "uint32" && xl >= -1<<32 && xh < 0:
				x, xl, xh = absint.Add(x, absint.Int(1<<32)), xl+1<<32, xh+1<<32
			default:
				return nil, 0, 0, false
			}
		default:
			return nil, 0, 0, false
		}
		if k > 4 || k < -4 {
			return nil, 0, 0, false
		}
		out = absint.Add(out, absint.MulC(x, k))
		if k < 0 {
			xl, xh = xh, xl
		}
		l, h = l+k*xl, h+k*xh
	}
	return out, l, h, true
}

// found is the place that is patched, given what is kept.
func (g *generic) found(m map[*absint.Term]*absint.Term) *absint.Term {
	o := map[*absint.Term]*absint.Term{}
	for k, v := range m {
		o[g.w.out(k)] = v
	}
	return g.read(absint.SubstMap(g.p.T, o))
}

// read simplifies the loading of an element of known contents.
func (g *generic) read(t *absint.Term) *absint.Term {
	m := map[*absint.Term]*absint.Term{}
	absint.Walk(t, func(x *absint.Term) {
		if x.Op == "init" && x.Args[0].Op == "ia" {
			if i, ok := x.Args[0].Args[1].IsInt(); ok {
				if es, ok := elements(x.Args[0].Args[0]); ok && i >= 0 && i < int64(len(es)) {
					m[x] = es[i]
				}
			}
		}
	})
	if len(m) == 0 {
		return t
	}
	return absint.SubstMap(t, m)
}

// elements are those of a slice with known contents.
func elements(s *absint.Term) (out []*absint.Term, ok bool) {
	switch s.Op {
	case "nil":
		return nil, true
	case "list":
		return s.Args, true
	case "sliceof", "mkslice":
		n, isInt := absint.Len(s).IsInt()
		return nil, isInt && n == 0
	case "cat":
		for _, a := range s.Args {
			x, ok := elements(a)
			if !ok {
				return nil, false
			}
			out = append(out, x...)
		}
		return out, true
	}
	return nil, s == absint.Nil
}

// keep assumes values for what is kept of the calls.
func keep(st *absint.State, m map[*absint.Term]*absint.Term) bool {
	for k, v := range m {
		ok := true
		switch T := v; {
		case isSlice(v):
			if es, known := elements(v); known {
				ok = st.Assume(absint.Eq(absint.Len(k), absint.Int(int64(len(es))), true), true)
			} else {
				ok = st.Assume(absint.Eq(absint.Len(k), absint.Len(v), true), true)
			}
		case T == absint.True:
			ok = st.Assume(k, true)
		case T == absint.False:
			ok = st.Assume(k, false)
		default:
			ok = st.Assume(absint.Eq(k, v, true), true)
		}
		if !ok {
			return false
		}
	}
	return true
}

func isSlice(t *absint.Term) bool {
	switch t.Op {
	case "list", "cat", "sliceof", "mkslice", "sub":
		return true
	}
	return false
}

// possible is the state of iteration i when the values kept are those, nil when it cannot come to it.
func (g *generic) possible(i int, m map[*absint.Term]*absint.Term) *absint.State {
	s := g.w.with(g.w.rec.Conts[i].St, g.w.rec.Conts[i].Lits, m)
	if s == nil || !keep(s, m) || g.l.proves(s, absint.Int(-1)) {
		return nil
	}
	return s
}

// after gives the values kept after iteration i.
func (g *generic) after(i int, m map[*absint.Term]*absint.Term) map[*absint.Term]*absint.Term {
	out := map[*absint.Term]*absint.Term{}
	for bi, b := range g.w.rec.Binds {
		for _, a := range g.acc {
			if a == b {
				v := absint.SubstMap(g.w.rec.Conts[i].Next[bi], m)
				if es, ok := elements(v); ok && isSlice(v) {
					v = absint.List(es...)
				}
				out[b.Val] = v
			}
		}
	}
	return out
}

func sameMap(a, b map[*absint.Term]*absint.Term) bool {
	for k, v := range a {
		w := b[k]
		if v == w {
			continue
		}
		x, ok1 := elements(v)
		y, ok2 := elements(w)
		if !ok1 || !ok2 || !isSlice(v) || !isSlice(w) || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
	}
	return true
}

// one: the place patched is the destination of the one call found.
func (g *generic) one() {
	if len(g.acc) == 0 {
		g.bad("undecided: nothing is kept of the calls found")
		return
	}
	none := map[*absint.Term]*absint.Term{}
	for _, b := range g.acc {
		none[b.Val] = b.Init
	}
	if !g.excluded(none, nil) {
		g.bad("need not exist: the installation goes on without a call having been found")
	}
	var firsts []map[*absint.Term]*absint.Term
	for i, s := range g.call {
		if s == nil {
			continue
		}
		st := g.possible(i, none)
		if st == nil {
			continue
		}
		n := g.after(i, none)
		if sameMap(none, n) {
			if s.changes {
				g.bad("may be overlooked: the first call found is not kept")
			}
			continue
		}
		if T := g.found(n); !g.dest(st, s, T) {
			g.bad("is taken to be at %s, which need not be the destination of the call", T)
			continue
		}
		one := map[*absint.Term]*absint.Term{}
		for k, v := range n {
			one[k] = absint.Subst(v, g.w.rec.Kappa, absint.Sym("the first call"))
		}
		dup := false
		for _, f := range firsts {
			dup = dup || sameMap(f, one)
		}
		if !dup {
			firsts = append(firsts, one)
		}
	}
	if len(firsts) == 0 {
		g.bad("is never found")
	}
	for _, one := range firsts {
		T := g.found(one)
		for i, s := range g.call {
			if s == nil {
				continue
			}
			st := g.possible(i, one)
			if st == nil || st.Eval(absint.Eq(T, absint.Int(0), true)) == 1 {
				continue // nothing is called at address zero
			}
			n := g.after(i, one)
			if sameMap(one, n) {
				if s.changes {
					g.bad("may not be the only one: a second call is not counted")
				}
				continue
			}
			if !g.more(n) {
				g.bad("may not be the only one: the installation goes on after more than one call was found")
				return
			}
		}
	}
}

// fact is something about the values kept that stays true when more calls are found.
type fact struct {
	t   *absint.Term
	pos bool
}

// more: having found several calls, which left values n, the installation cannot go on.
func (g *generic) more(n map[*absint.Term]*absint.Term) bool {
	var facts []fact
	for k, v := range n {
		if isSlice(v) {
			if es, ok := elements(v); ok {
				facts = append(facts, fact{absint.Ge0(absint.Sub(absint.Len(k), absint.Int(int64(len(es))))), true})
			}
		} else if v == absint.True || v == absint.False {
			facts = append(facts, fact{k, v == absint.True})
		} else if _, ok := v.IsInt(); ok {
			facts = append(facts, fact{absint.Ge0(absint.Sub(k, v)), true}, fact{absint.Eq(k, v, true), true})
		}
	}
	for changed := true; changed; {
		changed = false
		for fi := 0; fi < len(facts); fi++ {
			holds := true
			for i := range g.w.rec.Conts {
				s := g.w.rec.Conts[i].St.Clone()
				ok := true
				for _, f := range facts {
					ok = ok && s.Assume(f.t, f.pos)
				}
				if !ok || g.l.proves(s, absint.Int(-1)) {
					continue
				}
				m := map[*absint.Term]*absint.Term{}
				for bi, b := range g.w.rec.Binds {
					if b.Val.Op == "sym" {
						m[b.Val] = g.w.rec.Conts[i].Next[bi]
					}
				}
				want := 1
				if !facts[fi].pos {
					want = -1
				}
				t := absint.SubstMap(facts[fi].t, m)
				if s.Eval(t) != want {
					if s.Assume(t, !facts[fi].pos) && !g.l.proves(s, absint.Int(-1)) {
						holds = false
					}
				}
			}
			if !holds {
				facts = append(facts[:fi], facts[fi+1:]...)
				fi--
				changed = true
			}
		}
	}
	return g.excluded(nil, facts)
}

// excluded: the installation cannot have gone on with these values kept.
func (g *generic) excluded(m map[*absint.Term]*absint.Term, facts []fact) bool {
	s := g.p.st.Clone()
	o := map[*absint.Term]*absint.Term{}
	for k, v := range m {
		o[g.w.out(k)] = v
	}
	if !keep(s, o) {
		return true
	}
	for _, f := range facts {
		if !s.Assume(g.w.out(f.t), f.pos) {
			return true
		}
	}
	if m != nil && g.w.with(s, g.w.exits(), o) == nil {
		return true
	}
	return g.l.proves(s, absint.Int(-1))
}

// ---- calls the compiler adds ----

// linked finds the function standing for one of the runtime.
func (l *low) linked(remote string) (out []*ssa.Function) {
	for local, r := range l.links {
		if r != remote {
			continue
		}
		for f := range l.m.allFuncs() {
			if f.Pkg != nil && f.Parent() == nil && f.Pkg.Pkg.Path()+"."+f.Name() == local && len(f.Blocks) == 0 {
				out = append(out, f)
			}
		}
	}
	return
}

func entryOf(f *ssa.Function) *absint.Term {
	return absint.Mk("Pointer", "", absint.ValueOf(absint.Iface(f.Signature, absint.FuncTerm(f))))
}

func (g *generic) race() bool { return strings.Contains(g.l.m.P.Config.Tags, "race") }

// helperEnds: where the helpers that are entered in the middle end.
func (g *generic) helperEnds() bool {
	p := g.p
	g.end = map[string]*absint.Term{}
	ok := true
	for _, h := range helpers {
		if h.race && !g.race() {
			continue
		}
		fs := g.l.linked("runtime." + h.name)
		if len(fs) == 0 {
			g.bad("may be taken to be runtime.%s, which wrappers call, too: the library does not know that function", h.name)
			ok = false
			continue
		}
		if !h.inside {
			continue
		}
		start := entryOf(fs[0])
		marks := p.marksFrom(start, func(st *absint.State, inst, err *absint.Term) string {
			if g.op(st, inst, "RET") != -1 {
				return "goes beyond the end of the function"
			}
			if !g.arm() && st.Eval(isNil(err)) != 1 {
				return "an instruction that could not be decoded is taken for one"
			}
			return ""
		})
		for _, e := range p.evs[:p.w] {
			at, inst, _, isDec := decodeCall(e)
			if !isDec || g.op(p.st, inst, "RET") != 1 || !absint.Contains(at, start) {
				continue
			}
			for _, m := range marks {
				if len(m.bad) == 0 && p.same(m.at, absint.Sub(at, start)) {
					g.end[h.name] = at
				}
			}
		}
		if g.end[h.name] == nil {
			g.bad("may be taken to be runtime.%s, which wrappers call, too: the end of that function is not looked up", h.name)
			ok = false
		}
	}
	return ok
}

// helpers: calls of helpers are passed over, and no others.
func (g *generic) helpers() {
	for i, c := range g.w.rec.Conts {
		s := g.call[i]
		if s == nil || s.isCall != 1 {
			continue
		}
		rel, _, _ := g.rel(c.St, s)
		if rel == nil {
			g.bad("undecided: the destination of a call is not understood")
			return
		}
		// the destination as the code has computed it
		var ds []*absint.Term
		seen := map[*absint.Term]bool{}
		note := func(t *absint.Term) {
			absint.Walk(t, func(x *absint.Term) {
				if !seen[x] && absint.Contains(x, rel) && absint.Contains(x, g.base) && g.dest(c.St, s, x) {
					ds = append(ds, x)
				}
				seen[x] = true
			})
		}
		for _, v := range c.Next {
			if v != nil {
				note(v)
			}
		}
		for _, e := range c.Events {
			for _, a := range e.Args {
				note(a)
			}
		}
		for _, li := range c.Lits {
			note(li.T)
			if m, _, ok := absint.LinOf(ge0Arg(li.T)); ok {
				// a comparison of the destination with something
				only := absint.Int(0)
				for a, co := range m {
					if absint.Contains(a, rel) || absint.Contains(s.next, a) {
						only = absint.Add(only, absint.MulC(a, co))
					}
				}
				for _, sign := range []int64{1, -1} {
					if x := absint.MulC(only, sign); g.dest(c.St, s, x) {
						ds = append(ds, x)
					}
				}
			}
		}
		if len(ds) == 0 {
			g.bad("may be overlooked or taken for another: the destination of a call is not computed rightly")
			return
		}
		d := ds[0]
		if s.changes {
			for _, h := range helpers {
				if h.race && !g.race() {
					continue
				}
				if !g.isNot(c.St, d, h) {
					g.bad("may be taken to be runtime.%s, which wrappers call, too", h.name)
				}
			}
		} else if !g.isHelper(c.St, d) {
			g.bad("may be overlooked: a call of something that the compiler need not have added is passed over")
		}
	}
}

func ge0Arg(t *absint.Term) *absint.Term {
	if t.Op == "ge0" || t.Op == "eq0" {
		return t.Args[0]
	}
	return t
}

// isNot: d does not lie in the helper.
func (g *generic) isNot(st *absint.State, d *absint.Term, h helper) bool {
	fs := g.l.linked("runtime." + h.name)
	if len(fs) == 0 {
		return false
	}
	start := entryOf(fs[0])
	s := st.Clone()
	ok := true
	if h.inside {
		ok = s.Assume(absint.Ge0(absint.Sub(d, start)), true) && s.Assume(absint.Ge0(absint.Sub(g.end[h.name], d)), true)
	} else {
		ok = s.Assume(absint.Eq(d, start, true), true)
	}
	if !ok || g.l.proves(s, absint.Int(-1)) {
		return true
	}
	if h.inside {
		return false
	}
	for _, li := range st.Lits() {
		if li.T.Op == "lookupok" && !li.Pos && g.l.same(st, li.T.Args[1], d) && keys(st, li.T.Args[0])[start] {
			return true
		}
	}
	return false
}

// keys are those put into a map.
func keys(st *absint.State, m *absint.Term) map[*absint.Term]bool {
	out := map[*absint.Term]bool{}
	for a := range st.Cells() {
		if a.Op == "ma" && a.Args[0] == m {
			out[a.Args[1]] = true
		}
	}
	return out
}

// isHelper: d is certainly in a helper.
func (g *generic) isHelper(st *absint.State, d *absint.Term) bool {
	allowed := map[*absint.Term]bool{}
	for local, remote := range g.l.links {
		_ = local
		if strings.HasPrefix(remote, "runtime.race") || strings.HasPrefix(remote, "runtime.duff") {
			for _, f := range g.l.linked(remote) {
				allowed[entryOf(f)] = true
			}
		}
	}
	for a := range allowed {
		if g.l.same(st, d, a) {
			return true
		}
	}
	for _, h := range helpers {
		if h.inside {
			for _, f := range g.l.linked("runtime." + h.name) {
				if g.l.proves(st, absint.Sub(d, entryOf(f))) && g.l.proves(st, absint.Sub(g.end[h.name], d)) {
					return true
				}
			}
		}
	}
	for _, li := range st.Lits() {
		if li.T.Op == "lookupok" && li.Pos && li.T.Args[0].Op == "mkmap" && g.l.same(st, li.T.Args[1], d) {
			ok := true
			for k := range keys(st, li.T.Args[0]) {
				ok = ok && allowed[k]
			}
			if ok {
				return true
			}
		}
	}
	return false
}
