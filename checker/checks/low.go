package checks

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mockeycheck/absint"
	"mockeycheck/load"
)

// LinuxSTW is the configuration with stopping the world enabled.
var LinuxSTW = load.Config{GOOS: "linux", GOARCH: "amd64", Tags: "mockey_stw"}

// low is the part of the library that patches code.
type low struct {
	m       *Model
	write   *ssa.Function // the assembly routine that changes code
	links   map[string]string
	writers []*ssa.Function // functions other packages write code with
	stop    map[string]bool // functions that stop the world, by full name
	start   map[string]bool
	gc      map[string]bool // those of them that also wait for the garbage collector
}

// Low resolves the roles of the code-patching packages.
func (c *Ctx) Low(cfg load.Config) *low {
	k := "low:" + cfg.String()
	m := c.Model(cfg)
	if v, ok := c.memo[k]; ok {
		return v.(*low)
	}
	l := &low{m: m, links: map[string]string{}, stop: map[string]bool{}, start: map[string]bool{}, gc: map[string]bool{}}
	mem := m.P.Pkg("internal/monkey/mem")
	need(mem != nil, "package internal/monkey/mem")
	l.write = mem.Func("write")
	need(l.write != nil && len(l.write.Blocks) == 0 && l.write.Signature.Params().Len() == 6, "mem.write, implemented in assembly, with six parameters")
	for _, p := range m.P.Pkgs {
		for _, f := range p.Syntax {
			for _, cg := range f.Comments {
				for _, cm := range cg.List {
					w := strings.Fields(cm.Text)
					if len(w) == 3 && w[0] == "//go:linkname" {
						l.links[p.PkgPath+"."+w[1]] = w[2]
					}
				}
			}
		}
	}
	for local, remote := range l.links {
		switch remote {
		case "runtime.stopTheWorld", "runtime.stopTheWorldGC":
			l.stop[local] = true
		case "runtime.startTheWorld", "runtime.startTheWorldGC":
			l.start[local] = true
		}
		l.gc[local] = strings.HasSuffix(remote, "GC")
	}
	reach := m.reaching(l.write)
	seen := map[*ssa.Function]bool{}
	for f := range m.allFuncs() {
		if f.Pkg == nil || f.Pkg == l.write.Pkg {
			continue
		}
		for _, g := range callees(f) {
			if g.Pkg == l.write.Pkg && reach[g] && !seen[g] {
				seen[g] = true
				l.writers = append(l.writers, g)
			}
		}
	}
	need(len(l.writers) > 0, "a function that writes code through mem.write and is called from another package")
	c.memo[k] = l
	return l
}

func (m *Model) allFuncs() map[*ssa.Function]bool {
	in := absint.New(m.P.SSA, m.P.Module, m.P.Sizes)
	out := map[*ssa.Function]bool{}
	for f := range in.AllFunctions() {
		if f.Pkg != nil && m.P.InModule(f.Pkg.Pkg.Path()) {
			out[f] = true
		}
	}
	return out
}

// callees are the functions a function calls or mentions.
func callees(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			for _, op := range i.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if g, ok := (*op).(*ssa.Function); ok {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

// reaching are the functions from which calls can lead to f.
func (m *Model) reaching(f *ssa.Function) map[*ssa.Function]bool {
	rev := map[*ssa.Function][]*ssa.Function{}
	for g := range m.allFuncs() {
		for _, h := range callees(g) {
			rev[h] = append(rev[h], g)
		}
	}
	out := map[*ssa.Function]bool{f: true}
	todo := []*ssa.Function{f}
	for len(todo) > 0 {
		g := todo[0]
		todo = todo[1:]
		for _, h := range rev[g] {
			if !out[h] {
				out[h] = true
				todo = append(todo, h)
			}
		}
	}
	return out
}

// interp makes an interpreter for the code-patching packages.
func (l *low) interp() *absint.Interp {
	m := l.m
	in := absint.New(m.P.SSA, m.P.Module, m.P.Sizes)
	in.NonRetaining = map[*ssa.Function]bool{m.Assert: true}
	in.Intrinsics[m.Assert] = assertIntrinsic
	for f := range m.Printers {
		in.NonRetaining[f] = true
		in.Intrinsics[f] = func(c *absint.CallCtx) []*absint.Result {
			c.Emit(absint.EvIntr, "print")
			return c.Return()
		}
	}
	in.Invoke = func(c *absint.CallCtx) ([]*absint.Result, bool) { return nil, false }
	return in
}

// ---- proofs about pages ----

// proves: the linear facts of the state and page arithmetic imply that all goals are >= 0.
func (l *low) proves(st *absint.State, goals ...*absint.Term) bool {
	pages := map[*absint.Term]bool{}
	see := func(t *absint.Term) {
		absint.Walk(t, func(x *absint.Term) {
			if absint.IsPageOf(x) {
				pages[x] = true
			}
		})
	}
	for _, g := range goals {
		see(g)
	}
	for _, li := range st.Lits() {
		if len(pages) < 6 {
			see(li.T)
		}
	}
	var ps []*absint.Term
	for p := range pages {
		ps = append(ps, p)
	}
	for i := range ps {
		for j := i + 1; j < len(ps); j++ {
			if ps[j].ID < ps[i].ID {
				ps[i], ps[j] = ps[j], ps[i]
			}
		}
	}
	size := absint.PageSize()
	s := st.Clone()
	if !s.Assume(absint.Ge0(absint.Sub(size, absint.Int(512))), true) {
		return true
	}
	for _, p := range ps {
		d := absint.Sub(p.Args[0], p)
		if !s.Assume(absint.Ge0(p), true) || !s.Assume(absint.Ge0(d), true) || !s.Assume(absint.Ge0(absint.Sub(absint.Sub(size, absint.Int(1)), d)), true) {
			return true
		}
	}
	var diffs []*absint.Term
	for _, li := range st.Lits() {
		if li.T.Op == "eq0" && !li.Pos && len(diffs) < 4 {
			diffs = append(diffs, li.T.Args[0])
		}
	}
	// what is not equal is more or less
	var apart func(s *absint.State, i int) bool
	apart = func(s *absint.State, i int) bool {
		holds := true
		for _, g := range goals {
			if !s.Entails(g) {
				holds = false
			}
		}
		if holds || s.Contradictory() {
			return true
		}
		if i >= len(diffs) {
			return false
		}
		one := absint.Int(1)
		for _, g := range []*absint.Term{absint.Sub(diffs[i], one), absint.Sub(absint.MulC(diffs[i], -1), one)} {
			t := s.Clone()
			if t.Assume(absint.Ge0(g), true) && !apart(t, i+1) {
				return false
			}
		}
		return true
	}
	var split func(s *absint.State, i, j int) bool
	split = func(s *absint.State, i, j int) bool {
		if j >= len(ps) {
			i, j = i+1, i+2
		}
		if j >= len(ps) {
			return apart(s, 0)
		}
		d := absint.Sub(ps[i], ps[j])
		for k := 0; k < 3; k++ {
			t := s.Clone()
			ok := true
			switch k {
			case 0:
				ok = t.Assume(absint.Ge0(d), true) && t.Assume(absint.Ge0(absint.MulC(d, -1)), true)
			case 1:
				ok = t.Assume(absint.Ge0(absint.Sub(d, size)), true)
			case 2:
				ok = t.Assume(absint.Ge0(absint.Sub(absint.MulC(d, -1), size)), true)
			}
			if ok && t.Contradictory() {
				ok = false
			}
			if ok && !split(t, i, j+1) {
				return false
			}
		}
		return true
	}
	return split(s, 0, 1)
}

func (l *low) same(st *absint.State, a, b *absint.Term) bool {
	if a == b {
		return true
	}
	d := absint.Sub(a, b)
	return l.proves(st, d, absint.MulC(d, -1))
}

func (l *low) isWrite(e *absint.Event) bool {
	return e.Kind == absint.EvCall && e.Name == l.write.String()
}

// oneWrite checks a call of the assembly routine at the cursor and returns the next one.
func (l *low) oneWrite(st *absint.State, e *absint.Event, A, D, at *absint.Term) (next *absint.Term, bad []string) {
	t, d, n, pg, sz, prot := e.Args[0], e.Args[1], e.Args[2], e.Args[3], e.Args[4], e.Args[5]
	size := absint.PageSize()
	one := absint.Int(1)
	if !l.same(st, t, at) {
		bad = append(bad, fmt.Sprintf("writes at %s where the next byte to write is at %s", t, at))
	}
	if !l.same(st, absint.Sub(d, absint.SlicePtr(D)), absint.Sub(t, A)) {
		bad = append(bad, fmt.Sprintf("the bytes written at %s are taken from %s, not from as far into the data", t, d))
	}
	if !l.proves(st, absint.Sub(n, one)) {
		bad = append(bad, "may write no bytes at all with an address that is not part of the range")
	}
	if absint.PageOf(pg) != pg {
		bad = append(bad, fmt.Sprintf("the address whose protection is changed, %s, is not that of a page", pg))
	}
	if absint.PageOf(sz) != sz {
		bad = append(bad, fmt.Sprintf("the size of what has its protection changed, %s, is not that of whole pages", sz))
	}
	end := absint.Add(t, n)
	pend := absint.Add(pg, sz)
	if !l.proves(st, absint.Sub(t, pg)) || !l.proves(st, absint.Sub(pend, end)) {
		bad = append(bad, fmt.Sprintf("the bytes %s up to %s need not lie in the pages made writable (%s, %s bytes)", t, end, pg, sz))
	}
	if !l.proves(st, absint.Sub(absint.Sub(absint.Add(pg, size), t), one)) || !l.proves(st, absint.Sub(absint.Sub(end, absint.Sub(pend, size)), one)) {
		bad = append(bad, fmt.Sprintf("the protection of a page that is not written to may be changed (%s, %s bytes)", pg, sz))
	}
	if v, ok := prot.IsInt(); !ok || v != 5 {
		bad = append(bad, fmt.Sprintf("the pages written to are left with protection %s and not readable and executable", prot))
	}
	return end, bad
}

// covers checks that a way through a writer that succeeds writes exactly the data D to A.
func (l *low) covers(res *absint.Result, A, D *absint.Term) (bad []string, writes int) {
	// the positions of writing: in straight line code one after the other, for a loop
	// that of the first write of every way through an iteration
	evs := res.St.Events()
	end := absint.Add(A, absint.Len(D))
	starts := make([]*absint.Term, len(evs)+1) // where what follows starts to write
	starts[len(evs)] = end
	for i := len(evs) - 1; i >= 0; i-- {
		starts[i] = starts[i+1]
		if l.isWrite(evs[i]) {
			starts[i] = evs[i].Args[0]
		}
	}
	at := A
	st := res.St
	for i, e := range evs {
		if l.isWrite(e) {
			var b []string
			at, b = l.oneWrite(st, e, A, D, at)
			bad = append(bad, b...)
			writes++
			continue
		}
		if e.Loop == nil {
			continue
		}
		w := l.loop(e, res)
		n, nested := w.writes()
		if n == 0 {
			continue
		}
		writes += n
		if nested {
			return append(bad, "undecided: code is written in nested loops"), writes
		}
		first := make([]*absint.Term, len(e.Loop.Conts))
		for j, c := range e.Loop.Conts {
			for _, x := range c.Events {
				if l.isWrite(x) {
					first[j] = x.Args[0]
					break
				}
			}
			if first[j] == nil {
				return append(bad, "undecided: some iterations write and others do not"), writes
			}
		}
		w.invariants(l, A, D, first)
		for j := range e.Loop.Conts {
			if s := w.enter(j); s != nil {
				if c0 := absint.SubstMap(first[j], w.init); !l.same(s, c0, at) {
					bad = append(bad, fmt.Sprintf("the first write of the loop is at %s where the next byte to write is at %s", c0, at))
				}
			}
		}
		for j, c := range e.Loop.Conts {
			s := w.at(j)
			pos := first[j]
			for _, x := range c.Events {
				if l.isWrite(x) {
					var b []string
					pos, b = l.oneWrite(s, x, A, D, pos)
					bad = append(bad, b...)
				}
			}
			for k := range e.Loop.Conts {
				if s := w.step(j, k); s != nil {
					if nx := absint.SubstMap(first[k], w.next[j]); !l.same(s, pos, nx) {
						bad = append(bad, fmt.Sprintf("an iteration writes up to %s, the next one from %s", pos, nx))
					}
				}
			}
			if s := w.exit(j); s != nil {
				if nx := w.after(j, starts[i+1]); !l.same(s, pos, nx) {
					bad = append(bad, fmt.Sprintf("the last iteration writes up to %s, what follows the loop from %s", pos, nx))
				}
			}
		}
		if s := w.skip(); s != nil {
			if nx := w.after(-1, starts[i+1]); !l.same(s, at, nx) {
				bad = append(bad, fmt.Sprintf("without an iteration of the loop, %s is to be written next but %s is", at, nx))
			}
		}
		at = starts[i+1]
		st = w.exitState()
	}
	if !l.same(st, at, end) {
		bad = append(bad, fmt.Sprintf("writes up to %s and not up to the end of the data, %s", at, end))
	}
	return bad, writes
}

// loopWays are the ways into, round and out of a loop on one way through a function.
type loopWays struct {
	l     *low
	rec   *absint.LoopRec
	res   *absint.Result
	nl    int // facts known before the loop
	init  map[*absint.Term]*absint.Term
	next  []map[*absint.Term]*absint.Term
	inv   []*absint.Term // zero or more at the start of every iteration
	kap   *absint.Term
	cands []*absint.Term
}

func (l *low) loop(e *absint.Event, res *absint.Result) *loopWays {
	rec := e.Loop
	w := &loopWays{l: l, rec: rec, res: res, nl: e.Lits, kap: rec.Kappa}
	w.init = map[*absint.Term]*absint.Term{w.kap: absint.Int(0)}
	for _, b := range rec.Binds {
		if b.Val.Op == "sym" {
			w.init[b.Val] = b.Init
		}
	}
	for _, c := range rec.Conts {
		m := map[*absint.Term]*absint.Term{w.kap: absint.Add(w.kap, absint.Int(1))}
		for i, b := range rec.Binds {
			if b.Val.Op == "sym" && i < len(c.Next) && c.Next[i] != nil {
				m[b.Val] = c.Next[i]
			}
		}
		w.next = append(w.next, m)
	}
	return w
}

func (w *loopWays) writes() (n int, nested bool) {
	for _, c := range w.rec.Conts {
		for _, x := range flat(c.Events) {
			if w.l.isWrite(x) {
				n++
			}
		}
		for _, x := range c.Events {
			if x.Loop != nil {
				for _, y := range flat([]*absint.Event{x}) {
					if w.l.isWrite(y) {
						nested = true
					}
				}
			}
		}
	}
	return
}

// with adds facts, rewritten, to a state; nil: they contradict it.
func (w *loopWays) with(s *absint.State, lits []absint.Lit, m map[*absint.Term]*absint.Term) *absint.State {
	s = s.Clone()
	for _, li := range lits {
		if !s.Assume(absint.SubstMap(li.T, m), li.Pos) {
			return nil
		}
	}
	if w.l.proves(s, absint.Int(-1)) {
		return nil
	}
	return s
}

func (w *loopWays) enter(j int) *absint.State {
	return w.with(w.rec.Entry, w.rec.Conts[j].Lits, w.init)
}

// at is the state of an iteration, invariants included.
func (w *loopWays) at(j int) *absint.State {
	s := w.rec.Conts[j].St.Clone()
	for _, g := range w.inv {
		s.Assume(absint.Ge0(g), true)
	}
	return s
}

func (w *loopWays) step(i, j int) *absint.State {
	return w.with(w.at(i), w.rec.Conts[j].Lits, w.next[i])
}

// exits are the facts of leaving the loop and of what follows.
func (w *loopWays) exits() []absint.Lit {
	ls := w.res.St.Lits()
	if w.nl < len(ls) {
		return ls[w.nl:]
	}
	return nil
}

// last maps what holds at the end of iteration i (-1: no iteration) to the names used after the loop.
func (w *loopWays) last(i int) map[*absint.Term]*absint.Term {
	m := w.init
	if i >= 0 {
		m = w.next[i]
	}
	c := w.rec.Count
	if c == nil || c == w.kap {
		return m
	}
	out := map[*absint.Term]*absint.Term{}
	for k, v := range m {
		if k != w.kap {
			out[absint.Subst(k, w.kap, c)] = v
		}
	}
	return out
}

func (w *loopWays) leave(i int, s *absint.State) *absint.State {
	m := w.last(i)
	if c := w.rec.Count; c != nil && c != w.kap {
		n := absint.Int(0)
		if i >= 0 {
			n = absint.Add(w.kap, absint.Int(1))
		}
		s = s.Clone()
		if !s.Assume(absint.Eq(c, n, true), true) {
			return nil
		}
	}
	return w.with(s, w.exits(), m)
}

func (w *loopWays) exit(i int) *absint.State { return w.leave(i, w.at(i)) }
func (w *loopWays) skip() *absint.State      { return w.leave(-1, w.rec.Entry) }

// after renames a term of what follows the loop to names at the end of iteration i.
func (w *loopWays) after(i int, t *absint.Term) *absint.Term { return absint.SubstMap(t, w.last(i)) }

// exitState is the state after the loop with the invariants that hold whichever way it was left.
func (w *loopWays) exitState() *absint.State {
	s := w.res.St.Clone()
	for _, g := range w.cands {
		ok := true
		if x := w.skip(); x != nil && !w.l.proves(x, w.after(-1, w.out(g))) {
			ok = false
		}
		for i := range w.rec.Conts {
			if x := w.exit(i); ok && x != nil && !w.l.proves(x, w.after(i, w.out(g))) {
				ok = false
			}
		}
		if ok {
			s.Assume(absint.Ge0(w.out(g)), true)
		}
	}
	return s
}

// out gives a term over the values in the loop the names used after it.
func (w *loopWays) out(t *absint.Term) *absint.Term {
	if c := w.rec.Count; c != nil && c != w.kap {
		return absint.Subst(t, w.kap, c)
	}
	return t
}

var debugInv = os.Getenv("DEBUGINV") != ""

// invariants finds facts that hold at the start of every iteration that goes round again.
func (w *loopWays) invariants(l *low, A, D *absint.Term, first []*absint.Term) {
	end := absint.Add(A, absint.Len(D))
	var cand []*absint.Term
	add := func(g *absint.Term) { cand = append(cand, g) }
	eq := func(a, b *absint.Term) { add(absint.Sub(a, b)); add(absint.Sub(b, a)) }
	for _, c := range first {
		add(absint.Sub(c, A))
		add(absint.Sub(end, c))
	}
	var addrs, ints, slices []*absint.Binding
	for _, b := range w.rec.Binds {
		if b.Val.Op != "sym" || b.Phi == nil {
			continue
		}
		switch u := b.Phi.Type().Underlying().(type) {
		case *types.Basic:
			if u.Kind() == types.Uintptr {
				addrs = append(addrs, b)
			} else if u.Info()&types.IsInteger != 0 {
				ints = append(ints, b)
			}
		case *types.Slice:
			slices = append(slices, b)
		}
	}
	for _, b := range addrs {
		add(absint.Sub(b.Val, b.Init))
		add(absint.Sub(end, b.Val))
		eq(absint.PageOf(b.Val), b.Val)
		for _, v := range slices {
			eq(absint.Sub(absint.SlicePtr(v.Val), absint.SlicePtr(D)), absint.Sub(b.Val, A))
			eq(absint.Len(v.Val), absint.Sub(end, b.Val))
		}
		for _, v := range ints {
			eq(absint.Sub(b.Val, A), v.Val)
		}
	}
	for _, b := range ints {
		add(b.Val)
		for _, v := range slices {
			eq(absint.Sub(absint.SlicePtr(v.Val), absint.SlicePtr(D)), b.Val)
			eq(absint.Len(v.Val), absint.Sub(absint.Len(D), b.Val))
		}
	}
	w.cands = cand
	w.inv = cand
	for changed := true; changed; {
		changed = false
		var keep []*absint.Term
		for _, g := range w.inv {
			ok := true
			for j := range w.rec.Conts {
				if s := w.enter(j); s != nil && !l.proves(s, absint.SubstMap(g, w.init)) {
					ok = false
				}
			}
			for i := range w.rec.Conts {
				for j := range w.rec.Conts {
					if s := w.step(i, j); ok && s != nil && !l.proves(s, absint.SubstMap(g, w.next[i])) {
						ok = false
					}
				}
			}
			if ok {
				keep = append(keep, g)
			} else {
				if debugInv {
					fmt.Println("DROP", g)
				}
				changed = true
			}
		}
		w.inv = keep
	}
}

// rangeParams are the address and the data among the parameters of a writer.
func rangeParams(f *ssa.Function) (A, D *absint.Term) {
	for i, p := range f.Params {
		t := Params(f)[i]
		switch u := p.Type().Underlying().(type) {
		case *types.Basic:
			if u.Kind() == types.Uintptr && A == nil {
				A = t
			}
		case *types.Slice:
			if D == nil && types.Identical(u.Elem(), types.Typ[types.Byte]) {
				D = t
			}
		}
	}
	return
}

// failed: the way ends by telling the caller that it failed.
func failed(f *ssa.Function, r *absint.Result) bool {
	if r.Kind != absint.XReturn {
		return true
	}
	for i, v := range r.Vals {
		if types.Identical(f.Signature.Results().At(i).Type(), types.Universe.Lookup("error").Type()) && r.St.Eval(absint.Eq(v, absint.Nil, false)) == -1 {
			return true
		}
	}
	return false
}

func init() {
	rule("write", "writing code changes the bytes of the range, all of them and nothing else, page by page, and leaves every page executable", 3, ruleWrite)
	rule("write-failure", "a write that fails is noticed and reported, and nothing is written after it", 1, ruleWriteFailure)
	rule("world", "code is written between one stop of the world and the matching restart, with nothing in between that may block, print or panic", 4, ruleWorld)
	decides("C03", "write")
	decides("C04", "world")
	decides("C28", "write-failure")
}

func (l *low) paths(f *ssa.Function) (*absint.Interp, []*absint.Result) {
	in := l.interp()
	st := absint.NewState()
	if _, D := rangeParams(f); D != nil {
		st.Assume(absint.Ge0(absint.Sub(absint.Len(D), absint.Int(1))), true) // there is something to write
	}
	return in, in.Call(st, f, Params(f), nil, "R")
}

func ruleWrite(c *Ctx, r *Report) {
	for _, cfg := range writeConfigs {
		r.Config = cfg.String()
		c.writeOn(cfg, r)
	}
	r.Config = ""
}

// writeConfigs are the configurations whose ways of writing code are checked.
var writeConfigs = []load.Config{Linux, {GOOS: "darwin", GOARCH: "arm64"}}

func (c *Ctx) writeOn(cfg load.Config, r *Report) {
	l := c.Low(cfg)
	for _, f := range l.writers {
		A, D := rangeParams(f)
		key := fnKey(f)
		need(A != nil && D != nil, "%s takes an address and bytes", key)
		in, rs := l.paths(f)
		if r.Problems(in, key) {
			continue
		}
		ok := 0
		for _, p := range rs {
			r.Paths++
			if failed(f, p) {
				continue
			}
			ok++
			bad, n := l.covers(p, A, D)
			for i := 0; i < n+1; i++ {
				r.Ob(fmt.Sprintf("write %d on a way through %s", i, key))
			}
			for _, b := range bad {
				r.Bad(key, l.m.P.Pos(f.Pos()), b, describe(l.m.P, p)...)
			}
			for _, e := range p.St.Events() {
				if l.otherEffect(e) {
					r.Bad(key, l.m.P.Pos(e.Pos), "has another effect: "+e.String())
				}
			}
		}
		if ok == 0 {
			r.Bad(key, l.m.P.Pos(f.Pos()), "never succeeds")
		}
	}
}

// otherEffect: an event of a writer that changes memory of others.
func (l *low) otherEffect(e *absint.Event) bool {
	switch e.Kind {
	case absint.EvStore:
		return !localAddr(e.Args[0])
	case absint.EvRSet, absint.EvAppend:
		return true
	case absint.EvCopy:
		return !localAddr(e.Args[0])
	}
	return false
}

func ruleWriteFailure(c *Ctx, r *Report) {
	l := c.Low(Linux)
	for _, f := range l.writers {
		key := fnKey(f)
		_, rs := l.paths(f)
		for _, p := range rs {
			r.Paths++
			evs := p.St.Events()
			for i, e := range evs {
				if !l.isWrite(e) {
					continue
				}
				r.Ob("outcome of a write in " + key)
				if p.St.Eval(absint.Eq(e.Res[0], absint.Int(0), true)) == 1 {
					continue
				}
				if !failed(f, p) {
					r.Bad(key, l.m.P.Pos(e.Pos), "a write may fail without the caller learning of it", describe(l.m.P, p)...)
				}
				for _, x := range evs[i+1:] {
					for _, y := range flat([]*absint.Event{x}) {
						if l.isWrite(y) {
							r.Bad(key, l.m.P.Pos(y.Pos), "writes on although a write failed", describe(l.m.P, p)...)
						}
					}
				}
			}
			for _, e := range evs {
				if e.Loop == nil {
					continue
				}
				w := l.loop(e, p)
				for i, it := range e.Loop.Conts {
					for n, x := range it.Events {
						if !l.isWrite(x) {
							continue
						}
						r.Ob("outcome of a write in " + key)
						ok := absint.Eq(x.Res[0], absint.Int(0), true)
						for _, y := range it.Events[n+1:] {
							if l.isWrite(y) && it.St.Eval(ok) != 1 {
								r.Bad(key, l.m.P.Pos(y.Pos), "writes on although a write may have failed")
							}
						}
						for j := range e.Loop.Conts {
							if s := w.step(i, j); s != nil && s.Eval(ok) != 1 {
								r.Bad(key, l.m.P.Pos(x.Pos), "goes on although a write may have failed")
							}
						}
						if s := w.exit(i); s != nil && s.Eval(ok) != 1 && !failed(f, p) {
							r.Bad(key, l.m.P.Pos(x.Pos), "a write may fail without the caller learning of it", describe(l.m.P, p)...)
						}
					}
				}
			}
		}
	}
}

// harmless calls while the world is stopped: they compute a value.
var harmless = map[string]bool{"fmt.Errorf": true, "errors.New": true}

func ruleWorld(c *Ctx, r *Report) {
	cfgs := []load.Config{LinuxSTW, Linux}
	for _, n := range []int{18, 19, 20, 21, 22} {
		if c.Thorough || n >= 20 {
			cfgs = append(cfgs, load.Config{GOOS: "linux", GOARCH: "amd64", Release: n})
		}
	}
	if c.Thorough {
		cfgs = append(cfgs, releases("linux", "amd64", "mockey_stw")...)
		cfgs = append(cfgs, releases("linux", "arm64", "mockey_stw")...)
	}
	for _, cfg := range cfgs {
		r.Config = cfg.String()
		l := c.Low(cfg)
		stops := cfg.Tags != "" || cfg.Release != 0 && cfg.Release < 23
		if stops {
			need(len(l.stop) > 0 && len(l.start) > 0, "no function is linked to the runtime's stopTheWorld and startTheWorld in %s", cfg)
		}
		for _, f := range l.writers {
			key := fnKey(f)
			in, rs := l.paths(f)
			if r.Problems(in, key) {
				continue
			}
			for _, p := range rs {
				r.Paths++
				r.Ob("way through " + key)
				for _, b := range l.worldPath(f, p, stops) {
					r.Bad(key, b.pos, b.msg, describe(l.m.P, p)...)
				}
			}
		}
		// nothing else writes code
		for g := range l.m.allFuncs() {
			for _, h := range callees(g) {
				if h == l.write {
					r.Ob("call of mem.write in " + fnKey(g))
				}
			}
		}
	}
	r.Config = ""
}

type worldBad struct{ pos, msg string }

func (l *low) worldPath(f *ssa.Function, p *absint.Result, stops bool) (bad []worldBad) {
	var token *absint.Term
	stopped, gc, n, writes := false, false, 0, 0
	say := func(e *absint.Event, format string, a ...interface{}) {
		bad = append(bad, worldBad{l.m.P.Pos(e.Pos), fmt.Sprintf(format, a...)})
	}
	var last *absint.Event
	var walk func(evs []*absint.Event, loop bool)
	walk = func(evs []*absint.Event, loop bool) {
		for _, e := range evs {
			last = e
			switch {
			case e.Kind == absint.EvCall && l.stop[e.Name]:
				if loop {
					say(e, "stops the world in a loop")
				}
				if stopped {
					say(e, "stops the world while it is stopped")
				}
				if n > 0 {
					say(e, "stops the world a second time for one piece of code")
				}
				stopped = true
				n++
				token = nil
				gc = l.gc[e.Name]
				if len(e.Res) > 0 {
					token = e.Res[0]
				}
			case e.Kind == absint.EvCall && l.start[e.Name]:
				if loop {
					say(e, "restarts the world in a loop")
				}
				if !stopped {
					say(e, "restarts the world while it runs")
				}
				if l.gc[e.Name] != gc {
					say(e, "stops the world and restarts it with functions that do not belong together")
				}
				if len(e.Args) > 0 && e.Args[0] != token {
					say(e, "restarts the world with %s and not with what stopping it gave", e.Args[0])
				}
				stopped = false
			case l.isWrite(e):
				writes++
				if stops && !stopped {
					say(e, "changes code while the world is running")
				}
			case e.Loop != nil:
				for _, it := range e.Loop.Conts {
					walk(it.Events, true)
				}
			case !stopped:
			case e.Kind == absint.EvStore && localAddr(e.Args[0]):
			case e.Kind == absint.EvCopy && localAddr(e.Args[0]):
			case e.Kind == absint.EvCall && harmless[e.Name]:
			case e.Kind == absint.EvPanic:
				say(e, "panics while the world is stopped")
			case e.Kind == absint.EvIntr && e.Name == "print":
				say(e, "prints while the world is stopped")
			default:
				say(e, "does something that may block, print or start a goroutine while the world is stopped: %s", e)
			}
		}
	}
	walk(p.St.Events(), false)
	if stopped {
		pos := l.m.P.Pos(f.Pos())
		if last != nil {
			pos = l.m.P.Pos(last.Pos)
		}
		bad = append(bad, worldBad{pos, "ends with the world stopped"})
	}
	if !stops && n > 0 {
		bad = append(bad, worldBad{l.m.P.Pos(f.Pos()), "stops the world although that is disabled"})
	}
	return bad
}
