package absint

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loopT is a natural loop.
type loopT struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loopT
}

func (in *Interp) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := in.loops[fn]; ok {
		return li
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loopT{}}
	in.loops[fn] = li
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := li.byHeader[s]
			if l == nil {
				l = &loopT{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				li.byHeader[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	// irreducible flow: a retreating edge whose target does not dominate its source
	if in.irreducible(fn, li) {
		in.problem("%s: irreducible control flow", fn)
	}
	return li
}

func (in *Interp) irreducible(fn *ssa.Function, li *loopInfo) bool {
	color := map[*ssa.BasicBlock]int{}
	bad := false
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		color[b] = 1
		for _, s := range b.Succs {
			switch color[s] {
			case 0:
				dfs(s)
			case 1:
				if !s.Dominates(b) {
					bad = true
				}
			}
		}
		color[b] = 2
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	return bad
}

// multi is a simultaneous substitution.
type multi struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
}

// SubstMap replaces terms simultaneously.
func SubstMap(t *Term, m map[*Term]*Term) *Term {
	return (&multi{m, map[*Term]*Term{}}).do(t)
}

func (s *multi) do(t *Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := s.m[t]; ok {
		return r
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	r := t
	if c, ok := t.Val.(*Comp); ok && t.Op == "comp" {
		n := s.do(c.N)
		var alts []Alt
		for _, a := range c.Alts {
			var gs []Lit
			for _, g := range a.Guards {
				x := s.do(g.T)
				if x.Op == "not" {
					gs = append(gs, Lit{x.Args[0], !g.Pos})
				} else {
					gs = append(gs, Lit{x, g.Pos})
				}
			}
			alts = append(alts, Alt{gs, s.do(a.Val)})
		}
		r = mkComp(alts, n)
	} else if len(t.Args) > 0 {
		ch := false
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = s.do(a)
			if args[i] != a {
				ch = true
			}
		}
		if ch {
			r = mk(t.Op, t.Aux, t.Val, args...)
		}
	}
	s.memo[t] = r
	return r
}

// inComp reports that x occurs inside the alternatives of a comprehension in t.
func inComp(t, x *Term) bool {
	bad := false
	Walk(t, func(u *Term) {
		if c, ok := u.Val.(*Comp); ok && u.Op == "comp" {
			for _, a := range c.Alts {
				if Contains(a.Val, x) {
					bad = true
				}
				for _, g := range a.Guards {
					if Contains(g.T, x) {
						bad = true
					}
				}
			}
		}
	})
	return bad
}

type loopRun struct {
	in      *Interp
	fr      *frame
	entry   *State
	loop    *loopT
	kap     *Term
	binds   []*Binding
	byCell  map[*Term]*Binding
	banned  map[*Term]bool // binding symbol: forms that proved wrong
	qents   []*qent
	invs    []*Term // linear terms >= 0 at the head of every iteration
	calls   bool    // unknown code is called in the loop
	anyIter *Term
	again   bool // a flag proved not to be one
}

const (
	bUnknown = ""
	bInv     = "invariant"
	bInd     = "induction"
	bComp    = "append"
	bAdv     = "advance"
	bRel     = "relation"
	bFlag    = "flag" // the loop ends when it changes
	bOpaque  = "opaque"
)

func (in *Interp) execLoop(fr *frame, st *State, loop *loopT, prev *ssa.BasicBlock) []*Result {
	name := fr.path + "/L" + fr.fn.Name() + ":" + strconv.Itoa(loop.header.Index)
	lr := &loopRun{in: in, fr: fr, entry: st, loop: loop, byCell: map[*Term]*Binding{}, banned: map[*Term]bool{}}
	lr.kap = raw("kap", name, nil, fr.iters...)
	lr.anyIter = raw("sym", "anyiter:"+name, nil, fr.iters...)
	idx := -1
	for i, p := range loop.header.Preds {
		if p == prev {
			idx = i
		}
	}
	for _, i := range loop.header.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		b := &Binding{Phi: p, num: isInt(p.Type())}
		if idx >= 0 {
			b.Init = in.val(fr, p.Edges[idx])
		} else {
			// the entry block is the header
			b.Init = in.fresh("phi")
		}
		b.sym = raw("sym", "φ:"+name+":"+p.Name(), p.Type(), append([]*Term{lr.kap}, fr.iters...)...)
		b.Val = b.sym
		lr.binds = append(lr.binds, b)
	}
	if rs, ok := lr.unroll(); ok {
		return rs
	}
	mark := in.freshN
	var rs []*Result
	var st0 *State
	stable := false
	for round := 0; round < 12; round++ {
		in.freshN = mark
		lr.again = false
		st0, rs = lr.round()
		if lr.again {
			continue
		}
		if lr.refine(st0, rs) {
			stable = true
			break
		}
	}
	if !stable {
		in.problem("%s: loop at %s not summarised", fr.fn, in.Fset.Position(loop.header.Instrs[0].Pos()))
		return []*Result{{St: st, Kind: XUndecided, fr: fr}}
	}
	return lr.finish(st0, rs)
}

// unroll runs a loop over a constant, small number of iterations one by one.
func (lr *loopRun) unroll() ([]*Result, bool) {
	most := int64(4)
	h := lr.loop.header
	if lr.in.Concrete {
		return lr.follow(h, 10)
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil, false
	}
	// constant: the value at the first test, and whether it changes in the loop
	var first func(v ssa.Value) (n int64, varies, ok bool)
	first = func(v ssa.Value) (int64, bool, bool) {
		if i, isI := v.(ssa.Instruction); isI && lr.loop.blocks[i.Block()] {
			switch x := v.(type) {
			case *ssa.Phi:
				for _, b := range lr.binds {
					if b.Phi == x && b.num {
						n, ok := b.Init.IsInt()
						return n, true, ok
					}
				}
			case *ssa.BinOp:
				if c, isC := x.Y.(*ssa.Const); isC && x.Op == token.ADD && c.Value != nil {
					n, vr, ok := first(x.X)
					k, okc := ConstTerm(c).IsInt()
					return n + k, vr, ok && okc
				}
			}
			return 0, false, false
		}
		if !isInt(v.Type()) {
			return 0, false, false
		}
		n, ok := lr.in.val(lr.fr, v).IsInt()
		return n, false, ok
	}
	x, vx, ok1 := first(cmp.X)
	y, vy, ok2 := first(cmp.Y)
	if !ok1 || !ok2 || vx == vy {
		return nil, false
	}
	if d := x - y; d > most || d < -most {
		return nil, false
	}
	return lr.follow(h, most)
}

// follow runs the loop iteration by iteration; it gives up when some path does not
// leave the loop soon enough.
func (lr *loopRun) follow(h *ssa.BasicBlock, most int64) ([]*Result, bool) {
	in := lr.in
	probs := map[string]bool{}
	for p := range in.Problems {
		probs[p] = true
	}
	giveUp := func() ([]*Result, bool) {
		for p := range in.Problems {
			if !probs[p] {
				delete(in.Problems, p)
			}
		}
		return nil, false
	}
	type at struct {
		fr *frame
		st *State
	}
	base := lr.fr.iters
	fr := lr.fr.clone()
	for _, b := range lr.binds {
		fr.env[b.Phi] = b.Init
	}
	todo := []at{{fr, lr.entry.Clone()}}
	var out []*Result
	for i := 0; len(todo) > 0; i++ {
		if int64(i) > most+1 {
			return giveUp()
		}
		var next []at
		for _, a := range todo {
			a.fr.iters = append(base[:len(base):len(base)], Int(int64(i)))
			for _, r := range in.runBlocks(a.fr, a.st, h, nil, lr.loop) {
				if r.Kind != xContinue {
					if r.fr != nil {
						r.fr.iters = base
					}
					out = append(out, r)
					continue
				}
				f2 := r.fr.clone()
				for _, b := range lr.binds {
					f2.env[b.Phi] = lr.next(b, r)
				}
				next = append(next, at{f2, r.St})
			}
		}
		todo = next
		if len(todo) > 64 || len(in.Problems) > len(probs) {
			return giveUp()
		}
	}
	return out, true
}

// round analyses one generic iteration.
func (lr *loopRun) round() (*State, []*Result) {
	in := lr.in
	st0 := lr.entry.Clone()
	st0.events = nil
	st0.qents = append(st0.qents, lr.qents...)
	fr := lr.fr.clone()
	fr.iters = append(fr.iters, lr.kap)
	if lr.calls {
		st0.epoch++
		st0.epochIters = append(st0.epochIters[:len(st0.epochIters):len(st0.epochIters)], lr.kap)
	}
	for _, q := range lr.qents {
		st0.stores = append(st0.stores, Subst(q.addr, BV, lr.anyIter))
	}
	for _, b := range lr.binds {
		if b.Phi != nil {
			fr.env[b.Phi] = b.Val
		} else {
			for k := range st0.cells {
				if hasPrefix(k, b.Cell) {
					delete(st0.cells, k)
				}
			}
			st0.cells[b.Cell] = b.Val
			st0.stores = append(st0.stores, b.Cell)
		}
		if b.owned {
			st0.cells[ownKey(b.Val)] = True
		}
	}
	for _, t := range lr.invs {
		if _, ok := t.IsInt(); !ok {
			st0.ge = append(st0.ge, t)
		}
	}
	in.iterStack = append(in.iterStack, lr.kap)
	base := st0.Clone()
	rs := in.runBlocks(fr, st0, lr.loop.header, nil, lr.loop)
	for _, b := range lr.binds {
		if b.Kind == bFlag {
			rs = lr.split(b, rs)
		}
	}
	in.iterStack = in.iterStack[:len(in.iterStack)-1]
	return base, rs
}

// split follows the iterations that change a flag into the head of the next one, which
// has to leave the loop; the others leave it as it was.
func (lr *loopRun) split(b *Binding, rs []*Result) []*Result {
	in := lr.in
	var out []*Result
	for _, r := range rs {
		if r.Kind != xContinue {
			out = append(out, r)
			continue
		}
		same := Eq(lr.nextRaw(b, r), b.Init, b.num)
		if s := r.St.Clone(); s.Assume(same, false) {
			fr := r.fr.clone()
			fr.iters = append([]*Term(nil), fr.iters...)
			fr.iters[len(fr.iters)-1] = Add(lr.kap, Int(1))
			in.setPhis(fr, lr.loop.header, r.prev)
			switch b.Init {
			case True:
				fr.env[b.Phi] = False
			case False:
				fr.env[b.Phi] = True
			}
			for _, x := range in.runBlocks(fr, s, lr.loop.header, nil, lr.loop) {
				if x.Kind == xContinue || x.Kind == XUndecided {
					b.Kind, b.Val = bOpaque, b.sym
					lr.again = true
					return rs
				}
				out = append(out, x)
			}
		}
		if r.St.Assume(same, true) {
			out = append(out, r)
		}
	}
	return out
}

func (lr *loopRun) next(b *Binding, r *Result) *Term {
	if b.Kind == bFlag {
		return b.Init
	}
	return lr.nextRaw(b, r)
}

func (lr *loopRun) nextRaw(b *Binding, r *Result) *Term {
	if b.Phi != nil {
		for i, p := range lr.loop.header.Preds {
			if p == r.prev {
				return lr.in.val(r.fr, b.Phi.Edges[i])
			}
		}
		return lr.in.fresh("phi")
	}
	return lr.in.loadNoFork(r.St, b.Cell, pointee(b.Cell))
}

// refine learns from a round; it reports that nothing new was learned.
func (lr *loopRun) refine(st0 *State, rs []*Result) bool {
	in := lr.in
	var conts []*Result
	for _, r := range rs {
		if r.Kind == xContinue {
			conts = append(conts, r)
		}
	}
	changed := false
	// heap cells carried round the loop
	written := map[*Term]bool{}
	for _, r := range conts {
		if r.St.epoch != st0.epoch && !lr.calls {
			lr.calls = true
			changed = true
		}
		if len(r.St.locks) != len(st0.locks) {
			in.problem("%s: lock held across iterations", lr.fr.fn)
		}
		for k, v := range r.St.cells {
			if k.Op == "own" || st0.cells[k] == v {
				continue
			}
			if v.Op == "sym" && strings.HasPrefix(v.Aux, "?aliased") {
				continue
			}
			written[k] = true
		}
		for k := range st0.cells {
			if k.Op == "own" {
				continue
			}
			if _, ok := r.St.cells[k]; !ok {
				written[k] = true
			}
		}
	}
	var keys []*Term
	for k := range written {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].ID < keys[j].ID })
	var perIter []*Term
	for _, k := range keys {
		dep := Contains(k, lr.kap)
		if dep {
			perIter = append(perIter, k)
			continue
		}
		if lr.byCell[k] != nil {
			continue
		}
		inner := false
		for p := k; p.Op == "fa" || p.Op == "ia"; {
			p = p.Args[0]
			if lr.byCell[p] != nil {
				inner = true
			}
		}
		if inner {
			continue
		}
		b := &Binding{Cell: k, num: pointee(k) != nil && isInt(pointee(k))}
		if v, ok := lr.entry.cells[k]; ok {
			b.Init = v
		} else {
			b.Init = in.loadNoFork(lr.entry.Clone(), k, pointee(k))
		}
		b.sym = raw("sym", "cell:"+lr.kap.Aux+":"+strconv.Itoa(k.ID), nil, append([]*Term{lr.kap}, lr.fr.iters...)...)
		b.Val = b.sym
		lr.byCell[k] = b
		lr.binds = append(lr.binds, b)
		changed = true
	}
	if changed {
		return false
	}
	// forms of the bindings
	nexts := map[*Binding][]*Term{}
	for _, b := range lr.binds {
		for _, r := range conts {
			nexts[b] = append(nexts[b], lr.next(b, r))
		}
	}
	k1 := map[*Term]*Term{lr.kap: Add(lr.kap, Int(1))}
	// invariants and inductions first: the other forms are in terms of them
	for _, b := range lr.binds {
		if b.Kind != bUnknown {
			continue
		}
		ns := nexts[b]
		switch {
		case all(ns, func(i int, n *Term) bool { return n == b.Val }):
			b.Kind, b.Val = bInv, b.Init
			changed = true
		case b.num && constStep(ns, b.Val) != nil:
			c := constStep(ns, b.Val)
			n, _ := c.IsInt()
			b.Kind, b.Val = bInd, Add(b.Init, MulC(lr.kap, n))
			b.step = n
			changed = true
		}
	}
	if changed {
		return false
	}
	for _, b := range lr.binds {
		ns := nexts[b]
		if b.Kind != bUnknown && b.Kind != bOpaque {
			// verify
			ok := true
			for i, n := range ns {
				want := lr.after(b, conts[i], k1, nexts, i)
				if want == nil || want != n && !(b.num && conts[i].St.EqualInts(want, n)) {
					ok = false
				}
			}
			if !ok {
				b.Kind, b.Val = bOpaque, b.sym
				b.alts = nil
				changed = true
			}
			continue
		}
		if b.Kind == bOpaque {
			continue
		}
		// recognise
		{
			if alts, ok := lr.appendAlts(st0, b, conts, ns); ok {
				b.Kind = bComp
				b.alts = alts
				b.Val = Cat(in.Contents(lr.entry, b.Init), mkComp(alts, lr.kap))
				changed = true
				continue
			}
			if all(ns, func(i int, n *Term) bool {
				return n.Op == "sub" && n.Args[0] == b.Val && n.Args[2] == Len(b.Val)
			}) && len(ns) > 0 {
				b.Kind = bAdv
				b.off = raw("sym", "off:"+b.sym.Aux, nil, b.sym.Args...)
				b.Val = SubSlice(b.Init, b.off, Len(b.Init))
				changed = true
				continue
			}
			if _, c := b.Init.IsInt(); b.Phi != nil && (c || b.Init == Nil || b.Init == True || b.Init == False) && lr.leaves(b) {
				b.Kind, b.Val = bFlag, b.Init
				changed = true
				continue
			}
			b.Kind = bOpaque
			changed = true
		}
	}
	if changed {
		return false
	}
	// advancing slices: their offset is a number of its own
	for _, b := range lr.binds {
		if b.Kind != bAdv || b.offDone {
			continue
		}
		var ds []*Term
		for _, n := range nexts[b] {
			ds = append(ds, offsetOf(n, b.Init))
		}
		if !all(ds, func(i int, d *Term) bool { return d != nil }) {
			b.Kind, b.Val = bOpaque, b.sym
			return false
		}
		if c := constStep(ds, b.off); c != nil {
			n, _ := c.IsInt()
			b.Val = SubSlice(b.Init, MulC(lr.kap, n), Len(b.Init))
			b.off = MulC(lr.kap, n)
			b.offDone = true
			return false
		}
		// related to another number
		for _, o := range lr.binds {
			if !o.num || o.Kind != bOpaque {
				continue
			}
			for _, sg := range []int64{1, -1} {
				if all(ds, func(i int, d *Term) bool {
					x, y := Sub(d, b.off), MulC(Sub(nexts[o][i], o.Val), sg)
					return x == y || conts[i].St.EqualInts(x, y)
				}) {
					off := MulC(Sub(o.Val, o.Init), sg)
					b.Val = SubSlice(b.Init, off, Len(b.Init))
					b.off = off
					b.offDone = true
					b.rel, b.sign = o, sg
					return false
				}
			}
		}
		b.offDone = true
		b.free = true
	}
	// linear relations between numbers
	for i, b := range lr.binds {
		if !b.num || b.Kind != bOpaque || lr.banned[b.sym] {
			continue
		}
		for j, o := range lr.binds {
			if j >= i || !o.num || o.Kind != bOpaque {
				continue
			}
			for _, sg := range []int64{1, -1} {
				if all(nexts[b], func(k int, n *Term) bool {
					x, y := Sub(n, b.Val), MulC(Sub(nexts[o][k], o.Val), sg)
					return x == y || conts[k].St.EqualInts(x, y)
				}) {
					b.Kind = bRel
					b.rel, b.sign = o, sg
					b.Val = Add(b.Init, MulC(Sub(o.Val, o.Init), sg))
					lr.banned[b.sym] = true
					return false
				}
			}
		}
	}
	// ownership of appended slices: assumed first, then confirmed
	for _, b := range lr.binds {
		if b.num {
			continue
		}
		if !b.ownTried {
			b.ownTried = true
			if b.Kind != bInv && ownedIn(lr.entry, b.Init) {
				b.owned = true
				return false
			}
		}
		if !b.owned {
			continue
		}
		for i, n := range nexts[b] {
			if !ownedIn(conts[i].St, n) {
				b.owned = false
				return false
			}
		}
	}
	// cells written by each iteration
	qs := lr.perIteration(st0, conts, perIter)
	if !sameQ(qs, lr.qents) {
		lr.qents = qs
		return false
	}
	// linear invariants suggested by the branch conditions
	return !lr.invariants(st0, conts, nexts)
}

// leaves: the loop is left, or not, by what the binding is.
func (lr *loopRun) leaves(b *Binding) bool {
	for blk := range lr.loop.blocks {
		i, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok || lr.loop.blocks[blk.Succs[0]] && lr.loop.blocks[blk.Succs[1]] {
			continue
		}
		if i.Cond == ssa.Value(b.Phi) {
			return true
		}
		switch c := i.Cond.(type) {
		case *ssa.UnOp:
			if c.X == ssa.Value(b.Phi) {
				return true
			}
		case *ssa.BinOp:
			_, cx := c.X.(*ssa.Const)
			_, cy := c.Y.(*ssa.Const)
			if cy && c.X == ssa.Value(b.Phi) || cx && c.Y == ssa.Value(b.Phi) {
				return true
			}
		}
	}
	return false
}

func ownedIn(st *State, s *Term) bool {
	if s == Nil || s.Op == "list" && len(s.Args) == 0 {
		return true
	}
	if s.Op == "sliceof" && s.Args[2] == s.Args[3] {
		return true // no spare capacity
	}
	if s.Op == "mkslice" && st.cells[ownKey(s)] == nil {
		return true
	}
	return st.cells[ownKey(s)] == True
}

func all(ts []*Term, f func(int, *Term) bool) bool {
	for i, t := range ts {
		if !f(i, t) {
			return false
		}
	}
	return true
}

func constStep(ns []*Term, v *Term) *Term {
	var c *Term
	for _, n := range ns {
		if n == nil {
			return nil
		}
		d := Sub(n, v)
		if _, ok := d.IsInt(); !ok {
			return nil
		}
		if c != nil && c != d {
			return nil
		}
		c = d
	}
	return c
}

func offsetOf(n, base *Term) *Term {
	if n == base {
		return Int(0)
	}
	if n.Op == "sub" && n.Args[0] == base && n.Args[2] == Len(base) {
		return n.Args[1]
	}
	if base.Op == "sub" && n.Op == "sub" && n.Args[0] == base.Args[0] && n.Args[2] == base.Args[2] {
		return Sub(n.Args[1], base.Args[1])
	}
	return nil
}

// after is the value a binding must have after the iteration.
func (lr *loopRun) after(b *Binding, r *Result, k1 map[*Term]*Term, nexts map[*Binding][]*Term, i int) *Term {
	switch b.Kind {
	case bInv, bFlag:
		return b.Val
	case bInd:
		return Add(b.Val, Int(b.step))
	case bComp:
		// cat(Val, [e]) with e as recorded
		alts, ok := lr.appendAlts(nil, b, []*Result{r}, []*Term{nexts[b][i]})
		if !ok || len(alts) == 0 {
			return nil
		}
		for _, a := range b.alts {
			if a.Val == alts[0].Val {
				return nexts[b][i]
			}
		}
		return nil
	case bAdv:
		if !b.offDone || b.free {
			return nexts[b][i]
		}
		if b.rel != nil {
			return SubSlice(b.Init, MulC(Sub(nexts[b.rel][i], b.rel.Init), b.sign), Len(b.Init))
		}
		return SubSlice(b.Init, SubstMap(b.off, k1), Len(b.Init))
	case bRel:
		return Add(b.Init, MulC(Sub(nexts[b.rel][i], b.rel.Init), b.sign))
	}
	return nil
}

// appendAlts recognises that every iteration appends exactly one element.
func (lr *loopRun) appendAlts(st0 *State, b *Binding, conts []*Result, ns []*Term) ([]Alt, bool) {
	if len(ns) == 0 {
		return nil, false
	}
	var alts []Alt
	for i, n := range ns {
		e := appended(b.Val, n)
		if e == nil || inComp(e, lr.kap) || Contains(e, b.sym) {
			return nil, false
		}
		var gs []Lit
		if st0 != nil {
			for _, l := range conts[i].St.lits[len(st0.lits):] {
				if inComp(l.T, lr.kap) {
					continue
				}
				gs = append(gs, Lit{Subst(l.T, lr.kap, BV), l.Pos})
			}
		}
		alts = append(alts, Alt{gs, Subst(e, lr.kap, BV)})
	}
	return mergeAlts(alts), true
}

// appended: n == v ++ [e]
func appended(v, n *Term) *Term {
	if n.Op == "capped" {
		n = n.Args[0]
	}
	switch n.Op {
	case "cat":
		last := n.Args[len(n.Args)-1]
		if last.Op != "list" {
			return nil
		}
		e := last.Args[len(last.Args)-1]
		rest := append([]*Term(nil), n.Args[:len(n.Args)-1]...)
		if len(last.Args) > 1 {
			rest = append(rest, List(last.Args[:len(last.Args)-1]...))
		}
		if Cat(rest...) == Cat(v) || len(rest) == 1 && rest[0] == v {
			return e
		}
	case "list":
		if len(n.Args) == 1 && (v == Nil || v.Op == "list" && len(v.Args) == 0) {
			return n.Args[0]
		}
	}
	return nil
}

// mergeAlts drops guards all alternatives share and merges complementary ones.
func mergeAlts(alts []Alt) []Alt {
	same := true
	for _, a := range alts {
		if a.Val != alts[0].Val {
			same = false
		}
	}
	if same {
		return []Alt{{nil, alts[0].Val}}
	}
	// guards common to all
	common := func(l Lit) bool {
		for _, a := range alts {
			f := false
			for _, g := range a.Guards {
				if g == l {
					f = true
				}
			}
			if !f {
				return false
			}
		}
		return true
	}
	var out []Alt
	for _, a := range alts {
		var gs []Lit
		for _, g := range a.Guards {
			if !common(g) {
				gs = append(gs, g)
			}
		}
		out = append(out, Alt{gs, a.Val})
	}
	for again := true; again; {
		again = false
	pairs:
		for i := range out {
			for j := range out {
				if i >= j || out[i].Val != out[j].Val || len(out[i].Guards) != len(out[j].Guards) {
					continue
				}
				diff := -1
				ok := true
				for x, g := range out[i].Guards {
					found := false
					for _, h := range out[j].Guards {
						if g == h {
							found = true
						}
					}
					if !found {
						comp := false
						for _, h := range out[j].Guards {
							if g.T == h.T && g.Pos != h.Pos {
								comp = true
							}
						}
						if !comp || diff >= 0 {
							ok = false
							break
						}
						diff = x
					}
				}
				if !ok {
					continue
				}
				gs := append([]Lit(nil), out[i].Guards...)
				if diff >= 0 {
					gs = append(gs[:diff], gs[diff+1:]...)
				}
				out[i] = Alt{gs, out[i].Val}
				out = append(out[:j], out[j+1:]...)
				again = true
				break pairs
			}
		}
	}
	return out
}

// perIteration gives the cells every iteration writes at an address of its own.
func (lr *loopRun) perIteration(st0 *State, conts []*Result, keys []*Term) []*qent {
	var out []*qent
	for _, k := range keys {
		if inComp(k, lr.kap) || k.Op == "region" {
			continue
		}
		q := &qent{addr: Subst(k, lr.kap, BV), bound: lr.kap}
		var alts []Alt
		for _, r := range conts {
			v, ok := r.St.cells[k]
			if !ok {
				// what an iteration allocates is not seen unless it did
				T, _ := k.Val.(types.Type)
				if k.Op != "alloc" || T == nil || !scalar(T) || Subst(k, lr.kap, BV) == k {
					q.absent = true
				}
				continue
			}
			if inComp(v, lr.kap) {
				v = lr.in.fresh("nested")
			}
			var gs []Lit
			for _, l := range r.St.lits[len(st0.lits):] {
				if inComp(l.T, lr.kap) {
					continue
				}
				gs = append(gs, Lit{Subst(l.T, lr.kap, BV), l.Pos})
			}
			alts = append(alts, Alt{gs, Subst(v, lr.kap, BV)})
		}
		q.alts = alts
		if !q.absent {
			q.alts = mergeAlts(alts)
		}
		out = append(out, q)
	}
	return out
}

func sameQ(a, b []*qent) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].addr != b[i].addr || a[i].absent != b[i].absent || len(a[i].alts) != len(b[i].alts) {
			return false
		}
		for j := range a[i].alts {
			x, y := a[i].alts[j], b[i].alts[j]
			if x.Val != y.Val || len(x.Guards) != len(y.Guards) {
				return false
			}
			for k := range x.Guards {
				if x.Guards[k] != y.Guards[k] {
					return false
				}
			}
		}
	}
	return true
}

// invariants looks for linear invariants; it reports that some were added.
func (lr *loopRun) invariants(st0 *State, conts []*Result, nexts map[*Binding][]*Term) bool {
	if len(conts) == 0 {
		return false
	}
	initM := map[*Term]*Term{lr.kap: Int(0)}
	for _, b := range lr.binds {
		if b.Kind == bOpaque {
			initM[b.sym] = b.Init
		}
		if b.Kind == bAdv && b.free {
			initM[b.off] = Int(0)
		}
	}
	var cands []*Term
	seen := map[*Term]bool{}
	for _, t := range lr.invs {
		seen[t] = true
	}
	add := func(t *Term) {
		if _, c := t.IsInt(); !c && !seen[t] {
			seen[t] = true
			cands = append(cands, t)
		}
	}
	depends := func(t *Term) bool {
		for k := range initM {
			if Contains(t, k) {
				return true
			}
		}
		return false
	}
	for _, r := range conts {
		for _, l := range r.St.lits[len(st0.lits):] {
			if l.T.Op != "ge0" {
				continue
			}
			g := l.T.Args[0]
			if !l.Pos {
				g = Sub(Int(-1), g)
			}
			if !depends(g) {
				continue
			}
			// one iteration later the guard weakened by one step
			add(Add(g, Int(1)))
			m, _ := linOf(g)
			if c := m[lr.kap]; c < 0 {
				add(Add(g, Int(-c)))
			}
		}
	}
	for _, b := range lr.binds {
		if b.Kind == bOpaque && b.num {
			add(Sub(b.Val, b.Init))
			add(Sub(b.Init, b.Val))
		}
		if b.Kind == bAdv {
			add(Sub(Len(b.Init), b.off))
			add(b.off)
		}
	}
	added := false
	for _, t := range cands {
		if !lr.entry.entails(SubstMap(t, initM)) {
			continue
		}
		ok := true
		for i, r := range conts {
			m := map[*Term]*Term{lr.kap: Add(lr.kap, Int(1))}
			for _, b := range lr.binds {
				if b.Kind == bOpaque {
					m[b.sym] = nexts[b][i]
				}
				if b.Kind == bAdv && b.free {
					m[b.off] = offsetOf(nexts[b][i], b.Init)
				}
			}
			// assuming the candidate itself
			s := r.St.Clone()
			s.ge = append(s.ge, t)
			if !s.entails(SubstMap(t, m)) {
				ok = false
				break
			}
		}
		if ok {
			lr.invs = append(lr.invs, t)
			added = true
		}
	}
	return added
}

// finish turns the last round into the results of the loop.
func (lr *loopRun) finish(st0 *State, rs []*Result) []*Result {
	in := lr.in
	rec := &LoopRec{Fn: lr.fr.fn, Header: lr.loop.header, Kappa: lr.kap, Entry: lr.entry, Binds: lr.binds}
	nl := len(st0.lits)
	mkIter := func(r *Result) *IterRec {
		it := &IterRec{Lits: r.St.lits[min(nl, len(r.St.lits)):], Events: r.St.events, St: r.St, Kind: r.Kind, Vals: r.Vals}
		return it
	}
	for _, r := range rs {
		it := mkIter(r)
		if r.Kind == xContinue {
			for _, b := range lr.binds {
				it.Next = append(it.Next, lr.next(b, r))
			}
			rec.Conts = append(rec.Conts, it)
		} else {
			rec.Exits = append(rec.Exits, it)
		}
	}
	var out []*Result
	emit := func(r *Result, s *State, count *Term, n *Term) {
		f := r.fr
		if n != nil {
			f = r.fr.clone()
			m := &subster{lr.kap, n, map[*Term]*Term{}}
			for k, v := range f.env {
				f.env[k] = m.do(v)
			}
			var ds []deferRec
			for _, d := range f.defers {
				d2 := d
				if d.fn != nil {
					d2.fn = m.do(d.fn)
				}
				d2.args = nil
				for _, a := range d.args {
					d2.args = append(d2.args, m.do(a))
				}
				ds = append(ds, d2)
			}
			f.defers = ds
			var ok bool
			s, ok = s.subst(lr.kap, n)
			if !ok {
				return
			}
			if _, c := n.IsInt(); !c {
				s.ge = append(s.ge[:len(s.ge):len(s.ge)], n)
			}
			var vs []*Term
			for _, v := range r.Vals {
				vs = append(vs, m.do(v))
			}
			r = &Result{St: s, Kind: r.Kind, Vals: vs, Pos: r.Pos, blk: r.blk, prev: r.prev}
		}
		f = f.clone()
		f.iters = lr.fr.iters
		evs := append([]*Event(nil), lr.entry.events...)
		if len(rec.Conts) > 0 {
			rc := *rec
			rc.Count = count
			pos := lr.loop.header.Instrs[0].Pos()
			for _, i := range lr.loop.header.Instrs {
				if pos.IsValid() {
					break
				}
				pos = i.Pos()
			}
			evs = append(evs, &Event{Kind: EvLoop, Loop: &rc, Fn: lr.fr.fn, Path: lr.kap.Aux, Pos: pos, Locks: lr.entry.locks, Lits: len(lr.entry.lits)})
		}
		s.events = append(evs, s.events...)
		r2 := *r
		r2.St = s
		r2.fr = f
		out = append(out, &r2)
	}
	for _, r := range rs {
		if r.Kind == xContinue {
			continue
		}
		s := r.St
		if len(rec.Conts) == 0 {
			emit(r, s, Int(0), Int(0))
			continue
		}
		// is the number of finished iterations known?
		done := false
		for i := len(s.lits) - 1; i >= nl && !done; i-- {
			l := s.lits[i]
			if l.T.Op == "eq0" && l.Pos {
				m, _ := linOf(l.T.Args[0])
				if c := m[lr.kap]; c == 1 || c == -1 {
					n := Sub(lr.kap, MulC(l.T.Args[0], c))
					if !Contains(n, lr.kap) && !lr.mentions(n) {
						emit(r, s, n, n)
						done = true
					}
				}
			}
			if l.T.Op != "ge0" {
				continue
			}
			g := l.T.Args[0]
			if !l.Pos {
				g = Sub(Int(-1), g)
			}
			// g >= 0 with g = κ - n
			m, _ := linOf(g)
			c := m[lr.kap]
			if c < 1 {
				continue
			}
			n := Sub(MulC(lr.kap, c), g)
			if Contains(n, lr.kap) || lr.mentions(n) {
				continue
			}
			if c > 1 {
				v, ok := n.IsInt()
				if !ok {
					continue
				}
				n = Int(-floorDiv(-v, c))
			}
			if s.entails(Sub(n, lr.kap)) {
				emit(r, s, n, n)
				done = true
				continue
			}
			// the guard is the same for every iteration: all earlier ones passed it
			if !lr.guardOfAll(rec, st0, n) {
				continue
			}
			s2 := s.Clone()
			if s.Assume(Ge0(n), true) {
				emit(r, s, n, n)
			}
			if s2.Assume(Ge0(n), false) {
				emit(&Result{St: s2, Kind: r.Kind, Vals: r.Vals, Pos: r.Pos, blk: r.blk, prev: r.prev, fr: r.fr}, s2, Int(0), Int(0))
			}
			done = true
		}
		if !done {
			emit(r, s, lr.kap, nil)
		}
	}
	_ = in
	return out
}

// mentions: the term depends on a loop-carried unknown.
func (lr *loopRun) mentions(t *Term) bool {
	for _, b := range lr.binds {
		if Contains(t, b.sym) || b.off != nil && Contains(t, b.off) {
			return true
		}
	}
	return false
}

// guardOfAll: every iteration that goes round has κ < n.
func (lr *loopRun) guardOfAll(rec *LoopRec, st0 *State, n *Term) bool {
	for _, c := range rec.Conts {
		if !c.St.entails(Sub(Sub(n, lr.kap), Int(1))) {
			return false
		}
	}
	return len(rec.Conts) > 0
}
