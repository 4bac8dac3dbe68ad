package absint

import (
	"fmt"
	"go/token"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is an observable effect on a path.
type Event struct {
	Kind  string // see the constants below
	Name  string
	Args  []*Term
	Res   []*Term
	Pos   token.Pos
	Fn    *ssa.Function
	Locks []*Term
	Loop  *LoopRec
	Snap  *State // state just before the event (nil for cheap events)
	Path  string // call path, identifies the dynamic instance
	Lits  int    // number of branch facts known at the event
	Defer bool   // made while a panic or exit unwinds the stack
}

func (e *Event) String() string {
	s := e.Kind
	if e.Name != "" {
		s += " " + e.Name
	}
	var a []string
	for _, x := range e.Args {
		a = append(a, x.String())
	}
	s += "(" + strings.Join(a, ", ") + ")"
	if e.Loop != nil {
		s += fmt.Sprintf(" loop of %d iteration paths", len(e.Loop.Conts))
	}
	return s
}

// Event kinds.
const (
	EvCall   = "call"   // call of a function outside the module (Name: full name)
	EvDyn    = "dyn"    // call of an unknown function value
	EvInvoke = "invoke" // call of an interface method of an unknown value
	EvRCall  = "rcall"  // reflect call of an unknown function value (Name: Call or CallSlice)
	EvIntr   = "intr"   // call summarised by an intrinsic (Name)
	EvStore  = "store"  // Args: address, value
	EvLoad   = "load"   // load from memory not local to the function (Args: address, value)
	EvLock   = "lock"   // Args: lock address
	EvUnlock = "unlock"
	EvAtomic = "atomic" // Name: Add, Store, Load ...; Args: address, operand
	EvRSet   = "rset"   // reflect.Value.Set: target, value
	EvRGet   = "rget"   // read of a variable through reflection
	EvLoop   = "loop"
	EvGo     = "go"
	EvPanic  = "panic"
	EvAppend = "append-shared" // append that may write into memory it does not own
	EvRead   = "read"          // memory others may change is read
	EvCopy   = "copy"
	EvOther  = "other"
	EvRec    = "recursive" // recursive call, not entered
)

// LoopRec summarises a loop.
type LoopRec struct {
	Fn     *ssa.Function
	Header *ssa.BasicBlock
	Kappa  *Term
	Count  *Term      // iterations performed, when known
	Conts  []*IterRec // iterations that go round again
	Exits  []*IterRec // the last, partial iteration of every way out (all of them)
	Entry  *State
	Binds  []*Binding
}

// IterRec is one way through an iteration.
type IterRec struct {
	Lits   []Lit
	Events []*Event
	St     *State
	Kind   exitKind
	Vals   []*Term
	Next   []*Term // values of the bindings for the next iteration (Conts)
}

// Binding is what is known about a loop-carried variable.
type Binding struct {
	Phi  *ssa.Phi // or nil
	Cell *Term    // address of a memory cell, or nil
	Init *Term
	Val  *Term // value at the start of a generic iteration
	Kind string
	num  bool

	sym      *Term // the unknown standing for the value
	alts     []Alt
	step     int64
	off      *Term // slices that advance: the offset into the initial one
	offDone  bool
	free     bool
	rel      *Binding
	sign     int64
	owned    bool
	ownTried bool
}

type qent struct {
	addr   *Term // mentions BV
	alts   []Alt
	absent bool // some iterations do not write the cell
	bound  *Term
	dirty  []*Term // addresses written since
}

// State is an abstract state.
type State struct {
	cells      map[*Term]*Term
	owned      bool
	qents      []*qent
	stores     []*Term
	lits       []Lit
	fact       map[*Term]bool
	ge         []*Term // linear terms known to be >= 0
	events     []*Event
	locks      []*Term
	epoch      int
	epochIters []*Term

	panicking *Term // value of the panic being unwound
	goexit    bool
	recovered bool
	unwinding bool
}

// NewState is the empty state.
func NewState() *State {
	return &State{cells: map[*Term]*Term{}, fact: map[*Term]bool{}}
}

// Clone copies a state.
func (s *State) Clone() *State {
	n := *s
	n.cells = make(map[*Term]*Term, len(s.cells)+4)
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.fact = make(map[*Term]bool, len(s.fact)+4)
	for k, v := range s.fact {
		n.fact[k] = v
	}
	n.qents = s.qents[:len(s.qents):len(s.qents)]
	n.epochIters = s.epochIters[:len(s.epochIters):len(s.epochIters)]
	n.stores = s.stores[:len(s.stores):len(s.stores)]
	n.lits = s.lits[:len(s.lits):len(s.lits)]
	n.ge = s.ge[:len(s.ge):len(s.ge)]
	n.events = s.events[:len(s.events):len(s.events)]
	n.locks = s.locks[:len(s.locks):len(s.locks)]
	return &n
}

// Events gives the events so far.
func (s *State) Events() []*Event { return s.events }

// Lits gives the branch facts so far.
func (s *State) Lits() []Lit { return s.lits }

// ResetEvents forgets the events (to analyse what follows separately).
func (s *State) ResetEvents() { s.events = nil }

// Forget keeps only some of the branch facts.
func (s *State) Forget(keep func(Lit) bool) *State {
	n := s.Clone()
	n.lits, n.ge, n.fact = nil, nil, map[*Term]bool{}
	for _, l := range s.lits {
		if keep(l) {
			n.Assume(l.T, l.Pos)
		}
	}
	return n
}

// Quantified gives addresses (mentioning BV) and values of cells written by loops.
func (s *State) Quantified() (out [][]*Term) {
	for _, q := range s.qents {
		ts := []*Term{q.addr}
		for _, a := range q.alts {
			ts = append(ts, a.Val)
		}
		out = append(out, ts)
	}
	return
}

// Cells gives the contents of memory that differ from the initial ones.
func (s *State) Cells() map[*Term]*Term { return s.cells }

// Cell gives the value stored at an address on this path, or nil.
func (s *State) Cell(a *Term) *Term { return s.cells[a] }

func (s *State) emit(e *Event) {
	e.Locks = s.locks
	e.Lits = len(s.lits)
	e.Defer = s.unwinding
	s.events = append(s.events, e)
}

// Eval decides an atom or boolean term: 1 true, -1 false, 0 unknown.
func (s *State) Eval(t *Term) int {
	switch t {
	case True:
		return 1
	case False:
		return -1
	}
	if t.Op == "not" {
		return -s.Eval(t.Args[0])
	}
	if v, ok := s.fact[t]; ok {
		if v {
			return 1
		}
		return -1
	}
	switch t.Op {
	case "ge0":
		if s.entails(t.Args[0]) {
			return 1
		}
		if s.entails(Sub(Int(-1), t.Args[0])) {
			return -1
		}
	case "eq0":
		l := t.Args[0]
		if s.entails(Sub(l, Int(1))) || s.entails(Sub(Int(-1), l)) {
			return -1
		}
		if s.entails(l) && s.entails(MulC(l, -1)) {
			return 1
		}
	case "eq":
		// a == c known for another constant c
		for i := 0; i < 2; i++ {
			a, b := t.Args[i], t.Args[1-i]
			if !isConst(b) && !nonNil(b) {
				continue
			}
			for _, l := range s.lits {
				if l.T.Op != "eq" || !l.Pos {
					continue
				}
				var o *Term
				if l.T.Args[0] == a {
					o = l.T.Args[1]
				} else if l.T.Args[1] == a {
					o = l.T.Args[0]
				}
				if o != nil && o != b && (isConst(o) && isConst(b) || o == Nil && nonNil(b) || b == Nil && nonNil(o)) {
					return -1
				}
			}
			// known dynamic type: not nil
			if b == Nil {
				for _, l := range s.lits {
					if l.Pos && l.T.Op == "istype" && l.T.Args[0] == a {
						return -1
					}
				}
			}
		}
	case "istype":
		for _, l := range s.lits {
			if l.T.Op == "istype" && l.Pos && l.T.Args[0] == t.Args[0] && l.T.Aux != t.Aux && strings.HasPrefix(l.T.Aux, "=") && strings.HasPrefix(t.Aux, "=") {
				return -1
			}
			if l.Pos && l.T.Op == "eq" && (l.T.Args[0] == Nil && l.T.Args[1] == t.Args[0] || l.T.Args[1] == Nil && l.T.Args[0] == t.Args[0]) {
				return -1
			}
		}
	}
	return 0
}

// Assume adds a fact; it reports whether the state stays consistent.
func (s *State) Assume(t *Term, v bool) bool {
	if t.Op == "not" {
		return s.Assume(t.Args[0], !v)
	}
	switch s.Eval(t) {
	case 1:
		if !v {
			return false
		}
		if t.Op != "ge0" && t.Op != "eq0" {
			return true
		}
	case -1:
		if v {
			return false
		}
		if t.Op != "ge0" && t.Op != "eq0" {
			return true
		}
	}
	if t == True || t == False {
		return true
	}
	if _, ok := s.fact[t]; ok {
		return true
	}
	s.fact[t] = v
	s.lits = append(s.lits, Lit{t, v})
	switch t.Op {
	case "ge0":
		if v {
			s.ge = append(s.ge, t.Args[0])
		} else {
			s.ge = append(s.ge, Sub(Int(-1), t.Args[0]))
		}
	case "eq0":
		if v {
			s.ge = append(s.ge, t.Args[0], MulC(t.Args[0], -1))
		} else {
			// a nonnegative quantity that is not zero is at least one
			if s.entails(t.Args[0]) {
				s.ge = append(s.ge, Sub(t.Args[0], Int(1)))
			} else if s.entails(MulC(t.Args[0], -1)) {
				s.ge = append(s.ge, Sub(Int(-1), t.Args[0]))
			}
		}
	case "and":
		if v {
			for _, a := range t.Args {
				if !s.Assume(a, true) {
					return false
				}
			}
		}
	}
	return true
}

// Entails reports that t >= 0 follows from the linear facts.
func (s *State) Entails(t *Term) bool { return s.entails(t) }

// Contradictory: the linear facts cannot all hold.
func (s *State) Contradictory() bool {
	var sys []ineq
	seen := map[*Term]bool{}
	for _, g := range s.ge {
		if len(sys) > 80 {
			break
		}
		m, c := linOf(g)
		sys = append(sys, ineq{m, c})
		for a := range m {
			if !seen[a] && nonNeg(a) {
				m, c := linOf(a)
				sys = append(sys, ineq{m, c})
			}
			seen[a] = true
		}
	}
	return unsat(sys)
}

// EqualInts reports that two integer terms are equal under the facts.
func (s *State) EqualInts(a, b *Term) bool {
	d := Sub(a, b)
	if n, ok := d.IsInt(); ok {
		return n == 0
	}
	return s.entails(d) && s.entails(MulC(d, -1))
}

// ---- linear inequalities (Fourier-Motzkin over the facts related to the goal) ----

type ineq struct {
	co map[*Term]int64
	c  int64
}

// Axioms gives linear facts that hold of an atom by its meaning; set by the client.
var Axioms func(atom *Term) []*Term

// PairAxioms gives linear facts about two atoms by their meaning.
var PairAxioms func(s *State, a, b *Term) []*Term

func (s *State) entails(goal *Term) bool {
	if n, ok := goal.IsInt(); ok {
		return n >= 0
	}
	gm, gc := linOf(goal)
	allNN := gc >= 0
	for k, v := range gm {
		if v < 0 || !nonNeg(k) {
			allNN = false
		}
	}
	if allNN {
		return true
	}
	// collect related facts
	rel := map[*Term]bool{}
	var sys []ineq
	add := func(t *Term) {
		m, c := linOf(t)
		sys = append(sys, ineq{m, c})
	}
	add(Sub(Int(-1), goal)) // negated goal
	var queue []*Term
	mark := func(t *Term) {
		m, _ := linOf(t)
		for k := range m {
			if !rel[k] {
				rel[k] = true
				queue = append(queue, k)
			}
		}
	}
	mark(goal)
	used := make([]bool, len(s.ge))
	for len(queue) > 0 {
		a := queue[0]
		queue = queue[1:]
		if nonNeg(a) {
			add(a)
		}
		if Axioms != nil {
			for _, x := range Axioms(a) {
				add(x)
				mark(x)
			}
		}
		for i, g := range s.ge {
			if used[i] {
				continue
			}
			m, _ := linOf(g)
			if _, ok := m[a]; ok {
				used[i] = true
				add(g)
				mark(g)
			}
		}
		if len(sys) > 60 {
			break
		}
	}
	if PairAxioms != nil {
		var at []*Term
		for k := range rel {
			at = append(at, k)
		}
		sort.Slice(at, func(i, j int) bool { return at[i].ID < at[j].ID })
		for i := range at {
			for j := range at {
				if i != j {
					for _, x := range PairAxioms(s, at[i], at[j]) {
						add(x)
					}
				}
			}
		}
	}
	return unsat(sys)
}

func unsat(sys []ineq) bool {
	for {
		// constant contradictions
		var next []ineq
		for _, q := range sys {
			empty := true
			for _, v := range q.co {
				if v != 0 {
					empty = false
				}
			}
			if empty {
				if q.c < 0 {
					return true
				}
				continue
			}
			next = append(next, q)
		}
		sys = next
		if len(sys) == 0 {
			return false
		}
		// choose the atom with the fewest combinations
		pos, neg := map[*Term]int{}, map[*Term]int{}
		for _, q := range sys {
			for k, v := range q.co {
				if v > 0 {
					pos[k]++
				} else if v < 0 {
					neg[k]++
				}
			}
		}
		var best *Term
		bestN := 1 << 30
		seen := map[*Term]bool{}
		for _, m := range []map[*Term]int{pos, neg} {
			for k := range m {
				if seen[k] {
					continue
				}
				seen[k] = true
				n := pos[k] * neg[k]
				if n < bestN || n == bestN && k.ID < best.ID {
					best, bestN = k, n
				}
			}
		}
		if best == nil {
			return false
		}
		var out, ps, ns []ineq
		for _, q := range sys {
			switch v := q.co[best]; {
			case v > 0:
				ps = append(ps, q)
			case v < 0:
				ns = append(ns, q)
			default:
				out = append(out, q)
			}
		}
		for _, p := range ps {
			for _, n := range ns {
				a, b := p.co[best], -n.co[best]
				g := gcd(a, b)
				ka, kb := b/g, a/g
				m := map[*Term]int64{}
				for k, v := range p.co {
					m[k] += ka * v
				}
				for k, v := range n.co {
					m[k] += kb * v
				}
				delete(m, best)
				var gg int64
				for k, v := range m {
					if v == 0 {
						delete(m, k)
						continue
					}
					gg = gcd(gg, abs(v))
				}
				c := ka*p.c + kb*n.c
				if gg > 1 {
					for k := range m {
						m[k] /= gg
					}
					c = floorDiv(c, gg)
				}
				out = append(out, ineq{m, c})
			}
		}
		// drop duplicates
		uniq := map[string]int{}
		var ded []ineq
		for _, q := range out {
			var ks []string
			for k, v := range q.co {
				ks = append(ks, strconv.Itoa(k.ID)+":"+strconv.FormatInt(v, 10))
			}
			sort.Strings(ks)
			key := strings.Join(ks, ",")
			if i, ok := uniq[key]; ok {
				if q.c < ded[i].c {
					ded[i] = q
				}
				continue
			}
			uniq[key] = len(ded)
			ded = append(ded, q)
		}
		if len(ded) > 400 {
			return false
		}
		sys = ded
	}
}

// subst replaces a term everywhere in the state; false: the facts became contradictory.
func (s *State) subst(from, to *Term) (*State, bool) {
	sb := &subster{from, to, map[*Term]*Term{}}
	n := NewState()
	n.epoch, n.panicking, n.goexit, n.recovered, n.unwinding = s.epoch, sb.do(s.panicking), s.goexit, s.recovered, s.unwinding
	for _, t := range s.epochIters {
		n.epochIters = append(n.epochIters, sb.do(t))
	}
	var ks []*Term
	for k := range s.cells {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	for _, k := range ks {
		k2 := sb.do(k)
		if k2 != k {
			if _, ok := s.cells[k2]; ok {
				// two cells become one: the substituted one is the more recent
				n.cells[k2] = sb.do(s.cells[k])
				continue
			}
		}
		if _, ok := n.cells[k2]; !ok || k2 != k {
			n.cells[k2] = sb.do(s.cells[k])
		}
	}
	for _, q := range s.qents {
		n.qents = append(n.qents, substQ(sb, q))
	}
	for _, a := range s.stores {
		n.stores = append(n.stores, sb.do(a))
	}
	ok := true
	at := make([]int, len(s.lits)+1)
	for i, l := range s.lits {
		at[i] = len(n.lits)
		t := sb.do(l.T)
		if !n.Assume(t, l.Pos) {
			ok = false
		}
	}
	at[len(s.lits)] = len(n.lits)
	for _, g := range s.ge {
		x := sb.do(g)
		if c, isC := x.IsInt(); isC {
			if c < 0 {
				ok = false
			}
			continue
		}
		n.ge = append(n.ge, x)
	}
	for _, a := range s.locks {
		n.locks = append(n.locks, sb.do(a))
	}
	for _, e := range s.events {
		e2 := substEvent(sb, e, 0)
		if e.Lits < len(at) && at[e.Lits] != e2.Lits {
			c := *e2
			c.Lits = at[e.Lits]
			e2 = &c
		}
		n.events = append(n.events, e2)
	}
	return n, ok
}

func substQ(sb *subster, q *qent) *qent {
	r := &qent{addr: sb.do(q.addr), absent: q.absent, bound: sb.do(q.bound)}
	for _, a := range q.alts {
		r.alts = append(r.alts, sb.alt(a))
	}
	for _, d := range q.dirty {
		r.dirty = append(r.dirty, sb.do(d))
	}
	return r
}

func substEvent(sb *subster, e *Event, depth int) *Event {
	do := func(ts []*Term) []*Term {
		out := make([]*Term, len(ts))
		for i, t := range ts {
			out[i] = sb.do(t)
		}
		return out
	}
	n := *e
	n.Args, n.Res, n.Locks = do(e.Args), do(e.Res), do(e.Locks)
	if e.Snap != nil {
		n.Snap, _ = e.Snap.subst(sb.from, sb.to)
	}
	if e.Loop != nil && depth < 6 {
		l := *e.Loop
		l.Count = sb.do(l.Count)
		iter := func(its []*IterRec) []*IterRec {
			var out []*IterRec
			for _, it := range its {
				c := *it
				c.Lits, c.Events = nil, nil
				for _, x := range it.Lits {
					c.Lits = append(c.Lits, sb.lit(x))
				}
				for _, x := range it.Events {
					c.Events = append(c.Events, substEvent(sb, x, depth+1))
				}
				c.Vals, c.Next = do(it.Vals), do(it.Next)
				c.St, _ = it.St.subst(sb.from, sb.to)
				out = append(out, &c)
			}
			return out
		}
		l.Conts, l.Exits = iter(l.Conts), iter(l.Exits)
		n.Loop = &l
	}
	return &n
}
