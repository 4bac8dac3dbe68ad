package checks

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"mockeycheck/absint"
)

func init() {
	rule("sequence", "a sequence yields its values cyclically, one step per call", 3, ruleSequence)
	decides("C15", "sequence", "answer")
}

// seqRoles are the fields of a sequence.
type seqRoles struct {
	T          types.Type // the sequence
	values     *field     // list of values
	elem       types.Type
	val, times *field // of an element
	viaPtr     bool
}

func structUnder(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// seqOf finds the functions of a sequence implementation.
func (m *Model) seqOf() (next, times, then *ssa.Function) {
	st := m.Root.Type("SequenceOpt")
	need(st != nil, "type SequenceOpt")
	sq := m.Func("Sequence")
	res := sq.Signature.Results()
	need(res.Len() == 1, "results of Sequence")
	it, ok := res.At(0).Type().Underlying().(*types.Interface)
	need(ok, "Sequence does not return an interface")
	for _, im := range m.implementers("(" + st.Type().String() + ").GetNext") {
		T := im.Params[0].Type()
		if types.Implements(T, it) {
			need(next == nil, "there are several implementations of sequences")
			next = im
			ms := m.P.SSA.MethodSets.MethodSet(T)
			for i := 0; i < ms.Len(); i++ {
				switch ms.At(i).Obj().Name() {
				case "Times":
					times = m.P.SSA.MethodValue(ms.At(i))
				case "Then":
					then = m.P.SSA.MethodValue(ms.At(i))
				}
			}
		}
	}
	need(next != nil && times != nil && then != nil, "the implementation of sequences")
	return
}

func (m *Model) seqRoles(next *ssa.Function) *seqRoles {
	T := deref(next.Params[0].Type())
	ro := &seqRoles{T: T}
	s := structUnder(T)
	need(s != nil, "sequences are structures")
	base := Params(next)[0]
	for i := 0; i < s.NumFields(); i++ {
		sl, ok := s.Field(i).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		es := structUnder(sl.Elem())
		if es == nil {
			continue
		}
		need(ro.values == nil, "a sequence has several lists")
		_, ro.viaPtr = sl.Elem().Underlying().(*types.Pointer)
		ro.elem = deref(sl.Elem())
		ro.values = m.fieldOf(absint.FieldAddr(base, T, i))
		for k := 0; k < es.NumFields(); k++ {
			a := m.fieldOf(absint.FieldAddr(base, ro.elem, k))
			switch es.Field(k).Type().Underlying().(type) {
			case *types.Slice:
				ro.val = a
			case *types.Basic:
				ro.times = a
			}
		}
	}
	need(ro.values != nil && ro.val != nil && ro.times != nil, "the list of values of a sequence")
	return ro
}

func (q *seqRoles) at(in *absint.Interp, st *absint.State, recv, i *absint.Term, f *field) *absint.Term {
	l := in.LoadAt(st, q.values.addr(recv), q.values.typ())
	a := absint.IndexAddr(l, i)
	if q.viaPtr {
		a = in.LoadAt(st, a, types.NewPointer(q.elem))
	}
	return in.LoadAt(st, f.addr(a), f.typ())
}

func ruleSequence(c *Ctx, r *Report) {
	m := c.Model(Linux)
	next, times, then := m.seqOf()
	q := m.seqRoles(next)
	recv := Params(next)[0]
	key := fnKey(next)

	// what is remembered from call to call: integer fields the step changes
	in := m.Interp()
	var state []*field
	seen := map[string]bool{}
	for _, e := range in.Call(absint.NewState(), next, Params(next), nil, "R") {
		for _, x := range flat(e.St.Events()) {
			if x.Kind != absint.EvStore && x.Kind != absint.EvAtomic || localAddr(x.Args[0]) {
				continue
			}
			f := m.fieldOf(x.Args[0])
			if f == nil || x.Args[0].Args[0] != recv {
				r.Bad(key, m.P.Pos(x.Pos), "a step changes something other than the position: "+x.String())
				continue
			}
			if !seen[f.Key] {
				seen[f.Key] = true
				state = append(state, f)
			}
		}
	}
	r.Problems(in, key)
	if len(state) != 2 {
		r.Bad(key, m.P.Pos(next.Pos()), fmt.Sprintf("undecided: the position in a sequence is kept in %d fields", len(state)))
		return
	}
	// the one that chooses the value
	init := func(f *field) *absint.Term { return absint.Init(f.addr(recv)) }
	V, T := state[0], state[1]
	for _, e := range in.Call(absint.NewState(), next, Params(next), nil, "R") {
		if e.Kind == absint.XReturn && len(e.Vals) == 1 && contains(e.Vals[0], init(T)) {
			V, T = T, V
			break
		}
	}
	// the step, first with the position standing on the value to yield next, then with
	// the position standing on the value yielded last
	var msgs [2][]func()
	for k := 0; k < 2; k++ {
		in := m.Interp()
		in.Watch = func(a *absint.Term) bool { return a == V.addr(recv) || a == T.addr(recv) }
		st := absint.NewState()
		v0, t0 := init(V), init(T)
		n := absint.Len(in.LoadAt(st, q.values.addr(recv), q.values.typ()))
		rep := q.at(in, st, recv, v0, q.times)
		st.Assume(absint.Ge0(v0), true)
		st.Assume(absint.Lt(v0, n), true)
		st.Assume(absint.Ge0(t0), true)
		st.Assume(absint.Ge0(absint.Sub(rep, absint.Int(1))), true)
		if k == 0 {
			st.Assume(absint.Lt(t0, rep), true)
		} else {
			st.Assume(absint.Le(t0, rep), true)
		}
		for _, e := range in.Call(st, next, Params(next), nil, "R") {
			r.Paths++
			r.Ob(key)
			msg := stepOf(q, in, e, recv, V, T, n, rep, k)
			if msg != "" {
				e := e
				msgs[k] = append(msgs[k], func() { r.Bad(key, m.P.Pos(next.Pos()), msg, describe(m.P, e)...) })
			}
			if msg := oneLock(e, []*absint.Term{V.addr(recv), T.addr(recv)}, recv); msg != "" && k == 0 {
				r.Bad(key, m.P.Pos(next.Pos()), msg, describe(m.P, e)...)
			}
		}
		r.Problems(in, key)
	}
	lazy := len(msgs[1]) == 0 && len(msgs[0]) > 0
	if !lazy {
		for _, f := range msgs[0] {
			f()
		}
	}

	// declaring values
	in = m.Interp()
	n := 0
	for _, e := range in.Call(absint.NewState(), times, Params(times), nil, "R") {
		r.Paths++
		r.Ob(fnKey(times))
		p := Params(times)
		cnt := p[1]
		switch e.Kind {
		case absint.XReturn:
			n++
			if !e.St.Entails(absint.Sub(cnt, absint.Int(1))) {
				r.Bad(fnKey(times), m.P.Pos(times.Pos()), "a repeat count below one may be accepted", describe(m.P, e)...)
			}
			l := in.LoadAt(absint.NewState(), q.values.addr(p[0]), q.values.typ())
			if q.at(in, e.St, p[0], absint.Sub(absint.Len(l), absint.Int(1)), q.times) != cnt {
				r.Bad(fnKey(times), m.P.Pos(times.Pos()), "the repeat count is not recorded for the value declared last", describe(m.P, e)...)
			}
			if msg := onlyStores(e, 1); msg != "" {
				r.Bad(fnKey(times), m.P.Pos(times.Pos()), msg, describe(m.P, e)...)
			}
			if !isSelf(e, p[0]) {
				r.Bad(fnKey(times), m.P.Pos(times.Pos()), "does not return the sequence", describe(m.P, e)...)
			}
		case absint.XPanic:
			if !e.St.Entails(absint.MulC(cnt, -1)) {
				r.Bad(fnKey(times), m.P.Pos(times.Pos()), "a repeat count of one or more may be rejected", describe(m.P, e)...)
			}
			if msg := onlyStores(e, 0); msg != "" {
				r.Bad(fnKey(times), m.P.Pos(times.Pos()), "a rejected repeat count is recorded", describe(m.P, e)...)
			}
		}
	}
	r.Problems(in, fnKey(times))
	if n == 0 {
		r.Bad(fnKey(times), m.P.Pos(times.Pos()), "accepts nothing")
	}
	in = m.Interp()
	for _, e := range in.Call(absint.NewState(), then, Params(then), nil, "R") {
		r.Paths++
		r.Ob(fnKey(then))
		p := Params(then)
		if e.Kind != absint.XReturn {
			r.Bad(fnKey(then), m.P.Pos(then.Pos()), "does not accept values", describe(m.P, e)...)
			continue
		}
		l0 := in.LoadAt(absint.NewState(), q.values.addr(p[0]), q.values.typ())
		l1 := in.LoadAt(e.St, q.values.addr(p[0]), q.values.typ())
		if !oneMore(q, in, e.St, l0, l1, p[1]) || !isSelf(e, p[0]) {
			r.Bad(fnKey(then), m.P.Pos(then.Pos()), "does not put exactly the values given, once, behind those declared before", describe(m.P, e)...)
		}
		for _, x := range flat(e.St.Events()) {
			if x.Kind == absint.EvStore && !localAddr(x.Args[0]) && x.Args[0] != q.values.addr(p[0]) {
				r.Bad(fnKey(then), m.P.Pos(x.Pos), "declaring values changes something else: "+x.String())
			}
		}
	}
	r.Problems(in, fnKey(then))
	sq := m.Func("Sequence")
	in = m.Interp()
	for _, e := range in.Call(absint.NewState(), sq, Params(sq), nil, "R") {
		r.Paths++
		r.Ob(fnKey(sq))
		if e.Kind != absint.XReturn || len(e.Vals) != 1 || e.Vals[0].Op != "iface" {
			r.Bad(fnKey(sq), m.P.Pos(sq.Pos()), "does not return a new sequence", describe(m.P, e)...)
			continue
		}
		o := e.Vals[0].Args[0]
		l := in.LoadAt(e.St, q.values.addr(o), q.values.typ())
		v := in.LoadAt(e.St, V.addr(o), V.typ())
		t := in.LoadAt(e.St, T.addr(o), T.typ())
		if o.Op != "alloc" || v != absint.Int(0) || t != absint.Int(0) || !oneMore(q, in, e.St, absint.List(), l, Params(sq)[0]) {
			r.Bad(fnKey(sq), m.P.Pos(sq.Pos()), "does not return a sequence of the values given that stands at its start", describe(m.P, e)...)
		}
	}
	r.Problems(in, fnKey(sq))
}

func isSelf(e *absint.Result, recv *absint.Term) bool {
	return len(e.Vals) == 1 && (e.Vals[0] == recv || e.Vals[0].Op == "iface" && e.Vals[0].Args[0] == recv)
}

// onlyStores: the path writes to shared memory n times.
func onlyStores(e *absint.Result, n int) string {
	for _, x := range flat(e.St.Events()) {
		if x.Kind == absint.EvStore && !localAddr(x.Args[0]) {
			n--
		}
	}
	if n < 0 {
		return "something else is changed"
	}
	return ""
}

// oneMore: l1 is l0 and a new element with the values given, to be yielded once.
func oneMore(q *seqRoles, in *absint.Interp, st *absint.State, l0, l1, vals *absint.Term) bool {
	c := in.Contents(st, l1)
	last := c
	if c.Op == "cat" {
		last = c.Args[len(c.Args)-1]
		if !st.SameSeq(absint.Cat(c.Args[:len(c.Args)-1]...), l0) {
			return false
		}
	} else if l0 != absint.List() {
		return false
	}
	if last.Op != "list" || len(last.Args) != 1 {
		return false
	}
	e := last.Args[0]
	if !q.viaPtr {
		return absint.FieldOf(e, q.val.Key, structUnder(q.elem)) == vals && absint.FieldOf(e, q.times.Key, structUnder(q.elem)) == absint.Int(1)
	}
	return e.Op == "alloc" && in.LoadAt(st, q.val.addr(e), q.val.typ()) == vals && in.LoadAt(st, q.times.addr(e), q.times.typ()) == absint.Int(1)
}

// stepOf judges one way through a step.
func stepOf(q *seqRoles, in *absint.Interp, e *absint.Result, recv *absint.Term, V, T *field, n, rep *absint.Term, conv int) string {
	if e.Kind != absint.XReturn || len(e.Vals) != 1 {
		return "a step may fail"
	}
	st := e.St
	v0, t0 := absint.Init(V.addr(recv)), absint.Init(T.addr(recv))
	v1, t1 := in.LoadAt(st, V.addr(recv), V.typ()), in.LoadAt(st, T.addr(recv), T.typ())
	value := func(i *absint.Term) *absint.Term { return q.at(in, absint.NewState(), recv, i, q.val) }
	succ := func(x *absint.Term) bool {
		nx := absint.Add(v0, absint.Int(1))
		if x == absint.Mk("bin%", "", nx, n) {
			return true
		}
		last := st.Entails(absint.Sub(nx, n)) || st.EqualInts(nx, n)
		notLast := st.Entails(absint.Sub(absint.Sub(n, nx), absint.Int(1))) || st.Eval(absint.Eq(nx, n, true)) == -1
		switch {
		case last:
			return st.EqualInts(x, absint.Int(0))
		case notLast:
			return st.EqualInts(x, nx)
		}
		return false
	}
	used := absint.Add(t0, absint.Int(1))
	if conv == 1 {
		used = t0
	}
	done := st.Entails(absint.Sub(used, rep)) || st.EqualInts(used, rep)
	more := st.Entails(absint.Sub(absint.Sub(rep, used), absint.Int(1))) || st.Eval(absint.Eq(used, rep, true)) == -1
	got := e.Vals[0]
	switch {
	case !done && !more:
		return "a step does not depend on how often the current value was yielded"
	case conv == 0 && got != value(v0):
		return fmt.Sprintf("a step yields %s and not the current value", got)
	case more && conv == 1 && got != value(v0):
		return fmt.Sprintf("a step yields %s and not the current value", got)
	case more && !(st.EqualInts(v1, v0) && st.EqualInts(t1, absint.Add(t0, absint.Int(1)))):
		return "a value to be yielded again is left, or not counted as yielded"
	case done && !succ(v1):
		return fmt.Sprintf("a value yielded often enough is followed by value %s", v1)
	case done && conv == 0 && !st.EqualInts(t1, absint.Int(0)):
		return "the next value does not start with no repetition done"
	case done && conv == 1 && (!st.EqualInts(t1, absint.Int(1)) || got != value(v1)):
		return "the next value is not yielded, or not counted as yielded once"
	}
	return ""
}

// oneLock: all accesses to the addresses on a path are made in one hold of a lock of
// the object, which is released at the end.
func oneLock(e *absint.Result, addrs []*absint.Term, obj *absint.Term) string {
	is := map[*absint.Term]bool{}
	for _, a := range addrs {
		is[a] = true
	}
	var lock *absint.Term
	holds := 0 // number of times the lock was taken up to the access
	at := -1
	taken := map[*absint.Term]int{}
	excl := map[*absint.Term]bool{}
	var held []*absint.Term
	for _, x := range flat(e.St.Events()) {
		switch x.Kind {
		case absint.EvLock:
			taken[x.Args[0]]++
			excl[x.Args[0]] = x.Name == "Lock"
			held = append(held, x.Args[0])
		case absint.EvUnlock:
			for k := range held {
				if held[k] == x.Args[0] {
					held = append(append([]*absint.Term(nil), held[:k]...), held[k+1:]...)
					break
				}
			}
		case absint.EvLoad, absint.EvStore, absint.EvAtomic:
			if !is[x.Args[0]] {
				continue
			}
			var l *absint.Term
			for _, h := range x.Locks {
				if contains(h, obj) && excl[h] {
					l = h
				}
			}
			switch {
			case l == nil:
				return "the state is used without holding the lock of the object: " + x.String()
			case lock != nil && l != lock:
				return "the state is used under different locks"
			case at >= 0 && at != taken[l]:
				return "the lock is released between two uses of the state"
			}
			lock, at = l, taken[l]
			holds++
		}
	}
	if len(held) > 0 {
		return "a lock is still held at the end"
	}
	if holds == 0 {
		return "undecided: the state is not used"
	}
	return ""
}
