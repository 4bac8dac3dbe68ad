package checks

import (
	"mockeycheck/absint"
)

func init() {
	rule("mock-lock", "the state of a mock is tested and changed in one hold of its lock", 3, ruleMockLock)
	decides("C06", "mock-lock")
}

// ruleMockLock: what decides whether installing or removing has an effect, the effect
// and the change of the state are one critical section of the mock.
func ruleMockLock(c *Ctx, r *Report) {
	m := c.Model(Linux)
	for _, typ := range []string{"Mocker", "MockerVar"} {
		patch, unpatch := m.Method(typ, "Patch"), m.Method(typ, "UnPatch")
		// the state: fields both write
		state := map[string]int{}
		for k, f := range []int{1, 2} {
			fn := patch
			if k == 1 {
				fn = unpatch
			}
			in := m.Interp()
			for _, e := range in.Call(absint.NewState(), fn, Params(fn), nil, "R") {
				for key, es := range m.storesOn(e.St.Events()) {
					for _, x := range es {
						if contains(x.Args[0], Params(fn)[0]) {
							state[key] |= f
						}
					}
				}
			}
		}
		n := 0
		for _, s := range state {
			if s == 3 {
				n++
			}
		}
		need(n > 0, "the state of %s that installing and removing change", typ)
		for _, fn := range []string{"Patch", "UnPatch"} {
			f := m.Method(typ, fn)
			recv := Params(f)[0]
			in := m.Interp()
			isState := func(a *absint.Term) bool {
				fd := m.fieldOf(a)
				return fd != nil && state[fd.Key] == 3 && a.Args[0] == recv
			}
			in.Watch = isState
			for _, e := range in.Call(absint.NewState(), f, Params(f), nil, "R") {
				r.Ob(fnKey(f))
				r.Paths++
				if msg := criticalSection(e, recv, isState); msg != "" {
					r.Bad(fnKey(f), m.P.Pos(f.Pos()), msg, describe(m.P, e)...)
				}
			}
			r.Problems(in, fnKey(f))
		}
	}
}

// criticalSection: the state is used and the effects are made in one exclusive hold of
// a lock of the object, released on every way out.
func criticalSection(e *absint.Result, obj *absint.Term, isState func(a *absint.Term) bool) string {
	taken := map[*absint.Term]int{}
	excl := map[*absint.Term]bool{}
	held := map[*absint.Term]int{}
	var lock *absint.Term
	at, uses := 0, 0
	for _, x := range flat(e.St.Events()) {
		switch x.Kind {
		case absint.EvLock:
			taken[x.Args[0]]++
			held[x.Args[0]]++
			excl[x.Args[0]] = x.Name == "Lock"
			continue
		case absint.EvUnlock:
			held[x.Args[0]]--
			continue
		case absint.EvLoad, absint.EvStore:
			if !isState(x.Args[0]) {
				continue
			}
		case absint.EvIntr:
			if x.Name != "patch" && x.Name != "unpatch" {
				continue
			}
		case absint.EvRSet:
		default:
			continue
		}
		var l *absint.Term
		for _, h := range x.Locks {
			if contains(h, obj) && excl[h] {
				l = h
			}
		}
		switch {
		case l == nil:
			return "the state of the mock is used without holding its lock: " + x.String()
		case lock != nil && lock != l:
			return "the state of the mock is used under different locks"
		case lock != nil && taken[l] != at:
			return "the lock of the mock is released between two uses of its state"
		}
		lock, at = l, taken[l]
		uses++
	}
	for _, n := range held {
		if n != 0 {
			return "a lock is still held at the end, or released twice"
		}
	}
	if uses == 0 {
		return "undecided: the state of the mock is not used"
	}
	return ""
}
