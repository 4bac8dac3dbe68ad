package checks

import (
	"fmt"
	"go/types"

	"mockeycheck/absint"
)

func init() {
	rule("answer", "declared return values are checked, converted and returned in order", 10, ruleAnswer)
	decides("C13", "answer")
}

// answerEnv is what an analysed answer is judged by.
type answerEnv struct {
	m    *Model
	in   *absint.Interp
	A    *absint.Term // type of the target
	vals *absint.Term // values declared
	seq  types.Type   // the interface sequences implement
}

func ruleAnswer(c *Ctx, r *Report) {
	m := c.Model(Linux)
	ro := m.Roles()
	st := m.Root.Type("SequenceOpt")
	need(st != nil, "type SequenceOpt")
	for _, fn := range m.adaptEntries("Return") {
		ps := Params(fn)
		need(len(ps) == 2, "parameters of %s", fnKey(fn))
		in := m.Interp()
		key := fnKey(fn)
		n := 0
		for _, res := range in.Call(absint.NewState(), fn, ps, nil, "R") {
			B := ps[0]
			if isPtrTo(fn.Params[0].Type(), m.Root.Type("Mocker").Type()) {
				B = in.LoadAt(absint.NewState(), ro.Builder.addr(B), ro.Builder.typ())
			}
			r.Paths++
			r.Ob(key)
			ev, v := m.madeFor(in, res, ro.Hook)
			if ev == nil {
				if res.Kind == absint.XReturn {
					r.Bad(key, m.P.Pos(fn.Pos()), "the values given are not recorded", describe(m.P, res)...)
				} else if !m.otherReason(in, res, B, ps[0], ro.Hook) && !m.badAnswer(in, res.St, B, ps[1]) {
					r.Bad(key, m.P.Pos(panicPos(res)), "values may be rejected where they are declared", describe(m.P, res)...)
				}
				continue
			}
			if res.Kind != absint.XReturn {
				continue
			}
			n++
			env := &answerEnv{m: m, in: in, vals: ps[1], seq: st.Type()}
			env.A = absint.TypeOfV(absint.ValueOf(in.LoadAt(res.St, ro.Target.addr(B), ro.Target.typ())))
			if v.Op != "MakeFunc" {
				r.Bad(key, m.P.Pos(ev.Pos), "undecided: what is recorded is not a function made by reflect.MakeFunc", v.String())
				continue
			}
			gen := res.St.Eval(in.LoadAt(res.St, ro.Generic.addr(B), ro.Generic.typ()))
			if gen == 0 {
				r.Bad(key, m.P.Pos(ev.Pos), "undecided whether the target is generic where values are declared")
				continue
			}
			wantT := env.A
			if gen == 1 {
				wantT = m.genericType(env.A, nil)
			}
			if !sameType(res.St, v.Args[0], wantT) {
				r.Bad(key, m.P.Pos(ev.Pos), fmt.Sprintf("the function recorded has type %s and not %s", v.Args[0], wantT))
				continue
			}
			st := res.St.Clone()
			st.ResetEvents()
			st.DropOwnership()
			args := absint.Fresh("callargs")
			call := func(st *absint.State, root string) []*absint.Result {
				st = st.Clone()
				st.ResetEvents()
				ends, _ := in.CallTerm(st, v.Args[1], []*absint.Term{args}, root)
				return ends
			}
			ends, ok := in.CallTerm(st.Clone(), v.Args[1], []*absint.Term{args}, "A")
			if !ok {
				r.Bad(key, m.P.Pos(ev.Pos), "undecided: the function recorded cannot be looked into")
				continue
			}
			first, more := afterCalls(st, ends, "A", call)
			if first != st {
				ends = call(first, "A")
			}
			for _, s := range more {
				ends = append(ends, call(s, "A")...)
			}
			for _, e := range ends {
				r.Paths++
				r.Ob(key + " call")
				if msg := env.judge(e); msg != "" {
					r.Bad(key, m.P.Pos(ev.Pos), msg, describe(m.P, e)...)
				}
			}
		}
		if n == 0 {
			r.Bad(key, m.P.Pos(fn.Pos()), "never accepts values")
		}
		r.Problems(in, key)
	}
}

// isSeq tells whether the values declared are a single sequence.
func (v *answerEnv) isSeq(st *absint.State) int {
	n := absint.Len(v.vals)
	one := st.Eval(absint.Eq(n, absint.Int(1), true))
	if st.EqualInts(n, absint.Int(1)) {
		one = 1
	}
	if one == -1 || st.Entails(absint.MulC(n, -1)) || st.Entails(absint.Sub(n, absint.Int(2))) {
		return -1
	}
	x := v.in.LoadAt(st, absint.IndexAddr(v.vals, absint.Int(0)), nil)
	is := st.Eval(absint.IsType(x, v.seq))
	if isNilT(st, x) == 1 {
		is = -1
	}
	if is == -1 {
		return -1
	}
	if one == 1 && is == 1 {
		return 1
	}
	return 0
}

// badAnswer: the path knows that the values do not fit.
func (m *Model) badAnswer(in *absint.Interp, st *absint.State, B, R *absint.Term) bool {
	ro := m.Roles()
	A := absint.TypeOfV(absint.ValueOf(in.LoadAt(st, ro.Target.addr(B), ro.Target.typ())))
	v := &answerEnv{m: m, in: in, A: A, vals: R, seq: m.Root.Type("SequenceOpt").Type()}
	return v.isSeq(st) == -1 && v.unfit(st, R)
}

// unfit: the number of values is not that of results, or one of them cannot be converted.
func (v *answerEnv) unfit(st *absint.State, R *absint.Term) bool {
	if st.Eval(absint.Eq(absint.Mk("Kind", "", v.A), absint.Int(19), true)) == -1 {
		return true // no mock has such a target
	}
	n := absint.Mk("NumOut", "", v.A)
	d := absint.Sub(absint.Len(R), n)
	if st.Eval(absint.Eq(d, absint.Int(0), true)) == -1 || st.Eval(absint.Eq(absint.Len(R), n, true)) == -1 ||
		st.Entails(absint.Sub(d, absint.Int(1))) || st.Entails(absint.Sub(absint.Int(-1), d)) {
		return true
	}
	for _, l := range st.Lits() {
		if !l.Pos && l.T.Op == "ConvertibleTo" {
			if x, ok := v.indexOf(st, l.T.Args[0], R); ok && v.isOut(st, l.T.Args[1], x) {
				return true
			}
		}
	}
	return false
}

// indexOf: T is the type of element x of R.
func (v *answerEnv) indexOf(st *absint.State, T, R *absint.Term) (*absint.Term, bool) {
	if T.Op != "Type" || T.Args[0].Op != "ValueOf" {
		return nil, false
	}
	return v.elemOf(T.Args[0].Args[0], R)
}

func (v *answerEnv) elemOf(e, R *absint.Term) (*absint.Term, bool) {
	if e.Op == "init" && e.Args[0].Op == "ia" && e.Args[0].Args[0] == R {
		return e.Args[0].Args[1], true
	}
	return nil, false
}

func (v *answerEnv) isOut(st *absint.State, T, i *absint.Term) bool {
	return T.Op == "Out" && T.Args[0] == v.A && (T.Args[1] == i || st.EqualInts(T.Args[1], i))
}

func (v *answerEnv) judge(e *absint.Result) string {
	R := v.vals
	steps := 0
	for _, x := range flat(e.St.Events()) {
		switch {
		case x.Kind == absint.EvInvoke && len(x.Args) == 1 && len(x.Res) == 1:
			if y, ok := v.elemOf(x.Args[0], v.vals); !ok || y != absint.Int(0) {
				return "undecided: a method of " + x.Args[0].String() + " is called"
			}
			R = x.Res[0]
			steps++
		case isUserCall(x):
			return "a function is called where values are to be returned: " + x.String()
		case x.Kind == absint.EvStore && !localAddr(x.Args[0]):
			return "returning values writes to shared memory: " + x.String()
		case x.Kind == absint.EvAppend:
			return "values are appended to shared memory"
		case x.Kind == absint.EvGo || x.Kind == absint.EvLock:
			return "returning values does more than that: " + x.String()
		}
	}
	if e.Kind == absint.XGoexit {
		return ""
	}
	sq := v.isSeq(e.St)
	switch {
	case sq == 1 && steps != 1:
		return fmt.Sprintf("a sequence is asked %d times for its next values in one call", steps)
	case sq == -1 && steps != 0:
		return "values that are no sequence are taken for one"
	case sq == 0:
		return "undecided whether the values are a sequence"
	}
	if e.Kind == absint.XPanic {
		if !v.unfit(e.St, R) {
			return "a call may panic although the values fit"
		}
		return ""
	}
	if len(e.Vals) != 1 {
		return "undecided: results"
	}
	got := v.in.Contents(e.St, e.Vals[0])
	if !e.St.EqualInts(absint.Len(got), absint.Len(R)) {
		return fmt.Sprintf("%s values are returned where %s are declared", absint.Len(got), absint.Len(R))
	}
	return v.elems(e.St, got, R)
}

// elems judges the values returned one by one.
func (v *answerEnv) elems(st *absint.State, got, R *absint.Term) string {
	off := absint.Int(0)
	parts := []*absint.Term{got}
	if got.Op == "cat" {
		parts = got.Args
	}
	for _, p := range parts {
		switch {
		case p == absint.Nil:
		case p.Op == "list":
			for _, x := range p.Args {
				if msg := v.value(st, x, nil, R, off); msg != "" {
					return msg
				}
				off = absint.Add(off, absint.Int(1))
			}
		case p.Op == "comp":
			cp := p.Val.(*absint.Comp)
			for _, a := range cp.Alts {
				if msg := v.value(st, a.Val, a.Guards, R, absint.Add(off, absint.BV)); msg != "" {
					return msg
				}
			}
			off = absint.Add(off, cp.N)
		default:
			if st.EqualInts(absint.Len(p), absint.Int(0)) {
				continue
			}
			return "undecided: the results are " + got.String()
		}
	}
	return ""
}

// value: x is value i of R made into result i.
func (v *answerEnv) value(st *absint.State, x *absint.Term, guards []absint.Lit, R, i *absint.Term) string {
	isnil, same := 0, 0
	r := absint.Mk("init", "", absint.IndexAddr(R, i))
	judge := func(l absint.Lit) {
		t, pos := l.T, l.Pos
		if t.Op != "eq" || len(t.Args) != 2 {
			return
		}
		s := -1
		if pos {
			s = 1
		}
		for k := 0; k < 2; k++ {
			a, b := t.Args[k], t.Args[1-k]
			if y, ok := v.elemOf(a, R); ok && b == absint.Nil && st.EqualInts(y, i) {
				isnil = s
			}
			if y, ok := v.indexOf(st, a, R); ok && st.EqualInts(y, i) && v.isOut(st, b, i) {
				same = s
			}
		}
	}
	for _, g := range guards {
		judge(g)
	}
	for _, l := range st.Lits() {
		judge(l)
	}
	_ = r
	switch {
	case x.Op == "Zero":
		if !v.isOut(st, x.Args[0], i) {
			return fmt.Sprintf("result %s is the zero value of %s", i, x.Args[0])
		}
		if isnil != 1 {
			return "a value that need not be nil becomes the zero value"
		}
	case x.Op == "Convert":
		if x.Args[0].Op != "ValueOf" {
			return "undecided: result " + x.String()
		}
		if y, ok := v.elemOf(x.Args[0].Args[0], R); !ok || !st.EqualInts(y, i) {
			return fmt.Sprintf("result %s is not value %s of those declared", i, i)
		}
		if !v.isOut(st, x.Args[1], i) {
			return fmt.Sprintf("value %s is converted to %s and not to the type of result %s", i, x.Args[1], i)
		}
		if isnil != -1 {
			return "a value that may be nil is converted"
		}
	case x.Op == "ValueOf":
		if y, ok := v.elemOf(x.Args[0], R); !ok || !st.EqualInts(y, i) {
			return fmt.Sprintf("result %s is not value %s of those declared", i, i)
		}
		if same != 1 {
			return fmt.Sprintf("value %s is returned without being converted to the type of result %s", i, i)
		}
	default:
		return fmt.Sprintf("result %s is %s", i, x)
	}
	return ""
}
