package checks

import (
	"fmt"

	"mockeycheck/absint"
)

func init() {
	rule("assert", "the library's assertion returns exactly when its condition holds", 3, ruleAssert)
	decides("C20", "assert")
	decides("C24", "assert")
	decides("C28", "assert")
}

// ruleAssert: Assert is what turns a refused use, and a failure of the system, into a panic.
func ruleAssert(c *Ctx, r *Report) {
	p := c.Prog(Linux)
	tool := p.Pkg("internal/tool")
	need(tool != nil, "package internal/tool")
	f := tool.Func("Assert")
	need(f != nil && len(f.Blocks) > 0, "tool.Assert")
	pos := p.Pos(f.Pos())
	key := fnKey(f)
	r.Functions[key] = true
	ps := Params(f)
	need(len(ps) == 2, "tool.Assert(condition, arguments...)")
	for _, holds := range []bool{true, false} {
		for n := 0; n < 4; n++ {
			in := absint.New(p.SSA, p.Module, p.Sizes)
			st := absint.NewState()
			what := "the condition fails"
			if holds {
				what = "the condition holds"
			}
			cond := ps[0]
			st.Assume(cond, holds)
			st.Assume(absint.Eq(absint.Len(ps[1]), absint.Int(int64(n)), true), true)
			r.Ob(fmt.Sprintf("Assert with %d arguments when %s", n, what))
			done := 0
			for _, y := range in.Call(st, f, ps, nil, "A") {
				r.Paths++
				done++
				det := describe(p, y)
				switch {
				case y.Kind == absint.XUndecided:
					r.Bad(key, pos, "undecided: a way through it could not be followed", det...)
				case holds && y.Kind != absint.XReturn:
					r.Bad(key, pos, "does not return although the condition holds", det...)
				case !holds && y.Kind == absint.XReturn:
					r.Bad(key, pos, fmt.Sprintf("returns although the condition fails (with %d more arguments)", n), det...)
				}
			}
			if done == 0 {
				r.Bad(key, pos, "undecided: has no way through when "+what)
			}
			for b := range in.Problems {
				r.Bad(key, pos, "undecided: "+b)
			}
		}
	}
}
