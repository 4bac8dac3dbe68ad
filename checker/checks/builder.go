package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mockeycheck/absint"
)

func init() {
	rule("builder", "declarations pair up in order, repeated ones are rejected, options hold for one mock", 60, ruleBuilder)
	rule("rejected-api", "a rejected request changes no code, variable or context", 10, ruleRejectedAPI)
	decides("C25", "builder")
	decides("C20", "rejected-api")
}

// decl is a declaration in a chain.
type decl struct {
	kind byte // W When, T To, R Return, O Origin, F filter
	n    int
}

// branch is what the declarations spell out: indices of declarations, -1 for none.
type branch struct{ when, hook int }

type bModel struct {
	branches []branch
	origin   int
	filter   int
	trace    string
}

func (b *bModel) clone() *bModel {
	c := *b
	c.branches = append([]branch(nil), b.branches...)
	return &c
}

// apply gives the model after a declaration; false when it has to be rejected.
func (b *bModel) apply(d decl) (*bModel, bool) {
	c := b.clone()
	c.trace += fmt.Sprintf(" %c", d.kind)
	last := &c.branches[len(c.branches)-1]
	if (d.kind == 'W' || d.kind == 'T' || d.kind == 'R') && last.when >= 0 && last.hook >= 0 {
		c.branches = append(c.branches, branch{-1, -1})
		last = &c.branches[len(c.branches)-1]
	}
	switch d.kind {
	case 'W':
		if last.when >= 0 {
			return b, false
		}
		last.when = d.n
	case 'T', 'R':
		if last.hook >= 0 {
			return b, false
		}
		last.hook = d.n
	case 'O':
		if c.origin >= 0 {
			return b, false
		}
		c.origin = d.n
	case 'F':
		c.filter = d.n
	}
	return c, true
}

func declMock(n int) *hMock { return &hMock{Name: fmt.Sprint("q", n)} }

func (h *hist) declare(st *absint.State, b *absint.Term, d decl) []*absint.Result {
	m := declMock(d.n)
	name := map[byte]string{'W': "When", 'T': "To", 'R': "Return", 'O': "Origin", 'F': "FilterGoRoutine"}[d.kind]
	var args []*absint.Term
	switch d.kind {
	case 'W':
		args = []*absint.Term{newVal(m, "w")}
	case 'T':
		args = []*absint.Term{newVal(m, "")}
	case 'R':
		args = []*absint.Term{absint.List(newVal(m, "r"))}
	case 'O':
		args = []*absint.Term{newVal(m, "o")}
	case 'F':
		args = []*absint.Term{newVal(m, "f"), newVal(m, "g")}
	}
	return h.call(st, h.m.Method("MockBuilder", name), append([]*absint.Term{b}, args...)...)
}

// knowsOnly: the function made for a declaration refers to what was declared there and
// to nothing declared elsewhere, other than through its builder.
func (h *hist) knowsOnly(st *absint.State, v, builder *absint.Term, want *absint.Term) string {
	ro := h.m.Roles()
	stop := map[*absint.Term]bool{rootOf(builder): true}
	conds := h.in.LoadAt(st, ro.Conds.addr(builder), ro.Conds.typ())
	n, _ := absint.Len(conds).IsInt()
	for k := int64(0); k < n; k++ {
		c := absint.IndexAddr(conds, absint.Int(k))
		if ro.ViaPointer {
			c = h.in.LoadAt(st, c, types.NewPointer(ro.When.T))
		}
		stop[rootOf(c)] = true
	}
	seen := h.reachWithout(st, []*absint.Term{v}, stop)
	if !seen[want] {
		return "is not made of what was declared for it"
	}
	for t := range seen {
		if t != want && t.Op == "sym" && strings.HasPrefix(t.Aux, "new:Mocker:") {
			return "is made of what was declared elsewhere"
		}
	}
	return ""
}

// compare explains how the builder differs from the model; "" when it does not.
func (h *hist) compare(st *absint.State, builder *absint.Term, b *bModel, base map[string]*absint.Term, kinds string) string {
	ro := h.m.Roles()
	got := h.config(st, builder)
	n, ok := got["branches"].IsInt()
	if !ok {
		return "undecided: the number of branches is " + got["branches"].String()
	}
	x := func(k int) string {
		if k == 0 {
			return ""
		}
		return fmt.Sprint(k)
	}
	// a branch nothing was declared for yet changes nothing at the end
	for n > int64(len(b.branches)) && n > 1 && got["when"+x(int(n-1))] == absint.Nil && got["hook"+x(int(n-1))] == absint.Nil {
		n--
	}
	if n != int64(len(b.branches)) {
		return fmt.Sprintf("there are %d branches instead of %d", n, len(b.branches))
	}
	for k, br := range b.branches {
		for _, p := range []struct {
			name string
			n    int
			v    *absint.Term
		}{{"condition", br.when, got["when"+x(k)]}, {"replacement", br.hook, got["hook"+x(k)]}} {
			if p.n < 0 {
				if p.v != absint.Nil {
					return fmt.Sprintf("branch %d has a %s that was not declared", k, p.name)
				}
				continue
			}
			if p.v == absint.Nil {
				return fmt.Sprintf("branch %d lacks the %s declared for it", k, p.name)
			}
			m := declMock(p.n)
			want := newVal(m, "")
			switch {
			case p.name == "condition":
				want = newVal(m, "w")
			case kinds[p.n] == 'R':
				want = newVal(m, "r")
			}
			if msg := h.knowsOnly(st, p.v, builder, want); msg != "" {
				return fmt.Sprintf("the %s of branch %d %s", p.name, k, msg)
			}
		}
		if ro.CondBuilder != nil && got["owner"+x(k)] != builder {
			return fmt.Sprintf("branch %d belongs to another builder", k)
		}
	}
	origin := absint.Nil
	if b.origin >= 0 {
		origin = newVal(declMock(b.origin), "o")
	}
	filter, gid := base["filter"], base["gid"]
	if b.filter >= 0 {
		filter, gid = newVal(declMock(b.filter), "f"), newVal(declMock(b.filter), "g")
	}
	switch {
	case got["origin"] != origin:
		return "the origin is " + got["origin"].String()
	case got["filter"] != filter || got["gid"] != gid:
		return "the filter is not the one declared"
	}
	for _, k := range []string{"target", "generic", "unsafe"} {
		if got[k] != base[k] {
			return "the " + k + " changes"
		}
	}
	return ""
}

func ruleBuilder(c *Ctx, r *Report) {
	depth := 5
	if c.Thorough {
		depth = 7
	}
	// longer chains, each declaration of which every kind is tried in place of
	long := []string{"WRWTWRWTWRWRWRWRWRWT", "RWTWOWRFRWWTTW", "WFRTWRWFORWTWFRWRWTWR"}
	if c.Thorough {
		long = append(long, strings.Repeat("WR", 20), strings.Repeat("TW", 20), "OFFF"+strings.Repeat("WTRW", 8), strings.Repeat("WTF", 10))
	}
	most := depth
	for _, l := range long {
		if len(l) > most {
			most = len(l)
		}
	}
	h := &hist{m: c.Model(Linux), c: c, rep: map[string]*Report{}}
	for _, a := range aspects {
		h.rep[a] = &Report{Functions: map[string]bool{}}
	}
	h.m.Roles()
	h.setup(0)
	mock, target := h.m.Func("Mock"), h.specs["A"].Target
	for k := 0; k < most; k++ {
		m := declMock(k)
		for _, f := range []*absint.Term{newVal(m, ""), newVal(m, "w"), newVal(m, "o"), newVal(m, "r")} {
			h.init.Assume(absint.Eq(f, absint.Nil, false), false)
			t := absint.TypeOfV(absint.ValueOf(f))
			if f == newVal(m, "o") {
				t = absint.Mk("ElemT", "", t)
			}
			h.init.Assume(absint.Eq(absint.Mk("NumIn", "", t), absint.Int(0), true), true)
			h.init.Assume(absint.Eq(absint.Mk("NumOut", "", t), absint.Int(bi(f == newVal(m, "w"))), true), true)
		}
		for _, kind := range []byte("WTRO") {
			h.quiet = true
			h.learn(func(st *absint.State) []*absint.Result {
				return h.chain(st, nil, func(st *absint.State, _ *absint.Term) []*absint.Result {
					return h.call(st, mock, target, absint.Nil)
				}, func(st *absint.State, b *absint.Term) []*absint.Result {
					return h.declare(st, b, decl{kind, k})
				})
			}, fmt.Sprintf("declaration %c", kind))
			h.quiet = false
		}
	}
	bad := func(pos, trace, msg string) {
		r.Bad("declarations", pos, msg, "after the declarations"+trace)
	}
	var walk func(st *absint.State, b *absint.Term, m *bModel, base map[string]*absint.Term, kinds string)
	walk = func(st *absint.State, b *absint.Term, m *bModel, base map[string]*absint.Term, kinds string) {
		if len(r.Findings) > 20 {
			return
		}
		if len(kinds) >= depth {
			on := false
			for _, l := range long {
				on = on || len(l) > len(kinds) && strings.HasPrefix(l, kinds)
			}
			if !on {
				return
			}
		}
		for _, kind := range []byte("WTROF") {
			d := decl{kind, len(kinds)}
			want, ok := m.apply(d)
			ks := kinds + string(kind)
			fn := map[byte]string{'W': "When", 'T': "To", 'R': "Return", 'O': "Origin", 'F': "FilterGoRoutine"}[kind]
			pos := h.m.P.Pos(h.m.Method("MockBuilder", fn).Pos())
			rs := h.declare(st.Clone(), b, d)
			if len(rs) == 0 {
				bad(pos, m.trace, fn+" has no way through it")
			}
			for _, res := range rs {
				r.Paths++
				r.Ob("declarations" + m.trace + " " + string(kind))
				switch {
				case ok && res.Kind != absint.XReturn:
					bad(h.m.P.Pos(panicPos(res)), m.trace, fn+" is rejected although nothing of the kind is pending")
					continue
				case !ok && res.Kind == absint.XReturn:
					bad(pos, m.trace, fn+" is accepted although one is pending")
					continue
				case ok && (len(res.Vals) != 1 || res.Vals[0] != b):
					bad(pos, m.trace, fn+" does not return the builder")
					continue
				}
				if msg := h.compare(res.St, b, want, base, ks); msg != "" {
					bad(pos, m.trace, "after "+fn+" "+msg)
					continue
				}
				if ok {
					walk(res.St, b, want, base, ks)
				}
			}
		}
	}
	// every way of giving the options
	opts := []struct {
		fn, name        string
		args            []*absint.Term
		unsafe, generic bool
	}{
		{"Mock", "Mock", []*absint.Term{absint.Nil}, false, false},
		{"Mock", "Mock with OptUnsafe", []*absint.Term{h.opts("OptUnsafe")}, true, false},
		{"Mock", "Mock with OptGeneric", []*absint.Term{h.opts("OptGeneric")}, false, true},
		{"Mock", "Mock with OptUnsafe and OptGeneric", []*absint.Term{h.opts("OptUnsafe", "OptGeneric")}, true, true},
		{"Mock", "Mock with OptGeneric and OptUnsafe", []*absint.Term{h.opts("OptGeneric", "OptUnsafe")}, true, true},
		{"MockUnsafe", "MockUnsafe", nil, true, false},
		{"MockGeneric", "MockGeneric", nil, false, true},
	}
	type made struct {
		st *absint.State
		b  *absint.Term
	}
	begin := func(st *absint.State, target *absint.Term, i int) []made {
		var out []made
		o := opts[i]
		f := h.m.Func(o.fn)
		for _, res := range h.call(st, f, append([]*absint.Term{target}, o.args...)...) {
			if res.Kind == absint.XReturn && len(res.Vals) == 1 {
				out = append(out, made{res.St, res.Vals[0]})
			} else {
				r.Bad("options", h.m.P.Pos(f.Pos()), o.name+" rejects a function")
			}
		}
		return out
	}
	flag := func(st *absint.State, b *absint.Term, i int, pos string) {
		o := opts[i]
		c := h.config(st, b)
		r.Ob("options " + o.name)
		if c["unsafe"] != absint.Bool(o.unsafe) || c["generic"] != absint.Bool(o.generic) {
			r.Bad("options", pos, fmt.Sprintf("a mock made by %s is unsafe: %s, generic: %s", o.name, c["unsafe"], c["generic"]))
		}
	}
	buildFn := h.m.Method("MockBuilder", "Build")
	bpos := h.m.P.Pos(buildFn.Pos())
	for i := range opts {
		for _, x := range begin(h.init.Clone(), target, i) {
			base := h.config(x.st, x.b)
			empty := &bModel{branches: []branch{{-1, -1}}, origin: -1, filter: -1, trace: " " + opts[i].name}
			if msg := h.compare(x.st, x.b, empty, base, ""); msg != "" || base["target"] != target {
				r.Bad("declarations", h.m.P.Pos(h.m.Func(opts[i].fn).Pos()), "a new builder: "+msg)
				continue
			}
			flag(x.st, x.b, i, h.m.P.Pos(h.m.Func(opts[i].fn).Pos()))
			if i == 0 || c.Thorough {
				walk(x.st, x.b, empty, base, "")
			}
			// a second mock, then both are built
			for j := range opts {
				for _, y := range begin(x.st.Clone(), h.specs["C"].Target, j) {
					flag(y.st, x.b, i, bpos)
					flag(y.st, y.b, j, bpos)
					for _, res := range h.chain(y.st, nil, func(st *absint.State, _ *absint.Term) []*absint.Result {
						return h.call(st, buildFn, x.b)
					}, func(st *absint.State, _ *absint.Term) []*absint.Result { return h.call(st, buildFn, y.b) }) {
						es := patchEvents(res)
						if res.Kind != absint.XReturn || h.absurd(res.St) {
							continue
						}
						r.Paths++
						r.Ob("options of two mocks")
						if len(es) != 2 {
							r.Bad("options", bpos, fmt.Sprintf("building two mocks patches %d functions", len(es)))
							continue
						}
						for k, e := range es {
							o, t := opts[i], target
							if k == 1 {
								o, t = opts[j], h.specs["C"].Target
							}
							if e.Args[0] != absint.ValueOf(t) {
								r.Bad("options", h.m.P.Pos(e.Pos), "another function than the target is patched")
							}
							if len(e.Args) < 5 || e.Args[3] != absint.Bool(o.unsafe) || e.Args[4] != absint.Bool(o.generic) {
								r.Bad("options", h.m.P.Pos(e.Pos), "the options of a mock do not arrive where its target is patched")
							}
						}
					}
				}
			}
		}
	}
	r.Problems(h.in, "declarations")
	// the options of any mock are those its target is patched with
	ro := h.m.Roles()
	for _, hk := range h.m.Hooks(r) {
		if hk.Builder == nil || len(hk.Patch.Args) < 5 {
			continue // reported by dispatch
		}
		r.Ob("options in " + hk.Entry)
		for k, f := range map[int]*field{3: ro.Unsafe, 4: ro.Generic} {
			st := hk.Patch.Snap
			want := hk.In.LoadAt(st, f.addr(hk.Builder), f.typ())
			if got := hk.Patch.Args[k]; got != want && (st.Eval(got) == 0 || st.Eval(got) != st.Eval(want)) {
				r.Bad("options in "+hk.Entry, h.m.P.Pos(hk.Patch.Pos), fmt.Sprintf("the target is patched with %s in place of the option of the mock", got))
			}
		}
	}
	// only functions can be mocked
	for _, n := range []string{"Mock", "MockUnsafe", "MockGeneric"} {
		fn := h.m.Func(n)
		in := h.m.Interp()
		ps := Params(fn)
		for _, res := range in.Call(absint.NewState(), fn, ps, nil, "R") {
			r.Ob("target of " + n)
			s := &sig{m: h.m, ro: h.m.Roles(), in: in, st: res.St}
			k := s.isFunc(absint.TypeOfV(absint.ValueOf(ps[0])))
			if res.Kind == absint.XReturn && k != 1 {
				r.Bad("target of "+n, h.m.P.Pos(fn.Pos()), "something that need not be a function is accepted as target", describe(h.m.P, res)...)
			}
		}
	}
}

func (h *hist) opts(names ...string) *absint.Term {
	var os []*absint.Term
	for _, o := range names {
		os = append(os, absint.FuncTerm(h.m.Func(o)))
	}
	return absint.List(os...)
}

// ruleRejectedAPI: where a request to make or install a mock panics, nothing was changed;
// once something was changed, it does not panic.
func ruleRejectedAPI(c *Ctx, r *Report) {
	m := c.Model(Linux)
	type entry struct{ T, F string }
	for _, e := range []entry{{"", "Mock"}, {"", "MockUnsafe"}, {"", "MockGeneric"}, {"", "MockValue"}, {"MockBuilder", "When"}, {"MockBuilder", "To"}, {"MockBuilder", "Return"}, {"MockBuilder", "Origin"},
		{"MockBuilder", "FilterGoRoutine"}, {"MockBuilder", "IncludeCurrentGoRoutine"}, {"MockBuilder", "ExcludeCurrentGoRoutine"}, {"MockBuilder", "Build"}, {"Mocker", "Patch"}, {"MockerVar", "Patch"}, {"MockerVar", "To"}} {
		var fn *ssa.Function
		if e.T == "" {
			fn = m.Func(e.F)
		} else {
			fn = m.Method(e.T, e.F)
		}
		key := fnKey(fn)
		in := m.Interp()
		for _, res := range in.Call(absint.NewState(), fn, Params(fn), nil, "R") {
			r.Paths++
			r.Ob(key)
			if res.Kind == absint.XReturn {
				continue
			}
			if e.F == "To" {
				// giving a new value removes the mock and may find the variable taken; a value that does not fit is found before
				fits := true
				for _, l := range res.St.Lits() {
					if l.T.Op == "AssignableTo" && !l.Pos {
						fits = false
					}
				}
				if fits {
					continue
				}
			}
			for _, ev := range flat(res.St.Events()) {
				what := ""
				switch {
				case ev.Kind == absint.EvIntr && ev.Name == "patch":
					what = "code was changed"
				case ev.Kind == absint.EvIntr && ev.Name == "unpatch":
					what = "a mock was removed"
				case ev.Kind == absint.EvRSet:
					what = "a variable was set"
				case ev.Kind == absint.EvStore && rootOf(ev.Args[0]).Op == "glob":
					what = "the registry of mocks was changed"
				}
				if what != "" {
					r.Bad(key, m.P.Pos(panicPos(res)), "may panic after "+what, describe(m.P, res)...)
				}
			}
		}
		r.Problems(in, key)
	}
}
