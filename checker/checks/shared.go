package checks

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mockeycheck/absint"
)

func init() {
	rule("shared-memory", "what calls of mocks have in common is only read, or accessed atomically or under one lock", 10, ruleShared)
	decides("C34", "shared-memory")
}

// sharing collects how calls access memory that other calls access, too.
type sharing struct {
	m     *Model
	r     *Report
	sites map[string]*sharedCell
}

type sharedCell struct {
	name    string
	writes  bool
	atomics bool
	plain   []sharedAccess
}

// sharedAccess is an access without an atomic operation.
type sharedAccess struct {
	write bool
	locks map[string]bool // true: for the accesser alone
	pos   tokenPos
	what  string
}

// own tells whether memory belongs to the call analysed, whose allocations carry the path.
func (s *sharing) own(a *absint.Term, path string, before *absint.State, owned ...*absint.Term) bool {
	for {
		for _, o := range owned {
			if a == o {
				return true
			}
		}
		switch a.Op {
		case "fa", "ia", "cast", "sliceof", "sub", "capped", "ma", "Elem", "Field", "Index", "Addr":
			a = a.Args[0]
			continue
		case "alloc", "mkslice", "mkmap", "New":
			return strings.HasPrefix(a.Aux, path+"/") || a.Op == "mkslice" && len(a.Args) > 0 && s.own(a.Args[0], path, before, owned...)
		case "list", "cat", "comp":
			return !held(before, a)
		case "sym":
			return strings.HasPrefix(a.Aux, "rres:")
		}
		return false
	}
}

// key names memory.
func (s *sharing) key(a *absint.Term) string {
	if s.origin(a) {
		return "origin variable"
	}
	if fd := s.m.fieldOf(a); fd != nil {
		return fd.Key
	}
	return a.String()
}

func (s *sharing) cell(a *absint.Term) *sharedCell {
	key := s.key(a)
	c := s.sites[key]
	if c == nil {
		c = &sharedCell{name: strings.ReplaceAll(key, "github.com/bytedance/", "")}
		if fd := s.m.fieldOf(a); fd != nil {
			c.name = fd.name()
		}
		s.sites[key] = c
	}
	return c
}

// origin: the variable of the user's that the builder records for calls of the original.
func (s *sharing) origin(a *absint.Term) bool {
	if a.Op != "Elem" || a.Args[0].Op != "ValueOf" {
		return false
	}
	v := a.Args[0].Args[0]
	if v.Op == "init" {
		fd := s.m.fieldOf(v.Args[0])
		return fd != nil && fd.Key == s.m.Roles().Origin.Key
	}
	return v.Op == "param"
}

// look records the accesses of a call to memory it shares with others.
func (s *sharing) look(evs []*absint.Event, path string, before *absint.State, owned ...*absint.Term) {
	excl := map[*absint.Term]bool{}
	for _, e := range flat(evs) {
		var a *absint.Term
		write := true
		switch e.Kind {
		case absint.EvStore, absint.EvCopy, absint.EvAppend, absint.EvRSet:
			a = e.Args[0]
		case absint.EvLoad, absint.EvRead, absint.EvRGet:
			a, write = e.Args[0], false
		case absint.EvAtomic:
			a = e.Args[0]
		case absint.EvLock:
			excl[e.Args[0]] = e.Name == "Lock"
			continue
		default:
			continue
		}
		if s.own(a, path, before, owned...) {
			continue
		}
		c := s.cell(a)
		if e.Kind == absint.EvAtomic {
			c.atomics = true
			c.writes = c.writes || e.Name != "Load"
			continue
		}
		c.writes = c.writes || write
		x := sharedAccess{write: write, locks: map[string]bool{}, pos: e.Pos, what: e.String()}
		for _, l := range e.Locks {
			if !s.own(l, path, before, owned...) {
				x.locks[l.String()] = excl[l]
			}
		}
		c.plain = append(c.plain, x)
	}
}

// judge reports memory that is written while others may access it.
func (s *sharing) judge() {
	for _, k := range sortedCells(s.sites) {
		c := s.sites[k]
		s.r.Ob("shared " + c.name)
		if !c.writes {
			continue
		}
		if c.atomics && len(c.plain) > 0 {
			x := c.plain[0]
			s.r.Bad(c.name, s.m.P.Pos(x.pos), "calls access it both atomically and not", x.what)
			continue
		}
		for _, x := range c.plain {
			if !x.write {
				continue
			}
			common := ""
			for l, alone := range x.locks {
				ok := alone
				for _, y := range c.plain {
					if a, held := y.locks[l]; !held || y.write && !a {
						ok = false
					}
				}
				if ok {
					common = l
				}
			}
			if common == "" {
				msg := "calls write it and nothing keeps them from doing so at the same time"
				if len(x.locks) > 0 {
					msg = "calls write it under a lock that other accesses do not hold"
				}
				s.r.Bad(c.name, s.m.P.Pos(x.pos), msg, x.what)
				break
			}
		}
	}
}

func ruleShared(c *Ctx, r *Report) {
	m := c.Model(Linux)
	s := &sharing{m: m, r: r, sites: map[string]*sharedCell{}}
	hooks := func() {
		for _, h := range m.Hooks(r) {
			if h.Opaque && h.Patch.Args[1].Op != "init" {
				r.Bad(fnKey(h.Fn), m.P.Pos(h.Fn.Pos()), "undecided: the replacement cannot be looked into")
			}
			for _, e := range h.Ends {
				r.Paths++
				r.Ob(fnKey(h.Fn) + " call")
				s.look(e.St.Events(), "H", h.Patch.Snap, h.Args)
			}
		}
	}
	hooks()
	// what is written under a lock is not to be read without it
	guarded := map[string]bool{}
	for k, c := range s.sites {
		for _, x := range c.plain {
			if x.write && len(x.locks) > 0 {
				guarded[k] = true
			}
		}
	}
	if len(guarded) > 0 {
		m.watch = func(a *absint.Term) bool { return guarded[s.key(a)] }
		hooks()
		m.watch = nil
	}
	// what conditions and replacements are wrapped into
	for _, name := range []string{"When", "To", "Return"} {
		fld := m.Roles().Hook
		if name == "When" {
			fld = m.Roles().When
		}
		for _, fn := range m.adaptEntries(name) {
			in := m.Interp()
			in.Watch = func(*absint.Term) bool { return true }
			n := 0
			for _, res := range in.Call(absint.NewState(), fn, Params(fn), nil, "R") {
				ev, v := m.madeFor(in, res, fld)
				if ev == nil {
					continue
				}
				if v.Op != "MakeFunc" {
					r.Bad(fnKey(fn), m.P.Pos(ev.Pos), "undecided: what is recorded is not a function made by reflect.MakeFunc", v.String())
					continue
				}
				n++
				st := res.St.Clone()
				st.ResetEvents()
				st.DropOwnership()
				st.DropLocks()
				args := absint.Fresh("callargs")
				st.Assume(absint.Eq(absint.Len(args), absint.Mk("NumIn", "", v.Args[0]), true), true)
				ends, ok := in.CallTerm(st, v.Args[1], []*absint.Term{args}, "A")
				if !ok {
					r.Bad(fnKey(fn), m.P.Pos(ev.Pos), "undecided: the function recorded cannot be looked into")
					continue
				}
				for _, e := range ends {
					r.Paths++
					r.Ob(fnKey(fn) + " call")
					s.look(e.St.Events(), "A", st, args)
				}
			}
			r.Problems(in, fnKey(fn))
			need(n > 0, "what %s records", fnKey(fn))
		}
	}
	// the values of sequences
	so := m.Root.Type("SequenceOpt")
	need(so != nil, "type SequenceOpt")
	for _, f := range m.implementers("(" + so.Type().String() + ").GetNext") {
		in := m.Interp()
		in.Watch = func(*absint.Term) bool { return true }
		for _, e := range in.Call(absint.NewState(), f, Params(f), nil, "A") {
			r.Paths++
			r.Ob(fnKey(f))
			s.look(e.St.Events(), "A", absint.NewState())
		}
		r.Problems(in, fnKey(f))
	}
	s.judge()
	s.mixed()
}

// mixed: what calls access atomically is accessed atomically by everything that may run meanwhile.
func (s *sharing) mixed() {
	for f := range s.m.allFuncs() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var p ssa.Value
				switch i := i.(type) {
				case *ssa.Store:
					p = i.Addr
				case *ssa.UnOp:
					if i.Op == token.MUL {
						p = i.X
					}
				}
				fa, ok := p.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				c := s.sites[fmt.Sprintf("%s#%d", deref(fa.X.Type()), fa.Field)]
				if c == nil || !c.atomics || !c.writes {
					continue
				}
				s.r.Ob(fnKey(f))
				s.r.Bad(c.name, s.m.P.Pos(i.Pos()), "calls change it atomically, but "+fnKey(f)+" accesses it otherwise")
			}
		}
	}
}

func sortedCells(m map[string]*sharedCell) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// held: a value existed before the call.
func held(st *absint.State, a *absint.Term) bool {
	for _, v := range st.Cells() {
		if v != nil && contains(v, a) {
			return true
		}
	}
	return false
}
