package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mockeycheck/absint"
	"mockeycheck/load"
)

// LinuxARM is the other processor.
var LinuxARM = load.Config{GOOS: "linux", GOARCH: "arm64"}

// LowInterp is an interpreter for the code-patching packages in which writing code is one step.
func (c *Ctx) LowInterp(cfg load.Config) *absint.Interp { return c.Low(cfg).patchInterp() }

func (l *low) patchInterp() *absint.Interp {
	in := l.interp()
	in.Bounds = true
	in.Fleeting = func(t *absint.Term) bool {
		found := false
		absint.Walk(t, func(x *absint.Term) {
			switch x.Op {
			case "bytesOf":
				found = true
			case "sym":
				if T, ok := x.Val.(types.Type); ok {
					if s, ok := T.Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Byte]) {
						found = true
					}
				}
			}
		})
		return found
	}
	if q := l.m.P.All["syscall"]; q != nil && q.Types != nil {
		if o, ok := q.Types.Scope().Lookup("Mmap").(*types.Func); ok {
			if f := l.m.P.SSA.FuncValue(o); f != nil {
				in.Intrinsics[f] = getMemory
			}
		}
	}
	for _, f := range l.writers {
		f := f
		in.Intrinsics[f] = func(c *absint.CallCtx) []*absint.Result { return l.codeWrite(c, f) }
	}
	return in
}

// getMemory: the system gives memory of the size asked for, or none.
func getMemory(c *absint.CallCtx) []*absint.Result {
	res := []*absint.Term{c.ResSym(0), c.ResSym(1)}
	c.Emit(absint.EvCall, "syscall.Mmap", c.Args...).Res = res
	s2 := c.St.Clone()
	c.St.Assume(isNil(res[1]), true)
	c.St.Assume(absint.Eq(absint.Len(res[0]), c.Args[2], true), true)
	c.St.Assume(absint.Ge0(absint.Sub(absint.Len(res[0]), absint.Int(4096))), true)
	s2.Assume(isNil(res[1]), false)
	return []*absint.Result{{St: c.St, Kind: absint.XReturn, Vals: res}, {St: s2, Kind: absint.XReturn, Vals: res}}
}

// codeWrite: code is written, or that fails and the caller learns of it (rule write-failure).
func (l *low) codeWrite(c *absint.CallCtx, f *ssa.Function) []*absint.Result {
	A, D := -1, -1
	a0, d0 := rangeParams(f)
	for i, p := range Params(f) {
		if p == a0 {
			A = i
		} else if p == d0 {
			D = i
		}
	}
	need(A >= 0 && D >= 0, "%s takes an address and bytes", fnKey(f))
	var res []*absint.Term
	for k := 0; k < f.Signature.Results().Len(); k++ {
		res = append(res, c.ResSym(k))
	}
	c.Emit(absint.EvIntr, "codewrite", c.Args[A], c.In.Contents(c.St, c.Args[D])).Res = res
	if len(res) > 0 {
		return []*absint.Result{{St: c.St, Kind: absint.XReturn, Vals: res}}
	}
	s2 := c.St.Clone()
	c.St.Assume(wroteOK(c.Path), true)
	s2.Assume(wroteOK(c.Path), false)
	s2.Panicking(absint.Sym("code not written"))
	return []*absint.Result{{St: c.St, Kind: absint.XReturn}, {St: s2, Kind: absint.XPanic, Pos: c.Pos}}
}

func wroteOK(path string) *absint.Term { return absint.Sym("written:" + path) }

// ---- what code made by the library consists of ----

// seg is a piece of memory contents.
type seg struct {
	kind  string // "bytes", "code" (of the target, as it is in memory), "?"
	bytes []*absint.Term
	addr  *absint.Term // code: where
	n     *absint.Term
	time  int // code: index of the event at which it was read
}

// patching is one way of installing a mock, followed by one of removing it.
type patching struct {
	l      *low
	key    string
	f      *ssa.Function
	res    *absint.Result
	st     *absint.State
	evs    []*absint.Event
	nInst  int // events of the installation
	hook   *absint.Term
	proxy  *absint.Term
	target *absint.Term
	w      int // index of the event installing the hook code, or -1
	T      *absint.Term
	H      []*absint.Term
}

func (p *patching) same(a, b *absint.Term) bool { return p.l.same(p.st, a, b) }

func isNil(t *absint.Term) *absint.Term { return absint.Eq(t, absint.Nil, false) }

// resolve gives the contents of a slice of bytes at the time of event i.
func (p *patching) resolve(t *absint.Term, i int) []seg {
	switch t.Op {
	case "nil":
		return nil
	case "list":
		var out []seg
		for k := 0; k < len(t.Args); {
			n := 1
			if s, off := elementOf(t.Args[k]); s != nil {
				for k+n < len(t.Args) {
					if s2, off2 := elementOf(t.Args[k+n]); s2 != s || absint.Sub(off2, off) != absint.Int(int64(n)) {
						break
					}
					n++
				}
				ss := p.resolve(absint.SubSlice(s, off, absint.Add(off, absint.Int(int64(n)))), i)
				if len(ss) != 1 || ss[0].kind != "?" {
					out = append(out, ss...)
					k += n
					continue
				}
			}
			out = append(out, seg{kind: "bytes", bytes: t.Args[k : k+n], n: absint.Int(int64(n))})
			k += n
		}
		return join(out)
	case "capped":
		return p.resolve(t.Args[0], i)
	case "cat":
		var out []seg
		for _, a := range t.Args {
			out = append(out, p.resolve(a, i)...)
		}
		return out
	case "copyof":
		for k, e := range p.evs {
			if e.Kind == absint.EvRead && len(e.Res) == 1 && e.Res[0] == t {
				return p.resolve(t.Args[0], k)
			}
		}
	case "bytesOf":
		return []seg{{kind: "code", addr: t.Args[0], n: absint.Len(t), time: i}}
	case "sub":
		if m := p.memory(t.Args[0]); m != nil {
			return p.cut(p.contents(m, i), t.Args[1], t.Args[2])
		}
		return p.cut(p.resolve(t.Args[0], i), t.Args[1], t.Args[2])
	case "sym":
		if m := p.memory(t); m != nil {
			return p.contents(m, i)
		}
	}
	return []seg{{kind: "?", addr: t, n: absint.Len(t), time: i}}
}

// elementOf: the value is an element of a slice as it was.
func elementOf(v *absint.Term) (s, i *absint.Term) {
	if v.Op == "init" && v.Args[0].Op == "ia" {
		return v.Args[0].Args[0], v.Args[0].Args[1]
	}
	return nil, nil
}

// join puts neighbouring bytes together.
func join(ss []seg) (out []seg) {
	for _, s := range ss {
		if k := len(out) - 1; k >= 0 && s.kind == "bytes" && out[k].kind == "bytes" {
			b := append(append([]*absint.Term(nil), out[k].bytes...), s.bytes...)
			out[k] = seg{kind: "bytes", bytes: b, n: absint.Int(int64(len(b)))}
			continue
		}
		out = append(out, s)
	}
	return
}

// memory: the slice is memory got from the system.
func (p *patching) memory(t *absint.Term) *absint.Term {
	for _, e := range p.evs {
		if e.Kind == absint.EvCall && e.Name == "syscall.Mmap" && len(e.Res) > 0 && e.Res[0] == t {
			return t
		}
	}
	return nil
}

// place: the address is in memory got from the system.
func (p *patching) place(t *absint.Term) (mem, off *absint.Term) {
	switch t.Op {
	case "sym":
		if p.memory(t) != nil {
			return t, absint.Int(0)
		}
	case "sub", "ia":
		if m, o := p.place(t.Args[0]); m != nil {
			return m, absint.Add(o, t.Args[1])
		}
	case "capped":
		return p.place(t.Args[0])
	case "bytesOf":
		// a view of the memory through its address
		for _, e := range p.evs {
			if e.Kind == absint.EvCall && e.Name == "syscall.Mmap" && len(e.Res) > 0 {
				d := absint.Sub(t.Args[0], absint.SlicePtr(e.Res[0]))
				if !absint.Contains(d, absint.SlicePtr(e.Res[0])) {
					return e.Res[0], d
				}
			}
		}
	}
	return nil, nil
}

// contents is what has been put into memory got from the system before event i.
func (p *patching) contents(m *absint.Term, i int) []seg {
	type put struct {
		off  *absint.Term
		segs []seg
		n    *absint.Term
	}
	var puts []put
	for k, e := range p.evs {
		if k >= i {
			break
		}
		switch {
		case e.Kind == absint.EvCopy:
			if q, off := p.place(e.Args[0]); q == m {
				segs := p.resolve(e.Args[1], k)
				n := absint.Int(0)
				for _, s := range segs {
					n = absint.Add(n, s.n)
				}
				puts = append(puts, put{off, segs, n})
			}
		case e.Kind == absint.EvStore && e.Args[0].Op == "ia":
			if q, off := p.place(e.Args[0]); q == m {
				puts = append(puts, put{off, []seg{{kind: "bytes", bytes: []*absint.Term{e.Args[1]}, n: absint.Int(1)}}, absint.Int(1)})
			}
		}
	}
	var out []seg
	at := absint.Int(0)
	used := make([]bool, len(puts))
	for range puts {
		for k, u := range puts {
			if !used[k] && p.same(u.off, at) {
				used[k] = true
				out = append(out, u.segs...)
				at = absint.Add(at, u.n)
				break
			}
		}
	}
	for k := range puts {
		if !used[k] {
			return []seg{{kind: "?", addr: m, n: absint.Len(m), time: i}}
		}
	}
	return append(out, seg{kind: "?", addr: m, n: absint.Sub(absint.Len(m), at), time: i})
}

// cut is the part [lo, hi) of contents.
func (p *patching) cut(ss []seg, lo, hi *absint.Term) []seg {
	var out []seg
	at := absint.Int(0)
	for _, s := range ss {
		end := absint.Add(at, s.n)
		switch {
		case p.l.proves(p.st, absint.Sub(lo, end)) || p.l.proves(p.st, absint.Sub(at, hi)):
			// outside
		case p.l.proves(p.st, absint.Sub(at, lo)) && p.l.proves(p.st, absint.Sub(hi, end)):
			out = append(out, s)
		case s.kind == "code":
			a, b := at, end
			if !p.l.proves(p.st, absint.Sub(at, lo)) {
				a = lo
			}
			if !p.l.proves(p.st, absint.Sub(hi, end)) {
				b = hi
			}
			out = append(out, seg{kind: "code", addr: absint.Add(s.addr, absint.Sub(a, at)), n: absint.Sub(b, a), time: s.time})
		case s.kind == "bytes":
			a, ok1 := absint.Sub(lo, at).IsInt()
			b, ok2 := absint.Sub(hi, at).IsInt()
			if !ok1 || a < 0 {
				a = 0
			}
			if !ok2 || b > int64(len(s.bytes)) {
				b = int64(len(s.bytes))
			}
			if a > b || !ok1 && !p.l.proves(p.st, absint.Sub(at, lo)) || !ok2 && !p.l.proves(p.st, absint.Sub(hi, end)) {
				return []seg{{kind: "?", n: absint.Sub(hi, lo)}}
			}
			out = append(out, seg{kind: "bytes", bytes: s.bytes[a:b], n: absint.Int(b - a)})
		default:
			out = append(out, seg{kind: "?", addr: s.addr, n: absint.Sub(hi, lo)})
		}
		at = end
	}
	return out
}

func (s seg) String() string {
	switch s.kind {
	case "bytes":
		return fmt.Sprintf("%d bytes", len(s.bytes))
	case "code":
		return fmt.Sprintf("%s bytes of code at %s", s.n, s.addr)
	}
	return fmt.Sprintf("unknown bytes %v", s.addr)
}

// patchings runs every way of installing a mock and of removing it again.
func (c *Ctx) patchings(cfg load.Config, r *Report) (out []*patching) {
	k := "patchings:" + cfg.String()
	l := c.Low(cfg)
	type memo struct {
		ps  []*patching
		in  *absint.Interp
		bad map[string]bool
	}
	if v, ok := c.memo[k]; ok {
		mm := v.(*memo)
		for e := range mm.in.Entered {
			r.Functions[fnKey(e)] = true
		}
		for b := range mm.bad {
			r.Bad("analysis", "", b)
		}
		return mm.ps
	}
	in := l.patchInterp()
	var fs []*ssa.Function
	for f := range l.m.Patchers {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name() < fs[j].Name() })
	for _, f := range fs {
		ps := Params(f)
		need(len(ps) >= 3, "%s takes a target, a replacement and a proxy", fnKey(f))
		val := func(i int) *absint.Term {
			if types.IsInterface(f.Params[i].Type()) {
				return absint.ValueOf(ps[i])
			}
			return ps[i]
		}
		for _, x := range in.Call(absint.NewState(), f, ps, nil, "I") {
			n := len(x.St.Events())
			if x.Kind != absint.XReturn {
				out = append(out, &patching{l: l, key: fnKey(f), f: f, res: x, st: x.St, evs: x.St.Events(), nInst: n})
				continue
			}
			for _, y := range in.Call(x.St.Clone(), l.m.Unpatch, []*absint.Term{x.Vals[0]}, nil, "U") {
				p := &patching{l: l, key: fnKey(f), f: f, res: y, st: y.St, evs: y.St.Events(), nInst: n, hook: val(1), proxy: val(2), target: val(0)}
				out = append(out, p)
			}
		}
	}
	for _, p := range out {
		p.w = -1
		for i, e := range p.evs {
			if i < p.nInst && e.Kind == absint.EvIntr && e.Name == "codewrite" && p.w < 0 {
				p.w = i
				p.T = e.Args[0]
			}
		}
	}
	mm := &memo{ps: out, in: in, bad: map[string]bool{}}
	for b := range in.Problems {
		mm.bad["undecided: "+b] = true
	}
	c.memo[k] = mm
	return c.patchings(cfg, r)
}

// installed: the mock was installed on this way.
func (p *patching) installed() bool { return p.hook != nil }

// removed: and it was removed again without a failure.
func (p *patching) removed() bool { return p.hook != nil && p.res.Kind == absint.XReturn }

// fallible gives the operations that can fail and the condition under which they did not.
func (p *patching) fallible(e *absint.Event) (ok *absint.Term) {
	if e.Kind == absint.EvIntr && e.Name == "codewrite" {
		if len(e.Res) == 0 {
			return wroteOK(e.Path)
		}
		for _, x := range e.Res {
			if T, isT := x.Val.(types.Type); isT && types.Identical(T, types.Universe.Lookup("error").Type()) {
				return isNil(x)
			}
		}
		return absint.Eq(e.Res[0], absint.Int(0), true)
	}
	if e.Kind == absint.EvCall {
		switch e.Name {
		case "syscall.Mmap":
			return isNil(e.Res[1])
		case "syscall.Mprotect", "syscall.Munmap", "golang.org/x/sys/unix.Mprotect", "golang.org/x/sys/unix.Munmap":
			return isNil(e.Res[0])
		}
	}
	return nil
}

func (p *patching) bad(r *Report, role string, e *absint.Event, format string, a ...interface{}) {
	pos := p.l.m.P.Pos(p.f.Pos())
	if e != nil {
		pos = p.l.m.P.Pos(e.Pos)
	}
	r.Bad(p.key+" "+role, pos, fmt.Sprintf(format, a...), describe(p.l.m.P, p.res)...)
}

func init() {
	rule("patch-entry", "the code put at the entry of the target goes to the replacement with its closure context and leaves the argument registers alone", 4, rulePatchEntry)
	rule("patch-original", "the moved code is whole instructions from the entry of the target and goes on at the first one not moved", 4, rulePatchOriginal)
	rule("patch-moved", "the moved code does the same where it has been moved to and with what it is called with", 4, rulePatchMoved)
	rule("patch-restore", "removing a mock writes back the very bytes found when it was installed, all that were replaced and no others", 3, rulePatchRestore)
	rule("patch-pages", "the memory for the moved code is writable or executable but never both, complete before it is used and released once, after the target was restored", 4, rulePatchPages)
	rule("patch-reject", "an installation that is rejected is rejected before code is written, and what is too short or cannot be decoded is rejected", 3, rulePatchReject)
	rule("patch-failure", "no memory operation is taken for successful without its outcome having been looked at", 3, rulePatchFailure)
	decides("C01", "patch-restore", "patch-entry", "write")
	decides("C02", "patch-entry", "patch-original")
	decides("C14", "patch-original", "patch-moved")
	decides("C20", "patch-reject")
	decides("C23", "patch-pages")
	decides("C28", "patch-failure")
}

var patchConfigs = []load.Config{Linux, LinuxARM, {GOOS: "darwin", GOARCH: "amd64"}, {GOOS: "darwin", GOARCH: "arm64"}}

func eachPatching(c *Ctx, r *Report, do func(p *patching)) {
	for _, cfg := range patchConfigs {
		r.Config = cfg.String()
		n := 0
		for _, p := range c.patchings(cfg, r) {
			r.Paths++
			if p.installed() {
				n++
			}
			do(p)
		}
		if n == 0 {
			r.Bad("installation", "", "no way of installing a mock succeeds")
		}
	}
	r.Config = ""
}

// hookCode is the code put at the entry of the target.
func (p *patching) hookCode() ([]*absint.Term, string) {
	e := p.evs[p.w]
	ss := p.resolve(e.Args[1], p.w)
	var out []*absint.Term
	for _, s := range ss {
		if s.kind != "bytes" {
			return nil, "the code written to the target contains " + s.String()
		}
		out = append(out, s.bytes...)
	}
	return out, ""
}

var contextReg = map[string]int{"amd64": 2, "arm64": 26}

// scratch are the registers that hold nothing when a function is entered, apart from the closure context.
var scratch = map[string]map[int]bool{"amd64": {12: true, 13: true}, "arm64": {16: true, 17: true, 19: true, 20: true, 21: true, 22: true, 23: true, 24: true, 25: true, 27: true}}

func rulePatchEntry(c *Ctx, r *Report) {
	eachPatching(c, r, func(p *patching) {
		if !p.installed() {
			return
		}
		arch := p.l.m.P.Config.GOARCH
		r.Ob("entry code on a way through " + p.key)
		var ws []int
		for i, e := range p.evs[:p.nInst] {
			if e.Kind == absint.EvIntr && e.Name == "codewrite" {
				ws = append(ws, i)
			}
			if e.Loop != nil {
				for _, x := range flat([]*absint.Event{e}) {
					if x.Kind == absint.EvIntr && x.Name == "codewrite" {
						p.bad(r, "entry code", x, "undecided: the target is written in a loop")
					}
				}
			}
		}
		if len(ws) != 1 {
			p.bad(r, "entry code", nil, "writes code %d times and not once", len(ws))
			return
		}
		e := p.evs[p.w]
		if p.st.Eval(p.generic()) == -1 && !p.same(p.T, absint.Mk("Pointer", "", p.target)) {
			p.bad(r, "entry code", e, "is written at %s and not at the entry of the target", p.T)
		}
		H, why := p.hookCode()
		if why != "" {
			p.bad(r, "entry code", e, "%s", why)
			return
		}
		j := decodeJump(arch, H)
		if j.wrong != "" {
			p.bad(r, "entry code", e, "is no jump to the replacement: %s", j.wrong)
			return
		}
		if j.n != len(H) {
			p.bad(r, "entry code", e, "is %d bytes of which only %d are needed", len(H), j.n)
		}
		ctx := p.l.codeOf(p.hook)
		if j.at == nil || !sameBits(j.at, ctx) {
			p.bad(r, "entry code", e, "does not jump to the code of the replacement (the word at its closure)")
		}
		if v := j.regs[contextReg[arch]]; v == nil || !sameBits(v, ctx) {
			p.bad(r, "entry code", e, "does not leave the closure of the replacement in the context register")
		}
		for reg := range j.regs {
			if reg != contextReg[arch] && !scratch[arch][reg] {
				p.bad(r, "entry code", e, "changes register %d, which may hold an argument or belongs to the runtime", reg)
			}
		}
	})
}

// generic is the condition under which the target is an instantiated generic function.
func (p *patching) generic() *absint.Term {
	for i := len(p.f.Params) - 1; i >= 3; i-- {
		if b, ok := p.f.Params[i].Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && p.f.Params[i].Name() == "generic" {
			return Params(p.f)[i]
		}
	}
	return absint.False
}

// moved gives the code the proxy is made to run, and where it is.
func (p *patching) moved() (mem *absint.Term, ss []seg, at int) {
	for i, e := range p.evs[:p.nInst] {
		if e.Kind == absint.EvRSet && e.Args[0] == absint.Mk("Elem", "", p.proxy) {
			entry := p.l.codeOf(e.Args[1])
			for k := 0; k < p.nInst; k++ {
				s := p.evs[k]
				if s.Kind == absint.EvStore && uncast(s.Args[0]) == entry {
					for _, x := range p.evs[:k] {
						if x.Kind == absint.EvCall && x.Name == "syscall.Mmap" && p.same(s.Args[1], absint.SlicePtr(x.Res[0])) {
							mem, at = x.Res[0], i
							if k > i {
								at = k
							}
						}
					}
				}
			}
		}
	}
	if mem != nil {
		ss = p.contents(mem, p.nInst)
	}
	return
}

// codeOf is the second word of an interface or a reflect.Value: for a function, its closure.
func (l *low) codeOf(v *absint.Term) *absint.Term { return l.interp().Word(v, 8, 8, nil) }

func constInt(k *types.Const) *absint.Term {
	v, ok := constant.Int64Val(k.Val())
	if !ok {
		return nil
	}
	return absint.Int(v)
}

// known reports something that is the same for every way of installing a mock on a processor.
func (p *patching) known(r *Report, what, format string, a ...interface{}) {
	r.Bad(what+" on "+p.l.m.P.Config.GOARCH, p.l.m.P.Pos(p.f.Pos()), fmt.Sprintf(format, a...), describe(p.l.m.P, p.res)...)
}

// positions: instructions whose meaning depends on their address may be among the n bytes moved.
func (p *patching) positions(n *absint.Term) bool {
	bad, ok := p.upTo(n, false, func(st *absint.State, inst, err *absint.Term) string {
		rel := p.l.instField(inst, "PCRel")
		if rel == nil || st.Eval(absint.Eq(rel, absint.Int(0), true)) != 1 {
			return "relative"
		}
		return ""
	})
	return !ok || len(bad) > 0
}

// uncast is an address whatever the type of what is there.
func uncast(t *absint.Term) *absint.Term {
	if t.Op == "cast" {
		return t.Args[0]
	}
	return t
}

// layout splits the memory for moved code: what comes before the code of the target, that, and what comes after.
func layout(ss []seg) (pre []*absint.Term, code *seg, post []*absint.Term, why string) {
	for i := range ss {
		switch {
		case ss[i].kind == "bytes" && code == nil:
			pre = append(pre, ss[i].bytes...)
		case ss[i].kind == "bytes":
			post = append(post, ss[i].bytes...)
		case ss[i].kind == "code" && code == nil:
			code = &ss[i]
		case ss[i].kind == "?" && i == len(ss)-1:
		default:
			return nil, nil, nil, "contains " + ss[i].String()
		}
	}
	if code == nil {
		return nil, nil, nil, "contains no code of the target"
	}
	return
}

// rulePatchMoved looks at what the moved code depends on.
func rulePatchMoved(c *Ctx, r *Report) {
	eachPatching(c, r, func(p *patching) {
		if !p.installed() || p.w < 0 {
			return
		}
		r.Ob("moved code on a way through " + p.key)
		mem, ss, _ := p.moved()
		pre, code, _, why := layout(ss)
		if mem == nil || why != "" {
			return // rule patch-original
		}
		arch := p.l.m.P.Config.GOARCH
		set := decodeLoads(arch, pre)
		if v := set.regs[contextReg[arch]]; v == nil || !sameBits(v, p.l.codeOf(p.target)) {
			p.known(r, "context of the moved code", "runs with the closure context of the proxy and not that of the target")
		}
		if p.positions(code.n) {
			p.known(r, "position of the moved code", "may contain instructions that depend on where they are")
		}
	})
}

func rulePatchOriginal(c *Ctx, r *Report) {
	eachPatching(c, r, func(p *patching) {
		if !p.installed() || p.w < 0 {
			return
		}
		arch := p.l.m.P.Config.GOARCH
		r.Ob("moved code on a way through " + p.key)
		mem, ss, _ := p.moved()
		if mem == nil {
			p.bad(r, "moved code", nil, "the proxy is not made to run memory got from the system")
			return
		}
		pre, code, post, why := layout(ss)
		if why != "" {
			p.bad(r, "moved code", nil, "%s", why)
			return
		}
		set := decodeLoads(arch, pre)
		if set.wrong != "" {
			p.bad(r, "moved code", nil, "comes after code that is not understood: %s", set.wrong)
		}
		for reg := range set.regs {
			if reg != contextReg[arch] && !scratch[arch][reg] {
				p.bad(r, "moved code", nil, "register %d, which may hold an argument, is changed before the moved code", reg)
			}
		}
		if code.time >= p.w {
			p.bad(r, "moved code", p.evs[p.w], "is read after the target was changed")
		}
		if !p.same(code.addr, p.T) {
			p.bad(r, "moved code", nil, "starts with the code at %s and not with the entry of the target", code.addr)
		}
		H, _ := p.hookCode()
		if !p.l.proves(p.st, absint.Sub(code.n, absint.Int(int64(len(H))))) {
			p.bad(r, "moved code", nil, "may be less than what the entry code replaces")
		}
		for _, b := range p.boundary(code.n) {
			p.bad(r, "moved code", nil, "%s", b)
		}
		j := decodeJump(arch, post)
		if j.wrong != "" {
			p.bad(r, "moved code", nil, "does not go on in the target: %s", j.wrong)
			return
		}
		next := absint.Add(p.T, code.n)
		if !(j.to != nil && sameBits(j.to, next) || j.lit != nil && sameBits(j.lit, next)) {
			p.bad(r, "moved code", nil, "does not go on at the first byte not moved, %s", next)
		}
		for reg := range j.regs {
			if arch == "amd64" {
				p.bad(r, "moved code", nil, "changes register %d between the moved code and the rest", reg)
			} else if reg != 27 {
				p.known(r, "end of the moved code", "changes register %d between the moved code and the rest", reg)
			}
		}
		// room for all of it
		room := absint.Sub(absint.Len(mem), absint.Add(code.n, absint.Int(int64(len(post)))))
		if !p.fits(room, mem, code.n, len(post)) {
			p.bad(r, "moved code", nil, "may not fit into the memory got for it")
		}
	})
}

// fits: the memory is at least a page, and what is moved is bounded by the instruction lengths.
func (p *patching) fits(room, mem, n *absint.Term, post int) bool {
	for _, e := range p.evs {
		if e.Kind == absint.EvCall && e.Name == "syscall.Mmap" && e.Res[0] == mem {
			size := e.Args[2]
			s := p.st.Clone()
			// moved: less than the entry code and one instruction of at most 15 bytes
			H, _ := p.hookCode()
			s.Assume(absint.Ge0(absint.Sub(absint.Int(int64(len(H)+15)), n)), true)
			return p.l.proves(s, absint.Sub(size, absint.Add(n, absint.Int(int64(post)))))
		}
	}
	return false
}

// mark is a place in the target, counted from its entry, reached by decoding instructions.
type mark struct {
	at  *absint.Term
	bad []string // what is wrong with an instruction before it
}

// marks are the places reached by decoding the target instruction by instruction.
func (p *patching) marks(inspect func(st *absint.State, inst, err *absint.Term) string) []mark {
	return p.marksFrom(p.T, inspect)
}

// marksFrom are those reached from an address.
func (p *patching) marksFrom(T *absint.Term, inspect func(st *absint.State, inst, err *absint.Term) string) []mark {
	arch := p.l.m.P.Config.GOARCH
	marks := []mark{{at: absint.Int(0)}}
	before := func(t *absint.Term) (mark, bool) {
		for _, m := range marks {
			if m.at == t {
				return m, true
			}
		}
		for _, m := range marks {
			if p.same(m.at, t) {
				return m, true
			}
		}
		return mark{}, false
	}
	step := func(inst *absint.Term) *absint.Term {
		if arch == "arm64" {
			return absint.Int(4)
		}
		return p.l.instField(inst, "Len")
	}
	for _, e := range p.evs[:p.nInst] {
		if at, inst, err, ok := decodeCall(e); ok {
			if m, ok := before(absint.Sub(at, T)); ok {
				bad := append([]string(nil), m.bad...)
				if b := inspect(p.st, inst, err); b != "" {
					bad = append(bad, b)
				}
				marks = append(marks, mark{absint.Add(m.at, step(inst)), bad})
			}
		}
		if e.Loop == nil {
			continue
		}
		w := p.l.loop(e, p.res)
		round := func(init, cur *absint.Term, next func(it *absint.IterRec) *absint.Term) {
			m, ok := before(init)
			if !ok {
				return
			}
			bad := append([]string(nil), m.bad...)
			for _, it := range e.Loop.Conts {
				found := fmt.Sprintf("moves from %s to %s without decoding the instruction there", cur, next(it))
				st, want := it.St, cur
				for _, x := range it.Events {
					at, inst, err, ok := decodeCall(x)
					if !ok || !p.l.same(st, absint.Sub(at, T), want) {
						continue
					}
					if b := inspect(st, inst, err); b != "" {
						found = b
						break
					}
					want = absint.Add(want, step(inst))
					found = ""
				}
				if found == "" && !p.l.same(st, next(it), want) {
					found = fmt.Sprintf("goes on at %s and not at %s after the instruction at %s", next(it), want, cur)
				}
				if found != "" {
					bad = append(bad, found)
				}
			}
			marks = append(marks, mark{w.out(cur), bad})
		}
		for bi, b := range e.Loop.Binds {
			bi := bi
			if b.Kind == "advance" {
				// the rest of the code, as a slice that gets shorter
				at := func(t *absint.Term) *absint.Term { return absint.Sub(absint.SlicePtr(t), T) }
				round(at(b.Init), at(b.Val), func(it *absint.IterRec) *absint.Term { return at(it.Next[bi]) })
				continue
			}
			if b.Phi == nil {
				if _, ok := b.Init.IsInt(); ok && b.Val.Op == "sym" {
					round(b.Init, b.Val, func(it *absint.IterRec) *absint.Term { return it.Next[bi] })
				}
				continue
			}
			if bt, ok := b.Phi.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
				continue
			}
			init := b.Init
			// a position may be kept as an address
			for _, off := range []*absint.Term{absint.Int(0), T} {
				round(absint.Sub(init, off), absint.Sub(b.Val, off), func(it *absint.IterRec) *absint.Term { return absint.Sub(it.Next[bi], off) })
			}
		}
		if arch == "arm64" && e.Loop.Kappa != nil {
			at := absint.MulC(e.Loop.Kappa, 4)
			round(absint.Int(0), at, func(*absint.IterRec) *absint.Term { return absint.Add(at, absint.Int(4)) })
		}
	}
	return marks
}

// upTo looks for what is wrong with the instructions of the first n bytes; exact: n must be the end of one of them.
func (p *patching) upTo(n *absint.Term, exact bool, inspect func(st *absint.State, inst, err *absint.Term) string) (bad []string, ok bool) {
	for _, m := range p.marks(inspect) {
		if exact && !p.same(m.at, n) || !exact && !p.l.proves(p.st, absint.Sub(m.at, n)) {
			continue
		}
		if !ok || len(m.bad) < len(bad) {
			bad, ok = m.bad, true
		}
	}
	return
}

// boundary: n bytes from the start of the target are whole instructions.
func (p *patching) boundary(n *absint.Term) (bad []string) {
	if p.l.m.P.Config.GOARCH == "arm64" {
		if v, ok := n.IsInt(); ok && v%4 == 0 {
			return nil
		}
	}
	bad, ok := p.upTo(n, true, func(st *absint.State, inst, err *absint.Term) string {
		if p.l.m.P.Config.GOARCH != "arm64" && st.Eval(isNil(err)) != 1 {
			return "an instruction that could not be decoded is taken for one"
		}
		return ""
	})
	if !ok {
		return []string{fmt.Sprintf("%s need not be the end of an instruction", n)}
	}
	return bad
}

// decodeCall: the event decodes an instruction; its first byte, and the instruction and error it gives.
func decodeCall(e *absint.Event) (at, inst, err *absint.Term, ok bool) {
	if e.Kind != absint.EvCall || !strings.HasSuffix(e.Name, "asm.Decode") || !strings.HasPrefix(e.Name, "golang.org/x/arch/") || len(e.Res) != 2 {
		return nil, nil, nil, false
	}
	if strings.Contains(e.Name, "x86asm") {
		if m, isInt := e.Args[1].IsInt(); !isInt || m != 64 {
			return nil, nil, nil, false
		}
	}
	return absint.SlicePtr(e.Args[0]), e.Res[0], e.Res[1], true
}

// instField is a field of a decoded instruction.
func (l *low) instField(inst *absint.Term, name string) *absint.Term {
	for _, path := range decoders {
		q := l.m.P.All[path]
		if q == nil || q.Types == nil {
			continue
		}
		o := q.Types.Scope().Lookup("Inst")
		if o == nil {
			continue
		}
		if st, ok := o.Type().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return absint.FieldOf(inst, fmt.Sprintf("%s#%d", absint.TypeKey(o.Type()), i), st)
				}
			}
		}
	}
	return nil
}

// decoders are the packages that decode instructions.
var decoders = []string{"golang.org/x/arch/x86/x86asm", "golang.org/x/arch/arm64/arm64asm"}

// opcode is the number of an instruction in the package that decodes it.
func (l *low) opcode(name string) *absint.Term {
	for _, path := range decoders {
		if q := l.m.P.All[path]; q != nil && q.Types != nil {
			if k, ok := q.Types.Scope().Lookup(name).(*types.Const); ok {
				return constInt(k)
			}
		}
	}
	return nil
}

func rulePatchRestore(c *Ctx, r *Report) {
	eachPatching(c, r, func(p *patching) {
		if !p.removed() || p.w < 0 {
			return
		}
		r.Ob("removal after a way through " + p.key)
		var ws []int
		for i, e := range p.evs {
			if i >= p.nInst && e.Kind == absint.EvIntr && e.Name == "codewrite" {
				ws = append(ws, i)
			}
			if i >= p.nInst && e.Loop != nil {
				for _, x := range flat([]*absint.Event{e}) {
					if x.Kind == absint.EvIntr && x.Name == "codewrite" {
						p.bad(r, "restored code", x, "undecided: the target is written in a loop")
					}
				}
			}
		}
		if len(ws) != 1 {
			p.bad(r, "restored code", nil, "removing writes code %d times and not once", len(ws))
			return
		}
		e := p.evs[ws[0]]
		if !p.same(e.Args[0], p.T) {
			p.bad(r, "restored code", e, "is written at %s, the mock was installed at %s", e.Args[0], p.T)
		}
		at := p.T
		for _, s := range p.resolve(e.Args[1], ws[0]) {
			switch {
			case s.kind != "code":
				p.bad(r, "restored code", e, "consists of %s and not of the code of the target", s)
				return
			case !p.same(s.addr, at):
				p.bad(r, "restored code", e, "at %s is what was at %s", at, s.addr)
			case s.time > p.w:
				p.bad(r, "restored code", e, "is what the target consists of while it is mocked")
			}
			at = absint.Add(at, s.n)
		}
		H, why := p.hookCode()
		if why == "" && !p.l.proves(p.st, absint.Sub(at, absint.Add(p.T, absint.Int(int64(len(H)))))) {
			p.bad(r, "restored code", e, "may end before what the entry code replaced")
		}
	})
}

func rulePatchPages(c *Ctx, r *Report) {
	eachPatching(c, r, func(p *patching) {
		if !p.installed() || p.w < 0 {
			return
		}
		r.Ob("memory on a way through " + p.key)
		mem, ss, set := p.moved()
		if mem == nil {
			p.bad(r, "memory", nil, "the proxy is not made to run memory got from the system")
			return
		}
		n := absint.Int(0)
		for i, s := range ss {
			if i < len(ss)-1 || s.kind != "?" {
				n = absint.Add(n, s.n)
			}
		}
		prot, unmaps, restored := int64(-1), 0, -1
		for i, e := range p.evs {
			if i >= p.nInst && e.Kind == absint.EvIntr && e.Name == "codewrite" {
				restored = i
			}
			switch {
			case e.Kind == absint.EvCall && e.Name == "syscall.Mmap":
				if e.Res[0] != mem {
					p.bad(r, "memory", e, "undecided: more memory is got from the system")
					continue
				}
				v, ok := e.Args[3].IsInt()
				if !ok || v&4 != 0 || v&2 == 0 {
					p.bad(r, "memory", e, "starts with protection %s and not readable and writable", e.Args[3])
				}
				prot = v
				if fl, ok := e.Args[4].IsInt(); !ok || fl&1 != 0 {
					p.bad(r, "memory", e, "is shared (flags %s)", e.Args[4])
				}
				if fd, ok := e.Args[0].IsInt(); !ok || fd != -1 {
					p.bad(r, "memory", e, "is that of a file")
				}
			case e.Kind == absint.EvCall && e.Name == "syscall.Mprotect":
				q, off := p.place(e.Args[0])
				v, ok := e.Args[1].IsInt()
				if q != mem {
					p.bad(r, "memory", e, "changes the protection of other memory, %s", e.Args[0])
					continue
				}
				if !ok || v&6 == 6 {
					p.bad(r, "memory", e, "is made writable and executable (protection %s)", e.Args[1])
				}
				if v&2 != 0 && i > set {
					p.bad(r, "memory", e, "is made writable again")
				}
				if z, isInt := off.IsInt(); !isInt || z != 0 || !p.l.proves(p.st, absint.Sub(absint.Len(e.Args[0]), n)) && e.Args[0] != mem {
					p.bad(r, "memory", e, "only part of it is made executable")
				}
				prot = v
			case e.Kind == absint.EvCall && e.Name == "syscall.Munmap":
				unmaps++
				// the system gives memory without room behind its end
				if e.Args[0] != mem && e.Args[0] != absint.SubSlice(mem, absint.Int(0), absint.Cap(mem)) {
					if q, off := p.place(e.Args[0]); q == mem && off != nil {
						p.bad(r, "memory", e, "is not released as the whole it was got as (%s)", e.Args[0])
					} else {
						p.bad(r, "memory", e, "other memory is released: %s", e.Args[0])
					}
				}
				if restored < 0 {
					p.bad(r, "memory", e, "is released before the target is restored")
				}
			case e.Kind == absint.EvCopy || e.Kind == absint.EvStore && e.Args[0].Op == "ia":
				if q, _ := p.place(e.Args[0]); q == mem {
					if prot&2 == 0 {
						p.bad(r, "memory", e, "is written to when it is not writable")
					}
					if i > set {
						p.bad(r, "memory", e, "is written to after the proxy uses it")
					}
					if unmaps > 0 {
						p.bad(r, "memory", e, "is written to after its release")
					}
				}
			}
			if i == set && prot != 5 {
				p.bad(r, "memory", e, "the proxy is made to use memory with protection %d", prot)
			}
			if i == p.w && prot != 5 {
				p.bad(r, "memory", e, "the target is changed while the moved code has protection %d", prot)
			}
			if i == p.w && set > i {
				p.bad(r, "memory", e, "the target is changed before the proxy runs the moved code")
			}
			if e.Loop != nil {
				for _, x := range flat([]*absint.Event{e}) {
					if x.Kind == absint.EvCall && (x.Name == "syscall.Mmap" || x.Name == "syscall.Munmap" || x.Name == "syscall.Mprotect") {
						p.bad(r, "memory", x, "undecided: memory operations in a loop")
					}
				}
			}
		}
		if p.removed() && unmaps != 1 {
			p.bad(r, "memory", nil, "is released %d times and not once", unmaps)
		}
	})
}

func rulePatchReject(c *Ctx, r *Report) {
	eachPatching(c, r, func(p *patching) {
		if !p.installed() {
			// a rejection
			r.Ob("rejection on a way through " + p.key)
			for _, e := range p.evs {
				if e.Kind == absint.EvIntr && e.Name == "codewrite" && p.st.Eval(p.fallible(e)) != -1 {
					p.bad(r, "rejection", e, "the installation is rejected after code was written")
				}
			}
			return
		}
		if p.w < 0 {
			return
		}
		r.Ob("accepted on a way through " + p.key)
		// what is moved contains no return, unless that was asked for
		for _, b := range p.tooShort() {
			p.bad(r, "accepted", nil, "%s", b)
		}
	})
}

// tooShort looks for ways round the measuring loop that move a return instruction although unsafe mocking was not asked for.
func (p *patching) tooShort() (bad []string) {
	ret := p.l.opcode("RET")
	need(ret != nil, "the decoder's name of the return instruction")
	unsafe := absint.False
	for i, q := range p.f.Params {
		if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && q.Name() == "unsafe" {
			unsafe = Params(p.f)[i]
		}
	}
	if p.st.Eval(unsafe) == 1 {
		return nil
	}
	_, ss, _ := p.moved()
	var n *absint.Term
	for _, s := range ss {
		if s.kind == "code" {
			n = s.n
		}
	}
	if n == nil {
		return []string{"contains no code of the target"}
	}
	isRet := func(st *absint.State, inst, err *absint.Term) string {
		if st.Eval(absint.Eq(p.l.instField(inst, "Op"), ret, true)) != -1 && st.Eval(isNil(err)) != -1 && st.Eval(unsafe) != 1 {
			return "a function too short for the entry code (a return among the moved instructions) is accepted"
		}
		return ""
	}
	bad, ok := p.upTo(n, false, isRet)
	if !ok {
		return []string{"not every instruction moved is looked at for a return"}
	}
	return bad
}

func rulePatchFailure(c *Ctx, r *Report) {
	eachPatching(c, r, func(p *patching) {
		failed := false
		for _, e := range p.evs {
			ok := p.fallible(e)
			if ok == nil {
				if failed && (e.Kind == absint.EvRSet || e.Kind == absint.EvCopy) {
					p.bad(r, "outcome", e, "goes on after a failed memory operation")
				}
				continue
			}
			r.Ob("outcome of " + e.Name + " on a way through " + p.key)
			cleanup := e.Kind == absint.EvCall && strings.HasSuffix(e.Name, "Munmap")
			if failed && !cleanup {
				p.bad(r, "outcome", e, "a memory operation is carried out after one that failed")
			}
			switch v := p.st.Eval(ok); {
			case v == 1:
			case p.res.Kind != absint.XReturn && v == -1:
				failed = true
			case p.res.Kind != absint.XReturn:
				failed = true
			default:
				p.bad(r, "outcome", e, "%s may have failed without that being noticed", e.Name)
			}
		}
	})
}
