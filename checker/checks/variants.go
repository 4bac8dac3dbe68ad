package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mockeycheck/absint"
	"mockeycheck/load"
)

func init() {
	rule("variants", "getting, protecting, writing and releasing code memory exist on every system under the same name, and report every failure of the system", 6, ruleVariants)
	decides("C30", "variants")
	decides("C28", "variants")
}

// memory operations and what the system offers for them.
var memoryOps = []struct {
	op, pkg, unix, windows string
}{
	{"allocating", "internal/monkey/common", "syscall.Mmap", "VirtualAlloc"},
	{"releasing", "internal/monkey/common", "syscall.Munmap", "VirtualFree"},
	{"making executable", "internal/monkey/mem/prot", "syscall.Mprotect", "VirtualProtect"},
	{"writing", "internal/monkey/mem", "", "VirtualProtect"},
}

// Windows is the third system.
var Windows = load.Config{GOOS: "windows", GOARCH: "amd64"}

func ruleVariants(c *Ctx, r *Report) {
	l := c.Low(Linux)
	for _, op := range memoryOps {
		var names []string
		sigs := map[string]*types.Signature{}
		for f := range l.m.allFuncs() {
			if f.Parent() != nil || f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), op.pkg) || f.Signature.Recv() != nil {
				continue
			}
			for _, g := range callees(f) {
				if op.unix == "" && g == l.write || op.unix != "" && g.Pkg != nil && g.Pkg.Pkg.Path()+"."+g.Name() == op.unix {
					if sigs[f.Name()] == nil {
						names = append(names, f.Name())
					}
					sigs[f.Name()] = f.Signature
				}
			}
		}
		sort.Strings(names)
		need(len(names) > 0, "a function of %s for %s code memory on Linux", op.pkg, op.op)
		for _, name := range names {
			for _, cfg := range []load.Config{{GOOS: "linux", GOARCH: "arm64"}, {GOOS: "darwin", GOARCH: "amd64"}, {GOOS: "darwin", GOARCH: "arm64"}, Windows, {GOOS: "windows", GOARCH: "arm64"}} {
				p := c.Prog(cfg)
				r.Config = cfg.String()
				key := op.pkg + "." + name
				r.Ob(key + " on " + cfg.String())
				pkg := p.Pkg(op.pkg)
				need(pkg != nil, "package %s", op.pkg)
				f := pkg.Func(name)
				if f == nil || len(f.Blocks) == 0 {
					if inPlatform(c, Linux, op.pkg, name) {
						// a helper of the one platform only
						if !usedElsewhere(c, Linux, op.pkg, name) {
							continue
						}
					}
					r.Bad(key, "-", fmt.Sprintf("%s code memory is not there on this platform", op.op))
					continue
				}
				if sigKey(f.Signature) != sigKey(sigs[name]) {
					r.Bad(key, p.Pos(f.Pos()), fmt.Sprintf("has signature %s here and %s on Linux", f.Signature, sigs[name]))
					continue
				}
				r.Functions[fnKey(f)+" "+cfg.String()] = true
				if cfg.GOOS == "windows" {
					windowsOp(p, r, key, op.op, op.windows, f)
				}
			}
		}
	}
	r.Config = ""
}

func inPlatform(c *Ctx, cfg load.Config, pkg, name string) bool {
	q := c.Prog(cfg).Pkg(pkg)
	return q != nil && q.Func(name) != nil
}

// usedElsewhere: the function is called from another file than its own.
func usedElsewhere(c *Ctx, cfg load.Config, pkg, name string) bool {
	p := c.Prog(cfg)
	f := p.Pkg(pkg).Func(name)
	file := p.Fset.Position(f.Pos()).Filename
	for _, g := range moduleFunctions(p) {
		if p.Fset.Position(g.Pos()).Filename == file {
			continue
		}
		for _, h := range callees(g) {
			if h == f {
				return true
			}
		}
	}
	return false
}

// windowsOp follows an operation on memory on Windows.
func windowsOp(p *load.Program, r *Report, key, op, proc string, f *ssa.Function) {
	in := absint.New(p.SSA, p.Module, p.Sizes)
	in.External = map[string]absint.Intrinsic{}
	procs := map[*absint.Term]string{}
	for _, q := range []string{"syscall", "golang.org/x/sys/windows"} {
		in.External["(*"+q+".LazyDLL).NewProc"] = func(c *absint.CallCtx) []*absint.Result {
			n, _ := c.Args[1].Val.(string)
			t := absint.Sym("procedure " + n)
			procs[t] = n
			return c.Return(t)
		}
		in.External["(*"+q+".LazyProc).Call"] = func(c *absint.CallCtx) []*absint.Result {
			res := []*absint.Term{c.ResSym(0), c.ResSym(1), c.ResSym(2)}
			l := in.Contents(c.St, c.Args[1])
			if l.Op != "list" {
				return undecided(c)
			}
			c.St.Assume(isNil(res[2]), false) // documented
			c.Emit(absint.EvIntr, "proc "+procs[c.Args[0]], l.Args...).Res = res
			return c.Return(res...)
		}
	}
	st := absint.NewState()
	for _, q := range p.Pkgs {
		sp := p.SSA.Package(q.Types)
		if sp == nil {
			continue
		}
		if g, ok := sp.Members["init$guard"].(*ssa.Global); ok {
			st.SetCell(absint.GlobalAddr(g), absint.False)
		}
	}
	start := f.Pkg.Func("init")
	// only packages that handle memory take part
	for _, q := range p.Pkgs {
		sp := p.SSA.Package(q.Types)
		if sp != nil && sp.Func("init") != nil && !strings.Contains(q.PkgPath, "/internal/monkey/") {
			in.Intrinsics[sp.Func("init")] = func(c *absint.CallCtx) []*absint.Result { return c.Return() }
		}
	}
	for _, n := range []string{"inst", "stw", "fn"} {
		for _, q := range p.Pkgs {
			if sp := p.SSA.Package(q.Types); sp != nil && sp.Func("init") != nil && strings.HasSuffix(q.PkgPath, "/"+n) {
				in.Intrinsics[sp.Func("init")] = func(c *absint.CallCtx) []*absint.Result { return c.Return() }
			}
		}
	}
	rs := in.Call(st, start, nil, nil, "init")
	if len(rs) == 0 {
		r.Bad(key, p.Pos(f.Pos()), "undecided: the package does not start")
		return
	}
	pos := p.Pos(f.Pos())
	size := absint.PageSize()
	won := 0
	for _, x := range rs {
		if x.Kind != absint.XReturn {
			continue
		}
		x.St.ResetEvents()
		ps := Params(f)
		for _, y := range in.Call(x.St, f, ps, nil, "W") {
			r.Paths++
			r.Ob("way through " + key + " on windows")
			det := describe(p, y)
			bad := func(format string, a ...interface{}) { r.Bad(key, pos, fmt.Sprintf(format, a...), det...) }
			var e *absint.Event
			var copies []*absint.Event
			n := 0
			for _, ev := range y.St.Events() {
				switch {
				case ev.Kind == absint.EvIntr && strings.HasPrefix(ev.Name, "proc "):
					if n++; e == nil {
						e = ev
					}
				case ev.Kind == absint.EvCopy && !localAddr(ev.Args[0]), ev.Kind == absint.EvStore && !localAddr(ev.Args[0]):
					copies = append(copies, ev)
					if e == nil {
						bad("changes memory before it is made writable")
					}
				}
			}
			if y.Kind == absint.XUndecided {
				bad("undecided: a way through it could not be followed")
				continue
			}
			if e == nil || e.Name != "proc "+proc || n != 1 {
				if failed(f, y) && e == nil {
					continue
				}
				bad("%s memory does not consist of one call of %s", op, proc)
				continue
			}
			ok := y.St.Eval(absint.Eq(e.Res[0], absint.Int(0), true))
			if ok == 0 {
				bad("does not look at whether %s succeeded", proc)
				continue
			}
			if ok == 1 {
				if len(copies) > 0 {
					bad("writes although %s failed", proc)
				}
				if !failed(f, y) {
					bad("reports no failure when %s fails", proc)
				}
				continue
			}
			if y.Kind != absint.XReturn {
				bad("fails although %s succeeded", proc)
				continue
			}
			if len(y.Vals) > 0 && y.St.Eval(isNil(y.Vals[len(y.Vals)-1])) != 1 {
				bad("reports a failure although %s succeeded", proc)
				continue
			}
			won++
			arg := func(i int) *absint.Term {
				if i < len(e.Args) {
					return e.Args[i]
				}
				return absint.Sym("missing")
			}
			is := func(t *absint.Term, vs ...int64) bool {
				for t.Op == "conv" {
					t = t.Args[0]
				}
				k, ok := t.IsInt()
				for _, v := range vs {
					if ok && k == v {
						return true
					}
				}
				return false
			}
			switch op {
			case "allocating":
				if !is(arg(0), 0) || arg(1) != ps[0] || !is(arg(2), 0x3000) || !is(arg(3), 4, 0x40) {
					bad("does not ask for that many bytes of writable memory")
				}
				if s := y.Vals[0]; s.Op != "bytesOf" || s.Args[0] != e.Res[0] || absint.Len(s) != ps[0] {
					bad("does not give the memory it got")
				}
			case "releasing":
				whole := is(arg(2), 0x4000) && arg(1) == absint.Len(ps[0]) || is(arg(2), 0x8000) && is(arg(1), 0)
				if arg(0) != absint.SlicePtr(ps[0]) || !whole {
					bad("does not release the memory it is given")
				}
			case "making executable", "writing":
				var at *absint.Term
				for _, q := range ps {
					if op == "writing" && types.Identical(typeOfTerm(q), types.Typ[types.Uintptr]) {
						at = q
					} else if op != "writing" {
						at = absint.SlicePtr(q)
					}
				}
				exec := []int64{0x10, 0x20, 0x40}
				if op == "writing" {
					exec = []int64{0x40}
				}
				if at == nil || absint.PageOf(arg(0)) != arg(0) || arg(0) != absint.PageOf(at) || arg(1) != size || !is(arg(2), exec...) {
					bad("does not give the page of the memory the protection it needs")
				}
				if op == "writing" {
					D := ps[1]
					if at == ps[1] {
						D = ps[0]
					}
					okCopy := len(copies) == 1 && copies[0].Kind == absint.EvCopy
					if okCopy {
						d, s := copies[0].Args[0], copies[0].Args[1]
						okCopy = d.Op == "bytesOf" && d.Args[0] == at && (absint.Len(d) == absint.Len(D)) && s == D
					}
					if !okCopy {
						bad("does not copy the data, and only it, to the address")
					}
				}
			}
		}
	}
	if won == 0 {
		r.Bad(key, pos, "never succeeds")
	}
	for b := range in.Problems {
		r.Bad(key, pos, "undecided: "+b)
	}
}

func typeOfTerm(t *absint.Term) types.Type {
	if T, ok := t.Val.(types.Type); ok {
		return T
	}
	return types.Typ[types.Invalid]
}
