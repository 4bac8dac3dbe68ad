package checks

import (
	"fmt"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mockeycheck/absint"
	"mockeycheck/load"
)

func init() {
	rule("goroutine-number", "the goroutine number is read where the runtime of the release keeps it", 8, ruleGoid)
	decides("C18", "goroutine-number")
}

// releases are the configurations of the Go releases at hand on a platform.
func releases(goos, goarch, tags string) []load.Config {
	var out []load.Config
	for _, root := range load.GoRoots() {
		cfg := load.Config{GOOS: goos, GOARCH: goarch, Tags: tags}
		if root != load.DefaultRoot() {
			cfg.GoRoot = root
		}
		out = append(out, cfg)
	}
	return out
}

func minor(cfg load.Config) int {
	if cfg.GoRoot == "" {
		return load.Minor(load.DefaultRoot())
	}
	return load.Minor(cfg.GoRoot)
}

// releaseNames are what runtime.Version gives for a release.
func releaseNames(minor int) []string {
	out := []string{fmt.Sprintf("go1.%d.4", minor), fmt.Sprintf("go1.%d.12", minor), fmt.Sprintf("go1.%d.6 X:boringcrypto", minor)}
	if minor < 21 {
		return append(out, fmt.Sprintf("go1.%d", minor))
	}
	return append(out, fmt.Sprintf("go1.%d.0", minor))
}

// runtimeOffset is the offset of a field of a structure of the runtime.
func runtimeOffset(p *load.Program, pkg, typ, field string) (int64, types.Type, bool) {
	q := p.All[pkg]
	if q == nil || q.Types == nil {
		return 0, nil, false
	}
	o := q.Types.Scope().Lookup(typ)
	if o == nil {
		return 0, nil, false
	}
	s, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return 0, nil, false
	}
	var fs []*types.Var
	at := -1
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, s.Field(i))
		if s.Field(i).Name() == field {
			at = i
		}
	}
	if at < 0 {
		return 0, nil, false
	}
	return p.Sizes.Offsetsof(fs)[at], fs[at].Type(), true
}

func ruleGoid(c *Ctx, r *Report) {
	cfgs := releases("linux", "amd64", "")
	cfgs = append(cfgs, LinuxARM)
	if c.Thorough {
		cfgs = append(cfgs, releases("linux", "arm64", "")...)
		cfgs = append(cfgs, releases("darwin", "arm64", "")...)
		cfgs = append(cfgs, releases("linux", "amd64", "race")...)
	}
	for _, cfg := range cfgs {
		r.Config = cfg.String()
		p := c.Prog(cfg)
		off, T, ok := runtimeOffset(p, "runtime", "g", "goid")
		need(ok && p.Sizes.Sizeof(T) == 8, "runtime.g.goid in the source of %s", filepath.Base(load.DefaultRoot()))
		for _, v := range releaseNames(minor(cfg)) {
			goidOf(p, r, v, off)
		}
		if cfg.GoRoot == "" {
			// the releases whose source is not at hand kept it at 152
			for m := 18; m <= 22; m++ {
				for _, v := range releaseNames(m) {
					if !goidOf(p, r, v, 152) {
						break // what is read does not depend on the version found at run time
					}
				}
			}
		}
	}
	r.Config = ""
}

// goidOf runs the start-up of package tool under a version of Go and then reads the number.
func goidOf(p *load.Program, r *Report, version string, want int64) (asked bool) {
	tool := p.Pkg("internal/tool")
	need(tool != nil, "package internal/tool")
	f, start := tool.Func("GetGoroutineID"), tool.Func("init")
	need(f != nil && start != nil, "tool.GetGoroutineID")
	in := absint.New(p.SSA, p.Module, p.Sizes)
	in.Concrete = true
	in.External = map[string]absint.Intrinsic{}
	stringModels(in)
	in.External["runtime.Version"] = func(c *absint.CallCtx) []*absint.Result {
		asked = true
		return c.Return(absint.Str(version))
	}
	g := absint.Sym("the g of the goroutine")
	for _, m := range tool.Members {
		h, ok := m.(*ssa.Function)
		if !ok || len(h.Blocks) > 0 || h.Signature.Params().Len() != 0 || h.Signature.Results().Len() != 1 {
			continue
		}
		in.Intrinsics[h] = func(c *absint.CallCtx) []*absint.Result { return c.Return(g) } // rule asm-layout
	}
	for _, q := range p.Pkgs {
		sp := p.SSA.Package(q.Types)
		if sp != nil && sp != tool && sp.Func("init") != nil {
			in.Intrinsics[sp.Func("init")] = func(c *absint.CallCtx) []*absint.Result { return c.Return() }
		}
	}
	st := absint.NewState()
	if gu, ok := tool.Members["init$guard"].(*ssa.Global); ok {
		st.SetCell(absint.GlobalAddr(gu), absint.False)
	}
	w := &rworld{in: in}
	pos := p.Pos(f.Pos())
	type out struct{ msg string }
	var found []Finding
	n := 0
	for _, x := range in.Call(st, start, nil, nil, "init") {
		if x.Kind != absint.XReturn {
			continue
		}
		for _, y := range in.Call(x.St, f, nil, nil, "id") {
			n++
			r.Paths++
			if y.Kind != absint.XReturn || len(y.Vals) != 1 {
				found = append(found, Finding{Msg: "does not return a number"})
				continue
			}
			v := y.Vals[0]
			for v.Op == "conv" {
				v = v.Args[0]
			}
			if v.Op != "init" {
				found = append(found, Finding{Msg: "undecided: the number is not read from memory", Detail: []string{v.String()}})
				continue
			}
			base, off, ok := w.flat(v.Args[0])
			T := absint.Pointee(v.Args[0])
			if T == nil && v.Args[0].Op == "cast" {
				T, _ = v.Args[0].Val.(types.Type)
			}
			switch {
			case !ok || base != g:
				found = append(found, Finding{Msg: "undecided: the number is not read from the goroutine's g", Detail: []string{v.String()}})
			case off != want:
				found = append(found, Finding{Msg: fmt.Sprintf("reads the number at offset %d of g, where that release keeps it at %d", off, want)})
			case T == nil || in.Sizes.Sizeof(T) != 8:
				found = append(found, Finding{Msg: "does not read all 8 bytes of the number"})
			}
		}
	}
	r.Ob("GetGoroutineID under " + version)
	for e := range in.Entered {
		r.Functions[fnKey(e)] = true
	}
	if n == 0 {
		found = append(found, Finding{Msg: "undecided: no way through the start-up of package tool"})
	}
	for b := range in.Problems {
		if strings.Contains(b, "goroutine") {
			found = append(found, Finding{Msg: "undecided: " + b})
		}
	}
	for _, x := range found {
		r.Bad("GetGoroutineID under "+strings.Fields(version)[0][:min(6, len(version))], pos, x.Msg, x.Detail...)
	}
	return asked
}
