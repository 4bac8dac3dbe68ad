package checks

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"

	"mockeycheck/load"
)

func init() {
	rule("runtime-symbols", "what the library links to in the runtime exists in every release, with that signature, and may be linked to", 12, ruleSymbols)
	rule("runtime-layout", "memory of the runtime's structures is read at places where the release has a value of that size", 10, ruleLayout)
	decides("C17", "runtime-symbols", "runtime-layout")
	decides("C30", "runtime-symbols")
}

// releaseConfigs are the configurations whose ties to the runtime are checked.
func releaseConfigs(c *Ctx) []load.Config {
	cfgs := releases("linux", "amd64", "")
	cfgs = append(cfgs, releases("linux", "amd64", "mockey_stw")...)
	cfgs = append(cfgs, load.Config{GOOS: "linux", GOARCH: "amd64", Tags: "race"}, LinuxARM, load.Config{GOOS: "windows", GOARCH: "amd64"})
	if c.Thorough {
		cfgs = append(cfgs, releases("linux", "amd64", "race")...)
		cfgs = append(cfgs, releases("linux", "arm64", "")...)
		cfgs = append(cfgs, releases("linux", "arm64", "mockey_stw")...)
		cfgs = append(cfgs, releases("darwin", "arm64", "")...)
		cfgs = append(cfgs, releases("darwin", "amd64", "")...)
		cfgs = append(cfgs, releases("windows", "amd64", "")...)
	}
	var out []load.Config
	seen := map[string]bool{}
	for _, x := range cfgs {
		if !seen[x.String()] {
			seen[x.String()] = true
			out = append(out, x)
		}
	}
	return out
}

// cell is a machine word, or less, of a value.
type cell struct {
	off, size int64
	class     string // "int", "ptr", "float"
	path      string
}

func cellsOf(t types.Type, sizes types.Sizes) (out []cell) {
	var add func(t types.Type, off int64, path string)
	word := sizes.Sizeof(types.Typ[types.Uintptr])
	add = func(t types.Type, off int64, path string) {
		one := func(class string) { out = append(out, cell{off, sizes.Sizeof(t), class, path}) }
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				out = append(out, cell{off, word, "ptr", path + ".ptr"}, cell{off + word, word, "int", path + ".len"})
			case u.Info()&types.IsFloat != 0, u.Info()&types.IsComplex != 0:
				one("float")
			case u.Kind() == types.UnsafePointer:
				one("ptr")
			default:
				one("int")
			}
		case *types.Struct:
			var fs []*types.Var
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, u.Field(i))
			}
			os := sizes.Offsetsof(fs)
			for i, f := range fs {
				add(f.Type(), off+os[i], path+"."+f.Name())
			}
		case *types.Array:
			n := sizes.Sizeof(u.Elem())
			for i := int64(0); i < u.Len() && i < 64; i++ {
				add(u.Elem(), off+i*n, fmt.Sprintf("%s[%d]", path, i))
			}
		case *types.Slice:
			out = append(out, cell{off, word, "ptr", path + ".ptr"}, cell{off + word, word, "int", path + ".len"}, cell{off + 2*word, word, "int", path + ".cap"})
		case *types.Interface:
			out = append(out, cell{off, word, "ptr", path + ".type"}, cell{off + word, word, "ptr", path + ".data"})
		default:
			one("ptr")
		}
	}
	add(t, 0, "")
	return
}

// sameCells: values of the two types are passed and laid out alike.
func sameCells(a, b types.Type, sizes types.Sizes) bool {
	x, y := cellsOf(a, sizes), cellsOf(b, sizes)
	if len(x) != len(y) || sizes.Sizeof(a) != sizes.Sizeof(b) {
		return false
	}
	for i := range x {
		if x[i].off != y[i].off || x[i].size != y[i].size || x[i].class != y[i].class {
			return false
		}
	}
	return true
}

func sameTuple(a, b *types.Tuple, sizes types.Sizes) bool {
	if a.Len() != b.Len() {
		return false
	}
	for i := 0; i < a.Len(); i++ {
		if !sameCells(a.At(i).Type(), b.At(i).Type(), sizes) {
			return false
		}
	}
	return true
}

// pushed: the definition allows to be linked to.
func pushed(q *packages.Package, name string) bool {
	for _, f := range q.Syntax {
		for _, cg := range f.Comments {
			for _, cm := range cg.List {
				w := strings.Fields(cm.Text)
				if len(w) >= 2 && w[0] == "//go:linkname" && (w[1] == name || len(w) == 3 && w[2] == q.PkgPath+"."+name) {
					return true
				}
			}
		}
	}
	return false
}

func declOf(q *packages.Package, name string) *ast.FuncDecl {
	for _, f := range q.Syntax {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == name {
				return fd
			}
		}
	}
	return nil
}

func ruleSymbols(c *Ctx, r *Report) {
	for _, cfg := range releaseConfigs(c) {
		r.Config = cfg.String()
		p := c.Prog(cfg)
		fns := moduleFunctions(p)
		for _, pkg := range p.Pkgs {
			links := linknames(pkg)
			for _, fd := range bodyless(pkg) {
				remote := links[fd.Name.Name]
				obj, _ := pkg.TypesInfo.Defs[fd.Name].(*types.Func)
				if remote == "" || obj == nil {
					continue
				}
				local := p.SSA.FuncValue(obj)
				if local == nil {
					continue
				}
				calls, used := usesOf(fns, local)
				if !used {
					continue
				}
				key := strings.TrimPrefix(pkg.PkgPath, p.Module+"/") + "." + fd.Name.Name
				pos := p.Pos(fd.Pos())
				r.Functions[key] = true
				r.Ob(key + " = " + remote + " in " + cfg.String())
				i := strings.LastIndex(remote, ".")
				if i < 0 {
					r.Bad(key, pos, "undecided: linked to "+remote)
					continue
				}
				q := p.All[remote[:i]]
				if q == nil || q.Types == nil {
					r.Bad(key, pos, "is linked to "+remote+", a package the program does not have")
					continue
				}
				name := remote[i+1:]
				def := declOf(q, name)
				o, _ := q.Types.Scope().Lookup(name).(*types.Func)
				if def == nil || o == nil {
					if inAssembly(q, name) {
						if len(calls) > 0 {
							r.Bad(key, pos, "undecided: calls "+remote+", whose signature only its assembly knows")
						}
						continue
					}
					r.Bad(key, pos, remote+" does not exist in this release")
					continue
				}
				sig, want := obj.Type().(*types.Signature), o.Type().(*types.Signature)
				if len(calls) > 0 && (!sameTuple(sig.Params(), want.Params(), p.Sizes) || !sameTuple(sig.Results(), want.Results(), p.Sizes)) {
					r.Bad(key, pos, fmt.Sprintf("is declared as %s, %s of this release is %s", types.TypeString(sig, short), remote, types.TypeString(want, short)))
				}
				if def.Body != nil && minor(cfg) >= 23 && !strings.Contains(cfg.Tags, "mockey_stw") && !pushed(q, name) {
					r.Bad(key, pos, remote+" may not be linked to in this release")
				}
				for _, call := range calls {
					for k, a := range call.Common().Args {
						v, ok := a.(*ssa.Const)
						if !ok || k >= want.Params().Len() || v.Value == nil {
							continue
						}
						named, _ := want.Params().At(k).Type().(*types.Named)
						if named == nil {
							continue
						}
						if vals := constantsOf(q.Types, named); len(vals) > 0 && !vals[v.Value.ExactString()] {
							r.Bad(key, p.Pos(call.Pos()), fmt.Sprintf("is called with %s, which is no %s of this release", v.Value, named.Obj().Name()))
						}
						r.Ob(fmt.Sprintf("%s called with %s in %s", key, v.Value, cfg))
					}
				}
			}
		}
	}
	for m := 18; m <= 22; m++ {
		oldSymbols(c, r, load.Config{GOOS: "linux", GOARCH: "amd64", Release: m})
	}
	r.Config = ""
}

// What stops and starts the world in the releases whose source is not at hand: sizes of what is
// passed, and of what comes back.
var oldWorld = []struct {
	from, to int
	name     string
	in, out  string
}{
	{18, 20, "stop", "0:8ptr 8:8int", ""},
	{18, 21, "start", "", ""},
	{21, 21, "stop", "0:1int", ""},
	{22, 22, "stop", "0:1int", "0:1int 8:8int"},
	{22, 22, "start", "0:1int 8:8int", ""},
}

func oldSymbols(c *Ctx, r *Report, cfg load.Config) {
	r.Config = cfg.String()
	p := c.Prog(cfg)
	fns := moduleFunctions(p)
	cells := func(t *types.Tuple) string {
		var out []string
		for i := 0; i < t.Len(); i++ {
			for _, x := range cellsOf(t.At(i).Type(), p.Sizes) {
				if x.path == "._" {
					continue
				}
				out = append(out, fmt.Sprintf("%d:%d%s", x.off, x.size, x.class))
			}
		}
		return strings.Join(out, " ")
	}
	for _, pkg := range p.Pkgs {
		links := linknames(pkg)
		for _, fd := range bodyless(pkg) {
			obj, _ := pkg.TypesInfo.Defs[fd.Name].(*types.Func)
			remote := links[fd.Name.Name]
			w := ""
			switch remote {
			case "runtime.stopTheWorld", "runtime.stopTheWorldGC":
				w = "stop"
			case "runtime.startTheWorld", "runtime.startTheWorldGC":
				w = "start"
			}
			if w == "" || obj == nil {
				continue
			}
			if calls, _ := usesOf(fns, p.SSA.FuncValue(obj)); len(calls) == 0 {
				continue
			}
			key := strings.TrimPrefix(pkg.PkgPath, p.Module+"/") + "." + fd.Name.Name
			r.Ob(key + " = " + remote + " in Go 1." + fmt.Sprint(cfg.Release))
			r.Functions[key+" in Go 1."+fmt.Sprint(cfg.Release)] = true
			sig := obj.Type().(*types.Signature)
			for _, o := range oldWorld {
				if o.name == w && o.from <= cfg.Release && cfg.Release <= o.to && (cells(sig.Params()) != o.in || cells(sig.Results()) != o.out) {
					r.Bad(key, p.Pos(fd.Pos()), fmt.Sprintf("is declared as %s, but %s of this release takes [%s] and gives [%s]", types.TypeString(sig, short), remote, o.in, o.out))
				}
			}
		}
	}
}

func short(p *types.Package) string { return p.Name() }

// constantsOf are the values of the constants of a type.
func constantsOf(pkg *types.Package, T *types.Named) map[string]bool {
	out := map[string]bool{}
	for _, n := range pkg.Scope().Names() {
		if k, ok := pkg.Scope().Lookup(n).(*types.Const); ok && types.Identical(k.Type(), T) && k.Val().Kind() == constant.Int {
			out[k.Val().ExactString()] = true
		}
	}
	return out
}

// usesOf finds the calls of a function and whether it is used at all.
func usesOf(fns []*ssa.Function, f *ssa.Function) (calls []ssa.CallInstruction, used bool) {
	for _, g := range fns {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok && call.Common().StaticCallee() == f {
					calls = append(calls, call)
					used = true
				}
				for _, op := range i.Operands(nil) {
					if op != nil && *op == ssa.Value(f) {
						used = true
					}
				}
			}
		}
	}
	return
}

// inAssembly: the package has the function in assembly.
func inAssembly(q *packages.Package, name string) bool {
	cfg := load.Config{}
	for _, o := range q.OtherFiles {
		if filepath.Ext(o) != ".s" {
			continue
		}
		fs, _ := asmNames(o, cfg)
		if fs[name] {
			return true
		}
	}
	return false
}

// ---- views of memory ----

// view is memory of a type seen as another type.
type view struct {
	conv *ssa.Convert
	from types.Type
	to   types.Type
}

// viewsOf finds the conversions of the address of one thing to that of another.
func viewsOf(f *ssa.Function) (out []view) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			cv, ok := i.(*ssa.Convert)
			if !ok {
				continue
			}
			to, ok := cv.Type().Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			x := cv.X
			off := int64(0)
			for {
				if y, ok := x.(*ssa.Convert); ok {
					x = y.X
					continue
				}
				if y, ok := x.(*ssa.ChangeType); ok {
					x = y.X
					continue
				}
				break
			}
			from, ok := x.Type().Underlying().(*types.Pointer)
			if !ok || off != 0 || types.Identical(from.Elem(), to.Elem()) {
				continue
			}
			out = append(out, view{cv, from.Elem(), to.Elem()})
		}
	}
	return
}

func ruleLayout(c *Ctx, r *Report) {
	for _, cfg := range releaseConfigs(c) {
		if strings.Contains(cfg.Tags, "mockey_stw") {
			continue
		}
		r.Config = cfg.String()
		p := c.Prog(cfg)
		runtimeFacts(p, r)
		for _, f := range moduleFunctions(p) {
			for _, v := range viewsOf(f) {
				if b, ok := v.from.Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
					continue // bytes of instructions
				}
				if n, ok := v.from.(*types.Named); ok && n.Obj().Pkg() != nil && p.InModule(n.Obj().Pkg().Path()) {
					continue // the library's own idea of a descriptor (rules lookup and runtime-types)
				}
				key := fnKey(f)
				r.Functions[key] = true
				have := cellsOf(v.from, p.Sizes)
				want := usedCells(v, p.Sizes)
				for _, w := range want {
					r.Ob(fmt.Sprintf("%s: %s of a %s as %s%s", key, p.Pos(v.conv.Pos()), v.from, v.to, w.path))
					ok := false
					for _, h := range have {
						if h.off == w.off && h.size == w.size && (w.class != "ptr" || h.class == "ptr") {
							ok = true
						}
					}
					if !ok {
						r.Bad(key, p.Pos(v.conv.Pos()), fmt.Sprintf("uses the %d bytes at offset %d of a %s as %s, where there is no such value", w.size, w.off, v.from, kindName(w.class)))
					}
				}
			}
		}
	}
	r.Config = ""
}

func kindName(c string) string {
	return map[string]string{"ptr": "a pointer", "int": "a number", "float": "a float"}[c]
}

// usedCells are the parts of a view that are read or written.
func usedCells(v view, sizes types.Sizes) (out []cell) {
	seen := map[int64]bool{}
	add := func(T types.Type, off int64) {
		for _, c := range cellsOf(T, sizes) {
			c.off += off
			if !seen[c.off] {
				seen[c.off] = true
				out = append(out, c)
			}
		}
	}
	var follow func(x ssa.Value, T types.Type, off int64)
	follow = func(x ssa.Value, T types.Type, off int64) {
		refs := x.Referrers()
		if refs == nil {
			return
		}
		for _, i := range *refs {
			switch u := i.(type) {
			case *ssa.UnOp:
				if u.Op == token.MUL {
					loads(u, T, off, add, sizes)
				}
			case *ssa.Store:
				if u.Addr == x {
					add(T, off)
				}
			case *ssa.FieldAddr:
				s, ok := T.Underlying().(*types.Struct)
				if !ok {
					continue
				}
				follow(u, s.Field(u.Field).Type(), off+fieldOffset(s, u.Field, sizes))
			}
		}
	}
	follow(v.conv, v.to, 0)
	sort.Slice(out, func(i, j int) bool { return out[i].off < out[j].off })
	return
}

// loads: of a struct that is read as a whole only the fields taken count.
func loads(u *ssa.UnOp, T types.Type, off int64, add func(types.Type, int64), sizes types.Sizes) {
	s, ok := T.Underlying().(*types.Struct)
	if ok && u.Referrers() != nil {
		for _, j := range *u.Referrers() {
			fl, isField := j.(*ssa.Field)
			if !isField {
				ok = false
				break
			}
			_ = fl
		}
		if ok {
			for _, j := range *u.Referrers() {
				k := j.(*ssa.Field).Field
				add(s.Field(k).Type(), off+fieldOffset(s, k, sizes))
			}
			return
		}
	}
	add(T, off)
}

func fieldOffset(s *types.Struct, k int, sizes types.Sizes) int64 {
	var fs []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, s.Field(i))
	}
	return sizes.Offsetsof(fs)[k]
}

// runtimeFacts checks what the other rules take for granted about the runtime of the release.
func runtimeFacts(p *load.Program, r *Report) {
	fact := func(pkg, typ, field string, off int64) {
		got, _, ok := runtimeOffset(p, pkg, typ, field)
		what := fmt.Sprintf("%s.%s.%s at offset %d", pkg, typ, field, off)
		r.Ob(what)
		if !ok || got != off {
			r.Bad("assumption", "-", "undecided: the release does not have "+what)
		}
	}
	fact("reflect", "Value", "ptr", 8)
	fact("reflect", "makeFuncImpl", "makeFuncCtxt", 0)
	fact("reflect", "makeFuncCtxt", "fn", 0)
	fact("runtime", "funcval", "fn", 0)
	fact("runtime", "eface", "data", 8)
	fact("runtime", "slice", "array", 0)
	fact("runtime", "slice", "len", 8)
	fact("runtime", "slice", "cap", 16)
	fact("runtime", "stringStruct", "str", 0)
	fact("runtime", "stringStruct", "len", 8)
}
