// Package load type-checks the analysed module and builds its SSA form.
package load

import (
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Repo is the analysed tree.
var Repo = "/repo"

// GoRoots are the Go releases at hand, oldest first.
func GoRoots() []string {
	m, _ := filepath.Glob("/opt/veriftools/go1.*")
	var out []string
	for _, d := range m {
		if _, err := os.Stat(filepath.Join(d, "src", "runtime", "runtime2.go")); err == nil {
			out = append(out, d)
		}
	}
	sort.Strings(out)
	return out
}

// Minor is the minor version of a Go root.
func Minor(root string) int {
	b := filepath.Base(root)
	var n int
	fmt.Sscanf(b, "go1.%d", &n)
	return n
}

// Config selects a build configuration.
type Config struct {
	GOOS, GOARCH string
	Tags         string
	GoRoot       string // "" for the release the repository is built with
	Release      int    // select files as Go 1.Release does; 0: as the release of GoRoot
}

func (c Config) String() string {
	s := c.GOOS + "/" + c.GOARCH
	if c.Tags != "" {
		s += "+" + c.Tags
	}
	if c.GoRoot != "" {
		s += " " + filepath.Base(c.GoRoot)
	}
	if c.Release != 0 {
		s += fmt.Sprintf(" files of go1.%d", c.Release)
	}
	return s
}

// DefaultRoot is the Go release the repository is built with.
func DefaultRoot() string {
	rs := GoRoots()
	for _, r := range rs {
		if Minor(r) == 23 {
			return r
		}
	}
	if len(rs) > 0 {
		return rs[0]
	}
	return ""
}

func (c Config) root() string {
	if c.GoRoot != "" {
		return c.GoRoot
	}
	return DefaultRoot()
}

// Env is the environment go commands run in.
func (c Config) Env() []string {
	root := c.root()
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "PATH", "GOROOT", "GOFLAGS", "GOOS", "GOARCH", "CGO_ENABLED", "GOTOOLCHAIN", "GOPROXY", "GOSUMDB", "GOWORK", "GOEXPERIMENT", "GOAMD64", "GOMODCACHE", "GOPATH", "HOME":
			continue
		}
		env = append(env, e)
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
	}
	return append(env, "HOME="+home, "PATH="+root+"/bin:/usr/local/bin:/usr/bin:/bin", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOPROXY=off",
		"GOFLAGS=-mod=mod", "GOWORK=off", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "CGO_ENABLED=0", "GOOS="+c.GOOS, "GOARCH="+c.GOARCH)
}

// Program is a loaded program.
type Program struct {
	Config Config
	Module string
	Pkgs   []*packages.Package // packages of the module
	All    map[string]*packages.Package
	Fset   *token.FileSet
	Sizes  types.Sizes
	SSA    *ssa.Program
	SSAPkg map[string]*ssa.Package
	Errors []string
}

const mode = packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
	packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedEmbedFiles

// Load loads the module.
func Load(c Config, buildSSA bool) (*Program, error) {
	fset := token.NewFileSet()
	var err error
	cfg := &packages.Config{Mode: mode, Dir: Repo, Env: c.Env(), Fset: fset}
	if c.Tags != "" {
		cfg.BuildFlags = []string{"-tags", c.Tags}
	}
	if c.Release != 0 {
		if cfg.Overlay, err = c.overlay(); err != nil {
			return nil, err
		}
	}
	// the go command is looked up in the path of this process
	old := os.Getenv("PATH")
	os.Setenv("PATH", c.root()+"/bin:"+old)
	ps, err := packages.Load(cfg, "./...")
	os.Setenv("PATH", old)
	if err != nil {
		return nil, err
	}
	p := &Program{Config: c, Fset: fset, All: map[string]*packages.Package{}, SSAPkg: map[string]*ssa.Package{}}
	for _, q := range ps {
		if q.Module != nil && p.Module == "" {
			p.Module = q.Module.Path
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].PkgPath < ps[j].PkgPath })
	packages.Visit(ps, nil, func(q *packages.Package) {
		p.All[q.PkgPath] = q
		if p.InModule(q.PkgPath) {
			for _, e := range q.Errors {
				p.Errors = append(p.Errors, e.Error())
			}
		}
	})
	p.Pkgs = ps
	if len(ps) == 0 || p.Module == "" {
		return nil, fmt.Errorf("no packages in %s", Repo)
	}
	p.Sizes = ps[0].TypesSizes
	if buildSSA && len(p.Errors) == 0 {
		prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
		p.SSA = prog
		for i, x := range sp {
			if x == nil {
				return nil, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
			}
			p.SSAPkg[ps[i].PkgPath] = x
		}
		prog.Build()
	}
	return p, nil
}

// InModule reports that a package path belongs to the module.
func (p *Program) InModule(path string) bool {
	return path == p.Module || strings.HasPrefix(path, p.Module+"/")
}

// Root is the package users import.
func (p *Program) Root() *ssa.Package { return p.SSAPkg[p.Module] }

// Pkg gives an SSA package by its path below the module.
func (p *Program) Pkg(sub string) *ssa.Package { return p.SSAPkg[p.Module+"/"+sub] }

// Pos formats a position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, Repo+"/"), q.Line)
}

// Decl finds the declaration of a function object.
func (p *Program) Decl(obj types.Object) *ast.FuncDecl {
	for _, q := range p.Pkgs {
		if q.Types != obj.Pkg() {
			continue
		}
		for _, f := range q.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && q.TypesInfo.Defs[fd.Name] == obj {
					return fd
				}
			}
		}
	}
	return nil
}

// overlay makes the go command select the files another release selects.
func (c Config) overlay() (map[string][]byte, error) {
	out := map[string][]byte{}
	tags := map[string]bool{c.GOOS: true, c.GOARCH: true, "gc": true}
	for _, t := range strings.FieldsFunc(c.Tags, func(r rune) bool { return r == ',' || r == ' ' }) {
		tags[t] = true
	}
	if c.GOOS == "linux" || c.GOOS == "darwin" {
		tags["unix"] = true
	}
	err := filepath.Walk(Repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() && (strings.HasPrefix(fi.Name(), ".") && path != Repo || fi.Name() == "testdata" || fi.Name() == "vendor") {
			return filepath.SkipDir
		}
		if fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		lines := strings.Split(string(b), "\n")
		changed, found := false, false
		for i, l := range lines {
			t := strings.TrimSpace(l)
			if strings.HasPrefix(t, "package ") {
				break
			}
			if constraint.IsGoBuild(t) && !found {
				x, err := constraint.Parse(t)
				if err != nil || !strings.Contains(t, "go1.") {
					return nil
				}
				on := x.Eval(func(tag string) bool {
					var n int
					if k, _ := fmt.Sscanf(tag, "go1.%d", &n); k == 1 {
						return n <= c.Release
					}
					return tags[tag]
				})
				lines[i] = "//go:build mockeycheck_never"
				if on {
					lines[i] = "//go:build !mockeycheck_never"
				}
				changed, found = true, true
			} else if constraint.IsPlusBuild(t) {
				lines[i] = "//"
			}
		}
		if changed {
			out[path] = []byte(strings.Join(lines, "\n"))
		}
		return nil
	})
	return out, err
}
