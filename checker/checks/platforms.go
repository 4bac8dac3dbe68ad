package checks

import (
	"fmt"
	"strings"

	"mockeycheck/load"
)

func init() {
	rule("platforms", "the library type-checks on every system, architecture, build tag and Go release it is for, and nothing is left without an implementation", 10, rulePlatforms)
	decides("C30", "platforms")
}

// builds are the configurations in which the library must be whole.
func builds(c *Ctx) (out []load.Config) {
	for _, os := range []string{"linux", "darwin", "windows"} {
		for _, arch := range []string{"amd64", "arm64"} {
			for _, tags := range []string{"", "mockey_stw", "race"} {
				if tags == "race" && os == "windows" && arch == "arm64" {
					continue // Go has none
				}
				out = append(out, load.Config{GOOS: os, GOARCH: arch, Tags: tags})
			}
		}
	}
	for m := 18; m <= 22; m++ {
		out = append(out, load.Config{GOOS: "linux", GOARCH: "amd64", Release: m})
		if c.Thorough {
			for _, x := range []load.Config{{GOOS: "linux", GOARCH: "arm64"}, {GOOS: "darwin", GOARCH: "arm64"}, {GOOS: "windows", GOARCH: "amd64"}, {GOOS: "linux", GOARCH: "amd64", Tags: "mockey_stw"}, {GOOS: "linux", GOARCH: "amd64", Tags: "race"}} {
				x.Release = m
				out = append(out, x)
			}
		}
	}
	for _, root := range load.GoRoots() {
		if root == load.DefaultRoot() {
			continue
		}
		out = append(out, load.Config{GOOS: "linux", GOARCH: "amd64", GoRoot: root})
		if c.Thorough {
			for _, x := range []load.Config{{GOOS: "linux", GOARCH: "arm64"}, {GOOS: "darwin", GOARCH: "arm64"}, {GOOS: "darwin", GOARCH: "amd64"}, {GOOS: "windows", GOARCH: "amd64"}, {GOOS: "linux", GOARCH: "amd64", Tags: "mockey_stw"}, {GOOS: "linux", GOARCH: "amd64", Tags: "race"}} {
				x.GoRoot = root
				out = append(out, x)
			}
		}
	}
	return
}

func rulePlatforms(c *Ctx, r *Report) {
	for _, cfg := range builds(c) {
		r.Config = cfg.String()
		p, errs := c.typed(cfg)
		r.Ob("the library for " + cfg.String())
		for i, e := range errs {
			if i < 3 {
				r.Bad("build", strings.TrimPrefix(e, load.Repo+"/"), "does not type-check for "+cfg.String())
			}
		}
		if p == nil || len(errs) > 0 {
			continue
		}
		// bodies
		for _, pkg := range p.Pkgs {
			links := linknames(pkg)
			var names map[string]bool
			for _, fd := range bodyless(pkg) {
				if links[fd.Name.Name] != "" {
					continue
				}
				r.Ob(fmt.Sprintf("%s.%s for %s", pkg.PkgPath, fd.Name.Name, cfg))
				if names == nil {
					names = map[string]bool{}
					for _, o := range pkg.OtherFiles {
						if strings.HasSuffix(o, ".s") {
							fs, _ := asmNames(o, cfg)
							for n := range fs {
								names[n] = true
							}
						}
					}
				}
				if !names[fd.Name.Name] {
					r.Bad(strings.TrimPrefix(pkg.PkgPath, p.Module+"/")+"."+fd.Name.Name, p.Pos(fd.Pos()), "has neither a body nor an implementation in assembly")
				}
			}
		}
	}
	r.Config = ""
}
