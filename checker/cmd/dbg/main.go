package main

import (
	"fmt"
	"os"
	"strings"

	"mockeycheck/absint"
	"mockeycheck/checks"
	"mockeycheck/load"
)

func main() {
	if r := os.Getenv("MOCKEYCHECK_REPO"); r != "" {
		load.Repo = r
	}
	if len(os.Args) > 1 && os.Args[1] == "rule" {
		runRules(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "rules" {
		for id := range checks.Rules {
			fmt.Println(id)
		}
		return
	}
	c := checks.NewCtx(os.Getenv("THOROUGH") != "")
	cfg := checks.Linux
	if x := os.Getenv("CFG"); x != "" {
		w := strings.Split(x, "/")
		cfg = load.Config{GOOS: w[0], GOARCH: w[1]}
		if len(w) > 2 {
			cfg.Tags = w[2]
		}
	}
	m := c.Model(cfg)
	if len(os.Args) > 1 && os.Args[1] == "hooks" {
		for i, h := range m.Hooks(&checks.Report{}) {
			fmt.Println("== hook", i, h.Entry, h.Path.Kind, h.Opaque, len(h.Ends), "T", h.T)
			if len(os.Args) > 2 && os.Args[2] != fmt.Sprint(i) {
				continue
			}
			for _, r := range h.Ends {
				fmt.Println("-- ", r.Kind, r.Vals)
				for _, l := range r.St.Lits()[h.N0:] {
					fmt.Println("      if", l)
				}
				for _, e := range r.St.Events() {
					show(e, "      ")
				}
			}
		}
		return
	}
	in := m.Interp()
	if os.Getenv("LOW") != "" {
		in = c.LowInterp(cfg)
	}
	for f := range m.Printers {
		fmt.Println("printer", f)
	}
	for fn := range in.AllFunctions() {
		if len(os.Args) < 2 || !strings.HasSuffix(fn.String(), os.Args[1]) {
			continue
		}
		fmt.Println("==", fn)
		var args []*absint.Term
		for _, q := range fn.Params {
			args = append(args, absint.ParamOf(q))
		}
		rs := in.Call(absint.NewState(), fn, args, nil, "R")
		fmt.Println(len(rs), "paths", in.Steps, "steps")
		for _, r := range rs {
			if os.Getenv("RET") != "" && r.Kind != absint.XReturn {
				continue
			}
			fmt.Println("-- ", r.Kind, r.Vals)
			if len(os.Args) > 2 {
				continue
			}
			for _, l := range r.St.Lits() {
				fmt.Println("      if", l)
			}
			for _, e := range r.St.Events() {
				show(e, "      ")
			}
		}
		for k := range in.Problems {
			fmt.Println("PROBLEM", k)
		}
	}
}

func show(e *absint.Event, ind string) {
	fmt.Println(ind+"ev", e)
	if e.Loop == nil {
		return
	}
	fmt.Println(ind+"  count", e.Loop.Count)
	for _, b := range e.Loop.Binds {
		fmt.Println(ind+"  bind", b.Kind, b.Phi, b.Cell, "=", b.Val)
	}
	for _, it := range e.Loop.Exits {
		fmt.Println(ind+"  exit", it.Kind, it.Lits, it.Vals)
	}
	for _, it := range e.Loop.Conts {
		fmt.Println(ind+"  cont", it.Lits, it.Next)
		for _, x := range it.Events {
			show(x, ind+"      ")
		}
	}
}
