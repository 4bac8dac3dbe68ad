// Command mockeycheck decides one property of the analysed tree.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"mockeycheck/checks"
	"mockeycheck/load"
)

// known is a line of the known-findings file:
//
//	known: property=<id> rule=<rule> construct=<key> message=<part of the message> | <what fails>
type known struct{ property, rule, construct, message, what string }

func readKnown(path string) (out []known) {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		head, what, _ := strings.Cut(strings.TrimPrefix(l, "known:"), "|")
		k := known{what: strings.TrimSpace(what)}
		for _, p := range strings.Split(head, ";") {
			n, v, _ := strings.Cut(strings.TrimSpace(p), "=")
			switch n {
			case "property":
				k.property = v
			case "rule":
				k.rule = v
			case "construct":
				k.construct = v
			case "message":
				k.message = v
			}
		}
		if k.property != "" && k.rule != "" && k.construct != "" && k.message != "" {
			out = append(out, k)
		}
	}
	return
}

func (k known) covers(prop string, f checks.Finding) bool {
	return k.property == prop && k.rule == f.Rule && k.construct == f.Key && k.message == f.Msg
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mockeycheck <property> quick|thorough")
		os.Exit(1)
	}
	prop, tier := os.Args[1], os.Args[2]
	root := os.Getenv("MOCKEYCHECK_ROOT")
	if root == "" {
		root = "/verif"
	}
	if r := os.Getenv("MOCKEYCHECK_REPO"); r != "" {
		load.Repo = r
	}
	start := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	rules := checks.Decided[prop]
	if len(rules) == 0 {
		fmt.Printf("no rules decide %s\n", prop)
		fmt.Printf("VIOLATION property=%s replay=-\n", prop)
		os.Exit(1)
	}
	c := checks.NewCtx(tier == "thorough")
	var all []checks.Finding
	obl, paths := 0, 0
	funcs := map[string]bool{}
	var samples []string
	type ruleCov struct {
		Rule        string   `json:"rule"`
		Decides     string   `json:"decides"`
		Obligations int      `json:"obligations"`
		Paths       int      `json:"paths"`
		Functions   int      `json:"functions"`
		Findings    int      `json:"findings"`
		Notes       []string `json:"notes,omitempty"`
	}
	var cov []ruleCov
	for _, id := range rules {
		rep := c.RunRule(id)
		obl += rep.Obligations
		paths += rep.Paths
		for f := range rep.Functions {
			funcs[f] = true
		}
		for i, s := range rep.Sites {
			if i < 8 {
				samples = append(samples, id+": "+s)
			}
		}
		cov = append(cov, ruleCov{id, rep.Title, rep.Obligations, rep.Paths, len(rep.Functions), len(rep.Findings), rep.Notes})
		all = append(all, rep.Findings...)
	}
	kn := readKnown(filepath.Join(root, "known_findings.txt"))
	var bad []checks.Finding
	var listed []string
	for _, f := range all {
		ok := false
		for _, k := range kn {
			if k.covers(prop, f) {
				ok = true
				l := fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s", prop, k.construct, k.what)
				dup := false
				for _, x := range listed {
					dup = dup || x == l
				}
				if !dup {
					listed = append(listed, l)
				}
			}
		}
		if !ok {
			bad = append(bad, f)
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "other", "wall_s": time.Since(start).Seconds(),
		"coverage": map[string]interface{}{
			"explanation": "static analysis of the source in " + load.Repo + " (type-checked and in SSA form); nothing of it is executed. Each rule lists how many obligations it decided, on how many abstract paths through how many functions.",
			"obligations": obl, "discharged": obl - len(all), "paths": paths, "rules": cov, "functions": fl, "samples": samples,
			"violations": len(bad), "known_findings": listed,
		},
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	write := func(name string, v interface{}) string {
		p := filepath.Join(root, "evidence", name)
		b, _ := json.MarshalIndent(v, "", "  ")
		if err := os.WriteFile(p, append(b, '\n'), 0o644); err != nil {
			fmt.Println("cannot write", p, err)
		}
		return p
	}
	write(prop+".json", ev)
	fmt.Printf("%s (%s): %d obligations on %d paths through %d functions, %d rules, %.1fs\n", prop, tier, obl, paths, len(funcs), len(rules), time.Since(start).Seconds())
	for _, l := range listed {
		fmt.Println(l)
	}
	replay := filepath.Join(root, "evidence", prop+".violation.json")
	if len(bad) == 0 {
		os.Remove(replay)
		return
	}
	for i, f := range bad {
		if i == 20 {
			fmt.Printf("... and %d more\n", len(bad)-i)
			break
		}
		fmt.Printf("%s: [%s] %s: %s\n", f.Pos, f.Rule, f.Key, f.Msg)
		if i < 3 {
			for j, d := range f.Detail {
				if j == 12 {
					break
				}
				if len(d) > 300 {
					d = d[:300] + "…"
				}
				fmt.Println("    ", d)
			}
		}
	}
	write(prop+".violation.json", bad)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	os.Exit(1)
}
