package main

import (
	"fmt"
	"os"
	"time"

	"mockeycheck/checks"
)

func runRules(ids []string) {
	c := checks.NewCtx(os.Getenv("THOROUGH") != "")
	for _, id := range ids {
		t := time.Now()
		r := c.RunRule(id)
		fmt.Printf("%s: %d obligations, %d paths, %d functions, %d findings, %.1fs\n", id, r.Obligations, r.Paths, len(r.Functions), len(r.Findings), time.Since(t).Seconds())
		for i, f := range r.Findings {
			if i > 12 {
				fmt.Println("  ...")
				break
			}
			fmt.Printf("  %s [%s] %s\n", f.Key, f.Pos, f.Msg)
			if os.Getenv("V") != "" {
				for _, d := range f.Detail {
					if len(d) > 240 {
						d = d[:240]
					}
					fmt.Println("      ", d)
				}
			}
		}
	}
}
