package checks

import "sort"

// Decided maps a property to the rules that decide it.
var Decided = map[string][]string{}

func decides(prop string, rules ...string) { Decided[prop] = append(Decided[prop], rules...) }

// Properties lists the decided properties.
func Properties() []string {
	var out []string
	for p := range Decided {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

func init() {
	decides("C08", "dispatch")
	decides("C09", "filter")
	decides("C10", "counters")
}
