// Package checks holds the rules that decide the properties.
package checks

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mockeycheck/absint"
	"mockeycheck/load"
)

// Finding is a violated rule at a construct.
type Finding struct {
	Rule   string   `json:"rule"`
	Key    string   `json:"construct"` // stable name of the construct: function and role
	Pos    string   `json:"position"`
	Msg    string   `json:"message"`
	Detail []string `json:"detail,omitempty"`
	Config string   `json:"configuration,omitempty"`
}

// Report is what a rule did.
type Report struct {
	Rule        string
	Title       string
	Obligations int
	Functions   map[string]bool
	Paths       int
	Sites       []string
	Findings    []Finding
	Config      string
	Notes       []string
}

// Ob records a discharged or violated obligation at a site.
func (r *Report) Ob(site string) {
	r.Obligations++
	if len(r.Sites) < 60 {
		r.Sites = append(r.Sites, site)
	}
}

// Bad records a violation.
func (r *Report) Bad(key, pos, msg string, detail ...string) {
	for _, f := range r.Findings {
		if f.Key == key && f.Msg == msg && f.Config == r.Config {
			return
		}
	}
	if len(detail) > 40 {
		detail = detail[:40]
	}
	r.Findings = append(r.Findings, Finding{Rule: r.Rule, Key: key, Pos: pos, Msg: msg, Detail: detail, Config: r.Config})
}

// Rule is a decision procedure.
type Rule struct {
	ID    string
	Title string
	Min   int // least number of obligations on any tree where the anchors exist
	Run   func(c *Ctx, r *Report)
}

// Rules are all rules by name.
var Rules = map[string]*Rule{}

func rule(id, title string, min int, run func(c *Ctx, r *Report)) {
	Rules[id] = &Rule{ID: id, Title: title, Min: min, Run: run}
}

// Ctx is the analysed tree.
type Ctx struct {
	Thorough bool
	progs    map[string]*load.Program
	errs     map[string]error
	memo     map[string]interface{}
}

// NewCtx makes a context.
func NewCtx(thorough bool) *Ctx {
	return &Ctx{Thorough: thorough, progs: map[string]*load.Program{}, errs: map[string]error{}, memo: map[string]interface{}{}}
}

// Linux is the configuration the repository is tested in.
var Linux = load.Config{GOOS: "linux", GOARCH: "amd64"}

type loadError struct{ msg []string }

// Prog loads the module; a failure makes the running rule fail.
func (c *Ctx) Prog(cfg load.Config) *load.Program {
	k := cfg.String()
	if p, ok := c.progs[k]; ok {
		if len(p.Errors) > 0 {
			panic(&loadError{p.Errors})
		}
		return p
	}
	if e, ok := c.errs[k]; ok {
		panic(&loadError{[]string{e.Error()}})
	}
	p, err := load.Load(cfg, true)
	if err != nil {
		c.errs[k] = err
		panic(&loadError{[]string{err.Error()}})
	}
	c.progs[k] = p
	if len(p.Errors) > 0 {
		panic(&loadError{p.Errors})
	}
	return p
}

// typed gives the program of a configuration, perhaps without its SSA form, and what is wrong with it.
func (c *Ctx) typed(cfg load.Config) (*load.Program, []string) {
	k := cfg.String()
	p := c.progs[k]
	if p == nil {
		var err error
		if p, err = load.Load(cfg, false); err != nil {
			return nil, []string{err.Error()}
		}
	}
	return p, p.Errors
}

type anchorError struct{ what string }

// need fails the running rule when an anchor does not resolve.
func need(ok bool, format string, a ...interface{}) {
	if !ok {
		panic(&anchorError{fmt.Sprintf(format, a...)})
	}
}

// RunRule runs one rule; failing to decide is a finding.
func (c *Ctx) RunRule(id string) (rep *Report) {
	ru := Rules[id]
	if ru == nil {
		return &Report{Rule: id, Findings: []Finding{{Rule: id, Key: "rule", Msg: "unknown rule"}}}
	}
	if v, ok := c.memo["rule:"+id]; ok {
		return v.(*Report)
	}
	rep = &Report{Rule: id, Title: ru.Title, Functions: map[string]bool{}}
	defer func() {
		c.memo["rule:"+id] = rep
		e := recover()
		switch x := e.(type) {
		case nil:
			if rep.Obligations < ru.Min && len(rep.Findings) == 0 {
				rep.Bad("instances", "-", fmt.Sprintf("the rule found %d instances to decide, at least %d are expected: its anchors no longer resolve", rep.Obligations, ru.Min))
			}
		case *loadError:
			rep.Bad("type-check", "-", "the tree does not type-check in this configuration", x.msg...)
		case *anchorError:
			rep.Bad("anchor", "-", "undecided: "+x.what)
		default:
			rep.Bad("internal", "-", fmt.Sprintf("undecided: analysis failed: %v", x), strings.Split(string(debug.Stack()), "\n")...)
		}
	}()
	ru.Run(c, rep)
	return rep
}

// ---- helpers over paths ----

func describe(p *load.Program, r *absint.Result) []string {
	var out []string
	for _, l := range r.St.Lits() {
		out = append(out, "assuming "+l.String())
	}
	for _, e := range r.St.Events() {
		out = append(out, p.Pos(e.Pos)+": "+e.String())
	}
	out = append(out, "ends by "+r.Kind.String())
	return out
}

func flat(evs []*absint.Event) []*absint.Event {
	var out []*absint.Event
	for _, e := range evs {
		out = append(out, e)
		if e.Loop != nil {
			for _, it := range e.Loop.Conts {
				out = append(out, flat(it.Events)...)
			}
		}
	}
	return out
}

func fnKey(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.String()
	return strings.ReplaceAll(s, "github.com/bytedance/mockey", "mockey")
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
