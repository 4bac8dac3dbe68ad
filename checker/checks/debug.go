package checks

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"mockeycheck/load"
)

func init() {
	rule("debug-only-prints", "nothing but printing depends on the debug flag, and printing runs no code of the user", 10, ruleDebug)
	decides("C22", "debug-only-prints")
}

// Platforms are the systems and processors the library has code for.
var Platforms = []load.Config{
	{GOOS: "linux", GOARCH: "amd64"},
	{GOOS: "linux", GOARCH: "arm64"},
	{GOOS: "darwin", GOARCH: "amd64"},
	{GOOS: "darwin", GOARCH: "arm64"},
	{GOOS: "windows", GOARCH: "amd64"},
	{GOOS: "linux", GOARCH: "amd64", Tags: "race"},
	{GOOS: "linux", GOARCH: "amd64", Tags: "mockey_stw"},
}

func ruleDebug(c *Ctx, r *Report) {
	for _, cfg := range Platforms {
		r.Config = cfg.String()
		d := newDebug(c.Prog(cfg), r)
		d.solve()
		d.judge()
	}
	r.Config = ""
}

// debugFlow follows what depends on the debug flag.
type debugFlow struct {
	p       *load.Program
	r       *Report
	fns     []*ssa.Function
	val     map[ssa.Value]bool // values that depend on the flag
	glob    map[*ssa.Global]bool
	ret     map[*ssa.Function]bool
	ctl     map[*ssa.BasicBlock]bool // blocks that run or not depending on the flag
	whole   map[*ssa.Function]bool   // functions that switch the flag
	callers map[*ssa.Function][]ssa.CallInstruction
	cd      map[*ssa.Function]map[*ssa.BasicBlock][]*ssa.BasicBlock
	change  bool
	memo    map[*ssa.Function]int // 1 under way or fine, 2 not
	printer map[*ssa.Function]map[int]bool
	under   map[*ssa.Function]bool // called because of the flag
	sources int
}

const debugVar = "MOCKEY_DEBUG"

// moduleFunctions are the functions of the module that have a body.
func moduleFunctions(p *load.Program) []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(p.SSA) {
		if f.Pkg == nil || f.Blocks == nil || !p.InModule(f.Pkg.Pkg.Path()) {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool {
		if a, b := out[i].String(), out[j].String(); a != b {
			return a < b
		}
		return out[i].Pos() < out[j].Pos()
	})
	return out
}

func newDebug(p *load.Program, r *Report) *debugFlow {
	d := &debugFlow{p: p, r: r, val: map[ssa.Value]bool{}, glob: map[*ssa.Global]bool{}, ret: map[*ssa.Function]bool{},
		ctl: map[*ssa.BasicBlock]bool{}, whole: map[*ssa.Function]bool{}, callers: map[*ssa.Function][]ssa.CallInstruction{},
		cd: map[*ssa.Function]map[*ssa.BasicBlock][]*ssa.BasicBlock{}, memo: map[*ssa.Function]int{}, printer: map[*ssa.Function]map[int]bool{}, under: map[*ssa.Function]bool{}}
	d.fns = moduleFunctions(p)
	for _, f := range d.fns {
		r.Functions[fnKey(f)] = true
		d.cd[f] = controls(f)
		if f.Name() == "SetDebugMode" {
			d.whole[f] = true
			d.sources++
			for _, b := range f.Blocks {
				d.ctl[b] = true
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						d.callers[g] = append(d.callers[g], ci)
					}
				}
			}
		}
	}
	return d
}

// controls maps every block to the blocks that run or not depending on how it ends.
func controls(f *ssa.Function) map[*ssa.BasicBlock][]*ssa.BasicBlock {
	n := len(f.Blocks)
	// post-dominators by iteration over sets; exit is block n
	full := func() []bool {
		s := make([]bool, n+1)
		for i := range s {
			s[i] = true
		}
		return s
	}
	pd := make([][]bool, n+1)
	for i := range pd {
		pd[i] = full()
	}
	pd[n] = make([]bool, n+1)
	pd[n][n] = true
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := f.Blocks[i]
			s := full()
			meet := func(o []bool) {
				for k := range s {
					s[k] = s[k] && o[k]
				}
			}
			for _, x := range b.Succs {
				meet(pd[x.Index])
			}
			if len(b.Succs) == 0 {
				meet(pd[n])
			}
			s[i] = true
			for k := range s {
				if s[k] != pd[i][k] {
					pd[i], ch = s, true
					break
				}
			}
		}
	}
	out := map[*ssa.BasicBlock][]*ssa.BasicBlock{}
	for _, b := range f.Blocks {
		if len(b.Succs) < 2 {
			continue
		}
		for _, x := range f.Blocks {
			some := false
			for _, s := range b.Succs {
				some = some || pd[s.Index][x.Index]
			}
			if some && (!pd[b.Index][x.Index] || x == b) {
				out[b] = append(out[b], x)
			}
		}
	}
	return out
}

func (d *debugFlow) set(v ssa.Value) {
	if v != nil && !d.val[v] {
		d.val[v] = true
		d.change = true
	}
}

// localRoot finds the local variable or fresh object an address or slice is part of.
func localRoot(v ssa.Value) ssa.Value {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) ssa.Value
	walk = func(v ssa.Value) ssa.Value {
		if seen[v] {
			return nil
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.FieldAddr:
			return walk(x.X)
		case *ssa.IndexAddr:
			return walk(x.X)
		case *ssa.Slice:
			return walk(x.X)
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			return v
		case *ssa.Phi:
			var root ssa.Value
			for _, e := range x.Edges {
				if k, ok := e.(*ssa.Const); ok && k.IsNil() {
					root = x
					continue
				}
				w := walk(e)
				if w == nil && seen[e] {
					continue
				}
				if w == nil {
					return nil
				}
				root = w
			}
			return root
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				if k, ok := x.Call.Args[0].(*ssa.Const); ok && k.IsNil() {
					return x
				}
				return walk(x.Call.Args[0])
			}
		}
		return nil
	}
	return walk(v)
}

// globalRoot finds the package-level variable an address is part of.
func globalRoot(v ssa.Value) *ssa.Global {
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.FieldAddr:
		return globalRoot(x.X)
	case *ssa.IndexAddr:
		return globalRoot(x.X)
	}
	return nil
}

// atomicStore is the address a call of sync/atomic writes to, and the value written.
func atomicStore(cc *ssa.CallCommon) (addr, val ssa.Value) {
	g := cc.StaticCallee()
	if g == nil || pkgOf(g) != "sync/atomic" || !strings.HasPrefix(g.Name(), "Store") || len(cc.Args) != 2 {
		return nil, nil
	}
	return cc.Args[0], cc.Args[1]
}

// solve finds everything that depends on the flag.
func (d *debugFlow) solve() {
	for d.change = true; d.change; {
		d.change = false
		for _, f := range d.fns {
			d.flow(f)
		}
	}
	if d.sources == 0 {
		need(false, "the place where the debug mode is switched on")
	}
}

func isDebugSource(c *ssa.CallCommon) bool {
	for _, a := range c.Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == debugVar {
			return true
		}
	}
	return false
}

func (d *debugFlow) flow(f *ssa.Function) {
	for _, b := range f.Blocks {
		if iff, ok := last(b).(*ssa.If); ok && (d.val[iff.Cond] || d.ctl[b]) {
			for _, x := range d.cd[f][b] {
				if d.val[iff.Cond] || x != b {
					if !d.ctl[x] {
						d.ctl[x], d.change = true, true
					}
				}
			}
		}
		for _, i := range b.Instrs {
			d.instr(f, b, i)
		}
	}
	// results
	if f.Signature.Results().Len() > 0 && !d.ret[f] {
		var rets []*ssa.Return
		ctl := false
		for _, b := range f.Blocks {
			if t, ok := last(b).(*ssa.Return); ok {
				rets = append(rets, t)
				ctl = ctl || d.ctl[b]
				for _, v := range t.Results {
					if d.val[v] {
						d.ret[f], d.change = true, true
					}
				}
			}
		}
		if ctl {
			for _, t := range rets[1:] {
				for k := range t.Results {
					if !sameValue(t.Results[k], rets[0].Results[k]) && !d.ret[f] {
						d.ret[f], d.change = true, true
					}
				}
			}
		}
	}
}

func last(b *ssa.BasicBlock) ssa.Instruction {
	if len(b.Instrs) == 0 {
		return nil
	}
	return b.Instrs[len(b.Instrs)-1]
}

func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && types.Identical(x.Type(), y.Type()) && (x.Value == nil && y.Value == nil || x.Value != nil && y.Value != nil && constant.Compare(x.Value, token.EQL, y.Value))
}

func (d *debugFlow) instr(f *ssa.Function, b *ssa.BasicBlock, i ssa.Instruction) {
	any := func() bool {
		for _, o := range i.Operands(nil) {
			if *o != nil && d.val[*o] {
				return true
			}
		}
		return false
	}
	switch x := i.(type) {
	case *ssa.Phi:
		t := any()
		for k, p := range b.Preds {
			iff, _ := last(p).(*ssa.If)
			if d.ctl[p] || iff != nil && d.val[iff.Cond] {
				for _, e := range x.Edges {
					t = t || !sameValue(e, x.Edges[k])
				}
			}
		}
		if t {
			d.set(x)
		}
	case *ssa.Store:
		if !d.ctl[b] && !d.val[x.Val] {
			return
		}
		if g := globalRoot(x.Addr); g != nil {
			if !d.glob[g] {
				d.glob[g], d.change = true, true
			}
			return
		}
		if w := localRoot(x.Addr); w != nil {
			d.set(w)
		} else if fv, ok := x.Addr.(*ssa.FreeVar); ok {
			d.set(fv)
			d.captured(f, fv)
		}
	case *ssa.UnOp:
		if g := globalRoot(x.X); x.Op == token.MUL && g != nil && d.glob[g] {
			d.set(x)
		} else if w := localRoot(x.X); x.Op == token.MUL && w != nil && d.val[w] || any() {
			d.set(x)
		}
	case *ssa.MakeClosure:
		for k, v := range x.Bindings {
			if d.val[v] {
				d.set(x.Fn.(*ssa.Function).FreeVars[k])
			}
		}
	case ssa.CallInstruction:
		cc := x.Common()
		g := cc.StaticCallee()
		v, _ := i.(ssa.Value)
		if isDebugSource(cc) {
			if v != nil && !d.val[v] {
				d.sources++
				d.set(v)
			}
			return
		}
		if g != nil && g.Blocks != nil && d.p.InModule(pkgOf(g)) {
			for k, a := range cc.Args {
				if d.val[a] && k < len(g.Params) {
					d.set(g.Params[k])
				}
			}
			if d.ret[g] && v != nil {
				d.set(v)
			}
			return
		}
		if a, w := atomicStore(cc); a != nil && (d.ctl[b] || d.val[w]) {
			if g := globalRoot(a); g != nil && !d.glob[g] {
				d.glob[g], d.change = true, true
			}
			return
		}
		t := any()
		if g != nil && pkgOf(g) == "sync/atomic" {
			for _, a := range cc.Args {
				if w := globalRoot(a); w != nil && d.glob[w] {
					t = true
				}
			}
		}
		if v != nil && t {
			d.set(v)
		}
	default:
		if v, ok := i.(ssa.Value); ok && any() {
			d.set(v)
		}
	}
}

// captured marks a variable of an enclosing function.
func (d *debugFlow) captured(f *ssa.Function, fv *ssa.FreeVar) {
	k := -1
	for i, v := range f.FreeVars {
		if v == fv {
			k = i
		}
	}
	p := f.Parent()
	if k < 0 || p == nil {
		return
	}
	for _, b := range p.Blocks {
		for _, i := range b.Instrs {
			if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == f {
				d.set(mc.Bindings[k])
			}
		}
	}
}

func pkgOf(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if f.Origin() != nil {
		return pkgOf(f.Origin())
	}
	if f.Signature.Recv() != nil {
		if n, ok := deref(f.Signature.Recv().Type()).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

// ---- what may depend on the flag ----

func (d *debugFlow) bad(f *ssa.Function, pos token.Pos, msg string) {
	if !pos.IsValid() {
		pos = f.Pos()
	}
	d.r.Bad(fnKey(f), d.p.Pos(pos), msg)
}

func (d *debugFlow) judge() {
	for ch := true; ch; {
		ch = false
		for _, f := range d.fns {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if ci, ok := i.(ssa.CallInstruction); ok && (d.ctl[b] || d.under[f]) {
						if g := ci.Common().StaticCallee(); g != nil && g.Blocks != nil && d.p.InModule(pkgOf(g)) && !d.under[g] {
							d.under[g], ch = true, true
						}
					}
				}
			}
		}
	}
	// printers first: where arguments of a function are printed because of the flag
	for ch := true; ch; {
		ch = false
		for _, f := range d.fns {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					ci, ok := i.(ssa.CallInstruction)
					if !ok || !d.ctl[b] && !d.under[f] && !d.isPrinter(ci) {
						continue
					}
					for _, a := range d.printed(ci) {
						for _, v := range argElements(a) {
							if pm, ok := v.(*ssa.Parameter); ok && pm.Parent() == f {
								for k, q := range f.Params {
									if q == pm && !d.printer[f][k] && mayBeUsers(q.Type()) {
										if d.printer[f] == nil {
											d.printer[f] = map[int]bool{}
										}
										d.printer[f][k], ch = true, true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	for _, f := range d.fns {
		for _, b := range f.Blocks {
			if d.ctl[b] {
				d.r.Ob(fnKey(f) + " region")
			}
			for _, i := range b.Instrs {
				if d.ctl[b] {
					if d.whole[f] {
						if st, ok := i.(*ssa.Store); ok && globalRoot(st.Addr) != nil {
							continue
						}
					}
					if msg := d.effect(f, b, i); msg != "" {
						d.bad(f, i.Pos(), "in debug mode only, "+msg)
					}
				}
				if ci, ok := i.(ssa.CallInstruction); ok && (d.ctl[b] || d.under[f] || d.isPrinter(ci)) {
					if len(d.printed(ci)) > 0 {
						d.r.Ob(fnKey(f) + " prints")
					}
					if msg := d.usersCode(f, ci); msg != "" {
						d.bad(f, i.Pos(), msg)
					}
				}
				if msg := d.sink(f, b, i); msg != "" {
					d.bad(f, i.Pos(), msg)
				}
			}
		}
		if d.ret[f] && f.Pkg == d.p.Root() && f.Parent() == nil && token.IsExported(f.Name()) {
			d.bad(f, f.Pos(), "a result depends on the debug flag")
		}
	}
}

// sink tells how a value that depends on the flag gets anywhere but into what is printed.
func (d *debugFlow) sink(f *ssa.Function, b *ssa.BasicBlock, i ssa.Instruction) string {
	switch x := i.(type) {
	case *ssa.Store:
		if !d.val[x.Val] {
			return ""
		}
		if globalRoot(x.Addr) != nil || localRoot(x.Addr) != nil {
			return ""
		}
		if _, ok := x.Addr.(*ssa.FreeVar); ok {
			return ""
		}
		return "what is stored here depends on the debug flag"
	case *ssa.MapUpdate:
		if d.val[x.Key] || d.val[x.Value] {
			if localRoot(x.Map) == nil {
				return "what is stored here depends on the debug flag"
			}
		}
	case *ssa.Send:
		if d.val[x.X] {
			return "what is sent here depends on the debug flag"
		}
	case *ssa.Panic:
		if d.val[x.X] {
			return "what is raised here depends on the debug flag"
		}
	case *ssa.IndexAddr:
		if d.val[x.Index] && !d.ctl[b] {
			return "the element used here depends on the debug flag"
		}
	case ssa.CallInstruction:
		cc := x.Common()
		if isDebugSource(cc) {
			return ""
		}
		g := cc.StaticCallee()
		if g != nil && g.Blocks != nil && d.p.InModule(pkgOf(g)) {
			return ""
		}
		tainted := d.val[cc.Value]
		for _, a := range cc.Args {
			tainted = tainted || d.val[a]
		}
		if tainted {
			if msg := d.callEffect(f, i, cc); msg != "" {
				return "what is passed here depends on the debug flag: " + msg
			}
		}
	}
	return ""
}

// effect tells what an instruction that runs in debug mode only does besides printing.
func (d *debugFlow) effect(f *ssa.Function, b *ssa.BasicBlock, i ssa.Instruction) string {
	switch x := i.(type) {
	case *ssa.Store:
		if globalRoot(x.Addr) != nil {
			return "" // what depends on the variable is followed
		}
		if _, ok := x.Addr.(*ssa.FreeVar); ok {
			return ""
		}
		if localRoot(x.Addr) == nil {
			return "something is stored"
		}
	case *ssa.MapUpdate:
		if localRoot(x.Map) == nil {
			return "a map is changed"
		}
	case *ssa.Send, *ssa.Select:
		return "a channel is used"
	case *ssa.Go:
		return "a goroutine is started"
	case *ssa.Panic:
		return "a panic is raised"
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return "a channel is used"
		}
		if x.Op == token.MUL {
			return d.nilDeref(b, i, x.X)
		}
	case *ssa.FieldAddr:
		return d.nilDeref(b, i, x.X)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return "a conversion that may fail is made"
		}
	case *ssa.BinOp:
		if x.Op == token.QUO || x.Op == token.REM {
			if k, ok := x.Y.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) != 0 {
				return ""
			}
			if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
				return "a division that may fail is made"
			}
		}
	case *ssa.IndexAddr:
		return d.bounds(b, i, x.X, x.Index)
	case *ssa.Index:
		return d.bounds(b, i, x.X, x.Index)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			return d.bounds(b, i, x.X, x.Index)
		}
	case *ssa.Slice:
		if localRoot(x.X) != nil && x.Low == nil && x.High == nil {
			return ""
		}
		for _, e := range []ssa.Value{x.Low, x.High, x.Max} {
			if e == nil {
				continue
			}
			if msg := d.bounds(b, i, x.X, e); msg != "" {
				return msg
			}
		}
	case ssa.CallInstruction:
		return d.callEffect(f, i, x.Common())
	}
	return ""
}

// harmless: a function that only computes and prints.
func (d *debugFlow) harmless(g *ssa.Function) string {
	if d.memo[g] != 0 {
		if d.memo[g] == 2 {
			return fnKey(g) + " does more than computing and printing"
		}
		return ""
	}
	d.memo[g] = 1
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			msg := ""
			if st, ok := i.(*ssa.Store); ok {
				if gl := globalRoot(st.Addr); gl != nil && !d.glob[gl] {
					msg = gl.Name() + " is changed"
				}
				if fv, ok := st.Addr.(*ssa.FreeVar); ok {
					msg = fv.Name() + " is changed"
				}
			}
			if msg == "" {
				msg = d.effect(g, b, i)
			}
			if msg != "" {
				d.memo[g] = 2
				return msg + " by " + fnKey(g)
			}
		}
	}
	return ""
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "bytes": true, "unicode": true, "unicode/utf8": true, "errors": true,
	"encoding/hex": true, "math": true, "math/bits": true, "path": true, "path/filepath": true, "cmp": true}

var pureFuncs = map[string]string{
	"fmt":           " Print Printf Println Sprint Sprintf Sprintln Errorf Fprint Fprintf Fprintln Append Appendf Appendln ",
	"log":           " Print Printf Println Output ",
	"runtime":       " Caller Callers CallersFrames FuncForPC Name FileLine Entry Next Version KeepAlive NumGoroutine ",
	"reflect":       " TypeOf ValueOf Kind Type String Pointer IsValid NumIn NumOut In Out Name PkgPath IsVariadic Size Align Bits NumMethod UnsafePointer CanSet CanAddr CanInterface CanInt CanUint NumField Len Cap PtrTo PointerTo SliceOf ",
	"os":            " Getenv LookupEnv Getpid Write WriteString Environ Hostname ",
	"time":          " Now Since Format String Sub Unix UnixNano UnixMilli Seconds Milliseconds ",
	"sync/atomic":   " LoadInt32 LoadInt64 LoadUint32 LoadUint64 LoadUintptr LoadPointer Load ",
	"runtime/debug": " Stack PrintStack ",
}

func (d *debugFlow) callEffect(f *ssa.Function, i ssa.Instruction, cc *ssa.CallCommon) string {
	if _, ok := i.(*ssa.Go); ok {
		return "a goroutine is started"
	}
	if cc.IsInvoke() {
		n := cc.Method.Name()
		it, _ := cc.Value.Type().(*types.Named)
		if it != nil && it.Obj().Pkg() != nil && d.p.InModule(it.Obj().Pkg().Path()) {
			for _, g := range d.fns {
				if g.Name() == n && g.Signature.Recv() != nil && types.Implements(g.Signature.Recv().Type(), it.Underlying().(*types.Interface)) {
					if msg := d.harmless(g); msg != "" {
						return msg
					}
				}
			}
			return ""
		}
		if n == "String" || n == "Error" || n == "GoString" {
			return ""
		}
		if cc.Method.Pkg() != nil && strings.Contains(pureFuncs[cc.Method.Pkg().Path()], " "+n+" ") {
			return ""
		}
		return "method " + n + " of an interface is called"
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		switch v.Name() {
		case "print", "println", "len", "cap", "min", "max", "real", "imag", "complex", "ssa:wrapnilchk", "Sizeof", "Offsetof", "Alignof", "Add", "String", "StringData", "SliceData", "ssa:deferstack":
			return ""
		case "append":
			if k, ok := cc.Args[0].(*ssa.Const); ok && k.IsNil() || localRoot(cc.Args[0]) != nil {
				return ""
			}
			return "append may write into an existing slice"
		case "copy", "clear", "delete":
			if localRoot(cc.Args[0]) != nil {
				return ""
			}
			return v.Name() + " changes something"
		}
		return v.Name() + " is called"
	}
	if a, _ := atomicStore(cc); a != nil && globalRoot(a) != nil {
		return ""
	}
	if g := cc.StaticCallee(); g != nil {
		p := pkgOf(g)
		if d.p.InModule(p) {
			if g.Blocks == nil {
				return fnKey(g) + " is called, which has no body to look at"
			}
			return d.harmless(g)
		}
		if p == "fmt" && strings.HasPrefix(g.Name(), "Fprint") && !localOrStd(cc.Args[0]) {
			return "something is written elsewhere than to the standard output"
		}
		if purePkgs[p] || strings.Contains(pureFuncs[p], " "+g.Name()+" ") {
			return ""
		}
		if g.Name() == "String" || g.Name() == "Error" || g.Name() == "GoString" {
			return ""
		}
		return p + "." + g.Name() + " is called"
	}
	for _, g := range d.targets(cc.Value, map[ssa.Value]bool{}) {
		if g == nil {
			return "a function value is called"
		}
		if msg := d.harmless(g); msg != "" {
			return msg
		}
	}
	return ""
}

func localOrStd(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return localOrStd(x.X)
	case *ssa.Alloc:
		return true
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "os" {
			return true
		}
	case *ssa.Global:
		return false
	}
	return false
}

// targets are the functions a function value may be; nil among them: others.
func (d *debugFlow) targets(v ssa.Value, seen map[ssa.Value]bool) []*ssa.Function {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Function:
		if x.Blocks == nil || !d.p.InModule(pkgOf(x)) {
			return []*ssa.Function{nil}
		}
		return []*ssa.Function{x}
	case *ssa.MakeClosure:
		return d.targets(x.Fn, seen)
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range x.Edges {
			out = append(out, d.targets(e, seen)...)
		}
		return out
	case *ssa.Parameter:
		f := x.Parent()
		if len(d.callers[f]) == 0 {
			return []*ssa.Function{nil}
		}
		var out []*ssa.Function
		for k, p := range f.Params {
			if p == x {
				for _, c := range d.callers[f] {
					out = append(out, d.targets(c.Common().Args[k], seen)...)
				}
			}
		}
		return out
	}
	return []*ssa.Function{nil}
}

// conds gives the conditions that hold or not where a block runs.
func conds(b *ssa.BasicBlock) []ssa.Value {
	var out []ssa.Value
	for x := b; x != nil; x = x.Idom() {
		if p := x.Idom(); p != nil {
			if iff, ok := last(p).(*ssa.If); ok {
				out = append(out, iff.Cond)
			}
		}
	}
	return out
}

func mentions(v ssa.Value, ok func(ssa.Value) bool, depth int) bool {
	if v == nil || depth < 0 {
		return false
	}
	if ok(v) {
		return true
	}
	i, is := v.(ssa.Instruction)
	if !is {
		return false
	}
	for _, o := range i.Operands(nil) {
		if mentions(*o, ok, depth-1) {
			return true
		}
	}
	return false
}

func lenOf(x ssa.Value) func(v ssa.Value) bool {
	return func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" && b.Name() != "cap" {
			return false
		}
		return sameLoad(c.Call.Args[0], x)
	}
}

func sameLoad(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL {
		return sameLoad(x.X, y.X)
	}
	p, ok1 := a.(*ssa.FieldAddr)
	q, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && p.Field == q.Field && sameLoad(p.X, q.X)
}

// bounds: an index that may be out of range.
func (d *debugFlow) bounds(b *ssa.BasicBlock, i ssa.Instruction, x, idx ssa.Value) string {
	const msg = "an index that may be out of range is used"
	if at, ok := deref(x.Type()).Underlying().(*types.Array); ok {
		if k, ok := idx.(*ssa.Const); ok && k.Int64() <= at.Len() {
			return ""
		}
	} else if k, ok := idx.(*ssa.Const); ok && k.Int64() == 0 {
		if _, ok := i.(*ssa.Slice); ok {
			return ""
		}
	}
	if mentions(idx, lenOf(x), 3) {
		return ""
	}
	if _, ok := deref(x.Type()).Underlying().(*types.Array); ok {
		if mentions(idx, func(v ssa.Value) bool { _, is := v.(*ssa.Const); return is }, 3) && localRoot(x) != nil {
			return ""
		}
	}
	for _, c := range conds(b) {
		if mentions(c, lenOf(x), 4) {
			return ""
		}
		bo, ok := c.(*ssa.BinOp)
		if !ok || !mentions(bo, func(v ssa.Value) bool { return v == idx }, 2) {
			continue
		}
		if mentions(bo, func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			b, is := ssa.Value(nil), false
			if ok {
				b = c.Call.Value
				_, is = b.(*ssa.Builtin)
			}
			return is && b.Name() == "len"
		}, 3) {
			return ""
		}
		if at, ok := deref(x.Type()).Underlying().(*types.Array); ok {
			for _, o := range []ssa.Value{bo.X, bo.Y} {
				if k, ok := o.(*ssa.Const); ok && k.Value != nil && k.Int64() <= at.Len() {
					return ""
				}
			}
		}
	}
	return msg
}

// nilDeref: an address that may be nil is used.
func (d *debugFlow) nilDeref(b *ssa.BasicBlock, i ssa.Instruction, x ssa.Value) string {
	switch v := x.(type) {
	case *ssa.UnOp, *ssa.Call, *ssa.Extract, *ssa.Phi, *ssa.Lookup, *ssa.TypeAssert:
		if c, ok := v.(*ssa.Call); ok && c.Call.StaticCallee() == nil && !c.Call.IsInvoke() {
			return ""
		}
		for _, c := range conds(b) {
			if mentions(c, func(y ssa.Value) bool { return sameLoad(y, x) }, 3) {
				return ""
			}
		}
		// used before, in any mode
		for _, ref := range *x.Referrers() {
			if ref.Block() != b && ref.Block().Dominates(b) {
				return ""
			}
		}
		return "an address that may be nil is used"
	}
	return ""
}

// ---- what is printed ----

func (d *debugFlow) isPrinter(ci ssa.CallInstruction) bool {
	g := ci.Common().StaticCallee()
	return g != nil && d.printer[g] != nil
}

// printed gives the arguments of a call that are formatted because of the flag.
func (d *debugFlow) printed(ci ssa.CallInstruction) []ssa.Value {
	cc := ci.Common()
	g := cc.StaticCallee()
	if g == nil {
		return nil
	}
	var out []ssa.Value
	switch p := pkgOf(g); {
	case p == "fmt" || p == "log":
		out = append(out, cc.Args...)
	case d.printer[g] != nil:
		for k, a := range cc.Args {
			if d.printer[g][k] {
				out = append(out, a)
			}
		}
	}
	return out
}

// argElements gives the values in a list of arguments.
func argElements(v ssa.Value) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if _, ok := v.Type().Underlying().(*types.Slice); !ok {
			if _, ok := v.(*ssa.Alloc); !ok {
				out = append(out, v)
				return
			}
		}
		switch x := v.(type) {
		case *ssa.Const:
		case *ssa.Slice:
			walk(x.X)
		case *ssa.Alloc, *ssa.MakeSlice:
			for _, ref := range *v.Referrers() {
				if ia, ok := ref.(*ssa.IndexAddr); ok {
					for _, s := range *ia.Referrers() {
						if st, ok := s.(*ssa.Store); ok && st.Addr == ia {
							out = append(out, st.Val)
						}
					}
				}
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				for _, a := range x.Call.Args {
					walk(a)
				}
				return
			}
			out = append(out, v)
		default:
			out = append(out, v)
		}
	}
	walk(v)
	return out
}

// mayBeUsers: formatting a value of the type may run methods of the user's types.
func mayBeUsers(t types.Type) bool { return usersIn(t, 0) }

func usersIn(t types.Type, depth int) bool {
	if depth > 6 {
		return false
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value" {
			return true
		}
		ms := types.NewMethodSet(types.NewPointer(n))
		for i := 0; i < ms.Len(); i++ {
			switch ms.At(i).Obj().Name() {
			case "String", "Error", "Format", "GoString":
				return false // its own method is looked at
			}
		}
	}
	switch x := t.Underlying().(type) {
	case *types.Interface:
		return x.NumMethods() == 0
	case *types.Slice:
		return usersIn(x.Elem(), depth+1)
	case *types.Array:
		return usersIn(x.Elem(), depth+1)
	case *types.Map:
		return usersIn(x.Elem(), depth+1) || usersIn(x.Key(), depth+1)
	case *types.Pointer:
		if _, ok := x.Elem().Underlying().(*types.Basic); ok || depth > 0 {
			return false
		}
		return usersIn(x.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if x.Field(i).Exported() && usersIn(x.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

// usersCode tells how formatting the arguments of a call may run the user's code.
func (d *debugFlow) usersCode(f *ssa.Function, ci ssa.CallInstruction) string {
	args := d.printed(ci)
	if len(args) == 0 {
		return ""
	}
	var verbs []byte
	for _, a := range ci.Common().Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			verbs = verbsOf(constant.StringVal(k.Value))
		}
	}
	for _, a := range args {
		es := argElements(a)
		for k, v := range es {
			if _, ok := a.Type().Underlying().(*types.Slice); ok && k < len(verbs) && strings.IndexByte("Tp", verbs[k]) >= 0 {
				continue
			}
			if pm, ok := v.(*ssa.Parameter); ok {
				for n, q := range f.Params {
					if q == pm && d.printer[f][n] && len(d.callers[f]) > 0 {
						v = nil // looked at where the function is called
					}
				}
			}
			if v == nil {
				continue
			}
			if g := ci.Common().StaticCallee(); g != nil && pkgOf(g) == "fmt" && strings.HasPrefix(g.Name(), "F") && v == ci.Common().Args[0] {
				continue
			}
			if msg := d.users(v, map[ssa.Value]bool{}); msg != "" {
				return msg
			}
		}
	}
	return ""
}

func verbsOf(s string) (out []byte) {
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			continue
		}
		i++
		for i < len(s) && strings.IndexByte("+-# 0123456789.[]*", s[i]) >= 0 {
			i++
		}
		if i < len(s) && s[i] != '%' {
			out = append(out, s[i])
		}
	}
	return
}

func (d *debugFlow) users(v ssa.Value, seen map[ssa.Value]bool) string {
	const msg = "debug output formats a value of the user's, which runs the user's methods"
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.MakeClosure, *ssa.Builtin:
		return ""
	case *ssa.ChangeInterface:
		return d.users(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if m := d.users(e, seen); m != "" {
				return m
			}
		}
		return ""
	case *ssa.MakeInterface:
		if m := d.ownMethods(x.X.Type()); m != "" {
			return m
		}
		if mayBeUsers(x.X.Type()) {
			if fixedContents(x.X) {
				return ""
			}
			return msg
		}
		return ""
	}
	if !mayBeUsers(v.Type()) {
		return d.ownMethods(v.Type())
	}
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
			return ""
		}
		if g := x.Call.StaticCallee(); g != nil && pkgOf(g) != "reflect" && !d.p.InModule(pkgOf(g)) {
			return ""
		}
	case *ssa.Extract:
		return d.users(x.Tuple, seen)
	}
	return msg
}

// fixedContents: a list built here of values that are not the user's.
func fixedContents(v ssa.Value) bool {
	if localRoot(v) == nil {
		return false
	}
	for _, e := range argElements(v) {
		mi, ok := e.(*ssa.MakeInterface)
		if !ok {
			if ci, ok := e.(*ssa.ChangeInterface); ok && !mayBeUsers(ci.X.Type()) {
				continue
			}
			return false
		}
		if mayBeUsers(mi.X.Type()) {
			return false
		}
	}
	return true
}

// ownMethods looks at the formatting methods of the library's own types.
func (d *debugFlow) ownMethods(t types.Type) string {
	n, ok := deref(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !d.p.InModule(n.Obj().Pkg().Path()) {
		return ""
	}
	for _, g := range d.fns {
		if g.Signature.Recv() == nil || g.Synthetic != "" {
			continue
		}
		if rn, ok := deref(g.Signature.Recv().Type()).(*types.Named); !ok || rn.Obj() != n.Obj() {
			continue
		}
		switch g.Name() {
		case "String", "Error", "Format", "GoString":
			if msg := d.harmless(g); msg != "" {
				return "in debug mode only, " + msg
			}
		}
	}
	return ""
}
