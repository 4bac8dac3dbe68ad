package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type exitKind int

// Ways a function or a piece of code ends.
const (
	XReturn exitKind = iota
	XPanic
	XGoexit
	xContinue
	xExit
	XUndecided
)

func (k exitKind) String() string {
	return [...]string{"return", "panic", "exit", "continue", "leave", "undecided"}[k]
}

// Result is one way a piece of code ends.
type Result struct {
	St   *State
	Kind exitKind
	Vals []*Term
	Pos  token.Pos

	blk, prev *ssa.BasicBlock
	fr        *frame
}

type deferRec struct {
	instr *ssa.Defer
	fn    *Term
	args  []*Term
	loop  bool
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	path   string
	iters  []*Term
	defers []deferRec
	free   []*Term
	isDef  bool // called by a defer
	stack  []*ssa.Function
}

func (f *frame) clone() *frame {
	n := *f
	n.env = make(map[ssa.Value]*Term, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.iters = f.iters[:len(f.iters):len(f.iters)]
	return &n
}

// CallCtx is what an intrinsic or hook sees of a call.
type CallCtx struct {
	In   *Interp
	St   *State
	Fn   *ssa.Function // callee, when known
	Name string
	Recv *Term
	Args []*Term
	Pos  token.Pos
	Path string
	From *ssa.Function
	Sig  *types.Signature
	fr   *frame
}

// Intrinsic summarises a call.
type Intrinsic func(c *CallCtx) []*Result

// Interp is the abstract interpreter.
type Interp struct {
	Initial    func(addr *Term) *Term // known initial contents of memory (an invariant of the analysed code)
	OpaqueMade bool                   // calls of functions made with reflect.MakeFunc are events

	Prog         *ssa.Program
	Module       string
	Sizes        types.Sizes
	Fset         *token.FileSet
	Intrinsics   map[*ssa.Function]Intrinsic
	NonRetaining map[*ssa.Function]bool // functions that keep none of their arguments
	stay         map[ssa.Value]bool
	Invoke       func(c *CallCtx) ([]*Result, bool) // interface calls on unknown values
	AfterUser    func(st *State, ev *Event)         // effects of unknown code
	Volatile     func(addr *Term) bool              // memory unknown code may change
	Watch        func(addr *Term) bool              // reads to record as events
	UserExits    bool                               // unknown code may panic or exit
	Fleeting     func(t *Term) bool                 // slices whose elements are in memory others may change
	Opaque       func(fn *ssa.Function) bool        // module functions not to enter
	Recovers     bool                               // what a deferred function recovers is unknown
	MaxSteps     int
	Steps        int
	Problems     map[string]bool
	Entered      map[*ssa.Function]bool
	Bounds       bool // a slice expression that succeeds is within bounds
	NoSnap       bool
	InitialT     func(addr *Term, T types.Type) *Term              // known initial contents of memory, by type
	Text         func(p *Term, n int64) (string, bool)             // known bytes in memory
	Recursion    int                                               // how often a function may be under way (0: once)
	Concrete     bool                                              // the shape of the heap is known
	Spare        int64                                             // extra capacity of grown slices (concrete mode)
	External     map[string]Intrinsic                              // models of functions outside the module
	User         func(c *CallCtx, f, args *Term) ([]*Result, bool) // models of functions of the user
	freshN       int
	iterStack    []*Term // counters of the loops being analysed
	loops        map[*ssa.Function]*loopInfo
	globals      map[*ssa.Global]*Term
	globalsOK    map[*ssa.Global]bool
	ids          map[ssa.Instruction]string
}

// New makes an interpreter.
func New(prog *ssa.Program, module string, sizes types.Sizes) *Interp {
	SetProgram(prog)
	return &Interp{Prog: prog, Module: module, Sizes: sizes, Fset: prog.Fset, Intrinsics: map[*ssa.Function]Intrinsic{},
		MaxSteps: 400000, Problems: map[string]bool{}, Entered: map[*ssa.Function]bool{}, loops: map[*ssa.Function]*loopInfo{},
		globals: map[*ssa.Global]*Term{}, ids: map[ssa.Instruction]string{}}
}

func (in *Interp) fresh(name string) *Term {
	in.freshN++
	return Sym("?"+name+strconv.Itoa(in.freshN), in.iterStack...)
}

// freshT is an unknown value of type T.
func (in *Interp) freshT(name string, T types.Type) *Term {
	if T == nil {
		return in.fresh(name)
	}
	in.freshN++
	return raw("sym", "?"+name+strconv.Itoa(in.freshN), T, in.iterStack...)
}

func (in *Interp) problem(format string, a ...interface{}) {
	in.Problems[fmt.Sprintf(format, a...)] = true
}

func (in *Interp) id(i ssa.Instruction) string {
	if s, ok := in.ids[i]; ok {
		return s
	}
	b := i.Block()
	n := 0
	for k, x := range b.Instrs {
		if x == i {
			n = k
			break
		}
	}
	s := b.Parent().Name() + ":" + strconv.Itoa(b.Index) + "." + strconv.Itoa(n)
	in.ids[i] = s
	return s
}

// InModule reports that a function belongs to the analysed module.
func (in *Interp) InModule(fn *ssa.Function) bool {
	p := fn.Pkg
	for f := fn; p == nil && f.Parent() != nil; f = f.Parent() {
		p = f.Parent().Pkg
	}
	if p == nil {
		return fn.Synthetic != "" && len(fn.Blocks) > 0
	}
	pp := p.Pkg.Path()
	return pp == in.Module || strings.HasPrefix(pp, in.Module+"/")
}

// Call analyses a function from a state.
func (in *Interp) Call(st *State, fn *ssa.Function, args, free []*Term, root string) []*Result {
	return in.callFn(st, fn, args, free, root, nil, nil, false, token.NoPos)
}

// CallTerm analyses the call of a function term.
func (in *Interp) CallTerm(st *State, f *Term, args []*Term, root string) ([]*Result, bool) {
	switch f.Op {
	case "func":
		fn := f.Val.(*ssa.Function)
		return in.callFn(st, fn, args, nil, root, nil, nil, false, token.NoPos), true
	case "closure":
		fn := f.Val.(*ssa.Function)
		return in.callFn(st, fn, args, f.Args, root, nil, nil, false, token.NoPos), true
	}
	return nil, false
}

func (in *Interp) callFn(st *State, fn *ssa.Function, args, free []*Term, path string, iters []*Term, stack []*ssa.Function, isDef bool, pos token.Pos) []*Result {
	in.Entered[fn] = true
	fr := &frame{fn: fn, env: map[ssa.Value]*Term{}, path: path, iters: iters, free: free, isDef: isDef}
	fr.stack = append(append([]*ssa.Function(nil), stack...), fn)
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = in.fresh("arg")
		}
	}
	res := in.runBlocks(fr, st, fn.Blocks[0], nil, nil)
	var out []*Result
	for _, r := range res {
		switch r.Kind {
		case XReturn:
			out = append(out, r)
		case XPanic, XGoexit:
			out = append(out, in.unwind(r.fr, r)...)
		case XUndecided:
			out = append(out, r)
		default:
			in.problem("%s: internal: stray loop exit", fn)
			out = append(out, &Result{St: r.St, Kind: XUndecided})
		}
	}
	return out
}

// unwind runs the deferred calls of a frame that is left by a panic or exit.
func (in *Interp) unwind(fr *frame, r *Result) []*Result {
	if len(fr.defers) == 0 {
		return []*Result{r}
	}
	saved := r.St.unwinding
	r.St.unwinding = true
	if r.Kind == XGoexit {
		r.St.goexit = true
	} else if r.St.panicking == nil {
		r.St.panicking = Sym("panicval")
	}
	r.St.recovered = false
	var out []*Result
	for _, d := range in.runDefers(fr, r.St) {
		switch d.Kind {
		case XReturn:
			d.St.unwinding = saved
			if d.St.recovered {
				d.St.recovered = false
				d.St.panicking = nil
				if fr.fn.Recover != nil {
					f2 := fr.clone()
					f2.defers = nil
					for _, x := range in.runBlocks(f2, d.St, fr.fn.Recover, nil, nil) {
						out = append(out, x)
					}
				} else {
					var vs []*Term
					rs := fr.fn.Signature.Results()
					for i := 0; i < rs.Len(); i++ {
						vs = append(vs, Zero(rs.At(i).Type()))
					}
					out = append(out, &Result{St: d.St, Kind: XReturn, Vals: vs, fr: fr})
				}
				continue
			}
			if r.Kind == XPanic && !saved {
				// still panicking
			}
			out = append(out, &Result{St: d.St, Kind: r.Kind, Vals: r.Vals, Pos: r.Pos, fr: fr})
		default:
			d.St.unwinding = saved
			out = append(out, d)
		}
	}
	return out
}

// runDefers runs the deferred calls last-in first-out. The results are XReturn (go on).
func (in *Interp) runDefers(fr *frame, st *State) []*Result {
	type item struct {
		st *State
		n  int
	}
	work := []item{{st, len(fr.defers)}}
	var out []*Result
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		if w.n == 0 {
			out = append(out, &Result{St: w.st, Kind: XReturn})
			continue
		}
		d := fr.defers[w.n-1]
		if d.loop {
			in.problem("%s: defer in a loop", fr.fn)
		}
		for _, r := range in.callTerm(fr, w.st, d.instr, &d.instr.Call, d.fn, d.args, true) {
			switch r.Kind {
			case XReturn:
				work = append(work, item{r.St, w.n - 1})
			case XPanic, XGoexit:
				// the remaining deferred calls still run
				r.St.unwinding = true
				if r.Kind == XPanic && r.St.panicking == nil {
					r.St.panicking = Sym("panicval")
				}
				f2 := fr.clone()
				f2.defers = f2.defers[:w.n-1]
				out = append(out, in.unwind(f2, r)...)
			default:
				out = append(out, r)
			}
		}
	}
	return out
}

func (in *Interp) val(fr *frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return ConstTerm(v)
	case *ssa.Function:
		return FuncTerm(v)
	case *ssa.Global:
		return GlobalAddr(v)
	case *ssa.Builtin:
		return raw("builtin", v.Name(), nil)
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v && i < len(fr.free) {
				return fr.free[i]
			}
		}
		return Sym("freevar:" + v.Name())
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	in.problem("%s: value %s has no term", fr.fn, v.Name())
	t := in.fresh("undef")
	return t
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (in *Interp) runBlocks(fr *frame, st *State, blk, prev *ssa.BasicBlock, lp *loopT) []*Result {
	for {
		in.Steps++
		if in.Steps > in.MaxSteps {
			in.problem("%s: too many paths", fr.fn)
			return []*Result{{St: st, Kind: XUndecided, fr: fr}}
		}
		li := in.loopsOf(fr.fn)
		if lp != nil {
			if blk == lp.header && prev != nil {
				return []*Result{{St: st, Kind: xContinue, prev: prev, fr: fr}}
			}
			if !lp.blocks[blk] {
				return []*Result{{St: st, Kind: xExit, blk: blk, prev: prev, fr: fr}}
			}
		}
		if l2 := li.byHeader[blk]; l2 != nil && l2 != lp && (prev == nil || !l2.blocks[prev]) {
			var out []*Result
			for _, r := range in.execLoop(fr, st, l2, prev) {
				if r.Kind == xExit {
					out = append(out, in.runBlocks(r.fr, r.St, r.blk, r.prev, lp)...)
				} else {
					out = append(out, r)
				}
			}
			return out
		}
		if !(lp != nil && blk == lp.header) {
			in.setPhis(fr, blk, prev)
		}
		next, done := in.runInstrs(fr, &st, blk, 0, lp)
		if done != nil {
			return done
		}
		if next == nil {
			return nil
		}
		prev, blk = blk, next
	}
}

func (in *Interp) setPhis(fr *frame, blk, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	idx := -1
	for i, p := range blk.Preds {
		if p == prev {
			idx = i
		}
	}
	var vs []*Term
	var ps []*ssa.Phi
	for _, i := range blk.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, in.val(fr, p.Edges[idx]))
	}
	for i, p := range ps {
		fr.env[p] = vs[i]
	}
}

// runInstrs runs a block from instruction n. It returns the next block, or all results
// when the path was split or ended.
func (in *Interp) runInstrs(fr *frame, stp **State, blk *ssa.BasicBlock, n int, lp *loopT) (*ssa.BasicBlock, []*Result) {
	for ; n < len(blk.Instrs); n++ {
		st := *stp
		switch i := blk.Instrs[n].(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return blk.Succs[0], nil
		case *ssa.If:
			c := in.val(fr, i.Cond)
			switch st.Eval(c) {
			case 1:
				return blk.Succs[0], nil
			case -1:
				return blk.Succs[1], nil
			}
			s2 := st.Clone()
			f2 := fr.clone()
			ok1 := st.Assume(c, true)
			ok2 := s2.Assume(c, false)
			if !ok1 && !ok2 {
				return nil, []*Result{}
			}
			if !ok2 {
				return blk.Succs[0], nil
			}
			if !ok1 {
				*stp = s2
				return blk.Succs[1], nil
			}
			out := in.runBlocks(fr, st, blk.Succs[0], blk, lp)
			out = append(out, in.runBlocks(f2, s2, blk.Succs[1], blk, lp)...)
			if out == nil {
				out = []*Result{}
			}
			return nil, out
		case *ssa.Return:
			var vs []*Term
			for _, r := range i.Results {
				vs = append(vs, in.val(fr, r))
			}
			return nil, []*Result{{St: st, Kind: XReturn, Vals: vs, Pos: i.Pos(), fr: fr}}
		case *ssa.Panic:
			st.emit(&Event{Kind: EvPanic, Args: []*Term{in.val(fr, i.X)}, Pos: i.Pos(), Fn: fr.fn, Path: fr.path})
			st.panicking = in.val(fr, i.X)
			if st.panicking.Op == "recovered" {
				st.panicking = st.panicking.Args[0] // the same one goes on
			}
			return nil, []*Result{{St: st, Kind: XPanic, Pos: i.Pos(), fr: fr}}
		case *ssa.RunDefers:
			if len(fr.defers) == 0 {
				continue
			}
			ds := in.runDefers(fr, st)
			f0 := fr
			var out []*Result
			for _, d := range ds {
				if d.Kind != XReturn {
					out = append(out, d)
					continue
				}
				f := f0.clone()
				f.defers = nil
				s := d.St
				nb, rs := in.runInstrs(f, &s, blk, n+1, lp)
				if rs != nil || nb == nil {
					out = append(out, rs...)
				} else {
					out = append(out, in.runBlocks(f, s, nb, blk, lp)...)
				}
			}
			if out == nil {
				out = []*Result{}
			}
			return nil, out
		}
		// ordinary instruction: may split
		rs := in.step(fr, st, blk.Instrs[n], lp)
		if len(rs) == 1 && rs[0].Kind == XReturn {
			*stp = rs[0].St
			if v, ok := blk.Instrs[n].(ssa.Value); ok && len(rs[0].Vals) == 1 {
				fr.env[v] = rs[0].Vals[0]
			}
			continue
		}
		var out []*Result
		for k, r := range rs {
			if r.Kind != XReturn {
				r.fr = fr
				if k < len(rs)-1 {
					r.fr = fr.clone()
				}
				out = append(out, r)
				continue
			}
			f := fr.clone()
			if v, ok := blk.Instrs[n].(ssa.Value); ok && len(r.Vals) == 1 {
				f.env[v] = r.Vals[0]
			}
			s := r.St
			nb, rr := in.runInstrs(f, &s, blk, n+1, lp)
			if rr != nil || nb == nil {
				out = append(out, rr...)
			} else {
				out = append(out, in.runBlocks(f, s, nb, blk, lp)...)
			}
		}
		if out == nil {
			out = []*Result{}
		}
		return nil, out
	}
	return nil, []*Result{{St: *stp, Kind: XReturn, fr: fr}}
}

// scalar: memory of the type is always accessed as a whole.
func scalar(T types.Type) bool {
	if T.String() == "reflect.Value" {
		return true
	}
	switch T.Underlying().(type) {
	case *types.Struct, *types.Array:
		return false
	}
	return true
}

func ret(st *State, v ...*Term) []*Result { return []*Result{{St: st, Kind: XReturn, Vals: v}} }

// step executes one instruction.
func (in *Interp) step(fr *frame, st *State, instr ssa.Instruction, lp *loopT) []*Result {
	in.Steps++
	switch i := instr.(type) {
	case *ssa.Alloc:
		loc := ""
		if in.stays(i) {
			loc = "!"
		}
		a := raw("alloc", fr.path+"/"+in.id(i)+loc, i.Type().Underlying().(*types.Pointer).Elem(), fr.iters...)
		for k := range st.cells {
			if k == a || hasPrefix(k, a) {
				delete(st.cells, k)
			}
		}
		if T := i.Type().Underlying().(*types.Pointer).Elem(); len(fr.iters) > 0 && scalar(T) {
			st.cells[a] = Zero(T) // an iteration that makes it has written it
		}
		return ret(st, a)
	case *ssa.UnOp:
		x := in.val(fr, i.X)
		switch i.Op {
		case token.MUL:
			var out []*Result
			for _, vs := range in.load(st, x, i.Type()) {
				if in.Watch != nil && in.Watch(x) {
					vs.st.emit(&Event{Kind: EvLoad, Args: []*Term{x, vs.v}, Pos: i.Pos(), Fn: fr.fn, Path: fr.path + "/" + in.id(i)})
				}
				out = append(out, &Result{St: vs.st, Kind: XReturn, Vals: []*Term{vs.v}})
			}
			return out
		case token.NOT:
			return ret(st, Not(x))
		case token.SUB:
			if isInt(i.X.Type()) {
				return ret(st, MulC(x, -1))
			}
		case token.ARROW:
			st.emit(&Event{Kind: EvOther, Name: "receive", Args: []*Term{x}, Pos: i.Pos(), Fn: fr.fn, Path: fr.path + "/" + in.id(i)})
			return ret(st, Sym("recv:"+fr.path+"/"+in.id(i), fr.iters...))
		}
		return ret(st, Mk("un"+i.Op.String(), "", x))
	case *ssa.BinOp:
		r := in.binop(i.Op, in.val(fr, i.X), in.val(fr, i.Y), i.X.Type(), i.Y.Type())
		switch i.Op {
		case token.ADD, token.SUB, token.MUL, token.SHL:
			r = in.wrap(st, r, i.Type())
		}
		return ret(st, r)
	case *ssa.Convert:
		return ret(st, in.convert(in.val(fr, i.X), i.X.Type(), i.Type()))
	case *ssa.ChangeType:
		return ret(st, in.val(fr, i.X))
	case *ssa.ChangeInterface:
		return ret(st, in.val(fr, i.X))
	case *ssa.MakeInterface:
		return ret(st, Iface(i.X.Type(), in.val(fr, i.X)))
	case *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		return ret(st, Mk("convert", fmt.Sprint(instr.(ssa.Value).Type()), in.val(fr, *instr.Operands(nil)[0])))
	case *ssa.TypeAssert:
		return in.typeAssert(fr, st, i)
	case *ssa.FieldAddr:
		return ret(st, FieldAddr(in.val(fr, i.X), i.X.Type().Underlying().(*types.Pointer).Elem(), i.Field))
	case *ssa.Field:
		s := i.X.Type().Underlying().(*types.Struct)
		return ret(st, FieldOf(in.val(fr, i.X), TypeKey(i.X.Type())+"#"+strconv.Itoa(i.Field), s))
	case *ssa.IndexAddr:
		x, k := in.val(fr, i.X), in.val(fr, i.Index)
		if _, sl := i.X.Type().Underlying().(*types.Slice); sl && in.outOfRange(x, k) {
			return in.boundsPanic(fr, st, i)
		}
		return ret(st, IndexAddr(x, k))
	case *ssa.Index:
		if x, k := in.val(fr, i.X), in.val(fr, i.Index); x.Op == "str" {
			return in.strIndex(fr, st, i, x, k)
		}
		return ret(st, Mk("elem", "", in.val(fr, i.X), in.val(fr, i.Index)))
	case *ssa.Slice:
		v := in.slice(fr, st, i)
		if v.Op == "outofrange" {
			return in.boundsPanic(fr, st, i)
		}
		if in.Concrete {
			if _, lo, hi, max, ok := bounds(v); ok && (lo > hi || hi > max || lo < 0) {
				return in.boundsPanic(fr, st, i)
			}
		}
		if in.Bounds {
			lo, hi := Int(0), (*Term)(nil)
			if i.Low != nil {
				lo = in.val(fr, i.Low)
			}
			if i.High != nil {
				hi = in.val(fr, i.High)
			}
			x := in.val(fr, i.X)
			if _, ok := i.X.Type().Underlying().(*types.Slice); ok {
				top := Cap(x)
				if hi == nil {
					hi, top = Len(x), Len(x)
				}
				if !st.Assume(Ge0(lo), true) || !st.Assume(Ge0(Sub(hi, lo)), true) || !st.Assume(Ge0(Sub(top, hi)), true) {
					return in.boundsPanic(fr, st, i)
				}
			}
		}
		return ret(st, v)
	case *ssa.MakeSlice:
		et := i.Type().Underlying().(*types.Slice).Elem()
		p := fr.path + "/" + in.id(i)
		if in.Concrete {
			n, ok1 := in.val(fr, i.Len).IsInt()
			m, ok2 := in.val(fr, i.Cap).IsInt()
			if ok1 && ok2 && n <= m && m <= 64 {
				a := raw("alloc", p, types.NewArray(et, m), fr.iters...)
				return ret(st, raw("sliceof", "", nil, a, Int(0), Int(n), Int(m)))
			}
		}
		a := raw("alloc", p, nil, fr.iters...)
		return ret(st, raw("mkslice", p, et, a, in.val(fr, i.Len), in.val(fr, i.Cap)))
	case *ssa.MakeMap:
		return ret(st, raw("mkmap", fr.path+"/"+in.id(i), nil, fr.iters...))
	case *ssa.MakeChan:
		return ret(st, raw("mkchan", fr.path+"/"+in.id(i), nil, fr.iters...))
	case *ssa.MapUpdate:
		m, k, v := in.val(fr, i.Map), in.val(fr, i.Key), in.val(fr, i.Value)
		a := raw("ma", "", nil, m, k)
		in.emitStore(fr, st, i, a, v)
		in.store(st, a, v)
		return ret(st)
	case *ssa.Lookup:
		m, k := in.val(fr, i.X), in.val(fr, i.Index)
		if _, ok := i.X.Type().Underlying().(*types.Map); !ok {
			if m.Op == "str" {
				return in.strIndex(fr, st, i, m, k)
			}
			return ret(st, Mk("elem", "", m, k))
		}
		a := raw("ma", "", nil, m, k)
		v, known := st.cells[a]
		if !known {
			v = Mk("lookup", "", m, k)
			for _, s := range st.stores {
				if s.Op == "ma" && s != a && (s.Args[0] == m || !(s.Args[0].Op == "mkmap" && m.Op == "mkmap")) && !(isConst(s.Args[1]) && isConst(k)) {
					v = in.fresh("lookup")
				}
			}
		}
		if i.CommaOk {
			ok := Mk("lookupok", "", m, k)
			if known {
				ok = True
			}
			return ret(st, raw("tuple", "", nil, v, ok))
		}
		return ret(st, v)
	case *ssa.Range:
		return ret(st, raw("rangeiter", fr.path+"/"+in.id(i), nil, append([]*Term{in.val(fr, i.X)}, fr.iters...)...))
	case *ssa.Next:
		it := in.val(fr, i.Iter)
		n := fr.path + "/" + in.id(i)
		return ret(st, raw("tuple", "", nil, Sym("next_ok:"+n, fr.iters...), Mk("rangekey", n, append([]*Term{it}, fr.iters...)...), Mk("rangeval", n, append([]*Term{it}, fr.iters...)...)))
	case *ssa.Extract:
		t := in.val(fr, i.Tuple)
		if t.Op == "tuple" && i.Index < len(t.Args) {
			return ret(st, t.Args[i.Index])
		}
		return ret(st, Mk("extract", strconv.Itoa(i.Index), t))
	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range i.Bindings {
			bs = append(bs, in.val(fr, b))
		}
		return ret(st, raw("closure", fmt.Sprintf("%p", fn), fn, bs...))
	case *ssa.Store:
		a, v := in.val(fr, i.Addr), in.val(fr, i.Val)
		in.emitStore(fr, st, i, a, v)
		in.store(st, a, v)
		return ret(st)
	case *ssa.Call:
		rs := in.callInstr(fr, st, i, &i.Call)
		for _, r := range rs {
			if r.Kind == XReturn {
				switch len(r.Vals) {
				case 0, 1:
				default:
					r.Vals = []*Term{raw("tuple", "", nil, r.Vals...)}
				}
			}
			if r.Pos == token.NoPos {
				r.Pos = i.Pos()
			}
		}
		return rs
	case *ssa.Defer:
		d := deferRec{instr: i, loop: lp != nil}
		d.fn, d.args = in.callee(fr, &i.Call)
		fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], d)
		return ret(st)
	case *ssa.Go:
		f, args := in.callee(fr, &i.Call)
		st.emit(&Event{Kind: EvGo, Args: append([]*Term{f}, args...), Pos: i.Pos(), Fn: fr.fn, Path: fr.path + "/" + in.id(i)})
		return ret(st)
	case *ssa.Send:
		st.emit(&Event{Kind: EvOther, Name: "send", Args: []*Term{in.val(fr, i.Chan)}, Pos: i.Pos(), Fn: fr.fn, Path: fr.path + "/" + in.id(i)})
		return ret(st)
	case *ssa.Select:
		st.emit(&Event{Kind: EvOther, Name: "select", Pos: i.Pos(), Fn: fr.fn, Path: fr.path + "/" + in.id(i)})
		return ret(st, in.fresh("select"))
	}
	in.problem("%s: instruction %T not modelled", fr.fn, instr)
	return ret(st, in.fresh("instr"))
}

func (in *Interp) snap(st *State) *State {
	if in.NoSnap {
		return nil
	}
	s := st.Clone()
	s.events = nil
	return s
}

// emitStore records stores to memory that outlives the function's own locals.
func (in *Interp) emitStore(fr *frame, st *State, i ssa.Instruction, a, v *Term) {
	if addrRoot(a).Op == "alloc" && inAlloc(a) {
		if al, ok := i.(*ssa.Store); ok {
			if x, ok := al.Addr.(*ssa.Alloc); ok && !x.Heap {
				return
			}
		}
	}
	st.emit(&Event{Kind: EvStore, Args: []*Term{a, v}, Pos: i.Pos(), Fn: fr.fn, Path: fr.path + "/" + in.id(i)})
}

// wrap is the value of type T that a computed number becomes.
func (in *Interp) wrap(st *State, r *Term, T types.Type) *Term {
	b, ok := T.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 || b.Info()&types.IsUntyped != 0 {
		return r
	}
	n := uint(in.Sizes.Sizeof(T)) * 8
	if n >= 64 || n == 0 {
		return r
	}
	lo, hi := int64(0), int64(1)<<n-1
	if b.Info()&types.IsUnsigned == 0 {
		lo, hi = -(int64(1) << (n - 1)), int64(1)<<(n-1)-1
	}
	if k, ok := r.IsInt(); ok {
		k = (k-lo)&(int64(1)<<n-1) + lo
		return Int(k)
	}
	if r.Op != "lin" || st.entails(Sub(r, Int(lo))) && st.entails(Sub(Int(hi), r)) {
		return r
	}
	return Mk("conv", TypeKey(T.Underlying()), r)
}

func (in *Interp) binop(op token.Token, x, y *Term, xt, yt types.Type) *Term {
	num := isInt(xt)
	switch op {
	case token.ADD:
		if num {
			return Add(x, y)
		}
		if x.Op == "str" && y.Op == "str" {
			return Str(x.Val.(string) + y.Val.(string))
		}
	case token.SUB:
		if num {
			return Sub(x, y)
		}
	case token.MUL:
		if num {
			if n, ok := x.IsInt(); ok {
				return MulC(y, n)
			}
			if n, ok := y.IsInt(); ok {
				return MulC(x, n)
			}
		}
	case token.EQL:
		return in.eq(x, y, xt, yt)
	case token.NEQ:
		return Not(in.eq(x, y, xt, yt))
	case token.LSS:
		if num {
			return Lt(x, y)
		}
	case token.LEQ:
		if num {
			return Le(x, y)
		}
	case token.GTR:
		if num {
			return Lt(y, x)
		}
		return Mk("bin<", "", y, x)
	case token.GEQ:
		if num {
			return Le(y, x)
		}
		return Mk("bin<=", "", y, x)
	}
	if num {
		a, ok1 := x.IsInt()
		b, ok2 := y.IsInt()
		if ok1 && ok2 {
			switch op {
			case token.AND:
				return Int(a & b)
			case token.OR:
				return Int(a | b)
			case token.XOR:
				return Int(a ^ b)
			case token.AND_NOT:
				return Int(a &^ b)
			case token.SHL:
				if b >= 0 && b < 62 && abs(a) < 1<<(62-uint(b)) {
					return Int(a << uint(b))
				}
			case token.SHR:
				if b >= 0 && b < 63 {
					return Int(a >> uint(b))
				}
			case token.QUO:
				if b != 0 {
					return Int(a / b)
				}
			case token.REM:
				if b != 0 {
					return Int(a % b)
				}
			}
		}
		switch op {
		case token.SHL:
			if ok2 && b >= 0 && b < 31 {
				return MulC(x, 1<<uint(b))
			}
		case token.AND:
			// x & ^m  ==  x &^ m ; -m of a page size
			if x.Op == "un^" {
				return Mk("bin&^", "", y, x.Args[0])
			}
			if y.Op == "un^" {
				return Mk("bin&^", "", x, y.Args[0])
			}
			if x.ID > y.ID {
				x, y = y, x
			}
		case token.OR, token.XOR, token.MUL:
			if x.ID > y.ID {
				x, y = y, x
			}
		}
	}
	return Mk("bin"+op.String(), "", x, y)
}

func (in *Interp) eq(x, y *Term, xt, yt types.Type) *Term {
	num := isInt(xt) && isInt(yt)
	return Eq(x, y, num)
}

// Iface is the interface value holding x of type T.
func Iface(T types.Type, x *Term) *Term {
	if types.IsInterface(T) {
		return x
	}
	return raw("iface", TypeKey(T), T, x)
}

func (in *Interp) convert(x *Term, from, to types.Type) *Term {
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			fs, ts := in.Sizes.Sizeof(from), in.Sizes.Sizeof(to)
			if _, ok := x.IsInt(); ok && ts >= fs {
				return x
			}
			if ts > fs && (fb.Info()&types.IsUnsigned != 0 || tb.Info()&types.IsUnsigned == 0) || ts == fs && ts == 8 {
				return x
			}
			return Mk("conv", TypeKey(tu), x)
		case fb.Kind() == types.UnsafePointer && tb.Info()&types.IsInteger != 0 && x.Op == "cast":
			if a := x.Args[0]; a.Op == "ia" && pointee(a) == nil {
				return Add(SlicePtr(a.Args[0]), MulC(a.Args[1], in.Sizes.Sizeof(x.Val.(types.Type))))
			}
			return x
		case fb.Kind() == types.UnsafePointer && tb.Info()&types.IsInteger != 0 && x.Op == "ia":
			// the address of an element as a number
			if s := x.Args[0]; !localOwned(s) && pointee(x) == nil || s.Op == "bytesOf" {
				size := int64(1)
				if et := pointee(x); et != nil {
					size = in.Sizes.Sizeof(et)
				} else if s.Op != "bytesOf" && !(s.Op == "sub" && s.Args[0].Op == "bytesOf") {
					return x
				}
				return Add(SlicePtr(s), MulC(x.Args[1], size))
			} else if et := pointee(x); et != nil && valueType(s) != nil {
				return Add(SlicePtr(s), MulC(x.Args[1], in.Sizes.Sizeof(et)))
			}
			return x
		case fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer:
			return x
		}
	}
	if tp, ok := tu.(*types.Pointer); ok {
		return Cast(x, tp.Elem())
	}
	if fp, ok := fu.(*types.Pointer); ok && tok && tb.Kind() == types.UnsafePointer && x.Op == "ia" && pointee(x) == nil {
		return Cast(x, fp.Elem())
	}
	if tok && tb.Kind() == types.UnsafePointer {
		return x
	}
	return Mk("convert", TypeKey(to), x)
}

func (in *Interp) slice(fr *frame, st *State, i *ssa.Slice) *Term {
	x := in.val(fr, i.X)
	lo := Int(0)
	if i.Low != nil {
		lo = in.val(fr, i.Low)
	}
	if pt, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		n := Int(pt.Elem().Underlying().(*types.Array).Len())
		hi, max := n, n
		if i.High != nil {
			hi = in.val(fr, i.High)
		}
		if i.Max != nil {
			max = in.val(fr, i.Max)
		}
		return raw("sliceof", "", nil, x, lo, hi, max)
	}
	if b, ok := i.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		hi := Mk("len", "", x)
		if i.High != nil {
			hi = in.val(fr, i.High)
		}
		if x.Op == "str" {
			s := x.Val.(string)
			if i.High == nil {
				hi = Int(int64(len(s)))
			}
			a, ok1 := lo.IsInt()
			b, ok2 := hi.IsInt()
			if ok1 && ok2 {
				if a < 0 || a > b || b > int64(len(s)) {
					return Mk("outofrange", "", x, lo, hi)
				}
				return Str(s[a:b])
			}
		}
		return Mk("substr", "", x, lo, hi)
	}
	return in.reslice(x, lo, i, fr)
}

func (in *Interp) reslice(x, lo *Term, i *ssa.Slice, fr *frame) *Term {
	hi := Len(x)
	if i.High != nil {
		hi = in.val(fr, i.High)
	}
	var max *Term
	if i.Max != nil {
		max = in.val(fr, i.Max)
	}
	return Reslice(x, lo, hi, max)
}

// Reslice is x[lo:hi:max] (max may be nil).
func Reslice(x, lo, hi, max *Term) *Term {
	switch x.Op {
	case "capped":
		c := Sub(x.Args[1], lo)
		if max != nil {
			c = Sub(max, lo)
		}
		return raw("capped", "", nil, SubSlice(x.Args[0], lo, hi), c)
	case "sliceof":
		m := x.Args[3]
		if max != nil {
			m = Add(x.Args[1], max)
		}
		return raw("sliceof", "", nil, x.Args[0], Add(x.Args[1], lo), Add(x.Args[1], hi), m)
	}
	if max != nil {
		return raw("capped", "", nil, SubSlice(x, lo, hi), Sub(max, lo))
	}
	return SubSlice(x, lo, hi)
}

func (in *Interp) typeAssert(fr *frame, st *State, i *ssa.TypeAssert) []*Result {
	x := in.val(fr, i.X)
	isI := types.IsInterface(i.AssertedType)
	var lit *Term
	var v *Term
	known := 0
	if x.Op == "iface" {
		T := x.Val.(types.Type)
		if isI {
			if types.Implements(T, i.AssertedType.Underlying().(*types.Interface)) {
				known = 1
			} else {
				known = -1
			}
			v = x
		} else {
			if types.Identical(T, i.AssertedType) {
				known = 1
			} else {
				known = -1
			}
			v = x.Args[0]
		}
	} else if x == Nil {
		known = -1
	} else {
		p := "="
		if isI {
			p = "~"
			v = x
		} else {
			v = Mk("unbox", TypeKey(i.AssertedType), x)
		}
		lit = raw("istype", p+TypeKey(i.AssertedType), i.AssertedType, x)
		known = st.Eval(lit)
	}
	z := Zero(i.AssertedType)
	mkok := func(st *State, ok bool) *Result {
		r := &Result{St: st, Kind: XReturn}
		switch {
		case i.CommaOk && ok:
			r.Vals = []*Term{raw("tuple", "", nil, v, True)}
		case i.CommaOk:
			r.Vals = []*Term{raw("tuple", "", nil, z, False)}
		case ok:
			r.Vals = []*Term{v}
		default:
			st.emit(&Event{Kind: EvPanic, Name: "type assertion", Args: []*Term{x}, Pos: i.Pos(), Fn: fr.fn, Path: fr.path})
			r.Kind = XPanic
			r.Pos = i.Pos()
		}
		return r
	}
	switch known {
	case 1:
		return []*Result{mkok(st, true)}
	case -1:
		return []*Result{mkok(st, false)}
	}
	s2 := st.Clone()
	var out []*Result
	if st.Assume(lit, true) {
		out = append(out, mkok(st, true))
	}
	if s2.Assume(lit, false) {
		out = append(out, mkok(s2, false))
	}
	return out
}

// ---- globals with a value fixed at initialisation ----

func (in *Interp) globalValue(addr *Term) *Term {
	if addr.Op != "glob" {
		return nil
	}
	g := addr.Val.(*ssa.Global)
	if g.Name() == "init$guard" {
		return False // a package is initialised once
	}
	if v, ok := in.globals[g]; ok {
		return v
	}
	in.globals[g] = nil
	if !in.moduleGlobal(g) {
		return nil
	}
	var def ssa.Value
	n := 0
	for fn := range in.AllFunctions() {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch x := i.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						if x.Addr != ssa.Value(g) || !isInit(fn) {
							return nil
						}
						n++
						def = x.Val
					default:
						return nil
					}
				}
			}
		}
	}
	if n != 1 {
		return nil
	}
	v := in.evalPure(def, 0)
	in.globals[g] = v
	return v
}

func isInit(fn *ssa.Function) bool {
	return fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
}

func (in *Interp) moduleGlobal(g *ssa.Global) bool {
	if g.Pkg == nil {
		return false
	}
	pp := g.Pkg.Pkg.Path()
	return pp == in.Module || strings.HasPrefix(pp, in.Module+"/")
}

func (in *Interp) evalPure(v ssa.Value, d int) *Term {
	if d > 8 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Const:
		return ConstTerm(v)
	case *ssa.MakeInterface:
		if x := in.evalPure(v.X, d+1); x != nil {
			return Iface(v.X.Type(), x)
		}
	case *ssa.Convert:
		if x := in.evalPure(v.X, d+1); x != nil {
			return in.convert(x, v.X.Type(), v.Type())
		}
	case *ssa.ChangeType:
		return in.evalPure(v.X, d+1)
	case *ssa.Function:
		return FuncTerm(v)
	case *ssa.Call:
		fn := v.Call.StaticCallee()
		if fn == nil || in.InModule(fn) {
			return nil
		}
		var args []*Term
		for _, a := range v.Call.Args {
			x := in.evalPure(a, d+1)
			if x == nil {
				return nil
			}
			args = append(args, x)
		}
		c := &CallCtx{In: in, St: NewState(), Fn: fn, Name: fn.String(), Args: args, Path: "init/" + v.Name(), Sig: fn.Signature}
		if pure, ok := pureExt[c.Name]; ok {
			return pure(in, args)
		}
	}
	return nil
}

// AllFunctions gives the functions of the module (with their anonymous functions).
func (in *Interp) AllFunctions() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || out[f] {
			return
		}
		out[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range in.Prog.AllPackages() {
		pp := p.Pkg.Path()
		if pp != in.Module && !strings.HasPrefix(pp, in.Module+"/") {
			continue
		}
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, T := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := in.Prog.MethodSets.MethodSet(T)
					for k := 0; k < ms.Len(); k++ {
						f := in.Prog.MethodValue(ms.At(k))
						if f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	return out
}
