package absint

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callee evaluates the function and arguments of a call. For interface calls the
// function term is "invoke" with the receiver as first argument.
func (in *Interp) callee(fr *frame, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		r := in.val(fr, c.Value)
		args = append(args, r)
		for _, a := range c.Args {
			args = append(args, in.val(fr, a))
		}
		return raw("invoke", c.Method.Name(), c.Method), args
	}
	for _, a := range c.Args {
		args = append(args, in.val(fr, a))
	}
	return in.val(fr, c.Value), args
}

func (in *Interp) callInstr(fr *frame, st *State, i ssa.CallInstruction, c *ssa.CallCommon) []*Result {
	f, args := in.callee(fr, c)
	return in.callTerm(fr, st, i, c, f, args, false)
}

func (in *Interp) callTerm(fr *frame, st *State, i ssa.CallInstruction, c *ssa.CallCommon, f *Term, args []*Term, isDef bool) []*Result {
	path := fr.path + "/" + in.id(i)
	ctx := &CallCtx{In: in, St: st, Args: args, Pos: c.Pos(), Path: path, From: fr.fn, Sig: c.Signature(), fr: fr}
	if c.Pos() == token.NoPos {
		ctx.Pos = i.Pos()
	}
	switch f.Op {
	case "builtin":
		return in.builtin(ctx, f.Aux, c, isDef)
	case "invoke":
		m := f.Val.(*types.Func)
		recv := args[0]
		if recv.Op == "iface" {
			T := recv.Val.(types.Type)
			fn := in.Prog.LookupMethod(T, m.Pkg(), m.Name())
			if fn != nil {
				a := append([]*Term{recv.Args[0]}, args[1:]...)
				return in.apply(ctx, fn, a, nil, isDef)
			}
		}
		ctx.Recv = recv
		ctx.Name = m.FullName()
		ctx.Args = args[1:]
		return in.invoke(ctx, m)
	case "func":
		return in.apply(ctx, f.Val.(*ssa.Function), args, nil, isDef)
	case "closure":
		return in.apply(ctx, f.Val.(*ssa.Function), args, f.Args, isDef)
	}
	// unknown function value
	if f == Nil {
		st.emit(&Event{Kind: EvPanic, Name: "nil function", Pos: ctx.Pos, Fn: fr.fn, Path: path})
		return []*Result{{St: st, Kind: XPanic, Pos: ctx.Pos}}
	}
	return in.user(ctx, EvDyn, "", f, args, resultTypes(ctx.Sig))
}

func resultTypes(s *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < s.Results().Len(); i++ {
		out = append(out, s.Results().At(i).Type())
	}
	return out
}

// user models a call of code outside the module's control.
func (in *Interp) user(c *CallCtx, kind, name string, f *Term, args []*Term, rts []types.Type) []*Result {
	var res []*Term
	for k := range rts {
		res = append(res, Sym("res:"+c.Path+"#"+strconv.Itoa(k), c.fr.iters...))
	}
	as := make([]*Term, len(args))
	for k, a := range args {
		as[k] = in.Contents(c.St, a)
	}
	if in.User != nil && kind == EvDyn {
		if rs, ok := in.User(c, f, List(as...)); ok {
			return rs
		}
	}
	ev := &Event{Kind: kind, Name: name, Args: append([]*Term{f}, as...), Res: res, Pos: c.Pos, Fn: c.From, Path: c.Path, Snap: in.snap(c.St)}
	c.St.emit(ev)
	out := func(st *State) *State {
		st.epoch++
		if in.AfterUser != nil {
			in.AfterUser(st, ev)
		}
		return st
	}
	if !in.UserExits {
		out(c.St)
		return []*Result{{St: c.St, Kind: XReturn, Vals: res}}
	}
	s2, s3 := c.St.Clone(), c.St.Clone()
	out(c.St)
	out(s2)
	out(s3)
	s2.panicking = Sym("userpanic")
	return []*Result{{St: c.St, Kind: XReturn, Vals: res}, {St: s2, Kind: XPanic, Pos: c.Pos}, {St: s3, Kind: XGoexit, Pos: c.Pos}}
}

func (in *Interp) apply(c *CallCtx, fn *ssa.Function, args, free []*Term, isDef bool) []*Result {
	c.Fn = fn
	c.Name = fn.String()
	c.Args = args
	if h, ok := in.Intrinsics[fn]; ok {
		return h(c)
	}
	if in.InModule(fn) && len(fn.Blocks) > 0 && (in.Opaque == nil || !in.Opaque(fn)) {
		n := 0
		for _, f := range c.fr.stack {
			if f == fn {
				n++
			}
		}
		if n >= 1 && n >= in.Recursion || len(c.fr.stack) > 40 {
			var res []*Term
			for k := range resultTypes(fn.Signature) {
				res = append(res, Sym("res:"+c.Path+"#"+strconv.Itoa(k), c.fr.iters...))
			}
			c.St.emit(&Event{Kind: EvRec, Name: c.Name, Args: append([]*Term{FuncTerm(fn)}, args...), Res: res, Pos: c.Pos, Fn: c.From, Path: c.Path, Snap: in.snap(c.St)})
			return []*Result{{St: c.St, Kind: XReturn, Vals: res}}
		}
		return in.callFn(c.St, fn, args, free, c.Path, c.fr.iters, c.fr.stack, isDef, c.Pos)
	}
	return in.external(c, fn, args)
}

// ApplyIn analyses the body of a function at a call made by an intrinsic.
func (c *CallCtx) ApplyIn(f *Term, args []*Term, sub string) []*Result {
	var fn *ssa.Function
	var free []*Term
	switch f.Op {
	case "func":
		fn = f.Val.(*ssa.Function)
	case "closure":
		fn = f.Val.(*ssa.Function)
		free = f.Args
	default:
		return nil
	}
	c2 := *c
	c2.Path = c.Path + sub
	return c.In.apply(&c2, fn, args, free, false)
}

// Emit records an event at the call.
func (c *CallCtx) Emit(kind, name string, args ...*Term) *Event {
	e := &Event{Kind: kind, Name: name, Args: args, Pos: c.Pos, Fn: c.From, Path: c.Path, Snap: c.In.snap(c.St)}
	c.St.emit(e)
	return e
}

// ResSym is a fresh name for result k of the call.
func (c *CallCtx) ResSym(k int) *Term {
	var T interface{}
	if c.Sig != nil && k < c.Sig.Results().Len() {
		T = c.Sig.Results().At(k).Type()
	}
	return raw("sym", "res:"+c.Path+"#"+strconv.Itoa(k), T, c.fr.iters...)
}

// Return is the result of a call that returns normally.
func (c *CallCtx) Return(v ...*Term) []*Result { return []*Result{{St: c.St, Kind: XReturn, Vals: v}} }

// Iters gives the loop counters the call depends on.
func (c *CallCtx) Iters() []*Term { return c.fr.iters }

func (in *Interp) builtin(c *CallCtx, name string, cc *ssa.CallCommon, isDef bool) []*Result {
	st, a := c.St, c.Args
	switch name {
	case "len":
		return ret(st, Len(a[0]))
	case "cap":
		return ret(st, Cap(a[0]))
	case "append":
		if in.Concrete {
			if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
				if r, ok := in.concreteAppend(c, a[0], a[1], sl.Elem()); ok {
					return ret(st, r)
				}
			}
		}
		return ret(st, in.appendTo(c, a[0], a[1]))
	case "copy":
		if in.Concrete || a[0].Op == "sliceof" && localOwned(a[0]) {
			if r, ok := in.concreteCopy(c, a[0], a[1]); ok {
				return ret(st, r)
			}
		}
		if a[0].Op == "sliceof" && localOwned(a[0]) {
			// an unknown part of a local array is overwritten
			for k := range st.cells {
				if hasPrefix(k, a[0].Args[0]) {
					delete(st.cells, k)
				}
			}
			st.cells[a[0].Args[0]] = in.fresh("copied")
		}
		n := Sym("copied:"+c.Path, c.fr.iters...)
		src := in.readNow(c, in.Contents(st, a[1]))
		switch dst := Len(a[0]); {
		case st.entails(Sub(dst, Len(src))):
			n = Len(src)
		case st.entails(Sub(Len(src), dst)):
			n = dst
			src = SubSlice(src, Int(0), dst)
		}
		st.emit(&Event{Kind: EvCopy, Args: []*Term{a[0], src}, Pos: c.Pos, Fn: c.From, Path: c.Path, Snap: in.snap(st)})
		base, off := a[0], Int(0)
		if base.Op == "sub" {
			base, off = base.Args[0], base.Args[1]
		}
		if base.Op == "mkslice" {
			k, ok1 := n.IsInt()
			o, ok2 := off.IsInt()
			m, ok3 := base.Args[1].IsInt()
			if ok1 && ok2 && ok3 && m <= 64 && o >= 0 && o+k <= m {
				et, _ := base.Val.(types.Type)
				var vs []*Term
				for i := int64(0); i < k; i++ {
					vs = append(vs, in.loadNoFork(st, IndexAddr(src, Int(i)), et))
				}
				for i, v := range vs {
					in.store(st, IndexAddr(base, Int(o+int64(i))), v)
				}
				return ret(st, n)
			}
			for a := range st.cells {
				if a.Op == "ia" && a.Args[0] == base && !st.entails(Sub(Sub(off, Int(1)), a.Args[1])) && !st.entails(Sub(a.Args[1], Add(off, n))) {
					delete(st.cells, a)
				}
			}
			// the whole source when it fits
			room := Sub(base.Args[1], off)
			if a[0].Op == "sub" {
				room = Sub(a[0].Args[2], a[0].Args[1])
			}
			if st.entails(Sub(room, Len(src))) {
				st.cells[raw("region", "", nil, base, off)] = src
				n = Len(src)
			} else {
				st.cells[raw("region", "", nil, base, off)] = in.fresh("partcopy")
			}
		}
		return ret(st, n)
	case "panic":
		st.emit(&Event{Kind: EvPanic, Args: a, Pos: c.Pos, Fn: c.From, Path: c.Path})
		return []*Result{{St: st, Kind: XPanic, Pos: c.Pos}}
	case "recover":
		if c.fr.isDef && st.panicking != nil && !st.recovered && st.unwinding && !st.goexit {
			v := Mk("recovered", "", st.panicking)
			st.recovered = true
			st.Assume(Eq(v, Nil, false), false)
			return ret(st, v)
		}
		if in.Recovers && !st.unwinding {
			return ret(st, in.fresh("recovered"))
		}
		return ret(st, Nil)
	case "print", "println":
		st.emit(&Event{Kind: EvCall, Name: "builtin." + name, Args: a, Pos: c.Pos, Fn: c.From, Path: c.Path})
		return ret(st)
	case "delete":
		st.emit(&Event{Kind: EvStore, Name: "delete", Args: []*Term{raw("ma", "", nil, a[0], a[1]), Nil}, Pos: c.Pos, Fn: c.From, Path: c.Path})
		in.store(st, raw("ma", "", nil, a[0], a[1]), in.fresh("deleted"))
		return ret(st)
	case "close":
		st.emit(&Event{Kind: EvOther, Name: "close", Args: a, Pos: c.Pos, Fn: c.From, Path: c.Path})
		return ret(st)
	case "ssa:wrapnilchk":
		return ret(st, a[0])
	case "min", "max":
		if len(a) == 2 && isInt(cc.Args[0].Type()) {
			x, y := a[0], a[1]
			if name == "max" {
				x, y = y, x
			}
			// min(x,y): x if x<=y
			s2 := st.Clone()
			var out []*Result
			if st.Assume(Le(a[0], a[1]), true) {
				out = append(out, &Result{St: st, Kind: XReturn, Vals: []*Term{x}})
			}
			if s2.Assume(Le(a[0], a[1]), false) {
				out = append(out, &Result{St: s2, Kind: XReturn, Vals: []*Term{y}})
			}
			return out
		}
	case "Add":
		return ret(st, Add(a[0], a[1]))
	case "String", "StringData", "SliceData", "Slice":
		if name == "Slice" && len(a) == 2 {
			p := a[0]
			if p.Op == "cast" {
				p = p.Args[0]
			}
			return ret(st, Mk("bytesOf", "", p, a[1], a[1]))
		}
	}
	return ret(st, Mk("builtin:"+name, "", a...))
}

// ownTag marks results of append made during the current analysis: appending to them
// again cannot write into memory anyone else sees, as long as it is done once.
func ownKey(s *Term) *Term { return raw("own", "", nil, s) }

// readNow stands for the contents of memory that others may change as they are at this point.
func (in *Interp) readNow(c *CallCtx, t *Term) *Term {
	if in.Fleeting == nil || !in.Fleeting(t) {
		return t
	}
	v := raw("copyof", c.Path+"@"+strconv.Itoa(len(c.St.events)), nil, append([]*Term{t}, c.fr.iters...)...)
	c.Emit(EvRead, "", t).Res = []*Term{v}
	return v
}

func (in *Interp) appendTo(c *CallCtx, x, y *Term) *Term {
	st := c.St
	if b, ok := y.Val.(string); ok && y.Op == "str" {
		y = Mk("bytes", "", Str(b))
	}
	yc := in.readNow(c, in.Contents(st, y))
	shared := true
	switch {
	case x == Nil:
		shared = false
	case x.Op == "list" && len(x.Args) == 0:
		shared = false
	case x.Op == "sliceof":
		// a literal: no spare capacity
		shared = x.Args[2] != x.Args[3] && !st.EqualInts(x.Args[2], x.Args[3])
	case x.Op == "capped":
		shared = x.Args[1] != Len(x.Args[0]) && !st.EqualInts(x.Args[1], Len(x.Args[0]))
	case x.Op == "sub" && x.Args[1] == x.Args[2] && false:
	}
	if n, ok := Len(yc).IsInt(); ok && n == 0 {
		return x
	}
	base := x
	switch x.Op {
	case "mkslice":
		if st.cells[ownKey(x)] == nil {
			shared = false
		}
	default:
		if v := st.cells[ownKey(x)]; v == True {
			shared = false
		}
	}
	bc := in.Contents(st, base)
	if !shared || x.Op == "capped" {
		bc = in.readNow(c, bc)
	}
	if shared {
		c.Emit(EvAppend, "", x, yc)
	}
	r := Cat(bc, yc)
	// x may have spare capacity now used up by r
	if x != Nil {
		st.cells[ownKey(x)] = False
	}
	if !shared {
		st.cells[ownKey(r)] = True
	}
	return r
}

// DropOwnership forgets which append results are exclusively owned (for analysing
// code that may run many times from this state).
func (s *State) DropOwnership() {
	for k := range s.cells {
		if k.Op == "own" {
			delete(s.cells, k)
		}
	}
}

// ---- functions outside the module ----

func (in *Interp) invoke(c *CallCtx, m *types.Func) []*Result {
	if in.Invoke != nil {
		if r, ok := in.Invoke(c); ok {
			return r
		}
	}
	if m.Pkg() != nil && m.Pkg().Path() == "reflect" {
		return in.reflectType(c, m.Name())
	}
	if m.Name() == "Error" && m.Pkg() == nil {
		return c.Return(Mk("errstring", "", c.Recv))
	}
	return in.user(c, EvInvoke, m.Name(), c.Recv, c.Args, resultTypes(c.Sig))
}

func (in *Interp) external(c *CallCtx, fn *ssa.Function, args []*Term) []*Result {
	name := fn.String()
	st := c.St
	if fn.Pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil && len(fn.Blocks) == 0 {
		// method wrappers without body
	}
	if h, ok := in.External[name]; ok {
		return h(c)
	}
	if p, ok := pureExt[name]; ok {
		if v := p(in, args); v != nil {
			return c.Return(v)
		}
	}
	if name == "(*sync.Once).Do" && (args[1].Op == "func" || args[1].Op == "closure") {
		return in.once(c, args)
	}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		st.emit(&Event{Kind: EvLock, Name: fn.Name(), Args: args, Pos: c.Pos, Fn: c.From, Path: c.Path})
		st.locks = append(st.locks, args[0])
		return c.Return()
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		st.emit(&Event{Kind: EvUnlock, Name: fn.Name(), Args: args, Pos: c.Pos, Fn: c.From, Path: c.Path})
		for k := len(st.locks) - 1; k >= 0; k-- {
			if st.locks[k] == args[0] {
				st.locks = append(append([]*Term(nil), st.locks[:k]...), st.locks[k+1:]...)
				break
			}
		}
		return c.Return()
	case "reflect.New":
		t := args[0]
		return c.Return(raw("New", c.Path, nil, append([]*Term{t}, c.fr.iters...)...))
	case "reflect.Indirect":
		isPtr := Eq(Mk("Kind", "", TypeOfV(args[0])), Int(int64(reflect.Ptr)), true)
		switch st.Eval(isPtr) {
		case 1:
			return c.Return(Mk("Elem", "", args[0]))
		case -1:
			return c.Return(args[0])
		}
		s2 := st.Clone()
		var out []*Result
		if st.Assume(isPtr, true) {
			out = append(out, &Result{St: st, Kind: XReturn, Vals: []*Term{Mk("Elem", "", args[0])}})
		}
		if s2.Assume(isPtr, false) {
			out = append(out, &Result{St: s2, Kind: XReturn, Vals: []*Term{args[0]}})
		}
		return out
	case "reflect.FuncOf":
		return c.Return(in.funcOf(c, args))
	case "reflect.MakeFunc":
		return c.Return(Mk("MakeFunc", "", args[0], args[1]))
	case "(reflect.Value).Interface":
		if addressable(args[0]) {
			v := Mk("rget", strconv.Itoa(st.epoch), append([]*Term{args[0]}, st.epochIters...)...)
			st.emit(&Event{Kind: EvRGet, Args: []*Term{args[0]}, Res: []*Term{v}, Pos: c.Pos, Fn: c.From, Path: c.Path})
			return c.Return(v)
		}
		return c.Return(Mk("Iface", "", args[0]))
	case "(reflect.Value).Set":
		st.emit(&Event{Kind: EvRSet, Args: args, Pos: c.Pos, Fn: c.From, Path: c.Path, Snap: in.snap(st)})
		st.epoch++
		return c.Return()
	case "(reflect.Value).Call", "(reflect.Value).CallSlice":
		return in.reflectCall(c, fn.Name(), args[0], args[1])
	case "(reflect.Value).MethodByName", "(reflect.Value).FieldByName":
		return c.Return(Mk(fn.Name(), "v", args...))
	case "(encoding/binary.littleEndian).PutUint16", "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint64",
		"(encoding/binary.nativeEndian).PutUint16", "(encoding/binary.nativeEndian).PutUint32", "(encoding/binary.nativeEndian).PutUint64":
		n, _ := strconv.ParseInt(name[len(name)-2:], 10, 64)
		dst, lo := args[1], Int(0)
		if dst.Op == "sub" {
			dst, lo = dst.Args[0], dst.Args[1]
		}
		in.storeBytes(st, dst, lo, args[2], n/8)
		return c.Return()
	case "(encoding/binary.littleEndian).AppendUint16", "(encoding/binary.littleEndian).AppendUint32", "(encoding/binary.littleEndian).AppendUint64",
		"(encoding/binary.nativeEndian).AppendUint16", "(encoding/binary.nativeEndian).AppendUint32", "(encoding/binary.nativeEndian).AppendUint64":
		n, _ := strconv.ParseInt(name[len(name)-2:], 10, 64)
		var bs []*Term
		for k := int64(0); k < n/8; k++ {
			bs = append(bs, ByteOf(args[2], k))
		}
		return c.Return(in.appendTo(c, args[1], List(bs...)))
	case "runtime.Goexit":
		return []*Result{{St: st, Kind: XGoexit, Pos: c.Pos}}
	}
	if fn.Pkg != nil || fn.Object() != nil {
		pp := ""
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			pp = fn.Object().Pkg().Path()
		}
		switch pp {
		case "sync/atomic":
			return in.atomic(c, fn, args)
		case "reflect":
			if strings.HasPrefix(name, "(reflect.Value).") {
				return in.reflectValue(c, fn.Name(), args)
			}
			if strings.HasPrefix(name, "(reflect.Type).") || strings.HasPrefix(name, "(*reflect.rtype).") {
				c.Recv = args[0]
				c.Args = args[1:]
				return in.reflectType(c, fn.Name())
			}
		case "strings", "strconv", "unicode", "unicode/utf8", "math", "math/bits":
			return in.pureCall(c, fn, args)
		case "fmt":
			if fn.Name() == "Sprintf" || fn.Name() == "Errorf" || fn.Name() == "Sprint" {
				var as []*Term
				for _, a := range args {
					as = append(as, in.Contents(st, a))
				}
				v := Mk("fmt."+fn.Name(), "", as...)
				if fn.Name() == "Errorf" {
					st.Assume(Eq(v, Nil, false), false)
				}
				return c.Return(v)
			}
		case "errors":
			if fn.Name() == "New" {
				v := Mk("errors.New", c.Path, args...)
				st.Assume(Eq(v, Nil, false), false)
				return c.Return(v)
			}
		}
	}
	// anything else: an event with unknown results
	var res []*Term
	for k := range resultTypes(fn.Signature) {
		res = append(res, Sym("res:"+c.Path+"#"+strconv.Itoa(k), c.fr.iters...))
	}
	var as []*Term
	for _, a := range args {
		as = append(as, in.Contents(st, a))
	}
	ev := &Event{Kind: EvCall, Name: name, Args: as, Res: res, Pos: c.Pos, Fn: c.From, Path: c.Path, Snap: in.snap(st)}
	st.emit(ev)
	// a callee that gets a pointer may write through it
	for k, a := range args {
		if k < len(args) && (a.Op == "alloc" || a.Op == "fa") && !in.readOnly(name) {
			for cell := range st.cells {
				if cell == a || hasPrefix(cell, a) {
					st.cells[cell] = in.fresh("written")
				}
			}
			if pointee(a) != nil {
				if _, ok := pointee(a).Underlying().(*types.Struct); !ok {
					st.cells[a] = in.fresh("written")
				}
			}
		}
	}
	return []*Result{{St: st, Kind: XReturn, Vals: res}}
}

func (in *Interp) readOnly(name string) bool { return false }

func (in *Interp) pureCall(c *CallCtx, fn *ssa.Function, args []*Term) []*Result {
	var as []*Term
	for _, a := range args {
		as = append(as, in.Contents(c.St, a))
	}
	n := fn.Signature.Results().Len()
	if n == 1 {
		return c.Return(Mk(fn.String(), "", as...))
	}
	var out []*Term
	for k := 0; k < n; k++ {
		out = append(out, Mk(fn.String(), strconv.Itoa(k), as...))
	}
	return c.Return(out...)
}

// once: the function runs if no call for the same once did before.
func (in *Interp) once(c *CallCtx, args []*Term) []*Result {
	st := c.St
	cell := raw("oncedone", "", nil, args[0])
	done, known := st.cells[cell]
	if !known {
		b := args[0]
		for b.Op == "fa" || b.Op == "ia" || b.Op == "cast" {
			b = b.Args[0]
		}
		done = False
		if b.Op != "alloc" {
			done = in.loadNoFork(st, cell, types.Typ[types.Bool])
		}
	}
	var out []*Result
	s2 := st.Clone()
	if s2.Assume(done, true) {
		out = append(out, &Result{St: s2, Kind: XReturn})
	}
	if st.Assume(done, false) {
		st.emit(&Event{Kind: EvAtomic, Name: "Store", Args: []*Term{cell, True}, Pos: c.Pos, Fn: c.From, Path: c.Path})
		st.cells[cell] = True
		for _, r := range c.ApplyIn(args[1], nil, "once") {
			if r.Kind == XReturn {
				r.Vals = nil
			}
			out = append(out, r)
		}
	}
	return out
}

// Kept gives the value of memory, also of one with atomic methods.
func (s *State) Kept(a *Term) *Term {
	if v := s.cells[raw("atomicval", "", nil, a)]; v != nil {
		return v
	}
	return s.cells[a]
}

// SetKept is the reverse of Kept.
func (s *State) SetKept(a, v *Term) {
	if k := raw("atomicval", "", nil, a); s.cells[k] != nil {
		a = k
	}
	s.cells[a] = v
}

func (in *Interp) atomic(c *CallCtx, fn *ssa.Function, args []*Term) []*Result {
	st := c.St
	op := fn.Name()
	sig := fn.Signature
	addr := args[0]
	for _, k := range []string{"Add", "Store", "Load", "Swap", "CompareAndSwap", "And", "Or"} {
		if !strings.HasPrefix(op, k) {
			continue
		}
		st.emit(&Event{Kind: EvAtomic, Name: k, Args: args, Pos: c.Pos, Fn: c.From, Path: c.Path, Snap: nil})
		cell := addr
		if sig.Recv() != nil {
			cell = raw("atomicval", "", nil, addr)
		}
		var T types.Type = types.Typ[types.Int64]
		switch {
		case sig.Recv() == nil:
			T = sig.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
		case sig.Params().Len() > 0:
			T = sig.Params().At(0).Type()
		case sig.Results().Len() > 0:
			T = sig.Results().At(0).Type()
		}
		old, known := st.cells[cell]
		if !known {
			old = in.loadNoFork(st, cell, T)
		}
		switch k {
		case "Load":
			return c.Return(old)
		case "Store":
			in.store(st, cell, args[1])
			return c.Return()
		case "Add":
			nv := in.wrap(st, Add(old, args[1]), T)
			in.store(st, cell, nv)
			return c.Return(nv)
		case "Swap":
			in.store(st, cell, args[1])
			return c.Return(old)
		case "CompareAndSwap":
			cond := Eq(old, args[1], T == nil || isInt(T))
			s2 := st.Clone()
			var out []*Result
			if st.Assume(cond, true) {
				in.store(st, cell, args[2])
				out = append(out, &Result{St: st, Kind: XReturn, Vals: []*Term{True}})
			}
			if s2.Assume(cond, false) {
				out = append(out, &Result{St: s2, Kind: XReturn, Vals: []*Term{False}})
			}
			return out
		default:
			in.store(st, cell, in.fresh("atomic"))
			return c.Return(in.fresh("atomic"))
		}
	}
	st.emit(&Event{Kind: EvOther, Name: "atomic " + op, Args: args, Pos: c.Pos, Fn: c.From, Path: c.Path})
	return c.Return(c.ResSym(0))
}

// ---- reflect ----

// addressable reports that a reflect.Value term denotes a variable (reads and writes go to memory).
func addressable(v *Term) bool {
	switch v.Op {
	case "Elem":
		return true
	case "Field", "Index":
		return addressable(v.Args[0])
	case "Indirect":
		return true
	}
	return false
}

// ValueOf is reflect.ValueOf.
func ValueOf(i *Term) *Term {
	if i.Op == "Iface" {
		return i.Args[0]
	}
	return raw("ValueOf", "", nil, i)
}

// TypeOfV is the dynamic type of a reflect.Value.
func TypeOfV(v *Term) *Term {
	switch v.Op {
	case "MakeFunc", "Zero":
		return v.Args[0]
	case "New":
		return Mk("PtrTo", "", v.Args[0])
	case "Convert":
		return v.Args[1]
	case "Elem":
		return Mk("ElemT", "", TypeOfV(v.Args[0]))
	case "ValueOf":
		i := v.Args[0]
		switch i.Op {
		case "iface":
			return RType(i.Val.(types.Type))
		case "rget":
			return TypeOfV(i.Args[0])
		}
	}
	return raw("Type", "", nil, v)
}

func init() {
	simplifiers["Type"] = func(_ string, _ interface{}, a []*Term) *Term { return TypeOfV(a[0]) }
	simplifiers["ValueOf"] = func(_ string, _ interface{}, a []*Term) *Term { return ValueOf(a[0]) }
	simplifiers["Iface"] = func(_ string, _ interface{}, a []*Term) *Term {
		if a[0].Op == "ValueOf" {
			return a[0].Args[0]
		}
		return raw("Iface", "", nil, a[0])
	}
	for _, n := range []string{"AssignableTo", "ConvertibleTo"} {
		n := n
		simplifiers[n] = func(aux string, _ interface{}, a []*Term) *Term {
			if len(a) == 2 && a[0] == a[1] {
				return True
			}
			return raw(n, aux, nil, a...)
		}
	}
	simplifiers["Elem"] = func(_ string, _ interface{}, a []*Term) *Term { return raw("Elem", "", nil, a[0]) }
	simplifiers["ElemT"] = func(_ string, _ interface{}, a []*Term) *Term {
		if a[0].Op == "PtrTo" {
			return a[0].Args[0]
		}
		if a[0].Op == "rtype" {
			if p, ok := a[0].Val.(types.Type).Underlying().(*types.Pointer); ok {
				return RType(p.Elem())
			}
		}
		return raw("ElemT", "", nil, a[0])
	}
	simplifiers["In"] = func(_ string, v interface{}, a []*Term) *Term {
		if a[0].Op == "FuncOf" {
			if e := constElem(a[0].Args[0], a[1]); e != nil {
				return e
			}
		}
		return raw("In", "", v, a...)
	}
	simplifiers["Out"] = func(_ string, v interface{}, a []*Term) *Term {
		if a[0].Op == "FuncOf" {
			if e := constElem(a[0].Args[1], a[1]); e != nil {
				return e
			}
		}
		return raw("Out", "", v, a...)
	}
	simplifiers["NumIn"] = func(_ string, v interface{}, a []*Term) *Term {
		if a[0].Op == "FuncOf" {
			return Len(a[0].Args[0])
		}
		return raw("NumIn", "", v, a...)
	}
	simplifiers["NumOut"] = func(_ string, v interface{}, a []*Term) *Term {
		if a[0].Op == "FuncOf" {
			return Len(a[0].Args[1])
		}
		return raw("NumOut", "", v, a...)
	}
	simplifiers["IsVariadic"] = func(_ string, v interface{}, a []*Term) *Term {
		if a[0].Op == "FuncOf" {
			return a[0].Args[2]
		}
		return raw("IsVariadic", "", v, a...)
	}
	simplifiers["Kind"] = func(_ string, v interface{}, a []*Term) *Term {
		if a[0].Op == "FuncOf" {
			return Int(19) // reflect.Func
		}
		if a[0].Op == "PtrTo" {
			return Int(22)
		}
		if a[0].Op == "rtype" {
			if k := kindOf(a[0].Val.(types.Type)); k >= 0 {
				return Int(int64(k))
			}
		}
		return raw("Kind", "", v, a...)
	}
	simplifiers["Pointer"] = func(_ string, v interface{}, a []*Term) *Term { return raw("Pointer", "", v, a...) }
}

func kindOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return -1
}

// constElem is element i of slice contents when it can be told without facts.
func constElem(s, i *Term) *Term {
	off := Int(0)
	parts := []*Term{s}
	if s.Op == "cat" {
		parts = s.Args
	}
	for k, p := range parts {
		rel := Sub(i, off)
		n, isC := rel.IsInt()
		switch p.Op {
		case "list":
			if isC && n >= 0 && n < int64(len(p.Args)) {
				return p.Args[n]
			}
			if !isC {
				// rel = bv/κ-like + c with c beyond the list: nonneg atoms
				m, c := linOf(rel)
				all := c >= int64(len(p.Args))
				for a, v := range m {
					if v < 0 || !nonNeg(a) {
						all = false
					}
				}
				if !all {
					return nil
				}
			}
		case "comp":
			c := p.Val.(*Comp)
			if k == len(parts)-1 && len(c.Alts) == 1 {
				return Subst(c.Alts[0].Val, BV, rel)
			}
			return nil
		default:
			return nil
		}
		off = Add(off, Len(p))
	}
	return nil
}

func (in *Interp) reflectType(c *CallCtx, name string) []*Result {
	args := append([]*Term{c.Recv}, c.Args...)
	switch name {
	case "Elem":
		return c.Return(Mk("ElemT", "", args...))
	case "MethodByName":
		return c.Return(Mk("MethodByName", "t0", args...), Mk("MethodByName", "t1", args...))
	case "FieldByName":
		return c.Return(Mk("FieldByName", "t0", args...), Mk("FieldByName", "t1", args...))
	case "Field":
		return c.Return(Mk("FieldT", "", args...))
	case "Method":
		return c.Return(Mk("MethodT", "", args...))
	}
	if c.Sig.Results().Len() != 1 {
		var out []*Term
		for k := 0; k < c.Sig.Results().Len(); k++ {
			out = append(out, Mk(name, "t"+strconv.Itoa(k), args...))
		}
		return c.Return(out...)
	}
	if name == "In" || name == "Out" {
		// use the facts for elements of computed signatures
		if r := in.inOut(c.St, name, args); r != nil {
			return r
		}
	}
	return c.Return(Mk(name, "", args...))
}

func (in *Interp) inOut(st *State, name string, args []*Term) []*Result {
	if args[0].Op != "FuncOf" {
		return nil
	}
	s := args[0].Args[0]
	if name == "Out" {
		s = args[0].Args[1]
	}
	vs := in.elemAt(st, s, args[1])
	if vs == nil {
		return nil
	}
	var out []*Result
	for _, v := range vs {
		out = append(out, &Result{St: v.st, Kind: XReturn, Vals: []*Term{v.v}})
	}
	return out
}

func (in *Interp) reflectValue(c *CallCtx, name string, args []*Term) []*Result {
	switch name {
	case "Type":
		return c.Return(TypeOfV(args[0]))
	case "Kind":
		return c.Return(Mk("Kind", "", TypeOfV(args[0])))
	case "Elem":
		return c.Return(Mk("Elem", "", args[0]))
	case "Addr":
		if args[0].Op == "Elem" {
			return c.Return(args[0].Args[0])
		}
	case "IsValid":
		switch v := args[0]; v.Op {
		case "MakeFunc", "New", "Zero":
			return c.Return(True)
		case "ValueOf":
			if a := v.Args[0]; a.Op != "iface" {
				return c.Return(Not(Eq(a, Nil, false)))
			}
			return c.Return(True)
		}
	case "UnsafeAddr":
		if args[0].Op == "Elem" {
			return c.Return(Mk("Pointer", "", args[0].Args[0]))
		}
	case "UnsafePointer":
		return c.Return(Mk("Pointer", "", args[0]))
	case "SetInt", "SetBool", "SetString", "SetPointer", "SetUint", "SetFloat", "SetLen", "SetCap", "SetMapIndex", "SetBytes", "SetZero", "Clear", "Grow":
		c.Emit(EvRSet, name, args...)
		c.St.epoch++
		return c.Return()
	}
	n := c.Sig.Results().Len()
	if n == 1 {
		return c.Return(Mk(name, "", args...))
	}
	var out []*Term
	for k := 0; k < n; k++ {
		out = append(out, Mk(name, strconv.Itoa(k), args...))
	}
	return c.Return(out...)
}

// reflectCall models f.Call(args) / f.CallSlice(args).
func (in *Interp) reflectCall(c *CallCtx, how string, f, args *Term) []*Result {
	if !in.OpaqueMade && f.Op == "MakeFunc" && (f.Args[1].Op == "closure" || f.Args[1].Op == "func") {
		// a function made by the library itself: enter it. With Call on a variadic
		// function the arguments would be packed anew; that is not the same call.
		v := c.St.Eval(Mk("IsVariadic", "", f.Args[0]))
		if how == "CallSlice" || v == -1 {
			return c.ApplyIn(f.Args[1], []*Term{args}, "!")
		}
	}
	var res []*Term
	r := Sym("rres:"+c.Path, c.fr.iters...)
	res = append(res, r)
	ac := in.Contents(c.St, args)
	return in.userRes(c, how, f, ac, res)
}

func (in *Interp) userRes(c *CallCtx, how string, f, args *Term, res []*Term) []*Result {
	if in.User != nil {
		if rs, ok := in.User(c, f, args); ok {
			return rs
		}
	}
	ev := &Event{Kind: EvRCall, Name: how, Args: []*Term{f, args}, Res: res, Pos: c.Pos, Fn: c.From, Path: c.Path, Snap: in.snap(c.St)}
	c.St.emit(ev)
	after := func(st *State) {
		st.epoch++
		if in.AfterUser != nil {
			in.AfterUser(st, ev)
		}
	}
	if !in.UserExits {
		after(c.St)
		return []*Result{{St: c.St, Kind: XReturn, Vals: res}}
	}
	s2, s3 := c.St.Clone(), c.St.Clone()
	after(c.St)
	after(s2)
	after(s3)
	s2.panicking = Sym("userpanic")
	return []*Result{{St: c.St, Kind: XReturn, Vals: res}, {St: s2, Kind: XPanic, Pos: c.Pos}, {St: s3, Kind: XGoexit, Pos: c.Pos}}
}

var pureExt = map[string]func(in *Interp, a []*Term) *Term{
	"reflect.ValueOf":     func(in *Interp, a []*Term) *Term { return ValueOf(a[0]) },
	"reflect.TypeOf":      func(in *Interp, a []*Term) *Term { return TypeOfV(ValueOf(a[0])) },
	"reflect.Zero":        func(in *Interp, a []*Term) *Term { return Mk("Zero", "", a[0]) },
	"reflect.PtrTo":       func(in *Interp, a []*Term) *Term { return Mk("PtrTo", "", a[0]) },
	"reflect.PointerTo":   func(in *Interp, a []*Term) *Term { return Mk("PtrTo", "", a[0]) },
	"syscall.Getpagesize": func(in *Interp, a []*Term) *Term { return Mk("pagesize", "") },
	"os.Getpagesize":      func(in *Interp, a []*Term) *Term { return Mk("pagesize", "") },
	"runtime.KeepAlive":   func(in *Interp, a []*Term) *Term { return Nil },
}

// funcOf is reflect.FuncOf; the state tells the elements of the slices.
func (in *Interp) funcOf(c *CallCtx, args []*Term) *Term {
	ins, outs := in.Contents(c.St, args[0]), in.Contents(c.St, args[1])
	if ins == Nil {
		ins = List()
	}
	if outs == Nil {
		outs = List()
	}
	return raw("FuncOf", "", nil, ins, outs, args[2])
}

// PosString formats a position relative to the module root.
func (in *Interp) PosString(p token.Pos, root string) string {
	if p == token.NoPos {
		return "-"
	}
	q := in.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, root+"/"), q.Line)
}
