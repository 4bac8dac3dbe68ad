package absint

import (
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// In concrete mode the shape of the heap is known: slices have constant bounds, so
// that append, copy and bounds checks are modelled exactly, sharing of arrays
// included, and loops are followed as long as their conditions are decided.

// Alloc is a named piece of memory holding a T.
func Alloc(name string, T types.Type) *Term { return raw("alloc", name, T) }

// SliceOf makes a slice with the given elements in its own array.
func (in *Interp) SliceOf(st *State, name string, elem types.Type, elems ...*Term) *Term {
	return in.sliceIn(st, raw("alloc", name, types.NewArray(elem, int64(len(elems)))), elems)
}

func (in *Interp) sliceIn(st *State, a *Term, elems []*Term) *Term {
	n := Int(int64(len(elems)))
	for k, e := range elems {
		st.cells[IndexAddr(a, Int(int64(k)))] = e
	}
	return raw("sliceof", "", nil, a, Int(0), n, n)
}

// bounds gives the constant bounds of a slice.
func bounds(x *Term) (base *Term, lo, hi, max int64, ok bool) {
	if x.Op != "sliceof" {
		return nil, 0, 0, 0, false
	}
	lo, ok1 := x.Args[1].IsInt()
	hi, ok2 := x.Args[2].IsInt()
	max, ok3 := x.Args[3].IsInt()
	return x.Args[0], lo, hi, max, ok1 && ok2 && ok3
}

func (in *Interp) concreteAppend(c *CallCtx, x, y *Term, et types.Type) (*Term, bool) {
	st := c.St
	yc := in.Contents(st, y)
	if yc == Nil {
		yc = List()
	}
	if yc.Op != "list" {
		return nil, false
	}
	if len(yc.Args) == 0 {
		return x, true
	}
	var old []*Term
	switch x.Op {
	case "nil":
	case "list":
		old = x.Args
	default:
		base, lo, hi, max, ok := bounds(x)
		if !ok {
			return nil, false
		}
		if hi+int64(len(yc.Args)) <= max {
			for k, v := range yc.Args {
				a := IndexAddr(base, Int(hi+int64(k)))
				in.store(st, a, v)
				if !localOwned(a) {
					st.emit(&Event{Kind: EvStore, Args: []*Term{a, v}, Pos: c.Pos, Fn: c.From, Path: c.Path})
				}
			}
			return raw("sliceof", "", nil, base, Int(lo), Int(hi+int64(len(yc.Args))), Int(max)), true
		}
		oc := in.Contents(st, x)
		if oc.Op != "list" {
			return nil, false
		}
		old = oc.Args
	}
	all := append(append([]*Term(nil), old...), yc.Args...)
	n := int64(len(all))
	a := raw("alloc", c.Path+"#grow", types.NewArray(et, n+in.Spare), c.fr.iters...)
	for k, e := range all {
		st.cells[IndexAddr(a, Int(int64(k)))] = e
	}
	return raw("sliceof", "", nil, a, Int(0), Int(n), Int(n+in.Spare)), true
}

func localOwned(a *Term) bool { return addrRoot(a).Op == "alloc" }

func (in *Interp) concreteCopy(c *CallCtx, dst, src *Term) (*Term, bool) {
	st := c.St
	base, lo, hi, _, ok := bounds(dst)
	if !ok {
		return nil, false
	}
	sc := in.Contents(st, src)
	if sc == Nil {
		return Int(0), true
	}
	if sc.Op != "list" {
		return nil, false
	}
	n := hi - lo
	if int64(len(sc.Args)) < n {
		n = int64(len(sc.Args))
	}
	for k := int64(0); k < n; k++ {
		a := IndexAddr(base, Int(lo+k))
		in.store(st, a, sc.Args[k])
	}
	return Int(n), true
}

// outOfRange: the index is known to be outside the slice.
func (in *Interp) outOfRange(x, i *Term) bool {
	if !in.Concrete {
		return false
	}
	n, ok1 := Len(x).IsInt()
	k, ok2 := i.IsInt()
	return ok1 && ok2 && (k < 0 || k >= n)
}

func (in *Interp) boundsPanic(fr *frame, st *State, i ssa.Instruction) []*Result {
	st.emit(&Event{Kind: EvPanic, Name: "index out of range", Pos: i.Pos(), Fn: fr.fn, Path: fr.path})
	return []*Result{{St: st, Kind: XPanic, Pos: i.Pos()}}
}

// Resume makes a state that ended in a panic or exit usable for what the program does
// next, after somebody recovered or on another goroutine.
func (s *State) Resume() {
	s.panicking, s.goexit, s.recovered, s.unwinding = nil, false, false, false
}

// Panicking marks the state as being unwound by a panic.
func (s *State) Panicking(v *Term) { s.panicking = v }

// DropLocks forgets the locks held.
func (s *State) DropLocks() { s.locks = nil }

// Held gives the locks held.
func (s *State) Held() []*Term { return s.locks }

// NewRoot makes a distinct root name for a sequence of analysed calls.
func NewRoot(n int) string { return "S" + strconv.Itoa(n) }

// SetCell gives memory a value.
func (s *State) SetCell(a, v *Term) { s.cells[a] = v }

// strIndex is an index into a known string.
func (in *Interp) strIndex(fr *frame, st *State, i ssa.Instruction, x, k *Term) []*Result {
	s := x.Val.(string)
	n, ok := k.IsInt()
	if !ok {
		return ret(st, Mk("elem", "", x, k))
	}
	if n < 0 || n >= int64(len(s)) {
		return in.boundsPanic(fr, st, i)
	}
	return ret(st, Int(int64(s[n])))
}

// Store writes a value to memory.
func (in *Interp) Store(st *State, addr, v *Term) { in.store(st, addr, v) }

// Slice gives the array, first index and length of a slice of known bounds.
func Slice(x *Term) (base *Term, lo, n int64, ok bool) {
	base, lo, hi, _, ok := bounds(x)
	return base, lo, hi - lo, ok
}

// Resliced is the first n elements of a slice of known bounds.
func Resliced(x *Term, n int64) *Term {
	lo, _ := x.Args[1].IsInt()
	return raw("sliceof", "", nil, x.Args[0], x.Args[1], Int(lo+n), x.Args[3])
}

// Struct is a struct value with the given fields.
func Struct(T types.Type, fields ...*Term) *Term { return raw("struct", TypeKey(T), T, fields...) }

// Stack is the functions under way in the analysed code, outermost first.
func (c *CallCtx) Stack() []*ssa.Function { return c.fr.stack }

func isString(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// known is the string of n bytes in memory.
func (in *Interp) known(p, n *Term) *Term {
	k, ok := n.IsInt()
	if !ok {
		return nil
	}
	if s, ok := in.Text(p, k); ok {
		return Str(s)
	}
	return nil
}

// Pointee is the type of the memory at an address, when known.
func Pointee(p *Term) types.Type { return pointee(p) }

// Plus splits t + n.
func Plus(t *Term) (*Term, int64, bool) {
	m, c := linOf(t)
	if len(m) == 1 {
		for k, v := range m {
			if v == 1 {
				return k, c, true
			}
		}
	}
	return nil, 0, false
}

// PanicValue is the value of the panic under way.
func (s *State) PanicValue() *Term { return s.panicking }

// DropCell forgets the value of memory.
func (s *State) DropCell(a *Term) { delete(s.cells, a) }
