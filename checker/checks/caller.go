package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mockeycheck/absint"
)

func init() {
	rule("caller-location", "the location determined for a mock is the innermost one outside the library's package, or a placeholder", 12, ruleCaller)
	decides("C26", "caller-location", "history-remock")
}

// rtFrame is a frame of the goroutine's stack.
type rtFrame struct {
	fn   string // as the runtime names it
	user bool
}

// runtimeName is the name the runtime gives a function.
func runtimeName(f *ssa.Function) string {
	if p := f.Parent(); p != nil {
		// F$1 is F.func1, F$1$2 is F.func1.2
		n := runtimeName(p)
		k := f.Name()[strings.LastIndex(f.Name(), "$")+1:]
		if p.Parent() != nil {
			return n + "." + k
		}
		if p.Name() == "init" && p.Synthetic != "" {
			return pkgOf(f) + ".glob..func" + k
		}
		return n + ".func" + k
	}
	if strings.HasPrefix(f.Name(), "init#") {
		n, _ := strconv.Atoi(f.Name()[5:])
		return fmt.Sprintf("%s.init.%d", pkgOf(f), n-1)
	}
	targs := ""
	if len(f.TypeArgs()) > 0 {
		targs = "[...]"
	}
	name := f.Name()
	if k := strings.IndexByte(name, '['); k > 0 {
		name = name[:k]
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		star := false
		if p, ok := t.(*types.Pointer); ok {
			t, star = p.Elem(), true
		}
		if n, ok := t.(*types.Named); ok {
			x := n.Obj().Name()
			if n.TypeArgs().Len() > 0 {
				x += "[...]"
			}
			if star {
				x = "(*" + x + ")"
			}
			return pkgOf(f) + "." + x + "." + name
		}
	}
	return pkgOf(f) + "." + name + targs
}

// callerChains gives the functions under way when a location is asked for, from the
// function called by the user inwards.
func (m *Model) callerChains() (chains [][]string, asked map[string]*ssa.Function) {
	fns := moduleFunctions(m.P)
	// who may call whom
	succ := map[*ssa.Function][]*ssa.Function{}
	takes := map[*ssa.Function][]*ssa.Function{} // functions given to a function as an argument
	via := map[*ssa.Function]map[*ssa.Function]string{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := i.(*ssa.Go); isGo {
					continue
				}
				cc := ci.Common()
				g := cc.StaticCallee()
				if cc.IsInvoke() {
					if it, ok := cc.Value.Type().(*types.Named); ok && it.Obj().Pkg() != nil && m.P.InModule(it.Obj().Pkg().Path()) {
						for _, x := range fns {
							if x.Name() == cc.Method.Name() && x.Signature.Recv() != nil && types.Implements(x.Signature.Recv().Type(), it.Underlying().(*types.Interface)) {
								succ[f] = append(succ[f], x)
							}
						}
					}
				} else if g != nil && m.P.InModule(pkgOf(g)) && g.Blocks != nil {
					succ[f] = append(succ[f], g)
				}
				for _, a := range cc.Args {
					for _, c := range funcValues(a) {
						if g != nil && m.P.InModule(pkgOf(g)) {
							takes[g] = append(takes[g], c)
						} else if g != nil {
							succ[f] = append(succ[f], c)
							if via[f] == nil {
								via[f] = map[*ssa.Function]string{}
							}
							via[f][c] = g.String()
						}
					}
				}
			}
		}
	}
	for f, cs := range takes {
		succ[f] = append(succ[f], cs...)
	}
	asked = map[string]*ssa.Function{}
	seenChain := map[string]bool{}
	var path []*ssa.Function
	on := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if len(chains) > 400 || len(path) > 12 {
			return
		}
		if m.Callers[f] {
			var names []string
			for k, x := range path {
				if k > 0 {
					if e := via[path[k-1]][x]; e != "" {
						names = append(names, e)
					}
				}
				names = append(names, runtimeName(x))
			}
			key := strings.Join(names, " > ") + " > " + f.String()
			if !seenChain[key] {
				seenChain[key] = true
				chains = append(chains, append(names, f.String()))
				asked[f.String()] = f
			}
			return
		}
		if on[f] {
			return
		}
		on[f] = true
		path = append(path, f)
		for _, g := range succ[f] {
			walk(g)
		}
		path = path[:len(path)-1]
		on[f] = false
	}
	for _, f := range fns {
		if f.Pkg == m.Root && f.Parent() == nil && isExportedAPI(f) {
			walk(f)
		}
	}
	sort.Slice(chains, func(i, j int) bool { return strings.Join(chains[i], ">") < strings.Join(chains[j], ">") })
	return
}

func isExportedAPI(f *ssa.Function) bool {
	if f.Object() == nil || !f.Object().Exported() || f.Synthetic != "" {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		n, ok := deref(r.Type()).(*types.Named)
		return ok && n.Obj().Exported()
	}
	return true
}

func funcValues(v ssa.Value) []*ssa.Function {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}
	case *ssa.Function:
		if x.Blocks != nil {
			return []*ssa.Function{x}
		}
	case *ssa.ChangeType:
		return funcValues(x.X)
	case *ssa.MakeInterface:
		return funcValues(x.X)
	}
	return nil
}

// stackRun interprets a function that determines a location over a given stack.
type stackRun struct {
	in     *absint.Interp
	frames []rtFrame // below the analysed function, innermost first
	lost   bool      // the runtime knows nothing about the addresses
	lists  map[*absint.Term][]int
	bad    map[string]bool
}

const pcBase = 1 << 20

func pcOf(i int) *absint.Term { return absint.Int(int64(pcBase + 64*i + 1)) }

// frameAt is the frame an address belongs to; the address of a call and the one after it both do.
func frameAt(t *absint.Term) int {
	n, ok := t.IsInt()
	if !ok || n < pcBase {
		return -1
	}
	return int(n-pcBase) / 64
}

func lineOf(i int) int64  { return int64(700 + i) }
func fileOf(i int) string { return "/src/file" + strconv.Itoa(i) + ".go" }

func (s *stackRun) name(all []rtFrame, i int) string {
	if i < 0 || i >= len(all) {
		return ""
	}
	return all[i].fn
}

// stack is the whole stack as seen from a call in the analysed code, innermost first.
func (s *stackRun) stack(c *absint.CallCtx) []rtFrame {
	var out []rtFrame
	fs := c.Stack()
	for k := len(fs) - 1; k >= 0; k-- {
		out = append(out, rtFrame{fn: runtimeName(fs[k])})
	}
	return append(out, s.frames...)
}

func newStackRun(m *Model, frames []rtFrame, lost bool) *stackRun {
	in := m.Interp()
	for f := range m.Callers {
		delete(in.Intrinsics, f)
	}
	in.Concrete, in.UserExits, in.Volatile, in.NoSnap = true, false, nil, true
	s := &stackRun{in: in, frames: frames, lost: lost, lists: map[*absint.Term][]int{}, bad: map[string]bool{}}
	// addresses denote frames of the stack at the time of the first look at it
	var all []rtFrame
	look := func(c *absint.CallCtx) []rtFrame {
		st := s.stack(c)
		// frame numbers count from the outermost one so that they stay the same
		all = make([]rtFrame, len(st))
		for i := range st {
			all[len(st)-1-i] = st[i]
		}
		return st
	}
	nameOf := func(i int) string {
		if i >= 0 && i < len(all) {
			return all[i].fn
		}
		return ""
	}
	const fnp = "runtime function "
	fnTerm := func(i int) *absint.Term {
		if s.lost || i < 0 || i >= len(all) {
			return absint.Nil
		}
		return absint.Sym(fnp + strconv.Itoa(i))
	}
	fnIndex := func(t *absint.Term) int {
		if t.Op == "sym" && strings.HasPrefix(t.Aux, fnp) {
			n, _ := strconv.Atoi(t.Aux[len(fnp):])
			return n
		}
		return -1
	}
	in.External = map[string]absint.Intrinsic{
		"runtime.Caller": func(c *absint.CallCtx) []*absint.Result {
			st := look(c)
			k, ok := c.Args[0].IsInt()
			if !ok {
				return undecided(c)
			}
			if k < 0 || int(k) >= len(st) || s.lost {
				return c.Return(absint.Int(0), absint.Str(""), absint.Int(0), absint.False)
			}
			i := len(st) - 1 - int(k)
			return c.Return(pcOf(i), absint.Str(fileOf(i)), absint.Int(lineOf(i)), absint.True)
		},
		"runtime.Callers": func(c *absint.CallCtx) []*absint.Result {
			st := look(c)
			k, ok := c.Args[0].IsInt()
			base, lo, n, ok2 := absint.Slice(c.Args[1])
			if !ok || !ok2 {
				return undecided(c)
			}
			var cnt int64
			for j := int(k) - 1; j < len(st) && cnt < n && !s.lost; j++ {
				i := len(st) - 1 - j
				pc := pcOf(i)
				if j < 0 {
					i, pc = len(st), pcOf(len(st)) // runtime.Callers itself
				}
				in.Store(c.St, absint.IndexAddr(base, absint.Int(lo+cnt)), pc)
				cnt++
			}
			return c.Return(absint.Int(cnt))
		},
		"runtime.CallersFrames": func(c *absint.CallCtx) []*absint.Result {
			l := in.Contents(c.St, c.Args[0])
			if l == absint.Nil {
				l = absint.List()
			}
			if l.Op != "list" {
				return undecided(c)
			}
			cell := absint.Alloc("frames of "+c.Path, types.Typ[types.Int])
			in.Store(c.St, cell, absint.Int(0))
			var is []int
			for _, a := range l.Args {
				is = append(is, frameAt(a))
			}
			s.lists[cell] = is
			return c.Return(cell)
		},
		"(*runtime.Frames).Next": func(c *absint.CallCtx) []*absint.Result {
			is, ok := s.lists[c.Args[0]]
			pos, ok2 := int64(0), false
			if ok {
				pos, ok2 = in.LoadAt(c.St, c.Args[0], types.Typ[types.Int]).IsInt()
			}
			if !ok || !ok2 {
				return undecided(c)
			}
			T := c.Fn.Signature.Results().At(0).Type()
			u := T.Underlying().(*types.Struct)
			i := -1
			if int(pos) < len(is) {
				i = is[pos]
			}
			var fs []*absint.Term
			for k := 0; k < u.NumFields(); k++ {
				v := absint.Zero(u.Field(k).Type())
				if i >= 0 {
					switch u.Field(k).Name() {
					case "PC":
						v = absint.Int(int64(pcBase + 64*i))
					case "Func":
						v = fnTerm(i)
					case "Function":
						v = absint.Str(nameOf(i))
					case "File":
						v = absint.Str(fileOf(i))
					case "Line":
						v = absint.Int(lineOf(i))
					}
				}
				fs = append(fs, v)
			}
			in.Store(c.St, c.Args[0], absint.Int(pos+1))
			return c.Return(absint.Struct(T, fs...), absint.Bool(int(pos)+1 < len(is)))
		},
		"runtime.FuncForPC": func(c *absint.CallCtx) []*absint.Result {
			return c.Return(fnTerm(frameAt(c.Args[0])))
		},
		"(*runtime.Func).Name": func(c *absint.CallCtx) []*absint.Result {
			return c.Return(absint.Str(nameOf(fnIndex(c.Args[0]))))
		},
		"(*runtime.Func).FileLine": func(c *absint.CallCtx) []*absint.Result {
			i := frameAt(c.Args[1])
			if i < 0 {
				return c.Return(absint.Str("?"), absint.Int(0))
			}
			return c.Return(absint.Str(fileOf(i)), absint.Int(lineOf(i)))
		},
	}
	stringModels(in)
	return s
}

func undecided(c *absint.CallCtx) []*absint.Result {
	return []*absint.Result{{St: c.St, Kind: absint.XUndecided, Pos: c.Pos}}
}

// stringModels folds string functions of known strings.
func stringModels(in *absint.Interp) {
	str := func(t *absint.Term) (string, bool) {
		s, ok := t.Val.(string)
		return s, ok && t.Op == "str"
	}
	fold := func(n int, f func(s []string, c *absint.CallCtx) []*absint.Term) absint.Intrinsic {
		return func(c *absint.CallCtx) []*absint.Result {
			var ss []string
			for k := 0; k < n; k++ {
				s, ok := str(c.Args[k])
				if !ok {
					return undecided(c)
				}
				ss = append(ss, s)
			}
			vs := f(ss, c)
			if vs == nil {
				return undecided(c)
			}
			return c.Return(vs...)
		}
	}
	slice := func(c *absint.CallCtx, l []string) []*absint.Term {
		var es []*absint.Term
		for _, x := range l {
			es = append(es, absint.Str(x))
		}
		return []*absint.Term{in.SliceOf(c.St, "strings of "+c.Path, types.Typ[types.String], es...)}
	}
	one := func(t *absint.Term) []*absint.Term { return []*absint.Term{t} }
	intArg := func(c *absint.CallCtx, k int) int {
		n, ok := c.Args[k].IsInt()
		if !ok {
			return 1 << 30
		}
		return int(n)
	}
	E := in.External
	E["strings.Split"] = fold(2, func(s []string, c *absint.CallCtx) []*absint.Term { return slice(c, strings.Split(s[0], s[1])) })
	E["strings.SplitAfter"] = fold(2, func(s []string, c *absint.CallCtx) []*absint.Term { return slice(c, strings.SplitAfter(s[0], s[1])) })
	E["strings.SplitN"] = fold(2, func(s []string, c *absint.CallCtx) []*absint.Term {
		return slice(c, strings.SplitN(s[0], s[1], intArg(c, 2)))
	})
	E["strings.Fields"] = fold(1, func(s []string, c *absint.CallCtx) []*absint.Term { return slice(c, strings.Fields(s[0])) })
	E["strings.Index"] = fold(2, func(s []string, c *absint.CallCtx) []*absint.Term {
		return one(absint.Int(int64(strings.Index(s[0], s[1]))))
	})
	E["strings.LastIndex"] = fold(2, func(s []string, c *absint.CallCtx) []*absint.Term {
		return one(absint.Int(int64(strings.LastIndex(s[0], s[1]))))
	})
	E["strings.IndexByte"] = fold(1, func(s []string, c *absint.CallCtx) []*absint.Term {
		return one(absint.Int(int64(strings.IndexByte(s[0], byte(intArg(c, 1))))))
	})
	E["strings.LastIndexByte"] = fold(1, func(s []string, c *absint.CallCtx) []*absint.Term {
		return one(absint.Int(int64(strings.LastIndexByte(s[0], byte(intArg(c, 1))))))
	})
	E["strings.IndexRune"] = fold(1, func(s []string, c *absint.CallCtx) []*absint.Term {
		return one(absint.Int(int64(strings.IndexRune(s[0], rune(intArg(c, 1))))))
	})
	E["strings.IndexAny"] = fold(2, func(s []string, c *absint.CallCtx) []*absint.Term {
		return one(absint.Int(int64(strings.IndexAny(s[0], s[1]))))
	})
	E["strings.LastIndexAny"] = fold(2, func(s []string, c *absint.CallCtx) []*absint.Term {
		return one(absint.Int(int64(strings.LastIndexAny(s[0], s[1]))))
	})
	E["strings.HasPrefix"] = fold(2, func(s []string, c *absint.CallCtx) []*absint.Term {
		return one(absint.Bool(strings.HasPrefix(s[0], s[1])))
	})
	E["strings.HasSuffix"] = fold(2, func(s []string, c *absint.CallCtx) []*absint.Term {
		return one(absint.Bool(strings.HasSuffix(s[0], s[1])))
	})
	E["strings.Contains"] = fold(2, func(s []string, c *absint.CallCtx) []*absint.Term {
		return one(absint.Bool(strings.Contains(s[0], s[1])))
	})
	E["strings.Count"] = fold(2, func(s []string, c *absint.CallCtx) []*absint.Term {
		return one(absint.Int(int64(strings.Count(s[0], s[1]))))
	})
	E["strings.TrimPrefix"] = fold(2, func(s []string, c *absint.CallCtx) []*absint.Term {
		return one(absint.Str(strings.TrimPrefix(s[0], s[1])))
	})
	E["strings.TrimSuffix"] = fold(2, func(s []string, c *absint.CallCtx) []*absint.Term {
		return one(absint.Str(strings.TrimSuffix(s[0], s[1])))
	})
	E["strings.Trim"] = fold(2, func(s []string, c *absint.CallCtx) []*absint.Term { return one(absint.Str(strings.Trim(s[0], s[1]))) })
	E["strings.TrimLeft"] = fold(2, func(s []string, c *absint.CallCtx) []*absint.Term {
		return one(absint.Str(strings.TrimLeft(s[0], s[1])))
	})
	E["strings.TrimRight"] = fold(2, func(s []string, c *absint.CallCtx) []*absint.Term {
		return one(absint.Str(strings.TrimRight(s[0], s[1])))
	})
	E["strings.TrimSpace"] = fold(1, func(s []string, c *absint.CallCtx) []*absint.Term { return one(absint.Str(strings.TrimSpace(s[0]))) })
	E["strings.ToLower"] = fold(1, func(s []string, c *absint.CallCtx) []*absint.Term { return one(absint.Str(strings.ToLower(s[0]))) })
	E["strings.EqualFold"] = fold(2, func(s []string, c *absint.CallCtx) []*absint.Term {
		return one(absint.Bool(strings.EqualFold(s[0], s[1])))
	})
	E["strings.Cut"] = fold(2, func(s []string, c *absint.CallCtx) []*absint.Term {
		a, b, ok := strings.Cut(s[0], s[1])
		return []*absint.Term{absint.Str(a), absint.Str(b), absint.Bool(ok)}
	})
	E["strings.Join"] = func(c *absint.CallCtx) []*absint.Result {
		l := in.Contents(c.St, c.Args[0])
		sep, ok := str(c.Args[1])
		if l == absint.Nil {
			l = absint.List()
		}
		if l.Op != "list" || !ok {
			return undecided(c)
		}
		var ss []string
		for _, e := range l.Args {
			s, ok := str(e)
			if !ok {
				return undecided(c)
			}
			ss = append(ss, s)
		}
		return c.Return(absint.Str(strings.Join(ss, sep)))
	}
	E["path.Base"] = fold(1, func(s []string, c *absint.CallCtx) []*absint.Term {
		return one(absint.Str(s[0][strings.LastIndex(s[0], "/")+1:]))
	})
	E["path/filepath.Base"] = E["path.Base"]
	E["strconv.Itoa"] = func(c *absint.CallCtx) []*absint.Result {
		if n, ok := c.Args[0].IsInt(); ok {
			return c.Return(absint.Str(strconv.FormatInt(n, 10)))
		}
		return undecided(c)
	}
	E["strconv.Atoi"] = fold(1, func(s []string, c *absint.CallCtx) []*absint.Term {
		n, err := strconv.Atoi(s[0])
		return []*absint.Term{absint.Int(int64(n)), errorOf(c, err)}
	})
	parse := func(c *absint.CallCtx, f func(s string, base, bits int) (int64, error)) []*absint.Result {
		s, ok := str(c.Args[0])
		base, ok1 := c.Args[1].IsInt()
		bits, ok2 := c.Args[2].IsInt()
		if !ok || !ok1 || !ok2 {
			return undecided(c)
		}
		n, err := f(s, int(base), int(bits))
		return c.Return(absint.Int(n), errorOf(c, err))
	}
	E["strconv.ParseInt"] = func(c *absint.CallCtx) []*absint.Result { return parse(c, strconv.ParseInt) }
	E["strconv.ParseUint"] = func(c *absint.CallCtx) []*absint.Result {
		return parse(c, func(s string, base, bits int) (int64, error) {
			n, err := strconv.ParseUint(s, base, bits)
			return int64(n), err
		})
	}
	E["fmt.Sscanf"] = func(c *absint.CallCtx) []*absint.Result {
		s, ok := str(c.Args[0])
		f, ok2 := str(c.Args[1])
		l := in.Contents(c.St, c.Args[2])
		if !ok || !ok2 || l.Op != "list" {
			return undecided(c)
		}
		var dst []interface{}
		for _, a := range l.Args {
			T := absint.Pointee(addressIn(a))
			if T == nil {
				return undecided(c)
			}
			b, _ := T.Underlying().(*types.Basic)
			switch {
			case b == nil:
				return undecided(c)
			case b.Info()&types.IsInteger != 0:
				dst = append(dst, new(int64))
			case b.Info()&types.IsString != 0:
				dst = append(dst, new(string))
			default:
				return undecided(c)
			}
		}
		n, err := fmt.Sscanf(s, f, dst...)
		for i, d := range dst {
			if i >= n {
				break
			}
			switch x := d.(type) {
			case *int64:
				in.Store(c.St, addressIn(l.Args[i]), absint.Int(*x))
			case *string:
				in.Store(c.St, addressIn(l.Args[i]), absint.Str(*x))
			}
		}
		return c.Return(absint.Int(int64(n)), errorOf(c, err))
	}
	E["fmt.Sprintf"] = func(c *absint.CallCtx) []*absint.Result {
		f, ok := str(c.Args[0])
		l := in.Contents(c.St, c.Args[1])
		if !ok || l.Op != "list" {
			return c.Return(c.ResSym(0))
		}
		var as []interface{}
		for _, a := range l.Args {
			if a.Op == "iface" {
				a = a.Args[0]
			}
			if n, ok := a.IsInt(); ok {
				as = append(as, n)
			} else if s, ok := str(a); ok {
				as = append(as, s)
			} else {
				return c.Return(c.ResSym(0))
			}
		}
		return c.Return(absint.Str(fmt.Sprintf(f, as...)))
	}
}

// userFrames are the shapes of the functions a user's call may be in.
func userFrames(module string) []string {
	return []string{
		"example.com/user/pkg.TestX",
		"example.com/user/pkg.TestX.func1",
		"example.com/user/pkg.TestX.func1.2",
		"example.com/user/pkg.(*Suite).TestX",
		"example.com/user/pkg.(*Suite).TestX.func3",
		"example.com/user/pkg.Suite.TestX",
		"example.com/user/pkg.Gen[...]",
		"example.com/user/pkg.(*Box[...]).Fill",
		"example.com/user/pkg.init",
		"example.com/user/pkg.init.0",
		"example.com/user/pkg.glob..func1",
		"example.com/v1.2/pkg.F",
		"gopkg.in/pkg%2ev1.F",
		"main.main",
		"main.main.func1",
		module + "_test.TestX",
		module + "_test.(*Suite).TestX",
		module + "/sub.F",
		module + "/sub.F.func1",
		module[:strings.LastIndex(module, "/")] + ".F",
		"mockey.F",
		"testing.tRunner",
	}
}

func ruleCaller(c *Ctx, r *Report) {
	m := c.Model(Linux)
	need(len(m.Callers) > 0, "the function that determines a location")
	chains, asked := m.callerChains()
	need(len(chains) > 0, "a request of a location")
	done := map[string]bool{}
	run := func(what string, f *ssa.Function, frames []rtFrame, want func(i int, frames []rtFrame) bool, wantPlace bool, lost bool) {
		s := newStackRun(m, frames, lost)
		st := absint.NewState()
		for k := range s.in.Entered {
			r.Functions[fnKey(k)] = true
		}
		for _, e := range s.in.Call(st, f, nil, nil, "L") {
			r.Paths++
			r.Ob(what)
			msg, at := "", m.P.Pos(f.Pos())
			switch {
			case e.Kind == absint.XPanic:
				msg = "determining the location panics"
			case e.Kind != absint.XReturn:
				msg = "undecided: how the location is determined"
			default:
				msg = m.judgeLocation(s, f, e, frames, want, wantPlace)
			}
			if msg != "" {
				r.Bad("location of a mock", at, msg, append([]string{what, "stack, innermost first: " + f.String() + " < " + frameNames(frames)}, describe(m.P, e)...)...)
			}
		}
		for k := range s.in.Entered {
			r.Functions[fnKey(k)] = true
		}
		r.Problems(s.in, fnKey(f))
	}
	tail := []rtFrame{{fn: "testing.tRunner"}, {fn: "runtime.goexit"}}
	innermost := func(i int, frames []rtFrame) bool {
		for k, x := range frames {
			if x.user {
				return k == i
			}
		}
		return false
	}
	users := userFrames(m.P.Module)
	for _, ch := range chains {
		f := asked[ch[len(ch)-1]]
		var lib []rtFrame
		for k := len(ch) - 2; k >= 0; k-- {
			lib = append(lib, rtFrame{fn: ch[k]})
		}
		via := ch[0]
		for k, u := range users {
			if k > 2 && done[strings.Join(ch[1:], ">")+u] {
				continue
			}
			done[strings.Join(ch[1:], ">")+u] = true
			fs := append(append(append([]rtFrame(nil), lib...), rtFrame{fn: u, user: true}), tail...)
			run("called by "+via+" from "+u, f, fs, innermost, false, false)
		}
		// within a context: the user's function is called by the library's
		fs := append(append([]rtFrame(nil), lib...), rtFrame{fn: users[1], user: true}, rtFrame{fn: "reflect.Value.call"}, rtFrame{fn: "reflect.Value.Call"},
			rtFrame{fn: m.P.Module + "/internal/tool.ReflectCall"}, rtFrame{fn: m.P.Module + ".PatchConvey.func1"}, rtFrame{fn: "reflect.callReflect"}, rtFrame{fn: "reflect.makeFuncStub"},
			rtFrame{fn: "github.com/smartystreets/goconvey/convey.parseAction.func1"}, rtFrame{fn: m.P.Module + ".PatchConvey"}, rtFrame{fn: users[0], user: true})
		run("called by "+via+" in a context", f, append(fs, tail...), innermost, false, false)
		// a deep stack of the user's
		fs = append([]rtFrame(nil), lib...)
		for k := 0; k < 20; k++ {
			fs = append(fs, rtFrame{fn: fmt.Sprintf("example.com/user/deep%d.F", k), user: true})
		}
		run("called by "+via+" far down", f, append(fs, tail...), innermost, false, false)
		// nothing to report: started with go, or a stack that cannot be read
		run("called by "+via+" as a goroutine", f, append(append([]rtFrame(nil), lib...), rtFrame{fn: "runtime.goexit", user: true}), innermost, true, false)
		run("called by "+via+", the runtime telling nothing", f, append(append([]rtFrame(nil), lib...), tail...), func(int, []rtFrame) bool { return false }, true, true)
	}
	r.Notes = append(r.Notes, fmt.Sprintf("%d ways the library gets to determine a location", len(chains)))
}

func frameNames(fs []rtFrame) string {
	var out []string
	for _, f := range fs {
		out = append(out, f.fn)
	}
	return strings.Join(out, " < ")
}

// judgeLocation compares the location returned with the one expected.
func (m *Model) judgeLocation(s *stackRun, f *ssa.Function, e *absint.Result, frames []rtFrame, want func(i int, frames []rtFrame) bool, place bool) string {
	T := f.Signature.Results().At(0).Type()
	u := T.Underlying().(*types.Struct)
	v := e.Vals[0]
	var file, line *absint.Term
	for k := 0; k < u.NumFields(); k++ {
		x := absint.FieldOf(v, absint.TypeKey(T)+"#"+strconv.Itoa(k), u)
		switch u.Field(k).Name() {
		case "File":
			file = x
		case "Line":
			line = x
		}
	}
	fs, ok := file.Val.(string)
	if file.Op != "str" || !ok {
		return "undecided: the file of the location is " + file.String()
	}
	ln, ok := line.IsInt()
	if !ok {
		return "undecided: the line of the location is " + line.String()
	}
	at := -1
	// frame numbers count from the outermost frame
	for i := range frames {
		n := len(frames) - 1 - i
		if fs == fileOf(n) && ln == lineOf(n) {
			at = i
		}
	}
	isFrame := strings.HasPrefix(fs, "/src/file")
	switch {
	case at >= 0 && want(at, frames):
	case place && !isFrame && fs != "":
	case at >= 0:
		return "is that of a call inside the library or of an outer function and not the innermost one outside"
	case isFrame:
		return "mixes file and line of different calls"
	case place:
		return "is empty where it cannot be determined"
	default:
		return "is not found although there is one"
	}
	// how it is shown
	n, ok := T.(*types.Named)
	if !ok {
		return ""
	}
	var show *ssa.Function
	for _, g := range moduleFunctions(m.P) {
		if g.Name() == "String" && g.Signature.Recv() != nil && types.Identical(g.Signature.Recv().Type(), n) && g.Synthetic == "" {
			show = g
		}
	}
	if show == nil || at < 0 {
		return ""
	}
	for _, x := range s.in.Call(e.St.Clone(), show, []*absint.Term{v}, nil, "S") {
		if x.Kind != absint.XReturn {
			return "showing the location panics"
		}
		if t, ok := x.Vals[0].Val.(string); ok && x.Vals[0].Op == "str" {
			if !strings.Contains(t, fs+":"+strconv.FormatInt(ln, 10)) {
				return "is not shown as file and line"
			}
		}
	}
	return ""
}

// errorOf is the error a call gives.
func errorOf(c *absint.CallCtx, err error) *absint.Term {
	if err == nil {
		return absint.Nil
	}
	e := absint.Sym("error of " + c.Path)
	c.St.Assume(isNil(e), false)
	return e
}

// addressIn is the pointer in an interface.
func addressIn(t *absint.Term) *absint.Term {
	for t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}
