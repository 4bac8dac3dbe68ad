package checks

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"mockeycheck/absint"
	"mockeycheck/load"
)

func init() {
	rule("lookup", "the lookup functions give the method or field function of the very name for every shape of instance, or panic", 100, ruleLookup)
	rule("runtime-types", "the same with the type descriptors of the other Go releases", 100, ruleRuntimeTypes)
	decides("C19", "lookup")
	decides("C17", "lookup", "runtime-types")
}

// instanceTypes are the shapes of instances whose lookups are decided.
const instanceTypes = `package user

type Val struct{ n int }
func (Val) A(int) string { return "" }
func (Val) Ab() {}
func (Val) b(string, ...int) (bool, error) { return false, nil }
func (Val) bc() {}

type Ptr struct{ n int }
func (*Ptr) A(...string) {}
func (*Ptr) AA() {}
func (*Ptr) Ab(int) {}
func (*Ptr) aB() {}
func (*Ptr) b(int) {}
func (*Ptr) bb() int { return 0 }
func (*Ptr) LONG() {}
func (*Ptr) long() {}

type Mixed struct{}
func (Mixed) A() {}
func (*Mixed) B() {}
func (Mixed) c() {}
func (*Mixed) d() {}

type Emb struct{ Val }
type Over struct{ Val }
func (Over) A(int) string { return "" }
func (Over) Own() {}
type EmbP struct{ n int; *Ptr }
type Mid struct{ M int; Val; Side Ptr }
func (*Mid) Ab() {}
type Deep struct{ x int; *Mid }
func (Deep) Top() {}
type Deeper struct{ a, b2 int; Deep }
type Named struct{ Field Ptr; Other *Val }
type Two struct{ Val; *Ptr }
type Face interface { A(int) string }
type EmbI struct{ Face }
type Fn struct {
	f func(int) string
	G func(...int)
	n int
	A int
	h func()
	nilF func()
}
type FnT func(string) int
func (FnT) A() {}
func (FnT) b(int) {}
type FnEmb struct{ Fn; k FnT }
type Int int
func (Int) A() {}
func (Int) c() {}
type Hid struct{}
func (*Hid) b() int { return 0 }
func (Hid) c() {}
type Bare struct{}
type Big struct{ s string; Emb; t [4]int }
func (Big) z() {}
type Ring struct { *Ring; n int }
func (*Ring) A() {}
func (*Ring) r() {}
`

// rfn is a function as code.
type rfn struct {
	sig  *types.Signature
	code string
}

// rval is a value as reflection sees it.
type rval struct {
	T     types.Type // nil: the zero Value
	elem  *rval      // what a pointer or interface holds; nil: nil
	field []*rval
	fn    *rfn // nil: nil function
	made  bool // by reflect.MakeFunc
}

// rworld models reflection over known values.
type rworld struct {
	in    *absint.Interp
	pkg   *types.Package
	vals  map[*absint.Term]*rval
	terms map[*rval]*absint.Term
	n     int
	abi   *types.Package
	dead  bool // the methods that are found by name only were removed by the linker
	offs  []interface{}
	known map[string]map[int64]*absint.Term
	wide  map[string]map[int64]int64 // sizes of what known tells
	text  map[*absint.Term]string
	names map[*absint.Term]string
	types map[string]types.Type
}

func longName(c string) string { return strings.Repeat(c, 150) }

// userTypes type-checks the instance types.
func userTypes() (*types.Package, error) {
	fset := token.NewFileSet()
	src := strings.NewReplacer("LONG", "L"+longName("O"), "long", "l"+longName("o")).Replace(instanceTypes)
	f, err := parser.ParseFile(fset, "user.go", src, 0)
	if err != nil {
		return nil, err
	}
	cfg := types.Config{}
	return cfg.Check("example.com/user", fset, []*ast.File{f}, nil)
}

func (w *rworld) term(v *rval) *absint.Term {
	if t := w.terms[v]; t != nil {
		return t
	}
	w.n++
	t := absint.Sym("reflect value " + strconv.Itoa(w.n))
	w.terms[v] = t
	w.vals[t] = v
	return t
}

// value gives the reflected value a term denotes.
func (w *rworld) value(t *absint.Term) (*rval, bool) {
	if v := w.vals[t]; v != nil {
		return v, true
	}
	if t.Op == "zero" {
		return &rval{}, true
	}
	return nil, false
}

// dynamic is the value in an interface.
func (w *rworld) dynamic(t *absint.Term) (*rval, bool) {
	if t == absint.Nil || t.Op == "zero" {
		return &rval{}, true
	}
	if t.Op == "Iface" {
		return w.value(t.Args[0])
	}
	// assembled from words
	if t.Op == "pun" || t.Op == "recast" || t.Op == "struct" {
		d := w.in.Word(t, 0, 8, nil)
		if d == absint.Nil || d == absint.Int(0) {
			return &rval{}, true
		}
		if T := w.descriptor(d); T != nil {
			return &rval{T: T, fn: &rfn{code: "?"}, elem: &rval{}}, true
		}
	}
	return nil, false
}

// descriptor recognises the address of a type descriptor.
func (w *rworld) descriptor(t *absint.Term) types.Type {
	for t.Op == "cast" {
		t = t.Args[0]
	}
	if t.Op == "word" && t.Aux == "8:8" && t.Args[0].Op == "rtype" {
		return t.Args[0].Val.(types.Type)
	}
	if t.Op == "word" && t.Aux == "0:8" {
		if v, ok := w.dynamic(t.Args[0]); ok {
			return v.T
		}
	}
	return nil
}

func kindOfType(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.String: reflect.String, types.Uintptr: reflect.Uintptr, types.UnsafePointer: reflect.UnsafePointer}[u.Kind()]
	case *types.Pointer:
		return reflect.Ptr
	case *types.Struct:
		return reflect.Struct
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

// methodsOf lists the methods of a type in the order of its method table.
func methodsOf(T types.Type) []*types.Selection {
	ms := types.NewMethodSet(T)
	var out []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		out = append(out, ms.At(i))
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Obj().Name() < out[j].Obj().Name() })
	return out
}

// methodFunc is the function of a method of T, with the receiver in front.
func methodFunc(T types.Type, sel *types.Selection) *rfn {
	f := sel.Obj().(*types.Func)
	sig := f.Type().(*types.Signature)
	ps := []*types.Var{types.NewVar(token.NoPos, nil, "", T)}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, types.NewVar(token.NoPos, nil, "", sig.Params().At(i).Type()))
	}
	code := "wrapper " + T.String() + "." + f.Name()
	if types.Identical(sig.Recv().Type(), T) {
		code = "method " + T.String() + "." + f.Name()
	}
	return &rfn{types.NewSignature(nil, types.NewTuple(ps...), anon(sig.Results()), sig.Variadic()), code}
}

func anon(t *types.Tuple) *types.Tuple {
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, types.NewVar(token.NoPos, nil, "", t.At(i).Type()))
	}
	return types.NewTuple(vs...)
}

// build makes a value of a type; the pointers, interfaces and functions of fields named in nils are nil.
func (w *rworld) build(T types.Type, nils map[string]bool, depth int) *rval {
	v := &rval{T: T}
	switch u := T.Underlying().(type) {
	case *types.Pointer:
		if depth < 8 {
			v.elem = w.build(u.Elem(), nils, depth+1)
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if nils[f.Name()] || f.Name() == "nilF" || f.Name() == "Ring" && depth > 2 {
				v.field = append(v.field, &rval{T: f.Type()})
				continue
			}
			x := w.build(f.Type(), nils, depth+1)
			if _, ok := f.Type().Underlying().(*types.Signature); ok {
				x.fn = &rfn{f.Type().Underlying().(*types.Signature), "value of field " + f.Name()}
			}
			if _, ok := f.Type().Underlying().(*types.Interface); ok {
				x.elem = w.build(w.pkg.Scope().Lookup("Val").Type(), nils, depth+1)
			}
			v.field = append(v.field, x)
		}
	case *types.Signature:
		v.fn = &rfn{u, "function value of type " + T.String()}
	}
	return v
}

// findField is the path to a field, promoted ones included.
func findField(T types.Type, name string) []int {
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	_ = st
	n, _ := T.(*types.Named)
	var pkg *types.Package
	if n != nil {
		pkg = n.Obj().Pkg()
	}
	o, idx, _ := types.LookupFieldOrMethod(T, true, pkg, name)
	if v, ok := o.(*types.Var); ok && v.IsField() {
		return idx
	}
	return nil
}

func (w *rworld) panic(c *absint.CallCtx, why string) []*absint.Result {
	c.St.Panicking(absint.Str(why))
	return []*absint.Result{{St: c.St, Kind: absint.XPanic, Pos: c.Pos}}
}

// record builds a struct of package reflect from the values of some of its fields.
func (w *rworld) record(T types.Type, fs map[string]*absint.Term) *absint.Term {
	st := T.Underlying().(*types.Struct)
	var vs []*absint.Term
	for i := 0; i < st.NumFields(); i++ {
		if v := fs[st.Field(i).Name()]; v != nil {
			vs = append(vs, v)
		} else {
			vs = append(vs, absint.Zero(st.Field(i).Type()))
		}
	}
	return absint.Struct(T, vs...)
}

func (w *rworld) methodRecord(mt types.Type, T types.Type, sel *types.Selection, idx int) *absint.Term {
	f := methodFunc(T, sel)
	sig := sel.Obj().Type().(*types.Signature)
	fs := map[string]*absint.Term{"Name": absint.Str(sel.Obj().Name()), "Index": absint.Int(int64(idx))}
	if types.IsInterface(T) {
		fs["Type"] = absint.RType(types.NewSignature(nil, sig.Params(), sig.Results(), sig.Variadic()))
	} else {
		fs["Type"] = absint.RType(f.sig)
		fs["Func"] = w.term(&rval{T: f.sig, fn: f})
	}
	return w.record(mt, fs)
}

func exportedMethods(T types.Type) (out []*types.Selection) {
	for _, s := range methodsOf(T) {
		if s.Obj().Exported() {
			out = append(out, s)
		}
	}
	return
}

// typeMethod models a method of reflect.Type.
func (w *rworld) typeMethod(c *absint.CallCtx, T types.Type, name string) []*absint.Result {
	res := func(k int) types.Type { return c.Sig.Results().At(k).Type() }
	num := func(k int) int64 {
		n, ok := c.Args[k].IsInt()
		if !ok {
			return -1
		}
		return n
	}
	str := func(k int) (string, bool) {
		s, ok := c.Args[k].Val.(string)
		return s, ok && c.Args[k].Op == "str"
	}
	st, _ := T.Underlying().(*types.Struct)
	sig, _ := T.Underlying().(*types.Signature)
	fieldRec := func(T types.Type, i int, index []int) *absint.Term {
		f := T.Underlying().(*types.Struct).Field(i)
		fs := map[string]*absint.Term{"Name": absint.Str(f.Name()), "Type": absint.RType(f.Type()), "Anonymous": absint.Bool(f.Embedded())}
		if !f.Exported() {
			fs["PkgPath"] = absint.Str(f.Pkg().Path())
		}
		return w.record(res(0), fs)
	}
	switch name {
	case "Kind":
		return c.Return(absint.Int(int64(kindOfType(T))))
	case "Elem":
		switch u := T.Underlying().(type) {
		case *types.Pointer:
			return c.Return(absint.RType(u.Elem()))
		case *types.Slice:
			return c.Return(absint.RType(u.Elem()))
		case *types.Array:
			return c.Return(absint.RType(u.Elem()))
		}
		return w.panic(c, "Elem")
	case "NumField":
		if st == nil {
			return w.panic(c, name)
		}
		return c.Return(absint.Int(int64(st.NumFields())))
	case "Field":
		if st == nil || num(0) < 0 || num(0) >= int64(st.NumFields()) {
			return w.panic(c, name)
		}
		return c.Return(fieldRec(T, int(num(0)), nil))
	case "FieldByName":
		s, ok := str(0)
		if !ok {
			return undecided(c)
		}
		if st == nil {
			return w.panic(c, name)
		}
		p := findField(T, s)
		if p == nil {
			return c.Return(absint.Zero(res(0)), absint.False)
		}
		at := T
		for _, i := range p[:len(p)-1] {
			at = deref(at.Underlying().(*types.Struct).Field(i).Type())
		}
		return c.Return(fieldRec(at, p[len(p)-1], p), absint.True)
	case "NumMethod":
		return c.Return(absint.Int(int64(len(exportedMethods(T)))))
	case "Method":
		ms := exportedMethods(T)
		if num(0) < 0 || num(0) >= int64(len(ms)) {
			return w.panic(c, name)
		}
		return c.Return(w.methodRecord(res(0), T, ms[num(0)], int(num(0))))
	case "MethodByName":
		s, ok := str(0)
		if !ok {
			return undecided(c)
		}
		for i, m := range exportedMethods(T) {
			if m.Obj().Name() == s {
				return c.Return(w.methodRecord(res(0), T, m, i), absint.True)
			}
		}
		return c.Return(absint.Zero(res(0)), absint.False)
	case "NumIn", "NumOut", "In", "Out", "IsVariadic":
		if sig == nil {
			return w.panic(c, name)
		}
		tu := sig.Params()
		if name == "NumOut" || name == "Out" {
			tu = sig.Results()
		}
		switch name {
		case "IsVariadic":
			return c.Return(absint.Bool(sig.Variadic()))
		case "NumIn", "NumOut":
			return c.Return(absint.Int(int64(tu.Len())))
		}
		if num(0) < 0 || num(0) >= int64(tu.Len()) {
			return w.panic(c, name)
		}
		return c.Return(absint.RType(tu.At(int(num(0))).Type()))
	case "String", "Name", "PkgPath":
		s := T.String()
		if n, ok := T.(*types.Named); name != "String" {
			s = ""
			if ok && name == "Name" {
				s = n.Obj().Name()
			} else if ok {
				s = n.Obj().Pkg().Path()
			}
		}
		return c.Return(absint.Str(s))
	case "Implements", "AssignableTo", "ConvertibleTo":
		o := c.Args[0]
		if o.Op == "rtype" {
			return c.Return(absint.Bool(types.AssignableTo(T, o.Val.(types.Type))))
		}
	}
	return undecided(c)
}

// valueMethod models a method of reflect.Value.
func (w *rworld) valueMethod(c *absint.CallCtx, name string) []*absint.Result {
	v, ok := w.value(c.Args[0])
	if !ok {
		return undecided(c)
	}
	if v.T == nil {
		switch name {
		case "IsValid":
			return c.Return(absint.False)
		case "Kind":
			return c.Return(absint.Int(0))
		case "String":
			return c.Return(absint.Str("<invalid Value>"))
		}
		return w.panic(c, name+" of the zero Value")
	}
	k := kindOfType(v.T)
	st, _ := v.T.Underlying().(*types.Struct)
	switch name {
	case "IsValid":
		return c.Return(absint.True)
	case "Kind":
		return c.Return(absint.Int(int64(k)))
	case "Type":
		return c.Return(absint.RType(v.T))
	case "Elem":
		if k != reflect.Ptr && k != reflect.Interface {
			return w.panic(c, name)
		}
		if v.elem == nil {
			return c.Return(w.term(&rval{}))
		}
		return c.Return(w.term(v.elem))
	case "IsNil":
		switch k {
		case reflect.Ptr, reflect.Interface:
			return c.Return(absint.Bool(v.elem == nil))
		case reflect.Func:
			return c.Return(absint.Bool(v.fn == nil && !v.made))
		}
		return w.panic(c, name)
	case "NumField":
		if st == nil {
			return w.panic(c, name)
		}
		return c.Return(absint.Int(int64(st.NumFields())))
	case "Field":
		i, ok := c.Args[1].IsInt()
		if !ok {
			return undecided(c)
		}
		if st == nil || i < 0 || i >= int64(len(v.field)) {
			return w.panic(c, name)
		}
		return c.Return(w.term(v.field[i]))
	case "FieldByName":
		s, ok := c.Args[1].Val.(string)
		if !ok {
			return undecided(c)
		}
		if st == nil {
			return w.panic(c, name)
		}
		p := findField(v.T, s)
		if p == nil {
			return c.Return(w.term(&rval{}))
		}
		at := v
		for n, i := range p {
			if n > 0 && kindOfType(at.T) == reflect.Ptr {
				if at.elem == nil {
					return w.panic(c, "field of a nil embedded pointer")
				}
				at = at.elem
			}
			at = at.field[i]
		}
		return c.Return(w.term(at))
	case "Pointer", "UnsafePointer":
		if k == reflect.Func {
			if v.fn == nil {
				return c.Return(absint.Int(0))
			}
			return c.Return(w.code(v.fn))
		}
		return undecided(c)
	case "Interface":
		return c.Return(absint.Mk("Iface", "", c.Args[0]))
	case "CanInterface", "CanAddr":
		return c.Return(absint.Bool(name == "CanInterface"))
	case "NumMethod":
		return c.Return(absint.Int(int64(len(exportedMethods(v.T)))))
	}
	return undecided(c)
}

// code is the address of a function's code.
func (w *rworld) code(f *rfn) *absint.Term {
	t := absint.Sym("code of " + f.code)
	w.text[t] = f.code
	return t
}

// abiStruct looks up a structure of the runtime's type descriptors.
func (w *rworld) abiStruct(name string) *types.Struct {
	o := w.abi.Scope().Lookup(name)
	need(o != nil, "internal/abi.%s", name)
	return o.Type().Underlying().(*types.Struct)
}

func (w *rworld) offset(s *types.Struct, field string) int64 {
	var fs []*types.Var
	at := -1
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, s.Field(i))
		if s.Field(i).Name() == field {
			at = i
		}
	}
	need(at >= 0, "field %s of a type descriptor", field)
	return w.in.Sizes.Offsetsof(fs)[at]
}

// image is what the descriptor of a type contains, by offset.
func (w *rworld) image(T types.Type) map[int64]*absint.Term {
	key := T.String()
	if m := w.known[key]; m != nil {
		return m
	}
	m := map[int64]*absint.Term{}
	w.known[key] = m
	wide := map[int64]int64{}
	if w.wide == nil {
		w.wide = map[string]map[int64]int64{}
	}
	w.wide[key] = wide
	put := func(at int64, s *types.Struct, field string, v *absint.Term) {
		at += w.offset(s, field)
		m[at] = v
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == field {
				wide[at] = w.in.Sizes.Sizeof(s.Field(i).Type())
			}
		}
	}
	ts := w.abiStruct("Type")
	ms := methodsOf(T)
	un := w.abiStruct("UncommonType")
	_, named := T.(*types.Named)
	uncommon := named || len(ms) > 0
	flag := int64(8) // regular memory
	if uncommon {
		flag |= 1
	}
	if named {
		flag |= 4
	}
	put(0, ts, "TFlag", absint.Int(flag))
	kindBits := int64(kindOfType(T))
	if k := kindOfType(T); k == reflect.Ptr || k == reflect.Func || k == reflect.Map {
		kindBits |= 1 << 5 // stored directly in interfaces
	}
	put(0, ts, "Kind_", absint.Int(kindBits))
	if !uncommon || types.IsInterface(T) {
		return m
	}
	base := w.in.Sizes.Sizeof(ts)
	for k, n := range map[reflect.Kind]string{reflect.Ptr: "PtrType", reflect.Func: "FuncType", reflect.Struct: "StructType", reflect.Slice: "SliceType", reflect.Array: "ArrayType", reflect.Chan: "ChanType"} {
		if kindOfType(T) == k {
			base = w.in.Sizes.Sizeof(w.abiStruct(n))
		}
	}
	base = (base + 7) &^ 7
	x := int64(0)
	for _, s := range ms {
		if s.Obj().Exported() {
			x++
		}
	}
	// the parameter and result types of a function type come before its methods
	moff := w.in.Sizes.Sizeof(un)
	if s, ok := T.Underlying().(*types.Signature); ok {
		moff += 8 * int64(s.Params().Len()+s.Results().Len())
	}
	put(base, un, "Mcount", absint.Int(int64(len(ms))))
	put(base, un, "Xcount", absint.Int(x))
	put(base, un, "Moff", absint.Int(moff))
	me := w.abiStruct("Method")
	off := func(v interface{}) *absint.Term {
		w.offs = append(w.offs, v)
		return absint.Int(int64(4096 + 16*len(w.offs)))
	}
	for i, s := range ms {
		at := base + moff + int64(i)*w.in.Sizes.Sizeof(me)
		f := methodFunc(T, s)
		put(at, me, "Name", off(nameOff{s.Obj().Name(), s.Obj().Exported()}))
		if w.dead && !s.Obj().Exported() {
			put(at, me, "Mtyp", absint.Int(-1))
			put(at, me, "Ifn", absint.Int(-1))
			put(at, me, "Tfn", absint.Int(-1))
			continue
		}
		sig := s.Obj().Type().(*types.Signature)
		put(at, me, "Mtyp", off(types.NewSignature(nil, anon(sig.Params()), anon(sig.Results()), sig.Variadic())))
		put(at, me, "Ifn", off(&rfn{code: "interface entry of " + f.code}))
		put(at, me, "Tfn", off(f))
	}
	return m
}

type nameOff struct {
	name     string
	exported bool
}

func (w *rworld) atOffset(t *absint.Term) interface{} {
	n, ok := t.IsInt()
	if !ok || n < 4096 || (n-4096)%16 != 0 || int((n-4096)/16) > len(w.offs) || n == 4096 {
		return nil
	}
	return w.offs[(n-4096)/16-1]
}

// flat splits an address into what it is in and the offset there.
func (w *rworld) flat(a *absint.Term) (*absint.Term, int64, bool) {
	switch a.Op {
	case "cast", "sliceof", "capped", "sliceptr":
		return w.flat(a.Args[0])
	case "sub":
		if a.Args[1] == absint.Int(0) {
			return w.flat(a.Args[0])
		}
		return nil, 0, false
	case "fa":
		s, _ := a.Val.(*types.Struct)
		if s == nil {
			return nil, 0, false
		}
		var fs []*types.Var
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, s.Field(i))
		}
		i, _ := strconv.Atoi(a.Aux[strings.LastIndex(a.Aux, "#")+1:])
		r, o, ok := w.flat(a.Args[0])
		return r, o + w.in.Sizes.Offsetsof(fs)[i], ok
	case "ia":
		n, ok := a.Args[1].IsInt()
		T := absint.Pointee(a)
		if b := a.Args[0]; T == nil {
			for b.Op == "sliceof" || b.Op == "capped" || b.Op == "sub" {
				b = b.Args[0]
			}
			if T, _ = b.Val.(types.Type); b.Op != "cast" {
				T = nil
			}
			if T != nil {
				switch u := T.Underlying().(type) {
				case *types.Array:
					T = u.Elem()
				case *types.Slice:
					T = u.Elem()
				}
			}
		}
		if !ok || T == nil {
			return nil, 0, false
		}
		r, o, ok := w.flat(a.Args[0])
		return r, o + n*w.in.Sizes.Sizeof(T), ok
	case "lin":
		if t, n, ok := absint.Plus(a); ok {
			r, o, ok := w.flat(t)
			return r, o + n, ok
		}
		return nil, 0, false
	}
	return a, 0, true
}

// byteAt reads a byte of a name.
func (w *rworld) nameBytes(n nameOff) []byte {
	b := []byte{0}
	if n.exported {
		b[0] = 1
	}
	l := len(n.name)
	for l >= 0x80 {
		b = append(b, byte(l|0x80))
		l >>= 7
	}
	return append(append(b, byte(l)), n.name...)
}

func (w *rworld) read(addr *absint.Term, T types.Type) *absint.Term {
	r, o, ok := w.flat(addr)
	if !ok {
		return nil
	}
	if s, ok := w.names[r]; ok {
		if o >= 0 && o < int64(len(s)) {
			return absint.Int(int64(s[o]))
		}
		return nil
	}
	D := w.descriptor(r)
	if D == nil {
		return nil
	}
	m := w.image(D)
	wide := w.wide[D.String()]
	// a part of a field, or more than it, is not what the runtime keeps there
	whole := func(o int64, T types.Type) bool {
		return wide[o] == 0 || T == nil || w.in.Sizes.Sizeof(T) == wide[o]
	}
	if T != nil {
		if st, ok := T.Underlying().(*types.Struct); ok {
			var fs []*types.Var
			for i := 0; i < st.NumFields(); i++ {
				fs = append(fs, st.Field(i))
			}
			var vs []*absint.Term
			for i, fo := range w.in.Sizes.Offsetsof(fs) {
				v := m[o+fo]
				if v == nil || w.in.Sizes.Sizeof(fs[i].Type()) > 8 || !whole(o+fo, fs[i].Type()) {
					v = absint.Init(absint.FieldAddr(addr, T, i))
				}
				vs = append(vs, v)
			}
			return absint.Struct(T, vs...)
		}
	}
	if !whole(o, T) {
		return nil
	}
	return m[o]
}

func (l *lookup) world() *rworld {
	in := l.m.Interp()
	in.Concrete, in.UserExits, in.Volatile, in.NoSnap, in.Recursion = true, false, nil, true, 12
	in.MaxSteps = 200000
	w := &rworld{in: in, pkg: l.pkg, abi: l.abi, vals: map[*absint.Term]*rval{}, terms: map[*rval]*absint.Term{}, known: map[string]map[int64]*absint.Term{},
		text: map[*absint.Term]string{}, names: map[*absint.Term]string{}}
	in.InitialT = w.read
	in.Text = func(p *absint.Term, n int64) (string, bool) {
		r, o, ok := w.flat(p)
		if !ok {
			return "", false
		}
		s, ok := w.names[r]
		if !ok || o < 0 || n < 0 || o+n > int64(len(s)) {
			return "", n == 0
		}
		return s[o : o+n], true
	}
	in.Invoke = func(c *absint.CallCtx) ([]*absint.Result, bool) {
		if c.Recv == absint.Nil {
			return w.panic(c, "method of a nil interface"), true
		}
		if c.Recv.Op != "rtype" {
			return nil, false
		}
		return w.typeMethod(c, c.Recv.Val.(types.Type), c.Name[strings.LastIndex(c.Name, ".")+1:]), true
	}
	in.External = map[string]absint.Intrinsic{
		"reflect.ValueOf": func(c *absint.CallCtx) []*absint.Result {
			v, ok := w.dynamic(c.Args[0])
			if !ok {
				return undecided(c)
			}
			return c.Return(w.term(v))
		},
		"reflect.TypeOf": func(c *absint.CallCtx) []*absint.Result {
			v, ok := w.dynamic(c.Args[0])
			if !ok {
				return undecided(c)
			}
			if v.T == nil {
				return c.Return(absint.Nil)
			}
			return c.Return(absint.RType(v.T))
		},
		"reflect.Indirect": func(c *absint.CallCtx) []*absint.Result {
			v, ok := w.value(c.Args[0])
			if !ok {
				return undecided(c)
			}
			if v.T != nil && kindOfType(v.T) == reflect.Ptr {
				if v.elem == nil {
					return c.Return(w.term(&rval{}))
				}
				return c.Return(w.term(v.elem))
			}
			return c.Return(c.Args[0])
		},
		"reflect.Zero": func(c *absint.CallCtx) []*absint.Result {
			if c.Args[0].Op != "rtype" {
				return undecided(c)
			}
			return c.Return(w.term(&rval{T: c.Args[0].Val.(types.Type)}))
		},
		"reflect.New": func(c *absint.CallCtx) []*absint.Result {
			if c.Args[0].Op != "rtype" {
				return undecided(c)
			}
			T := c.Args[0].Val.(types.Type)
			return c.Return(w.term(&rval{T: types.NewPointer(T), elem: &rval{T: T}}))
		},
		"reflect.MakeFunc": func(c *absint.CallCtx) []*absint.Result {
			if c.Args[0].Op != "rtype" {
				return undecided(c)
			}
			T := c.Args[0].Val.(types.Type)
			s, ok := T.Underlying().(*types.Signature)
			if !ok {
				return w.panic(c, "MakeFunc")
			}
			return c.Return(w.term(&rval{T: T, made: true, fn: &rfn{s, "made by reflect.MakeFunc"}}))
		},
		"reflect.FuncOf": func(c *absint.CallCtx) []*absint.Result {
			var ts [2][]*types.Var
			for k := 0; k < 2; k++ {
				l := in.Contents(c.St, c.Args[k])
				if l == absint.Nil || l.Op == "zero" {
					l = absint.List()
				}
				if l.Op != "list" {
					return undecided(c)
				}
				for _, t := range l.Args {
					if t.Op != "rtype" {
						return undecided(c)
					}
					ts[k] = append(ts[k], types.NewVar(token.NoPos, nil, "", t.Val.(types.Type)))
				}
			}
			v := c.Args[2]
			if v != absint.True && v != absint.False {
				return undecided(c)
			}
			if v == absint.True {
				if n := len(ts[0]); n == 0 || kindOfType(ts[0][n-1].Type()) != reflect.Slice {
					return w.panic(c, "FuncOf")
				}
			}
			return c.Return(absint.RType(types.NewSignature(nil, types.NewTuple(ts[0]...), types.NewTuple(ts[1]...), v == absint.True)))
		},
	}
	ptr := func(c *absint.CallCtx) []*absint.Result {
		if c.Args[0].Op != "rtype" {
			return undecided(c)
		}
		return c.Return(absint.RType(types.NewPointer(c.Args[0].Val.(types.Type))))
	}
	in.External["reflect.PtrTo"], in.External["reflect.PointerTo"] = ptr, ptr
	for _, n := range []string{"IsValid", "Kind", "Type", "Elem", "IsNil", "NumField", "Field", "FieldByName", "Pointer", "UnsafePointer", "Interface", "CanInterface", "CanAddr", "NumMethod", "String"} {
		n := n
		in.External["(reflect.Value)."+n] = func(c *absint.CallCtx) []*absint.Result { return w.valueMethod(c, n) }
	}
	stringModels(in)
	for f, remote := range l.linked {
		switch remote {
		case "reflect.resolveNameOff":
			in.Intrinsics[f] = func(c *absint.CallCtx) []*absint.Result {
				x, ok := w.atOffset(c.Args[1]).(nameOff)
				if !ok || w.descriptor(c.Args[0]) == nil {
					if c.Args[1] == absint.Int(0) {
						return c.Return(absint.Nil)
					}
					return w.panic(c, "a name is looked up with what is not the offset of a name")
				}
				t := absint.Sym("name " + x.name)
				c.St.Assume(absint.Eq(t, absint.Nil, false), false)
				w.names[t] = string(w.nameBytes(x))
				return c.Return(t)
			}
		case "reflect.resolveTypeOff":
			in.Intrinsics[f] = func(c *absint.CallCtx) []*absint.Result {
				if c.Args[1] == absint.Int(-1) || c.Args[1] == absint.Int(0) {
					return c.Return(absint.Nil)
				}
				T, ok := w.atOffset(c.Args[1]).(*types.Signature)
				if !ok || w.descriptor(c.Args[0]) == nil {
					return w.panic(c, "a type is looked up with what is not the offset of a type")
				}
				return c.Return(in.Word(absint.RType(T), 8, 8, nil))
			}
		case "reflect.resolveTextOff":
			in.Intrinsics[f] = func(c *absint.CallCtx) []*absint.Result {
				if c.Args[1] == absint.Int(-1) {
					return c.Return(w.code(&rfn{code: "a method the linker removed"}))
				}
				x, ok := w.atOffset(c.Args[1]).(*rfn)
				if !ok || w.descriptor(c.Args[0]) == nil {
					return w.panic(c, "a function is looked up with what is not the offset of a function")
				}
				return c.Return(w.code(x))
			}
		}
	}
	return w
}

// result describes the function in an interface.
func (w *rworld) result(st *absint.State, t *absint.Term) (sig types.Type, code string, ok bool) {
	for t.Op == "cast" {
		t = t.Args[0]
	}
	if t.Op == "Iface" {
		v, ok := w.value(t.Args[0])
		if !ok || v.T == nil {
			return nil, "", false
		}
		if v.fn == nil {
			return v.T, "nil", true
		}
		if v.made {
			p := w.in.Word(t.Args[0], 8, 8, nil)
			c := w.in.LoadAt(st, p, nil)
			if s, ok := w.text[c]; ok {
				return v.T, s, true
			}
			if c == absint.Int(0) {
				return v.T, "nil", true
			}
			return v.T, v.fn.code, true
		}
		return v.T, v.fn.code, true
	}
	T := w.descriptor(w.in.Word(t, 0, 8, nil))
	if T == nil {
		return nil, "", false
	}
	p := w.in.Word(t, 8, 8, nil)
	for p.Op == "cast" {
		p = p.Args[0]
	}
	if s, ok := w.text[p]; ok {
		return T, "the code of " + s + " taken for a function value", true
	}
	c := w.in.LoadAt(st, p, nil)
	if s, ok := w.text[c]; ok {
		return T, s, true
	}
	return T, "unknown code", true
}

type lookup struct {
	m      *Model
	r      *Report
	pkg    *types.Package
	abi    *types.Package
	linked map[*ssa.Function]string
}

func sigKey(t types.Type) string {
	if s, ok := t.(*types.Signature); ok {
		return types.NewSignature(nil, anon(s.Params()), anon(s.Results()), s.Variadic()).String()
	}
	return t.String()
}

// wanted is what a lookup may give.
type wanted struct {
	fns   map[string]bool // type + code
	must  bool            // no panic
	panic bool            // must panic
	why   string
}

func key(T types.Type, code string) string { return sigKey(T) + " " + code }

// tree visits an instance and the values embedded in it, what is nil marked as such.
func tree(v *rval, f func(x *rval, isNil bool)) {
	if v.T == nil {
		return
	}
	ind := func(x *rval) bool {
		return x != nil && x.T != nil && (kindOfType(x.T) == reflect.Ptr || kindOfType(x.T) == reflect.Interface)
	}
	f(v, ind(v) && v.elem == nil)
	x := v
	for ind(x) {
		x = x.elem
		if x != nil && x.T != nil {
			f(x, ind(x) && x.elem == nil)
		}
	}
	if x == nil || x.T == nil {
		return
	}
	if st, ok := x.T.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				tree(x.field[i], f)
			}
		}
	}
}

func (l *lookup) want(api string, v *rval, name string) *wanted {
	w := &wanted{fns: map[string]bool{}}
	if v.T == nil {
		w.panic = true
		return w
	}
	exported := name != "" && ast.IsExported(name)
	add := func(R types.Type, must, declared bool) {
		for _, s := range exportedMethods(R) {
			f := methodFunc(R, s)
			if s.Obj().Name() == name && (!declared || strings.HasPrefix(f.code, "method ")) && !types.IsInterface(R) {
				w.fns[key(f.sig, f.code)] = true
				w.must = w.must || must
			}
		}
	}
	if api == "GetPrivateMethod" {
		for _, s := range exportedMethods(v.T) {
			if s.Obj().Name() == name && exported {
				f := methodFunc(v.T, s)
				w.fns[key(f.sig, f.code)] = true
				w.must = true
			}
		}
		w.panic = !w.must
		return w
	}
	both := func(must, declared bool) {
		tree(v, func(x *rval, isNil bool) {
			if isNil && declared {
				return
			}
			add(x.T, must, declared)
			if kindOfType(x.T) != reflect.Ptr && kindOfType(x.T) != reflect.Interface {
				add(types.NewPointer(x.T), must, declared)
			}
		})
	}
	both(true, true)
	if w.must {
		return w
	}
	both(api == "GetMethod", false)
	if len(w.fns) > 0 {
		return w
	}
	if api == "GetNestedMethod" {
		w.panic = true
		return w
	}
	// function of a field
	x := v
	if kindOfType(x.T) == reflect.Ptr {
		x = x.elem
	}
	if x != nil && x.T != nil {
		if p := findField(x.T, name); p != nil {
			at, ok := x, true
			for n, i := range p {
				if n > 0 && kindOfType(at.T) == reflect.Ptr {
					if at = at.elem; at == nil {
						ok = false
						break
					}
				}
				at = at.field[i]
			}
			if ok && at.fn != nil {
				w.fns[key(at.T, at.fn.code)] = true
				w.must = true
				return w
			}
		}
	}
	// method found by name only
	for _, s := range methodsOf(v.T) {
		if s.Obj().Name() == name && !exported && !types.IsInterface(v.T) {
			f := methodFunc(v.T, s)
			w.fns[key(f.sig, f.code)] = true
			switch kindOfType(v.T) {
			case reflect.Ptr, reflect.Struct, reflect.Func:
				w.must = true
			}
		}
	}
	w.panic = len(w.fns) == 0
	return w
}

type instance struct {
	name string
	v    *rval
}

func (l *lookup) instances(w *rworld) (out []instance) {
	add := func(name string, v *rval) { out = append(out, instance{name, v}) }
	var names []string
	for _, n := range l.pkg.Scope().Names() {
		if _, ok := l.pkg.Scope().Lookup(n).(*types.TypeName); ok && n != "Face" {
			names = append(names, n)
		}
	}
	for _, n := range names {
		T := l.pkg.Scope().Lookup(n).Type()
		add(n, w.build(T, nil, 0))
		add("*"+n, w.build(types.NewPointer(T), nil, 0))
		add("nil *"+n, &rval{T: types.NewPointer(T)})
		for _, f := range []string{"Ptr", "Mid", "Face"} {
			if st, ok := T.Underlying().(*types.Struct); ok {
				p := findField(T, f)
				_ = st
				if p == nil {
					continue
				}
				if k := fieldKind(T, p); k != reflect.Ptr && k != reflect.Interface {
					continue
				}
				add(n+" with "+f+" nil", w.build(T, map[string]bool{f: true}, 0))
				add("*"+n+" with "+f+" nil", w.build(types.NewPointer(T), map[string]bool{f: true}, 0))
			}
		}
	}
	T := l.pkg.Scope().Lookup("Ptr").Type()
	add("**Ptr", w.build(types.NewPointer(types.NewPointer(T)), nil, 0))
	add("nil", &rval{})
	return
}

func fieldKind(T types.Type, p []int) reflect.Kind {
	at := T
	for _, i := range p {
		at = deref(at).Underlying().(*types.Struct).Field(i).Type()
	}
	return kindOfType(at)
}

// lookupNames are the names looked up on every instance.
var lookupNames = []string{"A", "Ab", "AA", "a", "aB", "ab", "b", "bb", "bc", "B", "c", "d", "f", "G", "h", "k", "n", "nilF", "Own", "Top", "M", "Side", "Field", "Other", "Val", "Ring", "r", "z", "zz", "Zz", "_", "LONG", "long", "LONGX", "longx"}

func ruleLookup(c *Ctx, r *Report) { lookupOn(c, r, Linux) }

// ruleRuntimeTypes looks methods up in the type descriptors of the other releases and processors.
func ruleRuntimeTypes(c *Ctx, r *Report) {
	cfgs := releases("linux", "amd64", "")
	if c.Thorough {
		cfgs = append(cfgs, releases("linux", "arm64", "")...)
	}
	for _, cfg := range cfgs {
		if cfg == Linux {
			continue
		}
		r.Config = cfg.String()
		lookupOn(c, r, cfg)
	}
	r.Config = ""
}

func lookupOn(c *Ctx, r *Report, cfg load.Config) {
	m := c.Model(cfg)
	lo := c.Low(cfg)
	pkg, err := userTypes()
	need(err == nil, "the instance types (%v)", err)
	l := &lookup{m: m, r: r, pkg: pkg, linked: map[*ssa.Function]string{}}
	for _, p := range m.P.SSA.AllPackages() {
		if p.Pkg.Path() == "internal/abi" {
			l.abi = p.Pkg
		}
	}
	need(l.abi != nil, "internal/abi of the toolchain")
	for f := range m.allFuncs() {
		if f.Pkg != nil && f.Parent() == nil && len(f.Blocks) == 0 && m.P.InModule(f.Pkg.Pkg.Path()) {
			if remote := lo.links[f.Pkg.Pkg.Path()+"."+f.Name()]; remote != "" {
				l.linked[f] = remote
			}
		}
	}
	for _, p := range m.P.SSAPkg {
		for _, mem := range p.Members {
			if f, ok := mem.(*ssa.Function); ok && len(f.Blocks) == 0 {
				if remote := lo.links[p.Pkg.Path()+"."+f.Name()]; remote != "" {
					l.linked[f] = remote
				}
			}
		}
	}
	for _, api := range []string{"GetMethod", "GetNestedMethod", "GetPrivateMethod"} {
		f := m.Root.Func(api)
		need(f != nil, "%s", api)
		for _, dead := range []bool{false, true} {
			if dead && api != "GetMethod" {
				continue
			}
			l.api(api, f, dead)
		}
	}
}

func (l *lookup) api(api string, f *ssa.Function, dead bool) {
	r := l.r
	w := l.world()
	w.dead = dead
	for _, inst := range l.instances(w) {
		for _, name := range lookupNames {
			name = strings.NewReplacer("LONG", "L"+longName("O"), "long", "l"+longName("o")).Replace(name)
			if dead && ast.IsExported(name) {
				continue
			}
			arg := absint.Nil
			if inst.v.T != nil {
				arg = absint.Mk("Iface", "", w.term(inst.v))
			}
			w.in.Steps = 0
			res := w.in.Call(absint.NewState(), f, []*absint.Term{arg, absint.Str(name)}, nil, "L")
			r.Paths += len(res)
			shown := name
			if len(shown) > 20 {
				shown = fmt.Sprintf("%s… (%d bytes)", name[:3], len(name))
			}
			what := fmt.Sprintf("%s of %q on %s", api, shown, inst.name)
			if dead {
				what += " whose unexported methods the linker removed"
			}
			r.Ob(what)
			want := l.want(api, inst.v, name)
			bad := func(msg string, more ...string) {
				r.Bad(api, l.m.P.Pos(f.Pos()), msg, append([]string{what}, more...)...)
			}
			if len(res) != 1 || res[0].Kind == absint.XUndecided || res[0].Kind == absint.XGoexit {
				var more []string
				if len(res) > 0 {
					for _, x := range res[0].St.Lits() {
						more = append(more, x.String())
					}
				}
				bad(fmt.Sprintf("undecided: the lookup ends in %d ways", len(res)), more...)
				continue
			}
			x := res[0]
			if x.Kind == absint.XPanic {
				if want.must && !dead {
					bad("fails for a name the instance has")
				}
				continue
			}
			if len(x.Vals) != 1 {
				bad("undecided: no single result")
				continue
			}
			T, code, ok := w.result(x.St, x.Vals[0])
			if !ok {
				if x.Vals[0] == absint.Nil {
					bad("returns nil where it must panic")
				} else {
					bad("undecided: unknown result " + x.Vals[0].String())
				}
				continue
			}
			switch {
			case dead && strings.HasPrefix(code, "a method the linker"):
				bad("returns code that the linker removed")
			case want.panic:
				bad("returns a function although the instance has none of that name")
			case !want.fns[key(T, code)]:
				msg := "returns another function than the one of that name"
				got := []string{"got " + key(T, code)}
				for k := range want.fns {
					if strings.HasSuffix(k, " "+code) {
						msg = "returns the function with a type other than its own"
					}
					got = append(got, "or want "+k)
				}
				bad(msg, got...)
			}
		}
	}
	for f := range w.in.Entered {
		r.Functions[fnKey(f)] = true
	}
}
