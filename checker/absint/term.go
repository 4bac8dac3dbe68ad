// Package absint is a path-sensitive abstract interpreter over go/ssa.
//
// Values are abstracted to hash-consed value-number terms, memory to cells named by
// address terms, integers to linear forms. Control flow is partitioned by the
// branches taken; loops are not unrolled but summarised: one generic iteration is
// analysed from a havocked state, induction variables, appended slices and linear
// relations are recognised and the summary is used for what follows the loop.
// Nothing is executed and no constraint solver is involved; feasibility of branches
// is decided from recorded branch facts and linear inequalities only.
package absint

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed symbolic value.
type Term struct {
	ID   int
	Op   string
	Args []*Term
	Aux  string
	Val  interface{} // *ssa.Function, types.Type, *Comp ...
	bv   bool        // contains the bound variable
}

type table struct {
	m map[string]*Term
	n int
}

var tab = &table{m: map[string]*Term{}}

// ResetTerms forgets all terms (terms of different programs must not be mixed).
func ResetTerms() { tab = &table{m: map[string]*Term{}}; initConsts() }

// universe names the program whose functions and types terms refer to: terms of
// different programs are different even when these have the same names.
var universe string

// SetProgram says which program the terms made from now on are about.
func SetProgram(p *ssa.Program) { universe = fmt.Sprintf("%p", p) }

func raw(op, aux string, val interface{}, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	if val != nil {
		sb.WriteByte('@')
		sb.WriteString(universe)
	}
	k := sb.String()
	if t, ok := tab.m[k]; ok {
		return t
	}
	tab.n++
	t := &Term{ID: tab.n, Op: op, Aux: aux, Val: val, Args: args}
	t.bv = op == "bv"
	for _, a := range args {
		if a.bv {
			t.bv = true
		}
	}
	if c, ok := val.(*Comp); ok && c != nil {
		// the comprehension binds its own variable
		_ = c
	}
	tab.m[k] = t
	return t
}

var (
	True, False, Nil *Term
	BV               *Term // bound variable of comprehensions and quantified cells
)

func initConsts() {
	True = raw("true", "", nil)
	False = raw("false", "", nil)
	Nil = raw("nil", "", nil)
	BV = raw("bv", "", nil)
}

func init() { initConsts() }

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 7 {
		return "…"
	}
	switch t.Op {
	case "true", "false", "nil":
		return t.Op
	case "int", "str", "rtype":
		return t.Aux
	case "lin":
		m, c := linOf(t)
		var ks []*Term
		for k := range m {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
		var s []string
		for _, k := range ks {
			switch m[k] {
			case 1:
				s = append(s, k.str(d+1))
			default:
				s = append(s, fmt.Sprintf("%d*%s", m[k], k.str(d+1)))
			}
		}
		if c != 0 {
			s = append(s, strconv.FormatInt(c, 10))
		}
		return "(" + strings.Join(s, "+") + ")"
	case "func":
		return t.Val.(*ssa.Function).Name()
	case "alloc":
		return "new#" + shortPath(t.Aux) + argStr(t, d)
	case "sym", "param", "kap":
		if t.Op == "param" {
			return "p:" + strings.SplitN(t.Aux, " ", 2)[0]
		}
		return t.Op[:1] + ":" + shortPath(t.Aux) + argStr(t, d)
	case "fa":
		return t.Args[0].str(d+1) + "." + fieldName(t)
	case "ia":
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case "init":
		return "*" + t.Args[0].str(d+1)
	case "comp":
		c := t.Val.(*Comp)
		var s []string
		for _, a := range c.Alts {
			s = append(s, a.str(d+1))
		}
		return "{" + strings.Join(s, " / ") + " | i<" + c.N.str(d+1) + "}"
	case "ge0":
		return t.Args[0].str(d+1) + ">=0"
	case "eq0":
		return t.Args[0].str(d+1) + "==0"
	case "eq":
		return t.Args[0].str(d+1) + "==" + t.Args[1].str(d+1)
	case "not":
		return "!" + t.Args[0].str(d+1)
	}
	s := t.Op
	if t.Aux != "" {
		s += "<" + shortPath(t.Aux) + ">"
	}
	return s + argStr(t, d)
}

func shortPath(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return "…" + s[i+1:]
	}
	return s
}

func argStr(t *Term, d int) string {
	if len(t.Args) == 0 {
		return ""
	}
	var s []string
	for _, a := range t.Args {
		s = append(s, a.str(d+1))
	}
	return "(" + strings.Join(s, ",") + ")"
}

func fieldName(t *Term) string {
	if st, ok := t.Val.(*types.Struct); ok {
		i, _ := strconv.Atoi(t.Aux[strings.LastIndex(t.Aux, "#")+1:])
		if i < st.NumFields() {
			return st.Field(i).Name()
		}
	}
	return t.Aux
}

// ---- constants ----

func Int(n int64) *Term  { return raw("int", strconv.FormatInt(n, 10), n) }
func Str(s string) *Term { return raw("str", strconv.Quote(s), s) }
func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func Sym(name string, args ...*Term) *Term { return raw("sym", name, nil, args...) }
func Param(name string) *Term              { return raw("param", name, nil) }

// ParamOf stands for the value of a parameter.
func ParamOf(p *ssa.Parameter) *Term { return raw("param", p.Name()+" "+TypeKey(p.Type()), p.Type()) }

func FuncTerm(f *ssa.Function) *Term { return raw("func", fmt.Sprintf("%p", f), f) }
func GlobalAddr(g *ssa.Global) *Term { return raw("glob", g.Pkg.Pkg.Path()+"."+g.Name(), g) }
func RType(t types.Type) *Term       { return raw("rtype", TypeKey(t), t) }
func (t *Term) IsInt() (int64, bool) {
	if t.Op == "int" {
		return t.Val.(int64), true
	}
	return 0, false
}

// TypeKey is the canonical spelling of a type.
func TypeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func ConstTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return Zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		if v, ok := constant.Int64Val(c.Value); ok {
			return Int(v)
		}
		return raw("bigint", c.Value.ExactString(), c.Value)
	}
	return raw("const", c.Value.ExactString(), c.Value)
}

// Zero is the zero value of a type.
func Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return Nil
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return Nil
	}
	return raw("zero", TypeKey(t), t)
}

// ---- integers: linear forms ----

// LinOf splits a linear term into its atoms with their factors and a constant.
func LinOf(t *Term) (map[*Term]int64, int64, bool) {
	m, c := linOf(t)
	return m, c, t.Op == "lin"
}

func linOf(t *Term) (map[*Term]int64, int64) {
	switch t.Op {
	case "int":
		return map[*Term]int64{}, t.Val.(int64)
	case "lin":
		l := t.Val.(*linForm)
		m := make(map[*Term]int64, len(l.co))
		for i, a := range t.Args {
			m[a] = l.co[i]
		}
		return m, l.c
	}
	return map[*Term]int64{t: 1}, 0
}

type linForm struct {
	co []int64
	c  int64
}

func mkLin(m map[*Term]int64, c int64) *Term {
	var ks []*Term
	for k, v := range m {
		if v != 0 {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return Int(c)
	}
	if len(ks) == 1 && m[ks[0]] == 1 && c == 0 {
		return ks[0]
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	l := &linForm{c: c}
	aux := strconv.FormatInt(c, 10)
	for _, k := range ks {
		l.co = append(l.co, m[k])
		aux += "," + strconv.FormatInt(m[k], 10)
	}
	return raw("lin", aux, l, ks...)
}

func Add(a, b *Term) *Term { return linComb(a, 1, b, 1) }
func Sub(a, b *Term) *Term { return linComb(a, 1, b, -1) }
func linComb(a *Term, ka int64, b *Term, kb int64) *Term {
	m, c := linOf(a)
	for k := range m {
		m[k] *= ka
	}
	c *= ka
	m2, c2 := linOf(b)
	for k, v := range m2 {
		m[k] += kb * v
	}
	return mkLin(m, c+kb*c2)
}
func MulC(a *Term, k int64) *Term { return linComb(a, k, Int(0), 1) }

// Ge0 is the atom t >= 0 (mathematical integers).
func Ge0(t *Term) *Term {
	if n, ok := t.IsInt(); ok {
		return Bool(n >= 0)
	}
	m, c := linOf(t)
	// divide by gcd of the coefficients, rounding the constant down
	var g int64
	for _, v := range m {
		g = gcd(g, abs(v))
	}
	if g > 1 {
		for k := range m {
			m[k] /= g
		}
		c = floorDiv(c, g)
		t = mkLin(m, c)
	}
	// nonneg atoms: len(x) >= 0 etc.
	all := c >= 0
	for k, v := range m {
		if v < 0 || !nonNeg(k) {
			all = false
		}
	}
	if all {
		return True
	}
	neg := c < 0
	for k, v := range m {
		if v > 0 || !nonNeg(k) {
			neg = false
		}
	}
	if neg {
		return False
	}
	return raw("ge0", "", nil, t)
}

func nonNeg(t *Term) bool {
	switch t.Op {
	case "len", "cap", "kap", "NumIn", "NumOut", "NumField", "NumMethod":
		return true
	case "bv":
		return true
	}
	return false
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func abs(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func Lt(a, b *Term) *Term { return Ge0(Sub(Sub(b, a), Int(1))) }
func Le(a, b *Term) *Term { return Ge0(Sub(b, a)) }

func Not(t *Term) *Term {
	switch t.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return t.Args[0]
	}
	return raw("not", "", nil, t)
}

func isConst(t *Term) bool {
	switch t.Op {
	case "int", "str", "true", "false", "nil", "const", "bigint", "func", "rtype":
		return true
	}
	return false
}

// nonNil reports that a term is certainly a non-nil reference.
func nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "glob", "fa", "func", "closure", "iface", "list", "comp", "rtype", "bound", "mkslice", "mkmap", "ia", "rtypeof", "FuncOf", "rval2":
		return true
	case "sliceof":
		return true
	case "cat":
		// an append result with at least one appended element
		for _, a := range t.Args {
			if a.Op == "list" && len(a.Args) > 0 {
				return true
			}
		}
	case "Iface":
		// the interface of a function made or a value
		switch t.Args[0].Op {
		case "MakeFunc", "New", "ValueOf":
			return true
		}
	}
	return false
}

// Eq is the atom a == b. num tells that both are integers.
func Eq(a, b *Term, num bool) *Term {
	if a == b {
		return True
	}
	if !num {
		// a pointer is nil whatever it is seen as pointing to
		if b == Nil && a.Op == "cast" {
			a = a.Args[0]
		} else if a == Nil && b.Op == "cast" {
			b = b.Args[0]
		}
		// reflect.TypeOf(x) == nil
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if p[1] == Nil && p[0].Op == "Type" && p[0].Args[0].Op == "ValueOf" {
				return Eq(p[0].Args[0].Args[0], Nil, false)
			}
		}
	}
	if num {
		d := Sub(a, b)
		if n, ok := d.IsInt(); ok {
			return Bool(n == 0)
		}
		m, c := linOf(d)
		var first *Term
		for k := range m {
			if first == nil || k.ID < first.ID {
				first = k
			}
		}
		if m[first] < 0 {
			d = MulC(d, -1)
			m, c = linOf(d)
		}
		// len(x) == -1 and the like
		pos, neg := c > 0, c < 0
		for k, v := range m {
			if v < 0 || !nonNeg(k) {
				pos = false
			}
			if v > 0 || !nonNeg(k) {
				neg = false
			}
		}
		if pos || neg {
			return False
		}
		return raw("eq0", "", nil, d)
	}
	if isConst(a) && isConst(b) && a.Op != "const" && b.Op != "const" {
		return False
	}
	if (a == Nil && nonNil(b)) || (b == Nil && nonNil(a)) {
		return False
	}
	if a.Op == "iface" && b.Op == "iface" {
		if a.Aux != b.Aux {
			return False
		}
		return Eq(a.Args[0], b.Args[0], isNumType(a.Val))
	}
	// b == true
	if a == True {
		return b
	}
	if b == True {
		return a
	}
	if a == False {
		return Not(b)
	}
	if b == False {
		return Not(a)
	}
	if distinctObjects(a, b) {
		return False
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return raw("eq", "", nil, a, b)
}

func distinctObjects(a, b *Term) bool {
	return a.Op == "alloc" && b.Op == "alloc" && (a.Aux != b.Aux)
}

func isNumType(v interface{}) bool {
	t, ok := v.(types.Type)
	if !ok || t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// ---- slices ----

// Comp is the comprehension "for bv in [0,N): one of Alts".
type Comp struct {
	Alts []Alt
	N    *Term
}

// Alt is a guarded value; both mention the bound variable.
type Alt struct {
	Guards []Lit
	Val    *Term
}

// Lit is a literal: an atom and its truth value.
type Lit struct {
	T   *Term
	Pos bool
}

func (l Lit) String() string {
	if l.Pos {
		return l.T.String()
	}
	return "!(" + l.T.String() + ")"
}

func (a Alt) str(d int) string {
	s := ""
	for _, g := range a.Guards {
		s += g.String() + " & "
	}
	if s != "" {
		s = s[:len(s)-3] + " => "
	}
	return s + a.Val.str(d)
}

func mkComp(alts []Alt, n *Term) *Term {
	if v, ok := n.IsInt(); ok && v == 0 {
		return List()
	}
	// all the parameter or result types of a function type built from a list
	if len(alts) == 1 && len(alts[0].Guards) == 0 {
		v := alts[0].Val
		if (v.Op == "In" || v.Op == "Out") && len(v.Args) == 2 && v.Args[1] == BV && v.Args[0].Op == "FuncOf" && !v.Args[0].bv {
			x := v.Args[0].Args[0]
			if v.Op == "Out" {
				x = v.Args[0].Args[1]
			}
			if Len(x) == n {
				return x
			}
		}
	}
	// an element copied unchanged: a piece of another slice
	if len(alts) == 1 && len(alts[0].Guards) == 0 {
		v := alts[0].Val
		if v.Op == "init" && v.Args[0].Op == "ia" && !v.Args[0].Args[0].bv {
			off := Sub(v.Args[0].Args[1], BV)
			if !off.bv {
				return SubSlice(v.Args[0].Args[0], off, Add(off, n))
			}
		}
	}
	// a fixed small number of elements
	if v, ok := n.IsInt(); ok && v > 0 && v <= 32 && len(alts) == 1 && len(alts[0].Guards) == 0 {
		var es []*Term
		for i := int64(0); i < v; i++ {
			es = append(es, Subst(alts[0].Val, BV, Int(i)))
		}
		return List(es...)
	}
	aux := ""
	args := []*Term{n}
	for _, a := range alts {
		gs := append([]Lit(nil), a.Guards...)
		sort.Slice(gs, func(i, j int) bool { return gs[i].T.ID < gs[j].T.ID })
		aux += "["
		for _, g := range gs {
			if g.Pos {
				aux += "+" + strconv.Itoa(g.T.ID)
			} else {
				aux += "-" + strconv.Itoa(g.T.ID)
			}
		}
		aux += ":" + strconv.Itoa(a.Val.ID) + "]"
	}
	t := raw("comp", aux, &Comp{Alts: alts, N: n}, args...)
	t.bv = n.bv // the bound variable inside Alts is bound here
	return t
}

// List is a slice with the given elements and backing memory of its own.
func List(e ...*Term) *Term { return raw("list", "", nil, e...) }

// SubSlice is s[lo:hi] as far as its elements go.
func SubSlice(s, lo, hi *Term) *Term {
	if s.Op == "sub" {
		return SubSlice(s.Args[0], Add(s.Args[1], lo), Add(s.Args[1], hi))
	}
	if lo == hi {
		if s.Op == "sub" || s.Op == "cat" || s.Op == "list" || s.Op == "comp" {
			return List()
		}
	}
	if n, ok := lo.IsInt(); ok && n == 0 && hi == Len(s) {
		return s
	}
	if s.Op == "list" {
		a, ok1 := lo.IsInt()
		b, ok2 := hi.IsInt()
		if ok1 && ok2 && a >= 0 && b <= int64(len(s.Args)) && a <= b {
			return List(s.Args[a:b]...)
		}
	}
	if s.Op == "cat" {
		// cut whole leading parts
		if n, ok := lo.IsInt(); ok && s.Args[0].Op == "list" && hi == Len(s) && n <= int64(len(s.Args[0].Args)) {
			parts := append([]*Term{List(s.Args[0].Args[n:]...)}, s.Args[1:]...)
			return Cat(parts...)
		}
	}
	return raw("sub", "", nil, s, lo, hi)
}

// Cat concatenates slice contents.
func Cat(parts ...*Term) *Term {
	var out []*Term
	var add func(p *Term)
	add = func(p *Term) {
		switch {
		case p == Nil:
			return
		case p.Op == "list" && len(p.Args) == 0:
			return
		case p.Op == "cat":
			for _, x := range p.Args {
				add(x)
			}
			return
		}
		if len(out) > 0 {
			l := out[len(out)-1]
			if l.Op == "list" && p.Op == "list" {
				out[len(out)-1] = List(append(append([]*Term(nil), l.Args...), p.Args...)...)
				return
			}
			// s[a:b] ++ s[b:c]
			if l.Op == "sub" && p.Op == "sub" && l.Args[0] == p.Args[0] && l.Args[2] == p.Args[1] {
				out[len(out)-1] = SubSlice(l.Args[0], l.Args[1], p.Args[2])
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		add(p)
	}
	// [.., s[i]] ++ s[i+1:j]  ->  .. ++ s[i:j]
	for k := 0; k+1 < len(out); k++ {
		l, p := out[k], out[k+1]
		if l.Op != "list" {
			continue
		}
		e := l.Args[len(l.Args)-1]
		if e.Op == "init" && e.Args[0].Op == "ia" {
			base, idx := e.Args[0].Args[0], e.Args[0].Args[1]
			var nw *Term
			if p.Op == "sub" && p.Args[0] == base && p.Args[1] == Add(idx, Int(1)) {
				nw = SubSlice(base, idx, p.Args[2])
			}
			if nw != nil {
				var rest []*Term
				rest = append(rest, out[:k]...)
				if len(l.Args) > 1 {
					rest = append(rest, List(l.Args[:len(l.Args)-1]...))
				}
				rest = append(rest, nw)
				rest = append(rest, out[k+2:]...)
				return Cat(rest...)
			}
		}
	}
	switch len(out) {
	case 0:
		return List()
	case 1:
		if out[0].Op == "list" || out[0].Op == "comp" {
			return out[0]
		}
	}
	return raw("cat", "", nil, out...)
}

// Len is len(s).
func Len(s *Term) *Term {
	switch s.Op {
	case "nil":
		return Int(0)
	case "list":
		return Int(int64(len(s.Args)))
	case "str":
		return Int(int64(len(s.Val.(string))))
	case "comp":
		return s.Val.(*Comp).N
	case "sub":
		return Sub(s.Args[2], s.Args[1])
	case "cat":
		n := Int(0)
		for _, a := range s.Args {
			n = Add(n, Len(a))
		}
		return n
	case "mkslice":
		return s.Args[1]
	case "sliceof": // sliceof(array address, lo, hi, max)
		return Sub(s.Args[2], s.Args[1])
	case "bytesOf":
		return s.Args[1]
	case "copyof":
		return Len(s.Args[0])
	}
	return raw("len", "", nil, s)
}

// Cap is cap(s).
func Cap(s *Term) *Term {
	switch s.Op {
	case "nil":
		return Int(0)
	case "sliceof":
		return Sub(s.Args[3], s.Args[1])
	case "capped":
		return s.Args[1]
	case "mkslice", "bytesOf":
		return s.Args[2]
	case "sub":
		return Sub(Cap(s.Args[0]), s.Args[1])
	}
	return raw("cap", "", nil, s)
}

// ---- generic construction and substitution ----

func mk(op, aux string, val interface{}, args ...*Term) *Term {
	switch op {
	case "lin":
		l := val.(*linForm)
		r := Int(l.c)
		for i, a := range args {
			r = Add(r, MulC(a, l.co[i]))
		}
		return r
	case "ge0":
		return Ge0(args[0])
	case "eq0":
		return Eq(args[0], Int(0), true)
	case "eq":
		return Eq(args[0], args[1], false)
	case "not":
		return Not(args[0])
	case "len":
		return Len(args[0])
	case "cap":
		return Cap(args[0])
	case "sub":
		return SubSlice(args[0], args[1], args[2])
	case "cat":
		return Cat(args...)
	case "ia":
		return IndexAddr(args[0], args[1])
	case "field":
		return FieldOf(args[0], aux, val)
	case "init":
		return raw(op, aux, val, args...)
	}
	if f, ok := simplifiers[op]; ok {
		return f(aux, val, args)
	}
	return raw(op, aux, val, args...)
}

// Mk builds a term, simplifying it.
func Mk(op, aux string, args ...*Term) *Term { return mk(op, aux, nil, args...) }

var simplifiers = map[string]func(aux string, val interface{}, args []*Term) *Term{}

// IndexAddr is &s[i].
func IndexAddr(s, i *Term) *Term {
	switch s.Op {
	case "sub":
		return IndexAddr(s.Args[0], Add(s.Args[1], i))
	case "sliceof":
		return IndexAddr(s.Args[0], Add(s.Args[1], i))
	case "capped":
		return IndexAddr(s.Args[0], i)
	}
	return raw("ia", "", nil, s, i)
}

// FieldOf selects a field of a struct value.
func FieldOf(v *Term, aux string, val interface{}) *Term {
	st, _ := val.(*types.Struct)
	i, _ := strconv.Atoi(aux[strings.LastIndex(aux, "#")+1:])
	if v.Op == "struct" && i < len(v.Args) {
		return v.Args[i]
	}
	if v.Op == "zero" && st != nil && i < st.NumFields() {
		return Zero(st.Field(i).Type())
	}
	return raw("field", aux, val, v)
}

type subster struct {
	from, to *Term
	memo     map[*Term]*Term
}

// Subst replaces a term by another one, re-simplifying.
func Subst(t, from, to *Term) *Term {
	s := &subster{from, to, map[*Term]*Term{}}
	return s.do(t)
}

func (s *subster) do(t *Term) *Term {
	if t == nil {
		return nil
	}
	if t == s.from {
		return s.to
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	r := t
	if c, ok := t.Val.(*Comp); ok && t.Op == "comp" {
		n := s.do(c.N)
		alts := c.Alts
		if s.from != BV {
			alts = nil
			for _, a := range c.Alts {
				alts = append(alts, s.alt(a))
			}
		}
		r = mkComp(alts, n)
	} else if len(t.Args) > 0 {
		ch := false
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = s.do(a)
			if args[i] != a {
				ch = true
			}
		}
		if ch {
			r = mk(t.Op, t.Aux, t.Val, args...)
		}
	}
	s.memo[t] = r
	return r
}

func (s *subster) alt(a Alt) Alt {
	var gs []Lit
	for _, g := range a.Guards {
		gs = append(gs, s.lit(g))
	}
	return Alt{gs, s.do(a.Val)}
}

func (s *subster) lit(l Lit) Lit {
	t := s.do(l.T)
	if t.Op == "not" {
		return Lit{t.Args[0], !l.Pos}
	}
	return Lit{t, l.Pos}
}

// Contains reports that x occurs in t.
func Contains(t, x *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		if t == x {
			return true
		}
		seen[t] = true
		for _, a := range t.Args {
			if f(a) {
				return true
			}
		}
		if c, ok := t.Val.(*Comp); ok && t.Op == "comp" {
			for _, a := range c.Alts {
				if f(a.Val) {
					return true
				}
				for _, g := range a.Guards {
					if f(g.T) {
						return true
					}
				}
			}
		}
		return false
	}
	return f(t)
}

// AllOf is the list of all In or Out types of a function type.
func AllOf(op string, T *Term) *Term {
	return mkComp([]Alt{{Val: Mk(op, "", T, BV)}}, Mk("Num"+op, "", T))
}

// Walk visits all subterms.
func Walk(t *Term, f func(*Term)) { WalkIf(t, func(x *Term) bool { f(x); return true }) }

// WalkIf visits subterms; f tells whether to go into a term.
func WalkIf(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.Args {
			w(a)
		}
		if c, ok := t.Val.(*Comp); ok && t.Op == "comp" {
			for _, a := range c.Alts {
				w(a.Val)
				for _, g := range a.Guards {
					w(g.T)
				}
			}
		}
	}
	w(t)
}

// match unifies pattern p (mentioning the bound variable) with t; it returns the
// value of the bound variable.
func match(p, t *Term, bind **Term) bool {
	if p == BV {
		if *bind == nil {
			*bind = t
			return true
		}
		return *bind == t
	}
	if !p.bv {
		return p == t
	}
	if p.Op == "lin" {
		// pattern c*bv + rest
		m, _ := linOf(p)
		k := m[BV]
		for a := range m {
			if a != BV && a.bv {
				return false
			}
		}
		if k != 1 && k != -1 {
			return false
		}
		rest := Sub(p, MulC(BV, k))
		v := MulC(Sub(t, rest), k)
		if *bind == nil {
			*bind = v
			return true
		}
		return *bind == v
	}
	if p.Op != t.Op || p.Aux != t.Aux || len(p.Args) != len(t.Args) {
		return false
	}
	if p.Op == "comp" {
		return p == t
	}
	for i := range p.Args {
		if !match(p.Args[i], t.Args[i], bind) {
			return false
		}
	}
	return true
}

// IsType is the atom that the dynamic type of an interface value is T, or implements it.
func IsType(x *Term, T types.Type) *Term {
	p := "="
	if types.IsInterface(T) {
		p = "~"
	}
	return raw("istype", p+TypeKey(T), T, x)
}

// EqSides are the two terms an equality compares.
func EqSides(t *Term) (a, b *Term, ok bool) {
	switch t.Op {
	case "eq":
		return t.Args[0], t.Args[1], true
	case "eq0":
		m, c := linOf(t.Args[0])
		if c != 0 || len(m) != 2 {
			return nil, nil, false
		}
		for k, v := range m {
			switch v {
			case 1:
				a = k
			case -1:
				b = k
			}
		}
		return a, b, a != nil && b != nil
	}
	return nil, nil, false
}
